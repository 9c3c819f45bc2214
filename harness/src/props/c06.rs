//! C06: byte, tandem and error payloads
use super::c03::mutate;
use crate::alloc;
use crate::codec;
use crate::core::*;
use crate::fix::*;
use crate::rng::*;
use crate::sim::*;
use crate::{boxed, both, ensure};
use bromine::bytes::Bytes;
use bromine::error_event::ErrorEventData;
use bromine::event::Event;
use bromine::prelude::*;
use std::io::Read;
use std::sync::{Arc, Mutex};

pub fn fams() -> Vec<Fam> {
    vec![
        fam("shapes", 200, 6000, boxed!(shapes)),
        fam("error_data", 60, 2000, boxed!(error_data)),
        fam("cut_short", 80, 2000, boxed!(cut_short)),
        fam("hostile", 120, 4000, boxed!(hostile)),
        fam("lengths", 20, 200, boxed!(lengths)),
        fam("exchange", 120, 3000, boxed!(exchange)),
        fam("large", 4, 16, boxed!(large)),
    ]
}

pub struct Pieces<'a> {
    pub b: &'a [u8],
    pub r: Rng,
    pub whole: bool,
}
impl<'a> Read for Pieces<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if !self.whole && self.r.chance(100) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let max = if self.whole { usize::MAX } else { 1 + self.r.idx(9) };
        let n = self.b.len().min(buf.len()).min(max);
        buf[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}

/// A value of a payload type, with the bytes it has to be laid out as
pub trait Shape: IntoPayload + FromPayload + Send + Sync + 'static {
    fn make(r: &mut Rng, max: usize) -> (Self, Vec<u8>);
    /// Bytes that a decoded value stands for
    fn bytes(self) -> Vec<u8>;
    const NAME: &'static str;
    /// Trailing bytes belong to the value
    const OPEN: bool = false;
}

impl Shape for BytePayload {
    fn make(r: &mut Rng, max: usize) -> (Self, Vec<u8>) {
        let n = if r.chance(250) { 0 } else { r.len(max) };
        let b = r.bytes(n);
        let p = if r.chance(500) { BytePayload::new(b.clone()) } else { BytePayload::from(Bytes::from(b.clone()).slice(0..)) };
        (p, b)
    }
    fn bytes(self) -> Vec<u8> {
        let mut a = self.clone().into_inner();
        let b = self.into_bytes();
        if a != b[..] {
            a.extend(b"<into_bytes and into_inner differ>");
        }
        a
    }
    const NAME: &'static str = "bytes";
    const OPEN: bool = true;
}
impl Shape for ErrorEventData {
    fn make(r: &mut Rng, max: usize) -> (Self, Vec<u8>) {
        let code = *r.pick(&[0, 1, 255, 256, 500, 0x7fff, 0x8000, 0xffff, r.clone().next() as u16]);
        let n = if r.chance(200) { 0 } else { r.len(max) };
        let message = r.string(n);
        let b = err_payload(code, message.as_bytes());
        (ErrorEventData { code, message }, b)
    }
    fn bytes(self) -> Vec<u8> {
        err_payload(self.code, self.message.as_bytes())
    }
    const NAME: &'static str = "error";
}
impl<A: Shape, B: Shape> Shape for TandemPayload<A, B> {
    fn make(r: &mut Rng, max: usize) -> (Self, Vec<u8>) {
        let (a, ab) = A::make(r, max);
        let (b, bb) = B::make(r, max);
        let mut v = (ab.len() as u64).to_be_bytes().to_vec();
        v.extend(ab);
        v.extend((bb.len() as u64).to_be_bytes());
        v.extend(bb);
        (TandemPayload::new(a, b), v)
    }
    fn bytes(self) -> Vec<u8> {
        let (a, b) = self.into_inner();
        let (ab, bb) = (a.bytes(), b.bytes());
        let mut v = (ab.len() as u64).to_be_bytes().to_vec();
        v.extend(ab);
        v.extend((bb.len() as u64).to_be_bytes());
        v.extend(bb);
        v
    }
    const NAME: &'static str = "tandem";
}
#[cfg(feature = "ser")]
mod serde_shapes {
    use super::*;
    impl Shape for String {
        fn make(r: &mut Rng, max: usize) -> (Self, Vec<u8>) {
            let n = r.len(max);
            let s = r.string(n);
            (s.clone(), s.bytes())
        }
        fn bytes(self) -> Vec<u8> {
            SerdePayload::new(DynamicSerializer::first_available(), self).try_into_bytes().unwrap().to_vec()
        }
        const NAME: &'static str = "serde text";
    }
    impl Shape for SerdePayload<Vec<u32>> {
        fn make(r: &mut Rng, max: usize) -> (Self, Vec<u8>) {
            let n = r.len(max) / 8;
            let v: Vec<u32> = (0..n).map(|_| r.next() as u32).collect();
            (SerdePayload::new(DynamicSerializer::first_available(), v.clone()), SerdePayload::new(DynamicSerializer::first_available(), v).bytes())
        }
        fn bytes(self) -> Vec<u8> {
            self.try_into_bytes().unwrap().to_vec()
        }
        const NAME: &'static str = "serde payload";
    }
}

type B = BytePayload;
type E = ErrorEventData;
type T2<X, Y> = TandemPayload<X, Y>;

#[cfg(feature = "ser")]
macro_rules! with_shape {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % 14 {
            9 => $f::<T2<String, B>>($($a),*).await,
            10 => $f::<T2<B, SerdePayload<Vec<u32>>>>($($a),*).await,
            11 => $f::<T2<T2<String, E>, T2<B, String>>>($($a),*).await,
            12 => $f::<T2<SerdePayload<Vec<u32>>, String>>($($a),*).await,
            k => with_plain_shape!(k, $f($($a),*)),
        }
    };
}
#[cfg(not(feature = "ser"))]
macro_rules! with_shape {
    ($k:expr, $f:ident ( $($a:expr),* )) => { with_plain_shape!($k % 9, $f($($a),*)) };
}
macro_rules! with_plain_shape {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k {
            0 => $f::<B>($($a),*).await,
            1 => $f::<E>($($a),*).await,
            2 => $f::<T2<B, B>>($($a),*).await,
            3 => $f::<T2<B, E>>($($a),*).await,
            4 => $f::<T2<E, B>>($($a),*).await,
            5 => $f::<T2<T2<B, B>, B>>($($a),*).await,
            6 => $f::<T2<B, T2<E, T2<B, B>>>>($($a),*).await,
            7 => $f::<T2<T2<B, E>, T2<T2<B, B>, T2<E, E>>>>($($a),*).await,
            _ => $f::<T2<T2<T2<T2<T2<B, B>, B>, B>, B>, T2<B, T2<B, T2<B, B>>>>>($($a),*).await,
        }
    };
}

fn tname<S>() -> String {
    std::any::type_name::<S>().replace("bromine::events::payload::", "").replace("bromine::events::error_event::", "")
}

async fn ctx(r: &mut Rng) -> R<(Ctx, Raw)> {
    let net = Net::<Plain>::new(r);
    net.raw_server(net.builder(), &LinkCfg::default()).await
}

async fn one_shape<S: Shape>(sc: &Sc, r: &mut Rng, c: &Ctx) -> R {
    let (v, want) = S::make(r, 3000);
    let t = tname::<S>();
    let b = match v.into_payload(c) {
        Ok(b) => b,
        Err(e) => return viol("encode", format!("{} is not encoded: {:?}", t, e)),
    };
    ensure!(b == want, "layout", "{}: laid out as {} bytes {:02x?} instead of {} bytes {:02x?}", t, b.len(), &b[..b.len().min(24)], want.len(), &want[..want.len().min(24)]);
    for whole in [true, false] {
        match S::from_payload(Pieces { b: &b, r: r.fork(), whole }) {
            Ok(x) => ensure!(x.bytes() == want, "changed", "{} of {} bytes decodes to another value", t, want.len()),
            Err(e) => return viol("decode", format!("{} of {} bytes is not decoded: {:?}", t, want.len(), e)),
        }
    }
    match Event::response(None, "x".into(), b, 3).payload::<S>() {
        Ok(x) => ensure!(x.bytes() == want, "changed", "{} of {} bytes decodes to another value", t, want.len()),
        Err(e) => return viol("decode", format!("{} of {} bytes is not decoded: {:?}", t, want.len(), e)),
    }
    sc.case(Some(hash_bytes(&want)), || format!("{} of {} bytes", t, want.len()));
    Ok(())
}
async fn shapes(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let (c, _raw) = ctx(&mut r).await?;
    for k in 0..42 {
        with_shape!(k, one_shape(&sc, &mut r, &c))?;
    }
    Ok(())
}

/// Error data through encoding, through a failing peer and into an error handler
async fn error_data(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<Plain>::new(&mut r);
    let got: Arc<Mutex<Vec<(u16, String)>>> = Default::default();
    let g2 = got.clone();
    let (c, raw) = net
        .raw_server(
            net.builder().on("error", move |_: &Ctx, e: Event| {
                let g = g2.clone();
                Box::pin(async move {
                    let d = e.payload::<ErrorEventData>()?;
                    g.lock().unwrap().push((d.code, d.message));
                    Ok(Response::empty())
                }) as HFut
            }),
            &LinkCfg::random(&mut r, false),
        )
        .await?;
    for i in 0..10 {
        let (d, want) = ErrorEventData::make(&mut r, 70_000);
        let (code, msg) = (d.code, d.message.clone());
        let same = |c: u16, m: &str| c == code && m == msg;
        // sent as payload of an ordinary event
        let n0 = raw.n();
        let id = match c.emit("error", d.clone()).await {
            Ok(id) => id,
            Err(e) => return viol("emit", format!("{:?}", e)),
        };
        ensure!(raw.until(secs(3000), |f| f.iter().any(|x| x.0.id == id)).await, "emit", "the event did not arrive ({})", n0);
        let f = raw.frames().into_iter().find(|f| f.id == id).unwrap();
        ensure!(f.data == want, "layout", "error data of code {} and {} bytes of text is laid out as {} bytes", code, msg.len(), f.data.len());
        // received as the answer
        let ctx2 = c.clone();
        let p = bp(vec![1]);
        let h = tokio::spawn(async move { ctx2.emit("q", p).await_reply().with_timeout(secs(3000)).await });
        ensure!(raw.until(secs(3000), |f| f.iter().filter(|x| x.0.name == "q").count() == i + 1).await, "emit", "the request did not arrive");
        let q = raw.frames().into_iter().rfind(|f| f.name == "q").unwrap();
        let _ = raw.frame(&codec::Frame::new(codec::ERR, r.next(), Some(q.id), None, "error", want.clone())).await;
        match h.await.unwrap() {
            Err(IPCError::ErrorEvent(x)) => ensure!(same(x.code, &x.message), "changed", "the error arrives as {} with {} bytes instead of {} with {}", x.code, x.message.len(), code, msg.len()),
            x => return viol("changed", format!("an error reply gives {:?}", x.map(|_| ()))),
        }
        // received by the error handler
        let _ = raw.frame(&codec::Frame::new(codec::ERR, r.next(), Some(r.next()), None, "error", want)).await;
        net.settle(secs(5)).await;
        let g = std::mem::take(&mut *got.lock().unwrap());
        ensure!(g.len() == 1 && same(g[0].0, &g[0].1), "changed", "the error handler got {} errors for code {}", g.len(), code);
        sc.case(Some(mix(code as u64, hash_bytes(msg.as_bytes()))), || format!("code {} with {} bytes of text", code, msg.len()));
    }
    Ok(())
}

async fn one_cut<S: Shape>(sc: &Sc, r: &mut Rng) -> R {
    let (_, b) = S::make(r, 60);
    if S::OPEN {
        return Ok(());
    }
    for n in 0..b.len() {
        if b.len() > 300 && r.chance(700) {
            continue;
        }
        if S::from_payload(Pieces { b: &b[..n], r: r.fork(), whole: r.chance(500) }).is_ok() {
            return viol("cut-accepted", format!("{} of the {} bytes of {} are decoded", n, b.len(), tname::<S>()));
        }
        sc.case(Some(mix(hash_bytes(&b), n as u64)), || format!("{} of {} bytes of {}", n, b.len(), tname::<S>()));
    }
    Ok(())
}
async fn cut_short(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    for k in 0..9 {
        with_plain_shape!(k, one_cut(&sc, &mut r))?;
    }
    Ok(())
}

fn bound(n: usize) -> isize {
    (n * 24 + (1 << 16)) as isize
}

/// Independent judgement: can these bytes be read as the type?
trait Judge {
    fn ok(b: &[u8]) -> bool;
}
impl Judge for B {
    fn ok(_: &[u8]) -> bool {
        true
    }
}
impl Judge for E {
    fn ok(b: &[u8]) -> bool {
        if b.len() < 6 {
            return false;
        }
        let n = u32::from_be_bytes(b[2..6].try_into().unwrap()) as usize;
        b.len() - 6 >= n && std::str::from_utf8(&b[6..6 + n]).is_ok()
    }
}
impl<X: Judge, Y: Judge> Judge for T2<X, Y> {
    fn ok(b: &[u8]) -> bool {
        fn part(b: &[u8]) -> Option<(&[u8], &[u8])> {
            if b.len() < 8 {
                return None;
            }
            let n = u64::from_be_bytes(b[..8].try_into().unwrap());
            if n > (b.len() - 8) as u64 {
                return None;
            }
            Some((&b[8..8 + n as usize], &b[8 + n as usize..]))
        }
        match part(b) {
            Some((x, rest)) => match part(rest) {
                Some((y, _)) => X::ok(x) && Y::ok(y),
                None => false,
            },
            None => false,
        }
    }
}

async fn judge<S: Shape + Judge>(sc: &Sc, r: &mut Rng, b: Vec<u8>, what: &str) -> R {
    let want = S::ok(&b);
    let e = Event::initiator(None, "x".into(), Bytes::from(b.clone()));
    let base = alloc::mark();
    let res = e.payload::<S>();
    let used = alloc::peak() - base;
    let t = tname::<S>();
    ensure!(used <= bound(b.len()), "memory", "decoding {} bytes ({}) as {} allocated {}: {:02x?}", b.len(), what, t, used, &b[..b.len().min(30)]);
    ensure!(res.is_ok() == want, if want { "decode" } else { "malformed-accepted" }, "{} bytes ({}) decode as {}: {}, but they are {}: {:02x?}", b.len(), what, t, res.is_ok(), if want { "well-formed" } else { "malformed" }, &b[..b.len().min(40)]);
    let _ = r;
    sc.count(if want { "well-formed" } else { "malformed" }, 1);
    sc.case(Some(hash_bytes(&b)), || format!("{} bytes as {} ({}): {}", b.len(), t, what, want));
    Ok(())
}
async fn one_hostile<S: Shape + Judge>(sc: &Sc, r: &mut Rng) -> R {
    let (_, mut b) = S::make(r, 200);
    match r.below(4) {
        0 => {
            let n = r.len(200);
            b = r.bytes(n);
        }
        1 => {
            let n = r.len(60);
            b = r.bytes(n).into_iter().map(|x| x & 3).collect();
        }
        _ => {
            mutate(r, &mut b);
        }
    }
    judge::<S>(sc, r, b, "mutated").await
}
async fn hostile(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    for k in 0..90 {
        with_plain_shape!(k % 9, one_hostile(&sc, &mut r))?;
    }
    Ok(())
}

/// Length fields of every size class in every position
async fn lengths(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let mut ls: Vec<u64> = vec![0, 1, 2, 7, 8, 9, u64::MAX, u64::MAX - 7, u64::MAX - 8, u64::MAX - 15, u64::MAX - 16, 1 << 63, (1 << 63) - 1, 1 << 62, 1 << 40, 1 << 32, (1 << 32) - 1, 1 << 31, (1 << 31) - 1, 1 << 30, 1 << 24];
    ls.push(r.next());
    for &l in &ls {
        for &m in &[0u64, 3, l, u64::MAX.wrapping_sub(l).wrapping_add(1), u64::MAX - l] {
            for have in [0usize, 3, 40] {
                let mut b = l.to_be_bytes().to_vec();
                b.extend(r.bytes(have));
                let mut b2 = b.clone();
                judge::<T2<B, B>>(&sc, &mut r, b.clone(), "first length").await?;
                b.extend(m.to_be_bytes());
                b.extend(r.bytes(have));
                judge::<T2<B, B>>(&sc, &mut r, b.clone(), "both lengths").await?;
                judge::<T2<T2<B, B>, E>>(&sc, &mut r, b, "nested").await?;
                b2.splice(0..0, [0u8; 8]);
                judge::<T2<B, B>>(&sc, &mut r, b2, "second length").await?;
            }
        }
        let mut e = vec![0, 5];
        e.extend((l as u32).to_be_bytes());
        let have = r.idx(40);
        e.extend(r.string(have).bytes());
        judge::<E>(&sc, &mut r, e, "error text length").await?;
    }
    for bad in [&[0xffu8][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], b"ok\xff", &[0xc0, 0x80]] {
        judge::<E>(&sc, &mut r, err_payload(7, bad), "text that is not UTF-8").await?;
    }
    Ok(())
}

both!(exchange, exchange_);
/// Through live connections, in both directions and as stored parts
async fn exchange_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    for k in 0..3 {
        with_shape!(sc.idx as usize / 2 * 3 + k, exchange_on(&sc, &mut r, std::marker::PhantomData::<T>))?;
    }
    #[cfg(not(feature = "ser"))]
    {
        let net = Net::<T>::new(&mut r);
        let (c, raw) = net.raw_server(net.builder(), &LinkCfg::default()).await?;
        let _ = c.emit("u", ()).await;
        ensure!(raw.wait_n(1, secs(10)).await && raw.frames()[0].data.is_empty(), "layout", "a unit payload is not empty");
    }
    Ok(())
}
async fn exchange_on<S: Shape>(sc: &Sc, r: &mut Rng, t: std::marker::PhantomData<impl Tp>) -> R {
    exchange_tp::<_, S>(sc, r, t).await
}
async fn exchange_tp<T: Tp, S: Shape>(sc: &Sc, r: &mut Rng, _: std::marker::PhantomData<T>) -> R {
    let net = Net::<T>::new(r);
    let b = net.builder().on("e", |ctx: &Ctx, e: Event| {
        let ctx = ctx.clone();
        Box::pin(async move {
            let v = e.payload::<S>()?;
            ctx.response(TandemPayload::new(bp(vec![]), v))
        }) as HFut
    });
    let _srv = net.serve(b).await;
    let c = net.client(net.builder(), &LinkCfg::random(r, true)).await?;
    for _ in 0..4 {
        let (v, want) = S::make(r, 3000);
        match c.emit("e", v).await_reply().with_timeout(secs(3000)).await {
            Ok(e) => match e.payload::<TandemPayload<BytePayload, S>>() {
                Ok(x) => {
                    let (a, b) = x.into_inner();
                    ensure!(a.bytes().is_empty() && b.bytes() == want, "changed", "{} of {} bytes came back changed", tname::<S>(), want.len());
                }
                Err(e) => return viol("decode", format!("{} of {} bytes: {:?}", tname::<S>(), want.len(), e)),
            },
            Err(e) => return viol("exchange", format!("{} of {} bytes: {:?}", tname::<S>(), want.len(), e)),
        }
        sc.case(Some(hash_bytes(&want)), || format!("{}: {} of {} bytes there and back", T::NAME, tname::<S>(), want.len()));
    }
    Ok(())
}

/// Parts beyond 16 and 24 bits of length
async fn large(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let (c, _raw) = ctx(&mut r).await?;
    for n in [65_535usize, 65_536, 70_000, 1 << 20, (1 << 24) + 5] {
        let b = r.bytes(n);
        let m = r.string(n);
        let p = TandemPayload::new(bp(b.clone()), TandemPayload::new(ErrorEventData { code: 9, message: m.clone() }, bp(b"end".to_vec())));
        let enc = p.into_payload(&c).map_err(|e| Stop::Viol { sig: "encode".into(), msg: format!("{:?}", e) })?;
        let want_len = 8 + n + 8 + 8 + (6 + n) + 8 + 3;
        ensure!(enc.len() == want_len, "layout", "{} bytes instead of {}", enc.len(), want_len);
        match <TandemPayload<B, TandemPayload<E, B>>>::from_payload(&enc[..]) {
            Ok(x) => {
                let (x, y) = x.into_inner();
                let (y, z) = y.into_inner();
                ensure!(x.bytes() == b && y.message == m && y.code == 9 && z.bytes() == b"end", "changed", "parts of {} bytes change", n);
            }
            Err(e) => return viol("decode", format!("parts of {} bytes: {:?}", n, e)),
        }
        sc.case(Some(mix(n as u64, sc.seed)), || format!("parts of {} bytes", n));
    }
    Ok(())
}
