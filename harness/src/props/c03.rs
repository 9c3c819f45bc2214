//! C03: hostile bytes
use super::c01::Chunked;
use super::c02::bad_frame;
use crate::alloc;
use crate::codec::{self, Frame};
use crate::core::*;
use crate::fix::*;
use crate::rng::*;
use crate::sim::*;
use crate::{boxed, both, ensure};
use bromine::event::Event;
use bromine::prelude::*;
use std::fmt::Write;
use std::sync::{Arc, Mutex};

pub fn fams() -> Vec<Fam> {
    #[allow(unused_mut)]
    let mut v = vec![
        fam("decode_random", 80, 2000, boxed!(decode_random)),
        fam("decode_lengths", 40, 600, boxed!(decode_lengths)),
        fam("decode_texts", 40, 600, boxed!(decode_texts)),
        fam("live_server", 240, 4000, boxed!(live_server)),
        fam("live_client", 120, 2000, boxed!(live_client)),
        fam("live_payloads", 60, 1000, boxed!(live_payloads)),
    ];
    #[cfg(feature = "enc")]
    {
        v.push(fam("handshake", 120, 2000, boxed!(e::handshake)));
        v.push(fam("client_handshake", 60, 1000, boxed!(e::client_handshake)));
        v.push(fam("packages", 80, 1500, boxed!(e::packages)));
    }
    v
}

/// What decoding may allocate for `received` bytes
pub fn mem_bound(received: usize) -> isize {
    (received * 16 + (1 << 20)) as isize
}

pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.idx(4) {
        if b.is_empty() {
            b.push(r.next() as u8);
        }
        let i = r.idx(b.len());
        // the front holds the lengths
        let i = if r.chance(600) { r.idx(b.len().min(40)) } else { i };
        match r.below(7) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]),
            2 => {
                b.remove(i);
            }
            3 => {
                let x = r.next() as u8;
                b.insert(i, x)
            }
            4 => b.truncate(i),
            5 => {
                let n = r.idx(20);
                let x = r.bytes(n);
                b.splice(i..i, x);
            }
            _ => {
                let e = (i + r.idx(9)).min(b.len());
                let f = *r.pick(&[0u8, 0xff]);
                b[i..e].fill(f)
            }
        }
    }
}

struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// Text in any position and of any length, of characters of any size, whole or cut
pub fn odd_text(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => r.idx(12),
        1 => (1usize << r.below(13)) + r.idx(5),
        2 => (1usize << r.below(13)).saturating_sub(r.idx(5)),
        3 => 10usize.pow(r.below(4) as u32) + r.idx(3),
        _ => r.idx(400),
    };
    let unit = *r.pick(&["\u{e9}", "\u{20ac}", "\u{10348}", "a\u{308}", "\u{0}", "\u{202e}", "\r\n", " ", "%", "{}", "\"", "\\"]);
    let lead = r.idx(5);
    let mut v: Vec<u8> = match r.below(3) {
        0 => r.string(n).into_bytes(),
        1 => "abcdef"[..lead].bytes().chain(unit.bytes().cycle().take(n / unit.len() * unit.len())).collect(),
        _ => "x".repeat(n).bytes().chain(unit.bytes()).chain("y".repeat(r.idx(300)).bytes()).collect(),
    };
    if r.chance(80) && !v.is_empty() {
        v.truncate(r.idx(v.len()));
    }
    if r.chance(60) && !v.is_empty() {
        let i = r.idx(v.len());
        v[i] = r.next() as u8;
    }
    v
}

/// Texts of all kinds as namespace, name and message
async fn decode_texts(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    for _ in 0..100 {
        let (ns, name, msg) = (odd_text(&mut r), odd_text(&mut r), odd_text(&mut r));
        let mut f = Frame::new(r.below(4) as u8, r.next(), if r.chance(500) { Some(1) } else { None }, None, "", vec![]);
        f.data = err_payload(r.next() as u16, &msg);
        // assembled here, as the texts may be invalid
        let mut h = vec![];
        h.extend_from_slice(&f.version);
        h.extend_from_slice(&f.id.to_be_bytes());
        h.push(f.ty);
        match f.ref_id {
            Some(x) => {
                h.push(0xff);
                h.extend_from_slice(&x.to_be_bytes())
            }
            None => h.push(0),
        }
        for t in [&ns, &name] {
            h.extend_from_slice(&(t.len() as u16).to_be_bytes());
            h.extend_from_slice(t);
        }
        let b = codec::assemble((h.len() + f.data.len()) as u64, h.len() as u16, &h, &f.data);
        decode_one(&sc, &mut r, b, "odd texts").await?;
    }
    Ok(())
}

async fn decode_one(sc: &Sc, r: &mut Rng, b: Vec<u8>, what: &str) -> R {
    let n = b.len();
    let h = hash_bytes(&b);
    let head = b.iter().take(24).map(|x| format!("{:02x}", x)).collect::<String>();
    let mut rd = Chunked::new(b, r);
    let base = alloc::mark();
    let res = Event::from_async_read(&mut rd).await;
    let used = alloc::peak() - base;
    ensure!(used <= mem_bound(n), "memory", "decoding {} bytes ({}, {}) allocated {} bytes", n, what, head, used);
    if let Ok(e) = &res {
        // what any user does with it
        let base = alloc::mark();
        let _ = e.payload::<bromine::error_event::ErrorEventData>().map(|e| format!("{} {:?}", e, e).len());
        let _ = e.payload::<BytePayload>().map(|p| p.into_inner().len());
        let _ = e.payload::<TandemPayload<BytePayload, bromine::error_event::ErrorEventData>>().is_ok();
        let _ = e.payload::<TandemPayload<TandemPayload<BytePayload, BytePayload>, BytePayload>>().is_ok();
        let _ = (e.id(), e.name().len(), e.namespace().as_ref().map(|n| n.len()), e.reference_id(), e.event_type(), e.clone());
        let used = alloc::peak() - base;
        ensure!(used <= mem_bound(n) * 4, "memory", "using an event of {} bytes ({}, {}) allocated {} bytes", n, what, head, used);
        let mut k = Sink(0);
        let _ = write!(k, "{:?}", e);
    } else if let Err(e) = &res {
        let mut k = Sink(0);
        let _ = write!(k, "{:?} {}", e, e);
    }
    sc.count(if res.is_ok() { "decoded to an event" } else { "decoded to an error" }, 1);
    sc.case(Some(h), || format!("{} ({} bytes {})", what, n, head));
    Ok(())
}

async fn decode_random(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    for _ in 0..120 {
        let (b, what) = match r.below(4) {
            0 => {
                let n = r.len(3000);
                (r.bytes(n), "random bytes")
            }
            1 => {
                let (b, _) = bad_frame(&mut r);
                (b, "invalid frame")
            }
            _ => {
                let n = r.idx(12);
                let ns = r.string(n);
                let d = r.bytes(n * 9);
                let f = Frame::new(r.below(4) as u8, r.next(), if r.chance(500) { Some(1) } else { None }, Some(&ns), "name", d);
                let mut b = f.encode();
                mutate(&mut r, &mut b);
                (b, "mutated frame")
            }
        };
        decode_one(&sc, &mut r, b, what).await?;
    }
    Ok(())
}

/// Total length and header length fields with extreme values
async fn decode_lengths(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let f = Frame::new(0, 1, None, None, "name", vec![1; 10]);
    let hl = f.header().len() as u64;
    for _ in 0..100 {
        let mut f = f.clone();
        let n = r.len(5000);
        f.data = r.bytes(n);
        let exp = r.below(64);
        let total = match r.below(6) {
            0 => (1u64 << exp).wrapping_add(r.below(3)).wrapping_sub(1),
            1 => u64::MAX - r.below(70000),
            2 => (i64::MAX as u64).wrapping_add(r.below(5)).wrapping_sub(2),
            3 => hl + n as u64 + r.below(1 << 33),
            4 => r.below(hl + 2),
            _ => r.next(),
        };
        let hlen = match r.below(4) {
            0 => r.next() as u16,
            1 => *r.pick(&[0u16, 1, 65535, 65534]),
            _ => hl as u16,
        };
        let b = codec::assemble(total, hlen, &f.header(), &f.data);
        decode_one(&sc, &mut r, b, &format!("total {} header {} with {} bytes of payload", total, hlen, n)).await?;
    }
    Ok(())
}

#[derive(Clone)]
pub struct Seen(pub Arc<Mutex<Vec<(u64, String)>>>);
impl Seen {
    pub fn new() -> Self {
        Seen(Default::default())
    }
    pub fn ids(&self) -> Vec<u64> {
        self.0.lock().unwrap().iter().map(|x| x.0).collect()
    }
    pub fn on<L: AsyncStreamProtocolListener>(&self, b: IPCBuilder<L>, name: &'static str) -> IPCBuilder<L> {
        let s = self.0.clone();
        b.on(name, move |ctx: &Ctx, e: Event| {
            let s = s.clone();
            Box::pin(async move {
                s.lock().unwrap().push((e.id(), e.name().to_string()));
                Response::payload(ctx, bp(e.data_raw().to_vec()))
            }) as HFut
        })
    }
}

/// Bytes that start with a malformed part; what follows looks valid
fn malformed(r: &mut Rng) -> (Vec<u8>, String) {
    match r.below(5) {
        0 => {
            // lengths beyond any memory, and a header without room for its fields
            let n = r.idx(13);
            (codec::assemble(u64::MAX - r.below(1 << 20), n as u16, &vec![0; n], &[0xff; 200]), "a huge length".into())
        }
        1 => {
            // a header that is short for its fields whatever the rest is
            (codec::assemble(3000, 5, &[0, 9, 0, 1, 2], &[0; 2995]), "tiny header".into())
        }
        _ => bad_frame(r),
    }
}

both!(live_server, live_server_);
async fn live_server_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let seen = Seen::new();
    let _srv = net.serve(seen.on(net.builder(), "a")).await;
    let quiet = LinkCfg::default();
    let other = net.client(net.builder(), &quiet).await?;
    for round in 0..3u64 {
        let cfg = LinkCfg::random(&mut r, true);
        let raw = net.raw_client(&cfg).await?;
        let good = r.below(6);
        let mut b = vec![];
        for i in 0..good {
            b.extend(Frame::new(codec::INIT, round * 1000 + i, None, None, "a", vec![7; i as usize * 40]).encode());
        }
        let (bad, why) = malformed(&mut r);
        b.extend(&bad);
        for i in 0..3 {
            b.extend(Frame::new(codec::INIT, round * 1000 + 500 + i, None, None, "a", vec![]).encode());
        }
        let base = alloc::mark();
        let _ = tokio::time::timeout(secs(30), raw.send_chunked(&b, &mut r)).await;
        let mut closed = raw.wait_closed(secs(600)).await;
        if !closed && why == "a huge length" {
            // the event is not complete, so it may be waited for
            raw.shutdown().await;
            closed = raw.wait_closed(secs(600)).await;
        }
        // the simulated transport and both ends keep copies of what was sent
        let used = alloc::peak() - base;
        ensure!(used <= mem_bound(b.len() * 4), "memory", "{} bytes ({}) made the process allocate {} bytes", b.len(), why, used);
        ensure!(closed, "kept-open", "the connection stays open after {}", why);
        sleep(secs(1)).await;
        let mut ids: Vec<u64> = seen.ids().into_iter().filter(|i| i / 1000 == round && *i < 100_000).collect();
        ids.sort();
        let want: Vec<u64> = (0..good).map(|i| round * 1000 + i).collect();
        ensure!(ids == want, "dispatched", "of {} valid events before {} and 3 after it, these were dispatched: {:?}", good, why, ids);
        sc.case(Some(hash_bytes(&b)), || format!("{}: {} valid events, then {}, then 3 valid events", T::NAME, good, why));
        for c in [&other, &net.client(net.builder(), &quiet).await?] {
            let rep = c.emit("a", bp(vec![1, 2])).await_reply().with_timeout(secs(5)).await;
            match rep {
                Ok(e) => ensure!(e.data_raw() == [1, 2], "other-client", "another client got {:?}", e),
                Err(e) => return viol("other-client", format!("another client is not served after {}: {:?}", why, e)),
            }
        }
    }
    Ok(())
}

both!(live_client, live_client_);
async fn live_client_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let seen = Seen::new();
    let cfg = LinkCfg::random(&mut r, true);
    let (ctx, raw) = net.raw_server(seen.on(net.builder(), "a").timeout(secs(5)), &cfg).await?;
    let good = r.below(5);
    let mut b = vec![];
    for i in 0..good {
        b.extend(Frame::new(codec::INIT, i, None, None, "a", vec![7; i as usize * 40]).encode());
    }
    let wait = ctx.emit("q", bp(vec![])).await_reply();
    let waiter = tokio::spawn(wait);
    raw.wait_n(1, secs(50)).await;
    let rid = raw.frames().first().map(|f| f.id).unwrap_or(0);
    let answered = r.chance(500);
    if answered {
        b.extend(Frame::new(codec::END, 1, Some(rid), None, "end", vec![3]).encode());
    }
    let (bad, why) = malformed(&mut r);
    b.extend(&bad);
    b.extend(Frame::new(codec::INIT, 500, None, None, "a", vec![]).encode());
    b.extend(Frame::new(codec::END, 501, Some(rid), None, "end", vec![4]).encode());
    let base = alloc::mark();
    let _ = tokio::time::timeout(secs(30), raw.send_chunked(&b, &mut r)).await;
    sleep(secs(60)).await;
    let used = alloc::peak() - base;
    ensure!(used <= mem_bound(b.len() * 4), "memory", "{} bytes ({}) made the process allocate {} bytes", b.len(), why, used);
    let mut ids = seen.ids();
    ids.sort();
    ensure!(ids == (0..good).collect::<Vec<_>>(), "dispatched", "of {} valid events before {} these were dispatched: {:?}", good, why, ids);
    match waiter.await {
        Ok(Ok(e)) => ensure!(answered && e.data_raw() == [3], "reply", "the reply wait got {:?} after {}", e, why),
        Ok(Err(e)) => ensure!(!answered, "reply", "a reply before {} was lost: {:?}", why, e),
        Err(e) => return viol("panic", format!("the reply wait panicked: {}", e)),
    }
    // emitting still ends in some way
    let _ = tokio::time::timeout(secs(3600), ctx.emit("q", bp(vec![])).await_reply()).await;
    sc.case(Some(hash_bytes(&b)), || format!("{}: {} valid events, answered {}, then {}", T::NAME, good, answered, why));
    Ok(())
}

both!(live_payloads, live_payloads_);
/// Well-formed frames whose payloads are hostile for the types that the handlers decode
async fn live_payloads_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let b = net
        .builder()
        .on("tandem", |_: &Ctx, e: Event| {
            Box::pin(async move {
                e.payload::<TandemPayload<BytePayload, TandemPayload<BytePayload, BytePayload>>>()?;
                Ok(Response::empty())
            }) as HFut
        })
        .on("err", |_: &Ctx, e: Event| {
            Box::pin(async move {
                e.payload::<bromine::error_event::ErrorEventData>()?;
                Ok(Response::empty())
            }) as HFut
        });
    let _srv = net.serve(b).await;
    let raw = net.raw_client(&LinkCfg::random(&mut r, false)).await?;
    for i in 0..30u64 {
        let name = *r.pick(&["tandem", "err", "error", "nothing"]);
        let d = match r.below(4) {
            0 => {
                let n = r.idx(60);
                r.bytes(n)
            }
            3 => err_payload(r.next() as u16, &odd_text(&mut r)),
            1 => {
                let mut d = (*r.pick(&[u64::MAX, i64::MAX as u64, 1 << 40, 1 << 33, 100])).to_be_bytes().to_vec();
                d.extend(r.bytes(30));
                d
            }
            _ => {
                let mut d = vec![0, 1, 0xff, 0xff, 0xff, 0xff];
                let n = r.idx(30);
                d.extend(r.bytes(n));
                d
            }
        };
        let h = hash_bytes(&d);
        let n = d.len();
        let base = alloc::mark();
        let before = raw.n();
        let ty = if name == "error" { codec::ERR } else { codec::INIT };
        raw.frame(&Frame::new(ty, 100 + i, None, None, name, d)).await.ok();
        let ok = raw.until(secs(600), |f| f[before..].iter().any(|f| f.0.ref_id == Some(100 + i) && f.0.ty >= codec::END)).await;
        let used = alloc::peak() - base;
        ensure!(used <= mem_bound(n + 500), "memory", "a payload of {} bytes for '{}' made the process allocate {} bytes", n, name, used);
        ensure!(ok, "not-answered", "a malformed payload for '{}' was not answered, closed: {:?}", name, raw.closed());
        sc.case(Some(h), || format!("{} bytes for a handler that decodes '{}'", n, name));
    }
    Ok(())
}

#[cfg(feature = "enc")]
mod e {
    use super::*;
    use crate::fix::enc::*;
    use tokio::io::{AsyncReadExt, AsyncWriteExt};

    fn hostile(r: &mut Rng) -> (Vec<u8>, &'static str) {
        match r.below(6) {
            0 => (vec![0; 32], "an all-zero key"),
            1 => {
                let n = r.idx(32);
                (r.bytes(n), "a part of a key")
            }
            2 => {
                let n = r.range(32, 400) as usize;
                (r.bytes(n), "a random key and more")
            }
            3 => (vec![0xff; 40], "0xff bytes"),
            4 => {
                let mut v = r.bytes(32);
                v.extend_from_slice(&u32::MAX.to_be_bytes());
                (v, "a key and a huge package length")
            }
            _ => (vec![], "nothing"),
        }
    }

    /// Hostile clients before and during the key exchange
    pub async fn handshake(sc: Arc<Sc>) -> R {
        let mut r = sc.rng();
        let mut net = Net::<Enc>::new(&mut r);
        let allow = r.chance(500);
        net.keys.s.allow_unknown = allow;
        let seen = Seen::new();
        let srv = net.serve(seen.on(net.builder(), "a")).await;
        let other = net.client(net.builder(), &LinkCfg::default()).await?;
        for _ in 0..4 {
            let (mut b, mut why) = hostile(&mut r);
            let copied = r.chance(400) && b.len() >= 32;
            if copied {
                b[..32].copy_from_slice(PublicKey::from(&net.keys.c.secret).as_bytes());
                why = "a copied public key and more";
            }
            if r.chance(400) {
                b.extend((r.idx(100) as u32).to_be_bytes());
                let n = r.idx(120);
                b.extend(r.bytes(n));
            }
            let h = hash_bytes(&b);
            let base = alloc::mark();
            let mut s = connect(net.addr, &SimOpts::new(LinkCfg::random(&mut r, true), &net.links)).await.unwrap();
            let _ = tokio::time::timeout(secs(2), async {
                s.w.write_all(&b).await?;
                s.w.flush().await
            })
            .await;
            let mut got = vec![];
            let mut buf = [0u8; 512];
            while let Ok(Ok(n)) = tokio::time::timeout(secs(2), s.r.read(&mut buf)).await {
                if n == 0 {
                    break;
                }
                got.extend_from_slice(&buf[..n]);
            }
            let used = alloc::peak() - base;
            ensure!(used <= mem_bound(b.len() * 4), "memory", "{} bytes ({}) made the process allocate {} bytes", b.len(), why, used);
            drop(s);
            sleep(secs(1)).await;
            ensure!(seen.ids().is_empty(), "dispatched", "an event was dispatched");
            for c in [&other, &net.client(net.builder(), &LinkCfg::default()).await?] {
                if let Err(e) = c.emit("a", bp(vec![1])).await_reply().with_timeout(secs(5)).await {
                    return viol("other-client", format!("another client is not served after {}: {:?} (server running: {})", why, e, srv.alive()));
                }
            }
            seen.0.lock().unwrap().clear();
            sc.case(Some(h), || format!("handshake with {} ({} bytes, unknown peers allowed: {})", why, b.len(), allow));
        }
        Ok(())
    }

    /// Hostile servers
    pub async fn client_handshake(sc: Arc<Sc>) -> R {
        let mut r = sc.rng();
        let mut net = Net::<Enc>::new(&mut r);
        net.keys.c.allow_unknown = r.chance(500);
        let l = SimListener::bind(net.addr).unwrap();
        let (mut b, why) = hostile(&mut r);
        if r.chance(400) && b.len() >= 32 {
            b[..32].copy_from_slice(PublicKey::from(&net.keys.s.secret).as_bytes());
        }
        let n = r.idx(120);
        b.extend(r.bytes(n));
        let h = hash_bytes(&b);
        let n = b.len();
        let mut r2 = r.fork();
        tokio::spawn(async move {
            let mut s = l.accept().await.unwrap();
            let _ = tokio::time::timeout(secs(2), async {
                s.w.write_all(&b).await?;
                s.w.flush().await
            })
            .await;
            sleep(secs(r2.below(3))).await;
        });
        let base = alloc::mark();
        let res = tokio::time::timeout(secs(3600), net.builder().client_options(net.copts(&LinkCfg::random(&mut r, true))).build_client()).await;
        let used = alloc::peak() - base;
        ensure!(used <= mem_bound(n * 4), "memory", "{} bytes ({}) made the client allocate {} bytes", n, why, used);
        match res {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => return viol("accepted", "a client accepted a server that sends garbage"),
            Err(_) => return viol("hang", format!("connecting hangs although the connection was closed after {}", why)),
        }
        sc.case(Some(h), || format!("client handshake with {} ({} bytes)", why, n));
        Ok(())
    }

    /// Garbage instead of packages after a completed key exchange
    pub async fn packages(sc: Arc<Sc>) -> R {
        let mut r = sc.rng();
        let net = Net::<Enc>::new(&mut r);
        let seen = Seen::new();
        let _srv = net.serve(seen.on(net.builder(), "a")).await;
        let other = net.client(net.builder(), &LinkCfg::default()).await?;
        for _ in 0..2 {
            let mut s = connect(net.addr, &SimOpts::new(LinkCfg::random(&mut r, true), &net.links)).await.unwrap();
            let p = PublicKey::from(&net.keys.c.secret);
            let _ = s.w.write_all(p.as_bytes()).await;
            let _ = s.w.flush().await;
            let mut got = vec![0u8; 32 + 4 + 48];
            if tokio::time::timeout(secs(600), s.r.read_exact(&mut got)).await.map(|x| x.is_err()).unwrap_or(true) {
                return viol("handshake", "the server does not complete the key exchange");
            }
            let mut b = match r.below(4) {
                0 => vec![0xff; 4],
                1 => vec![0, 0, 0, 0],
                2 => (r.idx(16) as u32).to_be_bytes().to_vec(),
                _ => (r.idx(300) as u32).to_be_bytes().to_vec(),
            };
            let n = r.idx(400);
            b.extend(r.bytes(n));
            let h = hash_bytes(&b);
            let base = alloc::mark();
            let _ = tokio::time::timeout(secs(2), async {
                s.w.write_all(&b).await?;
                s.w.flush().await
            })
            .await;
            sleep(secs(2)).await;
            let used = alloc::peak() - base;
            ensure!(used <= mem_bound(b.len() * 4), "memory", "{} bytes instead of a package made the process allocate {} bytes", b.len(), used);
            drop(s);
            sleep(secs(2)).await;
            ensure!(seen.ids().is_empty(), "dispatched", "an event was dispatched");
            if let Err(e) = other.emit("a", bp(vec![1])).await_reply().with_timeout(secs(5)).await {
                return viol("other-client", format!("another client is not served any more: {:?}", e));
            }
            seen.0.lock().unwrap().clear();
            sc.case(Some(h), || format!("package bytes starting with {:?} ({} in total)", &b[..b.len().min(8)], b.len()));
        }
        Ok(())
    }
}
