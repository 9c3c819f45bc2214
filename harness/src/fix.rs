//! Shared building blocks: transports, servers, clients and raw peers
use crate::codec::{self, Frame};
use crate::core::{Stop, R};
use crate::rng::Rng;
use crate::sim::*;
use bromine::prelude::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context as TCx, Poll};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use tokio::sync::Notify;
use tokio::task::JoinHandle;
use tokio::time::Instant;

pub type Ctx = bromine::context::Context;
pub type HFut<'a> = Pin<Box<dyn Future<Output = IPCResult<Response>> + Send + 'a>>;

/// Gives a closure the type of a handler
pub fn hnd<F: for<'a> Fn(&'a Ctx, bromine::event::Event) -> HFut<'a> + Send + Sync + 'static>(f: F) -> F {
    f
}

pub fn us(n: u64) -> Duration {
    Duration::from_micros(n)
}
pub const fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
pub const fn secs(n: u64) -> Duration {
    Duration::from_secs(n)
}
pub async fn sleep(d: Duration) {
    tokio::time::sleep(d).await
}

pub fn bp(v: impl Into<Vec<u8>>) -> BytePayload {
    BytePayload::new(v.into())
}

/// A transport stack to run scenarios on
pub trait Tp: 'static + Send + Sync {
    type L: AsyncStreamProtocolListener<AddressType = u64> + 'static;
    type K: Clone + Send + Sync + 'static;
    const NAME: &'static str;
    const ENC: bool;
    fn keys(r: &mut Rng) -> Self::K;
    fn lopts(o: SimLOpts, k: &Self::K) -> <Self::L as AsyncStreamProtocolListener>::ListenerOptions;
    fn copts(o: SimOpts, k: &Self::K) -> <<Self::L as AsyncStreamProtocolListener>::Stream as AsyncProtocolStream>::StreamOptions;
}
pub type St<T> = <<T as Tp>::L as AsyncStreamProtocolListener>::Stream;

pub struct Plain;
impl Tp for Plain {
    type L = SimListener;
    type K = ();
    const NAME: &'static str = "plain";
    const ENC: bool = false;
    fn keys(_: &mut Rng) {}
    fn lopts(o: SimLOpts, _: &()) -> SimLOpts {
        o
    }
    fn copts(o: SimOpts, _: &()) -> SimOpts {
        o
    }
}

#[cfg(feature = "enc")]
pub mod enc {
    use super::*;
    use bromine::prelude::encrypted::*;
    pub use x25519_dalek::{PublicKey, StaticSecret};

    #[derive(Clone)]
    pub struct EK {
        pub s: Keys,
        pub c: Keys,
    }
    pub struct Enc;
    pub fn secret(r: &mut Rng) -> StaticSecret {
        let b: [u8; 32] = r.bytes(32).try_into().unwrap();
        StaticSecret::from(b)
    }
    pub fn keys(secret: &StaticSecret, known: &[PublicKey], allow: bool) -> Keys {
        Keys { secret: secret.clone(), known_peers: known.to_vec(), allow_unknown: allow }
    }
    impl Tp for Enc {
        type L = EncryptedListener<SimListener>;
        type K = EK;
        const NAME: &'static str = "encrypted";
        const ENC: bool = true;
        fn keys(r: &mut Rng) -> EK {
            let (a, b) = (secret(r), secret(r));
            let (pa, pb) = (PublicKey::from(&a), PublicKey::from(&b));
            let other = PublicKey::from(&secret(r));
            EK { s: keys(&a, &[other, pb], false), c: keys(&b, &[pa], false) }
        }
        fn lopts(o: SimLOpts, k: &EK) -> EncryptionOptions<SimLOpts> {
            EncryptionOptions { inner_options: o, keys: k.s.clone() }
        }
        fn copts(o: SimOpts, k: &EK) -> EncryptionOptions<SimOpts> {
            EncryptionOptions { inner_options: o, keys: k.c.clone() }
        }
    }
}

/// Runs `$f::<Enc>` for odd indices when encryption is built in, else `$f::<Plain>`
#[macro_export]
macro_rules! both {
    ($name:ident, $f:ident) => {
        pub async fn $name(sc: std::sync::Arc<$crate::core::Sc>) -> $crate::core::R {
            #[cfg(feature = "enc")]
            if sc.idx % 2 == 1 {
                return $f::<$crate::fix::enc::Enc>(sc).await;
            }
            $f::<$crate::fix::Plain>(sc).await
        }
    };
}

/// A simulated network with one address
pub struct Net<T: Tp> {
    pub addr: u64,
    pub keys: T::K,
    pub links: Links,
}

impl<T: Tp> Clone for Net<T> {
    fn clone(&self) -> Self {
        Net { addr: self.addr, keys: self.keys.clone(), links: self.links.clone() }
    }
}

impl<T: Tp> Net<T> {
    pub fn new(r: &mut Rng) -> Self {
        Net { addr: new_addr(), keys: T::keys(r), links: links() }
    }
    pub fn copts(&self, cfg: &LinkCfg) -> <St<T> as AsyncProtocolStream>::StreamOptions {
        T::copts(SimOpts::new(cfg.clone(), &self.links), &self.keys)
    }
    pub fn builder(&self) -> IPCBuilder<T::L> {
        IPCBuilder::<T::L>::new().address(self.addr)
    }
    pub fn link(&self, n: usize) -> Arc<Link> {
        self.links.lock().unwrap()[n].clone()
    }
    pub fn calm(&self) {
        for l in self.links.lock().unwrap().iter() {
            l.calm()
        }
    }
    /// Waits until nothing has moved on any connection for a while
    pub async fn settle(&self, quiet: Duration) {
        let sum = || self.links.lock().unwrap().iter().map(|l| [&l.c2s, &l.s2c].iter().map(|d| d.written() + d.consumed() + d.published()).sum::<usize>()).sum::<usize>();
        let mut last = usize::MAX;
        for _ in 0..10_000 {
            let n = sum();
            if n == last {
                return;
            }
            last = n;
            sleep(quiet).await;
        }
    }
    /// Starts a server and waits until it listens
    pub async fn serve(&self, b: IPCBuilder<T::L>) -> Srv {
        let b = b.server_options(T::lopts(SimLOpts::default(), &self.keys));
        let h = tokio::spawn(async move { b.build_server().await });
        for _ in 0..1000 {
            if is_bound(self.addr) || h.is_finished() {
                break;
            }
            tokio::task::yield_now().await;
        }
        Srv { h }
    }
    pub async fn client(&self, b: IPCBuilder<T::L>, cfg: &LinkCfg) -> R<Ctx> {
        b.client_options(self.copts(cfg)).build_client().await.map_err(|e| Stop::Viol {
            sig: "connect".into(),
            msg: format!("connecting a client failed: {:?}", e),
        })
    }
    pub async fn pool(&self, b: IPCBuilder<T::L>, cfg: &LinkCfg, n: usize) -> R<PooledContext> {
        b.client_options(self.copts(cfg)).build_pooled_client(n).await.map_err(|e| Stop::Viol {
            sig: "connect".into(),
            msg: format!("connecting a pooled client failed: {:?}", e),
        })
    }
    /// A client that is controlled byte by byte
    pub async fn raw_client(&self, cfg: &LinkCfg) -> R<Raw> {
        match St::<T>::protocol_connect(self.addr, self.copts(cfg)).await {
            Ok(s) => Ok(Raw::new(s)),
            Err(e) => Err(Stop::Viol { sig: "connect".into(), msg: format!("connecting a raw client failed: {:?}", e) }),
        }
    }
    pub async fn raw_listener(&self) -> Arc<T::L> {
        Arc::new(T::L::protocol_bind(self.addr, T::lopts(SimLOpts::default(), &self.keys)).await.expect("bind"))
    }
    /// A client connected to a raw server side
    pub async fn raw_server(&self, b: IPCBuilder<T::L>, cfg: &LinkCfg) -> R<(Ctx, Raw)> {
        let l = self.raw_listener().await;
        let acc = tokio::spawn(async move { l.protocol_accept().await.map(|x| x.0).map_err(|e| format!("{:?}", e)) });
        let ctx = self.client(b, cfg).await?;
        match acc.await {
            Ok(Ok(s)) => Ok((ctx, Raw::new(s))),
            Ok(Err(e)) => Err(Stop::Viol { sig: "accept".into(), msg: format!("accepting a client failed: {}", e) }),
            Err(e) => Err(Stop::Viol { sig: "accept".into(), msg: format!("accepting a client failed: {}", e) }),
        }
    }
}

pub struct Srv {
    pub h: JoinHandle<IPCResult<()>>,
}
impl Srv {
    pub fn alive(&self) -> bool {
        !self.h.is_finished()
    }
}
impl Drop for Srv {
    fn drop(&mut self) {
        self.h.abort()
    }
}

#[derive(Default)]
struct RawIn {
    bytes: Vec<u8>,
    parsed: usize,
    frames: Vec<(Frame, Instant)>,
    bad: Option<String>,
    closed: Option<String>,
}

/// The raw side of a connection: what arrives is parsed independently of the library
#[derive(Clone)]
pub struct Raw {
    inb: Arc<Mutex<RawIn>>,
    notify: Arc<Notify>,
    w: Arc<tokio::sync::Mutex<Option<Box<dyn AsyncWrite + Send + Sync + Unpin>>>>,
    rd: Arc<Mutex<Option<JoinHandle<()>>>>,
}

impl Raw {
    pub fn new<S: AsyncProtocolStream + 'static>(s: S) -> Self {
        let (r, w) = s.protocol_into_split();
        Self::from_parts(r, w)
    }
    pub fn from_parts(mut r: impl AsyncRead + Send + Unpin + 'static, w: impl AsyncWrite + Send + Sync + Unpin + 'static) -> Self {
        let inb = Arc::new(Mutex::new(RawIn::default()));
        let notify = Arc::new(Notify::new());
        let (i2, n2) = (inb.clone(), notify.clone());
        let rd = tokio::spawn(async move {
            let mut buf = vec![0u8; 16384];
            loop {
                let res = r.read(&mut buf).await;
                let mut g = i2.lock().unwrap();
                match res {
                    Ok(0) => {
                        g.closed = Some("eof".into());
                    }
                    Err(e) => {
                        g.closed = Some(format!("{:?}", e.kind()));
                    }
                    Ok(n) => {
                        g.bytes.extend_from_slice(&buf[..n]);
                        while g.bad.is_none() {
                            match codec::parse(&g.bytes[g.parsed..]) {
                                Ok((f, n)) => {
                                    g.parsed += n;
                                    g.frames.push((f, Instant::now()));
                                }
                                Err(codec::Parse::Incomplete) => break,
                                Err(codec::Parse::Bad(m)) => g.bad = Some(m),
                            }
                        }
                        if g.parsed == g.bytes.len() {
                            g.bytes.clear();
                            g.parsed = 0;
                        } else if g.parsed > 1 << 16 {
                            let p = g.parsed;
                            g.bytes.drain(..p);
                            g.parsed = 0;
                        }
                    }
                }
                let done = g.closed.is_some();
                drop(g);
                n2.notify_waiters();
                if done {
                    return;
                }
            }
        });
        Raw { inb, notify, w: Arc::new(tokio::sync::Mutex::new(Some(Box::new(w)))), rd: Arc::new(Mutex::new(Some(rd))) }
    }
    pub fn frames(&self) -> Vec<Frame> {
        self.inb.lock().unwrap().frames.iter().map(|f| f.0.clone()).collect()
    }
    pub fn timed(&self) -> Vec<(Frame, Instant)> {
        self.inb.lock().unwrap().frames.clone()
    }
    pub fn n(&self) -> usize {
        self.inb.lock().unwrap().frames.len()
    }
    pub fn clear(&self) {
        self.inb.lock().unwrap().frames.clear()
    }
    /// Bytes that do not (yet) form a frame
    pub fn partial(&self) -> usize {
        let g = self.inb.lock().unwrap();
        g.bytes.len() - g.parsed
    }
    pub fn bad(&self) -> Option<String> {
        self.inb.lock().unwrap().bad.clone()
    }
    pub fn closed(&self) -> Option<String> {
        self.inb.lock().unwrap().closed.clone()
    }
    /// Waits until `f` holds for the received frames, the connection is closed or the time is over
    pub async fn until(&self, limit: Duration, f: impl Fn(&[(Frame, Instant)]) -> bool) -> bool {
        let end = Instant::now() + limit;
        loop {
            let n = self.notify.notified();
            tokio::pin!(n);
            n.as_mut().enable();
            {
                let g = self.inb.lock().unwrap();
                if f(&g.frames) {
                    return true;
                }
                if g.closed.is_some() || g.bad.is_some() {
                    return false;
                }
            }
            if tokio::time::timeout_at(end, n).await.is_err() {
                return f(&self.inb.lock().unwrap().frames);
            }
        }
    }
    pub async fn wait_n(&self, n: usize, limit: Duration) -> bool {
        self.until(limit, |f| f.len() >= n).await
    }
    pub async fn wait_closed(&self, limit: Duration) -> bool {
        let end = Instant::now() + limit;
        loop {
            let n = self.notify.notified();
            tokio::pin!(n);
            n.as_mut().enable();
            if self.closed().is_some() {
                return true;
            }
            if tokio::time::timeout_at(end, n).await.is_err() {
                return self.closed().is_some();
            }
        }
    }
    pub async fn send(&self, b: &[u8]) -> std::io::Result<()> {
        let mut g = self.w.lock().await;
        match g.as_mut() {
            Some(w) => {
                w.write_all(b).await?;
                w.flush().await
            }
            None => Err(std::io::ErrorKind::NotConnected.into()),
        }
    }
    /// Writes in random pieces with pauses in between
    pub async fn send_chunked(&self, b: &[u8], r: &mut Rng) -> std::io::Result<()> {
        let mut g = self.w.lock().await;
        let w = match g.as_mut() {
            Some(w) => w,
            None => return Err(std::io::ErrorKind::NotConnected.into()),
        };
        let mut o = 0;
        while o < b.len() {
            let n = match r.below(4) {
                0 => 1,
                1 => 1 + r.idx(12),
                2 => 1 + r.idx(300),
                _ => b.len() - o,
            }
            .min(b.len() - o);
            w.write_all(&b[o..o + n]).await?;
            w.flush().await?;
            o += n;
            if r.chance(300) {
                sleep(us(r.range(1, 2000))).await;
            } else if r.chance(300) {
                tokio::task::yield_now().await;
            }
        }
        Ok(())
    }
    pub async fn frame(&self, f: &Frame) -> std::io::Result<()> {
        self.send(&f.encode()).await
    }
    pub async fn shutdown(&self) {
        if let Some(w) = self.w.lock().await.as_mut() {
            let _ = w.shutdown().await;
        }
    }
    /// Closes both directions at once
    pub async fn close(&self) {
        if let Some(h) = self.rd.lock().unwrap().take() {
            h.abort();
        }
        *self.w.lock().await = None;
        tokio::task::yield_now().await;
    }
}

/// Polls a future a given number of times before dropping it
pub struct PollN<F> {
    f: Option<Pin<Box<F>>>,
    left: usize,
    pub polled: usize,
}
impl<F: Future> PollN<F> {
    pub fn new(f: F, n: usize) -> Self {
        PollN { f: Some(Box::pin(f)), left: n, polled: 0 }
    }
}
impl<F: Future> Future for PollN<F> {
    /// None: dropped before it was done
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut TCx<'_>) -> Poll<Self::Output> {
        if self.left == 0 {
            self.f = None;
            return Poll::Ready(None);
        }
        self.left -= 1;
        self.polled += 1;
        match self.f.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(x) => {
                self.f = None;
                Poll::Ready(Some(x))
            }
            Poll::Pending => {
                if self.left == 0 {
                    self.f = None;
                    return Poll::Ready(None);
                }
                Poll::Pending
            }
        }
    }
}

pub struct NextF<'a>(pub &'a mut ResponseStream);
impl<'a> Future for NextF<'a> {
    type Output = Option<IPCResult<Event>>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut TCx<'_>) -> Poll<Self::Output> {
        futures_core::Stream::poll_next(Pin::new(&mut *self.0), cx)
    }
}
pub fn next(s: &mut ResponseStream) -> NextF<'_> {
    NextF(s)
}

/// Payload with an id in front and filler that depends on it
pub fn token_payload(tok: u64, len: usize) -> Vec<u8> {
    let mut v = tok.to_be_bytes().to_vec();
    let mut r = Rng::new(tok);
    v.extend(r.bytes(len));
    v
}
pub fn token_of(b: &[u8]) -> Option<u64> {
    if b.len() < 8 {
        return None;
    }
    let t = u64::from_be_bytes(b[..8].try_into().unwrap());
    let mut r = Rng::new(t);
    if r.bytes(b.len() - 8) == b[8..] {
        Some(t)
    } else {
        None
    }
}

pub fn evt_ty(t: bromine::event::EventType) -> u8 {
    use bromine::event::EventType::*;
    match t {
        Initiator => codec::INIT,
        Response => codec::RESP,
        End => codec::END,
        Error => codec::ERR,
    }
}

pub fn err_payload(code: u16, msg: &[u8]) -> Vec<u8> {
    let mut v = code.to_be_bytes().to_vec();
    v.extend_from_slice(&(msg.len() as u32).to_be_bytes());
    v.extend_from_slice(msg);
    v
}

pub fn parse_err(b: &[u8]) -> Option<(u16, String)> {
    if b.len() < 6 {
        return None;
    }
    let n = u32::from_be_bytes(b[2..6].try_into().unwrap()) as usize;
    if b.len() != 6 + n {
        return None;
    }
    Some((u16::from_be_bytes([b[0], b[1]]), String::from_utf8(b[6..].to_vec()).ok()?))
}
