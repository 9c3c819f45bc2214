//! C24: real sockets
use crate::core::*;
use crate::fix::*;
use crate::rng::*;
use crate::{boxed, codec, ensure};
use bromine::error::Error;
use bromine::prelude::*;
use bromine::protocol::tcp::TcpOptions;
use bromine::protocol::{AsyncProtocolStream, AsyncStreamProtocolListener};
use std::collections::HashMap;
use std::net::SocketAddr;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::net::{TcpListener, TcpStream, UnixListener, UnixStream};
use tokio::task::JoinHandle;

pub fn fams() -> Vec<Fam> {
    vec![
        fam_multi("traffic", 16, 160, boxed!(traffic)),
        fam_multi("big", 4, 24, boxed!(big)),
        fam_multi("unread", 4, 40, boxed!(unread)),
        fam_multi("options", 4, 24, boxed!(options)),
        fam_multi("nobody", 4, 12, boxed!(nobody)),
        fam_multi("in_use", 4, 24, boxed!(in_use)),
        fam_multi("comings", 4, 40, boxed!(comings)),
        fam_multi("leaving", 16, 100, boxed!(leaving)),
    ]
}

/// A folder for sockets that is removed at the end
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("bmon-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).expect("scratch folder");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

trait Rt: 'static + Send + Sync {
    type A: Clone + Send + Sync + std::fmt::Debug + 'static;
    type L: AsyncStreamProtocolListener<AddressType = Self::A> + 'static;
    type K: Clone + Send + Sync + 'static;
    const NAME: &'static str;
    fn keys(r: &mut Rng) -> Self::K;
    fn addr(s: &Scratch, r: &mut Rng) -> Self::A;
    fn lopts(k: &Self::K, ttl: Option<u32>) -> <Self::L as AsyncStreamProtocolListener>::ListenerOptions;
    fn copts(k: &Self::K, ttl: Option<u32>) -> <<Self::L as AsyncStreamProtocolListener>::Stream as AsyncProtocolStream>::StreamOptions;
}

fn port() -> SocketAddr {
    let l = std::net::TcpListener::bind("127.0.0.1:0").expect("a port");
    l.local_addr().unwrap()
}
fn sock(s: &Scratch, r: &mut Rng) -> PathBuf {
    s.0.join(format!("s{:x}", r.next() & 0xffff_ffff))
}

struct Tcp;
impl Rt for Tcp {
    type A = SocketAddr;
    type L = TcpListener;
    type K = ();
    const NAME: &'static str = "tcp";
    fn keys(_: &mut Rng) {}
    fn addr(_: &Scratch, _: &mut Rng) -> SocketAddr {
        port()
    }
    fn lopts(_: &(), ttl: Option<u32>) -> TcpOptions {
        TcpOptions { ttl }
    }
    fn copts(_: &(), ttl: Option<u32>) -> TcpOptions {
        TcpOptions { ttl }
    }
}
struct Uds;
impl Rt for Uds {
    type A = PathBuf;
    type L = UnixListener;
    type K = ();
    const NAME: &'static str = "unix";
    fn keys(_: &mut Rng) {}
    fn addr(s: &Scratch, r: &mut Rng) -> PathBuf {
        sock(s, r)
    }
    fn lopts(_: &(), _: Option<u32>) {}
    fn copts(_: &(), _: Option<u32>) {}
}

#[cfg(feature = "enc")]
mod encrypted {
    use super::*;
    use crate::fix::enc::{keys, secret, EK};
    use bromine::prelude::encrypted::*;
    use x25519_dalek::PublicKey;

    pub fn ek(r: &mut Rng) -> EK {
        let (a, b) = (secret(r), secret(r));
        EK { s: keys(&a, &[PublicKey::from(&b)], false), c: keys(&b, &[PublicKey::from(&a)], false) }
    }
    pub struct ETcp;
    impl Rt for ETcp {
        type A = SocketAddr;
        type L = EncryptedListener<TcpListener>;
        type K = EK;
        const NAME: &'static str = "encrypted tcp";
        fn keys(r: &mut Rng) -> EK {
            ek(r)
        }
        fn addr(_: &Scratch, _: &mut Rng) -> SocketAddr {
            port()
        }
        fn lopts(k: &EK, ttl: Option<u32>) -> EncryptionOptions<TcpOptions> {
            EncryptionOptions { inner_options: TcpOptions { ttl }, keys: k.s.clone() }
        }
        fn copts(k: &EK, ttl: Option<u32>) -> EncryptionOptions<TcpOptions> {
            EncryptionOptions { inner_options: TcpOptions { ttl }, keys: k.c.clone() }
        }
    }
    pub struct EUds;
    impl Rt for EUds {
        type A = PathBuf;
        type L = EncryptedListener<UnixListener>;
        type K = EK;
        const NAME: &'static str = "encrypted unix";
        fn keys(r: &mut Rng) -> EK {
            ek(r)
        }
        fn addr(s: &Scratch, r: &mut Rng) -> PathBuf {
            sock(s, r)
        }
        fn lopts(k: &EK, _: Option<u32>) -> EncryptionOptions<()> {
            EncryptionOptions { inner_options: (), keys: k.s.clone() }
        }
        fn copts(k: &EK, _: Option<u32>) -> EncryptionOptions<()> {
            EncryptionOptions { inner_options: (), keys: k.c.clone() }
        }
    }
}
#[cfg(feature = "enc")]
use encrypted::*;

macro_rules! each {
    ($name:ident, $f:ident) => {
        async fn $name(sc: Arc<Sc>) -> R {
            match sc.idx % 4 {
                #[cfg(feature = "enc")]
                2 => $f::<ETcp>(sc).await,
                #[cfg(feature = "enc")]
                3 => $f::<EUds>(sc).await,
                1 => $f::<Uds>(sc).await,
                _ => $f::<Tcp>(sc).await,
            }
        }
    };
}

struct Server(JoinHandle<IPCResult<()>>);
impl Drop for Server {
    fn drop(&mut self) {
        self.0.abort()
    }
}

struct Real<T: Rt> {
    addr: T::A,
    keys: T::K,
    /// what a server handled: token -> times
    runs: Arc<Mutex<HashMap<u64, u32>>>,
    /// what clients handled
    asked: Arc<Mutex<HashMap<u64, u32>>>,
    /// failures seen inside of handlers
    bad: Arc<Mutex<Vec<String>>>,
    ttl: (Option<u32>, Option<u32>),
}

fn flip(p: &[u8]) -> Vec<u8> {
    p.iter().rev().map(|b| !b).collect()
}

impl<T: Rt> Real<T> {
    /// Starts a server
    async fn start(sc: &Scratch, r: &mut Rng, ttl: (Option<u32>, Option<u32>)) -> R<(Self, Server)> {
        let keys = T::keys(r);
        let mut last = String::new();
        for _ in 0..10 {
            let me = Real::<T> { addr: T::addr(sc, r), keys: keys.clone(), runs: Default::default(), asked: Default::default(), bad: Default::default(), ttl };
            let b = me.server();
            let h = tokio::spawn(async move { b.build_server().await });
            // until somebody can connect
            for _ in 0..500 {
                sleep(ms(4)).await;
                if h.is_finished() {
                    break;
                }
                if <<T::L as AsyncStreamProtocolListener>::Stream as AsyncProtocolStream>::protocol_connect(me.addr.clone(), T::copts(&me.keys, None)).await.is_ok() {
                    return Ok((me, Server(h)));
                }
            }
            if h.is_finished() {
                last = format!("{:?}", h.await.map(|x| x.err()));
            } else {
                h.abort();
                last = "nobody can connect".into();
            }
            // the port may have been taken by somebody else
            if !last.contains("AddrInUse") {
                break;
            }
        }
        viol("server", format!("{}: a server could not be started: {}", T::NAME, last))
    }

    fn server(&self) -> IPCBuilder<T::L> {
        let (runs, bad) = (self.runs.clone(), self.bad.clone());
        let note = move |p: &[u8]| match token_of(p) {
            Some(t) => *runs.lock().unwrap().entry(t).or_insert(0) += 1,
            None => bad.lock().unwrap().push(format!("an event of {} bytes arrived altered", p.len())),
        };
        let (n1, n2, n3) = (note.clone(), note.clone(), note);
        let bad = self.bad.clone();
        IPCBuilder::<T::L>::new()
            .address(self.addr.clone())
            .server_options(T::lopts(&self.keys, self.ttl.0))
            .on(
                "echo",
                hnd(move |ctx, e| {
                    let n = n1.clone();
                    Box::pin(async move {
                        let p = e.payload::<BytePayload>()?.into_inner();
                        n(&p);
                        Response::payload(ctx, bp(flip(&p)))
                    })
                }),
            )
            .on(
                "many",
                hnd(move |ctx, e| {
                    let n = n2.clone();
                    Box::pin(async move {
                        let p = e.payload::<BytePayload>()?.into_inner();
                        n(&p);
                        // the length decides how many
                        let k = p.len() % 7;
                        for i in 0..k {
                            let mut v = flip(&p);
                            v.push(i as u8);
                            ctx.emit("item", bp(v)).await?;
                        }
                        Ok(Response::empty())
                    })
                }),
            )
            .on(
                "back",
                hnd(move |ctx, e| {
                    let n = n3.clone();
                    let bad = bad.clone();
                    Box::pin(async move {
                        let p = e.payload::<BytePayload>()?.into_inner();
                        n(&p);
                        match ctx.emit("ask", bp(p.clone())).await_reply().await {
                            Ok(e) => {
                                let q = e.payload::<BytePayload>()?.into_inner();
                                if q != flip(&p) {
                                    bad.lock().unwrap().push("a client's reply arrived altered".into());
                                }
                            }
                            Err(e) => bad.lock().unwrap().push(format!("asking a client failed: {:?}", e)),
                        }
                        Ok(Response::empty())
                    })
                }),
            )
            .namespace("sp")
            .on("nop", hnd(|_, _| Box::pin(async { Ok(Response::empty()) })))
            .build()
    }

    fn client(&self) -> IPCBuilder<T::L> {
        let (asked, bad) = (self.asked.clone(), self.bad.clone());
        IPCBuilder::<T::L>::new().address(self.addr.clone()).client_options(T::copts(&self.keys, self.ttl.1)).on(
            "ask",
            hnd(move |ctx, e| {
                let (asked, bad) = (asked.clone(), bad.clone());
                Box::pin(async move {
                    let p = e.payload::<BytePayload>()?.into_inner();
                    match token_of(&p) {
                        Some(t) => *asked.lock().unwrap().entry(t).or_insert(0) += 1,
                        None => bad.lock().unwrap().push("a server's event arrived altered".into()),
                    }
                    Response::payload(ctx, bp(flip(&p)))
                })
            }),
        )
    }

    fn check(&self, sent: &[(u64, bool)]) -> R {
        if let Some(b) = self.bad.lock().unwrap().first() {
            return viol("altered", format!("{}: {}", T::NAME, b));
        }
        let (runs, asked) = (self.runs.lock().unwrap(), self.asked.lock().unwrap());
        for (t, back) in sent {
            let n = runs.get(t).copied().unwrap_or(0);
            ensure!(n == 1, "once", "{}: an event was handled {} times", T::NAME, n);
            let m = asked.get(t).copied().unwrap_or(0);
            ensure!(m == *back as u32, "once", "{}: an event for the client was handled {} times instead of {}", T::NAME, m, *back as u32);
        }
        ensure!(runs.len() == sent.len(), "once", "{}: {} events were handled, {} sent", T::NAME, runs.len(), sent.len());
        Ok(())
    }

    /// Waits until everything was handled
    async fn done(&self, n: usize, back: usize) {
        for _ in 0..2500 {
            if self.runs.lock().unwrap().len() >= n && self.asked.lock().unwrap().len() >= back {
                break;
            }
            sleep(ms(10)).await;
        }
        // what is more than expected may still come
        sleep(ms(30)).await;
    }
}

fn size(r: &mut Rng, max: usize) -> usize {
    match r.below(10) {
        0 => 0,
        1..=4 => r.idx(200),
        5..=7 => r.idx(5000),
        8 => r.idx(max / 10 + 1),
        _ => r.idx(max + 1),
    }
}

async fn ask(ctx: &Ctx, r: &mut Rng, max: usize, name: &str) -> R<(u64, bool, usize)> {
    let tok = r.next();
    let p = token_payload(tok, size(r, max));
    match r.below(8) {
        0..=3 => match ctx.emit("echo", bp(p.clone())).await_reply().await {
            Ok(e) => {
                let q = e.payload::<BytePayload>().map(|b| b.into_inner()).unwrap_or_default();
                ensure!(q == flip(&p), "altered", "{}: the reply to an event with {} bytes arrived altered ({} bytes)", name, p.len(), q.len());
                Ok((tok, false, 2 * p.len()))
            }
            Err(e) => viol("reply", format!("{}: a request with {} bytes failed: {:?}", name, p.len(), e)),
        },
        4 | 5 => match ctx.emit("many", bp(p.clone())).stream_replies().await {
            Ok(mut s) => {
                let want = p.len() % 7;
                let mut n = 0;
                while let Some(x) = next(&mut s).await {
                    match x {
                        Ok(e) => {
                            // the stream ends with the handler's empty response
                            let mut v = if n == want { vec![] } else { flip(&p) };
                            if n < want {
                                v.push(n as u8);
                            }
                            let q = e.payload::<BytePayload>().map(|b| b.into_inner()).unwrap_or_default();
                            ensure!(q == v, "altered", "{}: reply {} of a stream arrived altered or out of order", name, n);
                            n += 1;
                        }
                        Err(e) => return viol("reply", format!("{}: a reply stream failed: {:?}", name, e)),
                    }
                    ensure!(n <= want + 1, "once", "{}: a stream of {} replies has more", name, want);
                }
                ensure!(n == want + 1, "once", "{}: a stream of {} replies ended after {}", name, want, n);
                Ok((tok, false, p.len() * (1 + want)))
            }
            Err(e) => viol("reply", format!("{}: a streaming request failed: {:?}", name, e)),
        },
        6 => match ctx.emit("back", bp(p.clone())).await {
            Ok(_) => Ok((tok, true, 3 * p.len())),
            Err(e) => viol("emit", format!("{}: emitting {} bytes failed: {:?}", name, p.len(), e)),
        },
        _ => match ctx.emit("many", bp(token_payload(tok, 6))).await {
            // without replies
            Ok(_) => Ok((tok, false, 14)),
            Err(e) => viol("emit", format!("{}: emitting failed: {:?}", name, e)),
        },
    }
}

async fn join_all<X>(hs: Vec<JoinHandle<R<X>>>) -> R<Vec<X>> {
    let mut v = vec![];
    for h in hs {
        match h.await {
            Ok(x) => v.push(x?),
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    Ok(v)
}

each!(traffic, traffic_);
/// Concurrent clients and tasks, all kinds of requests
async fn traffic_<T: Rt>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let dir = Scratch::new();
    let (real, _srv) = Real::<T>::start(&dir, &mut r, (None, None)).await?;
    let clients = r.range(1, 8) as usize;
    let tasks = r.range(1, 4) as usize;
    let per = r.range(5, 25) as usize;
    let max = if r.chance(300) { 1 << 20 } else { 60_000 };
    let mut hs = vec![];
    let mut keep = vec![];
    let mut pools = 0;
    for _ in 0..clients {
        let pool = if r.chance(300) { r.range(1, 5) as usize } else { 0 };
        let e = |e: Error| Stop::Viol { sig: "connect".into(), msg: format!("{}: connecting failed: {:?}", T::NAME, e) };
        if pool > 0 {
            pools += 1;
            let p = real.client().build_pooled_client(pool).await.map_err(e)?;
            for _ in 0..tasks {
                let (p, mut r) = (p.clone(), r.fork());
                hs.push(tokio::spawn(async move {
                    let mut v = vec![];
                    for _ in 0..per {
                        let c = p.acquire();
                        v.push(ask(&c, &mut r, max, T::NAME).await?);
                    }
                    Ok((v, Some(p)))
                }));
            }
        } else {
            let c = real.client().build_client().await.map_err(e)?;
            for _ in 0..tasks {
                let (c, mut r) = (c.clone(), r.fork());
                hs.push(tokio::spawn(async move {
                    let mut v = vec![];
                    for _ in 0..per {
                        v.push(ask(&c, &mut r, max, T::NAME).await?);
                    }
                    Ok((v, None))
                }));
            }
            keep.push(c);
        }
    }
    let mut sent = vec![];
    let mut bytes = 0;
    let mut keep2 = vec![];
    for (v, p) in join_all(hs).await? {
        keep2.push(p);
        for (t, b, n) in v {
            sent.push((t, b));
            bytes += n;
        }
    }
    let back = sent.iter().filter(|x| x.1).count();
    real.done(sent.len(), back).await;
    real.check(&sent)?;
    drop((keep, keep2));
    sc.count("events over real sockets", sent.len() as u64);
    sc.count("bytes over real sockets", bytes as u64);
    sc.case(Some(mix(sc.seed, bytes as u64)), || format!("{}: {} clients ({} pools), {} tasks each, {} requests, {} bytes", T::NAME, clients, pools, tasks, sent.len(), bytes));
    Ok(())
}

each!(big, big_);
/// Payloads that are much bigger than any buffer, next to small ones
async fn big_<T: Rt>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let dir = Scratch::new();
    let (real, _srv) = Real::<T>::start(&dir, &mut r, (None, None)).await?;
    let c = real.client().build_client().await.map_err(|e| Stop::Viol { sig: "connect".into(), msg: format!("{:?}", e) })?;
    let mut sent = vec![];
    let mut hs = vec![];
    let base = if sc.thorough { 24 << 20 } else { 3 << 20 };
    let total = 2 * base;
    for n in [base, base + r.idx(4096), (1 << 16) - 8, (1 << 16) - 7, (1 << 20) + 1] {
        let (c, tok) = (c.clone(), r.next());
        sent.push((tok, false));
        hs.push(tokio::spawn(async move {
            let p = token_payload(tok, n);
            match c.emit("echo", bp(p.clone())).await_reply().await {
                Ok(e) => {
                    let q = e.payload::<BytePayload>().map(|b| b.into_inner()).unwrap_or_default();
                    ensure!(q == flip(&p), "altered", "{}: the reply to an event with {} bytes arrived altered ({} bytes)", T::NAME, p.len(), q.len());
                    Ok(())
                }
                Err(e) => viol("reply", format!("{}: a request with {} bytes failed: {:?}", T::NAME, p.len(), e)),
            }
        }));
    }
    join_all(hs).await?;
    real.check(&sent)?;
    sc.count("bytes over real sockets", 2 * total as u64);
    sc.case(Some(sc.seed), || format!("{}: payloads up to {} bytes, all at once", T::NAME, base));
    Ok(())
}

each!(unread, unread_);
/// A peer that reads nothing for a while: the socket's buffers are full, nothing is lost
async fn unread_<T: Rt>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let dir = Scratch::new();
    let (real, _srv) = Real::<T>::start(&dir, &mut r, (None, None)).await?;
    let e = |e: Error| Stop::Viol { sig: "connect".into(), msg: format!("{}: connecting failed: {:?}", T::NAME, e) };
    let s = <<T::L as AsyncStreamProtocolListener>::Stream as AsyncProtocolStream>::protocol_connect(real.addr.clone(), T::copts(&real.keys, None)).await.map_err(e)?;
    let (mut rd, mut wr) = s.protocol_into_split();
    let n = r.range(20, 60);
    let seed = r.next();
    let mut reqs = vec![];
    for i in 0..n {
        let tok = mix(seed, i);
        let p = token_payload(tok, if i % 3 == 0 { 200_000 } else { r.idx(3000) });
        reqs.push(codec::Frame::new(codec::INIT, i + 1, None, None, "echo", p));
    }
    let total: usize = reqs.iter().map(|f| f.data.len()).sum();
    let r2 = reqs.clone();
    let w = tokio::spawn(async move {
        use tokio::io::AsyncWriteExt;
        for f in r2 {
            wr.write_all(&f.encode()).await?;
            wr.flush().await?;
        }
        Ok::<_, std::io::Error>(wr)
    });
    sleep(ms(r.range(50, 400))).await;
    // another client is served meanwhile
    let c = real.client().build_client().await.map_err(e)?;
    let mut sent: Vec<(u64, bool)> = (0..n).map(|i| (mix(seed, i), false)).collect();
    for _ in 0..5 {
        let tok = r.next();
        let p = token_payload(tok, r.idx(1000));
        sent.push((tok, false));
        let x = tokio::time::timeout(secs(40), c.emit("echo", bp(p)).await_reply()).await;
        ensure!(matches!(x, Ok(Ok(_))), "served", "{}: a client is not served while another one does not read: {:?}", T::NAME, x.map(|y| y.err()));
    }
    let mut got: Vec<u8> = vec![];
    let mut frames = vec![];
    let mut b = vec![0; 1 << 16];
    use tokio::io::AsyncReadExt;
    while frames.len() < n as usize {
        match tokio::time::timeout(secs(40), rd.read(&mut b)).await {
            Ok(Ok(k)) if k > 0 => got.extend_from_slice(&b[..k]),
            x => return viol("lost", format!("{}: only {} of {} replies arrived: {:?}", T::NAME, frames.len(), n, x)),
        }
        let mut o = 0;
        loop {
            match codec::parse(&got[o..]) {
                Ok((f, k)) => {
                    o += k;
                    frames.push(f)
                }
                Err(codec::Parse::Incomplete) => break,
                Err(codec::Parse::Bad(m)) => return viol("altered", format!("{}: not a frame: {}", T::NAME, m)),
            }
        }
        got.drain(..o);
    }
    ensure!(matches!(w.await, Ok(Ok(_))), "lost", "{}: writing requests failed", T::NAME);
    ensure!(got.is_empty() && frames.len() == n as usize, "once", "{}: {} replies to {} requests", T::NAME, frames.len(), n);
    for f in &frames {
        let q = reqs.iter().find(|q| Some(q.id) == f.ref_id);
        ensure!(q.map(|q| flip(&q.data) == f.data).unwrap_or(false), "altered", "{}: a reply arrived altered", T::NAME);
    }
    let mut refs: Vec<_> = frames.iter().map(|f| f.ref_id).collect();
    refs.sort();
    refs.dedup();
    ensure!(refs.len() == n as usize, "once", "{}: a request was answered twice", T::NAME);
    real.check(&sent)?;
    sc.count("bytes over real sockets", 2 * total as u64);
    sc.case(Some(sc.seed), || format!("{}: {} requests ({} bytes) of a client that does not read at first", T::NAME, n, total));
    Ok(())
}

/// (time to live, listening, local port, remote port) of all TCP sockets of this process
fn sockets() -> Vec<(u32, bool, u16, u16)> {
    let mut v = vec![];
    let fds: Vec<i32> = match std::fs::read_dir("/proc/self/fd") {
        Ok(d) => d.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).collect(),
        Err(_) => return v,
    };
    for fd in fds {
        unsafe {
            let get = |level: i32, opt: i32| {
                let mut x: i32 = 0;
                let mut l = 4 as libc::socklen_t;
                (libc::getsockopt(fd, level, opt, &mut x as *mut i32 as *mut libc::c_void, &mut l) == 0).then_some(x)
            };
            if get(libc::SOL_SOCKET, libc::SO_DOMAIN) != Some(libc::AF_INET) || get(libc::SOL_SOCKET, libc::SO_TYPE) != Some(libc::SOCK_STREAM) {
                continue;
            }
            let name = |f: unsafe extern "C" fn(i32, *mut libc::sockaddr, *mut libc::socklen_t) -> i32| {
                let mut a: libc::sockaddr_in = std::mem::zeroed();
                let mut l = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
                if f(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut l) == 0 {
                    u16::from_be(a.sin_port)
                } else {
                    0
                }
            };
            if let (Some(t), Some(l)) = (get(libc::IPPROTO_IP, libc::IP_TTL), get(libc::SOL_SOCKET, libc::SO_ACCEPTCONN)) {
                v.push((t as u32, l != 0, name(libc::getsockname), name(libc::getpeername)));
            }
        }
    }
    v
}

fn default_ttl() -> u32 {
    let s = std::net::UdpSocket::bind("127.0.0.1:0").expect("socket");
    s.ttl().expect("ttl")
}

async fn options(sc: Arc<Sc>) -> R {
    #[cfg(feature = "enc")]
    if sc.idx % 2 == 1 {
        return options_::<ETcp>(sc).await;
    }
    options_::<Tcp>(sc).await
}

/// The time to live of sockets
async fn options_<T: Rt<A = SocketAddr>>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let dir = Scratch::new();
    let def = default_ttl();
    let mut ds = vec![];
    for i in 0..8 {
        let mut v = |k: u64| match k {
            0 => None,
            1 => Some(1),
            2 => Some(255),
            3 => Some(def),
            _ => Some(r.range(2, 254) as u32),
        };
        let (a, b) = (v(i % 5), v((i * 3 + sc.idx) % 5));
        let (real, srv) = Real::<T>::start(&dir, &mut r, (a, b)).await?;
        let port = real.addr.port();
        let c = real.client().build_client().await.map_err(|e| Stop::Viol { sig: "connect".into(), msg: format!("{:?}", e) })?;
        let p = real.client().build_pooled_client(3).await.map_err(|e| Stop::Viol { sig: "connect".into(), msg: format!("{:?}", e) })?;
        let x = ask(&c, &mut r, 100, T::NAME).await?;
        let s = sockets();
        let l: Vec<u32> = s.iter().filter(|s| s.1 && s.2 == port).map(|s| s.0).collect();
        let o: Vec<u32> = s.iter().filter(|s| !s.1 && s.3 == port).map(|s| s.0).collect();
        if l.len() != 1 || o.len() < 4 {
            return Err(Stop::Inconc(format!("{} listening and {} connected sockets found", l.len(), o.len())));
        }
        ensure!(l[0] == a.unwrap_or(def), "ttl", "{}: the listening socket has the time to live {} with the option {:?}", T::NAME, l[0], a);
        // other connections were made by waiting for the server
        let want = b.unwrap_or(def);
        let right = o.iter().filter(|t| **t == want).count();
        ensure!(right >= 4, "ttl", "{}: the time to live of connected sockets is {:?} with the option {:?}", T::NAME, o, b);
        ds.push(format!("{:?}/{:?}", a, b));
        sc.count("sockets looked at", (l.len() + o.len()) as u64);
        let _ = x;
        drop((c, p, srv));
    }
    // the functions of the transport on their own
    for t in [None, Some(1), Some(7), Some(128), Some(255)] {
        let l = TcpListener::protocol_bind("127.0.0.1:0".parse().unwrap(), TcpOptions { ttl: t }).await.map_err(|e| Stop::Viol { sig: "bind".into(), msg: format!("{:?}", e) })?;
        ensure!(l.ttl().ok() == Some(t.unwrap_or(def)), "ttl", "binding with {:?} gave {:?}", t, l.ttl());
        let c = TcpStream::protocol_connect(l.local_addr().unwrap(), TcpOptions { ttl: t }).await.map_err(|e| Stop::Viol { sig: "connect".into(), msg: format!("{:?}", e) })?;
        ensure!(c.ttl().ok() == Some(t.unwrap_or(def)), "ttl", "connecting with {:?} gave {:?}", t, c.ttl());
    }
    ensure!(TcpOptions::default().ttl.is_none(), "ttl", "a time to live is set by default");
    // values that the system refuses
    for t in [0, 256, 100_000] {
        let x = TcpListener::protocol_bind("127.0.0.1:0".parse().unwrap(), TcpOptions { ttl: Some(t) }).await;
        ensure!(matches!(x, Err(Error::IoError(_))), "ttl", "the time to live {} was accepted for listening", t);
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let x = TcpStream::protocol_connect(l.local_addr().unwrap(), TcpOptions { ttl: Some(t) }).await;
        ensure!(matches!(x, Err(Error::IoError(_))), "ttl", "the time to live {} was accepted for connecting", t);
    }
    sc.case(Some(sc.seed), || format!("{}: time to live of (server/client) {}", T::NAME, ds.join(", ")));
    Ok(())
}

each!(nobody, nobody_);
/// Connecting where nobody listens
async fn nobody_<T: Rt>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let dir = Scratch::new();
    let mut addrs = vec![];
    for _ in 0..3 {
        addrs.push(T::addr(&dir, &mut r));
    }
    // a server that is gone
    {
        let (real, srv) = Real::<T>::start(&dir, &mut r, (None, None)).await?;
        srv.0.abort();
        for _ in 0..200 {
            if srv.0.is_finished() {
                break;
            }
            sleep(ms(5)).await;
        }
        sleep(ms(20)).await;
        addrs.push(real.addr.clone());
    }
    let keys = T::keys(&mut r);
    for (i, a) in addrs.iter().enumerate() {
        for pool in [0, 1, 3] {
            let b = IPCBuilder::<T::L>::new().address(a.clone()).client_options(T::copts(&keys, None)).timeout(secs(5));
            let x = tokio::time::timeout(secs(20), async {
                if pool > 0 {
                    b.build_pooled_client(pool).await.map(|_| ())
                } else {
                    b.build_client().await.map(|_| ())
                }
            })
            .await;
            match x {
                Ok(Err(Error::IoError(_))) => {}
                Ok(Ok(())) => return viol("nobody", format!("{}: a client was built for {:?} where nobody listens", T::NAME, a)),
                Ok(Err(e)) => return viol("error", format!("{}: connecting where nobody listens gave {:?} instead of an I/O error", T::NAME, e)),
                Err(_) => return viol("hang", format!("{}: connecting where nobody listens did not end", T::NAME)),
            }
            sc.count("refused connections", 1);
        }
        let _ = i;
    }
    sc.case(Some(sc.seed), || format!("{}: {:?}", T::NAME, addrs));
    Ok(())
}

each!(in_use, in_use_);
/// A second server at the same address
async fn in_use_<T: Rt>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let dir = Scratch::new();
    let (real, srv) = Real::<T>::start(&dir, &mut r, (None, None)).await?;
    let c = real.client().build_client().await.map_err(|e| Stop::Viol { sig: "connect".into(), msg: format!("{:?}", e) })?;
    let mut sent = vec![];
    for _ in 0..3 {
        let second = IPCBuilder::<T::L>::new().address(real.addr.clone()).server_options(T::lopts(&real.keys, None)).on("echo", hnd(|ctx, _| Box::pin(async move { Response::payload(ctx, bp(vec![9])) })));
        match tokio::time::timeout(secs(10), second.build_server()).await {
            Ok(Err(Error::IoError(_))) => {}
            Ok(x) => return viol("in_use", format!("{}: starting a second server at the same address gave {:?} instead of an I/O error", T::NAME, x)),
            Err(_) => return viol("in_use", format!("{}: a second server runs at the same address", T::NAME)),
        }
        sc.count("refused servers", 1);
        // the first one goes on, for old and new clients
        for c in [c.clone(), real.client().build_client().await.map_err(|e| Stop::Viol { sig: "connect".into(), msg: format!("{}: connecting after a second server failed: {:?}", T::NAME, e) })?] {
            for _ in 0..3 {
                let (t, b, _) = ask(&c, &mut r, 2000, T::NAME).await?;
                sent.push((t, b));
            }
            real.done(sent.len(), sent.iter().filter(|x| x.1).count()).await;
        }
    }
    ensure!(!srv.0.is_finished(), "in_use", "{}: the first server ended", T::NAME);
    real.check(&sent)?;
    sc.case(Some(sc.seed), || format!("{}: {:?}", T::NAME, real.addr));
    Ok(())
}

each!(comings, comings_);
/// Clients that come and go at any time, next to one that stays
async fn comings_<T: Rt>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let dir = Scratch::new();
    let (real, srv) = Real::<T>::start(&dir, &mut r, (None, None)).await?;
    let real = Arc::new(real);
    let stay = real.client().build_client().await.map_err(|e| Stop::Viol { sig: "connect".into(), msg: format!("{:?}", e) })?;
    let rounds = r.range(20, 60);
    let mut hs = vec![];
    for i in 0..rounds {
        let (real, mut r2) = (real.clone(), r.fork());
        hs.push(tokio::spawn(async move {
            let r = &mut r2;
            let mut sent = vec![];
            match i % 4 {
                0 => {
                    let _ = <<T::L as AsyncStreamProtocolListener>::Stream as AsyncProtocolStream>::protocol_connect(real.addr.clone(), T::copts(&real.keys, None)).await;
                }
                1 => {
                    // leaves with requests under way
                    if let Ok(c) = real.client().build_client().await {
                        for _ in 0..4 {
                            let _ = tokio::time::timeout(Duration::from_micros(r.range(0, 2000)), c.emit("sp", bp(vec![0; 3000])).await_reply()).await;
                        }
                        let _ = c.stop().await;
                    }
                }
                _ => match real.client().build_client().await {
                    Ok(c) => {
                        for _ in 0..3 {
                            let tok = r.next();
                            let p = token_payload(tok, r.idx(20_000));
                            let x = c.emit("echo", bp(p.clone())).await_reply().await;
                            let q = x.and_then(|e| e.payload::<BytePayload>()).map(|b| b.into_inner());
                            ensure!(q.as_ref().ok() == Some(&flip(&p)), "reply", "{}: a request of a client that came late failed: {:?}", T::NAME, q.err());
                            sent.push((tok, false));
                        }
                        let _ = c.stop().await;
                    }
                    Err(e) => return viol("connect", format!("{}: connecting failed: {:?}", T::NAME, e)),
                },
            }
            Ok(sent)
        }));
        if r.chance(300) {
            sleep(us(r.range(0, 3000))).await;
        }
    }
    let mut sent: Vec<(u64, bool)> = vec![];
    for _ in 0..10 {
        let tok = r.next();
        let p = token_payload(tok, r.idx(5000));
        let x = stay.emit("echo", bp(p.clone())).await_reply().await;
        ensure!(x.is_ok(), "reply", "{}: a request failed while others come and go: {:?}", T::NAME, x.err());
        sent.push((tok, false));
    }
    for v in join_all(hs).await? {
        sent.extend(v);
    }
    real.done(sent.len(), 0).await;
    ensure!(!srv.0.is_finished(), "server", "{}: the server ended", T::NAME);
    real.check(&sent)?;
    sc.count("connections", rounds);
    sc.case(Some(sc.seed), || format!("{}: {} clients came and went, {} requests", T::NAME, rounds, sent.len()));
    Ok(())
}

/// Reads frames until the end of the connection or the given number, with breaks in between
async fn lazily(mut rd: impl tokio::io::AsyncRead + Unpin, breaks: u64, max: usize) -> (Vec<codec::Frame>, usize, String) {
    use tokio::io::AsyncReadExt;
    let mut got: Vec<u8> = vec![];
    let mut frames = vec![];
    let mut b = vec![0; 1 << 16];
    let mut k = 0;
    loop {
        if k % 40 == 1 && k / 40 < breaks {
            sleep(ms(60)).await;
        }
        k += 1;
        match tokio::time::timeout(secs(40), rd.read(&mut b)).await {
            Ok(Ok(0)) => return (frames, got.len(), "end".into()),
            Ok(Ok(k)) => got.extend_from_slice(&b[..k]),
            x => return (frames, got.len(), format!("{:?}", x)),
        }
        let mut o = 0;
        loop {
            match codec::parse(&got[o..]) {
                Ok((f, k)) => {
                    o += k;
                    frames.push(f)
                }
                Err(codec::Parse::Incomplete) => break,
                Err(codec::Parse::Bad(m)) => return (frames, got.len(), m),
            }
        }
        got.drain(..o);
        if frames.len() >= max {
            return (frames, got.len(), "enough".into());
        }
    }
}

each!(leaving, leaving_);
/// What was written before a side leaves arrives, however slowly it is read
async fn leaving_<T: Rt>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let dir = Scratch::new();
    let (real, _srv) = Real::<T>::start(&dir, &mut r, (None, None)).await?;
    let e = |e: Error| Stop::Viol { sig: "connect".into(), msg: format!("{}: connecting failed: {:?}", T::NAME, e) };
    // a client that sends no more, but reads the replies
    let s = <<T::L as AsyncStreamProtocolListener>::Stream as AsyncProtocolStream>::protocol_connect(real.addr.clone(), T::copts(&real.keys, None)).await.map_err(e)?;
    let (rd, mut wr) = s.protocol_into_split();
    let n = r.range(5, 25);
    let seed = r.next();
    let reqs: Vec<codec::Frame> = (0..n).map(|i| codec::Frame::new(codec::INIT, i + 1, None, None, "echo", token_payload(mix(seed, i), if r.chance(600) { 400_000 } else { r.idx(3000) }))).collect();
    let r2 = reqs.clone();
    let w = tokio::spawn(async move {
        use tokio::io::AsyncWriteExt;
        for f in r2 {
            wr.write_all(&f.encode()).await?;
            wr.flush().await?;
        }
        wr.shutdown().await?;
        Ok::<_, std::io::Error>(wr)
    });
    let sent: Vec<(u64, bool)> = (0..n).map(|i| (mix(seed, i), false)).collect();
    real.done(n as usize, 0).await;
    sleep(ms(r.range(20, 300))).await;
    let (frames, rest, end) = lazily(rd, r.below(6), usize::MAX).await;
    ensure!(matches!(w.await, Ok(Ok(_))), "lost", "{}: writing requests failed", T::NAME);
    ensure!(frames.len() == n as usize && rest == 0, "lost", "{}: {} of {} replies to a client that sends no more arrived, and {} more bytes; then: {}", T::NAME, frames.len(), n, rest, end);
    for f in &frames {
        let q = reqs.iter().find(|q| Some(q.id) == f.ref_id);
        ensure!(q.map(|q| flip(&q.data) == f.data).unwrap_or(false), "altered", "{}: a reply arrived altered", T::NAME);
    }
    real.check(&sent)?;
    // clients that emit and go
    let mut total = 0;
    for _ in 0..4 {
        let mut l = None;
        for _ in 0..10 {
            let a = T::addr(&dir, &mut r);
            if let Ok(x) = T::L::protocol_bind(a.clone(), T::lopts(&real.keys, None)).await {
                l = Some((x, a));
                break;
            }
        }
        let (l, a) = match l {
            Some(x) => x,
            None => return Err(Stop::Inconc("no free address".into())),
        };
        let acc = tokio::spawn(async move { l.protocol_accept().await.map(|x| x.0).map_err(|e| format!("{:?}", e)) });
        let c = IPCBuilder::<T::L>::new().address(a).client_options(T::copts(&real.keys, None)).build_client().await.map_err(e)?;
        let s = match acc.await {
            Ok(Ok(s)) => s,
            x => return viol("accept", format!("{}: accepting failed: {:?}", T::NAME, x.map(|y| y.map(|_| ())))),
        };
        let (rd, _wr) = s.protocol_into_split();
        let k = r.range(3, 20);
        // as much as the buffers of the system hold, or more
        let top = *r.pick(&[3000, 20_000, 100_000, 300_000]);
        let sizes: Vec<usize> = (0..k).map(|_| if r.chance(500) { top } else { r.idx(3000) }).collect();
        let (s2, stop) = (sizes.clone(), r.chance(700));
        let em = tokio::spawn(async move {
            for (i, n) in s2.iter().enumerate() {
                c.emit("e", bp(token_payload(mix(seed, 1000 + i as u64), *n))).await?;
            }
            if stop {
                c.stop().await?;
            } else {
                drop(c);
            }
            Ok::<_, Error>(())
        });
        // reading often starts when the client is gone already
        let wait = r.range(10, 300);
        for _ in 0..wait / 10 {
            if em.is_finished() {
                break;
            }
            sleep(ms(10)).await;
        }
        sleep(ms(r.range(0, 30))).await;
        let h = tokio::spawn(lazily(rd, r.below(6), if stop { usize::MAX } else { k as usize }));
        let x = em.await;
        ensure!(matches!(x, Ok(Ok(()))), "emit", "{}: emitting failed: {:?}", T::NAME, x);
        // a client that is not stopped keeps its connection
        let (frames, rest, end) = h.await.map_err(|e| Stop::Viol { sig: "panic".into(), msg: e.to_string() })?;
        ensure!(frames.len() == k as usize && rest == 0, "lost", "{}: {} of {} events of a client that left after sending them arrived, and {} more bytes; then: {}", T::NAME, frames.len(), k, rest, end);
        for (i, f) in frames.iter().enumerate() {
            ensure!(f.data == token_payload(mix(seed, 1000 + i as u64), sizes[i]), "altered", "{}: an event arrived altered", T::NAME);
        }
        total += k;
    }
    sc.count("sides that left", 5);
    sc.case(Some(sc.seed), || format!("{}: {} replies to a client that sends no more, {} events of clients that leave", T::NAME, n, total));
    Ok(())
}

#[allow(dead_code)]
fn _unused(_: UnixStream) {}
