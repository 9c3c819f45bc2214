//! C25: servers and misbehaving clients
use crate::codec::{Frame, INIT, RESP};
use crate::core::*;
use crate::fix::*;
use crate::rng::*;
use crate::sim::*;
use crate::{both, boxed, ensure};
use bromine::prelude::*;
use bromine::protocol::tcp::TcpOptions;
use std::sync::Arc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpListener;

pub fn fams() -> Vec<Fam> {
    let mut v = vec![
        fam("chaos", 800, 16000, boxed!(chaos)),
        fam("crowd", 60, 600, boxed!(crowd)),
        fam("accept_errors", 200, 2000, boxed!(accept_errors)),
        fam_multi("sockets", 2, 24, boxed!(sockets)),
        fam_multi("descriptors", 2, 12, boxed!(descriptors)),
    ];
    #[cfg(feature = "enc")]
    {
        v.push(fam("handshakes", 400, 8000, boxed!(handshakes)));
        v.push(fam("known_stalled_handshake", 3, 20, boxed!(known_stalled_handshake)));
    }
    v
}

fn server<L: AsyncStreamProtocolListener>(b: IPCBuilder<L>) -> IPCBuilder<L> {
    b.on(
        "echo",
        hnd(|ctx, e| {
            Box::pin(async move {
                let p = e.payload::<BytePayload>()?;
                Response::payload(ctx, p)
            })
        }),
    )
    .on(
        "slow",
        hnd(|ctx, e| {
            Box::pin(async move {
                let p = e.payload::<BytePayload>()?.into_inner();
                sleep(ms(p.first().copied().unwrap_or(1) as u64 * 40)).await;
                Response::payload(ctx, bp(p))
            })
        }),
    )
    .on(
        "never",
        hnd(|_, _| {
            Box::pin(async move {
                std::future::pending::<()>().await;
                Ok(Response::empty())
            })
        }),
    )
    .on(
        "boom",
        hnd(|_, _| {
            Box::pin(async move {
                sleep(ms(1)).await;
                std::panic::panic_any(Intended)
            })
        }),
    )
    .on(
        "flood",
        hnd(|ctx, e| {
            Box::pin(async move {
                let p = e.payload::<BytePayload>()?.into_inner();
                for _ in 0..200 {
                    ctx.emit("item", bp(p.clone())).await?;
                }
                Ok(Response::empty())
            })
        }),
    )
    .on(
        "back",
        hnd(|ctx, e| {
            Box::pin(async move {
                let p = e.payload::<BytePayload>()?;
                let r = ctx.emit("ask", p).await_reply().await?;
                Response::payload(ctx, r.payload::<BytePayload>()?)
            })
        }),
    )
    .namespace("n")
    .on("echo", hnd(|ctx, e| Box::pin(async move { Response::payload(ctx, e.payload::<BytePayload>()?) })))
    .build()
}

async fn ping(ctx: &Ctx, r: &mut Rng, what: &str) -> R {
    let n = r.len(2000);
    let p = r.bytes(n);
    let m = if r.chance(300) { ctx.emit_to("n", "echo", bp(p.clone())) } else { ctx.emit("echo", bp(p.clone())) };
    match tokio::time::timeout(secs(400), m.await_reply()).await {
        Ok(Ok(e)) => {
            let q = e.payload::<BytePayload>().map(|b| b.into_inner());
            ensure!(q.as_ref().ok() == Some(&p), "served", "{} got another reply to a request with {} bytes: {:?}", what, n, q.map(|q| q.len()));
            Ok(())
        }
        Ok(Err(e)) => viol("served", format!("a request of {} failed: {:?}", what, e)),
        Err(_) => viol("served", format!("a request of {} is not answered", what)),
    }
}

async fn newcomer<T: Tp>(net: &Net<T>, r: &mut Rng, what: &str) -> R<Ctx> {
    match tokio::time::timeout(secs(400), net.client(net.builder().timeout(secs(300)), &LinkCfg { seed: r.next(), ..Default::default() })).await {
        Ok(x) => {
            let c = x?;
            ping(&c, r, what).await?;
            Ok(c)
        }
        Err(_) => viol("served", format!("{} cannot connect", what)),
    }
}

/// A hostile or broken piece of traffic of a client that got through the handshake
fn hostile(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => {
            let n = r.idx(300);
            r.bytes(n)
        }
        1 => vec![0xff; 40],
        2 => vec![0; 40],
        3 => {
            // a huge event of which nothing follows
            let mut v = (1u64 << (20 + r.below(43))).to_be_bytes().to_vec();
            v.extend([0, 40]);
            v
        }
        4 => {
            let mut f = Frame::new(INIT, r.next(), None, None, "echo", vec![1, 2, 3]).encode();
            let k = r.idx(f.len());
            f[k] ^= 1 << r.below(8);
            f
        }
        5 => {
            let f = Frame::new(INIT, r.next(), None, None, "echo", r.bytes(50)).encode();
            let k = r.idx(f.len());
            f[..k].to_vec()
        }
        6 => {
            // replies that nobody asked for
            let mut v = vec![];
            for _ in 0..r.range(1, 40) {
                v.extend(Frame::new(r.below(5) as u8, r.next(), Some(r.below(3)), None, "item", vec![7; 9]).encode());
            }
            v
        }
        _ => {
            let mut f = Frame::new(RESP, 1, Some(1), Some("n"), "echo", vec![]);
            f.version = [9, 9, 9];
            f.encode()
        }
    }
}

type Keep = Vec<Box<dyn std::any::Any + Send>>;

/// One misbehaving client
async fn abuse<T: Tp>(net: &Net<T>, r: &mut Rng, keep: &mut Keep) -> R<String> {
    let inc = |e| Stop::Inconc(format!("{:?}", e));
    let plain_cfg = LinkCfg { seed: r.next(), ..Default::default() };
    let opts = SimOpts::new(plain_cfg.clone(), &net.links);
    let lim = secs(400);
    macro_rules! raw {
        ($cfg:expr) => {
            match tokio::time::timeout(lim, net.raw_client($cfg)).await {
                Ok(x) => x?,
                Err(_) => return viol("served", "a client with a valid handshake cannot connect"),
            }
        };
    }
    Ok(match r.below(14) {
        0 => {
            drop(connect(net.addr, &opts).await.map_err(inc)?);
            "left at once".into()
        }
        1 => {
            let mut s = connect(net.addr, &opts).await.map_err(inc)?;
            let n = r.idx(200);
            let _ = s.write_all(&r.bytes(n)).await;
            sleep(ms(r.range(0, 1000))).await;
            format!("{} bytes of noise before leaving", n)
        }
        2 => {
            let mut s = connect(net.addr, &opts).await.map_err(inc)?;
            let n = r.idx(33);
            let _ = s.write_all(&r.bytes(n)).await;
            if r.chance(500) {
                let _ = s.w.shutdown().await;
            }
            sleep(ms(r.range(0, 500))).await;
            if !T::ENC && r.chance(500) {
                keep.push(Box::new(s));
            }
            format!("{} bytes of noise", n)
        }
        3 => {
            let c = raw!(&plain_cfg);
            let h = hostile(r);
            let _ = c.send(&h).await;
            if r.chance(600) {
                keep.push(Box::new(c));
            }
            format!("hostile traffic ({} bytes)", h.len())
        }
        4 => {
            // reads nothing while replies pile up
            let cap = r.range(10, 2000) as usize;
            let cfg = LinkCfg { s2c: DirCfg { cap, ..Default::default() }, ..plain_cfg };
            let mut own = net.clone();
            own.links = links();
            let c = match tokio::time::timeout(lim, own.raw_client(&cfg)).await {
                Ok(x) => x?,
                Err(_) => return viol("served", "a client with a valid handshake cannot connect"),
            };
            let l = own.link(0);
            l.s2c.set_fault(Some(Fault::Stall(l.s2c.consumed())));
            let k = r.range(1, 60);
            for i in 0..k {
                let name = *r.pick(&["echo", "flood", "back", "slow", "never"]);
                let _ = tokio::time::timeout(ms(50), c.frame(&Frame::new(INIT, i, None, None, name, r.bytes(100)))).await;
            }
            if r.chance(700) {
                keep.push(Box::new(c));
            }
            format!("{} requests without reading", k)
        }
        5 | 6 => {
            // a client of the library that leaves with requests under way
            let c = match tokio::time::timeout(lim, net.client(net.builder().timeout(secs(20)), &plain_cfg)).await {
                Ok(x) => x?,
                Err(_) => return viol("served", "a client cannot connect"),
            };
            let k = r.range(1, 10);
            let mut js = vec![];
            for _ in 0..k {
                let (c, name) = (c.clone(), *r.pick(&["echo", "slow", "never", "flood", "boom", "back"]));
                let p = r.bytes(20);
                js.push(tokio::spawn(async move {
                    let _ = c.emit(name, bp(p)).await_reply().await;
                }));
            }
            sleep(ms(r.range(0, 1500))).await;
            if r.chance(500) {
                let _ = c.stop().await;
            }
            for j in js {
                j.abort();
            }
            format!("left with {} requests", k)
        }
        7 => {
            let mut cfg = plain_cfg;
            let n = r.idx(400);
            let f = match r.below(3) {
                0 => Fault::Eof(n),
                1 => Fault::Reset(n),
                // stalled handshakes are a known finding
                _ if T::ENC => Fault::Reset(n),
                _ => Fault::Stall(n),
            };
            if r.chance(500) {
                cfg.c2s.fault = Some(f.clone());
            } else {
                cfg.s2c.fault = Some(f.clone());
            }
            let o = net.copts(&cfg);
            let b = net.builder().timeout(secs(5)).client_options(o);
            if let Ok(Ok(c)) = tokio::time::timeout(secs(30), b.build_client()).await {
                for _ in 0..3 {
                    let _ = tokio::time::timeout(secs(10), c.emit("echo", bp(vec![1; 60])).await_reply()).await;
                }
                if r.chance(300) {
                    keep.push(Box::new(c));
                }
            }
            format!("{:?}", f)
        }
        8 => {
            let k = r.range(1, 6);
            for _ in 0..k {
                inject_accept_error(net.addr, r.next());
            }
            format!("{} accept errors", k)
        }
        9 => {
            let c = raw!(&plain_cfg);
            let k = r.range(1, 20);
            for i in 0..k {
                let _ = c.frame(&Frame::new(INIT, i, None, None, "boom", vec![])).await;
            }
            if r.chance(500) {
                keep.push(Box::new(c));
            }
            format!("{} panicking handlers", k)
        }
        10 => {
            let k = r.range(5, 60);
            for _ in 0..k {
                let mut s = connect(net.addr, &opts).await.map_err(inc)?;
                if r.chance(300) {
                    let _ = s.write_all(&[r.below(256) as u8; 31]).await;
                }
                if !T::ENC && r.chance(300) {
                    keep.push(Box::new(s));
                }
            }
            format!("{} connections at once", k)
        }
        11 => {
            let c = raw!(&plain_cfg);
            let _ = c.frame(&Frame::new(INIT, 1, None, None, "slow", vec![20])).await;
            c.shutdown().await;
            keep.push(Box::new(c));
            "closed one direction".into()
        }
        12 => {
            // a reply that is never complete
            let c = raw!(&plain_cfg);
            let _ = c.frame(&Frame::new(INIT, 1, None, None, "back", vec![20])).await;
            c.wait_n(1, secs(5)).await;
            let id = c.frames().first().map(|f| f.id).unwrap_or(0);
            let f = Frame::new(RESP, 2, Some(id), None, "ask", vec![1; 100]).encode();
            let _ = c.send(&f[..r.idx(f.len())]).await;
            keep.push(Box::new(c));
            "an incomplete reply".into()
        }
        _ => {
            // many replies to one request
            let c = raw!(&plain_cfg);
            let _ = c.frame(&Frame::new(INIT, 1, None, None, "back", vec![20])).await;
            c.wait_n(1, secs(5)).await;
            let id = c.frames().first().map(|f| f.id).unwrap_or(0);
            for i in 0..50 {
                let _ = c.frame(&Frame::new(RESP, 2 + i, Some(id), None, "echo", vec![1; 10])).await;
            }
            keep.push(Box::new(c));
            "many replies to one request".into()
        }
    })
}

both!(chaos, chaos_);
async fn chaos_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let mut srv = net.serve(server(net.builder().timeout(secs(100)))).await;
    let before = newcomer(&net, &mut r, "the first client").await?;
    let mut keep: Keep = vec![];
    let mut friends = vec![];
    let mut ds = vec![];
    for _ in 0..r.range(3, 14) {
        let at_once = r.range(1, 4);
        let mut js = vec![];
        for _ in 0..at_once {
            if r.chance(500) {
                let (net, mut r2) = (net.clone(), r.fork());
                js.push(tokio::spawn(async move {
                    let mut k: Keep = vec![];
                    let d = abuse(&net, &mut r2, &mut k).await;
                    (d, k)
                }));
            } else {
                ds.push(abuse(&net, &mut r, &mut keep).await?);
            }
        }
        if r.chance(500) {
            ping(&before, &mut r, "a client that was connected before").await?;
        }
        if r.chance(400) {
            friends.push(newcomer(&net, &mut r, "a client that connects meanwhile").await?);
        }
        for j in js {
            match j.await {
                Ok((d, k)) => {
                    ds.push(d?);
                    keep.extend(k);
                }
                Err(_) => return viol("panic", "a misbehaving client panicked"),
            }
        }
        if r.chance(300) && !keep.is_empty() {
            let n = keep.len();
            drop(keep.swap_remove(r.idx(n)));
        }
    }
    ping(&before, &mut r, "a client that was connected before").await?;
    for c in &friends {
        ping(c, &mut r, "a client that was connected meanwhile").await?;
    }
    newcomer(&net, &mut r, "a client that connects afterwards").await?;
    drop(keep);
    sleep(secs(10)).await;
    newcomer(&net, &mut r, "a client that connects when all others are gone").await?;
    if !srv.alive() {
        let x = (&mut srv.h).await;
        return viol("server", format!("the server ended: {:?}", x));
    }
    sc.count("misbehaving clients", ds.len() as u64);
    sc.count("well-behaved clients", 3 + friends.len() as u64);
    sc.case(Some(sc.seed), || format!("{}: {}", T::NAME, ds.join("; ")));
    Ok(())
}

both!(crowd, crowd_);
/// Hundreds of connections, most of which do nothing or leave
async fn crowd_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let srv = net.serve(server(net.builder())).await;
    let before = newcomer(&net, &mut r, "the first client").await?;
    let n = if sc.idx % 10 == 4 { r.range(600, 2500) } else { r.range(50, 300) };
    let mut keep = vec![];
    for i in 0..n {
        let cfg = LinkCfg { seed: r.next(), ..Default::default() };
        let c = match tokio::time::timeout(secs(400), net.raw_client(&cfg)).await {
            Ok(x) => x?,
            Err(_) => return viol("served", format!("connection {} of {} is not accepted", i, n)),
        };
        match r.below(4) {
            0 => {}
            1 => {
                let _ = c.frame(&Frame::new(INIT, i, None, None, "never", vec![1])).await;
                keep.push(c)
            }
            2 => {
                let _ = c.send(&hostile(&mut r)).await;
                keep.push(c)
            }
            _ => keep.push(c),
        }
    }
    ping(&before, &mut r, "a client that was connected before").await?;
    newcomer(&net, &mut r, "a client that connects afterwards").await?;
    let open = keep.len();
    drop(keep);
    ping(&before, &mut r, "a client that was connected before").await?;
    ensure!(srv.alive(), "server", "the server ended");
    sc.count("misbehaving clients", n);
    sc.case(Some(sc.seed), || format!("{}: {} connections, {} stay open", T::NAME, n, open));
    Ok(())
}

both!(accept_errors, accept_errors_);
/// The operating system refuses to accept for a while
async fn accept_errors_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let srv = net.serve(server(net.builder())).await;
    let before = newcomer(&net, &mut r, "the first client").await?;
    let mut errs = 0;
    for i in 0..r.range(1, 6) {
        let many = i == 0 && sc.idx % 8 == 3;
        let k = if many { r.range(500, 3000) } else { r.range(1, 40) };
        errs += k;
        for _ in 0..k {
            ensure!(inject_accept_error(net.addr, r.next()), "server", "the server does not listen anymore after {} failed accepts", errs);
            if r.chance(100) {
                sleep(ms(r.range(0, 300))).await;
            }
        }
        if r.chance(500) {
            ping(&before, &mut r, "a client that was connected before").await?;
        }
        if many {
            sleep(secs(3000)).await;
        }
        newcomer(&net, &mut r, "a client that connects after accepting failed").await?;
    }
    ping(&before, &mut r, "a client that was connected before").await?;
    ensure!(srv.alive(), "server", "the server ended");
    sc.count("failed accepts", errs);
    sc.case(Some(sc.seed), || format!("{}: {} failed accepts", T::NAME, errs));
    Ok(())
}

#[cfg(feature = "enc")]
/// Failing handshakes of all kinds
async fn handshakes(sc: Arc<Sc>) -> R {
    use crate::fix::enc::{secret, Enc, PublicKey};
    let mut r = sc.rng();
    let net = Net::<Enc>::new(&mut r);
    let srv = net.serve(server(net.builder())).await;
    let before = newcomer(&net, &mut r, "the first client").await?;
    let listed = PublicKey::from(&net.keys.c.secret);
    let n = r.range(2, 30);
    let mut ds = vec![];
    for _ in 0..n {
        let mut s = connect(net.addr, &SimOpts::new(LinkCfg { seed: r.next(), ..Default::default() }, &net.links)).await.map_err(|e| Stop::Inconc(format!("{:?}", e)))?;
        let kind = r.below(7);
        ds.push(kind);
        match kind {
            // an unknown key
            0 => {
                let _ = s.write_all(PublicKey::from(&secret(&mut r)).as_bytes()).await;
                let mut b = [0; 1];
                let _ = tokio::time::timeout(secs(30), s.read(&mut b)).await;
            }
            // a part of a key
            1 => {
                let k = r.idx(32);
                let _ = s.write_all(&listed.as_bytes()[..k]).await;
                sleep(us(r.range(0, 2000))).await;
            }
            // leaves before or while the answer comes
            2 => {
                let _ = s.write_all(listed.as_bytes()).await;
                if r.chance(500) {
                    sleep(us(r.range(0, 2000))).await;
                }
            }
            // a part of the answer is read
            3 => {
                let _ = s.write_all(listed.as_bytes()).await;
                let mut b = vec![0; 1 + r.idx(84)];
                let _ = tokio::time::timeout(secs(30), s.read_exact(&mut b)).await;
            }
            // a weak key
            4 => {
                let _ = s.write_all(&[0; 32]).await;
            }
            // more than a key
            5 => {
                let k = 32 + r.idx(3000);
                let _ = s.write_all(&r.bytes(k)).await;
            }
            // closes one direction
            _ => {
                let k = r.idx(33);
                let _ = s.write_all(&listed.as_bytes()[..k]).await;
                let _ = s.w.shutdown().await;
                sleep(ms(r.range(0, 100))).await;
            }
        }
        drop(s);
        if r.chance(200) {
            newcomer(&net, &mut r, "a client that connects after a failed handshake").await?;
        }
    }
    ping(&before, &mut r, "a client that was connected before").await?;
    newcomer(&net, &mut r, "a client that connects after failed handshakes").await?;
    ensure!(srv.alive(), "server", "the server ended");
    sc.count("failed handshakes", n);
    sc.case(Some(sc.seed), || format!("{} failed handshakes of the kinds {:?}", n, ds));
    Ok(())
}

#[cfg(feature = "enc")]
/// A client that stops in the middle of the handshake and stays
async fn known_stalled_handshake(sc: Arc<Sc>) -> R {
    use crate::fix::enc::Enc;
    let mut r = sc.rng();
    let net = Net::<Enc>::new(&mut r);
    let srv = net.serve(server(net.builder())).await;
    let before = newcomer(&net, &mut r, "the first client").await?;
    let mut s = connect(net.addr, &SimOpts::new(LinkCfg::default(), &net.links)).await.map_err(|e| Stop::Inconc(format!("{:?}", e)))?;
    let k = r.idx(32);
    let _ = s.write_all(&vec![1; k]).await;
    sleep(secs(1)).await;
    ping(&before, &mut r, "a client that was connected before").await?;
    let x = tokio::time::timeout(secs(300), net.client(net.builder(), &LinkCfg::default())).await;
    match x {
        Err(_) => sc.known("stalled-handshake", "nobody can connect to an encrypted server while one client is in the middle of its handshake"),
        Ok(c) => ping(&c?, &mut r, "a client that connects while another one stalls").await?,
    }
    drop(s);
    newcomer(&net, &mut r, "a client that connects after a stalled handshake").await?;
    ensure!(srv.alive(), "server", "the server ended");
    sc.case(Some(mix(sc.seed, k as u64)), || format!("stalled after {} bytes", k));
    Ok(())
}

async fn tcp_server() -> R<(std::net::SocketAddr, tokio::task::JoinHandle<IPCResult<()>>)> {
    for _ in 0..10 {
        let a = std::net::TcpListener::bind("127.0.0.1:0").expect("port").local_addr().unwrap();
        let h = tokio::spawn(async move { server(IPCBuilder::<TcpListener>::new().address(a)).build_server().await });
        for _ in 0..500 {
            sleep(ms(4)).await;
            if h.is_finished() {
                break;
            }
            if std::net::TcpStream::connect(a).is_ok() {
                return Ok((a, h));
            }
        }
        h.abort();
    }
    Err(Stop::Inconc("no TCP server".into()))
}

async fn tcp_client(a: std::net::SocketAddr, r: &mut Rng, what: &str) -> R<Ctx> {
    for i in 0.. {
        match tokio::time::timeout(secs(20), IPCBuilder::<TcpListener>::new().address(a).client_options(TcpOptions::default()).build_client()).await {
            Ok(Ok(c)) => {
                match tokio::time::timeout(secs(20), ping(&c, r, what)).await {
                    Ok(x) => x?,
                    Err(_) => return viol("served", format!("{} is not served", what)),
                }
                return Ok(c);
            }
            // other processes may have taken what the system offers
            x if i > 5 => return viol("served", format!("{} cannot connect: {:?}", what, x.map(|y| y.err()))),
            _ => sleep(ms(200)).await,
        }
    }
    unreachable!()
}

/// Real sockets that are reset, half closed or filled with noise
async fn sockets(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let (a, h) = tcp_server().await?;
    let before = tcp_client(a, &mut r, "the first client").await?;
    let mut keep = vec![];
    let n = r.range(40, 150);
    for _ in 0..n {
        use std::io::Write;
        use std::os::fd::AsRawFd;
        let mut s = match std::net::TcpStream::connect_timeout(&a, Duration::from_secs(20)) {
            Ok(s) => s,
            Err(e) => return viol("served", format!("a client cannot connect: {:?}", e)),
        };
        let _ = s.set_write_timeout(Some(Duration::from_millis(200)));
        match r.below(6) {
            0 => {}
            1 => unsafe {
                // the connection is reset
                let l = libc::linger { l_onoff: 1, l_linger: 0 };
                let _ = s.write_all(&hostile(&mut r));
                libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
            },
            2 => {
                let _ = s.write_all(&hostile(&mut r));
                keep.push(s)
            }
            3 => {
                let _ = s.shutdown(if r.chance(500) { std::net::Shutdown::Write } else { std::net::Shutdown::Read });
                keep.push(s)
            }
            4 => {
                // requests whose replies nobody reads
                for i in 0..20 {
                    let _ = s.write_all(&Frame::new(INIT, i, None, None, "flood", vec![1; 2000]).encode());
                }
                keep.push(s)
            }
            _ => {
                let _ = s.write_all(&Frame::new(INIT, 1, None, None, "slow", vec![1; 20]).encode());
            }
        }
        if r.chance(100) {
            ping(&before, &mut r, "a client that was connected before").await?;
        }
    }
    ping(&before, &mut r, "a client that was connected before").await?;
    tcp_client(a, &mut r, "a client that connects afterwards").await?;
    drop(keep);
    tcp_client(a, &mut r, "a client that connects when the others are gone").await?;
    ensure!(!h.is_finished(), "server", "the server ended");
    h.abort();
    sc.count("misbehaving clients", n);
    sc.case(Some(sc.seed), || format!("tcp: {} connections", n));
    Ok(())
}

/// More connections than the process may have open
async fn descriptors(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let (a, h) = tcp_server().await?;
    let before = tcp_client(a, &mut r, "the first client").await?;
    let n = r.range(15, 40) as usize;
    let socks: Vec<i32> = (0..n).map(|_| unsafe { libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0) }).collect();
    struct Limit(libc::rlimit, Vec<i32>);
    impl Drop for Limit {
        fn drop(&mut self) {
            unsafe {
                libc::setrlimit(libc::RLIMIT_NOFILE, &self.0);
                for s in &self.1 {
                    libc::close(*s);
                }
            }
        }
    }
    let old = unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l
    };
    if socks.iter().any(|s| *s < 0) {
        return Err(Stop::Inconc("no sockets".into()));
    }
    let top = *socks.iter().max().unwrap() as u64 + 1 + r.range(0, 6);
    let mut guard = Limit(old, socks.clone());
    unsafe {
        let l = libc::rlimit { rlim_cur: top, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    let mut connected = 0;
    for s in &socks {
        unsafe {
            let mut sa: libc::sockaddr_in = std::mem::zeroed();
            sa.sin_family = libc::AF_INET as u16;
            sa.sin_port = a.port().to_be();
            sa.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
            if libc::connect(*s, &sa as *const _ as *const libc::sockaddr, std::mem::size_of::<libc::sockaddr_in>() as u32) == 0 {
                connected += 1;
            }
        }
        if r.chance(200) {
            sleep(ms(1)).await;
        }
    }
    sleep(ms(r.range(50, 400))).await;
    ping(&before, &mut r, "a client that was connected before").await?;
    // they leave, then there is room again
    for s in guard.1.drain(..) {
        unsafe { libc::close(s) };
    }
    drop(guard);
    ensure!(!h.is_finished(), "server", "the server ended when too many files were open");
    tcp_client(a, &mut r, "a client that connects after too many were connected").await?;
    ping(&before, &mut r, "a client that was connected before").await?;
    ensure!(!h.is_finished(), "server", "the server ended when too many files were open");
    h.abort();
    sc.count("misbehaving clients", connected);
    sc.case(Some(sc.seed), || format!("tcp: {} of {} connections with a limit of {} files", connected, n, top));
    Ok(())
}
