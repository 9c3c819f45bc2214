//! C18: nothing stays behind
use crate::alloc;
use crate::codec::{self, Frame};
use crate::core::*;
use crate::fix::*;
use crate::rng::*;
use crate::sim::*;
use crate::{both, boxed, ensure};
use bromine::error::Error;
use bromine::event::Event;
use bromine::prelude::*;
use std::sync::Arc;

pub fn fams() -> Vec<Fam> {
    vec![
        fam("single", 2 * KINDS.len() as u64, 20 * KINDS.len() as u64, boxed!(single)),
        fam("mixed", 60, 1500, boxed!(mixed)),
        fam("raw", 2 * RAWS.len() as u64, 20 * RAWS.len() as u64, boxed!(raw)),
        fam("connections", 4 * CONNS.len() as u64, 40 * CONNS.len() as u64, boxed!(connections)),
        fam("clients", 24, 400, boxed!(clients)),
    ]
}

/// Growth per operation that counts as growth. The measured noise is far below
const LIMIT: isize = 6;

/// Runs the operation between measurements of the live heap. Every window is as long as everything
/// before it, so that what grows in powers of two grows in every window, too
macro_rules! slope {
    ($sc:expr, $n:expr, $slack:expr, $what:expr, $run:expr, $rest:expr) => {{
        let n: usize = $n;
        let mut done = n / 2 + 50;
        for i in 0..done {
            $run;
            if i % 64 == 63 {
                $rest;
            }
        }
        $rest;
        // buffers and tables reach their size in steps, what stays behind grows in every window
        let mut growth: Vec<(usize, isize)> = vec![];
        loop {
            let w = done;
            let a = alloc::live();
            for i in 0..w {
                $run;
                // queues keep the room that the longest run of operations needed
                if i % 64 == 63 {
                    $rest;
                }
            }
            $rest;
            done += w;
            growth.push((w, alloc::live() - a));
            $sc.count("operations measured", w as u64);
            if growth.len() >= 2 && growth.iter().any(|(w, g)| *g < LIMIT * *w as isize + $slack) {
                break;
            }
            ensure!(
                growth.len() < 5,
                "growth",
                "{}: live memory grew in every window (repetitions, bytes): {:?} ({} bytes per operation)",
                $what, growth, growth.iter().map(|x| x.1).sum::<isize>() / done as isize
            );
        }
        if std::env::var("BMON_SLOPE").is_ok() {
            eprintln!("{}: {:?}", $what, growth);
        }
    }};
}

/// Until everything that was sent has arrived and been handled
async fn rest<T: Tp>(net: &Net<T>) {
    sleep(secs(20)).await;
    net.settle(secs(20)).await;
}

fn quiet(r: &mut Rng, sim: u64) -> LinkCfg {
    let mut c = match sim {
        0 => LinkCfg::default(),
        _ => LinkCfg::random(r, true),
    };
    // tiny reads only cost time
    for d in [&mut c.c2s, &mut c.s2c] {
        d.cap = d.cap.max(64);
        d.wmax = d.wmax.max(16);
        d.rmax = d.rmax.max(16);
        d.record = false;
    }
    c
}

fn h_ok<'a>(ctx: &'a Ctx, e: Event) -> HFut<'a> {
    Box::pin(async move { Response::payload(ctx, bp(e.data_raw().to_vec())) })
}
fn h_fail<'a>(_: &'a Ctx, _: Event) -> HFut<'a> {
    Box::pin(async move { Err(Error::Message("failed".into())) })
}
fn h_panic<'a>(_: &'a Ctx, _: Event) -> HFut<'a> {
    Box::pin(async move { std::panic::panic_any(Intended) })
}
fn h_late<'a>(_: &'a Ctx, _: Event) -> HFut<'a> {
    Box::pin(async move {
        sleep(ms(500)).await;
        Ok(Response::empty())
    })
}
/// payload: number of items, whether it fails in the end
fn h_many<'a>(ctx: &'a Ctx, e: Event) -> HFut<'a> {
    Box::pin(async move {
        let b = e.data_raw().to_vec();
        for i in 0..b[0] {
            ctx.emit("item", bp(vec![i; 20])).await?;
        }
        if b[1] == 1 {
            return Err(Error::Message("failed".into()));
        }
        if b[1] == 2 {
            sleep(ms(500)).await;
        }
        Ok(Response::empty())
    })
}
/// asks back
fn h_back<'a>(ctx: &'a Ctx, _: Event) -> HFut<'a> {
    Box::pin(async move {
        let e = ctx.emit_to("c", "ask", bp(vec![1, 2])).await_reply().await?;
        Response::payload(ctx, bp(e.data_raw().to_vec()))
    })
}
fn handlers<L: AsyncStreamProtocolListener>(b: IPCBuilder<L>) -> IPCBuilder<L> {
    b.on("ok", h_ok).on("fail", h_fail).on("panic", h_panic).on("late", h_late).on("many", h_many).on("back", h_back).namespace("n").on("ok", h_ok).on("fail", h_fail).build()
}
fn c_handlers<L: AsyncStreamProtocolListener>(b: IPCBuilder<L>) -> IPCBuilder<L> {
    b.timeout(secs(3000)).on("end", h_nop).on("error", h_nop).on("item", h_nop).namespace("c").on("ask", h_ok).build().namespace("n").on("end", h_nop).build()
}
fn h_nop<'a>(_: &'a Ctx, _: Event) -> HFut<'a> {
    Box::pin(async move { Ok(Response::empty()) })
}

const KINDS: &[&str] = &[
    "emit", "emit unknown", "emit unknown namespace", "emit to failing", "emit to panicking", "reply", "reply in namespace", "reply error", "reply unknown", "reply panic times out",
    "reply times out", "reply late in time", "reply twice asked", "reply dropped at once", "reply dropped after polls", "reply dropped while waiting", "request never polled", "stream", "stream error",
    "stream times out", "stream dropped at once", "stream dropped within", "stream polled after its end", "stream next dropped", "name too long", "name too long stream", "asked back", "emit dropped",
    "big", "concurrent", "stream request dropped", "payload fails", "waiting caller panics", "streaming caller panics",
];

struct Bad;
impl bromine::payload::IntoPayload for Bad {
    fn into_payload(self, _: &Ctx) -> IPCResult<bytes::Bytes> {
        Err(Error::Message("no payload".into()))
    }
}

/// A name that was never used before
fn fresh(what: &str, r: &mut Rng) -> String {
    format!("{}-{:016x}", what, r.next())
}

async fn op(kind: usize, c: &Ctx, r: &mut Rng) -> R {
    let p = || bp(vec![7u8; 30]);
    let many = |n: u8, f: u8| bp(vec![n, f]);
    let exp = |ok: bool, what: &str| -> R {
        ensure!(ok, "result", "an operation of kind {} ended otherwise than expected ({})", KINDS[kind], what);
        Ok(())
    };
    match KINDS[kind] {
        "emit" => exp(c.emit("ok", p()).await.is_ok(), "emit")?,
        "emit unknown" => exp(c.emit(fresh("nothing", r), p()).await.is_ok(), "emit")?,
        "emit unknown namespace" => exp(c.emit_to(fresh("nowhere", r), fresh("ok", r), p()).await.is_ok(), "emit")?,
        "emit to failing" => exp(c.emit("fail", p()).await.is_ok(), "emit")?,
        "emit to panicking" => exp(c.emit("panic", p()).await.is_ok(), "emit")?,
        "reply" => exp(c.emit("ok", p()).await_reply().await.is_ok(), "reply")?,
        "reply in namespace" => exp(c.emit_to("n", "ok", p()).await_reply().await.is_ok(), "reply")?,
        "reply error" => exp(matches!(c.emit("fail", p()).await_reply().await, Err(Error::ErrorEvent(_))), "no error")?,
        "reply unknown" => exp(c.emit(fresh("nothing", r), p()).await_reply().await.is_ok(), "reply")?,
        "reply panic times out" => exp(c.emit("panic", p()).await_reply().with_timeout(ms(40)).await.is_err(), "no timeout")?,
        "reply times out" => exp(c.emit("late", p()).await_reply().with_timeout(ms(r.range(1, 90))).await.is_err(), "no timeout")?,
        "reply late in time" => exp(c.emit("late", p()).await_reply().await.is_ok(), "reply")?,
        "reply twice asked" => {
            let (a, b) = tokio::join!(async { c.emit("ok", p()).await_reply().await.is_ok() }, async { c.emit("ok", p()).await_reply().await.is_ok() });
            exp(a && b, "reply")?
        }
        "reply dropped at once" => {
            let c = c.clone();
            let _ = PollN::new(async move { c.emit("ok", bp(vec![7])).await_reply().await.is_ok() }, 1).await;
        }
        "reply dropped after polls" => {
            let c = c.clone();
            let _ = PollN::new(async move { c.emit("ok", bp(vec![7; 100])).await_reply().await.is_ok() }, r.idx(8)).await;
        }
        "reply dropped while waiting" => {
            let _ = tokio::time::timeout(ms(r.range(1, 60)), c.emit("late", p()).await_reply()).await;
        }
        "request never polled" => {
            drop(c.emit("ok", p()));
            drop(c.emit("ok", p()).await_reply());
            drop(c.emit("ok", p()).stream_replies());
        }
        "stream" | "stream error" => {
            let fail = KINDS[kind] == "stream error";
            let n = r.idx(20) as u8;
            let mut s = match c.emit("many", many(n, fail as u8)).stream_replies().await {
                Ok(s) => s,
                Err(e) => return viol("result", format!("{:?}", e)),
            };
            let mut k = 0;
            while let Some(x) = next(&mut s).await {
                exp(x.is_ok(), "stream")?;
                k += 1;
            }
            exp(k == n as usize + 1, "number of items")?
        }
        "stream times out" => {
            let mut s = match c.emit("many", many(2, 2)).stream_replies().with_timeout(ms(60)).await {
                Ok(s) => s,
                Err(e) => return viol("result", format!("{:?}", e)),
            };
            let mut last = None;
            while let Some(x) = next(&mut s).await {
                last = Some(x.is_err());
            }
            exp(last == Some(true), "no timeout")?
        }
        "stream dropped at once" => {
            let s = c.emit("many", many(r.idx(20) as u8, 0)).stream_replies().await;
            exp(s.is_ok(), "stream")?;
        }
        "stream dropped within" => {
            if let Ok(mut s) = c.emit("many", many(20, r.below(3) as u8)).stream_replies().await {
                for _ in 0..r.idx(20) {
                    exp(matches!(next(&mut s).await, Some(Ok(_))), "item")?;
                }
            }
        }
        "stream polled after its end" => {
            if let Ok(mut s) = c.emit("many", many(2, 0)).stream_replies().await {
                for _ in 0..3 {
                    exp(matches!(next(&mut s).await, Some(Ok(_))), "item")?;
                }
                for _ in 0..3 {
                    exp(next(&mut s).await.is_none(), "end")?;
                }
            }
        }
        "stream next dropped" => {
            if let Ok(mut s) = c.emit("many", many(5, 0)).stream_replies().await {
                let mut k = 0;
                while k < 6 {
                    if let Some(x) = PollN::new(next(&mut s), 1 + r.idx(2)).await {
                        exp(matches!(x, Some(Ok(_))), "item")?;
                        k += 1;
                    } else {
                        sleep(us(300)).await;
                    }
                }
            }
        }
        "name too long" => exp(c.emit("n".repeat(66_000), p()).await_reply().await.is_err(), "no error")?,
        "name too long stream" => exp(c.emit("n".repeat(66_000), p()).stream_replies().await.is_err(), "no error")?,
        "payload fails" => {
            exp(c.emit("ok", Bad).await_reply().await.is_err(), "no error")?;
            exp(c.emit("ok", Bad).stream_replies().await.is_err(), "no error")?;
            exp(c.emit("ok", Bad).await.is_err(), "no error")?
        }
        "asked back" => {
            // a streaming caller sees the question as an item; one that does not wait answers it
            exp(c.emit("back", p()).await.is_ok(), "emit")?
        }
        "emit dropped" => {
            let c = c.clone();
            let _ = PollN::new(async move { c.emit("ok", bp(vec![7; 200])).await.is_ok() }, r.idx(8)).await;
        }
        "stream request dropped" => {
            let c = c.clone();
            let _ = PollN::new(async move { c.emit("ok", bp(vec![7; 200])).stream_replies().await.is_ok() }, r.idx(8)).await;
        }
        // the wait is dropped while the thread unwinds
        "waiting caller panics" | "streaming caller panics" => {
            let (c, d, s) = (c.clone(), ms(r.range(0, 60)), KINDS[kind] == "streaming caller panics");
            let j = tokio::spawn(async move {
                let wait = async {
                    if s {
                        if let Ok(mut s) = c.emit("many", bp(vec![1, 2])).stream_replies().await {
                            while let Some(Ok(_)) = next(&mut s).await {}
                        }
                    } else {
                        let _ = c.emit("late", bp(vec![7])).await_reply().await;
                    }
                };
                let fail = async {
                    sleep(d).await;
                    std::panic::panic_any(Intended)
                };
                tokio::join!(wait, fail)
            });
            exp(matches!(j.await, Err(e) if e.is_panic()), "the panic did not come through")?
        }
        "big" => exp(c.emit("ok", bp(vec![7u8; 20_000])).await_reply().await.is_ok(), "reply")?,
        "concurrent" => {
            let mut js = vec![];
            for _ in 0..4 {
                let c = c.clone();
                js.push(tokio::spawn(async move { c.emit("ok", bp(vec![1])).await_reply().await.is_ok() }));
            }
            for j in js {
                exp(j.await.unwrap_or(false), "reply")?;
            }
        }
        x => panic!("{}", x),
    }
    Ok(())
}

both!(single, single_);
async fn single_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let _srv = net.serve(handlers(net.builder()).timeout(secs(3000))).await;
    let kind = (sc.idx / 2) as usize % KINDS.len();
    let cfg = quiet(&mut r, sc.idx / 2 / KINDS.len() as u64 % 3);
    let c = net.client(c_handlers(net.builder()), &cfg).await?;
    let n = if sc.thorough { 3000 } else { 500 };
    slope!(sc, n, 0, format!("{} \"{}\"", T::NAME, KINDS[kind]), op(kind, &c, &mut r).await?, rest(&net).await);
    sc.case(Some(mix(kind as u64, T::ENC as u64 * 1000 + sc.idx)), || format!("{} \"{}\" on {}", T::NAME, KINDS[kind], cfg.desc()));
    Ok(())
}

both!(mixed, mixed_);
/// Random mixtures over clients and a pool that live on
async fn mixed_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let _srv = net.serve(handlers(net.builder()).timeout(secs(3000))).await;
    // buffers keep the capacity that the biggest events so far needed
    let mut kinds: Vec<usize> = (0..KINDS.len()).filter(|k| !matches!(KINDS[*k], "big")).collect();
    r.shuffle(&mut kinds);
    kinds.truncate(r.range(3, 9) as usize);
    let sim = r.below(2);
    let cfg = quiet(&mut r, sim);
    let pool = net.pool(c_handlers(net.builder()), &cfg, r.range(1, 4) as usize).await?;
    let n = if sc.thorough { 600 } else { 150 };
    let mut batch = |r: &mut Rng| {
        let k = r.range(1, 8);
        (0..k).map(|_| (kinds[r.idx(kinds.len())], r.fork())).collect::<Vec<_>>()
    };
    slope!(
        sc,
        n,
        // tables and buffers find their size only after a while
        1500,
        format!("{} mix of {:?}", T::NAME, kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>()),
        {
            let mut js = vec![];
            for (k, mut r) in batch(&mut r) {
                let g = pool.acquire();
                js.push(tokio::spawn(async move { op(k, &g, &mut r).await }));
            }
            for j in js {
                match j.await {
                    Ok(x) => x?,
                    Err(e) => return viol("panic", format!("{}", e)),
                }
            }
        },
        rest(&net).await
    );
    sc.case(Some(sc.seed), || format!("{} pool, mix of {:?}", T::NAME, kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>()));
    Ok(())
}

/// What an unusual peer does
const RAWS: &[&str] = &[
    "replies twice", "replies without a request", "own ids collide", "items after the end", "error after the end", "unknown reference", "end events", "error events", "reply before the frame is complete",
    "dead connection", "dead connection streams", "stopped client",
];

both!(raw, raw_);
async fn raw_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let kind = (sc.idx / 2) as usize % RAWS.len();
    let mut cfg = quiet(&mut r, sc.idx / 2 / RAWS.len() as u64 % 2);
    if RAWS[kind] == "reply before the frame is complete" {
        cfg.c2s.fdelay = 400;
        cfg.c2s.hold = false;
    }
    let (c, raw) = net.raw_server(c_handlers(net.builder()).on("ok", h_ok), &cfg).await?;
    let n = if sc.thorough { 2000 } else { 400 };
    let mut k = 1u64 << 40;
    match RAWS[kind] {
        "dead connection" | "dead connection streams" => {
            raw.close().await;
            sleep(secs(5)).await;
        }
        "stopped client" => {
            let _ = c.clone().stop().await;
            sleep(secs(5)).await;
        }
        _ => {}
    }
    slope!(
        sc,
        n,
        0,
        format!("{} peer: {}", T::NAME, RAWS[kind]),
        {
            k += 10;
            let send = |f: Frame| {
                let raw = raw.clone();
                async move {
                    match raw.frame(&f).await {
                        Ok(_) => Ok(()),
                        Err(e) => viol("closed", format!("the connection was closed: {}", e)),
                    }
                }
            };
            match RAWS[kind] {
                "dead connection" | "stopped client" => {
                    ensure!(c.emit("q", bp(vec![1])).await_reply().with_timeout(ms(30)).await.is_err(), "result", "a request on a dead connection succeeded");
                }
                "dead connection streams" => {
                    if let Ok(mut s) = c.emit("q", bp(vec![1])).stream_replies().with_timeout(ms(30)).await {
                        while let Some(x) = next(&mut s).await {
                            ensure!(x.is_err(), "result", "a dead connection gave a reply");
                        }
                    }
                }
                x => {
                    raw.clear();
                    let c2 = c.clone();
                    let j = tokio::spawn(async move {
                        match c2.emit("q", bp(vec![1])).stream_replies().await {
                            Ok(mut s) => {
                                let mut n = 0;
                                while let Some(x) = next(&mut s).await {
                                    if x.is_err() {
                                        return 1000;
                                    }
                                    n += 1;
                                }
                                n
                            }
                            Err(_) => 2000,
                        }
                    });
                    ensure!(raw.until(secs(100), |f| f.iter().any(|x| x.0.name == "q")).await, "lost", "a request did not arrive");
                    let id = raw.frames().iter().find(|x| x.name == "q").unwrap().id;
                    let end = |i: u64, of: u64| Frame::new(codec::END, i, Some(of), None, "end", vec![1]);
                    match x {
                        "replies twice" => {
                            send(end(k, id)).await?;
                            send(end(k + 1, id)).await?;
                        }
                        "replies without a request" | "unknown reference" => {
                            send(end(k, k + 5)).await?;
                            send(Frame::new(codec::RESP, k + 1, Some(k + 6), None, "item", vec![1])).await?;
                            send(end(k + 2, id)).await?;
                        }
                        "own ids collide" => {
                            send(Frame::new(codec::INIT, id, None, None, "ok", vec![1])).await?;
                            send(end(k, id)).await?;
                            send(Frame::new(codec::INIT, id, None, None, "ok", vec![1])).await?;
                        }
                        "items after the end" => {
                            send(end(k, id)).await?;
                            for i in 0..5 {
                                send(Frame::new(codec::RESP, k + 1 + i, Some(id), None, "item", vec![1])).await?;
                            }
                        }
                        "error after the end" => {
                            send(end(k, id)).await?;
                            send(Frame::new(codec::ERR, k + 1, Some(id), None, "error", err_payload(1, b"x"))).await?;
                        }
                        "end events" => {
                            send(end(k, id)).await?;
                            send(Frame::new(codec::END, k + 1, None, None, "end", vec![])).await?;
                        }
                        "error events" => {
                            send(Frame::new(codec::ERR, k + 1, None, None, "error", err_payload(1, b"x"))).await?;
                            send(Frame::new(codec::ERR, k, Some(id), None, "error", err_payload(1, b"x"))).await?;
                        }
                        _ => send(end(k, id)).await?,
                    }
                    match j.await {
                        Ok(1) => {}
                        x => return viol("result", format!("a stream of one reply gave {:?} items", x)),
                    }
                }
            }
        },
        {
            rest(&net).await;
            raw.clear();
        }
    );
    sc.case(Some(mix(kind as u64, T::ENC as u64 * 1000 + sc.idx)), || format!("{} peer: {} on {}", T::NAME, RAWS[kind], cfg.desc()));
    Ok(())
}

const CONNS: &[&str] = &["idle", "used", "cut in a frame", "reset", "garbage", "in progress", "streams in progress", "client stopped", "client dropped", "in the handshake", "refused", "pool", "accept error"];

both!(connections, connections_);
/// Connections that come and go on one server
async fn connections_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let kind = (sc.idx / 2) as usize % CONNS.len();
    if !T::ENC && matches!(CONNS[kind], "in the handshake" | "refused") {
        return Ok(());
    }
    let srv = net.serve(handlers(net.builder()).timeout(secs(3000))).await;
    let cfg = quiet(&mut r, sc.idx / 2 / CONNS.len() as u64 % 2);
    let witness = net.client(c_handlers(net.builder()), &LinkCfg { c2s: DirCfg::default().no_rec(), s2c: DirCfg::default().no_rec(), seed: 1 }).await?;
    let n = match (sc.thorough, T::ENC) {
        (true, false) => 500,
        (true, true) => 200,
        (false, false) => 120,
        (false, true) => 60,
    };
    let mut t = 0u64;
    slope!(
        sc,
        n,
        0,
        format!("{} connections: {}", T::NAME, CONNS[kind]),
        {
            t += 1;
            match CONNS[kind] {
                "idle" => net.raw_client(&cfg).await?.close().await,
                "used" | "cut in a frame" | "garbage" | "reset" => {
                    let raw = net.raw_client(&cfg).await?;
                    for i in 0..3 {
                        let _ = raw.frame(&Frame::new(codec::INIT, i, None, None, "ok", vec![1; 30])).await;
                    }
                    raw.wait_n(3, secs(1000)).await;
                    match CONNS[kind] {
                        "cut in a frame" => {
                            let f = Frame::new(codec::INIT, 9, None, None, "ok", vec![1; 300]).encode();
                            let k = r.idx(f.len());
                            let _ = raw.send(&f[..k]).await;
                        }
                        "garbage" => {
                            let b = r.bytes(64);
                            let _ = raw.send(&b).await;
                            raw.wait_closed(secs(10)).await;
                        }
                        "reset" => {
                            let l = net.links.lock().unwrap().last().unwrap().clone();
                            l.c2s.break_now();
                            l.s2c.break_now();
                        }
                        _ => {}
                    }
                    raw.close().await;
                }
                "in progress" => {
                    let c = net.client(c_handlers(net.builder()), &cfg).await?;
                    for _ in 0..3 {
                        let _ = tokio::time::timeout(ms(3), c.emit("late", bp(vec![1])).await_reply()).await;
                    }
                    let _ = c.stop().await;
                }
                "streams in progress" => {
                    let c = net.client(c_handlers(net.builder()), &cfg).await?;
                    let mut s = match c.emit("many", bp(vec![20, 2])).stream_replies().await {
                        Ok(s) => s,
                        Err(e) => return viol("result", format!("{:?}", e)),
                    };
                    let _ = next(&mut s).await;
                    let _ = c.stop().await;
                }
                "client stopped" => {
                    let c = net.client(c_handlers(net.builder()), &cfg).await?;
                    let _ = c.emit("ok", bp(vec![1])).await_reply().await;
                    let _ = c.stop().await;
                }
                "client dropped" => {
                    // without a stop the connection lives until the peer closes it
                    let c = net.client(c_handlers(net.builder()), &cfg).await?;
                    let _ = c.emit("ok", bp(vec![1])).await_reply().await;
                    drop(c);
                    let l = net.links.lock().unwrap().last().unwrap().clone();
                    l.c2s.break_now();
                    l.s2c.break_now();
                }
                "pool" => {
                    let p = net.pool(c_handlers(net.builder()), &cfg, 3).await?;
                    for _ in 0..4 {
                        let _ = p.acquire().emit("ok", bp(vec![1])).await_reply().await;
                    }
                    for _ in 0..3 {
                        let g = p.acquire();
                        let _ = (*g).clone().stop().await;
                        std::mem::drop(g);
                    }
                    for l in net.links.lock().unwrap().iter().rev().take(3) {
                        l.c2s.break_now();
                        l.s2c.break_now();
                    }
                }
                "in the handshake" => {
                    if let Ok(s) = connect(net.addr, &SimOpts::new(cfg.clone(), &net.links)).await {
                        let raw = Raw::new(s);
                        let k = r.idx(40);
                        let b = r.bytes(k);
                        let _ = raw.send(&b).await;
                        raw.close().await;
                    }
                }
                "refused" => {
                    #[cfg(feature = "enc")]
                    {
                        let keys = enc::keys(&enc::secret(&mut r), &[], true);
                        let o = bromine::prelude::encrypted::EncryptionOptions { inner_options: SimOpts::new(cfg.clone(), &net.links), keys };
                        let x = <bromine::prelude::encrypted::EncryptedStream<SimStream> as AsyncProtocolStream>::protocol_connect(net.addr, o).await;
                        ensure!(x.is_err(), "refused", "an unknown peer got through the handshake");
                    }
                }
                "accept error" => {
                    inject_accept_error(net.addr, r.next());
                    net.raw_client(&cfg).await?.close().await;
                }
                x => panic!("{}", x),
            }
            if t % 20 == 0 {
                ensure!(witness.emit("ok", bp(vec![1])).await_reply().await.is_ok(), "served", "a request on another connection failed");
            }
            // the harness's own record of the connections; the one of the witness stays
            sleep(ms(5)).await;
            net.links.lock().unwrap().truncate(1);
        },
        rest(&net).await
    );
    ensure!(srv.alive(), "server", "the server ended");
    sc.count("connections that came and went", t);
    sc.case(Some(mix(kind as u64, T::ENC as u64 * 1000 + sc.idx)), || format!("{} connections: {} on {}", T::NAME, CONNS[kind], cfg.desc()));
    Ok(())
}

both!(clients, clients_);
/// Requests of many short-lived tasks over contexts that are cloned all the time
async fn clients_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let _srv = net.serve(handlers(net.builder()).timeout(secs(3000))).await;
    let cfg = quiet(&mut r, 0);
    let pool = net.pool(c_handlers(net.builder()), &cfg, 1 + r.idx(3)).await?;
    let mut abandoned = 0u64;
    slope!(
        sc,
        if sc.thorough { 1000 } else { 300 },
        2000,
        format!("{} tasks that are aborted", T::NAME),
        {
            let mut js = vec![];
            for _ in 0..r.range(1, 5) {
                let p = pool.clone();
                let k = r.idx(4);
                js.push(tokio::spawn(async move {
                    let g = p.acquire();
                    match k {
                        0 => drop(g.emit("ok", bp(vec![1])).await_reply().await),
                        1 => drop(g.emit("late", bp(vec![1])).await_reply().await),
                        2 => {
                            if let Ok(mut s) = g.emit("many", bp(vec![12, 2])).stream_replies().await {
                                while next(&mut s).await.is_some() {}
                            }
                        }
                        _ => drop(g.emit("fail", bp(vec![1])).await),
                    }
                }));
            }
            match r.below(3) {
                0 => tokio::task::yield_now().await,
                1 => sleep(us(r.range(1, 3000))).await,
                _ => {}
            }
            for j in js {
                if r.chance(700) {
                    j.abort();
                    abandoned += 1;
                }
                let _ = j.await;
            }
        },
        rest(&net).await
    );
    sc.count("tasks aborted", abandoned);
    sc.case(Some(sc.seed), || format!("{} {} tasks aborted", T::NAME, abandoned));
    Ok(())
}
