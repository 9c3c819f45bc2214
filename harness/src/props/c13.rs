//! C13: concurrent emitters
use crate::codec;
use crate::core::*;
use crate::fix::*;
use crate::mesh;
use crate::rng::*;
use crate::sim::*;
use crate::{both, boxed, ensure};
use bromine::event::Event;
use bromine::prelude::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub fn fams() -> Vec<Fam> {
    vec![
        fam("emitters", 500, 12000, boxed!(emitters)),
        fam("handlers", 300, 8000, boxed!(handlers)),
        fam("flushed", 200, 5000, boxed!(flushed)),
        fam("stalled", 200, 4000, boxed!(stalled)),
        fam("mesh", 150, 4000, boxed!(mesh_wire)),
        fam("large", 10, 60, boxed!(large)),
        fam_multi("threads", 4, 60, boxed!(threads)),
    ]
}

/// One emitted event: (task, number in the task, token)
type Log = Arc<Mutex<Vec<(usize, usize, u64, Option<u64>)>>>;

/// Compares what arrived with what was emitted
fn compare(log: &[(usize, usize, u64, Option<u64>)], raw: &Raw, what: &str) -> R<usize> {
    if let Some(b) = raw.bad() {
        return viol("bad-frame", format!("{}: {}", what, b));
    }
    if let Some(c) = raw.closed() {
        return viol("closed", format!("{}: the connection was closed ({})", what, c));
    }
    ensure!(raw.partial() == 0, "bad-frame", "{}: {} bytes of an incomplete frame are left", what, raw.partial());
    let frames = raw.frames();
    let mut at: HashMap<u64, usize> = HashMap::new();
    let mut n = 0;
    for (i, f) in frames.iter().enumerate() {
        if f.data.is_empty() {
            continue;
        }
        let t = match token_of(&f.data) {
            Some(t) => t,
            None => return viol("changed", format!("{}: {} has a changed payload", what, f.short())),
        };
        n += 1;
        if at.insert(t, i).is_some() {
            return viol("twice", format!("{}: {} was sent twice", what, f.short()));
        }
    }
    let mut last: HashMap<usize, (usize, usize)> = HashMap::new();
    for (task, k, tok, id) in log {
        match (id, at.get(tok)) {
            (Some(id), Some(&i)) => {
                ensure!(frames[i].id == *id, "other-id", "{}: the emit returned another id", what);
                if let Some((pk, pi)) = last.get(task) {
                    ensure!(pk > k || *pi < i, "order", "{}: event {} of task {} arrived before its event {}", what, k, task, pk);
                }
                last.insert(*task, (*k, i));
            }
            (Some(_), None) => return viol("lost", format!("{}: event {} of task {} was emitted successfully but not sent", what, k, task)),
            (None, Some(_)) => return viol("ghost", format!("{}: event {} of task {} was refused but sent", what, k, task)),
            (None, None) => {}
        }
    }
    ensure!(n == log.iter().filter(|l| l.3.is_some()).count(), "ghost", "{}: {} events arrived, {} were emitted", what, n, log.len());
    Ok(frames.len())
}

async fn emit_some(ctx: Ctx, task: usize, mut r: Rng, n: usize, max: usize, log: Log, timed: bool, raw_answers: bool) -> R {
    for k in 0..n {
        let tok = mesh::uniq(&mut r);
        let len = r.len(max);
        let p = bp(token_payload(tok, len));
        let too_long = r.chance(40);
        let name = if too_long { "x".repeat(70_000) } else { format!("n{}", r.below(5)) };
        let m = if r.chance(400) { ctx.emit_to("space", &name, p) } else { ctx.emit(&name, p) };
        let how = r.below(if raw_answers { 4 } else { 2 });
        let res = match how {
            0 | 1 => m.await,
            2 => m.await_reply().with_timeout(secs(20_000)).await.map(|e| e.reference_id().unwrap_or(0)),
            _ => match m.stream_replies().with_timeout(secs(20_000)).await {
                Ok(mut s) => match next(&mut s).await {
                    Some(x) => x.map(|e| e.reference_id().unwrap_or(0)),
                    None => return viol("lost", "a stream ended without a reply"),
                },
                Err(e) => Err(e),
            },
        };
        match res {
            Ok(id) => {
                ensure!(!too_long, "too-long", "an event with a name of 70000 bytes was emitted");
                log.lock().unwrap().push((task, k, tok, Some(id)))
            }
            Err(e) => {
                ensure!(too_long, "emit", "emitting failed on a working connection: {:?}", e);
                log.lock().unwrap().push((task, k, tok, None))
            }
        }
        if timed && r.chance(150) {
            sleep(us(r.range(0, 3000))).await;
        } else if r.chance(200) {
            tokio::task::yield_now().await;
        }
    }
    Ok(())
}

/// A peer that ends every event that arrives
fn answer(raw: &Raw) -> tokio::task::JoinHandle<()> {
    let raw = raw.clone();
    tokio::spawn(async move {
        let mut n = 0;
        let mut id = 1;
        loop {
            if !raw.wait_n(n + 1, secs(100_000)).await {
                return;
            }
            for f in raw.frames().into_iter().skip(n) {
                n += 1;
                id += 1;
                if raw.frame(&codec::Frame::new(codec::END, id, Some(f.id), None, "end", vec![])).await.is_err() {
                    return;
                }
            }
        }
    })
}

async fn join_all(js: Vec<tokio::task::JoinHandle<R>>) -> R {
    for j in js {
        match j.await {
            Ok(r) => r?,
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    Ok(())
}

both!(emitters, emitters_);
/// Tasks emit on clones of one client's context
async fn emitters_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let cfg = if r.chance(300) { LinkCfg::tight(&mut r) } else { LinkCfg::random(&mut r, true) };
    let desc = cfg.desc();
    let (ctx, raw) = net.raw_server(net.builder().timeout(secs(20_000)), &cfg).await?;
    let answers = r.chance(500);
    let a = if answers { Some(answer(&raw)) } else { None };
    let log: Log = Default::default();
    let tasks = r.range(2, 10) as usize;
    let per = r.range(1, 12) as usize;
    let max = *r.pick(&[20, 300, 3000]);
    let js = (0..tasks).map(|t| tokio::spawn(emit_some(ctx.clone(), t, r.fork(), per, max, log.clone(), true, answers))).collect();
    join_all(js).await?;
    net.settle(secs(5)).await;
    if let Some(a) = a {
        a.abort();
    }
    let log = log.lock().unwrap().clone();
    let n = compare(&log, &raw, T::NAME)?;
    mesh::check_wire(&net, false)?;
    sc.count("frames", n as u64);
    sc.case(Some(hash_bytes(&net.link(0).c2s.recorded())), || format!("{}: {} tasks emit {} events each, answered: {}, {}", T::NAME, tasks, per, answers, desc));
    Ok(())
}

both!(handlers, handlers_);
/// Handlers of a server (or client) and the tasks they spawn emit at once on one connection
async fn handlers_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let log: Log = Default::default();
    let errs: Arc<Mutex<Option<Stop>>> = Default::default();
    let (l2, e2) = (log.clone(), errs.clone());
    let max = *r.pick(&[20, 300, 3000]);
    let b = net.builder().timeout(secs(20_000)).on("go", move |ctx: &Ctx, e: Event| {
        let (l, er, ctx) = (l2.clone(), e2.clone(), ctx.clone());
        Box::pin(async move {
            let mut r = Rng::new(u64::from_be_bytes(e.data_raw()[..8].try_into().unwrap()));
            let base = (e.id() as usize) * 100;
            let mut js = vec![];
            for t in 0..r.idx(4) {
                js.push(tokio::spawn(emit_some(ctx.clone(), base + 1 + t, r.fork(), 1 + r.idx(4), max, l.clone(), true, false)));
            }
            let n = r.idx(5);
            let own = emit_some(ctx.clone(), base, r.fork(), n, max, l.clone(), true, false).await;
            if let Err(x) = own.and(join_all(js).await) {
                *er.lock().unwrap() = Some(x);
            }
            Ok(Response::empty())
        }) as HFut
    });
    let cfg = if r.chance(300) { LinkCfg::tight(&mut r) } else { LinkCfg::random(&mut r, true) };
    let client = r.chance(400);
    let (raws, _ctx, _srv) = if client {
        let (c, raw) = net.raw_server(b, &cfg).await?;
        (vec![raw], Some(c), None)
    } else {
        let s = net.serve(b).await;
        let mut v = vec![];
        for _ in 0..1 + r.idx(2) {
            v.push(net.raw_client(&cfg).await?);
        }
        (v, None, Some(s))
    };
    let go = r.range(1, 5);
    let mut id = 0;
    for _ in 0..go {
        for raw in &raws {
            id += 1;
            let f = codec::Frame::new(codec::INIT, id, None, None, "go", r.bytes(8));
            ensure!(raw.frame(&f).await.is_ok(), "closed", "sending failed");
        }
    }
    net.settle(secs(10)).await;
    if let Some(e) = errs.lock().unwrap().take() {
        return Err(e);
    }
    let log = log.lock().unwrap().clone();
    let mut n = 0;
    for (i, raw) in raws.iter().enumerate() {
        // events of this connection have ids i+1, i+1+k, ...
        let mine: Vec<_> = log.iter().filter(|l| (l.0 / 100 - 1) % raws.len() == i).cloned().collect();
        n += compare(&mine, raw, T::NAME)?;
        let frames = raw.frames();
        let ends = frames.iter().filter(|f| f.ty == codec::END).count();
        ensure!(ends as u64 == go, "lost", "{} end events instead of {}", ends, go);
        let tasks_own: std::collections::HashSet<u64> = frames.iter().filter_map(|f| f.ref_id).collect();
        ensure!(tasks_own.len() as u64 == go, "lost", "{} events are referenced instead of {}", tasks_own.len(), go);
    }
    sc.count("frames", n as u64);
    sc.case(Some(mix(sc.seed, n as u64)), || format!("{}: {} with {} connections, {} events handled, {} frames, {}", T::NAME, if client { "client" } else { "server" }, raws.len(), id, n, cfg.desc()));
    Ok(())
}

both!(flushed, flushed_);
/// An emit that returned has put its whole frame where the peer sees it, without any other traffic
async fn flushed_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let mut cfg = LinkCfg::random(&mut r, true);
    cfg.c2s.hold = r.chance(700);
    let (ctx, raw) = net.raw_server(net.builder(), &cfg).await?;
    let link = net.link(0);
    // contexts that are kept elsewhere
    let others: Vec<Ctx> = if r.chance(200) { (0..r.range(1, 300)).map(|_| ctx.clone()).collect() } else { vec![] };
    let n = r.range(3, 15) as usize;
    let mut total = 0;
    for k in 0..n {
        let tok = mesh::uniq(&mut r);
        let d = token_payload(tok, r.len(5000));
        let waits = r.chance(200);
        let before = link.c2s.published();
        if waits {
            // the wait times out, but the event was sent before it started
            let m = ctx.emit("e", bp(d.clone())).await_reply().with_timeout(ms(1));
            let _ = m.await;
        } else {
            let res = ctx.emit("e", bp(d.clone())).await;
            ensure!(res.is_ok(), "emit", "emitting failed on a working connection: {:?}", res);
        }
        let (w, p) = (link.c2s.written(), link.c2s.published());
        ensure!(w == p, "not-flushed", "after emit {} returned {} written bytes are not flushed", k, w - p);
        ensure!(p >= before + d.len() + 28, "not-written", "after emit {} returned only {} bytes of a frame with {} bytes payload were written", k, p - before, d.len());
        total += d.len();
        if r.chance(300) {
            ensure!(raw.wait_n(k + 1, secs(100_000)).await, "lost", "event {} of {} bytes never arrived", k, d.len());
            let f = raw.frames().pop().unwrap();
            ensure!(f.data == d, "changed", "event {} arrived changed", k);
        }
    }
    net.settle(secs(5)).await;
    ensure!(raw.n() == n && raw.partial() == 0, "lost", "{} of {} events arrived", raw.n(), n);
    // many at once
    if r.chance(150) {
        let m = r.range(20, 300) as usize;
        let js: Vec<_> = (0..m).map(|i| { let c = ctx.clone(); tokio::spawn(async move { c.emit("e", bp(vec![i as u8; i % 90])).await }) }).collect();
        for j in js {
            ensure!(matches!(j.await, Ok(Ok(_))), "emit", "one of {} emits at once failed", m);
        }
        let (w, p) = (link.c2s.written(), link.c2s.published());
        ensure!(w == p, "not-flushed", "after {} emits at once returned {} written bytes are not flushed", m, w - p);
        net.settle(secs(5)).await;
        ensure!(raw.n() == n + m && raw.partial() == 0, "lost", "{} of {} events arrived", raw.n() - n, m);
    }
    drop(others);
    sc.count("frames", n as u64);
    sc.case(Some(hash_bytes(&link.c2s.recorded())), || format!("{}: {} emits of {} bytes, {}", T::NAME, n, total, cfg.c2s.desc()));
    Ok(())
}

both!(stalled, stalled_);
/// The peer reads nothing for a while, once or several times, while tasks emit: they wait, none of them is
/// refused, cut short or overtaken
async fn stalled_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let mut cfg = LinkCfg::random(&mut r, true);
    cfg.c2s.cap = r.range(1, 2000) as usize;
    let (ctx, raw) = net.raw_server(net.builder().timeout(secs(20_000)), &cfg).await?;
    let link = net.link(0);
    let log: Log = Default::default();
    let tasks = r.range(1, 8) as usize;
    let max = *r.pick(&[20, 300, 3000]);
    let js: Vec<_> = (0..tasks).map(|t| tokio::spawn(emit_some(ctx.clone(), t, r.fork(), 1 + r.idx(8), max, log.clone(), true, false))).collect();
    let mut stalls = vec![];
    for _ in 0..r.range(1, 4) {
        link.c2s.set_fault(Some(Fault::Stall(link.c2s.consumed() + r.idx(400))));
        let d = match r.below(4) {
            0 => secs(r.range(1, 20)),
            1 => secs(r.range(20, 100)),
            2 => secs(r.range(100, 700)),
            _ => secs(r.range(700, 2400)),
        };
        sleep(d).await;
        stalls.push((d.as_secs(), js.iter().filter(|j| !j.is_finished()).count()));
        link.c2s.set_fault(None);
        sleep(us(r.range(1, 20_000))).await;
    }
    join_all(js).await?;
    net.settle(secs(5)).await;
    let log = log.lock().unwrap().clone();
    let n = compare(&log, &raw, T::NAME)?;
    sc.count("emitters that waited for a peer that did not read", stalls.iter().map(|s| s.1 as u64).sum());
    sc.case(Some(hash_bytes(&net.link(0).c2s.recorded())), || format!("{}: {} tasks, {} frames, the peer stopped reading for (seconds, emitters under way) {:?}, {}", T::NAME, tasks, n, stalls, cfg.c2s.desc()));
    Ok(())
}

both!(mesh_wire, mesh_wire_);
async fn mesh_wire_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let c = mesh::MeshCfg {
        clients: r.range(1, 3) as usize,
        pool: if r.chance(300) { r.few() } else { 0 },
        tasks: r.range(2, 8) as usize,
        per_task: r.range(1, 6) as usize,
        panics: r.chance(200),
        timed: true,
        tight: r.chance(200),
        faults: vec![],
    };
    let m = mesh::mesh::<T>(&net, &mut r, &c).await?;
    let n = if c.pool > 0 && !T::ENC { 0 } else { mesh::check_wire(&net, false)? };
    // every emit of a handler or caller is accounted for by a run or a reply
    mesh::check_callers(&m)?;
    mesh::check_runs(&m)?;
    sc.count("frames", n);
    sc.case(Some(mix(sc.seed, m.events)), || format!("{}: {} clients, {} tasks, {} operations, {} handler runs, {} frames", T::NAME, c.clients, c.tasks, m.ops.len(), m.events, n));
    Ok(())
}

both!(large, large_);
async fn large_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let mut cfg = LinkCfg::default();
    cfg.c2s.cap = 10_000;
    cfg.c2s.wmax = 7000;
    cfg.c2s.wpend = 100;
    cfg.c2s.hold = r.chance(500);
    let (ctx, raw) = net.raw_server(net.builder(), &cfg).await?;
    let log: Log = Default::default();
    let js = (0..4).map(|t| tokio::spawn(emit_some(ctx.clone(), t, r.fork(), 6, 400_000, log.clone(), false, false))).collect();
    join_all(js).await?;
    net.settle(secs(5)).await;
    let n = compare(&log.lock().unwrap().clone(), &raw, T::NAME)?;
    sc.count("frames", n as u64);
    sc.case(Some(sc.seed), || format!("{}: {} frames of up to 400000 bytes", T::NAME, n));
    Ok(())
}

both!(threads, threads_);
/// Real threads
async fn threads_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let cfg = LinkCfg::random(&mut r, false);
    let (ctx, raw) = net.raw_server(net.builder().timeout(secs(50)), &cfg).await?;
    let log: Log = Default::default();
    let tasks = r.range(4, 16) as usize;
    let js = (0..tasks).map(|t| tokio::spawn(emit_some(ctx.clone(), t, r.fork(), 40, 400, log.clone(), false, false))).collect();
    join_all(js).await?;
    let want = log.lock().unwrap().iter().filter(|l| l.3.is_some()).count();
    ensure!(raw.wait_n(want, secs(30)).await, "lost", "{} of {} events arrived", raw.n(), want);
    let n = compare(&log.lock().unwrap().clone(), &raw, T::NAME)?;
    sc.count("frames from threads", n as u64);
    sc.case(Some(hash_bytes(&net.link(0).c2s.recorded())), || format!("{}: {} tasks on 6 threads, {} frames, {}", T::NAME, tasks, n, cfg.c2s.desc()));
    Ok(())
}
