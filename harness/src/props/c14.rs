//! C14: broken connections
use crate::codec::{self, Frame};
use crate::core::*;
use crate::fix::*;
use crate::mesh;
use crate::rng::*;
use crate::sim::*;
use crate::{both, boxed, ensure};
use bromine::event::Event;
use bromine::prelude::*;
use std::sync::{Arc, Mutex};
use tokio::time::Instant;

pub fn fams() -> Vec<Fam> {
    vec![
        fam("into-server", 12, 120, boxed!(into_server)),
        fam("into-client", 12, 120, boxed!(into_client)),
        fam("outgoing", 12, 120, boxed!(outgoing)),
        fam("mesh", 200, 5000, boxed!(mesh_faults)),
        fam("pool", 300, 6000, boxed!(pool_break)),
        fam("moments", 150, 4000, boxed!(moments)),
        fam("crowd", 24, 300, boxed!(crowd)),
        fam("big", 40, 600, boxed!(big)),
    ]
}

/// A transport without delays that splits the data in some way
fn split_cfg(r: &mut Rng) -> LinkCfg {
    let d = |r: &mut Rng| DirCfg {
        rmax: *r.pick(&[usize::MAX, usize::MAX, 1, 7, 60]),
        wmax: *r.pick(&[usize::MAX, usize::MAX, 3, 50]),
        rpend: *r.pick(&[0, 0, 200]),
        wpend: *r.pick(&[0, 0, 200]),
        hold: r.chance(200),
        ..Default::default()
    };
    LinkCfg { c2s: d(r), s2c: d(r), seed: r.next() }
}

fn fault(reset: bool, n: usize) -> Fault {
    if reset {
        Fault::Reset(n)
    } else {
        Fault::Eof(n)
    }
}

/// Which offsets to try: all of a short stream, and the interesting and some random ones of a long one
fn offsets(total: usize, bounds: &[usize], r: &mut Rng, max: usize) -> Vec<usize> {
    if total + 1 <= max {
        return (0..=total).collect();
    }
    let mut v: Vec<usize> = bounds.iter().flat_map(|b| [b.saturating_sub(1), *b, b + 1]).filter(|x| *x <= total).collect();
    v.extend([0, 1, total]);
    while v.len() < max {
        v.push(r.idx(total + 1));
    }
    v.sort();
    v.dedup();
    v
}

const WAIT: std::time::Duration = secs(5);
const SLACK: std::time::Duration = ms(200);

#[derive(Default)]
struct Log {
    runs: Vec<u64>,
    asked: Vec<Result<Vec<u8>, String>>,
    items: Vec<Result<Vec<u8>, String>>,
    stream_done: bool,
    late: Vec<String>,
}
type L = Arc<Mutex<Log>>;

/// Emits and waits, and notes how it ends
async fn ask(ctx: &Ctx, log: &L) {
    let t = Instant::now();
    let r = ctx.emit("?", bp(vec![1; 9])).await_reply().with_timeout(WAIT).await;
    let mut l = log.lock().unwrap();
    if t.elapsed() > WAIT + SLACK {
        l.late.push(format!("a reply wait with a timeout of {:?} took {:?}", WAIT, t.elapsed()));
    }
    l.asked.push(r.map(|e| e.data_raw().to_vec()).map_err(|e| format!("{:?}", e)));
}

async fn stream(ctx: &Ctx, log: &L) {
    let r = ctx.emit("*", bp(vec![2; 11])).stream_replies().with_timeout(WAIT).await;
    match r {
        Ok(mut s) => loop {
            let t = Instant::now();
            let x = next(&mut s).await;
            let mut l = log.lock().unwrap();
            if t.elapsed() > WAIT + SLACK {
                l.late.push(format!("a stream with a timeout of {:?} took {:?} for an item", WAIT, t.elapsed()));
            }
            match x {
                None => {
                    l.stream_done = true;
                    return;
                }
                Some(Ok(e)) => l.items.push(Ok(e.data_raw().to_vec())),
                Some(Err(e)) => l.items.push(Err(format!("{:?}", e))),
            }
            if l.items.len() > 50 {
                return;
            }
        },
        Err(e) => {
            let mut l = log.lock().unwrap();
            l.items.push(Err(format!("{:?}", e)));
            l.stream_done = true;
        }
    }
}

/// What the raw peer sends
#[derive(Clone, Debug)]
enum Step {
    Init(u64, usize),
    /// the answer to the wait
    Reply(usize),
    Item(usize),
    Last(usize),
}

fn script(r: &mut Rng) -> Vec<Step> {
    let mut v = vec![];
    let big = r.chance(150);
    let mut len = |r: &mut Rng| if big { r.len(2500) } else { r.idx(20) };
    let mut items = r.range(1, 3);
    let mut replied = false;
    while items > 0 || !replied {
        match r.below(4) {
            0 => v.push(Step::Init(mesh::uniq(r), len(r))),
            1 if !replied => {
                replied = true;
                v.push(Step::Reply(len(r)))
            }
            _ if items > 0 => {
                items -= 1;
                v.push(if items == 0 { Step::Last(len(r)) } else { Step::Item(len(r)) })
            }
            _ => {}
        }
    }
    v.push(Step::Init(mesh::uniq(r), len(r)));
    v
}

/// Sends the script. Stops at the first error. Returns where each frame ended.
async fn play(raw: &Raw, steps: &[Step], link: &Dir, calm: bool) -> Vec<usize> {
    // the two requests of the other side
    let find = |name: &str| raw.frames().iter().find(|f| f.name == name).map(|f| f.id);
    raw.until(ms(if calm { 60_000 } else { 500 }), |f| f.iter().filter(|x| x.0.name == "?" || x.0.name == "*").count() >= 2).await;
    let (a, s) = (find("?").unwrap_or(7), find("*").unwrap_or(7));
    let mut bounds = vec![];
    for (i, st) in steps.iter().enumerate() {
        let id = 0x1000 + i as u64;
        let f = match st {
            Step::Init(t, n) => Frame::new(codec::INIT, id, None, None, "h", token_payload(*t, *n)),
            Step::Reply(n) => Frame::new(codec::END, id, Some(a), None, "end", token_payload(i as u64, *n)),
            Step::Item(n) => Frame::new(codec::RESP, id, Some(s), None, "item", token_payload(i as u64, *n)),
            Step::Last(n) => Frame::new(codec::END, id, Some(s), None, "end", token_payload(i as u64, *n)),
        };
        if raw.frame(&f).await.is_err() {
            break;
        }
        bounds.push(link.written());
    }
    bounds
}

/// Compares what happened with what had arrived completely
fn judge(steps: &[Step], bounds: &[usize], n: usize, log: &Log, what: &str) -> R {
    let arrived: Vec<bool> = bounds.iter().map(|b| *b <= n).collect();
    if let Some(m) = log.late.first() {
        return viol("late", format!("{}: {}", what, m));
    }
    let mut runs = log.runs.clone();
    for (i, s) in steps.iter().enumerate() {
        if let Step::Init(t, _) = s {
            let k = runs.iter().filter(|x| *x == t).count();
            ensure!(k == arrived[i] as usize, "handled", "{}: frame {} of {} (ends at byte {}, arrived completely: {}) was handled {} times", what, i, steps.len(), bounds[i], arrived[i], k);
            runs.retain(|x| x != t);
        }
    }
    ensure!(runs.is_empty(), "handled", "{}: a handler ran for something that was not sent", what);
    let expect = |i: usize, n: usize| token_payload(i as u64, n);
    // the wait
    let (i, len) = steps.iter().enumerate().find_map(|(i, s)| if let Step::Reply(n) = s { Some((i, *n)) } else { None }).unwrap();
    match log.asked.first() {
        None => return viol("pending", format!("{}: a reply wait did not end", what)),
        Some(Ok(d)) => ensure!(arrived[i] && *d == expect(i, len), "reply", "{}: a reply that had arrived: {} gave {} bytes", what, arrived[i], d.len()),
        Some(Err(e)) => ensure!(!arrived[i], "reply", "{}: the reply had arrived (byte {}) but the wait failed with {}", what, bounds[i], e),
    }
    // the stream
    ensure!(log.stream_done, "pending", "{}: a reply stream did not end ({} items)", what, log.items.len());
    let mut items = log.items.iter();
    let mut all = true;
    for (i, s) in steps.iter().enumerate() {
        if let Step::Item(len) | Step::Last(len) = s {
            if arrived[i] {
                match items.next() {
                    Some(Ok(d)) if *d == expect(i, *len) => {}
                    x => return viol("stream", format!("{}: item in frame {} had arrived but the stream gave {:?}", what, i, x.map(|x| x.as_ref().map(|d| d.len())))),
                }
            } else {
                all = false;
            }
        }
    }
    match items.next() {
        None => {}
        Some(Err(_)) if !all => {
            if let Some(x) = items.next() {
                return viol("stream", format!("{}: a stream went on after an error with {:?}", what, x.as_ref().map(|d| d.len())));
            }
        }
        Some(x) => return viol("stream", format!("{}: a stream gave {:?} after everything that had arrived (complete: {})", what, x.as_ref().map(|d| d.len()), all)),
    }
    Ok(())
}

/// A request of an uninvolved client
async fn fine(ctx: &Ctx, k: u64, what: &str) -> R {
    let p = token_payload(k, 60);
    match ctx.emit("echo", bp(p.clone())).await_reply().with_timeout(secs(20)).await {
        Ok(e) if e.data_raw() == p => Ok(()),
        x => viol("bystander", format!("{}: a request on another connection gave {:?}", what, x.map(|e| e.data_raw().len()))),
    }
}

fn echo(ctx: &Ctx, e: Event) -> HFut<'_> {
    Box::pin(async move { Response::payload(ctx, bp(e.data_raw().to_vec())) })
}

both!(into_server, into_server_);
/// Frames for a server: the connection breaks after every possible number of bytes
async fn into_server_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let reset = (sc.idx / 2) % 2 == 1;
    let steps = script(&mut r);
    let cfg = split_cfg(&mut r);
    let seed = r.next();
    let (bounds, hs, answers) = server_run::<T>(&steps, &cfg, seed, None, &[], 0, reset).await?;
    ensure!(bounds.len() == steps.len(), "working", "a connection without a fault broke");
    let _ = answers;
    let total = *bounds.last().unwrap();
    let mut pts = bounds.clone();
    pts.push(hs);
    let max = if sc.thorough { 900 } else { 220 };
    for n in offsets(total, &pts, &mut r, max) {
        server_run::<T>(&steps, &cfg, seed, Some(n), &bounds, hs, reset).await?;
        sc.count("offsets tried", 1);
        sc.case(Some(mix(sc.seed, n as u64)), || format!("{} server, {} after {} of {} bytes, frames end at {:?}", T::NAME, if reset { "reset" } else { "end of stream" }, n, total, bounds));
    }
    Ok(())
}

async fn server_run<T: Tp>(steps: &[Step], cfg: &LinkCfg, seed: u64, at: Option<usize>, bounds: &[usize], hs: usize, reset: bool) -> R<(Vec<usize>, usize, usize)> {
    let mut r = Rng::new(seed);
    let net = Net::<T>::new(&mut r);
    let log: L = Default::default();
    let (l1, l2, l3) = (log.clone(), log.clone(), log.clone());
    let b = net
        .builder()
        .on("echo", hnd(echo))
        .on("h", hnd(move |ctx: &Ctx, e: Event| {
            let l = l1.clone();
            Box::pin(async move {
                l.lock().unwrap().runs.push(token_of(e.data_raw()).unwrap_or(0));
                Response::payload(ctx, bp(vec![3; 5]))
            })
        }))
        .on("ask", hnd(move |ctx: &Ctx, _e: Event| {
            let l = l2.clone();
            Box::pin(async move {
                ask(ctx, &l).await;
                Ok(Response::empty())
            })
        }))
        .on("str", hnd(move |ctx: &Ctx, _e: Event| {
            let l = l3.clone();
            Box::pin(async move {
                stream(ctx, &l).await;
                Ok(Response::empty())
            })
        }));
    let srv = net.serve(b).await;
    let by = net.client(net.builder(), &LinkCfg::default()).await?;
    fine(&by, 1, "before").await?;
    let what = format!("{} server, {} after {:?} bytes", T::NAME, if reset { "reset" } else { "end of stream" }, at);
    let mut c = cfg.clone();
    c.c2s.fault = at.map(|n| fault(reset, n));
    c.c2s.mood = at.unwrap_or(0) as u64;
    c.s2c.mood = at.unwrap_or(0) as u64;
    let raw = match net.raw_client(&c).await {
        Ok(raw) => Some(raw),
        Err(e) => {
            // only possible while the handshake is going on
            match at {
                Some(n) if n < hs => None,
                _ => return Err(e),
            }
        }
    };
    let link = net.link(1);
    let mut out = vec![];
    let mut h = link.c2s.written();
    let mut n_ans = 0;
    if let Some(raw) = raw {
        // two requests during which the server asks back
        let a = raw.frame(&Frame::new(codec::INIT, 1, None, None, "ask", vec![])).await;
        let a_end = link.c2s.written();
        let s = raw.frame(&Frame::new(codec::INIT, 2, None, None, "str", vec![])).await;
        let s_end = link.c2s.written();
        if at.is_none() {
            h = a_end;
        }
        let mut b2 = vec![];
        if a.is_ok() && s.is_ok() {
            b2 = play(&raw, steps, &link.c2s, at.is_none()).await;
        }
        fine(&by, 2, &what).await?;
        net.settle(secs(12)).await;
        if let Some(n) = at {
            let l = log.lock().unwrap();
            if n >= s_end && a.is_ok() && s.is_ok() {
                judge(steps, bounds, n, &l, &what)?;
            } else {
                ensure!(l.runs.is_empty(), "handled", "{}: a handler ran for a frame that had not arrived", what);
                ensure!(n < a_end || a.is_err() || l.asked.len() == 1, "pending", "{}: the wait of the handler did not end", what);
            }
            if !reset {
                // the other direction still works: what was handled gets its reply
                n_ans = raw.frames().iter().filter(|f| f.ty == codec::END && f.data == vec![3; 5]).count();
                ensure!(n_ans == l.runs.len(), "answered", "{}: {} events were handled but {} answered", what, l.runs.len(), n_ans);
            }
            if let Some(m) = raw.bad() {
                return viol("bad-frame", format!("{}: {}", what, m));
            }
        }
        out = b2;
    } else {
        net.settle(secs(12)).await;
        ensure!(log.lock().unwrap().runs.is_empty(), "handled", "{}: a handler ran", what);
    }
    fine(&by, 3, &what).await?;
    ensure!(srv.alive(), "server-ended", "{}: the server has ended", what);
    let new = net.client(net.builder(), &LinkCfg::default()).await?;
    fine(&new, 4, &what).await?;
    Ok((out, h, n_ans))
}

both!(into_client, into_client_);
async fn into_client_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let reset = (sc.idx / 2) % 2 == 1;
    let steps = script(&mut r);
    let cfg = split_cfg(&mut r);
    let seed = r.next();
    let (bounds, hs) = client_run::<T>(&steps, &cfg, seed, None, &[], 0, reset).await?;
    ensure!(bounds.len() == steps.len(), "working", "a connection without a fault broke");
    let total = *bounds.last().unwrap();
    let mut pts = bounds.clone();
    pts.push(hs);
    let max = if sc.thorough { 900 } else { 220 };
    for n in offsets(total, &pts, &mut r, max) {
        client_run::<T>(&steps, &cfg, seed, Some(n), &bounds, hs, reset).await?;
        sc.count("offsets tried", 1);
        sc.case(Some(mix(sc.seed, n as u64)), || format!("{} client, {} after {} of {} bytes, frames end at {:?}", T::NAME, if reset { "reset" } else { "end of stream" }, n, total, bounds));
    }
    Ok(())
}

async fn client_run<T: Tp>(steps: &[Step], cfg: &LinkCfg, seed: u64, at: Option<usize>, bounds: &[usize], hs: usize, reset: bool) -> R<(Vec<usize>, usize)> {
    let mut r = Rng::new(seed);
    let net = Net::<T>::new(&mut r);
    let log: L = Default::default();
    // an uninvolved connection of the same process
    let other = Net::<T>::new(&mut r);
    let _srv = other.serve(other.builder().on("echo", hnd(echo))).await;
    let by = other.client(other.builder(), &LinkCfg::default()).await?;
    fine(&by, 1, "before").await?;
    let what = format!("{} client, {} after {:?} bytes", T::NAME, if reset { "reset" } else { "end of stream" }, at);
    let l1 = log.clone();
    let b = net.builder().on("h", hnd(move |ctx: &Ctx, e: Event| {
        let l = l1.clone();
        Box::pin(async move {
            l.lock().unwrap().runs.push(token_of(e.data_raw()).unwrap_or(0));
            Response::payload(ctx, bp(vec![3; 5]))
        })
    }));
    let mut c = cfg.clone();
    c.s2c.fault = at.map(|n| fault(reset, n));
    c.c2s.mood = at.unwrap_or(0) as u64;
    c.s2c.mood = at.unwrap_or(0) as u64;
    let l = net.raw_listener().await;
    let acc = tokio::spawn(async move { l.protocol_accept().await.map(|x| x.0).map_err(|e| format!("{:?}", e)) });
    let t = Instant::now();
    let ctx = b.client_options(net.copts(&c)).build_client().await;
    let link = net.link(0);
    let ctx = match (ctx, at) {
        (Ok(c), Some(n)) if n >= hs => c,
        (Ok(c), None) => c,
        (Err(_), Some(n)) if n < hs => {
            ensure!(t.elapsed() < secs(30), "late", "{}: the connecting failed after {:?}", what, t.elapsed());
            acc.abort();
            return fine(&by, 2, &what).await.map(|_| (vec![], 0));
        }
        (Ok(_), Some(n)) => return viol("handshake", format!("{}: connecting succeeded with {} of {} bytes of the handshake", what, n, hs)),
        (Err(e), _) => return viol("connect", format!("{}: connecting failed with {:?}", what, e)),
    };
    let raw = match acc.await {
        Ok(Ok(s)) => Raw::new(s),
        x => return viol("accept", format!("{}: {:?}", what, x.map(|y| y.map(|_| ())))),
    };
    let h = link.s2c.written();
    let (c1, c2, g1, g2) = (ctx.clone(), ctx.clone(), log.clone(), log.clone());
    let a = tokio::spawn(async move { ask(&c1, &g1).await });
    let s = tokio::spawn(async move { stream(&c2, &g2).await });
    let out = play(&raw, steps, &link.s2c, at.is_none()).await;
    fine(&by, 3, &what).await?;
    net.settle(secs(12)).await;
    for j in [a, s] {
        if let Err(e) = j.await {
            return viol("panic", format!("{}: {}", what, e));
        }
    }
    if let Some(n) = at {
        judge(steps, bounds, n, &log.lock().unwrap(), &what)?;
        if !reset {
            let l = log.lock().unwrap();
            let n_ans = raw.frames().iter().filter(|f| f.ty == codec::END && f.data == vec![3; 5]).count();
            ensure!(n_ans == l.runs.len(), "answered", "{}: {} events were handled but {} answered", what, l.runs.len(), n_ans);
        }
        // later operations
        let late: L = Default::default();
        tokio::join!(ask(&ctx, &late), stream(&ctx, &late));
        let t = Instant::now();
        let e = ctx.emit("x", bp(vec![1])).await;
        ensure!(t.elapsed() < WAIT, "late", "{}: a later emit took {:?}", what, t.elapsed());
        ensure!(!reset || e.is_err(), "later", "{}: an emit on the broken connection succeeded", what);
        let l = late.lock().unwrap();
        if let Some(m) = l.late.first() {
            return viol("late", format!("{}, later: {}", what, m));
        }
        ensure!(l.asked.len() == 1 && l.asked[0].is_err(), "later", "{}: a later reply wait ended with {:?}", what, l.asked);
        ensure!(l.stream_done && l.items.iter().all(|x| x.is_err()), "later", "{}: a later stream ended with {:?}", what, l.items);
    }
    fine(&by, 5, &what).await?;
    Ok((out, h))
}

both!(outgoing, outgoing_);
/// The connection breaks while the tested side writes
async fn outgoing_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let reset = (sc.idx / 2) % 2 == 1;
    let cfg = split_cfg(&mut r);
    let seed = r.next();
    let bounds = outgoing_run::<T>(&cfg, seed, None, &[], reset).await?;
    let total = *bounds.last().unwrap();
    let max = if sc.thorough { 900 } else { 220 };
    for n in offsets(total, &bounds, &mut r, max) {
        if n < bounds[0] || (T::ENC && n == bounds[0]) {
            // covered by the handshake cases above
            continue;
        }
        outgoing_run::<T>(&cfg, seed, Some(n), &bounds, reset).await?;
        sc.count("offsets tried", 1);
        sc.case(Some(mix(sc.seed, n as u64)), || format!("{} emitter, {} after {} of {} bytes, frames end at {:?}", T::NAME, if reset { "reset" } else { "end of stream" }, n, total, bounds));
    }
    Ok(())
}

/// Returns the lengths after the handshake and after each emit
async fn outgoing_run<T: Tp>(cfg: &LinkCfg, seed: u64, at: Option<usize>, bounds: &[usize], reset: bool) -> R<Vec<usize>> {
    let mut r = Rng::new(seed);
    let net = Net::<T>::new(&mut r);
    let what = format!("{} emitter, {} after {:?} bytes", T::NAME, if reset { "reset" } else { "end of stream" }, at);
    let mut c = cfg.clone();
    c.c2s.fault = at.map(|n| fault(reset, n));
    c.c2s.mood = at.unwrap_or(0) as u64;
    c.s2c.mood = at.unwrap_or(0) as u64;
    let (ctx, raw) = net.raw_server(net.builder(), &c).await?;
    let link = net.link(0);
    let mut out = vec![link.c2s.written()];
    // answers what wants an answer
    let raw2 = raw.clone();
    let ans = tokio::spawn(async move {
        let mut k = 0;
        while raw2.wait_n(k + 1, secs(1000)).await {
            let f = raw2.frames()[k].clone();
            k += 1;
            if f.name == "ask" {
                let _ = raw2.frame(&Frame::new(codec::END, 5000 + k as u64, Some(f.id), None, "end", f.data.clone())).await;
            }
        }
    });
    let n_ev = r.range(3, 8) as usize;
    let big = r.chance(200);
    let mut sent = vec![];
    let mut failed = false;
    for i in 0..n_ev {
        let len = if big { r.len(3000) } else { r.idx(40) };
        let p = token_payload(i as u64 + 1, len);
        let t = Instant::now();
        let wait = r.chance(400);
        let name = if wait { "ask" } else { "tell" };
        let res = if wait {
            match ctx.emit(name, bp(p.clone())).await_reply().with_timeout(WAIT).await {
                Ok(e) => {
                    ensure!(e.data_raw() == p, "reply", "{}: a request got another reply", what);
                    Ok(())
                }
                Err(e) => Err(e),
            }
        } else {
            ctx.emit(name, bp(p.clone())).await.map(|_| ())
        };
        ensure!(t.elapsed() < WAIT + SLACK, "late", "{}: operation {} took {:?}", what, i, t.elapsed());
        out.push(link.c2s.written());
        match at {
            None => ensure!(res.is_ok(), "working", "a connection without a fault broke: {:?}", res),
            Some(n) => {
                if wait && bounds[i + 1] > n {
                    ensure!(res.is_err(), "reply", "{}: a request that can't have arrived got a reply", what);
                }
                if bounds[i + 1] < n && !(reset && bounds[i + 1] == n) {
                    ensure!(res.is_ok() || failed, "early", "{}: operation {} failed although the connection breaks later: {:?}", what, i, res);
                }
            }
        }
        failed |= res.is_err();
        sent.push((name, p));
    }
    net.settle(secs(10)).await;
    ans.abort();
    if let Some(m) = raw.bad() {
        return viol("bad-frame", format!("{}: {}", what, m));
    }
    let got = raw.frames();
    for (i, f) in got.iter().enumerate() {
        ensure!(i < sent.len() && sent[i].0 == f.name && sent[i].1 == f.data, "changed", "{}: event {} arrived as {}", what, i, f.short());
    }
    let k = match at {
        Some(n) => bounds[1..].iter().filter(|b| **b <= n).count(),
        None => n_ev,
    };
    ensure!(got.len() == k, "arrived", "{}: {} events arrived, {} were transmitted completely", what, got.len(), k);
    if at.is_some() {
        for w in 0..3 {
            let t = Instant::now();
            let p = bp(vec![0; if w == 2 { 5000 } else { 3 }]);
            let res = match w {
                1 => ctx.emit("late", p).await_reply().with_timeout(WAIT).await.map(|_| ()),
                _ => ctx.emit("late", p).await.map(|_| ()),
            };
            ensure!(t.elapsed() < WAIT + SLACK, "late", "{}: a later operation took {:?}", what, t.elapsed());
            // the fault shows with the first byte beyond it
            let broken = w > 0 || failed || reset;
            ensure!(res.is_err() || !broken, "later", "{}: a later operation succeeded", what);
        }
        ensure!(raw.n() == k, "arrived", "{}: something arrived over the broken connection", what);
    }
    Ok(out)
}

both!(mesh_faults, mesh_faults_);
/// Some of several clients lose their connections in the middle of random traffic
async fn mesh_faults_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let clients = r.range(2, 4) as usize;
    let mut faults = vec![];
    for c in 0..clients - 1 {
        if c == 0 || r.chance(500) {
            let n = r.len(6000);
            faults.push((c, r.chance(500), fault(r.chance(500), n)));
        }
    }
    let c = mesh::MeshCfg {
        clients,
        pool: if r.chance(250) { r.few() } else { 0 },
        tasks: r.range(3, 9) as usize,
        per_task: r.range(2, 9) as usize,
        panics: r.chance(300),
        timed: r.chance(700),
        tight: r.chance(150),
        faults,
    };
    let m = mesh::mesh(&net, &mut r, &c).await?;
    mesh::check_callers(&m)?;
    mesh::check_runs(&m)?;
    let bad = m.ops.iter().filter(|o| matches!(o.seen.last(), Some(mesh::Seen3::Fail(_)))).count();
    sc.count("operations that failed with their connection", bad as u64);
    sc.count("operations compared", m.ops.len() as u64);
    let h = m.ops.iter().fold(0, |h, o| mix(h, o.tok));
    sc.case(if bad > 0 { Some(h) } else { None }, || format!("{}: {} clients (pool {}), faults {:?}: {} requests, {} failed", T::NAME, clients, c.pool, c.faults, m.ops.len(), bad));
    Ok(())
}

both!(moments, moments_);
/// The peer closes, resets or disappears at a random moment while operations of every kind are going on
async fn moments_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let cfg = if r.chance(300) { LinkCfg::tight(&mut r) } else { LinkCfg::random(&mut r, true) };
    let (ctx, raw) = net.raw_server(net.builder().timeout(secs(9)), &cfg).await?;
    let how = *r.pick(&["close", "reset", "shutdown", "garbage"]);
    let when = us(r.range(0, 60_000));
    let link = net.link(0);
    let mut joins = vec![];
    let n = r.range(1, 12);
    // answers some of the requests
    let raw2 = raw.clone();
    let mut r2 = r.fork();
    let ans = tokio::spawn(async move {
        let mut k = 0;
        while raw2.wait_n(k + 1, secs(1000)).await {
            let f = raw2.frames()[k].clone();
            k += 1;
            if r2.chance(600) {
                let _ = raw2.frame(&Frame::new(*r2.pick(&[codec::END, codec::END, codec::RESP]), 5000 + k as u64, Some(f.id), None, "end", f.data.clone())).await;
            }
        }
    });
    for i in 0..n {
        let ctx = ctx.clone();
        let mut r = r.fork();
        joins.push(tokio::spawn(async move {
            let mut out = vec![];
            for _ in 0..r.range(1, 6) {
                let p = token_payload(mesh::uniq(&mut r), r.clone().len(2000));
                let t = Instant::now();
                let to = ms(r.range(1, 12_000));
                let own = r.chance(500);
                let limit = if own { to } else { secs(9) };
                match r.below(3) {
                    0 => {
                        let _ = ctx.emit("a", bp(p)).await;
                    }
                    1 => {
                        let m = ctx.emit("a", bp(p.clone())).await_reply();
                        let m = if own { m.with_timeout(to) } else { m };
                        if let Ok(e) = m.await {
                            if e.data_raw() != p {
                                out.push(format!("task {}: a request got another reply", i));
                            }
                        }
                    }
                    _ => {
                        let m = ctx.emit("a", bp(p.clone())).stream_replies();
                        let m = if own { m.with_timeout(to) } else { m };
                        if let Ok(mut s) = m.await {
                            let mut k = 0;
                            loop {
                                let t = Instant::now();
                                let x = next(&mut s).await;
                                if t.elapsed() > limit + SLACK {
                                    out.push(format!("task {}: a stream waited {:?} with a timeout of {:?}", i, t.elapsed(), limit));
                                }
                                match x {
                                    None | Some(Err(_)) => break,
                                    Some(Ok(e)) => {
                                        if e.data_raw() != p || k > 0 {
                                            out.push(format!("task {}: a stream got another reply", i));
                                        }
                                    }
                                }
                                k += 1;
                            }
                        }
                    }
                }
                let _ = t;
                if r.chance(300) {
                    sleep(us(r.range(0, 20_000))).await;
                }
            }
            out
        }));
    }
    sleep(when).await;
    match how {
        "close" => raw.close().await,
        "reset" => link.break_now(),
        "shutdown" => {
            let r = raw.clone();
            tokio::spawn(async move { r.shutdown().await });
        }
        _ => {
            let b = r.bytes(500);
            let r = raw.clone();
            tokio::spawn(async move { r.send(&b).await });
        }
    }
    let end = Instant::now() + secs(3000);
    for j in joins {
        match tokio::time::timeout_at(end, j).await {
            Ok(Ok(v)) => {
                if let Some(m) = v.first() {
                    return viol("moment", format!("{} {}: {}", T::NAME, how, m));
                }
            }
            Ok(Err(e)) => return viol("panic", format!("{} {}: {}", T::NAME, how, e)),
            Err(_) => return viol("pending", format!("{} {} at {:?}: an operation did not end", T::NAME, how, when)),
        }
    }
    ans.abort();
    sc.case(Some(mix(sc.seed, n)), || format!("{} {} at {:?}, {} tasks, {}", T::NAME, how, when, n, cfg.desc()));
    sc.count(&format!("broken by {}", how), 1);
    Ok(())
}

both!(pool_break, pool_break_);
/// Some connections of a pool break while operations go on on all of them
async fn pool_break_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let n = r.range(2, 5) as usize;
    let cfg = if r.chance(400) { LinkCfg::default() } else { LinkCfg::random(&mut r, true) };
    let runs: Arc<Mutex<Vec<u64>>> = Default::default();
    let r1 = runs.clone();
    let b = net.builder().timeout(secs(3000)).on("h", hnd(move |_: &Ctx, e: Event| {
        let r = r1.clone();
        Box::pin(async move {
            r.lock().unwrap().push(token_of(e.data_raw()).unwrap_or(0));
            Ok(Response::empty())
        })
    }));
    let (pool, raws) = mesh::raw_pool(&net, b, &cfg, n).await?;
    let guards: Vec<_> = (0..n).map(|_| pool.acquire()).collect();
    let ctxs: Vec<Ctx> = guards.iter().map(|g| (**g).clone()).collect();
    let mut which = vec![];
    for (i, c) in ctxs.iter().enumerate() {
        if let Err(e) = c.emit(format!("i{}", i), bp(vec![0])).await {
            return viol("emit", format!("{:?}", e));
        }
    }
    net.settle(secs(5)).await;
    for i in 0..n {
        match raws.iter().position(|x| x.frames().iter().any(|f| f.name == format!("i{}", i))) {
            Some(k) if !which.contains(&k) => which.push(k),
            _ => return viol("pool", format!("acquiring {} times from {} idle connections did not give each once", n, n)),
        }
    }
    let mut broken = vec![r.idx(n)];
    for i in 0..n {
        if broken.len() + 1 < n && !broken.contains(&i) && r.chance(250) {
            broken.push(i);
        }
    }
    let how = *r.pick(&["close", "reset", "shutdown", "garbage", "cut frame"]);
    let what = format!("{} pool of {}, {:?} broken by {}", T::NAME, n, broken, how);
    // what goes on
    let mut ops = vec![];
    for j in 0..r.range(2, 9) {
        let i = r.idx(n);
        let c = ctxs[i].clone();
        let streaming = r.chance(500);
        let to = if broken.contains(&i) { ms(r.range(3000, 20_000)) } else { secs(2500) };
        let h = tokio::spawn(async move {
            let m = c.emit(format!("o{}", j), bp(vec![j as u8]));
            let mut out = vec![];
            let t;
            if streaming {
                let mut s = match m.stream_replies().with_timeout(to).await {
                    Ok(s) => s,
                    Err(e) => return (out, Some(format!("{:?}", e)), secs(0)),
                };
                let mut t0 = Instant::now();
                while let Some(x) = next(&mut s).await {
                    match x {
                        Ok(x) => out.push(x.data_raw().to_vec()),
                        Err(e) => return (out, Some(format!("{:?}", e)), t0.elapsed()),
                    }
                    t0 = Instant::now();
                }
                t = t0;
            } else {
                t = Instant::now();
                match m.await_reply().with_timeout(to).await {
                    Ok(x) => out.push(x.data_raw().to_vec()),
                    Err(e) => return (out, Some(format!("{:?}", e)), t.elapsed()),
                }
            }
            (out, None, t.elapsed())
        });
        let rw = raws[which[i]].clone();
        let nm = format!("o{}", j);
        rw.until(secs(50), |f| f.iter().any(|x| x.0.name == nm)).await;
        let q = match rw.frames().iter().find(|f| f.name == nm) {
            Some(f) => f.id,
            None => return viol("emit", format!("{}: a request on connection {} did not arrive", what, i)),
        };
        let mut want = vec![];
        if streaming && r.chance(500) {
            want.push(vec![7, j as u8]);
            let _ = rw.frame(&Frame::new(codec::RESP, r.next(), Some(q), None, "i", vec![7, j as u8])).await;
        }
        ops.push((i, h, rw, q, want, to));
    }
    if r.chance(700) {
        net.settle(secs(1)).await;
    }
    for i in &broken {
        let raw = raws[which[*i]].clone();
        match how {
            "close" => raw.close().await,
            "reset" => {
                // the links of a pool are opened in order, like its raw sides
                for k in 0..n {
                    if k == which[*i] {
                        net.link(k).break_now();
                    }
                }
            }
            "shutdown" => {
                tokio::spawn(async move { raw.shutdown().await });
            }
            "garbage" => {
                let b = r.bytes(500);
                tokio::spawn(async move { raw.send(&b).await });
            }
            _ => {
                let f = Frame::new(codec::INIT, 77, None, None, "h", token_payload(5, 300)).encode();
                let k = 1 + r.idx(f.len() - 1);
                tokio::spawn(async move {
                    let _ = raw.send(&f[..k]).await;
                    raw.shutdown().await
                });
            }
        }
    }
    if r.chance(800) {
        sleep(ms(r.range(0, 1000))).await;
    }
    let (mut kept, mut lost) = (0, 0);
    for (j, (i, h, rw, q, mut want, to)) in ops.into_iter().enumerate() {
        if broken.contains(&i) {
            match h.await {
                Ok((out, err, t)) => {
                    ensure!(want.starts_with(&out), "reply", "{}: an operation of the broken connection got {:?}", what, out);
                    ensure!(err.is_some(), "reply", "{}: an operation of the broken connection ended without its final reply, with {:?}", what, out);
                    ensure!(t <= to + SLACK, "late", "{}: an operation with a timeout of {:?} ended {:?} after the last reply", what, to, t);
                }
                Err(e) => return viol("panic", format!("{}: {}", what, e)),
            }
            lost += 1;
        } else {
            want.push(vec![8, j as u8]);
            ensure!(rw.frame(&Frame::new(codec::END, r.next(), Some(q), None, "end", vec![8, j as u8])).await.is_ok(), "others", "{}: connection {} broke, too", what, i);
            match h.await {
                Ok((out, None, _)) => ensure!(out == want, "others", "{}: an operation of another connection got {:?} instead of {:?}", what, out, want),
                Ok((_, Some(e), _)) => return viol("others", format!("{}: an operation of another connection ended with {}", what, e)),
                Err(e) => return viol("panic", format!("{}: {}", what, e)),
            }
            kept += 1;
        }
    }
    // afterwards
    for i in 0..n {
        if broken.contains(&i) {
            let t = Instant::now();
            let x = ctxs[i].emit("later", bp(vec![])).await_reply().with_timeout(secs(4)).await;
            ensure!(x.is_err(), "later", "{}: a later request on the broken connection got a reply", what);
            ensure!(t.elapsed() < secs(600), "late", "{}: a later request on the broken connection took {:?}", what, t.elapsed());
            continue;
        }
        let rw = raws[which[i]].clone();
        let tok = mesh::uniq(&mut r);
        let f = Frame::new(codec::INIT, 900, None, None, "h", token_payload(tok, 50));
        ensure!(rw.frame(&f).await.is_ok(), "others", "{}: connection {} broke, too", what, i);
        let rw2 = rw.clone();
        let ans = tokio::spawn(async move {
            rw2.until(secs(1000), |f| f.iter().any(|x| x.0.name == "q")).await;
            if let Some(f) = rw2.frames().into_iter().find(|f| f.name == "q") {
                let _ = rw2.frame(&Frame::new(codec::END, 9999, Some(f.id), None, "end", b"fine".to_vec())).await;
            }
        });
        match ctxs[i].emit("q", bp(vec![])).await_reply().with_timeout(secs(1000)).await {
            Ok(e) if e.data_raw() == b"fine" => {}
            x => return viol("others", format!("{}: a later request on another connection gave {:?}", what, x.map(|e| e.data_raw().len()))),
        }
        let _ = ans.await;
        ensure!(rw.until(secs(1000), |f| f.iter().any(|x| x.0.ref_id == Some(900))).await, "others", "{}: an event on another connection was not answered", what);
        ensure!(runs.lock().unwrap().iter().filter(|x| **x == tok).count() == 1, "others", "{}: an event on another connection was not handled once", what);
    }
    sc.count("operations on whole connections of a broken pool", kept);
    sc.count("operations on broken connections of a pool", lost);
    sc.case(Some(mix(sc.seed, kept * 16 + lost)), || format!("{}: {} operations went on, {} ended; {}", what, kept, lost, cfg.desc()));
    Ok(())
}

both!(crowd, crowd_);
/// Hundreds of waits are pending on both sides of a connection that breaks
async fn crowd_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    // how the questions of the server's handlers ended: (ended well, in time)
    let ends: Arc<Mutex<Vec<(bool, bool)>>> = Default::default();
    let e2 = ends.clone();
    let b = net
        .builder()
        .on("hold", |_: &Ctx, _: Event| {
            Box::pin(async move {
                sleep(secs(10_000)).await;
                Ok(Response::empty())
            })
        })
        .on("back", move |ctx: &Ctx, _: Event| {
            let (ctx, e2) = (ctx.clone(), e2.clone());
            Box::pin(async move {
                let t = Instant::now();
                let x = ctx.emit("hold", bp(vec![2])).await_reply().with_timeout(WAIT).await;
                e2.lock().unwrap().push((x.is_ok(), t.elapsed() <= WAIT + SLACK));
                Ok(Response::empty())
            }) as HFut
        })
        .on("fine", |ctx: &Ctx, e: Event| {
            let ctx = ctx.clone();
            Box::pin(async move { Response::payload(&ctx, bp(e.data_raw().to_vec())) }) as HFut
        });
    let _srv = net.serve(b).await;
    let cb = || {
        net.builder().on("hold", |_: &Ctx, _: Event| {
            Box::pin(async move {
                sleep(secs(10_000)).await;
                Ok(Response::empty())
            })
        })
    };
    let other = net.client(cb(), &LinkCfg::default()).await?;
    let pool_n = if r.chance(300) { r.range(2, 4) as usize } else { 1 };
    let at = net.links.lock().unwrap().len();
    let pool = net.pool(cb(), &LinkCfg::default(), pool_n).await?;
    let (waits, backs) = (r.range(20, 600), r.range(20, 600));
    let log: L = Default::default();
    let mut joins = vec![];
    let guards: Vec<_> = (0..pool_n).map(|_| pool.acquire()).collect();
    for i in 0..waits.max(backs) {
        let c: Ctx = (*guards[i as usize % pool_n]).clone();
        if i < waits {
            let (c, l, s) = (c.clone(), log.clone(), r.chance(300));
            joins.push(tokio::spawn(async move {
                let t = Instant::now();
                let bad = if s {
                    match c.emit("hold", bp(vec![1])).stream_replies().with_timeout(WAIT).await {
                        Ok(mut s) => matches!(next(&mut s).await, Some(Ok(_))),
                        Err(_) => false,
                    }
                } else {
                    c.emit("hold", bp(vec![1])).await_reply().with_timeout(WAIT).await.is_ok()
                };
                let mut l = l.lock().unwrap();
                l.items.push(if bad { Ok(vec![]) } else { Err(String::new()) });
                if t.elapsed() > WAIT + SLACK {
                    l.late.push(format!("a wait took {:?}", t.elapsed()));
                }
            }));
        }
        if i < backs {
            ensure!(c.emit("back", bp(vec![])).await.is_ok(), "emit", "an emit on a working connection failed");
        }
    }
    sleep(ms(r.range(100, 2000))).await;
    let reset = r.chance(500);
    for i in 0..pool_n {
        let link = net.link(at + i);
        if reset {
            link.break_now();
        } else {
            link.c2s.set_fault(Some(Fault::Eof(link.c2s.written())));
            link.s2c.set_fault(Some(Fault::Eof(link.s2c.written())));
        }
    }
    let what = format!("{} {} with {} waits of a client and {} of its server on {} connections", T::NAME, if reset { "reset" } else { "end of stream" }, waits, backs, pool_n);
    for j in joins {
        match tokio::time::timeout(secs(1000), j).await {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return viol("panic", format!("{}: {}", what, e)),
            Err(_) => return viol("pending", format!("{}: a wait did not end", what)),
        }
    }
    sleep(secs(30)).await;
    {
        let l = log.lock().unwrap();
        if let Some(m) = l.late.first() {
            return viol("late", format!("{}: {}", what, m));
        }
        ensure!(l.items.iter().all(|x| x.is_err()), "reply", "{}: a wait that nobody answered ended with a reply", what);
        let e = ends.lock().unwrap();
        ensure!(e.iter().all(|x| !x.0), "reply", "{}: a handler's wait that nobody answered ended with a reply", what);
        ensure!(e.iter().all(|x| x.1), "late", "{}: a handler's wait did not end in time", what);
        ensure!(e.len() as u64 == backs, "pending", "{}: {} of the handlers' waits ended", what, e.len());
    }
    let new = net.client(cb(), &LinkCfg::default()).await?;
    for (who, c) in [("another", &other), ("a new", &new)] {
        match c.emit("fine", bp(vec![1, 2])).await_reply().with_timeout(WAIT).await {
            Ok(e) => ensure!(e.data_raw() == [1, 2], "others", "{}: {} connection got a wrong reply", what, who),
            Err(e) => return viol("others", format!("{}: {} connection fails: {:?}", what, who, e)),
        }
    }
    sc.count("waits pending when the connection broke", waits + backs);
    sc.case(Some(mix(sc.seed, waits << 20 | backs)), || what.clone());
    Ok(())
}

both!(big, big_);
/// The connection breaks in the middle of a large event or a large reply
async fn big_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    for _ in 0..4 {
        let net = Net::<T>::new(&mut r);
        let runs: Arc<Mutex<Vec<usize>>> = Default::default();
        let r1 = runs.clone();
        let b = net.builder().timeout(WAIT).on("h", hnd(move |_: &Ctx, e: Event| {
            r1.lock().unwrap().push(e.data_raw().len());
            Box::pin(async move { Ok(Response::empty()) })
        }));
        let cfg = LinkCfg { seed: r.next(), ..Default::default() };
        let (ctx, raw) = net.raw_server(b, &cfg).await?;
        let len = *r.pick(&[60_000, 65_535, 65_536, 65_600, 100_000, 131_072, 300_000, 1 << 20, 3_000_000]);
        let kind = r.below(4);
        let mut asks = vec![];
        if kind == 1 || kind == 2 {
            let c = ctx.clone();
            asks.push(tokio::spawn(async move {
                let t = Instant::now();
                let n = if kind == 1 {
                    c.emit("q", bp(vec![])).await_reply().await.map(|e| e.data_raw().len()).ok()
                } else {
                    let mut s = c.emit("q", bp(vec![])).stream_replies().await.ok()?;
                    let x = next(&mut s).await;
                    x.and_then(|x| x.ok()).map(|e| e.data_raw().len())
                };
                Some((n, t.elapsed()))
            }));
            ensure!(raw.wait_n(1, secs(5)).await, "request", "the request did not arrive");
        }
        let f = if asks.is_empty() { Frame::new(codec::INIT, r.next(), None, None, "h", vec![7; len]) } else { Frame::new(if kind == 1 { codec::END } else { codec::RESP }, r.next(), Some(raw.frames()[0].id), None, "h", vec![7; len]) };
        let b = f.encode();
        let cut = match r.below(5) {
            0 => b.len(),
            1 => b.len() - 1 - r.idx(40),
            2 => b.len() - len + r.idx(3),
            3 => b.len() - r.range(1, len as u64) as usize,
            _ => *r.pick(&[65_535usize, 65_536, 32_768, 50_000]).min(&(b.len() - 1)),
        };
        let whole = cut == b.len();
        ensure!(raw.send(&b[..cut]).await.is_ok(), "closed", "the connection was closed within a large event");
        sleep(ms(500)).await;
        let how = r.below(3);
        match how {
            0 => raw.shutdown().await,
            1 => raw.close().await,
            _ => net.link(0).break_now(),
        }
        sleep(secs(1)).await;
        let what = format!("{} connection that broke ({}) after {} of {} bytes", T::NAME, how, cut, b.len());
        let got = runs.lock().unwrap().clone();
        if asks.is_empty() {
            ensure!(got == if whole { vec![len] } else { vec![] }, if whole { "missing" } else { "incomplete" }, "{}: handlers ran with {:?} bytes", what, got);
        } else {
            ensure!(got.is_empty(), "incomplete", "{}: a reply was handled with {:?} bytes", what, got);
            for j in asks {
                match j.await {
                    Ok(Some((n, took))) => {
                        ensure!(n == if whole { Some(len) } else { None }, if whole { "missing" } else { "incomplete" }, "{}: the wait ended with {:?} bytes", what, n);
                        ensure!(took < WAIT + SLACK, "late", "{}: the wait took {:?}", what, took);
                    }
                    x => return viol("request", format!("{}: {:?}", what, x)),
                }
            }
        }
        sc.count(if whole { "large frames complete" } else { "large frames cut" }, 1);
        sc.case(Some(mix(cut as u64, len as u64 ^ how << 40 ^ kind << 50)), || what.clone());
    }
    Ok(())
}
