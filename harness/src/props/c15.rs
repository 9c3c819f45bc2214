//! C15: stopping clients
use crate::codec::{self, Frame};
use crate::core::*;
use crate::fix::*;
use crate::mesh;
use crate::rng::*;
use crate::sim::*;
use crate::{both, boxed, ensure};
use bromine::event::Event;
use bromine::prelude::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use tokio::time::Instant;

pub fn fams() -> Vec<Fam> {
    vec![
        fam("raw", 500, 10000, boxed!(raw_stop)),
        fam("closed", 200, 4000, boxed!(closed)),
        fam("server", 200, 4000, boxed!(server)),
        fam_multi("threads", 3, 40, boxed!(threads)),
    ]
}

/// (connection id as the handler sees it is unknown, so events carry unique tokens)
type Runs = Arc<Mutex<HashMap<u64, u32>>>;

/// Where the stop comes from
#[derive(Clone, Copy, Debug, PartialEq)]
enum From {
    Here,
    Task,
    Handler,
    Several,
}

both!(raw_stop, raw_stop_);
async fn raw_stop_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let runs: Runs = Default::default();
    let stopped: Arc<Mutex<Vec<Result<(), String>>>> = Default::default();
    let (r1, s1) = (runs.clone(), stopped.clone());
    let b = net
        .builder()
        .timeout(secs(20))
        .on("h", hnd(move |_: &Ctx, e: Event| {
            let r = r1.clone();
            Box::pin(async move {
                *r.lock().unwrap().entry(token_of(e.data_raw()).unwrap_or(0)).or_insert(0) += 1;
                Ok(Response::empty())
            })
        }))
        .on("stop", hnd(move |ctx: &Ctx, _e: Event| {
            let (s, ctx) = (s1.clone(), ctx.clone());
            Box::pin(async move {
                let x = ctx.stop().await.map_err(|e| format!("{:?}", e));
                s.lock().unwrap().push(x);
                Ok(Response::empty())
            })
        }));
    let n = if r.chance(500) { 1 } else { r.range(2, 4) as usize };
    let cfg = if r.chance(200) { LinkCfg::tight(&mut r) } else { LinkCfg::random(&mut r, true) };
    let (pool, raws) = if n == 1 && r.chance(700) {
        let (c, raw) = net.raw_server(b, &cfg).await?;
        (Err(c), vec![raw])
    } else {
        let (p, raws) = mesh::raw_pool(&net, b, &cfg, n).await?;
        (Ok(p), raws)
    };
    let ctxs: Vec<Ctx> = match &pool {
        Err(c) => vec![c.clone()],
        Ok(p) => {
            // the guards are only needed to get at all connections
            let g: Vec<_> = (0..n).map(|_| p.acquire()).collect();
            g.iter().map(|g| (**g).clone()).collect()
        }
    };
    // which context belongs to which connection
    let mut which = vec![];
    for (i, c) in ctxs.iter().enumerate() {
        if let Err(e) = c.emit(format!("i{}", i), bp(vec![0])).await {
            return viol("emit", format!("{:?}", e));
        }
    }
    net.settle(secs(5)).await;
    for i in 0..n {
        let k = raws.iter().position(|x| x.frames().iter().any(|f| f.name == format!("i{}", i)));
        match k {
            Some(k) if !which.contains(&k) => which.push(k),
            _ => return viol("pool", format!("acquiring {} times from {} idle connections did not give each once", n, n)),
        }
    }
    let v = r.idx(n);
    let (victim, raw) = (ctxs[v].clone(), raws[which[v]].clone());
    let what = format!("{} {} of {} connections", T::NAME, if pool.is_ok() { "pool" } else { "client" }, n);
    let mut id = 100u64;
    let mut init = |id: &mut u64, r: &mut Rng| {
        *id += 1;
        let t = mesh::uniq(r);
        (t, Frame::new(codec::INIT, *id, None, None, "h", token_payload(t, r.clone().len(400))))
    };
    // before: everything works
    let mut before = vec![];
    for _ in 0..r.idx(6) {
        let (t, f) = init(&mut id, &mut r);
        let _ = raw.frame(&f).await;
        before.push(t);
    }
    // operations that are going on
    let k = r.idx(4);
    let mut waits = vec![];
    let pend_to = ms(r.range(5_000, 40_000));
    for j in 0..k {
        let c = victim.clone();
        let streaming = r.chance(400);
        waits.push(tokio::spawn(async move {
            let m = c.emit(format!("w{}", j), bp(vec![j as u8]));
            let t = Instant::now();
            if streaming {
                match m.stream_replies().with_timeout(pend_to).await {
                    Ok(mut s) => (next(&mut s).await.map(|x| x.map(|e| e.data_raw().to_vec())), t.elapsed()),
                    Err(e) => (Some(Err(e)), t.elapsed()),
                }
            } else {
                (Some(m.await_reply().with_timeout(pend_to).await.map(|e| e.data_raw().to_vec())), t.elapsed())
            }
        }));
    }
    raw.until(secs(50), |f| f.iter().filter(|x| x.0.name.starts_with('w')).count() == k).await;
    let asked: Vec<u64> = raw.frames().iter().filter(|f| f.name.starts_with('w')).map(|f| f.id).collect();
    ensure!(asked.len() == k, "emit", "{}: only {} of {} requests arrived", what, asked.len(), k);
    // operations that are going on on other connections of the pool
    let mut elsewhere = vec![];
    for j in 0..if n > 1 { r.idx(4) } else { 0 } {
        let i = (v + 1 + r.idx(n - 1)) % n;
        let c = ctxs[i].clone();
        let streaming = r.chance(500);
        let h = tokio::spawn(async move {
            let m = c.emit(format!("o{}", j), bp(vec![j as u8]));
            let mut out = vec![];
            if streaming {
                let mut s = m.stream_replies().with_timeout(secs(3000)).await?;
                while let Some(x) = next(&mut s).await {
                    out.push(x?.data_raw().to_vec());
                }
            } else {
                out.push(m.await_reply().with_timeout(secs(3000)).await?.data_raw().to_vec());
            }
            Ok::<_, bromine::error::Error>(out)
        });
        let rw = raws[which[i]].clone();
        let nm = format!("o{}", j);
        rw.until(secs(50), |f| f.iter().any(|x| x.0.name == nm)).await;
        let q = match rw.frames().iter().find(|f| f.name == nm) {
            Some(f) => f.id,
            None => return viol("emit", format!("{}: a request on connection {} did not arrive", what, i)),
        };
        let mut want = vec![];
        if streaming && r.chance(500) {
            // one item before the stop
            id += 1;
            want.push(vec![7, j as u8]);
            let _ = rw.frame(&Frame::new(codec::RESP, id, Some(q), None, "i", vec![7, j as u8])).await;
        }
        elsewhere.push((h, rw, q, want));
    }
    // an unread stream that blocks the receiving
    let mut unread = None;
    if r.chance(150) {
        match victim.emit("u", bp(vec![])).stream_replies().with_timeout(secs(60)).await {
            Ok(s) => unread = Some(s),
            Err(e) => return viol("emit", format!("{:?}", e)),
        }
        raw.until(secs(50), |f| f.iter().any(|x| x.0.name == "u")).await;
        let uid = raw.frames().iter().find(|f| f.name == "u").map(|f| f.id).unwrap_or(0);
        let mut all = vec![];
        for _ in 0..r.range(5, 20) {
            id += 1;
            all.extend(Frame::new(codec::RESP, id, Some(uid), None, "i", vec![1]).encode());
        }
        let raw = raw.clone();
        tokio::spawn(async move { raw.send(&all).await });
    }
    if r.chance(700) {
        net.settle(secs(5)).await;
    }
    let frm = *r.pick(&[From::Here, From::Here, From::Task, From::Handler, From::Several]);
    let frm = if unread.is_some() && frm == From::Handler { From::Here } else { frm };
    // events arrive around the stop
    let mut around = vec![];
    let mut stream = vec![];
    if unread.is_none() {
        for _ in 0..r.idx(30) {
            let (t, f) = init(&mut id, &mut r);
            stream.extend(f.encode());
            around.push(t);
        }
    }
    let (raw2, mut r2) = (raw.clone(), r.fork());
    let sender = tokio::spawn(async move {
        let _ = raw2.send_chunked(&stream, &mut r2).await;
    });
    if r.chance(500) {
        sleep(us(r.range(0, 10_000))).await;
    }
    let check = |x: Result<(), String>| -> R {
        match x {
            Ok(()) => Ok(()),
            Err(e) => viol("stop", format!("{}: stopping from {:?} failed: {}", what, frm, e)),
        }
    };
    match frm {
        From::Here => check(victim.clone().stop().await.map_err(|e| format!("{:?}", e)))?,
        From::Task => {
            let c = victim.clone();
            check(tokio::spawn(async move { c.stop().await }).await.unwrap().map_err(|e| format!("{:?}", e)))?
        }
        From::Several => {
            let js: Vec<_> = (0..r.range(2, 5))
                .map(|_| {
                    let c = victim.clone();
                    tokio::spawn(async move { c.stop().await })
                })
                .collect();
            for j in js {
                check(j.await.unwrap().map_err(|e| format!("{:?}", e)))?
            }
        }
        From::Handler => {
            id += 1;
            let _ = sender.await;
            let _ = raw.frame(&Frame::new(codec::INIT, id, None, None, "stop", vec![])).await;
            for _ in 0..600 {
                if !stopped.lock().unwrap().is_empty() {
                    break;
                }
                sleep(ms(100)).await;
            }
            let x = stopped.lock().unwrap().first().cloned();
            match x {
                Some(x) => check(x)?,
                None => return viol("not-handled", format!("{}: the stopping handler did not run", what)),
            }
        }
    }
    let t_stop = Instant::now();
    // the clock moves when every task has been idle: now it has taken effect
    sleep(ms(*r.pick(&[1, 1, 10, 1000]))).await;
    let after_runs = runs.lock().unwrap().clone();
    for t in &before {
        ensure!(after_runs.get(t).copied().unwrap_or(0) <= 1, "ran-twice", "{}: an event was handled twice", what);
    }
    let mut late = vec![];
    for _ in 0..r.range(1, 8) {
        let (t, f) = init(&mut id, &mut r);
        late.push(t);
        let raw = raw.clone();
        tokio::spawn(async move {
            let _ = raw.frame(&f).await;
        });
    }
    for a in &asked {
        id += 1;
        let f = Frame::new(codec::END, id, Some(*a), None, "end", b"late".to_vec());
        let raw = raw.clone();
        tokio::spawn(async move {
            let _ = raw.frame(&f).await;
        });
    }
    // what is started now on the stopped connection ends, too
    let t = Instant::now();
    let x = victim.emit("w9", bp(vec![])).await_reply().with_timeout(secs(4)).await;
    ensure!(x.is_err(), "wait", "{}: a request on a stopped connection got a reply", what);
    // writing goes as fast as the transport allows, which may be slow
    ensure!(t.elapsed() < secs(600), "late", "{}: a request on a stopped connection took {:?}", what, t.elapsed());
    for _ in 0..r.idx(3) {
        check(victim.clone().stop().await.map_err(|e| format!("again: {:?}", e)))?;
    }
    for w in waits {
        match w.await {
            Ok((Some(Ok(d)), _)) => return viol("wait", format!("{}: a wait was satisfied with {:?} after the stop", what, String::from_utf8_lossy(&d))),
            Ok((_, t)) => ensure!(t < pend_to + secs(120), "late", "{}: a wait with a timeout of {:?} ended after {:?}", what, pend_to, t),
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    // the other connections
    sc.count("operations on other connections of the pool", elsewhere.len() as u64);
    for (j, (h, rw, q, mut want)) in elsewhere.into_iter().enumerate() {
        id += 1;
        want.push(vec![8, j as u8]);
        let _ = rw.frame(&Frame::new(codec::END, id, Some(q), None, "end", vec![8, j as u8])).await;
        match h.await {
            Ok(Ok(x)) => ensure!(x == want, "others", "{}: an operation on another connection of the pool got {:?} instead of {:?}", what, x, want),
            Ok(Err(e)) => return viol("others", format!("{}: an operation on another connection of the pool ended with {:?}", what, e)),
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    for i in 0..n {
        if i == v {
            continue;
        }
        let rw = raws[which[i]].clone();
        let (t, f) = init(&mut id, &mut r);
        if rw.frame(&f).await.is_err() {
            return viol("others", format!("{}: another connection of the pool broke", what));
        }
        let rw2 = rw.clone();
        let ans = tokio::spawn(async move {
            rw2.until(secs(1000), |f| f.iter().any(|x| x.0.name == "q")).await;
            let f = rw2.frames().into_iter().find(|f| f.name == "q");
            if let Some(f) = f {
                let _ = rw2.frame(&Frame::new(codec::END, 9999, Some(f.id), None, "end", b"fine".to_vec())).await;
            }
        });
        match ctxs[i].emit("q", bp(vec![])).await_reply().with_timeout(secs(1000)).await {
            Ok(e) if e.data_raw() == b"fine" => {}
            x => return viol("others", format!("{}: a request on another connection of the pool gave {:?}", what, x.map(|e| e.data_raw().len()))),
        }
        let _ = ans.await;
        net.settle(secs(2)).await;
        ensure!(runs.lock().unwrap().get(&t) == Some(&1), "others", "{}: an event on another connection of the pool was not handled once", what);
        ensure!(rw.closed().is_none(), "others", "{}: another connection of the pool was closed", what);
    }
    net.settle(secs(5)).await;
    let end_runs = runs.lock().unwrap().clone();
    for t in &late {
        ensure!(!end_runs.contains_key(t), "handled", "{}: a handler ran {:?} after the stop from {:?}", what, t_stop.elapsed(), frm);
    }
    for t in around.iter().chain(before.iter()) {
        ensure!(end_runs.get(t).copied().unwrap_or(0) == after_runs.get(t).copied().unwrap_or(0), "handled", "{}: a handler ran for an event after the stop had taken effect", what);
    }
    // all handles go
    drop(unread);
    let keep = r.chance(300);
    if keep {
        ensure!(raws[which[v]].bad().is_none(), "bad-frame", "{}: {:?}", what, raws[which[v]].bad());
    }
    let others: Vec<Ctx> = ctxs.into_iter().enumerate().filter(|x| x.0 != v).map(|x| x.1).collect();
    drop(victim);
    // the pool itself holds the connection
    drop(pool);
    let l = net.link(which[v]);
    l.calm();
    let ok = raw.wait_closed(secs(60)).await;
    ensure!(ok, "not-closed", "{}: all handles are gone but the connection is not closed", what);
    for (i, c) in others.iter().enumerate() {
        if let Err(e) = c.emit("still", bp(vec![])).await {
            return viol("others", format!("{}: connection {} broke: {:?}", what, i, e));
        }
    }
    sc.count("events around the stop", around.len() as u64);
    sc.count("of them handled", around.iter().filter(|t| end_runs.contains_key(t)).count() as u64);
    sc.count(&format!("stopped from {:?}", frm), 1);
    sc.case(Some(mix(sc.seed, n as u64)), || {
        format!("{}: {} before, {} around, {} after the stop from {:?}; {} pending; {}", what, before.len(), around.len(), late.len(), frm, k, cfg.desc())
    });
    Ok(())
}

both!(closed, closed_);
/// The connection is gone already
async fn closed_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let cfg = LinkCfg::random(&mut r, true);
    let (ctx, raw) = net.raw_server(net.builder(), &cfg).await?;
    let how = r.below(5);
    let wait = r.chance(700);
    let racing = if how == 4 {
        let c = ctx.clone();
        Some(tokio::spawn(async move { c.stop().await }))
    } else {
        None
    };
    match how {
        0 => raw.close().await,
        1 => net.link(0).break_now(),
        2 => raw.shutdown().await,
        3 => {
            let b = r.bytes(300);
            let _ = raw.send(&b).await;
        }
        _ => raw.close().await,
    }
    if wait {
        sleep(ms(r.range(0, 2000))).await;
        let _ = ctx.emit("x", bp(vec![1, 2, 3])).await;
    }
    let k = r.range(1, 4);
    for i in 0..k {
        match tokio::time::timeout(secs(5), ctx.clone().stop()).await {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return viol("stop", format!("{}: stop {} after the connection was closed ({}): {:?}", T::NAME, i, how, e)),
            Err(_) => return viol("stop", format!("{}: stop {} after the connection was closed ({}) did not return", T::NAME, i, how)),
        }
        if r.chance(500) {
            sleep(ms(r.range(0, 100))).await;
        }
    }
    if let Some(j) = racing {
        match j.await {
            Ok(Ok(())) => {}
            x => return viol("stop", format!("{}: stopping while the connection is closed: {:?}", T::NAME, x)),
        }
    }
    sc.case(Some(mix(sc.seed, k)), || format!("{}: closed by {} and stopped {} times, {}", T::NAME, how, k, cfg.desc()));
    drop(ctx);
    let l = net.link(0);
    l.calm();
    sleep(secs(1)).await;
    ensure!(l.c2s.write_closed(), "not-closed", "{}: the connection was not closed by the client", T::NAME);
    Ok(())
}

fn echo(ctx: &Ctx, e: Event) -> HFut<'_> {
    Box::pin(async move { Response::payload(ctx, bp(e.data_raw().to_vec())) })
}

/// Requests until the end of the given number, all have to be answered
async fn load(ctx: Ctx, mut r: Rng, n: u64) -> Result<(), String> {
    for i in 0..n {
        let t = mesh::uniq(&mut r);
        let p = token_payload(t, r.len(800));
        match ctx.emit("echo", bp(p.clone())).await_reply().with_timeout(secs(3000)).await {
            Ok(e) if e.data_raw() == p => {}
            x => return Err(format!("request {} gave {:?}", i, x.map(|e| e.data_raw().len()))),
        }
        if r.chance(200) {
            sleep(us(r.range(0, 3000))).await;
        }
    }
    Ok(())
}

both!(server, server_);
/// Several clients and pools of one server; some are stopped in the middle of their work
async fn server_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let asks: Arc<Mutex<Vec<(bool, std::time::Duration)>>> = Default::default();
    let a1 = asks.clone();
    let b = net.builder().timeout(secs(30)).on("echo", hnd(echo)).on("ask", hnd(move |ctx: &Ctx, _e: Event| {
        let a = a1.clone();
        Box::pin(async move {
            let t = Instant::now();
            let x = ctx.emit("back", bp(vec![1])).await_reply().with_timeout(secs(50)).await;
            a.lock().unwrap().push((x.is_ok(), t.elapsed()));
            Ok(Response::empty())
        })
    }));
    let srv = net.serve(b).await;
    let n = r.range(2, 5) as usize;
    let mut clients = vec![];
    let late: Arc<Mutex<Vec<u32>>> = Default::default();
    for i in 0..n {
        let cfg = LinkCfg::random(&mut r, true);
        let l2 = late.clone();
        let b = net.builder().on("back", hnd(move |_: &Ctx, _: Event| {
            let l = l2.clone();
            Box::pin(async move {
                l.lock().unwrap().push(i as u32);
                Ok(Response::empty())
            })
        }));
        clients.push(net.client(b, &cfg).await?);
    }
    let n_stop = 1 + r.idx(n - 1);
    let mut good = vec![];
    let mut bad = vec![];
    for (i, c) in clients.iter().enumerate() {
        let k = r.range(3, 15);
        let j = tokio::spawn(load(c.clone(), r.fork(), k));
        if i < n_stop {
            // also make the server ask this client
            let _ = c.emit("ask", bp(vec![])).await;
            bad.push(j)
        } else {
            good.push(j)
        }
    }
    sleep(us(r.range(0, 20_000))).await;
    for c in clients.iter().take(n_stop) {
        for _ in 0..r.range(1, 3) {
            if let Err(e) = c.clone().stop().await {
                return viol("stop", format!("{}: {:?}", T::NAME, e));
            }
        }
    }
    for j in good {
        match j.await {
            Ok(Ok(())) => {}
            x => return viol("others", format!("{}: a client that was not stopped: {:?}", T::NAME, x)),
        }
    }
    ensure!(srv.alive(), "server-ended", "{}: the server ended", T::NAME);
    for j in bad {
        j.abort();
        let _ = j.await;
    }
    net.settle(secs(60)).await;
    for (i, c) in clients.iter().enumerate().skip(n_stop) {
        late.lock().unwrap().clear();
        let x = c.emit("ask", bp(vec![])).await;
        net.settle(secs(60)).await;
        ensure!(x.is_ok() && late.lock().unwrap().as_slice() == [i as u32], "others", "{}: client {} of {} no longer works: {:?}", T::NAME, i, n, x.err());
    }
    let stopped: Vec<Ctx> = clients.drain(..n_stop).collect();
    drop(stopped);
    net.calm();
    sleep(secs(200)).await;
    for i in 0..n_stop {
        let l = net.link(i);
        ensure!(l.c2s.write_closed() && l.s2c.read_closed(), "not-closed", "{}: a stopped client did not close its connection", T::NAME);
        ensure!(l.s2c.write_closed(), "not-closed", "{}: the server keeps the connection of a stopped client", T::NAME);
    }
    let new = net.client(net.builder(), &LinkCfg::default()).await?;
    if let Err(m) = load(new, r.fork(), 2).await {
        return viol("others", format!("{}: a new client: {}", T::NAME, m));
    }
    sc.count("clients stopped", n_stop as u64);
    sc.case(Some(mix(sc.seed, n as u64)), || format!("{}: {} of {} clients stopped while working", T::NAME, n_stop, n));
    Ok(())
}

/// Real threads: stops race with each other, with traffic and with the peer closing
async fn threads(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    for round in 0..if sc.thorough { 300 } else { 80 } {
        let net = Net::<Plain>::new(&mut r);
        let (ctx, raw) = net.raw_server(net.builder().timeout(ms(300)), &LinkCfg::default()).await?;
        let k = r.range(2, 6);
        let mut js = vec![];
        for _ in 0..k {
            let c = ctx.clone();
            js.push(tokio::spawn(async move { c.stop().await }));
        }
        let c = ctx.clone();
        let em = tokio::spawn(async move { c.emit("x", bp(vec![1; 100])).await_reply().with_timeout(ms(50)).await });
        if r.chance(400) {
            raw.close().await;
        }
        for j in js {
            match j.await {
                Ok(Ok(())) => {}
                x => return viol("stop", format!("round {}: {:?}", round, x)),
            }
        }
        match em.await {
            Ok(x) => ensure!(x.is_err(), "wait", "a request got a reply from nobody"),
            Err(e) => return viol("panic", format!("{}", e)),
        }
        drop(ctx);
        let l = net.link(0);
        let end = std::time::Instant::now() + secs(20);
        while !l.c2s.write_closed() {
            ensure!(std::time::Instant::now() < end, "not-closed", "round {}: the connection is not closed 20 s after the last handle is gone", round);
            sleep(ms(1)).await;
        }
        sc.case(Some(mix(sc.seed, round)), || format!("{} concurrent stops, round {}", k, round));
    }
    Ok(())
}
