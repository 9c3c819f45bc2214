//! C12: timeouts, in virtual time
use crate::codec::{self, Frame};
use crate::core::*;
use crate::fix::*;
use crate::mesh::*;
use crate::rng::*;
use crate::sim::*;
use crate::{bail, both, boxed, ensure};
use bromine::error::Error;
use bromine::event::Event;
use bromine::prelude::*;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;
use tokio::time::Instant;

pub fn fams() -> Vec<Fam> {
    vec![
        fam("waits", 2500, 30000, boxed!(waits)),
        fam("streams", 2000, 24000, boxed!(streams)),
        fam("nested", 600, 8000, boxed!(nested)),
        fam("slow_emit", 400, 8000, boxed!(slow_emit)),
        fam("long", 500, 8000, boxed!(long)),
    ]
}

/// Sets a timeout; of several ones the last is meant
macro_rules! timed {
    ($e:expr, $t:expr) => {{
        let t: Duration = $t;
        let n = t.as_nanos() % 7;
        let e = if n == 0 || n == 2 { $e.with_timeout(secs(100)) } else { $e };
        let e = if n < 2 { e.with_timeout(t / 3) } else { e };
        e.with_timeout(t)
    }};
}

/// Timers are exact to a millisecond
const TOL: Duration = Duration::from_millis(4);

fn rnd_timeout(r: &mut Rng) -> Duration {
    match r.below(9) {
        8 => *r.pick(&[Duration::ZERO, us(1), Duration::from_nanos(1), us(900), ms(1), ms(5)]),
        0 => ms(r.range(10, 100)),
        1 => us(r.range(10_000, 900_000)),
        2 | 3 => ms(r.range(100, 5000)),
        4 => secs(r.range(1, 70)),
        5 => secs(60),
        6 => secs(r.range(70, 3000)),
        _ => ms(r.range(59_000, 61_000)),
    }
}

/// A client or a pooled one; the builder's timeout may stay unset
async fn client<T: Tp>(net: &Net<T>, w: &Arc<World>, r: &mut Rng, cfg: &LinkCfg) -> R<(Vec<Ctx>, Vec<Raw>, Option<PooledContext>, Duration)> {
    let mut b = w.on_all(net.builder(), 1, &vec![(None, "late".into()), (None, "error".into())]);
    let mut t = secs(60);
    for _ in 0..r.idx(3) {
        t = rnd_timeout(r);
        b = b.timeout(t);
    }
    if r.chance(300) {
        let n = r.few();
        let (p, raws) = raw_pool(net, b, cfg, n).await?;
        Ok(((0..n).map(|_| (*p.acquire()).clone()).collect(), raws, Some(p), t))
    } else {
        let (c, raw) = net.raw_server(b, cfg).await?;
        Ok((vec![c], vec![raw], None, t))
    }
}

async fn find(raws: &[Raw], tok: u64) -> Option<(usize, Frame)> {
    for _ in 0..200 {
        for (i, raw) in raws.iter().enumerate() {
            if let Some(f) = raw.frames().into_iter().find(|f| token_of(&f.data) == Some(tok)) {
                return Some((i, f));
            }
        }
        tokio::task::yield_now().await;
    }
    None
}

both!(waits, waits_);
/// Concurrent waits with replies before, after, or without end of the timeout
async fn waits_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let w = World::new();
    let (ctxs, raws, pool, default) = client(&net, &w, &mut r, &LinkCfg::default()).await?;
    let k = r.range(1, 8);
    let mut joins = vec![];
    for i in 0..k {
        let ctx = r.pick(&ctxs).clone();
        let raws = raws.clone();
        let own = if r.chance(600) { Some(rnd_timeout(&mut r)) } else { None };
        let t = own.unwrap_or(default);
        let tok = uniq(&mut r);
        let huge = r.chance(50);
        let t = if huge { secs(9000) } else { t };
        // when the reply is sent: before, long after, or never
        let at = match r.below(5) {
            0 => None,
            _ if t < ms(10) => Some(t + TOL + ms(r.range(0, 30))),
            1 => Some(t + TOL + ms(r.range(0, 3000))),
            2 => Some(t.saturating_sub(ms(r.range(3, 9)))),
            3 => Some(Duration::ZERO),
            _ => Some(Duration::from_micros(r.below(t.as_micros().saturating_sub(3000).max(1) as u64))),
        };
        let start = ms(r.range(0, 2000));
        let ty = *r.pick(&[codec::RESP, codec::END, codec::ERR]);
        let conn = r.idx(raws.len());
        let rid = r.next();
        joins.push(tokio::spawn(async move {
            sleep(start).await;
            let e = ctx.emit("q", bp(token_payload(tok, 5))).await_reply();
            let e = if huge {
                e.with_timeout(Duration::MAX)
            } else if let Some(t) = own {
                timed!(e, t)
            } else {
                e
            };
            let t0 = Instant::now();
            let wait = tokio::spawn(async move {
                let x = tokio::time::timeout(secs(9500), e).await;
                (x, Instant::now())
            });
            let (_, f) = match find(&raws, tok).await {
                Some(x) => x,
                None => return viol("request", "the request was not sent at once on an ideal transport"),
            };
            if let Some(at) = at {
                sleep(at).await;
                let d = if ty == codec::ERR { err_payload(77, b"late") } else { token_payload(tok, 6) };
                let name = if ty == codec::ERR { "error" } else { "late" };
                let _ = raws[conn].frame(&Frame::new(ty, rid, Some(f.id), None, name, d)).await;
            }
            let (x, at_end) = match wait.await {
                Ok(x) => x,
                Err(e) => return viol("panic", format!("{}", e)),
            };
            let took = at_end - t0;
            let in_time = at.map(|a| a < t || huge).unwrap_or(false);
            let what = format!("timeout {:?} ({}), reply {:?}, took {:?}", t, if own.is_some() { "own" } else { "builder's" }, at, took);
            match x {
                Err(_) => {
                    ensure!(huge && !in_time, "no-timeout", "{}: neither reply nor timeout", what);
                }
                Ok(Ok(e)) => {
                    ensure!(in_time && ty != codec::ERR, "late-delivered", "{}: delivered after the timeout", what);
                    ensure!(token_of(e.data_raw()) == Some(tok) && e.id() == rid, "other-reply", "{}: got another reply", what);
                    ensure!(took >= at.unwrap() && took <= at.unwrap() + TOL, "delay", "{}: delivered late", what);
                }
                Ok(Err(Error::ErrorEvent(d))) => ensure!(in_time && ty == codec::ERR && d.code == 77, "late-delivered", "{}: got the error {:?}", what, d),
                Ok(Err(Error::Timeout)) => {
                    ensure!(!in_time, "lost", "{}: timed out although the reply came in time", what);
                    ensure!(took >= t, "too-early", "{}: timed out too early", what);
                    ensure!(took <= t + TOL, "too-late", "{}: timed out too late", what);
                }
                Ok(Err(e)) => bail!("wrong-error", "{}: ended with {:?}", what, e),
            }
            let _ = i;
            Ok((tok, f.id, rid, !in_time && at.is_some() && !huge, ty, what))
        }));
    }
    let mut late = vec![];
    let mut descs = vec![];
    for j in joins {
        match j.await {
            Ok(x) => {
                let (tok, id, rid, is_late, ty, what) = x?;
                if is_late && ty != codec::END {
                    late.push((tok, id, rid));
                }
                descs.push(what);
            }
            Err(e) => bail!("panic", "{}", e),
        }
    }
    sleep(secs(5)).await;
    // replies that came too late are events nobody waited for
    let runs = w.runs();
    for (tok, _, rid) in &late {
        let n = runs.iter().filter(|x| x.id == *rid).count();
        ensure!(n == 1, "late-handled", "a reply {:x} that came too late was handled {} times", tok, n);
        let fin = raws.iter().flat_map(|x| x.frames()).filter(|f| f.ref_id == Some(*rid) && f.ty >= codec::END).count();
        ensure!(fin == 1, "late-handled", "a reply that came too late got {} final replies", fin);
    }
    ensure!(runs.len() == late.len(), "late-handled", "{} handler runs for {} late replies", runs.len(), late.len());
    sc.count("waits", k);
    sc.count("late replies", late.len() as u64);
    drop(pool);
    sc.case(Some(hash_bytes(descs.join(",").as_bytes())), || format!("{}: {}", T::NAME, descs.join("; ")));
    Ok(())
}

both!(streams, streams_);
/// Every wait for a next reply has the whole timeout
async fn streams_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let w = World::new();
    let (ctxs, raws, pool, default) = client(&net, &w, &mut r, &LinkCfg::default()).await?;
    let k = r.range(1, 5);
    let mut joins = vec![];
    for _ in 0..k {
        let ctx = r.pick(&ctxs).clone();
        let raws = raws.clone();
        let own = if r.chance(600) { Some(rnd_timeout(&mut r)) } else { None };
        let t = own.unwrap_or(default).min(secs(400));
        let own = if own.is_some() || default > secs(400) { Some(t) } else { None };
        let tok = uniq(&mut r);
        let mut r2 = r.fork();
        joins.push(tokio::spawn(async move {
            let e = ctx.emit("q", bp(token_payload(tok, 5))).stream_replies();
            let e = match own {
                Some(t) => timed!(e, t),
                None => e,
            };
            let t0 = Instant::now();
            let mut s = match tokio::time::timeout(secs(9500), e).await {
                Ok(Ok(s)) => s,
                x => return viol("emit", format!("{:?}", x.map(|y| y.map(|_| ())))),
            };
            ensure!(t0.elapsed() <= TOL, "delay", "creating the stream took {:?}", t0.elapsed());
            let (_, f) = match find(&raws, tok).await {
                Some(x) => x,
                None => return viol("request", "the request was not sent"),
            };
            let raw = r2.pick(&raws).clone();
            let n = if t < ms(10) { 0 } else { r2.idx(6) };
            let mut hist = vec![];
            // waiting does not start before the first call of next
            let idle = if r2.chance(400) { ms(r2.range(0, 2 * t.as_millis() as u64)) } else { Duration::ZERO };
            sleep(idle).await;
            for i in 0..n {
                let at = match r2.below(3) {
                    0 => Duration::ZERO,
                    1 => t.saturating_sub(ms(r2.range(3, 9))),
                    _ => Duration::from_micros(r2.below(t.as_micros().saturating_sub(3000).max(1) as u64)),
                };
                let (raw2, id) = (raw.clone(), f.id);
                let rid = r2.next();
                let send = tokio::spawn(async move {
                    sleep(at).await;
                    raw2.frame(&Frame::new(codec::RESP, rid, Some(id), None, "late", token_payload(tok, 6))).await
                });
                let t1 = Instant::now();
                let x = tokio::time::timeout(secs(9500), next(&mut s)).await;
                let took = t1.elapsed();
                let what = format!("reply {} comes after {:?} of {:?}, next took {:?}", i, at, t, took);
                match x {
                    Ok(Some(Ok(e))) => {
                        ensure!(e.id() == rid, "other-reply", "{}: another reply", what);
                        ensure!(took >= at && took <= at + TOL, "delay", "{}", what);
                    }
                    Ok(Some(Err(e))) => bail!("lost", "{}: {:?}", what, e),
                    Ok(None) => bail!("lost", "{}: the stream ended", what),
                    Err(_) => bail!("no-timeout", "{}: nothing happens", what),
                }
                let _ = send.await;
                hist.push(at);
                if r2.chance(300) {
                    // time between the waits does not count
                    sleep(t + ms(r2.range(0, 500))).await;
                }
            }
            let finish = t >= ms(10) && r2.chance(300);
            let mut late = None;
            if finish {
                let _ = raw.frame(&Frame::new(codec::END, 1, Some(f.id), None, "end", vec![])).await;
                match next(&mut s).await {
                    Some(Ok(e)) => ensure!(evt_ty(e.event_type()) == codec::END, "stream", "{:?}", e),
                    x => bail!("lost", "the final reply was not delivered: {:?}", x.map(|y| y.map(|e| e.id()))),
                }
            } else {
                // no reply: exactly the timeout, from the start of the wait
                let t1 = Instant::now();
                let how = if t < ms(10) { 1 } else { r2.below(3) };
                let x = match how {
                    0 => {
                        // a wait that is given up and taken up again is one wait
                        let _ = tokio::time::timeout(t / 2, next(&mut s)).await;
                        tokio::time::timeout(secs(9500), next(&mut s)).await
                    }
                    _ => tokio::time::timeout(secs(9500), next(&mut s)).await,
                };
                let took = t1.elapsed();
                let what = format!("no reply, timeout {:?}, next took {:?} (given up in between: {})", t, took, how == 0);
                match x {
                    Ok(Some(Err(Error::Timeout))) => {
                        ensure!(took >= t, "too-early", "{}", what);
                        let max = if how == 0 { t + t / 2 + TOL } else { t + TOL };
                        ensure!(took <= max, "too-late", "{}", what);
                    }
                    Ok(x) => bail!("wrong-error", "{}: {:?}", what, x.map(|y| y.map(|e| e.id()))),
                    Err(_) => bail!("no-timeout", "{}: nothing happens", what),
                }
                let tl = r2.next();
                if r2.chance(600) {
                    let _ = raw.frame(&Frame::new(codec::RESP, tl, Some(f.id), None, "late", token_payload(tok, 9))).await;
                    late = Some(tl);
                }
                sleep(ms(r2.range(0, 100))).await;
            }
            for _ in 0..3 {
                match tokio::time::timeout(secs(9500), next(&mut s)).await {
                    Ok(None) => {}
                    Ok(Some(x)) => bail!("after-end", "a stream that is over yields {:?}", x.map(|e| e.id())),
                    Err(_) => bail!("after-end", "polling a stream that is over never completes"),
                }
            }
            Ok((late, hist, t))
        }));
    }
    let mut lates = vec![];
    let mut desc = vec![];
    for j in joins {
        match j.await {
            Ok(x) => {
                let (l, h, t) = x?;
                lates.extend(l);
                desc.push((t, h));
            }
            Err(e) => bail!("panic", "{}", e),
        }
    }
    sleep(secs(2)).await;
    let runs = w.runs();
    for l in &lates {
        let n = runs.iter().filter(|x| x.id == *l).count();
        ensure!(n == 1, "late-handled", "a streamed reply that came after the timeout was handled {} times", n);
    }
    ensure!(runs.len() == lates.len(), "late-handled", "{} handler runs for {} late replies", runs.len(), lates.len());
    drop(pool);
    sc.count("streams", k);
    sc.case(Some(hash_bytes(format!("{:?}", desc).as_bytes())), || format!("{}: streams (timeout, times of replies) {:?}", T::NAME, desc));
    Ok(())
}

both!(nested, nested_);
/// The timeout of a server applies to what its handlers wait for
async fn nested_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let out: Arc<Mutex<Vec<(String, Duration)>>> = Default::default();
    let o2 = out.clone();
    let mut b = net.builder();
    let mut t = secs(60);
    for _ in 0..r.idx(3) {
        t = rnd_timeout(&mut r);
        b = b.timeout(t);
    }
    let own = if r.chance(400) { Some(rnd_timeout(&mut r)) } else { None };
    let stream = r.chance(500);
    let b = b.namespace("n").on("go", move |ctx: &Ctx, _: Event| {
        let (ctx, o2) = (ctx.clone(), o2.clone());
        Box::pin(async move {
            let t0;
            let res = if stream {
                let e = ctx.emit("q", bp(vec![])).stream_replies();
                let mut s = match own {
                    Some(t) => timed!(e, t),
                    None => e,
                }
                .await?;
                t0 = Instant::now();
                match next(&mut s).await {
                    Some(Ok(_)) => "reply",
                    Some(Err(Error::Timeout)) => "timeout",
                    _ => "other",
                }
            } else {
                let e = ctx.emit("q", bp(vec![])).await_reply();
                let e = match own {
                    Some(t) => timed!(e, t),
                    None => e,
                };
                t0 = Instant::now();
                match e.await {
                    Ok(_) => "reply",
                    Err(Error::Timeout) => "timeout",
                    _ => "other",
                }
            };
            o2.lock().unwrap().push((res.to_string(), t0.elapsed()));
            Ok(Response::empty())
        }) as HFut
    });
    let _srv = net.serve(b.build()).await;
    let want = own.unwrap_or(t);
    let raw = net.raw_client(&LinkCfg::default()).await?;
    raw.frame(&Frame::new(codec::INIT, 1, None, Some("n"), "go", vec![])).await.ok();
    ensure!(raw.wait_n(1, secs(5)).await, "request", "the handler's request was not sent");
    let q = raw.frames()[0].clone();
    let at = match r.below(3) {
        0 => None,
        1 if want >= ms(10) => Some(want.saturating_sub(ms(r.range(3, 9)))),
        _ => Some(want + TOL),
    };
    if let Some(a) = at {
        let raw = raw.clone();
        tokio::spawn(async move {
            sleep(a).await;
            let _ = raw.frame(&Frame::new(codec::END, 2, Some(q.id), None, "end", vec![])).await;
        });
    }
    sleep(want + secs(5)).await;
    let o = out.lock().unwrap().clone();
    ensure!(o.len() == 1, "no-timeout", "the wait of a handler did not end within {:?} and 5 s", want);
    let in_time = at.map(|a| a < want).unwrap_or(false);
    let what = format!("timeout {:?} (own {:?}), reply at {:?}: {:?}", want, own, at, o[0]);
    ensure!(o[0].0 == if in_time { "reply" } else { "timeout" }, if in_time { "lost" } else { "too-late" }, "{}", what);
    if !in_time {
        ensure!(o[0].1 >= want && o[0].1 <= want + TOL, "too-late", "{}", what);
    }
    sc.case(Some(mix(want.as_micros() as u64, mix(stream as u64, at.map(|a| a.as_micros() as u64).unwrap_or(0)))), || format!("{}: a handler's wait, stream {}: {}", T::NAME, stream, what));
    Ok(())
}

both!(slow_emit, slow_emit_);
/// Sending does not use up the time for the reply
async fn slow_emit_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let w = World::new();
    let mut cfg = LinkCfg::default();
    cfg.seed = r.next();
    cfg.c2s.wdelay = r.range(10_000, 300_000);
    cfg.c2s.wmax = r.range(10, 200) as usize;
    let t = ms(r.range(50, 1500));
    let b = w.on_all(net.builder().timeout(t), 1, &vec![(None, "late".into())]);
    let (ctx, raw) = net.raw_server(b, &cfg).await?;
    let tok = uniq(&mut r);
    let t0 = Instant::now();
    let n = r.range(100, 2000) as usize;
    let wait = tokio::spawn(ctx.emit("q", bp(token_payload(tok, n))).await_reply());
    ensure!(raw.wait_n(1, secs(9000)).await, "request", "the request did not arrive");
    let sent = Instant::now();
    let reply = r.chance(500);
    if reply {
        sleep(t.saturating_sub(ms(9))).await;
        ensure!(!wait.is_finished(), "too-early", "sending took {:?}, the wait with timeout {:?} ended before the reply", sent - t0, t);
        let f = raw.frames()[0].clone();
        let _ = raw.frame(&Frame::new(codec::END, 2, Some(f.id), None, "end", vec![])).await;
    }
    let res = wait.await;
    let took = sent.elapsed();
    match res {
        Ok(Ok(_)) => ensure!(reply, "reply", "a reply that nobody sent"),
        Ok(Err(Error::Timeout)) => {
            ensure!(!reply, "too-early", "sending took {:?}, then a reply within the timeout of {:?} was lost", sent - t0, t);
            ensure!(took + TOL >= t, "too-early", "timed out {:?} after sending instead of {:?}", took, t);
            ensure!(took <= t + us(cfg.c2s.wdelay) + TOL, "too-late", "timed out {:?} after sending instead of {:?}", took, t);
        }
        x => bail!("wrong-error", "{:?}", x.map(|y| y.map(|_| ()))),
    }
    sc.case(Some(mix(n as u64, t.as_micros() as u64)), || format!("{}: sending {} bytes took {:?}, timeout {:?}, reply {}", T::NAME, n, sent - t0, t, reply));
    Ok(())
}

both!(long, long_);
/// Timeouts of hours and days
async fn long_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let w = World::new();
    let rnd = |r: &mut Rng| match r.below(5) {
        0 => *r.pick(&[secs(3599), secs(3600), secs(3601), secs(65_535), secs(65_536), secs(86_400)]),
        1 => ms((1 << 32) + r.range(0, 5000)).checked_sub(ms(2000)).unwrap(),
        2 => secs(4295) - ms(32) + ms(r.range(0, 2000)),
        _ => ms(r.range(3_000_000, 40 * 86_400_000)),
    };
    let mut b = w.on_all(net.builder(), 1, &vec![(None, "late".into())]);
    let mut t = rnd(&mut r);
    b = b.timeout(t);
    let own = if r.chance(500) { Some(rnd(&mut r)) } else { None };
    let pool_n = if r.chance(300) { r.few() } else { 0 };
    let (ctx, raws, pool) = if pool_n > 0 {
        let (p, raws) = raw_pool(&net, b, &LinkCfg::default(), pool_n).await?;
        let _skip: Vec<_> = (0..r.idx(pool_n)).map(|_| p.acquire()).collect();
        let c = (*p.acquire()).clone();
        (c, raws, Some(p))
    } else {
        let (c, raw) = net.raw_server(b, &LinkCfg::default()).await?;
        (c, vec![raw], None)
    };
    t = own.unwrap_or(t);
    let stream = r.chance(500);
    let n = if stream { r.range(1, 4) } else { 1 };
    let tok = uniq(&mut r);
    let limit = t * 3 + secs(10_000);
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    let task = tokio::spawn(async move {
        let e = ctx.emit("q", bp(token_payload(tok, 5)));
        if stream {
            let e = e.stream_replies();
            let e = match own {
                Some(t) => timed!(e, t),
                None => e,
            };
            let mut s = e.await?;
            for _ in 0..n {
                let t0 = Instant::now();
                let x = tokio::time::timeout(limit, next(&mut s)).await;
                let _ = tx.send((x.map_err(|_| "nothing happens").and_then(|x| x.ok_or("the stream ended")), t0.elapsed()));
            }
        } else {
            let e = e.await_reply();
            let e = match own {
                Some(t) => timed!(e, t),
                None => e,
            };
            let t0 = Instant::now();
            let x = tokio::time::timeout(limit, e).await;
            let _ = tx.send((x.map_err(|_| "nothing happens"), t0.elapsed()));
        }
        Ok::<(), Error>(())
    });
    // whichever connection the pool chose
    let mut waits: Vec<_> = raws.iter().map(|x| Box::pin(x.wait_n(1, secs(10)))).collect();
    let raw = std::future::poll_fn(|cx| {
        for (i, f) in waits.iter_mut().enumerate() {
            match f.as_mut().poll(cx) {
                Poll::Ready(true) => return Poll::Ready(raws.get(i)),
                Poll::Ready(false) => return Poll::Ready(None),
                Poll::Pending => {}
            }
        }
        Poll::Pending
    })
    .await;
    let raw = match raw {
        Some(x) => x,
        None => bail!("request", "the request did not arrive"),
    };
    let id = raw.frames()[0].id;
    let mut hist = vec![];
    for i in 0..n {
        let last = i + 1 == n;
        let at = match r.below(3) {
            0 => t - ms(r.range(3, 900)),
            1 if last => t + secs(1),
            _ => ms(r.below((t.as_millis() - 1000) as u64)),
        };
        hist.push(at);
        let t0 = Instant::now();
        tokio::select! {
            _ = sleep(at) => {}
            x = rx.recv() => {
                let (x, took) = match x {
                    Some(x) => x,
                    None => bail!("emit", "{:?}", task.await),
                };
                ensure!(matches!(x, Ok(Err(Error::Timeout))), "wrong-error", "before a reply and the timeout {:?} the wait ends with {:?}", t, x.map(|x| x.map(|e| e.id())));
                ensure!(took >= t, "too-early", "the wait with timeout {:?} ended after {:?}", t, took);
                ensure!(took <= t + TOL && at > t, "too-late", "the wait with timeout {:?} ended after {:?}", t, took);
                break;
            }
        }
        let rid = r.next();
        let _ = raw.frame(&Frame::new(codec::RESP, rid, Some(id), None, "late", token_payload(tok, 6))).await;
        let x = tokio::time::timeout(limit, rx.recv()).await;
        match x {
            Ok(Some((Ok(Ok(e)), took))) => {
                ensure!(e.id() == rid, "other-reply", "another reply");
                ensure!(at <= t, "too-late", "the wait with timeout {:?} got a reply after {:?}", t, took);
                ensure!(took <= at + TOL, "delay", "a reply sent after {:?} was delivered after {:?}", at, took);
            }
            x => bail!("lost", "the reply sent {:?} after the start of a wait (timeout {:?}, {:?} by now): {:?}", at, t, t0.elapsed(), x.map(|x| x.map(|y| (y.0.map(|z| z.map(|e| e.id())), y.1)))),
        }
    }
    drop(pool);
    sc.case(Some(mix(t.as_millis() as u64, hash_bytes(format!("{:?}", hist).as_bytes()))), || format!("{}: timeout {:?} (own: {}), pool {}, stream {}: replies after {:?}", T::NAME, t, own.is_some(), pool_n, stream, hist));
    Ok(())
}
