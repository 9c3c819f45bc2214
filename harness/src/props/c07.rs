//! C07: dispatch
use crate::codec::{self, Frame};
use crate::core::*;
use crate::fix::*;
use crate::mesh::*;
use crate::rng::*;
use crate::sim::*;
use crate::{both, boxed, ensure};
use bromine::prelude::*;
use std::sync::{Arc, Mutex};

pub fn fams() -> Vec<Fam> {
    vec![
        fam("routes", 1200, 20000, boxed!(routes7)),
        fam("mesh", 400, 8000, boxed!(mesh7)),
        fam("consumed", 300, 5000, boxed!(super::c09::consumed)),
        fam("vanished", 150, 4000, boxed!(vanished)),
        fam("large", 16, 160, boxed!(large)),
        fam("outlive", 150, 3000, boxed!(outlive)),
        fam("idle", 150, 3000, boxed!(idle)),
        fam("session", 2, 16, boxed!(session)),
    ]
}

both!(routes7, routes7_);
async fn routes7_<T: Tp>(sc: Arc<Sc>) -> R {
    routes::<T>(sc, Facet::Runs).await
}

pub fn mesh_cfg(r: &mut Rng, panics: bool) -> MeshCfg {
    MeshCfg {
        clients: r.few().min(12),
        pool: if r.chance(300) { r.few() } else { 0 },
        tasks: 1 + r.idx(6),
        per_task: 1 + r.idx(8),
        panics,
        timed: r.chance(700),
        tight: r.chance(150),
        faults: vec![],
    }
}

pub fn mesh_case(sc: &Sc, name: &str, c: &MeshCfg, m: &MeshRes) {
    let h = m.ops.iter().fold(0, |h, o| mix(h, o.tok));
    sc.count("requests", m.ops.len() as u64);
    sc.count("handler runs", m.events);
    sc.case(Some(h), || {
        format!("{} with {} clients (pool {}), {} tasks: {} requests, {} handler runs", name, c.clients, c.pool, c.tasks, m.ops.len(), m.events)
    });
}

both!(mesh7, mesh7_);
async fn mesh7_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let c = mesh_cfg(&mut r, true);
    let m = mesh(&net, &mut r, &c).await?;
    check_runs(&m)?;
    mesh_case(&sc, T::NAME, &c, &m);
    Ok(())
}

/// Streams that are dropped with more replies under way than were read: what the waiter did not
/// take (or could still have taken from what had been put aside for it) is handled as events
pub async fn vanished(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<Plain>::new(&mut r);
    // handled events and the namespace of their handler
    let log: Arc<Mutex<Vec<(u64, &'static str)>>> = Default::default();
    let logger = |ns: &'static str| {
        let log = log.clone();
        hnd(move |_ctx, e| {
            log.lock().unwrap().push((token_of(e.data_raw()).unwrap_or(0), ns));
            Box::pin(async { Ok(Response::empty()) })
        })
    };
    let b = net.builder().on("r", logger("")).namespace("n").on("r", logger("n")).build().namespace("m").on("other", logger("m")).build();
    let mut cfg = LinkCfg::default();
    if r.chance(500) {
        cfg.s2c.rmax = r.range(1, 60) as usize;
    }
    let (ctx, raw) = net.raw_server(b, &cfg).await?;
    let link = net.link(0);
    let mut desc = vec![];
    for round in 0..r.range(1, 4) {
        raw.clear();
        log.lock().unwrap().clear();
        let mut s = match ctx.emit("q", bp(vec![])).stream_replies().with_timeout(secs(500)).await {
            Ok(s) => s,
            Err(e) => return viol("emit", format!("{:?}", e)),
        };
        ensure!(raw.until(secs(100), |f| f.iter().any(|x| x.0.ty == codec::INIT)).await, "request", "the request does not arrive");
        let id = raw.frames().iter().find(|x| x.ty == codec::INIT).unwrap().id;
        let n = r.range(1, 40) as usize;
        let k = r.idx(n.min(6) + 1);
        let toks: Vec<u64> = (0..n).map(|_| uniq(&mut r)).collect();
        let mut ends = vec![];
        let mut bytes = vec![];
        let base = link.s2c.written();
        let mut runs = vec![];
        for (i, t) in toks.iter().enumerate() {
            let ns = *r.pick(&[None, None, Some("n"), Some("m"), Some("unknown")]);
            let ty = if i >= k && r.chance(80) { codec::END } else { *r.pick(&[codec::RESP, codec::INIT]) };
            runs.push(match ns {
                _ if ty == codec::END => None,
                None => Some((*t, "")),
                Some("n") => Some((*t, "n")),
                _ => None,
            });
            bytes.extend(Frame::new(ty, r.next(), Some(id), ns, "r", token_payload(*t, 4)).encode());
            ends.push(base + bytes.len());
        }
        let (raw2, mut r2) = (raw.clone(), r.fork());
        let send = tokio::spawn(async move { raw2.send_chunked(&bytes, &mut r2).await });
        for t in &toks[..k] {
            match next(&mut s).await {
                Some(Ok(e)) if token_of(e.data_raw()) == Some(*t) => {}
                x => return viol("stream", format!("a stream yields {:?}", x)),
            }
        }
        sleep(secs(20)).await;
        ensure!(log.lock().unwrap().is_empty(), "consumed-handled", "a reply ran a handler while its stream was read");
        let taken = ends.iter().filter(|e| **e <= link.s2c.consumed()).count();
        drop(s);
        sleep(secs(20)).await;
        ensure!(matches!(send.await, Ok(Ok(()))), "not-read", "the client stopped reading");
        sleep(secs(5)).await;
        let got = log.lock().unwrap().clone();
        let mut seen = std::collections::BTreeSet::new();
        for g in &got {
            ensure!(runs[k..].contains(&Some(*g)), "unknown", "round {}: the handler of {:?} ran for {:?}", round, g.1, toks.iter().position(|t| *t == g.0).map(|i| (i, runs[i])));
            ensure!(seen.insert(*g), "twice", "an event was handled twice");
        }
        // one of those that were received was not put aside if the client stopped reading
        let first = runs.iter().position(|x| x.map(|x| seen.contains(&x)).unwrap_or(false)).unwrap_or(n);
        let from = if taken < n { first.min(taken.max(k + 1) - 1) } else { first };
        for (i, x) in runs.iter().enumerate().skip(from) {
            ensure!(
                x.map(|x| seen.contains(&x)).unwrap_or(true),
                "lost",
                "round {}: {} replies sent, {} read from the stream, {} received when it was dropped; reply {} was not handled ({} were, from reply {})",
                round, n, k, taken, i, got.len(), first
            );
        }
        desc.push((n, k, taken, got.len()));
        sc.count("replies of vanished streams", n as u64);
        sc.count("handled after their stream vanished", got.len() as u64);
    }
    let t = uniq(&mut r);
    log.lock().unwrap().clear();
    let _ = raw.frame(&Frame::new(codec::INIT, r.next(), None, None, "r", token_payload(t, 4))).await;
    sleep(secs(5)).await;
    ensure!(*log.lock().unwrap() == vec![(t, "")], "lost", "a later event is not handled");
    sc.case(Some(hash_bytes(format!("{:?}", desc).as_bytes())), || format!("streams (replies, read, received at the drop, handled) {:?}", desc));
    Ok(())
}

both!(large, large_);
/// Large events among small ones, in both directions
async fn large_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let w = World::new();
    let (name, ns) = (if r.chance(300) { "n".repeat(r.range(256, 65_000) as usize) } else { "a".into() }, if r.chance(300) { "s".repeat(r.range(256, 400) as usize) } else { "s".to_string() });
    let b = w.on_all(net.builder().timeout(secs(3000)), 1, &vec![(None, name.clone()), (Some(ns.clone()), name.clone())]);
    let s = sut(&net, b, &mut r, &mut |r| LinkCfg { seed: r.next(), ..Default::default() }).await?;
    let raw = s.raws[r.idx(s.raws.len())].clone();
    let mut sent = vec![];
    let top = if sc.idx % 8 == 7 { 24_000_000 } else { 3_000_000 };
    for i in 0..r.range(3, 9) {
        let len = match r.below(4) {
            0 => r.idx(300),
            1 => *r.pick(&[65_535, 65_536, 65_537, 131_072, 262_144, (1 << 20) - 40, 1 << 20, (1 << 20) + 1, 2 << 20]),
            2 if i == 2 => top,
            _ => r.range(1000, 1_500_000) as usize,
        };
        let n = if r.chance(500) { Some(ns.clone()) } else { None };
        let tok = uniq(&mut r);
        let out = if r.chance(300) { r.range(60_000, 1_500_000) as usize } else { 9 };
        w.plan(tok, Plan { acts: vec![], out: Out::Reply(tok, out) });
        let f = Frame::new(codec::INIT, r.next(), None, n.as_deref(), &name, token_payload(tok, len));
        ensure!(raw.frame(&f).await.is_ok(), "closed", "the connection was closed after an event with {} bytes", len);
        sent.push((f, tok, out));
    }
    ensure!(raw.wait_n(sent.len(), secs(3000)).await, "not-run", "{} replies to {} large events: {:?}", raw.n(), sent.len(), raw.closed());
    let runs = w.runs();
    ensure!(runs.len() == sent.len(), "count", "{} runs for {} large events", runs.len(), sent.len());
    for (f, tok, out) in &sent {
        let k: Vec<_> = runs.iter().filter(|x| x.tok() == Some(*tok)).collect();
        ensure!(k.len() == 1, "count", "an event with {} bytes ran {} handlers", f.data.len(), k.len());
        let k = k[0];
        ensure!(k.data == f.data && k.id == f.id && k.hns == f.ns && k.hname == f.name && k.ns == f.ns && k.name == f.name, "changed", "an event with {} bytes was handled as another one", f.data.len());
        let a: Vec<_> = raw.frames().into_iter().filter(|x| x.ref_id == Some(f.id)).collect();
        ensure!(a.len() == 1 && a[0].ty == codec::END && a[0].data == token_payload(*tok, *out), "reply", "an event with {} bytes has {} replies", f.data.len(), a.len());
    }
    sc.count("bytes in large events", sent.iter().map(|x| x.0.data.len() as u64).sum());
    sc.case(Some(hash_bytes(format!("{:?}", sent.iter().map(|x| x.0.data.len()).collect::<Vec<_>>()).as_bytes())), || {
        format!("{}: events with {:?} bytes", T::NAME, sent.iter().map(|x| x.0.data.len()).collect::<Vec<_>>())
    });
    Ok(())
}

both!(outlive, outlive_);
/// Handlers are under way when the connection ends or the client is stopped
async fn outlive_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let log: Arc<Mutex<(Vec<u64>, Vec<u64>)>> = Default::default();
    let mut b = net.builder().timeout(secs(3000));
    for in_ns in [false, true] {
        let l2 = log.clone();
        let f = hnd(move |ctx: &Ctx, e: Event| {
            let (l2, ctx) = (l2.clone(), ctx.clone());
            Box::pin(async move {
                let d = e.data_raw().to_vec();
                let tok = token_of(&d[..24]).unwrap();
                l2.lock().unwrap().0.push(tok);
                let k = d[d.len() - 1] as u64 % 5;
                for i in 0..k {
                    sleep(us(mix(tok, i) % 80_000)).await;
                    if mix(tok, i + 70) % 3 == 0 {
                        // may fail now
                        let _ = ctx.emit("p", bp(vec![1, 2, 3])).await;
                    }
                }
                l2.lock().unwrap().1.push(tok);
                if mix(tok, 90) % 4 == 0 {
                    return Err(IPCError::Message("late".into()));
                }
                Ok(Response::empty())
            })
        });
        b = if in_ns { b.namespace("s").on("w", f).build() } else { b.on("w", f) };
    }
    let mut s = sut(&net, b, &mut r, &mut |r| LinkCfg { seed: r.next(), ..Default::default() }).await?;
    let mut toks = vec![];
    for _ in 0..r.range(1, 40) {
        let tok = uniq(&mut r);
        let mut d = token_payload(tok, 16);
        d.push(r.next() as u8);
        let i = r.idx(s.raws.len());
        let f = Frame::new(codec::INIT, r.next(), None, if r.chance(500) { Some("s") } else { None }, "w", d);
        if s.raws[i].frame(&f).await.is_ok() {
            toks.push(tok);
        }
        if r.chance(200) {
            sleep(us(r.range(1, 30_000))).await;
        }
    }
    sleep(us(r.range(1, 60_000))).await;
    let open = {
        let l = log.lock().unwrap();
        l.0.len() - l.1.len()
    };
    let end = r.below(6);
    match end {
        0 => {
            for x in &s.raws {
                x.close().await
            }
        }
        1 => {
            for x in &s.raws {
                x.shutdown().await
            }
        }
        2 => {
            for l in net.links.lock().unwrap().iter() {
                l.break_now()
            }
        }
        3 => {
            for c in std::mem::take(&mut s.ctxs) {
                let _ = c.stop().await;
            }
        }
        4 => {
            // what doesn't belong to the protocol ends the connection, too
            for x in &s.raws {
                let _ = x.send(&[0xff; 40]).await;
            }
        }
        _ => {
            s.ctxs.clear();
            s.pool = None;
            s.srv = None;
        }
    }
    sleep(secs(20)).await;
    let (mut started, mut done) = log.lock().unwrap().clone();
    let n = started.len();
    started.sort_unstable();
    started.dedup();
    done.sort_unstable();
    ensure!(n == started.len(), "twice", "{} runs for {} events", n, started.len());
    ensure!(
        started == done,
        "not-finished",
        "{} of {} handlers that were running did not run to their end after {}",
        started.len() - done.len(),
        started.len(),
        ["the peer closed", "the peer shut down", "the connection broke", "the client was stopped", "the peer sent rubbish", "the client was dropped"][end as usize]
    );
    ensure!(started.iter().all(|t| toks.contains(t)), "unknown", "a handler ran for an event that was not sent");
    sc.count("handlers that outlived the connection", open as u64);
    sc.case(Some(toks.iter().fold(end, |h, t| mix(h, *t))), || format!("{}: a {} with {} handlers running when the connection ended ({})", T::NAME, s.kind, open, end));
    Ok(())
}

both!(idle, idle_);
/// Long pauses between events and in the middle of them
async fn idle_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let w = World::new();
    let b = w.on_all(net.builder(), 1, &vec![(None, "a".into()), (Some("s".into()), "a".into())]);
    let s = sut(&net, b, &mut r, &mut |r| LinkCfg { seed: r.next(), ..Default::default() }).await?;
    let mut left = 9000u64;
    let mut pauses = vec![];
    let mut pause = |r: &mut Rng| {
        let p = match r.below(4) {
            0 => r.range(1, 10),
            1 => r.range(10, 130),
            2 => r.range(130, 1000),
            _ => r.range(1000, 4000),
        };
        let p = p.min(left);
        left -= p;
        p
    };
    let mut sent = vec![];
    for _ in 0..r.range(1, 6) {
        let p = pause(&mut r);
        sleep(secs(p)).await;
        let raw = s.raws[r.idx(s.raws.len())].clone();
        let tok = uniq(&mut r);
        w.plan(tok, Plan { acts: vec![], out: Out::Reply(tok, 9) });
        let f = Frame::new(codec::INIT, r.next(), None, if r.chance(400) { Some("s") } else { None }, "a", token_payload(tok, r.len(2000)));
        let bytes = f.encode();
        let mut at = 0;
        let mut inner = vec![];
        if r.chance(600) {
            for _ in 0..r.range(1, 2) {
                // within the lengths, the header and the payload
                let cut = (*r.pick(&[1, 7, 8, 9, 15, 16, 17, 20, bytes.len() / 2, bytes.len() - 1])).max(at + 1).min(bytes.len() - 1);
                ensure!(raw.send(&bytes[at..cut]).await.is_ok(), "closed", "the connection was closed after pauses of {:?} s", pauses);
                at = cut;
                let q = pause(&mut r);
                sleep(secs(q)).await;
                inner.push((cut, q));
            }
        }
        ensure!(w.n_runs() == sent.len(), "early", "a handler ran before its event had arrived");
        ensure!(raw.send(&bytes[at..]).await.is_ok(), "closed", "the connection was closed after pauses of {:?} and {:?} s", pauses, inner);
        pauses.push((p, inner));
        sleep(secs(2)).await;
        sent.push((f.clone(), tok));
        let runs = w.runs();
        ensure!(runs.len() == sent.len(), "count", "{} runs for {} events after pauses of {:?} s: {:?}", runs.len(), sent.len(), pauses, raw.closed());
        let k = &runs[sent.len() - 1];
        ensure!(k.data == f.data && k.id == f.id && k.hns == f.ns && k.hname == f.name, "changed", "an event was handled as another one after pauses of {:?} s", pauses);
        ensure!(raw.frames().iter().filter(|x| x.ref_id == Some(f.id) && x.ty == codec::END && x.data == token_payload(tok, 9)).count() == 1, "reply", "no reply after pauses of {:?} s", pauses);
    }
    sc.count("seconds of pauses", 9000 - left);
    sc.case(Some(sent.iter().fold(0, |h, t| mix(h, t.1))), || format!("{}: a {} gets events after (pause, [(at byte, pause)]) {:?}", T::NAME, s.kind, pauses));
    Ok(())
}

both!(session, session_);
/// Very many events over one connection. Every one is handled once by its handler, and its reply goes to its sender.
pub async fn session_<T: Tp>(sc: Arc<Sc>) -> R {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    // how often the handlers ran and the sums of their tokens
    let seen: Arc<[AtomicU64; 6]> = Default::default();
    let counting = |k: usize| {
        let seen = seen.clone();
        hnd(move |_ctx, e| {
            let t = u64::from_be_bytes(e.data_raw().try_into().unwrap_or_default());
            seen[k].fetch_add(1, SeqCst);
            seen[k + 3].fetch_add(t, SeqCst);
            let out = (t * 3 + k as u64).to_be_bytes().to_vec();
            if k == 2 {
                return Box::pin(async { Ok(Response::empty()) });
            }
            Box::pin(async move { Response::payload(_ctx, bp(out)) })
        })
    };
    let _srv = net.serve(net.builder().on("a", counting(0)).namespace("s").on("a", counting(1)).build().on("b", counting(2))).await;
    let cfg = LinkCfg { c2s: DirCfg::default().no_rec(), s2c: DirCfg::default().no_rec(), seed: r.next() };
    let ctx = net.client(net.builder().timeout(secs(1000)), &cfg).await?;
    let n = if sc.thorough && sc.idx % 8 == 0 { 600_000 } else { r.range(66_000, 75_000) };
    let mut want = [0u64; 6];
    let mut t = 0;
    while t < n {
        let mut js = vec![];
        for _ in 0..r.range(1, 12) {
            t += 1;
            let k = *r.pick(&[0, 0, 1, 2]);
            want[k] += 1;
            want[k + 3] += t;
            let p = bp(t.to_be_bytes().to_vec());
            let m = if k == 1 { ctx.emit_to("s", "a", p) } else { ctx.emit(if k == 0 { "a" } else { "b" }, p) };
            if k == 2 {
                if let Err(e) = m.await {
                    return viol("emit", format!("event {} of one connection could not be sent: {:?}", t, e));
                }
            } else {
                js.push((t, k, m.await_reply()));
            }
        }
        // at once
        let js: Vec<_> = js.into_iter().map(|(t, k, f)| (t, k, tokio::spawn(f))).collect();
        for (t, k, j) in js {
            match j.await {
                Ok(Ok(e)) => ensure!(e.data_raw() == (t * 3 + k as u64).to_be_bytes(), "reply", "event {} of one connection got another reply", t),
                x => return viol("reply", format!("event {} of one connection got no reply: {:?}", t, x)),
            }
        }
    }
    net.settle(secs(5)).await;
    let got: Vec<u64> = seen.iter().map(|x| x.load(SeqCst)).collect();
    ensure!(got == want, "count", "after {} events over one connection the handlers ran {:?} instead of {:?} times (and sums of their tokens)", n, got, want);
    sc.count("events of long sessions", n);
    sc.case(Some(mix(sc.seed, n)), || format!("{}: {} events over one connection", T::NAME, n));
    Ok(())
}
