//! C08: final replies and references
use super::c07::{mesh_case, mesh_cfg};
use crate::codec;
use crate::core::*;
use crate::fix::*;
use crate::mesh::*;
use crate::rng::*;
use crate::sim::*;
use crate::{both, boxed, ensure};
use bromine::event::Event;
use bromine::prelude::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub fn fams() -> Vec<Fam> {
    vec![
        fam("finals", 1200, 20000, boxed!(finals)),
        fam("mesh", 300, 6000, boxed!(mesh8)),
        fam("outside", 120, 2000, boxed!(outside)),
        fam("cross", 120, 2000, boxed!(cross)),
        fam("busy", 40, 600, boxed!(busy)),
        fam("session", 2, 16, boxed!(super::c07::session)),
    ]
}

both!(finals, finals_);
async fn finals_<T: Tp>(sc: Arc<Sc>) -> R {
    routes::<T>(sc, Facet::Finals).await
}

both!(mesh8, mesh8_);
/// Everything that two real sides exchange, judged by the recorded frames of all connections
async fn mesh8_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let mut c = mesh_cfg(&mut r, false);
    c.panics = false;
    let m = mesh(&net, &mut r, &c).await?;
    let n = check_wire(&net, false)?;
    if !T::ENC {
        // nobody panicked, so everything that was dispatched has a final reply
        let mut finals: HashMap<u64, u32> = HashMap::new();
        let mut sent = vec![];
        for l in net.links.lock().unwrap().iter() {
            for d in [&l.c2s, &l.s2c] {
                for f in codec::parse_all(&d.recorded()).map(|x| x.0).unwrap_or_default() {
                    if f.ty >= codec::END {
                        *finals.entry(f.ref_id.unwrap_or(0)).or_insert(0) += 1;
                    }
                    if f.ty == codec::INIT {
                        sent.push(f);
                    }
                }
            }
        }
        for f in sent {
            let k = finals.get(&f.id).copied().unwrap_or(0);
            ensure!(k == 1, "final-count", "{} has {} final replies", f.short(), k);
        }
        sc.count("frames parsed", n);
    }
    check_callers(&m)?;
    mesh_case(&sc, T::NAME, &c, &m);
    Ok(())
}

both!(outside, outside_);
/// Emits outside of handlers, also from contexts that handlers left behind while others handle events
async fn outside_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let w = World::new();
    let b = w.on(net.builder(), 1, "a");
    let pool_n = if r.chance(600) { r.few() } else { 0 };
    let (ctxs, raws, pool) = if pool_n > 0 {
        let (p, raws) = raw_pool(&net, b, &LinkCfg::random(&mut r, true), pool_n).await?;
        let v = (0..pool_n).map(|_| (*p.acquire()).clone()).collect::<Vec<Ctx>>();
        (v, raws, Some(p))
    } else {
        let (c, raw) = net.raw_server(b, &LinkCfg::random(&mut r, true)).await?;
        (vec![c], vec![raw], None)
    };
    let mut mine = HashMap::new();
    let mut theirs = HashMap::new();
    let mut tasks = vec![];
    let sent = Arc::new(Mutex::new(vec![]));
    for _ in 0..r.range(2, 12) {
        if r.chance(500) {
            let raw = r.pick(&raws).clone();
            let tok = uniq(&mut r);
            let p = random_plan(&mut r, true, false);
            w.plan(tok, p.clone());
            let f = codec::Frame::new(codec::INIT, r.next(), None, None, "a", token_payload(tok, 20));
            theirs.insert(f.id, p);
            tasks.push(tokio::spawn(async move {
                let _ = raw.frame(&f).await;
            }));
        } else {
            let c = r.pick(&ctxs).clone();
            let tok = uniq(&mut r);
            let ns = if r.chance(500) { Some("n".to_string()) } else { None };
            mine.insert(tok, ns.clone());
            let (how, s2) = (r.below(3), sent.clone());
            tasks.push(tokio::spawn(async move {
                let p = bp(token_payload(tok, 30));
                let m = match &ns {
                    Some(n) => c.emit_to(n, "x", p),
                    None => c.emit("x", p),
                };
                match how {
                    0 => match m.await {
                        Ok(id) => s2.lock().unwrap().push((tok, Some(id))),
                        Err(_) => s2.lock().unwrap().push((tok, None)),
                    },
                    1 => drop(m.await_reply().with_timeout(secs(5)).await),
                    _ => drop(m.stream_replies().with_timeout(secs(5)).await),
                }
            }));
        }
        if r.chance(300) {
            sleep(us(r.range(0, 4000))).await;
        }
    }
    for t in tasks {
        let _ = t.await;
    }
    sleep(secs(30)).await;
    let frames: Vec<codec::Frame> = raws.iter().flat_map(|x| x.frames()).collect();
    let mut n = 0;
    for f in &frames {
        if f.ref_id.is_none() {
            n += 1;
            let tok = token_of(&f.data);
            let ns = tok.and_then(|t| mine.get(&t));
            ensure!(ns.is_some(), "no-reference", "{} has no reference but was not emitted outside of a handler", f.short());
            ensure!(f.ty == codec::INIT, "type", "{} was emitted outside of handlers with type {}", f.short(), f.ty);
            ensure!(&f.ns == ns.unwrap() && f.name == "x", "changed", "{} was emitted as {:?}/x", f.short(), ns);
        } else {
            ensure!(f.ty != codec::INIT, "type", "{} references an event but is an initiator", f.short());
            ensure!(theirs.contains_key(&f.ref_id.unwrap()), "unknown-reference", "{} references no event that is handled", f.short());
        }
    }
    ensure!(n == mine.len(), "emitted", "{} of {} events emitted outside of handlers arrived without a reference", n, mine.len());
    for (id, p) in &theirs {
        let want = replies_of(p, 0, 0);
        let got: Vec<_> = frames.iter().filter(|f| f.ref_id == Some(*id)).collect();
        ensure!(got.len() == want.len(), "final-count", "an event got {} replies instead of {}", got.len(), want.len());
    }
    sc.count("frames seen", frames.len() as u64);
    drop(pool);
    sc.case(Some(hash_bytes(format!("{:?}", mine).as_bytes())), || format!("{}: {} own events, {} handled ones, pool of {}", T::NAME, mine.len(), theirs.len(), pool_n));
    Ok(())
}

both!(cross, cross_);
/// A handler that emits on another connection: there it references nothing, the final reply stays on its own
async fn cross_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let (net, net2) = (Net::<T>::new(&mut r), Net::<T>::new(&mut r));
    let (other, raw2) = net2.raw_server(net2.builder(), &LinkCfg::random(&mut r, true)).await?;
    let o = other.clone();
    let b = net.builder().on("fwd", move |ctx: &Ctx, e: Event| {
        let o = o.clone();
        Box::pin(async move {
            let tok = token_of(e.data_raw()).unwrap_or(0);
            o.emit("there", bp(token_payload(tok, 5))).await?;
            ctx.emit("back", bp(token_payload(tok, 6))).await?;
            ctx.emit_to("n", "back", bp(token_payload(tok, 7))).await?;
            Response::payload(ctx, bp(token_payload(tok, 8)))
        }) as HFut
    });
    let _srv = net.serve(b).await;
    let mut raws = vec![];
    for _ in 0..1 + r.idx(3) {
        raws.push(net.raw_client(&LinkCfg::random(&mut r, true)).await?);
    }
    let mut sent = vec![];
    for i in 0..r.range(1, 12) as usize {
        let k = i % raws.len();
        let tok = uniq(&mut r);
        // ids may be equal on different connections
        let id = if r.chance(300) { 7 + i as u64 / raws.len() as u64 } else { r.next() };
        let (raw, f) = (raws[k].clone(), codec::Frame::new(codec::INIT, id, None, None, "fwd", token_payload(tok, 3)));
        tokio::spawn(async move { raw.frame(&f).await });
        sent.push((k, id, tok));
        if r.chance(500) {
            sleep(us(r.range(0, 3000))).await;
        }
    }
    sleep(secs(30)).await;
    let there = raw2.frames();
    ensure!(there.len() == sent.len(), "other-connection", "{} of {} events arrived on the other connection", there.len(), sent.len());
    for f in &there {
        ensure!(f.ref_id.is_none() && f.ty == codec::INIT, "other-connection", "{} was emitted on another connection than the handled event", f.short());
    }
    for (k, raw) in raws.iter().enumerate() {
        let fs = raw.frames();
        let here: Vec<_> = sent.iter().filter(|x| x.0 == k).collect();
        ensure!(fs.len() == 3 * here.len(), "final-count", "connection {} has {} frames instead of {}", k, fs.len(), 3 * here.len());
        for (_, id, tok) in here {
            let g: Vec<_> = fs.iter().filter(|f| f.ref_id == Some(*id) && token_of(&f.data) == Some(*tok)).collect();
            let tys: Vec<u8> = g.iter().map(|f| f.ty).collect();
            ensure!(tys == [codec::RESP, codec::RESP, codec::END], "final-order", "the replies to one event are of the types {:?}", tys);
            let lens: Vec<usize> = g.iter().map(|f| f.data.len()).collect();
            ensure!(lens == [14, 15, 16], "final-order", "the replies to one event have the lengths {:?}", lens);
        }
    }
    sc.case(Some(hash_bytes(format!("{:?}", sent).as_bytes())), || format!("{}: {} events forwarded from {} connections", T::NAME, sent.len(), raws.len()));
    Ok(())
}

both!(busy, busy_);
/// Events are handled while hundreds of requests and handlers are waiting on the same connection
async fn busy_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let w = World::new();
    let b = w.on(net.builder().timeout(secs(100_000)), 1, "a");
    let s = sut(&net, b, &mut r, &mut |r| LinkCfg { seed: r.next(), ..Default::default() }).await?;
    let raw = s.raws[0].clone();
    // now and then thousands
    let (low, top) = if sc.idx % 10 == 9 { (2000, 5000) } else { (9, *r.pick(&[40, 150, 600])) };
    let n = r.range(low, top) as usize;
    // handlers that wait for a reply of ours
    let mut waiting = vec![];
    for _ in 0..n {
        let (tok, ask) = (uniq(&mut r), uniq(&mut r));
        let fail = r.chance(200);
        w.plan(tok, Plan { acts: vec![Act::Ask { ns: None, name: "q".into(), tok: ask, len: 9 }], out: if fail { Out::Fail("no".into()) } else { Out::Reply(tok, 20) } });
        let f = codec::Frame::new(codec::INIT, r.next(), None, None, "a", token_payload(tok, 12));
        ensure!(raw.frame(&f).await.is_ok(), "closed", "the connection was closed");
        waiting.push((f.id, ask, tok, fail));
    }
    ensure!(raw.wait_n(n, secs(100)).await, "request", "{} of {} handlers sent their request", raw.n(), n);
    // the others go on meanwhile
    let mut now = vec![];
    for _ in 0..r.range(5, 60) {
        let tok = uniq(&mut r);
        let mut p = random_plan(&mut r, true, false);
        p.acts.retain(|a| !matches!(a, Act::Ask { .. }));
        w.plan(tok, p.clone());
        let name = if r.chance(800) { "a" } else { "nobody" };
        let f = codec::Frame::new(codec::INIT, r.next(), None, None, name, token_payload(tok, 14));
        ensure!(raw.frame(&f).await.is_ok(), "closed", "the connection was closed");
        let want = if name == "a" { replies_of(&p, 0, 0).len() } else { 1 };
        now.push((f.id, want));
    }
    sleep(secs(50)).await;
    let frames = raw.frames();
    for (id, want) in &now {
        let got: Vec<_> = frames.iter().filter(|f| f.ref_id == Some(*id)).collect();
        let finals = got.iter().filter(|f| f.ty >= codec::END).count();
        ensure!(got.len() == *want && finals == 1 && got[got.len() - 1].ty >= codec::END, "final-count", "while {} handlers are waiting, an event got {} replies ({} final) instead of {}", n, got.len(), finals, want);
    }
    for (id, ask, _, _) in &waiting {
        let got: Vec<_> = frames.iter().filter(|f| f.ref_id == Some(*id)).collect();
        ensure!(got.len() == 1 && got[0].ty == codec::RESP && token_of(&got[0].data) == Some(*ask), "final-count", "an event whose handler is waiting got {} replies", got.len());
    }
    // now they can go on, in some order
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    for i in order {
        let q = frames.iter().find(|f| token_of(&f.data) == Some(waiting[i].1)).unwrap();
        ensure!(raw.frame(&codec::Frame::new(codec::END, r.next(), Some(q.id), None, "end", token_payload(waiting[i].1, 5))).await.is_ok(), "closed", "the connection was closed");
    }
    sleep(secs(50)).await;
    let frames = raw.frames();
    for (id, _, tok, fail) in &waiting {
        let got: Vec<_> = frames.iter().filter(|f| f.ref_id == Some(*id)).collect();
        ensure!(got.len() == 2, "final-count", "with {} waiting handlers an event got {} replies instead of 2", n, got.len());
        let ty = if *fail { codec::ERR } else { codec::END };
        ensure!(got[1].ty == ty && (*fail || got[1].data == token_payload(*tok, 20)), "final", "the final reply is of type {}", got[1].ty);
    }
    sc.count("handlers waiting at once", n as u64);
    sc.case(Some(mix(n as u64, now.len() as u64)), || format!("{}: {} events handled while {} handlers wait", T::NAME, now.len(), n));
    Ok(())
}
