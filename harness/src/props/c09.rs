//! C09: replies reach their waiter
use super::c07::{mesh_case, mesh_cfg};
use crate::codec::{self, Frame};
use crate::core::*;
use crate::fix::*;
use crate::mesh::*;
use crate::rng::*;
use crate::sim::*;
use crate::{bail, both, boxed, ensure};
use bromine::error::Error;
use bromine::event::Event;
use bromine::prelude::*;
use std::collections::HashMap;
use std::sync::Arc;

pub fn fams() -> Vec<Fam> {
    vec![
        fam("consumed", 800, 15000, boxed!(consumed)),
        fam("early", 300, 5000, boxed!(early)),
        fam("mesh", 300, 6000, boxed!(mesh9)),
        fam("asks", 200, 4000, boxed!(asks)),
        fam("crowd", 12, 120, boxed!(crowd)),
        fam("crossed", 200, 4000, boxed!(crossed)),
        fam("session", 2, 16, boxed!(super::c07::session)),
        fam("known_unread_stream", 1, 1, boxed!(known_unread)),
    ]
}

both!(mesh9, mesh9_);
async fn mesh9_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let c = mesh_cfg(&mut r, true);
    let m = mesh(&net, &mut r, &c).await?;
    check_callers(&m)?;
    mesh_case(&sc, T::NAME, &c, &m);
    Ok(())
}

both!(consumed, consumed_);
/// Many outstanding requests, answered in any order on any connection of the client, with noise in between
async fn consumed_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let (net, net2) = (Net::<T>::new(&mut r), Net::<T>::new(&mut r));
    let w = World::new();
    let mk = |b: IPCBuilder<T::L>, inst: u32| {
        let b = w.on_all(b, inst, &vec![(None, "a".into()), (None, "b".into()), (None, "error".into()), (Some("n".into()), "a".into())]);
        b.timeout(secs(50_000))
    };
    let pool_n = if r.chance(400) { r.few() } else { 0 };
    let cfg = LinkCfg::random(&mut r, true);
    let (ctxs, raws, pool) = if pool_n > 0 {
        let (p, raws) = raw_pool(&net, mk(net.builder(), 1), &cfg, pool_n).await?;
        (vec![], raws, Some(p))
    } else {
        let (c, raw) = net.raw_server(mk(net.builder(), 1), &cfg).await?;
        (vec![c], vec![raw], None)
    };
    let (ctx2, raw2) = net2.raw_server(mk(net2.builder(), 2), &LinkCfg::random(&mut r, true)).await?;
    let k = match r.below(4) {
        0 => 1,
        1 => r.range(2, 5),
        2 => r.range(6, 30),
        _ => r.range(30, 90),
    } as usize;
    // requests of this client, a few of the other one
    let mut toks = vec![];
    let mut joins = vec![];
    for _ in 0..k {
        let tok = uniq(&mut r);
        let c: Ctx = match &pool {
            Some(p) => (*p.acquire()).clone(),
            None => ctxs[0].clone(),
        };
        let ns = r.chance(200);
        let d = if r.chance(300) { r.range(0, 3000) } else { 0 };
        joins.push(tokio::spawn(async move {
            sleep(us(d)).await;
            let p = bp(token_payload(tok, 10));
            let e = if ns { c.emit_to("x", "q", p) } else { c.emit("q", p) };
            e.await_reply().await
        }));
        toks.push(tok);
    }
    let other_wait = tokio::spawn(ctx2.emit("q", bp(token_payload(1, 1))).await_reply());
    let mut ids: HashMap<u64, u64> = HashMap::new();
    for _ in 0..2000 {
        for raw in &raws {
            for f in raw.frames() {
                if let Some(t) = token_of(&f.data) {
                    ids.insert(t, f.id);
                }
            }
        }
        if ids.len() == k {
            break;
        }
        sleep(ms(10)).await;
    }
    ensure!(ids.len() == k, "request", "{} of {} requests arrived", ids.len(), k);
    ensure!(raw2.wait_n(1, secs(50)).await, "request", "the request of the other client did not arrive");
    let id2 = raw2.frames()[0].id;
    // the replies, by token
    let mut queue: Vec<(Option<usize>, Frame)> = vec![];
    let mut want = HashMap::new();
    let mut events: Vec<(u32, Frame)> = vec![];
    for t in &toks {
        let ty = *r.pick(&[codec::RESP, codec::END, codec::END, codec::ERR, codec::INIT]);
        let name = *r.pick(&["a", "b", "end", "error", "zzz", "q"]);
        let n = r.len(2000);
        let data = if ty == codec::ERR { err_payload(r.next() as u16, format!("{:x}", t).as_bytes()) } else { token_payload(*t, n) };
        let ns = if r.chance(200) { Some("n") } else { None };
        let f = Frame::new(ty, r.next(), Some(ids[t]), ns, name, data);
        want.insert(*t, f.clone());
        queue.push((Some(r.idx(raws.len())), f));
    }
    for _ in 0..r.idx(8) {
        let tok = uniq(&mut r);
        w.plan(tok, random_plan(&mut r, true, false));
        // own events of the peer that use the ids of outstanding requests
        let id = if r.chance(700) { ids[r.pick(&toks)] } else { r.next() };
        let f = Frame::new(codec::INIT, id, None, None, *r.pick(&["a", "b"]), token_payload(tok, 9));
        events.push((1, f.clone()));
        queue.push((Some(r.idx(raws.len())), f));
    }
    for _ in 0..r.idx(6) {
        // references that only resemble an outstanding one
        let t = r.pick(&toks);
        let near = match r.below(5) {
            0 | 1 => ids[t] ^ (1 << r.below(64)),
            2 => ids[t].wrapping_add(r.range(0, 5)).wrapping_sub(2),
            3 => ids[t].rotate_left(r.range(1, 63) as u32),
            _ => (ids[t] & u64::MAX >> r.range(1, 60)) | (r.next() & !(u64::MAX >> 16)),
        };
        if ids.values().all(|i| *i != near) {
            let tok = uniq(&mut r);
            let f = Frame::new(*r.pick(&[codec::RESP, codec::ERR, codec::INIT]), r.next(), Some(near), None, *r.pick(&["a", "b"]), token_payload(tok, 9));
            events.push((1, f.clone()));
            queue.push((Some(r.idx(raws.len())), f));
        }
    }
    for _ in 0..r.idx(5) {
        // another client's connection carries replies to requests of this one
        let tok = uniq(&mut r);
        let f = Frame::new(codec::RESP, r.next(), Some(ids[r.pick(&toks)]), None, "a", token_payload(tok, 9));
        events.push((2, f.clone()));
        queue.push((None, f));
    }
    if r.chance(500) {
        let tok = uniq(&mut r);
        let f = Frame::new(codec::END, r.next(), Some(id2), None, "end", token_payload(tok, 2));
        // on a connection of this client it answers nobody
        queue.push((Some(r.idx(raws.len())), f));
    }
    r.shuffle(&mut queue);
    // events with the same id on one connection may be handled in any order: all fine
    let mut by: Vec<Vec<u8>> = vec![vec![]; raws.len() + 1];
    for (i, f) in &queue {
        by[i.unwrap_or(raws.len())].extend(f.encode());
    }
    let mut sends = vec![];
    for (i, b) in by.into_iter().enumerate() {
        let raw = raws.get(i).unwrap_or(&raw2).clone();
        let mut r2 = r.fork();
        sends.push(tokio::spawn(async move { raw.send_chunked(&b, &mut r2).await }));
    }
    for s in sends {
        if !matches!(tokio::time::timeout(secs(1000), s).await, Ok(Ok(Ok(())))) {
            bail!("not-read", "the client stopped reading");
        }
    }
    for (t, j) in toks.iter().zip(joins) {
        let f = &want[t];
        match j.await {
            Ok(Ok(e)) => {
                ensure!(f.ty != codec::ERR, "reply", "an error reply was delivered as {:?}", e);
                ensure!(e.id() == f.id, "reply", "the request {:x} got the event {:x} referencing {:?} instead of {:x}", ids[t], e.id(), e.reference_id(), f.id);
                let same = evt_ty(e.event_type()) == f.ty && e.name() == f.name && *e.namespace() == f.ns && e.data_raw() == f.data && e.reference_id() == f.ref_id;
                ensure!(same, "changed", "the reply {} arrived as {:?}", f.short(), e);
            }
            Ok(Err(Error::ErrorEvent(d))) => {
                ensure!(f.ty == codec::ERR, "reply", "the request got an error instead of {}", f.short());
                let (c, m) = parse_err(&f.data).unwrap();
                ensure!(d.code == c && d.message == m, "reply", "the request got the error {} '{}' instead of {} '{}'", d.code, d.message, c, m);
            }
            Ok(Err(e)) => bail!("lost", "{} outstanding requests: the reply {} was not delivered: {:?}", k, f.short(), e),
            Err(e) => bail!("panic", "{}", e),
        }
    }
    // each was consumed, so later events with these references are events like any other
    let again: Vec<u64> = toks.iter().copied().filter(|_| r.chance(100)).collect();
    for t in &again {
        let tok = uniq(&mut r);
        let f = Frame::new(codec::RESP, r.next(), Some(ids[t]), None, "b", token_payload(tok, 3));
        events.push((1, f.clone()));
        let raw = r.pick(&raws).clone();
        let _ = tokio::time::timeout(secs(100), raw.frame(&f)).await;
    }
    sleep(secs(20)).await;
    ensure!(!other_wait.is_finished(), "other-client", "a reply on another client's connection was delivered: {:?}", other_wait.await.map(|x| x.map(|e| e.id())));
    let runs = w.runs();
    for run in &runs {
        let n = events.iter().filter(|(i, f)| *i == run.inst && f.id == run.id && f.data == run.data && f.name == run.hname).count();
        ensure!(n > 0, "consumed-handled", "handler '{}' of client {} ran for an event that was an awaited reply: {:x} references {:?}", run.hname, run.inst, run.id, run.ref_id);
    }
    for (i, f) in &events {
        let n = runs.iter().filter(|x| x.inst == *i && x.data == f.data).count();
        ensure!(n == 1, "not-handled", "{} is nobody's reply but was handled {} times by client {}", f.short(), n, i);
    }
    sc.count("requests answered", k as u64);
    sc.count("noise events", events.len() as u64);
    drop(pool);
    sc.case(Some(toks.iter().fold(0, |h, t| mix(h, *t))), || {
        format!("{}: {} outstanding requests over {} connections, {} other events (same ids, wrong connections, repeated)", T::NAME, k, raws.len(), events.len())
    });
    Ok(())
}

both!(early, early_);
/// Replies that arrive while the emit is still being flushed
async fn early_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let mut cfg = LinkCfg::default();
    cfg.seed = r.next();
    cfg.c2s.fdelay = r.range(1000, 100_000);
    cfg.c2s.wdelay = *r.pick(&[0, 300]);
    cfg.s2c.rmax = *r.pick(&[usize::MAX, 3, 100]);
    let w = World::new();
    let spec = vec![(None, "a".to_string())];
    let (ctx, raw) = net.raw_server(w.on_all(net.builder().timeout(secs(50)), 1, &spec), &cfg).await?;
    let k = r.range(1, 6) as usize;
    let mut joins = vec![];
    for _ in 0..k {
        let c = ctx.clone();
        let stream = r.chance(500);
        joins.push(tokio::spawn(async move {
            let e = c.emit("q", bp(vec![1; 30]));
            if stream {
                let mut v = vec![];
                let mut s = e.stream_replies().await?;
                while let Some(x) = next(&mut s).await {
                    v.push(x?);
                }
                Ok::<Vec<Event>, Error>(v)
            } else {
                Ok(vec![e.await_reply().await?])
            }
        }));
    }
    let answers = r.range(0, 5);
    let mut answered = 0;
    while answered < k {
        ensure!(raw.wait_n(answered + 1, secs(100)).await, "request", "{} of {} requests arrived", answered, k);
        let f = raw.frames()[answered].clone();
        for i in 0..answers {
            let _ = raw.frame(&Frame::new(codec::RESP, r.next(), Some(f.id), None, "p", vec![i as u8])).await;
        }
        let _ = raw.frame(&Frame::new(codec::END, r.next(), Some(f.id), None, "end", vec![0xee])).await;
        answered += 1;
    }
    for j in joins {
        match j.await {
            Ok(Ok(v)) => {
                let got: Vec<u8> = v.iter().map(|e| e.data_raw()[0]).collect();
                let mut all: Vec<u8> = (0..answers as u8).collect();
                all.push(0xee);
                ensure!(got == all || (got.len() == 1 && got[0] == all[0]), "lost", "of the replies {:?} the caller got {:?}", all, got);
            }
            Ok(Err(e)) => bail!("lost", "a reply that arrived before the emit call finished is lost: {:?}", e),
            Err(e) => bail!("panic", "{}", e),
        }
    }
    sc.case(Some(mix(cfg.c2s.fdelay, mix(k as u64, answers))), || format!("{}: {} requests with {} replies each while flushing takes up to {} us", T::NAME, k, answers + 1, cfg.c2s.fdelay));
    Ok(())
}

both!(asks, asks_);
/// Handlers of a server ask their clients, many clients at once
async fn asks_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let b = net.builder().timeout(secs(200)).on("go", |ctx: &Ctx, e: Event| {
        let ctx = ctx.clone();
        Box::pin(async move {
            // several questions at once, on the connection of the event
            let d = e.data_raw().to_vec();
            let n = d[0];
            let mut js = vec![];
            for i in 0..n {
                let mut p = d.clone();
                p.push(i);
                js.push((p.clone(), tokio::spawn(ctx.emit("echo", bp(p)).await_reply())));
            }
            for (p, j) in js {
                let e = j.await.unwrap()?;
                if e.data_raw()[1..] != p[..] || e.data_raw()[0] != 0xec {
                    return Err(Error::Message(format!("asked {:?}, got {:?}", p, e.data_raw())));
                }
            }
            let mut v = d;
            v.push(0xff);
            ctx.emit_to("n", "done", bp(v)).await?;
            Ok(Response::empty())
        }) as HFut
    });
    let _srv = net.serve(b).await;
    let w = World::new();
    let errs: Arc<std::sync::Mutex<Vec<String>>> = Default::default();
    let mut clients = vec![];
    let n = r.range(1, 5) as usize;
    for i in 0..n {
        let rnd = r.next();
        let e2 = errs.clone();
        let b = w.on_all(net.builder(), i as u32, &vec![(Some("n".into()), "done".into())]);
        let b = b
            .on("echo", move |ctx: &Ctx, e: Event| {
                let ctx = ctx.clone();
                Box::pin(async move {
                    let mut v = vec![0xec];
                    v.extend_from_slice(e.data_raw());
                    sleep(us(mix(rnd, hash_bytes(&v)) % 5000)).await;
                    Response::payload(&ctx, bp(v))
                }) as HFut
            })
            .on("error", move |_: &Ctx, e: Event| {
                let e2 = e2.clone();
                Box::pin(async move {
                    e2.lock().unwrap().push(String::from_utf8_lossy(e.data_raw()).into_owned());
                    Ok(Response::empty())
                }) as HFut
            });
        clients.push(net.client(b, &LinkCfg::random(&mut r, true)).await?);
    }
    let mut sent = vec![0usize; n];
    let total = r.range(1, 15);
    for i in 0..total {
        let k = r.idx(n);
        let d = vec![r.range(0, 12) as u8, k as u8, i as u8];
        let res = clients[k].emit("go", bp(d)).await;
        ensure!(res.is_ok(), "emit", "{:?}", res);
        sent[k] += 1;
    }
    sleep(secs(400)).await;
    ensure!(errs.lock().unwrap().is_empty(), "nested-reply", "{:?}", errs.lock().unwrap().first());
    for k in 0..n {
        let mut got: Vec<Vec<u8>> = w.runs().iter().filter(|x| x.inst == k as u32).map(|x| x.data.clone()).collect();
        got.sort();
        let m = got.len();
        got.dedup();
        ensure!(got.len() == sent[k] && m == sent[k] && got.iter().all(|d| d[1] == k as u8), "nested-reply", "client {}: {} of {} exchanges finished", k, got.len(), sent[k]);
    }
    sc.count("exchanges", total);
    sc.case(Some(sc.seed), || format!("{}: {} exchanges of server handlers with {} clients", T::NAME, total, n));
    Ok(())
}

both!(crowd, crowd_);
/// Thousands of requests wait at once, and the replies come in any order
async fn crowd_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let (ctx, raw) = net.raw_server(net.builder().timeout(secs(1000)), &LinkCfg::default()).await?;
    let n = r.range(800, if sc.thorough { 30_000 } else { 5000 });
    let mut joins = vec![];
    for tok in 0..n {
        let c = ctx.clone();
        joins.push(tokio::spawn(async move { c.emit("q", bp(tok.to_be_bytes().to_vec())).await_reply().await }));
    }
    ensure!(raw.wait_n(n as usize, secs(500)).await, "lost", "only {} of {} concurrent requests arrived", raw.frames().len(), n);
    let mut reqs: Vec<(u64, Vec<u8>)> = raw.frames().iter().map(|f| (f.id, f.data.clone())).collect();
    match r.below(3) {
        0 => {}
        1 => reqs.reverse(),
        _ => r.shuffle(&mut reqs),
    }
    for (i, (id, tok)) in reqs.iter().enumerate() {
        let mut d = tok.clone();
        d.extend_from_slice(&id.to_be_bytes());
        if raw.frame(&Frame::new(codec::END, (1 << 50) + i as u64, Some(*id), None, "end", d)).await.is_err() {
            return viol("closed", format!("the connection was closed after {} of {} replies", i, n));
        }
    }
    for (tok, j) in joins.into_iter().enumerate() {
        match j.await {
            Ok(Ok(e)) => {
                let d = e.data_raw();
                ensure!(
                    d.len() == 16 && d[..8] == (tok as u64).to_be_bytes() && e.reference_id().map(|x| x.to_be_bytes().to_vec()) == Some(d[8..].to_vec()),
                    "other-reply",
                    "request {} of {} waiting got the reply {:?}",
                    tok, n, d
                );
            }
            Ok(Err(e)) => return viol("lost", format!("request {} of {} waiting at once ended with {:?} although its reply was sent", tok, n, e)),
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    sc.count("requests waiting at once", n);
    sc.case(Some(mix(n, T::ENC as u64)), || format!("{}: {} requests at once", T::NAME, n));
    Ok(())
}

both!(crossed, crossed_);
/// A server asks its clients, and clients answer what others were asked
async fn crossed_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let w = World::new();
    let answers: Arc<std::sync::Mutex<HashMap<u64, Result<Vec<u8>, String>>>> = Default::default();
    let a2 = answers.clone();
    let b = w.on(net.builder().timeout(secs(900)), 1, "a").on("go", move |ctx: &Ctx, e: Event| {
        let (ctx, a2) = (ctx.clone(), a2.clone());
        Box::pin(async move {
            let tok = token_of(e.data_raw()).unwrap();
            let x = ctx.emit("q", bp(token_payload(tok, 3))).await_reply().await;
            a2.lock().unwrap().insert(tok, x.map(|e| e.data_raw().to_vec()).map_err(|e| format!("{:?}", e)));
            Ok(Response::empty())
        }) as HFut
    });
    let _srv = net.serve(b).await;
    let mut raws = vec![];
    for _ in 0..r.range(2, 6) {
        raws.push(net.raw_client(&LinkCfg { seed: r.next(), ..Default::default() }).await?);
    }
    // (client, token, id of the question)
    let mut asked = vec![];
    for _ in 0..r.range(1, 12) {
        let (i, tok) = (r.idx(raws.len()), uniq(&mut r));
        let _ = raws[i].frame(&Frame::new(codec::INIT, r.next(), None, None, "go", token_payload(tok, 5))).await;
        ensure!(
            raws[i].until(secs(50), |v| v.iter().any(|f| token_of(&f.0.data) == Some(tok))).await,
            "request",
            "the question of the server did not arrive"
        );
        let id = raws[i].frames().iter().find(|f| token_of(&f.data) == Some(tok)).unwrap().id;
        asked.push((i, tok, id));
    }
    // answers from the wrong ones are events like any other
    let mut wrong = vec![];
    for (i, _, id) in &asked {
        for _ in 0..r.idx(3) {
            let j = (i + 1 + r.idx(raws.len() - 1)) % raws.len();
            let ty = *r.pick(&[codec::RESP, codec::ERR, codec::INIT]);
            let f = Frame::new(ty, r.next(), Some(*id), None, "a", token_payload(uniq(&mut r), 9));
            let _ = raws[j].frame(&f).await;
            wrong.push((j, f));
        }
        let j = (i + 1 + r.idx(raws.len() - 1)) % raws.len();
        let _ = raws[j].frame(&Frame::new(codec::END, r.next(), Some(*id), None, "end", vec![7])).await;
    }
    sleep(secs(10)).await;
    ensure!(answers.lock().unwrap().is_empty(), "other-client", "a handler that asks one client got the answer of another one: {:?}", answers.lock().unwrap());
    let runs = w.runs();
    for (j, f) in &wrong {
        let n = runs.iter().filter(|x| x.data == f.data && x.id == f.id && x.ref_id == f.ref_id).count();
        ensure!(n == 1, "not-handled", "{} references a question to another client and was handled {} times", f.short(), n);
        let got = raws[*j].frames().iter().filter(|x| x.ref_id == Some(f.id) && x.ty >= codec::END).count();
        ensure!(got == 1, "not-handled", "the handled {} has {} final replies on its own connection", f.short(), got);
    }
    ensure!(runs.len() == wrong.len(), "count", "{} runs for {} events", runs.len(), wrong.len());
    // now the right ones
    r.shuffle(&mut asked);
    for (i, tok, id) in &asked {
        let mut d = tok.to_be_bytes().to_vec();
        d.push(0xaa);
        let _ = raws[*i].frame(&Frame::new(codec::RESP, r.next(), Some(*id), None, "a", d)).await;
    }
    sleep(secs(10)).await;
    let answers = answers.lock().unwrap().clone();
    for (_, tok, _) in &asked {
        let mut d = tok.to_be_bytes().to_vec();
        d.push(0xaa);
        ensure!(answers.get(tok) == Some(&Ok(d)), "lost", "a handler that asks its client got {:?}", answers.get(tok));
    }
    ensure!(w.runs().len() == wrong.len(), "consumed-handled", "an awaited reply ran a handler");
    sc.count("answers by the wrong client", wrong.len() as u64 + asked.len() as u64);
    sc.case(Some(asked.iter().fold(0, |h, a| mix(h, a.1))), || format!("{}: a server asks {} questions to {} clients", T::NAME, asked.len(), raws.len()));
    Ok(())
}

/// More than 8 unread replies of a stream hold up the other replies of the connection
async fn known_unread(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<Plain>::new(&mut r);
    let (ctx, raw) = net.raw_server(net.builder(), &LinkCfg::default()).await?;
    let mut s = match ctx.emit("many", bp(vec![])).stream_replies().await {
        Ok(s) => s,
        Err(e) => return viol("emit", format!("{:?}", e)),
    };
    raw.wait_n(1, secs(10)).await;
    let sid = raw.frames()[0].id;
    for i in 0..20 {
        let _ = raw.frame(&Frame::new(codec::RESP, 100 + i, Some(sid), None, "x", vec![i as u8])).await;
    }
    let w = tokio::spawn(ctx.emit("q", bp(vec![])).await_reply().with_timeout(secs(10)));
    raw.wait_n(2, secs(10)).await;
    let qid = raw.frames()[1].id;
    let _ = raw.frame(&Frame::new(codec::END, 200, Some(qid), None, "end", vec![])).await;
    let res = w.await.unwrap();
    if res.is_err() {
        sc.known("unread-stream-blocks", "a reply sent at once was not delivered within 10 s while 20 replies of a stream on the same connection were not read");
    }
    // reading the stream lets everything continue
    let mut got = 0;
    while got < 20 {
        match tokio::time::timeout(secs(10), next(&mut s)).await {
            Ok(Some(Ok(e))) => {
                ensure!(e.data_raw() == [got], "stream", "reply {} of the stream is {:?}", got, e.data_raw());
                got += 1
            }
            x => bail!("stream", "after {} replies the stream yields {:?}", got, x.map(|y| y.map(|z| z.is_ok()))),
        }
    }
    sc.case(Some(1), || "20 unread replies of a stream, then a request".into());
    Ok(())
}
