//! C10: reply streams
use crate::codec::{self, Frame};
use crate::core::*;
use crate::fix::*;
use crate::mesh::*;
use crate::rng::*;
use crate::sim::*;
use crate::{both, boxed, ensure};
use bromine::error::Error;
use bromine::event::Event;
use bromine::prelude::*;
use std::sync::Arc;

pub fn fams() -> Vec<Fam> {
    vec![
        fam("live", 300, 5000, boxed!(live)),
        fam("raw", 500, 8000, boxed!(raw_stream)),
        fam("patient", 120, 2000, boxed!(patient)),
        fam("long", 32, 200, boxed!(long)),
        fam("mesh", 100, 2000, boxed!(mesh10)),
    ]
}

both!(mesh10, mesh10_);
async fn mesh10_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let c = super::c07::mesh_cfg(&mut r, true);
    let m = mesh(&net, &mut r, &c).await?;
    check_callers(&m)?;
    super::c07::mesh_case(&sc, T::NAME, &c, &m);
    Ok(())
}

/// How a consumer reads
#[derive(Clone, Copy, Debug)]
pub struct Consume {
    /// waits up to this long between items (us)
    pub pause: u64,
    /// chance that a wait is given up
    pub abandon: u32,
}

pub fn consume(r: &mut Rng) -> Consume {
    Consume { pause: *r.pick(&[0, 0, 500, 20_000, 400_000]), abandon: *r.pick(&[0, 0, 200, 500]) }
}

/// Reads a stream to its end. Polls it a few times more afterwards.
pub async fn drain(s: &mut ResponseStream, c: Consume, r: &mut Rng, max: usize) -> Result<Vec<Event>, String> {
    let mut v = vec![];
    loop {
        let item = if r.chance(c.abandon) {
            match r.below(3) {
                0 => {
                    let k = 1 + r.idx(3);
                    match PollN::new(next(s), k).await {
                        Some(x) => x,
                        None => continue,
                    }
                }
                1 => {
                    let t = us(r.range(0, 3000));
                    match tokio::time::timeout(t, next(s)).await {
                        Ok(x) => x,
                        Err(_) => continue,
                    }
                }
                _ => {
                    drop(next(s));
                    continue;
                }
            }
        } else {
            next(s).await
        };
        match item {
            None => break,
            Some(Ok(e)) => v.push(e),
            Some(Err(e)) => return Err(format!("after {} items: {:?}", v.len(), e)),
        }
        if v.len() > max {
            return Err(format!("more than {} items", max));
        }
        if c.pause > 0 && r.chance(300) {
            sleep(us(r.range(0, c.pause))).await;
        }
    }
    for _ in 0..3 {
        if let Some(x) = next(s).await {
            return Err(format!("an item after the end: {:?}", x.map(|e| e.id())));
        }
    }
    Ok(v)
}

both!(live, live_);
/// A server emits numbered replies, several streams at once
async fn live_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let b = net.builder().on("s", |ctx: &Ctx, e: Event| {
        let ctx = ctx.clone();
        Box::pin(async move {
            let mut r = Rng::new(u64::from_be_bytes(e.data_raw()[..8].try_into().unwrap()));
            let n = u32::from_be_bytes(e.data_raw()[8..12].try_into().unwrap());
            for i in 0..n {
                let len = r.len(600);
                let mut d = i.to_be_bytes().to_vec();
                d.extend(r.bytes(len));
                if r.chance(200) {
                    ctx.emit_to("n", "item", bp(d)).await?;
                } else {
                    ctx.emit("item", bp(d)).await?;
                }
                if r.chance(100) {
                    sleep(us(r.range(0, 30_000))).await;
                }
            }
            match r.below(3) {
                0 => Err(Error::Message(format!("fin{}", n))),
                1 => Ok(Response::empty()),
                _ => Response::payload(&ctx, bp(vec![7; n as usize % 50])),
            }
        }) as HFut
    });
    let _srv = net.serve(b).await;
    let pool_n = if r.chance(600) { r.few() } else { 0 };
    let cfg = LinkCfg::random(&mut r, true);
    let mut pool = None;
    let one = if pool_n > 0 {
        pool = Some(net.pool(net.builder(), &cfg, pool_n).await?);
        None
    } else {
        Some(net.client(net.builder(), &cfg).await?)
    };
    let k = r.range(1, 8);
    let mut joins = vec![];
    let mut desc = vec![];
    for _ in 0..k {
        let ctx = match (&one, &pool) {
            (Some(c), _) => c.clone(),
            (_, Some(p)) => (*p.acquire()).clone(),
            _ => unreachable!(),
        };
        let n = match r.below(5) {
            0 => r.range(0, 3),
            1 => r.range(6, 12),
            2 | 3 => r.range(0, 60),
            _ => r.range(60, 300),
        } as u32;
        let c = consume(&mut r);
        desc.push((n, c.pause, c.abandon));
        let seed = r.next();
        let mut r2 = r.fork();
        joins.push(tokio::spawn(async move {
            let mut p = seed.to_be_bytes().to_vec();
            p.extend(n.to_be_bytes());
            let mut s = match ctx.emit("s", bp(p)).stream_replies().with_timeout(secs(4000)).await {
                Ok(s) => s,
                Err(e) => return viol("emit", format!("{:?}", e)),
            };
            if r2.chance(300) {
                sleep(us(r2.range(0, 2_000_000))).await;
            }
            let v = match drain(&mut s, c, &mut r2, n as usize + 5).await {
                Ok(v) => v,
                Err(m) => return viol("stream", format!("a stream of {} replies, read with {:?}: {}", n, c, m)),
            };
            ensure!(v.len() == n as usize + 1, "stream", "{} items instead of {} and the final one ({:?})", v.len(), n, c);
            let mut g = Rng::new(seed);
            for (i, e) in v.iter().take(n as usize).enumerate() {
                let len = g.len(600);
                let mut d = (i as u32).to_be_bytes().to_vec();
                d.extend(g.bytes(len));
                let ns = if g.chance(200) { Some("n".to_string()) } else { None };
                ensure!(e.data_raw() == d, "stream", "item {} of {} is {:?}", i, n, e.data_raw().get(..4));
                ensure!(*e.namespace() == ns && e.name() == "item" && evt_ty(e.event_type()) == codec::RESP, "stream", "item {} is {:?}/{}", i, e.namespace(), e.name());
                if g.chance(100) {
                    g.range(0, 30_000);
                }
            }
            let last = v.last().unwrap();
            match g.below(3) {
                0 => {
                    let (c, m) = parse_err(last.data_raw()).unwrap_or((0, String::new()));
                    ensure!(evt_ty(last.event_type()) == codec::ERR && c == 500 && m.contains(&format!("fin{}", n)), "stream", "the last item is {:?}", last);
                }
                1 => ensure!(evt_ty(last.event_type()) == codec::END && last.data_raw().is_empty(), "stream", "the last item is {:?}", last),
                _ => ensure!(evt_ty(last.event_type()) == codec::END && last.data_raw() == vec![7; n as usize % 50], "stream", "the last item is {:?}", last),
            }
            Ok(v.len() as u64)
        }));
    }
    for j in joins {
        match j.await {
            Ok(x) => sc.count("items", x?),
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    sc.case(Some(mix(sc.seed, k)), || format!("{}: {} streams (replies, pause, abandoned waits) {:?}, pool {}", T::NAME, k, desc, pool_n));
    Ok(())
}

both!(raw_stream, raw_stream_);
/// Interleaved replies of any type for several streams, and events after the final ones
async fn raw_stream_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let w = World::new();
    let b = w.on_all(net.builder(), 1, &vec![(None, "a".into()), (None, "late".into()), (None, "error".into())]);
    let pool_n = if r.chance(300) { r.few() } else { 0 };
    let cfg = LinkCfg::random(&mut r, true);
    let (ctxs, raws, pool) = if pool_n > 0 {
        let (p, raws) = raw_pool(&net, b, &cfg, pool_n).await?;
        ((0..pool_n).map(|_| (*p.acquire()).clone()).collect::<Vec<Ctx>>(), raws, Some(p))
    } else {
        let (c, raw) = net.raw_server(b, &cfg).await?;
        (vec![c], vec![raw], None)
    };
    let k = r.range(1, 6) as usize;
    let mut scripts: Vec<Vec<Frame>> = vec![];
    let mut conns = vec![];
    let mut streams = vec![];
    for i in 0..k {
        let c = r.idx(ctxs.len());
        let s = match ctxs[c].emit("q", bp(vec![i as u8])).stream_replies().with_timeout(secs(4000)).await {
            Ok(s) => s,
            Err(e) => return viol("emit", format!("{:?}", e)),
        };
        streams.push(s);
        let mut id = None;
        for _ in 0..2000 {
            id = raws.iter().flat_map(|x| x.frames()).find(|f| f.data == [i as u8]).map(|f| f.id);
            if id.is_some() {
                break;
            }
            sleep(ms(10)).await;
        }
        let id = match id {
            Some(i) => i,
            None => return viol("request", "a request did not arrive"),
        };
        let mut v = vec![];
        let n = match r.below(4) {
            0 => 0,
            1 => r.range(7, 11),
            _ => r.range(0, 40),
        };
        for _ in 0..n {
            let m = r.len(300);
            v.push(Frame::new(*r.pick(&[codec::RESP, codec::RESP, codec::INIT]), r.next(), Some(id), if r.chance(200) { Some("n") } else { None }, *r.pick(&["a", "end", "error", "x"]), r.bytes(m)));
        }
        v.push(if r.chance(600) {
            Frame::new(codec::END, r.next(), Some(id), if r.chance(200) { Some("n") } else { None }, *r.pick(&["end", "a", "error"]), r.bytes(3))
        } else {
            Frame::new(codec::ERR, r.next(), Some(id), if r.chance(200) { Some("n") } else { None }, *r.pick(&["error", "a", "end"]), err_payload(5, b"x"))
        });
        scripts.push(v);
        // all of a stream's replies come in order over one connection
        conns.push(if r.chance(800) { c } else { r.idx(raws.len()) });
    }
    // interleave
    let mut pos = vec![0; k];
    let mut by: Vec<Vec<u8>> = vec![vec![]; raws.len()];
    loop {
        let left: Vec<usize> = (0..k).filter(|i| pos[*i] < scripts[*i].len()).collect();
        if left.is_empty() {
            break;
        }
        let i = *r.pick(&left);
        by[conns[i]].extend(scripts[i][pos[i]].encode());
        pos[i] += 1;
    }
    let mut sends = vec![];
    for (i, b) in by.into_iter().enumerate() {
        let (raw, mut r2) = (raws[i].clone(), r.fork());
        sends.push(tokio::spawn(async move { raw.send_chunked(&b, &mut r2).await }));
    }
    let mut joins = vec![];
    for (mut s, v) in streams.into_iter().zip(scripts.clone()) {
        let c = consume(&mut r);
        let mut r2 = r.fork();
        joins.push(tokio::spawn(async move {
            let got = match drain(&mut s, c, &mut r2, v.len() + 5).await {
                Ok(v) => v,
                Err(m) => return viol("stream", format!("a stream of {} replies, read with {:?}: {}", v.len(), c, m)),
            };
            ensure!(got.len() == v.len(), "stream", "{} items instead of {} ({:?}); last one sent {}", got.len(), v.len(), c, v.last().unwrap().short());
            for (e, f) in got.iter().zip(v.iter()) {
                let same = e.id() == f.id && evt_ty(e.event_type()) == f.ty && e.name() == f.name && *e.namespace() == f.ns && e.data_raw() == f.data && e.reference_id() == f.ref_id;
                ensure!(same, "stream", "{} arrived as {:?}", f.short(), e);
            }
            Ok((s, v.len() as u64))
        }));
    }
    let mut done = vec![];
    for j in joins {
        match j.await {
            Ok(x) => {
                let (s, n) = x?;
                sc.count("items", n);
                done.push(s);
            }
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    for s in sends {
        if !matches!(tokio::time::timeout(secs(1000), s).await, Ok(Ok(Ok(())))) {
            return viol("not-read", "the client stopped reading");
        }
    }
    // after the end the reference means nothing any more
    let mut late = 0;
    for v in &scripts {
        if r.chance(400) {
            let tok = uniq(&mut r);
            let _ = tokio::time::timeout(secs(60), raws[0].frame(&Frame::new(codec::RESP, r.next(), v[0].ref_id, None, "late", token_payload(tok, 3)))).await;
            late += 1;
        }
    }
    sleep(secs(10)).await;
    for mut s in done {
        if let Some(x) = next(&mut s).await {
            return viol("stream", format!("an ended stream yields {:?}", x.map(|e| e.id())));
        }
    }
    let runs = w.runs();
    ensure!(runs.iter().all(|x| x.hname == "late"), "consumed-handled", "a streamed reply ran a handler: {:?}", runs.iter().find(|x| x.hname != "late").map(|x| &x.hname));
    ensure!(runs.len() == late, "late", "{} of {} events after the end of their stream were handled", runs.len(), late);
    drop(pool);
    sc.case(Some(mix(sc.seed, k as u64)), || format!("{}: {} interleaved streams with {:?} replies, {} events after the end", T::NAME, k, scripts.iter().map(|s| s.len()).collect::<Vec<_>>(), late));
    Ok(())
}

both!(long, long_);
/// Thousands of replies, slow consumers
async fn long_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let n = match sc.idx % 8 {
        0 if sc.thorough => 70_000u32,
        0 => 5_000,
        1 | 2 => 1 << r.range(4, 11),
        _ => r.range(20, 1500) as u32,
    };
    let b = net.builder().on("s", move |ctx: &Ctx, _: Event| {
        let ctx = ctx.clone();
        Box::pin(async move {
            for i in 0..n {
                ctx.emit("item", bp(i.to_be_bytes())).await?;
            }
            Ok(Response::empty())
        }) as HFut
    });
    let _srv = net.serve(b).await;
    let mut cfg = LinkCfg::default();
    cfg.s2c.cap = *r.pick(&[200, 5000, usize::MAX]);
    cfg.c2s.record = false;
    cfg.s2c.record = false;
    let ctx = net.client(net.builder(), &cfg).await?;
    let c = Consume { pause: *r.pick(&[0, 1000]), abandon: 100 };
    let mut s = ctx.emit("s", bp(vec![])).stream_replies().with_timeout(secs(4000)).await.map_err(|e| Stop::Viol { sig: "emit".into(), msg: format!("{:?}", e) })?;
    // much has arrived before anybody reads
    if r.chance(600) {
        sleep(ms(r.range(1, 3000))).await;
    }
    let v = drain(&mut s, c, &mut r, n as usize + 5).await.map_err(|m| Stop::Viol { sig: "stream".into(), msg: m })?;
    ensure!(v.len() == n as usize + 1, "stream", "{} items instead of {}", v.len(), n + 1);
    for (i, e) in v.iter().take(n as usize).enumerate() {
        ensure!(e.data_raw() == (i as u32).to_be_bytes(), "stream", "item {} is {:?}", i, e.data_raw());
    }
    sc.count("items", v.len() as u64);
    sc.case(Some(mix(sc.seed, cfg.s2c.cap as u64)), || format!("{}: a stream of {} replies, capacity {}", T::NAME, n, cfg.s2c.cap));
    Ok(())
}

both!(patient, patient_);
/// Consumers that take hours between replies which arrived long ago
async fn patient_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let limit = *r.pick(&[secs(5), secs(60), secs(100_000)]);
    let (ctx, raw) = net.raw_server(net.builder().timeout(secs(5)), &LinkCfg { seed: r.next(), ..Default::default() }).await?;
    let k = r.range(1, 3) as usize;
    let mut joins = vec![];
    for j in 0..k {
        let e = ctx.emit("s", bp(vec![j as u8])).stream_replies().with_timeout(limit);
        let mut r2 = r.fork();
        let pause = *r.pick(&[ms(900), secs(31), secs(61), secs(700), secs(4000)]);
        joins.push(tokio::spawn(async move {
            let mut s = e.await.map_err(|e| (vec![], format!("{:?}", e)))?;
            let mut v: Vec<Event> = vec![];
            let slow = r2.range(1, 6);
            let mut left = secs(5000);
            loop {
                match next(&mut s).await {
                    None => return Ok((v, pause)),
                    Some(Ok(e)) => v.push(e),
                    Some(Err(e)) => {
                        let m = format!("after {} items, with pauses of {:?}: {:?}", v.len(), pause, e);
                        return Err((v, m));
                    }
                }
                if r2.below(slow) == 0 && pause <= left {
                    left -= pause;
                    sleep(pause).await;
                }
            }
        }));
    }
    ensure!(raw.wait_n(k, secs(50)).await, "request", "the events did not arrive");
    let ids: Vec<u64> = (0..k).map(|j| raw.frames().iter().find(|f| f.data == [j as u8]).map(|f| f.id).unwrap_or(0)).collect();
    let n = r.range(1, 60) as usize;
    let mut want = vec![vec![]; k];
    let mut all = vec![];
    for i in 0..n {
        for j in 0..k {
            let f = Frame::new(if i + 1 == n { codec::END } else { codec::RESP }, r.next(), Some(ids[j]), None, "p", vec![i as u8, j as u8]);
            all.extend(f.encode());
            want[j].push(f.data);
        }
    }
    ensure!(raw.send(&all).await.is_ok(), "closed", "the connection was closed");
    // other streams on the connection are held up by one whose replies nobody takes (see the findings), so
    // with several of them the replies may come later than the time limit
    let held_up = k > 1 && n > 8;
    for (j, h) in joins.into_iter().enumerate() {
        match h.await {
            Ok(Ok((v, pause))) => {
                let got: Vec<Vec<u8>> = v.iter().map(|e| e.data_raw().to_vec()).collect();
                ensure!(got == want[j], "stream", "a stream of {} replies, read with pauses of {:?}, gave {:?}", n, pause, got);
            }
            Ok(Err((v, _))) if held_up => {
                ensure!(v.iter().zip(&want[j]).all(|(e, w)| e.data_raw() == w), "stream", "a stream that was held up gave replies out of order");
                sc.count("streams held up by another one", 1)
            }
            Ok(Err((_, e))) => return viol("stream", format!("a stream of {} replies {}", n, e)),
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    sc.count("items", (n * k) as u64);
    sc.case(Some(mix(sc.seed, n as u64)), || format!("{}: {} streams of {} replies, limit {:?}", T::NAME, k, n, limit));
    Ok(())
}
