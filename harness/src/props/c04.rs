//! C04: event ids
use crate::codec;
use crate::core::*;
use crate::fix::*;
use crate::rng::*;
use crate::sim::*;
use crate::{boxed, both, ensure};
use bromine::bytes::Bytes;
use bromine::event::Event;
use bromine::prelude::*;
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

pub fn fams() -> Vec<Fam> {
    vec![fam_multi("threads", 2, 4, boxed!(threads)), fam("live", 120, 3000, boxed!(live))]
}

/// Many threads create events as fast as they can
async fn threads(sc: Arc<Sc>) -> R {
    // beyond 2^24 in total, so that a counter of 24 bits would wrap
    let per: usize = if sc.idx == 0 { if sc.thorough { 8_000_000 } else { 2_200_000 } } else { 50_000 };
    let n = 8;
    let barrier = Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let b = barrier.clone();
            std::thread::spawn(move || {
                let mut v = Vec::with_capacity(per);
                b.wait();
                for i in 0..per {
                    let e = match i & 3 {
                        0 => Event::initiator(None, String::new(), Bytes::new()),
                        1 => Event::response(None, String::new(), Bytes::new(), 1),
                        2 => Event::end(None, String::new(), Bytes::new(), 1),
                        _ => Event::error(None, String::new(), Bytes::new(), 1),
                    };
                    v.push(e.id());
                }
                v
            })
        })
        .collect();
    let mut all: Vec<u64> = Vec::with_capacity(n * per);
    for h in hs {
        all.extend(h.join().unwrap());
    }
    all.sort_unstable();
    for w in all.windows(2) {
        ensure!(w[0] != w[1], "duplicate", "the id {:x} was given to two events among {}", w[0], all.len());
    }
    sc.count("events created concurrently", all.len() as u64);
    sc.case(Some(sc.idx), || format!("{} threads created {} events each", n, per));
    Ok(())
}

both!(live, live_);
async fn live_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    // (id as returned by emit, or as seen by a handler) by token
    let sent: Arc<Mutex<Vec<(u64, u64)>>> = Default::default();
    let seen: Arc<Mutex<Vec<(u64, u64)>>> = Default::default();
    let (s2, h2) = (sent.clone(), seen.clone());
    let tok = Arc::new(std::sync::atomic::AtomicU64::new(1));
    let t2 = tok.clone();
    let server = net.builder().on("q", move |ctx: &Ctx, e: Event| {
        let (s, h, t) = (s2.clone(), h2.clone(), t2.clone());
        Box::pin(async move {
            let k = token_of(e.data_raw()).unwrap_or(0);
            h.lock().unwrap().push((k, e.id()));
            for _ in 0..k % 3 {
                let k = t.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let id = if k % 2 == 0 { ctx.emit("p", bp(token_payload(k, 3))).await? } else { ctx.emit_to("n", "p", bp(token_payload(k, 3))).await? };
                s.lock().unwrap().push((k, id));
            }
            Response::payload(ctx, bp(token_payload(k, 0)))
        }) as HFut
    });
    let _srv = net.serve(server).await;
    let cb = || {
        let h2 = seen.clone();
        let h = move |ctx: &Ctx, e: Event| {
            let h = h2.clone();
            let _ = ctx;
            Box::pin(async move {
                h.lock().unwrap().push((token_of(e.data_raw()).unwrap_or(0), e.id()));
                Ok(Response::empty())
            }) as HFut<'static>
        };
        let h1 = h.clone();
        net.builder().on("p", move |c: &Ctx, e: Event| h(c, e) as HFut).namespace("n").on("p", move |c: &Ctx, e: Event| h1(c, e) as HFut).build()
    };
    let mut ctxs = vec![];
    for _ in 0..1 + r.idx(3) {
        ctxs.push(net.client(cb(), &LinkCfg::random(&mut r, true)).await?);
    }
    let mut tasks = vec![];
    for c in &ctxs {
        for _ in 0..1 + r.idx(3) {
            let (c, s, t, sc, mut r) = (c.clone(), sent.clone(), tok.clone(), sc.clone(), r.fork());
            tasks.push(tokio::spawn(async move {
                for _ in 0..6 {
                    let k = t.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let n = r.idx(50);
                    if r.chance(500) {
                        match c.emit("q", bp(token_payload(k, n))).await {
                            Ok(id) => s.lock().unwrap().push((k, id)),
                            Err(e) => sc.fail("emit-failed", format!("{:?}", e)),
                        }
                    } else {
                        match c.emit("q", bp(token_payload(k, n))).await_reply().await {
                            Ok(e) => s.lock().unwrap().push((k, e.reference_id().unwrap_or(0))),
                            Err(e) => sc.fail("reply-failed", format!("{:?}", e)),
                        }
                    }
                }
            }));
        }
    }
    for t in tasks {
        let _ = t.await;
    }
    sleep(secs(100)).await;
    // each token has one id, the same everywhere
    let sent = sent.lock().unwrap().clone();
    let seen = seen.lock().unwrap().clone();
    let by: std::collections::HashMap<u64, u64> = seen.iter().cloned().collect();
    for (k, id) in &sent {
        match by.get(k) {
            Some(x) => ensure!(x == id, "id-differs", "event {} was emitted with id {:x} but the handler saw {:x}", k, id, x),
            // a reply that its caller consumed has no handler
            None => {}
        }
    }
    let ids: HashSet<u64> = sent.iter().map(|x| x.1).collect();
    ensure!(ids.len() == sent.len(), "duplicate", "{} events have {} ids", sent.len(), ids.len());
    let mut wire: HashSet<u64> = HashSet::new();
    let mut total = 0;
    if !T::ENC {
        for l in net.links.lock().unwrap().iter() {
            for (d, from_client) in [(&l.c2s, true), (&l.s2c, false)] {
                let (fs, _) = codec::parse_all(&d.recorded()).map_err(|e| Stop::Viol { sig: "wire".into(), msg: e })?;
                for f in fs {
                    total += 1;
                    ensure!(wire.insert(f.id), "duplicate", "two events on the wire have the id {:x}", f.id);
                    if from_client && f.ty == codec::INIT {
                        let k = token_of(&f.data).unwrap_or(0);
                        ensure!(by.get(&k) == Some(&f.id), "id-differs", "event {} has id {:x} on the wire but the handler saw {:?}", k, f.id, by.get(&k));
                    }
                }
                // each reply references the id that was on the wire
            }
        }
        for l in net.links.lock().unwrap().iter() {
            let c: HashSet<u64> = codec::parse_all(&l.c2s.recorded()).unwrap().0.iter().map(|f| f.id).collect();
            let s: HashSet<u64> = codec::parse_all(&l.s2c.recorded()).unwrap().0.iter().map(|f| f.id).collect();
            for f in codec::parse_all(&l.s2c.recorded()).unwrap().0 {
                if let Some(x) = f.ref_id {
                    ensure!(c.contains(&x), "reference", "{} references an id that the client never used on that connection", f.short());
                }
            }
            for f in codec::parse_all(&l.c2s.recorded()).unwrap().0 {
                if let Some(x) = f.ref_id {
                    ensure!(s.contains(&x), "reference", "{} references an id that the server never used on that connection", f.short());
                }
            }
        }
        sc.count("frames on the wire", total);
    }
    sc.count("emitted ids compared", sent.len() as u64);
    let mut h = 0;
    for (k, _) in &seen {
        h = mix(h, *k);
    }
    sc.case(Some(h), || format!("{}: {} clients, {} emits, {} handled", T::NAME, ctxs.len(), sent.len(), seen.len()));
    Ok(())
}
