//! C19: abandoned operations
use crate::codec::{self, Frame};
use crate::core::*;
use crate::fix::*;
use crate::mesh;
use crate::rng::*;
use crate::sim::*;
use crate::{both, boxed, ensure};
use bromine::event::Event;
use bromine::prelude::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub fn fams() -> Vec<Fam> {
    vec![
        fam("polls", 180, 4000, boxed!(polls)),
        fam("storm", 250, 6000, boxed!(storm)),
        fam("streams", 500, 9000, boxed!(streams)),
        fam("handlers", 150, 4000, boxed!(handlers)),
        fam("large", 60, 1200, boxed!(large)),
        fam_multi("threads", 3, 40, boxed!(threads)),
    ]
}

/// Answers every initiator: as many items as the first byte after the token says, then an end
fn auto(raw: &Raw, tag: u64, delay: u64) -> tokio::task::JoinHandle<()> {
    let raw = raw.clone();
    tokio::spawn(async move {
        let mut k = 0;
        let mut id = tag << 48;
        let mut r = Rng::new(tag ^ delay);
        while raw.wait_n(k + 1, secs(9000)).await {
            let f = raw.timed()[k].0.clone();
            k += 1;
            if f.ty != codec::INIT {
                continue;
            }
            let raw = raw.clone();
            let wait = us(r.range(0, delay));
            id += 100;
            let base = id;
            tokio::spawn(async move {
                sleep(wait).await;
                let n = if f.name == "many" { 5 } else { 0 };
                for i in 0..n {
                    let mut d = f.data.clone();
                    d.push(i);
                    if raw.frame(&Frame::new(codec::RESP, base + i as u64, Some(f.id), None, "item", d)).await.is_err() {
                        return;
                    }
                }
                let mut d = f.data.clone();
                d.push(99);
                let _ = raw.frame(&Frame::new(codec::END, base + 50, Some(f.id), None, "end", d)).await;
            });
        }
    })
}

/// A complete request that nobody abandons; every item is compared
async fn good(ctx: &Ctx, r: &mut Rng, tok: u64) -> R {
    let len = r.len(300);
    let mut want = token_payload(tok, len);
    let p = bp(want.clone());
    let bad = |e: bromine::error::Error| viol("other", format!("a request that nobody abandoned failed: {:?}", e));
    match r.below(3) {
        0 => match ctx.emit("fire", p).await {
            Ok(_) => Ok(()),
            Err(e) => bad(e),
        },
        1 => match ctx.emit_to("ns", "one", p).await_reply().with_timeout(secs(3000)).await {
            Ok(e) => {
                want.push(99);
                ensure!(e.data_raw() == &want[..], "other", "a request that nobody abandoned got another reply");
                Ok(())
            }
            Err(e) => bad(e),
        },
        _ => {
            let mut s = match ctx.emit("many", p).stream_replies().with_timeout(secs(3000)).await {
                Ok(s) => s,
                Err(e) => return bad(e),
            };
            let mut got = vec![];
            while let Some(x) = next(&mut s).await {
                match x {
                    Ok(e) => {
                        ensure!(e.data_raw().len() == want.len() + 1 && e.data_raw()[..want.len()] == want[..], "other", "a stream that nobody abandoned got an item of another one");
                        got.push(*e.data_raw().last().unwrap());
                    }
                    Err(e) => return bad(e),
                }
            }
            ensure!(got == [0, 1, 2, 3, 4, 99], "other", "a stream that nobody abandoned got the items {:?}", got);
            Ok(())
        }
    }
}

const OPS: &[&str] = &["emit", "emit big", "emit_to", "await_reply", "await_reply big", "stream request", "stream", "await_reply timeout"];

/// A payload whose frame has a size around a power of two
fn sized(tok: u64, ns: Option<&str>, name: &str) -> Vec<u8> {
    let k = (tok >> 8) % 8;
    let want = (256usize << k) + 1 - ((tok >> 16) % 3) as usize;
    let head = Frame::new(codec::INIT, 1, None, ns, name, token_payload(tok, 0)).encode().len();
    token_payload(tok, want.saturating_sub(head))
}

/// The operation that will be abandoned
async fn victim(kind: usize, ctx: Ctx, tok: u64) {
    let p = bp(token_payload(tok, (tok % 60) as usize));
    let big = || bp(token_payload(tok, 1500 + (tok % 2000) as usize));
    match OPS[kind] {
        "emit" => drop(ctx.emit("fire", p).await),
        "emit big" if tok % 3 == 0 => drop(ctx.emit("fire", bp(sized(tok, None, "fire"))).await),
        "await_reply big" if tok % 3 == 0 => drop(ctx.emit("one", bp(sized(tok, None, "one"))).await_reply().with_timeout(secs(3000)).await),
        "emit big" => drop(ctx.emit("fire", big()).await),
        "emit_to" => drop(ctx.emit_to("ns", "fire", p).await),
        "await_reply" => drop(ctx.emit("one", p).await_reply().with_timeout(secs(3000)).await),
        "await_reply big" => drop(ctx.emit("one", big()).await_reply().with_timeout(secs(3000)).await),
        "await_reply timeout" => drop(ctx.emit("one", p).await_reply().with_timeout(us(tok % 900)).await),
        "stream request" => drop(ctx.emit("many", p).stream_replies().with_timeout(secs(3000)).await),
        _ => {
            if let Ok(mut s) = ctx.emit("many", p).stream_replies().with_timeout(secs(3000)).await {
                while next(&mut s).await.is_some() {}
            }
        }
    }
}

/// Every frame is whole and every event there once, in the order of its task
fn wire(what: &str, raw: &Raw, good: &[Vec<u64>], victims: &HashMap<u64, bool>) -> R<(u64, u64)> {
    ensure!(raw.bad().is_none(), "corrupt", "{}: the byte stream is corrupt: {}", what, raw.bad().unwrap());
    let frames = raw.frames();
    let mut pos: HashMap<u64, usize> = HashMap::new();
    let mut whole = 0;
    for (i, f) in frames.iter().enumerate() {
        if f.ty != codec::INIT {
            continue;
        }
        let t = match token_of(&f.data) {
            Some(t) => t,
            None => return viol("corrupt", format!("{}: an event arrived with another payload than any that was sent: {}", what, f.short())),
        };
        ensure!(pos.insert(t, i).is_none(), "twice", "{}: an event was delivered twice: {}", what, f.short());
        if victims.contains_key(&t) {
            whole += 1;
        }
    }
    for g in good {
        let mut last = None;
        for t in g {
            match pos.get(t) {
                None => return viol("lost", format!("{}: an event that nobody abandoned was not delivered ({} frames arrived)", what, frames.len())),
                Some(p) => {
                    ensure!(last < Some(*p), "order", "{}: the events of a task arrived in another order than they were sent", what);
                    last = Some(*p);
                }
            }
        }
    }
    for (t, done) in victims {
        ensure!(!done || pos.contains_key(t), "lost", "{}: an event whose emit had succeeded was not delivered", what);
    }
    let known: usize = good.iter().map(|g| g.len()).sum::<usize>() + whole;
    ensure!(known == pos.len(), "unknown", "{}: {} events arrived that nobody sent", what, pos.len() - known);
    Ok((frames.len() as u64, whole as u64))
}

both!(polls, polls_);
/// Abandons one operation after 0, 1, 2, .. polls until it completes
async fn polls_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let kind = (sc.idx / 2) as usize % OPS.len();
    let cfg = LinkCfg::tight(&mut r);
    let (ctx, raw) = net.raw_server(net.builder().timeout(secs(3000)), &cfg).await?;
    let a = auto(&raw, 1, 700);
    let mut tasks: Vec<Vec<u64>> = vec![vec![]];
    let mut victims = HashMap::new();
    // somebody else uses the connection all the time
    let busy = sc.idx % 5 != 0;
    let stop = Arc::new(AtomicU64::new(0));
    let other = {
        let (ctx, mut r, stop) = (ctx.clone(), r.fork(), stop.clone());
        tokio::spawn(async move {
            let mut toks = vec![];
            while busy && stop.load(Ordering::Relaxed) == 0 {
                let t = mesh::uniq(&mut r);
                toks.push(t);
                good(&ctx, &mut r, t).await?;
                sleep(us(r.range(0, 1500))).await;
            }
            Ok::<Vec<u64>, Stop>(toks)
        })
    };
    let mut k = 0;
    let mut drops = 0u64;
    loop {
        let tok = mesh::uniq(&mut r);
        // an emit that was done must have been delivered; others may have been
        let done = PollN::new(victim(kind, ctx.clone(), tok), k).await.is_some();
        victims.insert(tok, done && kind <= 2);
        drops += 1;
        if r.chance(500) {
            sleep(us(r.range(0, 2000))).await;
        }
        if r.chance(600) || !busy {
            let t = mesh::uniq(&mut r);
            tasks[0].push(t);
            good(&ctx, &mut r, t).await?;
        }
        if done || k > 400 {
            break;
        }
        k += if k > 60 { 1 + r.idx(7) } else { 1 };
    }
    stop.store(1, Ordering::Relaxed);
    match other.await {
        Ok(x) => tasks.push(x?),
        Err(e) => return viol("panic", format!("{}", e)),
    }
    // what a dropped operation left is completed with the next event at the latest
    let t = mesh::uniq(&mut r);
    tasks[0].push(t);
    good(&ctx, &mut r, t).await?;
    net.settle(secs(5)).await;
    a.abort();
    ensure!(raw.partial() == 0, "partial", "{} {}: half a frame was left on the connection", T::NAME, OPS[kind]);
    let (n, whole) = wire(&format!("{} \"{}\" dropped after up to {} polls on {}", T::NAME, OPS[kind], k, cfg.desc()), &raw, &tasks, &victims)?;
    sc.count("operations dropped", drops);
    sc.count("abandoned events that arrived whole", whole);
    sc.count("frames", n);
    sc.case(Some(mix(sc.seed, drops)), || format!("{} \"{}\" dropped after 0..{} polls, {} of {} abandoned events arrived; {}", T::NAME, OPS[kind], k, whole, drops, cfg.desc()));
    Ok(())
}

both!(large, large_);
/// Large events are given up when a part of them is written
async fn large_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let step = *r.pick(&[500usize, 4000, 30_000, 200_000]);
    let dir = |r: &mut Rng| DirCfg { cap: step, wmax: step, lat: (0, 300), wpend: 100, hold: r.chance(300), fdelay: if r.chance(300) { 500 } else { 0 }, ..Default::default() };
    let cfg = LinkCfg { c2s: dir(&mut r), s2c: DirCfg::default(), seed: r.next() };
    let (ctx, raw) = net.raw_server(net.builder().timeout(secs(3000)), &cfg).await?;
    let a = auto(&raw, 1, 700);
    let mut tasks: Vec<Vec<u64>> = vec![vec![]];
    let mut victims = HashMap::new();
    let mut lens = vec![];
    for _ in 0..r.range(2, 6) {
        let t = mesh::uniq(&mut r);
        let len = match r.below(4) {
            0 => *r.pick(&[65_535usize, 65_536, 65_537, 131_072, 1 << 20]),
            1 => r.range(10_000, 100_000) as usize,
            _ => r.range(100_000, 150 * step as u64 + 200_000) as usize,
        }
        .min(4_000_000);
        // of about this many polls one is the last
        let polls = r.idx(2 * len / step + 8);
        let p = bp(token_payload(t, len));
        let how = r.below(3);
        let done = match how {
            0 => PollN::new(ctx.emit("fire", p), polls).await.is_some(),
            1 => PollN::new(ctx.emit("one", p).await_reply().with_timeout(secs(3000)), polls).await.is_some(),
            _ => PollN::new(ctx.emit("many", p).stream_replies().with_timeout(secs(3000)), polls).await.is_some(),
        };
        victims.insert(t, done && how == 0);
        lens.push((len, polls, done));
        if r.chance(300) {
            sleep(us(r.range(0, 3000))).await;
        }
        if r.chance(600) {
            let t = mesh::uniq(&mut r);
            tasks[0].push(t);
            good(&ctx, &mut r, t).await?;
        }
    }
    let t = mesh::uniq(&mut r);
    tasks[0].push(t);
    good(&ctx, &mut r, t).await?;
    net.settle(secs(5)).await;
    a.abort();
    ensure!(raw.partial() == 0, "partial", "{}: half a frame was left on the connection", T::NAME);
    let (n, whole) = wire(&format!("{} with large events (bytes, polls, done) {:?} on {}", T::NAME, lens, cfg.desc()), &raw, &tasks, &victims)?;
    sc.count("large operations dropped", lens.iter().filter(|l| !l.2).count() as u64);
    sc.count("abandoned events that arrived whole", whole);
    sc.count("frames", n);
    sc.case(Some(mix(sc.seed, lens.len() as u64)), || format!("{}: large events (bytes, polls, done) {:?}", T::NAME, lens));
    Ok(())
}

both!(streams, streams_);
/// Streams that are dropped while their replies keep coming and hold up the connection
async fn streams_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let cfg = if r.chance(500) { LinkCfg::tight(&mut r) } else { LinkCfg::random(&mut r, true) };
    let pushes: Arc<Mutex<Vec<u64>>> = Default::default();
    let p2 = pushes.clone();
    let b = net.builder().timeout(secs(3000)).on("push", hnd(move |_: &Ctx, e: Event| {
        let p = p2.clone();
        Box::pin(async move {
            p.lock().unwrap().push(token_of(e.data_raw()).unwrap_or(0));
            Ok(Response::empty())
        })
    }));
    let b = ["end", "item"].iter().fold(b, |b, n| b.on(n, hnd(|_: &Ctx, _: Event| Box::pin(async { Ok(Response::empty()) }))));
    let (ctx, raw) = net.raw_server(b, &cfg).await?;
    let mut pushed = vec![];
    let mut desc = vec![];
    for _ in 0..r.range(1, 4) {
        raw.clear();
        let n = r.range(2, 8) as usize;
        let mut streams = vec![];
        for i in 0..n {
            match ctx.emit("q", bp(vec![i as u8])).stream_replies().with_timeout(secs(3000)).await {
                Ok(s) => streams.push(s),
                Err(e) => return viol("other", format!("emitting failed: {:?}", e)),
            }
        }
        ensure!(raw.until(secs(100), |f| f.iter().filter(|x| x.0.name == "q").count() == n).await, "lost", "requests do not arrive");
        let ids: Vec<u64> = raw.frames().iter().filter(|x| x.name == "q").map(|x| x.id).collect();
        // replies: of each stream in order, otherwise mixed
        let lens: Vec<usize> = (0..n).map(|_| r.idx(25)).collect();
        let mut todo: Vec<usize> = (0..n).flat_map(|i| vec![i; lens[i] + 1]).collect();
        r.shuffle(&mut todo);
        let mut sent = vec![0; n];
        let mut bytes = vec![];
        for i in todo {
            let last = sent[i] == lens[i];
            let f = Frame::new(if last { codec::END } else { codec::RESP }, r.next(), Some(ids[i]), None, if last { "end" } else { "item" }, vec![i as u8, sent[i] as u8]);
            bytes.extend(f.encode());
            sent[i] += 1;
            if r.chance(100) {
                let t = mesh::uniq(&mut r);
                pushed.push(t);
                bytes.extend(Frame::new(codec::INIT, r.next(), None, None, "push", token_payload(t, 3)).encode());
            }
        }
        let (raw2, mut r2) = (raw.clone(), r.fork());
        let send = tokio::spawn(async move { raw2.send_chunked(&bytes, &mut r2).await });
        let mut js = vec![];
        let mut gone = 0;
        for (i, mut s) in streams.into_iter().enumerate() {
            let (want, mut r) = (lens[i] as u8, r.fork());
            let abandon = i > 0 && r.chance(600);
            gone += abandon as u32;
            js.push(tokio::spawn(async move {
                if r.chance(300) {
                    sleep(us(r.range(0, 3000))).await;
                }
                let upto = if abandon { r.idx(want as usize + 2) as u8 } else { want + 1 };
                let mut k = 0;
                while k < upto {
                    let x = if r.chance(300) {
                        // an abandoned wait for the next one
                        match PollN::new(next(&mut s), 1 + r.idx(2)).await {
                            Some(x) => x,
                            None => {
                                sleep(us(r.range(0, 300))).await;
                                continue;
                            }
                        }
                    } else {
                        next(&mut s).await
                    };
                    match x {
                        Some(Ok(e)) => {
                            ensure!(e.data_raw() == [i as u8, k], "other", "reply {} of stream {} is {:?}", k, i, e.data_raw());
                            k += 1;
                        }
                        x => return viol("lost", format!("instead of reply {} of {} a stream yields {:?}", k, want + 1, x.map(|y| y.map(|e| e.id())))),
                    }
                }
                if abandon {
                    if r.chance(300) {
                        let _ = PollN::new(next(&mut s), 1).await;
                    }
                    sleep(us(r.range(0, 5000))).await;
                } else {
                    ensure!(next(&mut s).await.is_none(), "other", "a stream goes on after its end");
                }
                drop(s);
                Ok(())
            }));
        }
        for j in js {
            match tokio::time::timeout(secs(2500), j).await {
                Ok(Ok(x)) => x?,
                Ok(Err(e)) => return viol("panic", format!("{}", e)),
                Err(_) => return viol("stuck", "a stream that nobody abandoned does not go on after others were dropped"),
            }
        }
        match tokio::time::timeout(secs(1000), send).await {
            Ok(Ok(Ok(()))) => {}
            _ => return viol("stuck", "the connection is no longer read after streams were dropped"),
        }
        // the connection goes on
        let t = mesh::uniq(&mut r);
        let (ctx2, p) = (ctx.clone(), token_payload(t, 9));
        let req = tokio::spawn(async move { ctx2.emit("after", bp(p)).await_reply().with_timeout(secs(500)).await });
        ensure!(raw.until(secs(100), |f| f.iter().any(|x| x.0.name == "after")).await, "lost", "a request after dropped streams does not arrive");
        let f = raw.frames().into_iter().find(|x| x.name == "after").unwrap();
        let _ = raw.frame(&Frame::new(codec::END, 5, Some(f.id), None, "end", f.data)).await;
        match req.await {
            Ok(Ok(e)) => ensure!(token_of(e.data_raw()) == Some(t), "other", "a request got another reply"),
            x => return viol("lost", format!("a request after dropped streams is not answered: {:?}", x.map(|y| y.map(|e| e.id())))),
        }
        sc.count("streams", n as u64);
        sc.count("streams dropped", gone as u64);
        desc.push((n, gone));
    }
    sleep(secs(5)).await;
    let mut got = pushes.lock().unwrap().clone();
    got.sort();
    pushed.sort();
    ensure!(got == pushed, "lost", "{} of {} events that came between the replies of dropped streams were handled", got.len(), pushed.len());
    ensure!(raw.bad().is_none() && raw.partial() == 0, "corrupt", "the byte stream is corrupt: {:?}", raw.bad());
    sc.case(Some(mix(sc.seed, hash_bytes(format!("{:?}", desc).as_bytes()))), || format!("{}: (streams, dropped) {:?}, {} other events", T::NAME, desc, pushed.len()));
    Ok(())
}

both!(storm, storm_);
/// Many tasks, some of which are aborted, on one or more connections; events come in the other direction, too
async fn storm_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let n = if r.chance(600) { 1 } else { r.range(2, 4) as usize };
    let cfg = if r.chance(600) { LinkCfg::tight(&mut r) } else { LinkCfg::random(&mut r, true) };
    let seen: Arc<Mutex<Vec<u64>>> = Default::default();
    let s2 = seen.clone();
    let b = net.builder().timeout(secs(3000)).on("push", hnd(move |_: &Ctx, e: Event| {
        let s = s2.clone();
        Box::pin(async move {
            s.lock().unwrap().push(token_of(e.data_raw()).unwrap_or(0));
            Ok(Response::empty())
        })
    }));
    let b = ["end", "item", "error"].iter().fold(b, |b, n| b.on(n, hnd(|_: &Ctx, _: Event| Box::pin(async { Ok(Response::empty()) }))));
    let (pool, raws) = mesh::raw_pool(&net, b, &cfg, n).await?;
    let autos: Vec<_> = raws.iter().enumerate().map(|(i, raw)| auto(raw, 1 + i as u64, 1500)).collect();
    // events of the peer
    let mut pushed = vec![];
    let mut pushers = vec![];
    for (i, raw) in raws.iter().enumerate() {
        let toks: Vec<u64> = (0..r.range(3, 12)).map(|_| mesh::uniq(&mut r)).collect();
        pushed.extend(toks.clone());
        let (raw, mut r) = (raw.clone(), r.fork());
        pushers.push(tokio::spawn(async move {
            for (k, t) in toks.into_iter().enumerate() {
                let _ = raw.frame(&Frame::new(codec::INIT, (9 << 56) + (i as u64) * 1000 + k as u64, None, None, "push", token_payload(t, r.idx(60)))).await;
                sleep(us(r.range(0, 2000))).await;
            }
        }));
    }
    // tasks[connection][task]
    let mut guards: Vec<(usize, Ctx)> = vec![];
    for i in 0..n {
        let g = pool.acquire();
        guards.push((i, (*g).clone()));
        std::mem::forget(g);
    }
    let mut goods = vec![];
    for _ in 0..r.range(1, 4) {
        let (c, ctx) = guards[r.idx(n)].clone();
        let mut r = r.fork();
        goods.push((c, tokio::spawn(async move {
            let mut toks = vec![];
            for _ in 0..r.range(3, 15) {
                let t = mesh::uniq(&mut r);
                toks.push(t);
                good(&ctx, &mut r, t).await?;
            }
            Ok::<Vec<u64>, Stop>(toks)
        })));
    }
    let mut vs = vec![];
    let mut drops = 0;
    for _ in 0..r.range(2, 7) {
        let (c, ctx) = guards[r.idx(n)].clone();
        let mut r = r.fork();
        vs.push((c, tokio::spawn(async move {
            let mut m = HashMap::new();
            for _ in 0..r.range(3, 14) {
                let tok = mesh::uniq(&mut r);
                let kind = r.idx(OPS.len());
                let f = victim(kind, ctx.clone(), tok);
                let done = match r.below(4) {
                    0 => PollN::new(f, r.idx(30)).await.is_some(),
                    1 => tokio::time::timeout(us(r.range(0, 5000)), f).await.is_ok(),
                    2 => {
                        let j = tokio::spawn(f);
                        if r.chance(500) {
                            sleep(us(r.range(0, 3000))).await;
                        }
                        j.abort();
                        j.await.is_ok()
                    }
                    _ => {
                        // two requests of one task, of which the slower one is dropped
                        let tok2 = mesh::uniq(&mut r);
                        m.insert(tok2, false);
                        tokio::select! {
                            _ = f => true,
                            _ = victim(r.idx(OPS.len()), ctx.clone(), tok2) => false,
                        }
                    }
                };
                m.insert(tok, done && kind <= 2);
            }
            m
        })));
    }
    let mut tasks: Vec<Vec<Vec<u64>>> = vec![vec![]; n];
    for (c, j) in goods {
        match j.await {
            Ok(x) => tasks[c].push(x?),
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    let mut victims = vec![HashMap::new(); n];
    for (c, j) in vs {
        match j.await {
            Ok(x) => {
                drops += x.len() as u64;
                victims[c].extend(x)
            }
            Err(e) => return viol("panic", format!("an abandoned operation panicked: {}", e)),
        }
    }
    for j in pushers {
        let _ = j.await;
    }
    for (c, ctx) in &guards {
        let t = mesh::uniq(&mut r);
        good(ctx, &mut r, t).await?;
        tasks[*c].push(vec![t]);
    }
    net.settle(secs(10)).await;
    for a in autos {
        a.abort();
    }
    // which guard is which connection is not known: all connections together
    let mut whole = 0;
    let mut frames = 0;
    let all_good: Vec<Vec<u64>> = tasks.into_iter().flatten().collect();
    let all_victims: HashMap<u64, bool> = victims.into_iter().flatten().collect();
    if n == 1 {
        ensure!(raws[0].partial() == 0, "partial", "{}: half a frame was left on the connection", T::NAME);
        let (a, b) = wire(&format!("{} storm on {}", T::NAME, cfg.desc()), &raws[0], &all_good, &all_victims)?;
        frames += a;
        whole += b;
    } else {
        let mut count: HashMap<u64, u32> = HashMap::new();
        for raw in &raws {
            ensure!(raw.bad().is_none(), "corrupt", "{} storm: the byte stream is corrupt: {}", T::NAME, raw.bad().unwrap());
            ensure!(raw.partial() == 0, "partial", "{} storm: half a frame was left on a connection", T::NAME);
            for f in raw.frames().iter().filter(|f| f.ty == codec::INIT) {
                frames += 1;
                match token_of(&f.data) {
                    Some(t) => *count.entry(t).or_default() += 1,
                    None => return viol("corrupt", format!("{} storm: an event arrived with another payload than any that was sent: {}", T::NAME, f.short())),
                }
            }
        }
        for t in all_good.iter().flatten() {
            ensure!(count.get(t) == Some(&1), "lost", "{} storm: an event that nobody abandoned was delivered {:?} times", T::NAME, count.get(t));
        }
        for (t, done) in &all_victims {
            let k = count.get(t).copied().unwrap_or(0);
            ensure!(k <= 1 && (!done || k == 1), "twice", "{} storm: an abandoned event was delivered {} times", T::NAME, k);
            whole += k as u64;
        }
    }
    let mut got = seen.lock().unwrap().clone();
    got.sort();
    pushed.sort();
    ensure!(got == pushed, "dispatch", "{} storm: {} of {} events of the peer ran their handler", T::NAME, got.len(), pushed.len());
    sc.count("operations dropped", drops);
    sc.count("abandoned events that arrived whole", whole);
    sc.count("frames", frames);
    sc.case(Some(mix(sc.seed, frames)), || format!("{} {} connections, {} abandoned operations, {} of them arrived whole", T::NAME, n, drops, whole));
    Ok(())
}

both!(handlers, handlers_);
/// Handlers that abandon what they emit and ask, between bromine on both sides
async fn handlers_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    // what each side got: (token, times)
    let got: Arc<Mutex<HashMap<u64, u32>>> = Default::default();
    let gone: Arc<Mutex<Vec<u64>>> = Default::default();
    let note = {
        let got = got.clone();
        move || {
            let got = got.clone();
            hnd(move |ctx: &Ctx, e: Event| {
                let got = got.clone();
                Box::pin(async move {
                    match token_of(e.data_raw()) {
                        Some(t) => *got.lock().unwrap().entry(t).or_default() += 1,
                        None => *got.lock().unwrap().entry(0).or_default() += 1,
                    }
                    Response::payload(ctx, bp(e.data_raw().to_vec()))
                })
            })
        }
    };
    let g2 = gone.clone();
    let work = hnd(move |ctx: &Ctx, e: Event| {
        let gone = g2.clone();
        Box::pin(async move {
            let tok = token_of(e.data_raw()).unwrap_or(0);
            let mut r = Rng::new(tok);
            for _ in 0..r.range(1, 5) {
                let t = mesh::uniq(&mut r);
                gone.lock().unwrap().push(t);
                let p = bp(token_payload(t, r.len(800)));
                let k = r.idx(20);
                match r.below(4) {
                    0 => drop(PollN::new(async { ctx.emit_to("n", "note", p).await.is_ok() }, k).await),
                    1 => drop(PollN::new(async { ctx.emit_to("n", "note", p).await_reply().with_timeout(secs(20)).await.is_ok() }, k).await),
                    2 => drop(PollN::new(async { ctx.emit_to("n", "note", p).stream_replies().await.is_ok() }, k).await),
                    _ => drop(tokio::time::timeout(us(r.range(0, 3000)), ctx.emit_to("n", "note", p).await_reply()).await),
                }
                if r.chance(300) {
                    sleep(us(r.range(0, 1500))).await;
                }
            }
            Response::payload(ctx, bp(e.data_raw().to_vec()))
        })
    });
    let nop = hnd(|_: &Ctx, _: Event| Box::pin(async { Ok(Response::empty()) }));
    let srv = net.builder().timeout(secs(3000)).on("work", work).on("end", nop).on("error", nop).namespace("n").on("note", note()).on("end", nop).on("error", nop).build();
    let _srv = net.serve(srv).await;
    let mut js = vec![];
    let mut noted = vec![];
    for _ in 0..r.range(1, 4) {
        let cfg = if r.chance(600) { LinkCfg::tight(&mut r) } else { LinkCfg::random(&mut r, true) };
        let b = net.builder().timeout(secs(3000)).on("end", nop).on("error", nop).namespace("n").on("note", note()).on("end", nop).on("error", nop).build();
        let c = net.client(b, &cfg).await?;
        for _ in 0..r.range(1, 4) {
            let (c, mut r) = (c.clone(), r.fork());
            let toks: Vec<(bool, u64)> = (0..r.range(2, 8)).map(|_| (r.chance(500), mesh::uniq(&mut r))).collect();
            noted.extend(toks.iter().filter(|t| !t.0).map(|t| t.1));
            js.push(tokio::spawn(async move {
                for (work, t) in toks {
                    let p = token_payload(t, r.len(500));
                    let m = if work { c.emit("work", bp(p.clone())) } else { c.emit_to("n", "note", bp(p.clone())) };
                    let mut s = match m.stream_replies().with_timeout(secs(3000)).await {
                        Ok(s) => s,
                        Err(e) => return viol("other", format!("a request failed: {:?}", e)),
                    };
                    let mut last = None;
                    while let Some(x) = next(&mut s).await {
                        match x {
                            Ok(e) => {
                                ensure!(token_of(e.data_raw()).is_some(), "corrupt", "an item arrived with another payload than any that was sent");
                                last = Some((evt_ty(e.event_type()), e.data_raw().to_vec()))
                            }
                            Err(e) => return viol("other", format!("a stream failed: {:?}", e)),
                        }
                    }
                    match last {
                        Some((ty, d)) => ensure!(ty == codec::END && d == p, "other", "a request got another final reply"),
                        None => return viol("other", "a request got no reply"),
                    }
                }
                Ok::<(), Stop>(())
            }));
        }
    }
    let n = js.len();
    for j in js {
        match j.await {
            Ok(x) => x?,
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    net.settle(secs(20)).await;
    let got = got.lock().unwrap().clone();
    for t in &noted {
        ensure!(got.get(t) == Some(&1), "dispatch", "{}: an event that nobody abandoned ran its handler {:?} times", T::NAME, got.get(t));
    }
    let gone = gone.lock().unwrap().clone();
    for (t, k) in &got {
        ensure!(*k == 1, "twice", "{}: an event ran its handler {} times", T::NAME, k);
        ensure!(noted.contains(t) || gone.contains(t), "unknown", "{}: an event ran a handler that nobody sent", T::NAME);
    }
    let events = mesh::check_wire(&net, false)?;
    sc.count("operations dropped in handlers", gone.len() as u64);
    sc.count("frames", events);
    sc.case(Some(mix(sc.seed, events)), || format!("{} {} tasks, handlers dropped {} operations, {} frames", T::NAME, n, gone.len(), events));
    Ok(())
}

async fn threads(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<Plain>::new(&mut r);
    let cfg = LinkCfg { c2s: DirCfg { cap: 700, wmax: 50, rmax: 64, ..Default::default() }, s2c: DirCfg { cap: 5000, wmax: 300, ..Default::default() }, seed: r.next() };
    let (ctx, raw) = net.raw_server(net.builder().timeout(secs(50)), &cfg).await?;
    let a = auto(&raw, 1, 1);
    let per = if sc.thorough { 300 } else { 80 };
    let mut goods = vec![];
    let mut vs = vec![];
    for _ in 0..3 {
        let (ctx, mut r) = (ctx.clone(), r.fork());
        goods.push(tokio::spawn(async move {
            let mut toks = vec![];
            for _ in 0..per {
                let t = mesh::uniq(&mut r);
                toks.push(t);
                good(&ctx, &mut r, t).await?;
            }
            Ok::<Vec<u64>, Stop>(toks)
        }));
    }
    for _ in 0..4 {
        let (ctx, mut r) = (ctx.clone(), r.fork());
        vs.push(tokio::spawn(async move {
            let mut m = HashMap::new();
            for _ in 0..per {
                let tok = mesh::uniq(&mut r);
                let kind = r.idx(OPS.len());
                let j = tokio::spawn(victim(kind, ctx.clone(), tok));
                if r.chance(700) {
                    for _ in 0..r.below(60) {
                        tokio::task::yield_now().await;
                    }
                }
                j.abort();
                let done = j.await.is_ok();
                m.insert(tok, done && kind <= 2);
            }
            m
        }));
    }
    let mut tasks = vec![];
    for j in goods {
        match j.await {
            Ok(x) => tasks.push(x?),
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    let mut victims = HashMap::new();
    for j in vs {
        match j.await {
            Ok(x) => victims.extend(x),
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    let t = mesh::uniq(&mut r);
    tasks.push(vec![t]);
    good(&ctx, &mut r, t).await?;
    for _ in 0..200 {
        if raw.partial() == 0 && net.link(0).c2s.written() == net.link(0).c2s.consumed() {
            break;
        }
        sleep(ms(10)).await;
    }
    sleep(ms(50)).await;
    a.abort();
    ensure!(raw.partial() == 0, "partial", "threads: half a frame was left on the connection");
    let (n, whole) = wire("threads", &raw, &tasks, &victims)?;
    sc.count("operations dropped", victims.len() as u64);
    sc.count("abandoned events that arrived whole", whole);
    sc.count("frames", n);
    sc.case(Some(mix(sc.seed, n)), || format!("threads: {} abandoned operations, {} of them arrived whole", victims.len(), whole));
    Ok(())
}
