//! C16: connection pools
use crate::codec::{self, Frame};
use crate::core::*;
use crate::fix::*;
use crate::mesh;
use crate::rng::*;
use crate::sim::*;
use crate::{both, boxed, ensure};
use bromine::context::PoolGuard;
use bromine::event::Event;
use bromine::prelude::*;
use std::sync::{Arc, Mutex};

pub fn fams() -> Vec<Fam> {
    vec![
        fam("model", 400, 10000, boxed!(model)),
        fam("many", 24, 300, boxed!(many)),
        fam("tasks", 200, 5000, boxed!(tasks)),
        fam("shared", 200, 4000, boxed!(shared)),
        fam_multi("threads", 4, 60, boxed!(threads)),
    ]
}

struct Key;
impl TypeMapKey for Key {
    type Value = Vec<u64>;
}
use trait_bound_typemap::{TypeMap, TypeMapKey};

/// Which connection a context writes to
async fn which<T: Tp>(net: &Net<T>, ctx: &Ctx) -> R<usize> {
    let sizes = || net.links.lock().unwrap().iter().map(|l| l.c2s.written()).collect::<Vec<_>>();
    let before = sizes();
    if let Err(e) = ctx.emit("t", bp(vec![1])).await {
        return viol("emit", format!("emitting over a pooled connection failed: {:?}", e));
    }
    let after = sizes();
    ensure!(after.len() == before.len(), "connections", "using a pool opened a connection");
    let d: Vec<usize> = (0..after.len()).filter(|i| after[*i] > before[*i]).collect();
    ensure!(d.len() == 1, "connections", "one event was written to {} connections", d.len());
    Ok(d[0])
}

/// All connections are equally unused: acquiring gives each of them once per round
async fn all_unused<T: Tp>(net: &Net<T>, pool: &PooledContext, n: usize, what: &str) -> R {
    let mut held = vec![];
    for round in 0..2 {
        let mut seen = vec![0; n];
        for _ in 0..n {
            let g = pool.acquire();
            seen[which(net, &g).await?] += 1;
            held.push(g);
        }
        ensure!(seen.iter().all(|x| *x == 1), "count", "{}: after everything was released, round {} of acquiring {} times gave the connections {:?} times", what, round + 1, n, seen);
    }
    Ok(())
}

struct Held {
    g: PoolGuard<Ctx>,
    conn: usize,
}

both!(model, model_);
/// Random sequences against a model that counts
async fn model_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let n = match r.below(6) {
        0 => 1,
        1 => r.range(10, 24) as usize,
        2 if r.chance(250) => r.range(25, 140) as usize,
        _ => r.range(2, 6) as usize,
    };
    let (pool, raws) = mesh::raw_pool(&net, net.builder(), &LinkCfg::default(), n).await?;
    ensure!(net.links.lock().unwrap().len() == n, "connections", "a pool of {} opened {} connections", n, net.links.lock().unwrap().len());
    let mut pools = vec![pool];
    let mut held: Vec<Held> = vec![];
    let mut bare: Vec<Ctx> = vec![];
    let mut log = vec![];
    let steps = r.range(10, 120);
    for _ in 0..steps {
        let counts = |held: &Vec<Held>| {
            let mut c = vec![0usize; n];
            for h in held {
                c[h.conn] += 1;
            }
            c
        };
        match r.below(20) {
            0..=6 => {
                let c = counts(&held);
                let min = *c.iter().min().unwrap();
                let k = r.idx(pools.len());
                let g = pools[k].acquire();
                let conn = which(&net, &g).await?;
                log.push(format!("a{}", conn));
                ensure!(c[conn] == min, "least-used", "{} of {}: acquiring gave connection {} with {} guards while others have {:?}; steps {:?}", T::NAME, n, conn, c[conn], c, log);
                held.push(Held { g, conn });
            }
            7 | 8 if !held.is_empty() => {
                let i = r.idx(held.len());
                let g = held[i].g.clone();
                let conn = held[i].conn;
                let real = which(&net, &g).await?;
                ensure!(real == conn, "clone", "the clone of a guard of connection {} uses connection {}", conn, real);
                log.push(format!("c{}", conn));
                held.push(Held { g, conn });
            }
            9..=14 if !held.is_empty() => {
                let i = r.idx(held.len());
                let h = held.swap_remove(i);
                log.push(format!("d{}", h.conn));
                match r.below(8) {
                    // a task that holds it panics
                    0 => {
                        let more: Vec<Held> = (0..r.idx(3)).filter_map(|_| held.pop()).collect();
                        let _ = tokio::spawn(async move {
                            let (_h, _m) = (h, more);
                            if true {
                                std::panic::panic_any(Intended);
                            }
                        })
                        .await;
                        log.push("p".into());
                    }
                    // a task that holds it is cancelled
                    1 => {
                        let t = tokio::spawn(async move {
                            let _h = h;
                            sleep(secs(100_000)).await;
                        });
                        tokio::task::yield_now().await;
                        t.abort();
                        let _ = t.await;
                        log.push("x".into());
                    }
                    2 => {
                        let _ = std::thread::spawn(move || drop(h)).join();
                        log.push("t".into());
                    }
                    _ => drop(h),
                }
            }
            15 => {
                let k = r.idx(pools.len());
                let p = pools[k].clone();
                pools.push(p);
                log.push("P".into());
            }
            16 if pools.len() > 1 => {
                let k = r.idx(pools.len());
                drop(pools.swap_remove(k));
                log.push("Q".into());
            }
            17 if !held.is_empty() => {
                // contexts taken out of a guard are no guards
                let i = r.idx(held.len());
                bare.push((*held[i].g).clone());
            }
            18 if !held.is_empty() => {
                // guards are used
                let i = r.idx(held.len());
                let conn = which(&net, &held[i].g).await?;
                ensure!(conn == held[i].conn, "moved", "a guard of connection {} uses connection {}", held[i].conn, conn);
            }
            19 => {
                let k = held.len() / 2;
                held.truncate(k);
                log.push(format!("T{}", k));
                // the log only helps to read a violation
            }
            _ => {}
        }
    }
    held.clear();
    all_unused(&net, &pools[0], n, &format!("{} pool of {}", T::NAME, n)).await?;
    let k = r.idx(pools.len());
    all_unused(&net, &pools[k], n, &format!("{} clone of a pool of {}", T::NAME, n)).await?;
    ensure!(net.links.lock().unwrap().len() == n, "connections", "using a pool of {} opened connections", n);
    for raw in &raws {
        ensure!(raw.closed().is_none(), "closed", "a connection was closed although the pool exists");
    }
    sc.count("pool steps", log.len() as u64);
    let h = log.iter().fold(n as u64, |h, s| mix(h, hash_bytes(s.as_bytes())));
    sc.case(Some(h), || format!("{} pool of {}: {}", T::NAME, n, log.join(" ")));
    Ok(())
}

/// Many guards at once, very unevenly spread: the counts have no limit and all of them count
async fn many(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<Plain>::new(&mut r);
    let n = r.range(2, 5) as usize;
    let (pool, _raws) = mesh::raw_pool(&net, net.builder(), &LinkCfg::default(), n).await?;
    let mut held: Vec<Vec<PoolGuard<Ctx>>> = (0..n).map(|_| vec![]).collect();
    let mut desc = vec![];
    for _ in 0..r.range(2, 6) {
        // all connections are in use
        for _ in 0..n {
            let g = pool.acquire();
            let c = which(&net, &g).await?;
            held[c].push(g);
        }
        // one of them is used much more
        let c = r.idx(n);
        if held[c].is_empty() {
            return viol("least-used", format!("connection {} of {} was not acquired while the others were used more", c, n));
        }
        let base = held.iter().map(|h| h.len()).max().unwrap();
        let k = match sc.idx % 8 {
            3 => 65_500 + r.idx(100),
            5 => 131_000 + r.idx(200),
            0 => r.range(10, 3000) as usize,
            _ => (1usize << r.range(3, 10)) + 2 - r.idx(5),
        };
        let from = held[c][0].clone();
        while held[c].len() + 1 < base.max(k) {
            let g = if held[c].len() % 2 == 0 { from.clone() } else { held[c][held[c].len() / 2].clone() };
            held[c].push(g);
        }
        held[c].push(from);
        desc.push((c, held[c].len()));
        // the others come first, until they are used as much
        for _ in 0..r.range(1, 30) {
            let min = held.iter().map(|h| h.len()).min().unwrap();
            let g = pool.acquire();
            let got = which(&net, &g).await?;
            ensure!(
                held[got].len() == min,
                "least-used",
                "acquiring from a pool with {:?} guards per connection gave connection {}",
                held.iter().map(|h| h.len()).collect::<Vec<_>>(), got
            );
            held[got].push(g);
        }
        // most are released again, in any order
        if r.chance(600) {
            let c = r.idx(n);
            let keep = r.idx(held[c].len() + 1).min(r.idx(300));
            if r.chance(500) {
                held[c].reverse();
            }
            held[c].truncate(keep);
            desc.push((c, keep));
        }
    }
    held.clear();
    all_unused(&net, &pool, n, &format!("pool of {} after {:?} guards", n, desc)).await?;
    sc.count("guards held at once", desc.iter().map(|x| x.1 as u64).sum());
    sc.case(Some(hash_bytes(format!("{:?}", desc).as_bytes())), || format!("pool of {}: (connection, guards) {:?}", n, desc));
    Ok(())
}

both!(tasks, tasks_);
/// Tasks that hold guards while they wait; acquiring and counting happen in one step
async fn tasks_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let n = r.range(1, 6) as usize;
    let b = net.builder().on("id", hnd(|ctx: &Ctx, e: Event| Box::pin(async move { Response::payload(ctx, bp(e.data_raw().to_vec())) })));
    let _srv = net.serve(b).await;
    let pool = net.pool(net.builder().timeout(secs(3000)), &LinkCfg::default(), n).await?;
    ensure!(net.links.lock().unwrap().len() == n, "connections", "a pool of {} opened {} connections", n, net.links.lock().unwrap().len());
    // which context is which connection: the emitters are told apart by their links
    let model: Arc<Mutex<Vec<i64>>> = Arc::new(Mutex::new(vec![0; n]));
    let k = r.range(2, 12);
    let mut js = vec![];
    let turn = Arc::new(tokio::sync::Mutex::new(()));
    for _ in 0..k {
        let (pool, net, model, mut r, turn) = (pool.clone(), Net::<T> { addr: net.addr, keys: net.keys.clone(), links: net.links.clone() }, model.clone(), r.fork(), turn.clone());
        js.push(tokio::spawn(async move {
            let mut ops = 0u64;
            for _ in 0..r.range(2, 12) {
                // one at a time may look which connection it got
                let t = turn.lock().await;
                let before = model.lock().unwrap().clone();
                let g = pool.acquire();
                let conn = which(&net, &g).await?;
                let min = *before.iter().min().unwrap();
                ensure!(before[conn] == min, "least-used", "acquiring gave connection {} of {:?}", conn, before);
                model.lock().unwrap()[conn] += 1;
                let mut held = vec![g];
                for _ in 0..r.idx(3) {
                    held.push(held[0].clone());
                    model.lock().unwrap()[conn] += 1;
                }
                drop(t);
                ops += 1;
                if r.chance(300) {
                    sleep(us(r.range(0, 5000))).await;
                } else {
                    tokio::task::yield_now().await;
                }
                // writing events while others look would confuse them
                let t = turn.lock().await;
                if r.chance(200) {
                    // an abandoned request releases its guard, too
                    let g = pool.acquire();
                    let _ = PollN::new(async move { g.emit("id", bp(vec![1])).await_reply().await.is_ok() }, r.idx(3)).await;
                }
                let m = held.len() as i64;
                drop(held);
                model.lock().unwrap()[conn] -= m;
                drop(t);
            }
            Ok::<u64, Stop>(ops)
        }));
    }
    for j in js {
        match j.await {
            Ok(x) => sc.count("guards acquired in tasks", x?),
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    net.settle(secs(1)).await;
    all_unused(&net, &pool, n, &format!("{} pool of {} used by {} tasks", T::NAME, n, k)).await?;
    sc.case(Some(mix(sc.seed, k)), || format!("{} pool of {} used by {} tasks", T::NAME, n, k));
    Ok(())
}

both!(shared, shared_);
/// Every connection has the handlers and the data of the pool
async fn shared_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let n = r.range(1, 7) as usize;
    let w = mesh::World::new();
    let spec = mesh::random_spec(&mut r);
    let add = hnd(|ctx: &Ctx, e: Event| {
        Box::pin(async move {
            let mut d = ctx.data.write().await;
            let v = d.get_mut::<Key>().ok_or(bromine::error::Error::Message("no data".into()))?;
            v.push(token_of(e.data_raw()).unwrap_or(0));
            Ok(Response::empty())
        })
    });
    let b = w.on_all(net.builder(), 1, &spec).insert::<Key>(vec![7]).on("add", add).namespace("data").on("add", add).build();
    let (pool, raws) = mesh::raw_pool(&net, b, &LinkCfg::random(&mut r, true), n).await?;
    ensure!(net.links.lock().unwrap().len() == n, "connections", "a pool of {} opened {} connections", n, net.links.lock().unwrap().len());
    let mut want = vec![7u64];
    let mut expect = vec![];
    for (c, raw) in raws.iter().enumerate() {
        for (i, (ns, name)) in spec.iter().enumerate() {
            let t = mesh::uniq(&mut r);
            let f = Frame::new(codec::INIT, (c * 1000 + i) as u64, None, ns.as_deref(), name, token_payload(t, 5));
            if raw.frame(&f).await.is_err() {
                return viol("closed", format!("connection {} of a pool of {} was closed", c, n));
            }
            expect.push((t, ns.clone(), name.clone()));
        }
        for k in 0..r.range(1, 5) {
            let t = mesh::uniq(&mut r);
            let ns = if r.chance(500) { Some("data") } else { None };
            if raw.frame(&Frame::new(codec::INIT, 900_000 + k, None, ns, "add", token_payload(t, 3))).await.is_err() {
                return viol("closed", format!("connection {} of a pool of {} was closed", c, n));
            }
            want.push(t);
        }
    }
    net.settle(secs(10)).await;
    let runs = w.runs();
    for (t, ns, name) in &expect {
        let k = runs.iter().filter(|x| x.tok() == Some(*t) && x.hns == *ns && x.hname == *name).count();
        ensure!(k == 1, "handlers", "{} pool of {}: event {:?}/{} ran its handler {} times", T::NAME, n, ns, name, k);
    }
    ensure!(runs.len() == expect.len(), "handlers", "{} handler runs for {} events", runs.len(), expect.len());
    // each context shows all changes
    for _ in 0..2 * n {
        let g = pool.acquire();
        let d = g.data.read().await;
        let mut v = d.get::<Key>().cloned().unwrap_or_default();
        v.sort();
        let mut x = want.clone();
        x.sort();
        ensure!(v == x, "data", "{} pool of {}: a context shows {} of {} changes", T::NAME, n, v.len(), x.len());
        drop(d);
        if r.chance(500) {
            let t = mesh::uniq(&mut r);
            g.data.write().await.get_mut::<Key>().unwrap().push(t);
            want.push(t);
        }
    }
    // requests over all connections are answered to the right caller
    let mut js = vec![];
    for (c, raw) in raws.iter().enumerate() {
        let raw = raw.clone();
        js.push(tokio::spawn(async move {
            let mut k = 0;
            while raw.wait_n(k + 1, secs(2000)).await {
                let f = raw.frames()[k].clone();
                k += 1;
                if f.name == "q" {
                    let mut d = f.data.clone();
                    d.push(c as u8);
                    let _ = raw.frame(&Frame::new(codec::END, (c as u64) << 32 | k as u64, Some(f.id), None, "end", d)).await;
                }
            }
        }));
    }
    let mut guards = vec![];
    for i in 0..2 * n {
        let g = pool.acquire();
        let p = token_payload(i as u64, 10);
        match g.emit("q", bp(p.clone())).await_reply().with_timeout(secs(1500)).await {
            Ok(e) => ensure!(e.data_raw()[..p.len()] == p[..], "reply", "a pooled request got another reply"),
            Err(e) => return viol("reply", format!("{} pool of {}: a request failed: {:?}", T::NAME, n, e)),
        }
        guards.push(g);
    }
    for j in js {
        j.abort();
    }
    sc.count("events over pooled connections", expect.len() as u64);
    sc.case(Some(mix(sc.seed, n as u64)), || format!("{} pool of {}: {} handlers, {} changes of the data", T::NAME, n, spec.len(), want.len()));
    Ok(())
}

/// Threads that acquire, clone and drop as fast as they can
async fn threads(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<Plain>::new(&mut r);
    let n = if sc.idx % 2 == 0 { 1 + r.idx(2) } else { r.range(2, 8) as usize };
    let (pool, _raws) = mesh::raw_pool(&net, net.builder(), &LinkCfg::default(), n).await?;
    let per = if sc.thorough { 200_000 } else { 40_000 };
    let mut js = vec![];
    for _ in 0..8 {
        let pool = pool.clone();
        let mut r = r.fork();
        js.push(std::thread::spawn(move || {
            let mut held: Vec<PoolGuard<Ctx>> = vec![];
            let mut ops = 0u64;
            for _ in 0..per {
                match r.below(8) {
                    0..=2 => held.push(pool.acquire()),
                    3 if !held.is_empty() => {
                        let g = held[r.idx(held.len())].clone();
                        held.push(g)
                    }
                    4 if r.chance(100) => drop(pool.clone()),
                    _ => {
                        if !held.is_empty() {
                            held.swap_remove(r.idx(held.len()));
                        }
                    }
                }
                ops += 1;
                if held.len() > 40 {
                    held.clear();
                }
            }
            ops
        }));
    }
    let mut ops = 0;
    for j in js {
        match j.join() {
            Ok(n) => ops += n,
            Err(_) => return viol("panic", "a thread panicked while using the pool"),
        }
    }
    sc.count("pool operations in threads", ops);
    all_unused(&net, &pool, n, &format!("pool of {} after {} operations in 8 threads", n, ops)).await?;
    sc.case(Some(mix(sc.seed, n as u64)), || format!("pool of {}: {} operations in 8 threads", n, ops));
    Ok(())
}
