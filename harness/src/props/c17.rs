//! C17: context data
use crate::codec::{self, Frame};
use crate::core::*;
use crate::fix::*;
use crate::mesh;
use crate::rng::*;
use crate::sim::*;
use crate::{both, boxed, ensure};
use bromine::error::Error;
use bromine::event::Event;
use bromine::namespace::Namespace;
use bromine::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use trait_bound_typemap::{SendSyncTypeMap, TypeMap, TypeMapKey};

pub fn fams() -> Vec<Fam> {
    vec![
        fam("inserted", 400, 12000, boxed!(inserted)),
        fam("updates", 250, 6000, boxed!(updates)),
        fam("separation", 150, 3000, boxed!(separation)),
        fam_multi("threads", 3, 40, boxed!(threads)),
    ]
}

struct KN<const N: usize>;
impl<const N: usize> TypeMapKey for KN<N> {
    type Value = u64;
}
struct KS<const N: usize>;
impl<const N: usize> TypeMapKey for KS<N> {
    type Value = String;
}
struct KV<const N: usize>;
impl<const N: usize> TypeMapKey for KV<N> {
    type Value = Vec<u8>;
}
struct KA;
impl TypeMapKey for KA {
    type Value = Arc<(u64, String)>;
}
struct KU;
impl TypeMapKey for KU {
    type Value = ();
}
const NKEYS: usize = 11;

/// Calls `$m!(key, to value, to bytes)` for the key of the given number
macro_rules! with_key {
    ($k:expr, $m:ident) => {
        match $k {
            0 => $m!(KN<0>, |t: u64| t, |v: &u64| v.to_be_bytes().to_vec()),
            1 => $m!(KN<1>, |t: u64| t, |v: &u64| v.to_be_bytes().to_vec()),
            2 => $m!(KN<2>, |t: u64| t, |v: &u64| v.to_be_bytes().to_vec()),
            3 => $m!(KS<0>, |t: u64| t.to_string(), |v: &String| v.clone().into_bytes()),
            4 => $m!(KS<1>, |t: u64| t.to_string(), |v: &String| v.clone().into_bytes()),
            5 => $m!(KS<2>, |t: u64| t.to_string(), |v: &String| v.clone().into_bytes()),
            6 => $m!(KV<0>, |t: u64| token_payload(t, (t % 3000) as usize), |v: &Vec<u8>| v.clone()),
            7 => $m!(KV<1>, |t: u64| token_payload(t, (t % 3000) as usize), |v: &Vec<u8>| v.clone()),
            8 => $m!(KV<2>, |t: u64| token_payload(t, (t % 3000) as usize), |v: &Vec<u8>| v.clone()),
            9 => $m!(KA, |t: u64| Arc::new((t, format!("{}", t))), |v: &Arc<(u64, String)>| format!("{}-{}", v.0, v.1).into_bytes()),
            _ => $m!(KU, |_t: u64| (), |_v: &()| vec![1]),
        }
    };
}
fn insert_b<L: AsyncStreamProtocolListener>(b: IPCBuilder<L>, k: usize, t: u64) -> IPCBuilder<L> {
    macro_rules! m {
        ($k:ty, $v:expr, $b:expr) => {
            b.insert::<$k>(($v)(t))
        };
    }
    with_key!(k, m)
}
fn insert_m(d: &mut SendSyncTypeMap, k: usize, t: u64) {
    macro_rules! m {
        ($k:ty, $v:expr, $b:expr) => {
            {
                let _ = d.insert::<$k>(($v)(t));
            }
        };
    }
    with_key!(k, m)
}
fn remove_m(d: &mut SendSyncTypeMap, k: usize) {
    macro_rules! m {
        ($k:ty, $v:expr, $b:expr) => {
            {
                let _ = d.remove::<$k>();
            }
        };
    }
    with_key!(k, m)
}
fn get_m(d: &SendSyncTypeMap, k: usize) -> Option<Vec<u8>> {
    macro_rules! m {
        ($k:ty, $v:expr, $b:expr) => {
            d.get::<$k>().map($b)
        };
    }
    with_key!(k, m)
}
fn bytes_of(k: usize, t: u64) -> Vec<u8> {
    macro_rules! m {
        ($k:ty, $v:expr, $b:expr) => {
            ($b)(&($v)(t))
        };
    }
    with_key!(k, m)
}
/// All values, as (present, length, bytes) per key
fn dump(d: &SendSyncTypeMap) -> Vec<u8> {
    let mut v = vec![];
    for k in 0..NKEYS {
        put(&mut v, get_m(d, k));
    }
    v
}
fn put(v: &mut Vec<u8>, x: Option<Vec<u8>>) {
    match x {
        None => v.push(0),
        Some(b) => {
            v.push(1);
            v.extend((b.len() as u32).to_be_bytes());
            v.extend(b);
        }
    }
}
type Model = BTreeMap<usize, u64>;
fn dump_model(m: &Model) -> Vec<u8> {
    let mut v = vec![];
    for k in 0..NKEYS {
        put(&mut v, m.get(&k).map(|t| bytes_of(k, *t)));
    }
    v
}

fn h_dump<'a>(ctx: &'a Ctx, _e: Event) -> HFut<'a> {
    Box::pin(async move {
        let v = dump(&*ctx.data.read().await);
        Response::payload(ctx, bp(v))
    })
}
/// Payload: key, token; a key of 100 and more removes
fn h_set<'a>(ctx: &'a Ctx, e: Event) -> HFut<'a> {
    Box::pin(async move {
        let b = e.data_raw().to_vec();
        let t = u64::from_be_bytes(b[1..9].try_into().unwrap());
        let mut d = ctx.data.write().await;
        if b[0] >= 100 {
            remove_m(&mut d, b[0] as usize - 100);
        } else {
            insert_m(&mut d, b[0] as usize, t);
        }
        Ok(Response::empty())
    })
}
struct Prov;
impl NamespaceProvider for Prov {
    fn name() -> &'static str {
        "prov"
    }
    fn register(handler: &mut EventHandler) {
        handler.on("dump", h_dump);
        handler.on("set", h_set);
    }
}
const SPACES: [Option<&str>; 4] = [None, Some("inline"), Some("prov"), Some("ready")];

/// Registers the handlers in all namespaces between the inserts, in random order
fn configure<L: AsyncStreamProtocolListener>(mut b: IPCBuilder<L>, r: &mut Rng, m: &mut Model) -> IPCBuilder<L> {
    let mut steps: Vec<usize> = vec![0, 1, 2, 3];
    for _ in 0..r.range(0, 14) {
        steps.push(10 + r.idx(3));
    }
    r.shuffle(&mut steps);
    for s in steps {
        b = match s {
            0 => b.on("dump", h_dump).on("set", h_set),
            1 => b.namespace("inline").on("dump", h_dump).on("set", h_set).build(),
            2 => b.add_namespace(Namespace::from_provider::<Prov>()),
            3 => {
                let mut h = EventHandler::new();
                h.on("dump", h_dump);
                h.on("set", h_set);
                b.add_namespace(Namespace::new("ready", h))
            }
            12 => {
                let mut d = SendSyncTypeMap::new();
                for _ in 0..r.idx(5) {
                    let (k, t) = (r.idx(NKEYS), r.next());
                    insert_m(&mut d, k, t);
                    m.insert(k, t);
                }
                b.insert_all(d)
            }
            _ => {
                let (k, t) = (r.idx(NKEYS), r.next());
                m.insert(k, t);
                insert_b(b, k, t)
            }
        };
    }
    b
}

fn shows(what: &str, got: &[u8], m: &Model) -> R {
    let want = dump_model(m);
    ensure!(got == &want[..], "value", "{} shows other context data than was inserted last ({} of {} bytes; {} keys inserted)", what, got.len(), want.len(), m.len());
    Ok(())
}
fn set_payload(k: usize, t: u64, remove: bool) -> Vec<u8> {
    let mut v = vec![k as u8 + if remove { 100 } else { 0 }];
    v.extend(t.to_be_bytes());
    v
}

both!(inserted, inserted_);
async fn inserted_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let mut m = Model::new();
    let b = configure(net.builder().timeout(secs(3000)), &mut r, &mut m);
    let n0 = m.len();
    let mut looks = 0u64;
    let side = r.below(3);
    match side {
        0 => {
            // a server, seen by several clients
            let srv = net.serve(b).await;
            let mut clients = vec![];
            for _ in 0..r.range(1, 4) {
                clients.push(net.client(net.builder().timeout(secs(3000)), &LinkCfg::random(&mut r, true)).await?);
            }
            for step in 0..r.range(3, 12) {
                let c = r.idx(clients.len());
                let ns = *r.pick(&SPACES);
                if step > 1 && r.chance(300) {
                    let (k, t, rm) = (r.idx(NKEYS), r.next(), r.chance(250));
                    let p = bp(set_payload(k, t, rm));
                    let res = match ns {
                        None => clients[c].emit("set", p).await_reply().await,
                        Some(n) => clients[c].emit_to(n, "set", p).await_reply().await,
                    };
                    if let Err(e) = res {
                        return viol("reply", format!("a handler that changes the data failed: {:?}", e));
                    }
                    if rm {
                        m.remove(&k);
                    } else {
                        m.insert(k, t);
                    }
                    if r.chance(200) {
                        clients[c] = net.client(net.builder().timeout(secs(3000)), &LinkCfg::random(&mut r, true)).await?;
                    }
                }
                let res = match ns {
                    None => clients[c].emit("dump", ()).await_reply().await,
                    Some(n) => clients[c].emit_to(n, "dump", ()).await_reply().await,
                };
                match res {
                    Ok(e) => shows(&format!("{} server, handler in {:?}, connection {}", T::NAME, ns, c), e.data_raw(), &m)?,
                    Err(e) => return viol("reply", format!("a handler that reads the data failed: {:?}", e)),
                }
                looks += 1;
                // the data of the client stays empty
                shows("the context of a client that inserted nothing", &dump(&*clients[c].data.read().await), &Model::new())?;
            }
            ensure!(srv.alive(), "server", "the server ended");
        }
        _ => {
            // clients, whose handlers the raw server side triggers
            let n = if side == 1 { 1 } else { r.range(1, 5) as usize };
            let (ctxs, raws): (Vec<Ctx>, Vec<Raw>) = if side == 1 {
                let (c, raw) = net.raw_server(b, &LinkCfg::random(&mut r, true)).await?;
                (vec![c.clone(), c], vec![raw])
            } else {
                let (p, raws) = mesh::raw_pool(&net, b, &LinkCfg::random(&mut r, true), n).await?;
                let mut v = vec![];
                for _ in 0..n + 1 {
                    let g = p.acquire();
                    v.push((*g).clone());
                    std::mem::forget(g); // keeps it counted
                }
                (v, raws)
            };
            let mut id = 1000;
            for step in 0..r.range(3, 12) {
                let c = r.idx(raws.len());
                let ns = *r.pick(&SPACES);
                if step > 1 && r.chance(400) {
                    let (k, t, rm) = (r.idx(NKEYS), r.next(), r.chance(250));
                    if r.chance(500) {
                        let x = r.idx(ctxs.len());
                        let mut d = ctxs[x].data.write().await;
                        if rm {
                            remove_m(&mut d, k)
                        } else {
                            insert_m(&mut d, k, t)
                        }
                    } else {
                        id += 1;
                        let me = id;
                        let _ = raws[c].frame(&Frame::new(codec::INIT, me, None, ns, "set", set_payload(k, t, rm))).await;
                        ensure!(raws[c].until(secs(3000), |f| f.iter().any(|x| x.0.ref_id == Some(me))).await, "reply", "a client's handler that changes the data gave no reply");
                    }
                    if rm {
                        m.remove(&k);
                    } else {
                        m.insert(k, t);
                    }
                }
                id += 1;
                let me = id;
                let _ = raws[c].frame(&Frame::new(codec::INIT, me, None, ns, "dump", vec![])).await;
                ensure!(raws[c].until(secs(3000), |f| f.iter().any(|x| x.0.ref_id == Some(me))).await, "reply", "a client's handler that reads the data gave no reply");
                let f = raws[c].frames().into_iter().find(|x| x.ref_id == Some(me)).unwrap();
                shows(&format!("{} client, handler in {:?}, connection {}", T::NAME, ns, c), &f.data, &m)?;
                let x = r.idx(ctxs.len());
                shows("the context of a client", &dump(&*ctxs[x].data.read().await), &m)?;
                looks += 2;
            }
        }
    }
    sc.count("looks at the data", looks);
    sc.case(if n0 > 0 { Some(sc.seed) } else { None }, || format!("{} {}: {} keys inserted, {} looks", T::NAME, ["server", "client", "pool"][side as usize], n0, looks));
    Ok(())
}

/// What the concurrent handlers change
struct Count;
impl TypeMapKey for Count {
    type Value = u64;
}
struct List;
impl TypeMapKey for List {
    type Value = Vec<u64>;
}
struct Late;
impl TypeMapKey for Late {
    type Value = BTreeSet<u64>;
}

async fn change(ctx: &Ctx, t: u64) -> Result<u64, Error> {
    let mut r = Rng::new(t);
    let mut d = ctx.data.write().await;
    let n = *d.get::<Count>().ok_or(Error::Message("no count".into()))?;
    // others get to run while this one holds the lock
    match r.below(4) {
        0 => sleep(us(r.range(1, 3000))).await,
        1 => {
            for _ in 0..r.below(4) {
                tokio::task::yield_now().await
            }
        }
        _ => {}
    }
    if r.chance(300) {
        // an event of the handler itself while it holds the lock
        let _ = ctx.emit("note", bp(t.to_be_bytes().to_vec())).await;
    }
    d.insert::<Count>(n + 1);
    d.get_mut::<List>().ok_or(Error::Message("no list".into()))?.push(t);
    if d.get::<Late>().is_none() {
        d.insert::<Late>(BTreeSet::new());
    }
    d.get_mut::<Late>().ok_or(Error::Message("a value inserted by a handler is gone".into()))?.insert(t);
    Ok(n + 1)
}
fn h_change<'a>(ctx: &'a Ctx, e: Event) -> HFut<'a> {
    Box::pin(async move {
        let t = token_of(e.data_raw()).ok_or(Error::Message("payload".into()))?;
        let n = change(ctx, t).await?;
        Response::payload(ctx, bp(n.to_be_bytes().to_vec()))
    })
}
fn h_nop<'a>(_: &'a Ctx, _: Event) -> HFut<'a> {
    Box::pin(async move { Ok(Response::empty()) })
}
fn h_final<'a>(ctx: &'a Ctx, _: Event) -> HFut<'a> {
    Box::pin(async move {
        let d = ctx.data.read().await;
        let mut v = d.get::<Count>().copied().unwrap_or(0).to_be_bytes().to_vec();
        for t in d.get::<List>().cloned().unwrap_or_default() {
            v.extend(t.to_be_bytes());
        }
        let late = d.get::<Late>().map(|l| l.len()).unwrap_or(0);
        v.extend((late as u64).to_be_bytes());
        Response::payload(ctx, bp(v))
    })
}
fn nums(b: &[u8]) -> Vec<u64> {
    b.chunks(8).map(|c| c.try_into().map(u64::from_be_bytes).unwrap_or(0)).collect()
}
/// Every change is there exactly once and every number was given out once
fn conserved(what: &str, fin: &[u64], sent: &[u64], given: &mut Vec<u64>) -> R {
    ensure!(fin.len() == sent.len() + 2, "lost", "{}: {} of {} concurrent changes of a list are there", what, fin.len() as i64 - 2, sent.len());
    ensure!(fin[0] == sent.len() as u64, "lost", "{}: a counter that was incremented {} times is {}", what, sent.len(), fin[0]);
    ensure!(*fin.last().unwrap() == sent.len() as u64, "lost", "{}: {} of {} changes of a value inserted at run time are there", what, fin.last().unwrap(), sent.len());
    let mut a = fin[1..fin.len() - 1].to_vec();
    let mut b = sent.to_vec();
    a.sort();
    b.sort();
    ensure!(a == b, "lost", "{}: the list contains other values than were added", what);
    given.sort();
    ensure!(given.windows(2).all(|w| w[0] != w[1]), "lost", "{}: two handlers saw the same count while changing it", what);
    Ok(())
}

both!(updates, updates_);
async fn updates_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let on_client = r.chance(400);
    let hs = |b: IPCBuilder<T::L>| {
        let mut h = EventHandler::new();
        h.on("c", h_change);
        b.insert::<Count>(0)
            .on("c", h_change)
            .on("note", h_nop)
            .on("final", h_final)
            .insert::<List>(vec![])
            .namespace("a")
            .on("c", h_change)
            .build()
            .add_namespace(Namespace::new("b", h))
            .timeout(secs(3000))
    };
    let per = r.range(2, 14);
    let mut sent = vec![];
    let mut given = vec![];
    if !on_client {
        let _srv = net.serve(hs(net.builder())).await;
        let mut js = vec![];
        for _ in 0..r.range(1, 6) {
            let c = net.client(net.builder().timeout(secs(3000)).on("note", h_nop), &LinkCfg::random(&mut r, true)).await?;
            for _ in 0..r.range(1, 4) {
                let (c, mut r) = (c.clone(), r.fork());
                let toks: Vec<u64> = (0..per).map(|_| mesh::uniq(&mut r)).collect();
                sent.extend(toks.clone());
                js.push(tokio::spawn(async move {
                    let mut got = vec![];
                    for t in toks {
                        let p = bp(token_payload(t, r.idx(40)));
                        let m = match r.below(3) {
                            0 => c.emit("c", p),
                            1 => c.emit_to("a", "c", p),
                            _ => c.emit_to("b", "c", p),
                        };
                        // the notes come first
                        let mut s = match m.stream_replies().await {
                            Ok(s) => s,
                            Err(e) => return viol("reply", format!("{:?}", e)),
                        };
                        loop {
                            match next(&mut s).await {
                                Some(Ok(e)) if evt_ty(e.event_type()) == codec::END => {
                                    got.push(nums(e.data_raw())[0]);
                                    break;
                                }
                                Some(Ok(e)) if e.name() == "note" => {}
                                x => return viol("reply", format!("a change of the data was answered with {:?}", x)),
                            }
                        }
                    }
                    Ok(got)
                }));
            }
        }
        for j in js {
            match j.await {
                Ok(x) => given.extend(x?),
                Err(e) => return viol("panic", format!("{}", e)),
            }
        }
        let c = net.client(net.builder().timeout(secs(3000)), &LinkCfg::default()).await?;
        let fin = match c.emit("final", ()).await_reply().await {
            Ok(e) => nums(e.data_raw()),
            Err(e) => return viol("reply", format!("{:?}", e)),
        };
        conserved(&format!("{} server", T::NAME), &fin, &sent, &mut given)?;
    } else {
        let n = r.range(1, 4) as usize;
        let (pool, raws) = mesh::raw_pool(&net, hs(net.builder()), &LinkCfg::random(&mut r, true), n).await?;
        let mut js = vec![];
        // tasks of the client change the data as well
        for _ in 0..r.range(0, 4) {
            let (p, mut r) = (pool.clone(), r.fork());
            let toks: Vec<u64> = (0..per).map(|_| mesh::uniq(&mut r)).collect();
            sent.extend(toks.clone());
            js.push(tokio::spawn(async move {
                let mut got = vec![];
                for t in toks {
                    let g = p.acquire();
                    match change(&g, t).await {
                        Ok(n) => got.push(n),
                        Err(e) => return viol("data", format!("{:?}", e)),
                    }
                    sleep(us(r.range(0, 900))).await;
                }
                Ok::<Vec<u64>, Stop>(got)
            }));
        }
        let mut k = 0u64;
        for raw in &raws {
            for _ in 0..per {
                let t = mesh::uniq(&mut r);
                sent.push(t);
                k += 1;
                let ns = *r.pick(&[None, Some("a"), Some("b")]);
                if raw.frame(&Frame::new(codec::INIT, k, None, ns, "c", token_payload(t, r.idx(40)))).await.is_err() {
                    return viol("closed", "a connection of a pool was closed");
                }
            }
        }
        for j in js {
            match j.await {
                Ok(x) => given.extend(x?),
                Err(e) => return viol("panic", format!("{}", e)),
            }
        }
        for raw in &raws {
            let want = per as usize;
            ensure!(raw.until(secs(5000), |f| f.iter().filter(|x| x.0.ty == codec::END).count() == want).await, "reply", "{} of {} changes by a client's handlers were answered", raw.frames().iter().filter(|x| x.ty == codec::END).count(), want);
            given.extend(raw.frames().iter().filter(|x| x.ty == codec::END).map(|x| nums(&x.data)[0]));
        }
        let g = pool.acquire();
        let d = g.data.read().await;
        let mut fin = vec![d.get::<Count>().copied().unwrap_or(0)];
        fin.extend(d.get::<List>().cloned().unwrap_or_default());
        fin.push(d.get::<Late>().map(|l| l.len()).unwrap_or(0) as u64);
        conserved(&format!("{} pool of {}", T::NAME, n), &fin, &sent, &mut given)?;
    }
    sc.count("concurrent changes", sent.len() as u64);
    sc.case(Some(mix(sc.seed, sent.len() as u64)), || format!("{} {}: {} concurrent changes", T::NAME, if on_client { "pool" } else { "server" }, sent.len()));
    Ok(())
}

both!(separation, separation_);
/// Several servers, clients and pools in one process
async fn separation_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let mut srvs = vec![];
    let mut models = vec![];
    for _ in 0..r.range(2, 4) {
        let net = Net::<T>::new(&mut r);
        let mut m = Model::new();
        let h = net.serve(configure(net.builder().timeout(secs(3000)), &mut r, &mut m)).await;
        srvs.push((net, h));
        models.push(m);
    }
    // (server, context, own data)
    let mut clients: Vec<(usize, Ctx, Model)> = vec![];
    for _ in 0..r.range(2, 6) {
        let s = r.idx(srvs.len());
        let mut m = Model::new();
        let b = configure(srvs[s].0.builder().timeout(secs(3000)), &mut r, &mut m);
        let c = if r.chance(700) {
            srvs[s].0.client(b, &LinkCfg::default()).await?
        } else {
            let p = srvs[s].0.pool(b, &LinkCfg::default(), r.range(1, 4) as usize).await?;
            let g = p.acquire();
            (*g).clone()
        };
        clients.push((s, c, m));
    }
    let mut changes = 0;
    for _ in 0..r.range(5, 30) {
        let i = r.idx(clients.len());
        let (k, t, rm) = (r.idx(NKEYS), r.next(), r.chance(200));
        let upd = |m: &mut Model| {
            if rm {
                m.remove(&k);
            } else {
                m.insert(k, t);
            }
        };
        if r.chance(500) {
            {
                let mut d = clients[i].1.data.write().await;
                if rm {
                    remove_m(&mut d, k)
                } else {
                    insert_m(&mut d, k, t)
                }
            }
            upd(&mut clients[i].2);
        } else {
            let s = clients[i].0;
            if let Err(e) = clients[i].1.emit_to("ready", "set", bp(set_payload(k, t, rm))).await_reply().await {
                return viol("reply", format!("{:?}", e));
            }
            upd(&mut models[s]);
        }
        changes += 1;
        if r.chance(300) {
            for (i, (s, c, m)) in clients.iter().enumerate() {
                shows(&format!("{}: the context of client {} among {} clients and {} servers", T::NAME, i, clients.len(), srvs.len()), &dump(&*c.data.read().await), m)?;
                match c.emit("dump", ()).await_reply().await {
                    Ok(e) => shows(&format!("{}: server {} among {} clients and {} servers", T::NAME, s, clients.len(), srvs.len()), e.data_raw(), &models[*s])?,
                    Err(e) => return viol("reply", format!("{:?}", e)),
                }
            }
        }
    }
    sc.count("changes in one of several data maps", changes);
    sc.case(Some(sc.seed), || format!("{}: {} servers and {} clients in one process, {} changes", T::NAME, srvs.len(), clients.len(), changes));
    Ok(())
}

/// Changes from handlers and clients on several threads
async fn threads(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<Plain>::new(&mut r);
    let b = net
        .builder()
        .insert::<Count>(0)
        .insert::<List>(vec![])
        .on("c", h_change)
        .on("note", h_nop)
        .on("final", h_final)
        .namespace("a")
        .on("c", h_change)
        .build();
    let _srv = net.serve(b).await;
    let per = if sc.thorough { 400 } else { 120 };
    let mut js = vec![];
    let mut sent = vec![];
    for i in 0..8u64 {
        let pool = net.pool(net.builder().timeout(secs(50)).on("note", h_nop), &LinkCfg::default(), 2).await?;
        let toks: Vec<u64> = (0..per).map(|_| mesh::uniq(&mut r)).collect();
        sent.extend(toks.clone());
        js.push(tokio::spawn(async move {
            let mut inner = vec![];
            for t in toks {
                let g = pool.acquire();
                inner.push(tokio::spawn(async move {
                    let p = bp(token_payload(t, 5));
                    let m = if i % 2 == 0 { g.emit("c", p) } else { g.emit_to("a", "c", p) };
                    let mut s = match m.stream_replies().await {
                        Ok(s) => s,
                        Err(e) => return viol("reply", format!("{:?}", e)),
                    };
                    loop {
                        match next(&mut s).await {
                            Some(Ok(e)) if evt_ty(e.event_type()) == codec::END => return Ok(nums(e.data_raw())[0]),
                            Some(Ok(_)) => {}
                            x => return viol("reply", format!("a change of the data was answered with {:?}", x)),
                        }
                    }
                }));
            }
            let mut got = vec![];
            for j in inner {
                match j.await {
                    Ok(x) => got.push(x?),
                    Err(e) => return viol("panic", format!("{}", e)),
                }
            }
            Ok::<Vec<u64>, Stop>(got)
        }));
    }
    let mut given = vec![];
    for j in js {
        match j.await {
            Ok(x) => given.extend(x?),
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    let c = net.client(net.builder().timeout(secs(50)), &LinkCfg::default()).await?;
    let fin = match c.emit("final", ()).await_reply().await {
        Ok(e) => nums(e.data_raw()),
        Err(e) => return viol("reply", format!("{:?}", e)),
    };
    conserved("threads", &fin, &sent, &mut given)?;
    sc.count("changes from threads", sent.len() as u64);
    sc.case(Some(sc.seed), || format!("{} concurrent changes from 8 clients on threads", sent.len()));
    Ok(())
}
