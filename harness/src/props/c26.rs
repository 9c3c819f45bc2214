//! C26: builders apply what they were given
use crate::codec::{self, Frame};
use crate::core::*;
use crate::fix::*;
use crate::rng::*;
use crate::sim::*;
use crate::{both, boxed, ensure};
use bromine::error::Error;
use bromine::prelude::*;
use bromine::{callback, events, namespace};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::Instant;

pub fn fams() -> Vec<Fam> {
    vec![
        fam("servers", 1200, 20000, boxed!(servers)),
        fam("clients", 1200, 20000, boxed!(clients)),
        fam("incomplete", 800, 8000, boxed!(incomplete)),
        fam("refused", 400, 4000, boxed!(refused)),
    ]
}

type Runs = Arc<Mutex<Vec<u64>>>;

/// What a builder should have become
#[derive(Default, Clone)]
struct Model {
    global: BTreeMap<String, u64>,
    spaces: BTreeMap<String, BTreeMap<String, u64>>,
    timeout: Option<Duration>,
    ser: Option<u8>,
    sopt: Option<u64>,
    copt: Option<u64>,
    ops: Vec<String>,
}

fn provided(n: u64) -> Vec<u8> {
    token_payload(0xF0F0_0000_0000_0000 + n, 3)
}
macro_rules! fixed {
    ($name:ident, $n:expr) => {
        async fn $name(ctx: &Ctx, _e: Event) -> IPCResult<Response> {
            Response::payload(ctx, bp(provided($n)))
        }
    };
}
fixed!(p0, 0);
fixed!(p1, 1);
fixed!(p2, 2);
struct ProvA;
impl ProvA {
    fixed!(m3, 3);
    fixed!(m4, 4);
}
impl NamespaceProvider for ProvA {
    fn name() -> &'static str {
        "ns"
    }
    fn register(handler: &mut EventHandler) {
        events!(handler,
            "a" => Self::m3,
            "b" => Self::m4,
            "provided" => Self::m3
        );
    }
}
struct ProvB;
impl NamespaceProvider for ProvB {
    fn name() -> &'static str {
        "prov"
    }
    fn register(handler: &mut EventHandler) {
        events!(handler,
            "a" => p0,
            "a" => p1,
            "c" => p2
        );
    }
}
struct ProvC;
impl NamespaceProvider for ProvC {
    fn name() -> &'static str {
        "prov"
    }
    fn register(handler: &mut EventHandler) {
        handler.on("b", callback!(p2));
        handler.on("b", callback!(ctx, _event, async move { Response::payload(ctx, bp(provided(5))) }));
        handler.on("c", callback!(ProvA::m4));
    }
}
const PROVS: u64 = 3;
/// Name and handlers (by number of `provided`) of a provider
fn prov(n: u64) -> (&'static str, Vec<(&'static str, u64)>) {
    match n {
        0 => ("ns", vec![("a", 3), ("b", 4), ("provided", 3)]),
        1 => ("prov", vec![("a", 1), ("c", 2)]),
        _ => ("prov", vec![("b", 5), ("c", 4)]),
    }
}
fn from_prov(n: u64) -> Namespace {
    match n {
        0 => namespace!(ProvA),
        1 => namespace!(ProvB),
        _ => Namespace::from_provider::<ProvC>(),
    }
}
const PROVIDED: u64 = 1 << 60;

fn names(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = ["a", "b", "c", "A", "a ", "error", "ns", "provided", "", "a:b", "\u{e9}", "e\u{301}"].iter().map(|s| s.to_string()).collect();
    let n = r.len(600);
    v.push(r.string(n));
    r.shuffle(&mut v);
    v.truncate(2 + r.idx(4));
    v.push("a".into());
    v
}
fn spaces(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = ["ns", "prov", "NS", "", "a", "ns ", "\u{df}", "ns::ns"].iter().map(|s| s.to_string()).collect();
    let n = r.len(600);
    v.push(r.string(n));
    r.shuffle(&mut v);
    v.truncate(1 + r.idx(3));
    v.push("ns".into());
    v.push("prov".into());
    v
}

struct Gen {
    names: Vec<String>,
    spaces: Vec<String>,
    /// namespaces that more than one builder got
    shared: Vec<(Namespace, String, BTreeMap<String, u64>)>,
    runs: Runs,
    next: u64,
}

impl Gen {
    fn new(r: &mut Rng) -> Self {
        let mut g = Gen { names: names(r), spaces: spaces(r), shared: vec![], runs: Default::default(), next: 1 };
        for _ in 0..r.idx(3) {
            let (h, m) = g.handler(r);
            let n = r.pick(&g.spaces).clone();
            g.shared.push((Namespace::new(n.clone(), h), n, m));
        }
        g
    }
    fn id(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn cb(&mut self) -> (u64, impl for<'a> Fn(&'a Ctx, Event) -> HFut<'a> + Send + Sync + 'static) {
        let id = self.id();
        let runs = self.runs.clone();
        (
            id,
            hnd(move |ctx: &Ctx, _e| {
                runs.lock().unwrap().push(id);
                Box::pin(async move { Response::payload(ctx, bp(token_payload(id, 3))) })
            }),
        )
    }
    fn handler(&mut self, r: &mut Rng) -> (EventHandler, BTreeMap<String, u64>) {
        let mut h = EventHandler::new();
        let mut m = BTreeMap::new();
        for _ in 0..r.idx(4) {
            let n = r.pick(&self.names).clone();
            let (id, f) = self.cb();
            h.on(&n, f);
            m.insert(n, id);
        }
        (h, m)
    }
    /// Applies a random call
    fn step<T: Tp>(&mut self, net: &Net<T>, r: &mut Rng, mut b: IPCBuilder<T::L>, m: &mut Model, seen: &Runs) -> IPCBuilder<T::L> {
        match r.below(14) {
            0..=3 => {
                let n = r.pick(&self.names).clone();
                let (id, f) = self.cb();
                m.ops.push(format!("on({})={}", codec::cut(&n), id));
                b = b.on(&n, f);
                m.global.insert(n, id);
            }
            4..=6 => {
                let ns = r.pick(&self.spaces).clone();
                let mut nb = b.namespace(&ns);
                let mut h = BTreeMap::new();
                for _ in 0..r.idx(4) {
                    let n = r.pick(&self.names).clone();
                    let (id, f) = self.cb();
                    nb = nb.on(&n, f);
                    h.insert(n, id);
                }
                b = nb.build();
                m.ops.push(format!("namespace({}){:?}", codec::cut(&ns), h.values()));
                m.spaces.insert(ns, h);
            }
            7 => {
                let (h, hm) = self.handler(r);
                let ns = r.pick(&self.spaces).clone();
                b = b.add_namespace(Namespace::new(&ns, h));
                m.ops.push(format!("add_namespace({}){:?}", codec::cut(&ns), hm.values()));
                m.spaces.insert(ns, hm);
            }
            8 => {
                let n = r.below(PROVS);
                let (name, hs) = prov(n);
                b = b.add_namespace(from_prov(n));
                m.ops.push(format!("provider({})", n));
                m.spaces.insert(name.into(), hs.into_iter().map(|(a, i)| (a.to_string(), PROVIDED + i)).collect());
            }
            9 if !self.shared.is_empty() => {
                let (n, name, h) = r.pick(&self.shared).clone();
                b = b.add_namespace(n);
                m.ops.push(format!("shared({}){:?}", codec::cut(&name), h.values()));
                m.spaces.insert(name, h);
            }
            10 => {
                let t = if r.chance(150) { *r.pick(&[ms(0), us(1), ms(1)]) } else { ms(r.range(50, 100_000)) };
                b = b.timeout(t);
                m.ops.push(format!("timeout({:?})", t));
                m.timeout = Some(t);
            }
            11 => {
                let tag = self.id();
                let o = T::lopts(SimLOpts { tag, seen: Some(seen.clone()), refuse_bind: false }, &net.keys);
                b = b.server_options(o);
                m.ops.push(format!("server_options({})", tag));
                m.sopt = Some(tag);
            }
            12 => {
                let tag = self.id();
                let o = T::copts(SimOpts { cfg: LinkCfg::random(r, false), links: Some(net.links.clone()), tag, seen: Some(seen.clone()) }, &net.keys);
                b = b.client_options(o);
                m.ops.push(format!("client_options({})", tag));
                m.copt = Some(tag);
            }
            _ => {
                #[cfg(feature = "full")]
                {
                    let i = r.below(4) as u8;
                    b = b.default_serializer(DynamicSerializer::from_primitive(i as usize).unwrap());
                    m.ops.push(format!("serializer({})", i));
                    m.ser = Some(i);
                }
            }
        }
        b
    }
    fn builder<T: Tp>(&mut self, net: &Net<T>, r: &mut Rng, address: bool, seen: &Runs) -> (IPCBuilder<T::L>, Model) {
        let mut m = Model::default();
        let mut b = if r.chance(500) { IPCBuilder::<T::L>::new() } else { IPCBuilder::<T::L>::default() };
        let n = r.idx(12);
        let at = r.idx(n + 1);
        for i in 0..=n {
            if i == at && address {
                if r.chance(200) {
                    b = b.address(new_addr());
                }
                b = b.address(net.addr);
                m.ops.push("address".into());
            }
            if i < n {
                b = self.step(net, r, b, &mut m, seen);
            }
        }
        (b, m)
    }
    /// Every event this configuration could answer, and as many that it could not
    fn questions(&self, r: &mut Rng, m: &Model) -> Vec<(Option<String>, String)> {
        let mut q = BTreeSet::new();
        let mut names: BTreeSet<String> = self.names.iter().cloned().collect();
        names.extend(["a", "b", "c", "provided", "none"].iter().map(|s| s.to_string()));
        for n in &names {
            q.insert((None, n.clone()));
            for s in self.spaces.iter().cloned().chain(["none".to_string()]).filter(|s| !s.is_empty()) {
                q.insert((Some(s), n.clone()));
            }
        }
        for n in m.spaces.keys() {
            q.insert((None, n.clone()));
        }
        let mut q: Vec<_> = q.into_iter().collect();
        r.shuffle(&mut q);
        q
    }
    /// Asks all questions and compares who answered
    async fn ask(&self, sc: &Sc, r: &mut Rng, raw: &Raw, m: &Model) -> R {
        let qs = self.questions(r, m);
        raw.clear();
        self.runs.lock().unwrap().clear();
        let mut want_runs = vec![];
        let base = r.next() & !0xFFFF;
        let err = err_payload(1, b"x");
        for (i, (ns, n)) in qs.iter().enumerate() {
            if let Some(id) = answerer(m, ns, n) {
                if id < PROVIDED {
                    want_runs.push(id);
                }
            }
            raw.frame(&Frame::new(codec::INIT, base + i as u64, None, ns.as_deref(), n, err.clone())).await.map_err(|e| Stop::Viol { sig: "closed".into(), msg: format!("sending failed: {:?}", e) })?;
        }
        let ok = raw.wait_n(qs.len(), secs(600)).await;
        ensure!(ok, "no-reply", "{} of {} events got a reply; calls: {:?}", raw.n(), qs.len(), m.ops);
        let fs = raw.frames();
        for (i, (ns, n)) in qs.iter().enumerate() {
            let mine: Vec<_> = fs.iter().filter(|f| f.ref_id == Some(base + i as u64)).collect();
            ensure!(mine.len() == 1, "replies", "event {:?}/{} got {} replies; calls: {:?}", ns, codec::cut(n), mine.len(), m.ops);
            let want = match answerer(m, ns, n) {
                None => vec![],
                Some(id) if id >= PROVIDED => provided(id - PROVIDED),
                Some(id) => token_payload(id, 3),
            };
            ensure!(
                mine[0].ty == codec::END && mine[0].data == want,
                "wrong-handler",
                "event {:?}/{} should be answered by {:?} with {} bytes but got {} from {:?}; calls: {:?}",
                ns.as_deref().map(codec::cut),
                codec::cut(n),
                answerer(m, ns, n),
                want.len(),
                mine[0].short(),
                token_of(&mine[0].data),
                m.ops
            );
        }
        let mut runs = self.runs.lock().unwrap().clone();
        runs.sort();
        want_runs.sort();
        ensure!(runs == want_runs, "runs", "handlers {:?} ran instead of {:?}; calls: {:?}", runs, want_runs, m.ops);
        sc.count("events answered", qs.len() as u64);
        Ok(())
    }
}

fn answerer(m: &Model, ns: &Option<String>, n: &str) -> Option<u64> {
    match ns {
        None => m.global.get(n).copied(),
        Some(s) => m.spaces.get(s).and_then(|h| h.get(n)).copied(),
    }
}

#[cfg(feature = "full")]
fn want_ser(m: &Model) -> u8 {
    m.ser.unwrap_or(0)
}

async fn wait_bound(addr: u64, srv: &Srv) -> bool {
    for _ in 0..2000 {
        if is_bound(addr) {
            return true;
        }
        if !srv.alive() {
            return false;
        }
        tokio::task::yield_now().await;
    }
    false
}

both!(servers, servers_);
/// One or two servers built from random calls
async fn servers_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let mut g = Gen::new(&mut r);
    let n = 1 + r.idx(2);
    let mut all = vec![];
    for _ in 0..n {
        let net = Net::<T>::new(&mut r);
        let seen: Runs = Default::default();
        let (mut b, mut m) = g.builder(&net, &mut r, true, &seen);
        #[cfg(feature = "full")]
        {
            // a plain value is sent in the default format
            b = b.on("value", hnd(|ctx, _e| Box::pin(async move { Response::payload(ctx, 77u8) })));
            m.global.remove("value");
        }
        let silent = r.chance(300);
        if silent {
            b = b.on("silent", hnd(|ctx, _e| {
                Box::pin(async move {
                    let t0 = Instant::now();
                    let res = ctx.emit("asked", bp(vec![])).await_reply().await;
                    let ok = matches!(res, Err(Error::Timeout)) as u8;
                    let mut v = vec![ok];
                    v.extend_from_slice(&(t0.elapsed().as_millis() as u64).to_be_bytes());
                    Response::payload(ctx, bp(v))
                })
            }));
        }
        if m.sopt.is_none() {
            // encryption needs its keys
            if T::ENC || r.chance(500) {
                b = b.server_options(T::lopts(SimLOpts::default(), &net.keys));
            }
        }
        m.ops.push("server".into());
        let srv = Srv { h: tokio::spawn(async move { b.build_server().await }) };
        ensure!(wait_bound(net.addr, &srv).await, "not-started", "the server does not listen; calls: {:?}", m.ops);
        all.push((net, seen, srv, m, silent));
    }
    for round in 0..2 {
        for (net, seen, srv, m, silent) in &all {
            let raw = net.raw_client(&LinkCfg::random(&mut r, false)).await?;
            g.ask(&sc, &mut r, &raw, m).await?;
            raw.clear();
            #[cfg(feature = "full")]
            {
                raw.frame(&Frame::new(codec::INIT, 5, None, None, "value", vec![])).await.ok();
                ensure!(raw.wait_n(1, secs(100)).await, "no-reply", "no reply to 'value'");
                let f = raw.frames()[0].clone();
                ensure!(f.data.first() == Some(&want_ser(m)), "serializer", "a plain value is sent as {:?} instead of format {}; calls: {:?}", f.data, want_ser(m), m.ops);
                raw.clear();
            }
            if *silent && round == 0 {
                raw.frame(&Frame::new(codec::INIT, 6, None, None, "silent", vec![])).await.ok();
                ensure!(raw.until(secs(9000), |f| f.iter().any(|x| x.0.ref_id == Some(6) && x.0.ty == codec::END)).await, "timeout", "a request of a handler never ends; calls: {:?}", m.ops);
                let f = raw.frames().into_iter().find(|f| f.ref_id == Some(6) && f.ty == codec::END).unwrap();
                let want = m.timeout.unwrap_or(secs(60)).as_millis() as u64;
                let got = u64::from_be_bytes(f.data[1..9].try_into().unwrap());
                ensure!(f.data[0] == 1 && got >= want && got <= want + 1500, "timeout", "a request of a handler ended after {} ms instead of {} ms (timeout error: {}); calls: {:?}", got, want, f.data[0], m.ops);
                sc.count("timeouts measured", 1);
            }
            let s = seen.lock().unwrap().clone();
            let want: Vec<u64> = m.sopt.into_iter().collect();
            ensure!(s == want, "server-options", "the listener was bound with options {:?} instead of {:?}; calls: {:?}", s, want, m.ops);
            ensure!(srv.alive(), "server-ended", "the server ended; calls: {:?}", m.ops);
            raw.close().await;
        }
    }
    for (_, _, _, m, _) in &all {
        sc.case(Some(hash_bytes(m.ops.join(";").as_bytes())), || m.ops.join("; "));
    }
    Ok(())
}

both!(clients, clients_);
/// Clients and pools built from random calls, connected to raw servers
async fn clients_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let mut g = Gen::new(&mut r);
    let mut held = vec![];
    for _ in 0..1 + r.idx(2) {
        let net = Net::<T>::new(&mut r);
        let seen: Runs = Default::default();
        let (mut b, mut m) = g.builder(&net, &mut r, true, &seen);
        let l = net.raw_listener().await;
        let size = if r.chance(500) { 0 } else { 1 + r.idx(6) };
        if m.copt.is_none() && T::ENC {
            b = b.client_options(net.copts(&LinkCfg::default()));
        }
        m.ops.push(format!("client({})", size));
        let raws: Arc<Mutex<Vec<Raw>>> = Default::default();
        let r2 = raws.clone();
        let acc = tokio::spawn(async move {
            while let Ok((s, _)) = l.protocol_accept().await {
                r2.lock().unwrap().push(Raw::new(s));
            }
        });
        let (ctxs, pool) = if size == 0 {
            match b.build_client().await {
                Ok(c) => (vec![c], None),
                Err(e) => return viol("build", format!("building a client failed: {:?}; calls: {:?}", e, m.ops)),
            }
        } else {
            match b.build_pooled_client(size).await {
                Ok(p) => {
                    let gs: Vec<_> = (0..size).map(|_| p.acquire()).collect();
                    (gs.iter().map(|g| (**g).clone()).collect(), Some(p))
                }
                Err(e) => return viol("build", format!("building a pool failed: {:?}; calls: {:?}", e, m.ops)),
            }
        };
        sleep(ms(500)).await;
        let k = size.max(1);
        let rs = raws.lock().unwrap().clone();
        ensure!(rs.len() == k, "connections", "{} connections were opened instead of {}; calls: {:?}", rs.len(), k, m.ops);
        let want: Vec<u64> = m.copt.map(|t| vec![t; k]).unwrap_or_default();
        let s = seen.lock().unwrap().clone();
        ensure!(s == want, "client-options", "the streams were connected with options {:?} instead of {:?}; calls: {:?}", s, want, m.ops);
        held.push((net, ctxs, pool, rs, m, acc));
    }
    for (_net, ctxs, _pool, rs, m, acc) in &held {
        for raw in rs {
            g.ask(&sc, &mut r, raw, m).await?;
            raw.clear();
        }
        for ctx in ctxs {
            let t0 = Instant::now();
            let res = ctx.emit("asked", bp(vec![])).await_reply().await;
            let (got, want) = (t0.elapsed(), m.timeout.unwrap_or(secs(60)));
            ensure!(matches!(res, Err(Error::Timeout)), "timeout", "a request nobody answers ended with {:?}; calls: {:?}", res.map(|e| e.id()), m.ops);
            ensure!(got >= want && got <= want + ms(1500), "timeout", "a request nobody answers ended after {:?} instead of {:?}; calls: {:?}", got, want, m.ops);
            sc.count("timeouts measured", 1);
            #[cfg(feature = "full")]
            {
                let _ = ctx.emit("value", 77u8).await;
            }
        }
        #[cfg(feature = "full")]
        {
            sleep(secs(2)).await;
            let mut n = 0;
            for raw in rs {
                for f in raw.frames().iter().filter(|f| f.name == "value") {
                    n += 1;
                    ensure!(f.data.first() == Some(&want_ser(m)), "serializer", "a plain value is sent as {:?} instead of format {}; calls: {:?}", f.data, want_ser(m), m.ops);
                }
            }
            ensure!(n == ctxs.len(), "connections", "{} contexts sent {} events; calls: {:?}", ctxs.len(), n, m.ops);
        }
        acc.abort();
        sc.case(Some(hash_bytes(m.ops.join(";").as_bytes())), || m.ops.join("; "));
    }
    Ok(())
}

both!(incomplete, incomplete_);
/// Builders that cannot be built
async fn incomplete_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let mut g = Gen::new(&mut r);
    let net = Net::<T>::new(&mut r);
    let seen: Runs = Default::default();
    let kind = r.below(5);
    // a listener that must not be contacted
    let listening = r.chance(500);
    let l = if listening { Some(net.raw_listener().await) } else { None };
    let (mut b, mut m) = g.builder(&net, &mut r, kind == 3, &seen);
    if r.chance(700) {
        m.ops.push("options".into());
        b = b.client_options(T::copts(SimOpts { cfg: LinkCfg::default(), links: Some(net.links.clone()), tag: 1, seen: Some(seen.clone()) }, &net.keys));
        b = b.server_options(T::lopts(SimLOpts { tag: 2, seen: Some(seen.clone()), refuse_bind: false }, &net.keys));
    }
    let t0 = Instant::now();
    let (what, res) = match kind {
        0 => ("a server without address", b.build_server().await.err()),
        1 => ("a client without address", b.build_client().await.err()),
        2 => {
            let n = 1 + r.idx(5);
            ("a pool without address", b.build_pooled_client(n).await.err())
        }
        3 => ("a pool of size 0", b.build_pooled_client(0).await.err()),
        _ => ("a pool of size 0 without address", b.build_pooled_client(0).await.err()),
    };
    ensure!(matches!(res, Some(Error::BuildError(_))), "not-refused", "building {} gave {:?}; calls: {:?}", what, res, m.ops);
    ensure!(t0.elapsed() < ms(5), "not-refused", "building {} took {:?}", what, t0.elapsed());
    ensure!(seen.lock().unwrap().is_empty() && net.links.lock().unwrap().is_empty(), "connected", "building {} reached the transport: options {:?}, {} connections; calls: {:?}", what, seen.lock().unwrap(), net.links.lock().unwrap().len(), m.ops);
    ensure!(is_bound(net.addr) == listening, "connected", "building {} listens; calls: {:?}", what, m.ops);
    if let Some(l) = l {
        let x = tokio::time::timeout(secs(5), l.protocol_accept()).await;
        ensure!(x.is_err(), "connected", "building {} connected to the address; calls: {:?}", what, m.ops);
    }
    ensure!(g.runs.lock().unwrap().is_empty(), "runs", "a handler ran");
    sc.count(what, 1);
    sc.case(Some(hash_bytes(format!("{}{}", kind, m.ops.join(";")).as_bytes())), || format!("{}: {}", what, m.ops.join("; ")));
    Ok(())
}

both!(refused, refused_);
/// Errors of the transport come out of the build
async fn refused_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let mut g = Gen::new(&mut r);
    let net = Net::<T>::new(&mut r);
    let seen: Runs = Default::default();
    let (mut b, m) = g.builder(&net, &mut r, true, &seen);
    let kind = r.below(4);
    let what = match kind {
        0 => {
            b = b.server_options(T::lopts(SimLOpts { tag: 9, seen: None, refuse_bind: true }, &net.keys));
            let res = tokio::time::timeout(secs(100), b.build_server()).await;
            ensure!(matches!(&res, Ok(Err(Error::IoError(e))) if e.kind() == std::io::ErrorKind::PermissionDenied), "bind-error", "a server that must not bind ended with {:?}; calls: {:?}", res, m.ops);
            "bind refused"
        }
        1 => {
            let _l = net.raw_listener().await;
            b = b.server_options(T::lopts(SimLOpts::default(), &net.keys));
            let res = tokio::time::timeout(secs(100), b.build_server()).await;
            ensure!(matches!(&res, Ok(Err(Error::IoError(e))) if e.kind() == std::io::ErrorKind::AddrInUse), "bind-error", "a server on an address in use ended with {:?}; calls: {:?}", res, m.ops);
            ensure!(is_bound(net.addr), "bind-error", "the other server lost its address");
            "address in use"
        }
        k => {
            // nobody listens, or the pool's server is gone after some connections
            let n = 2 + r.idx(4);
            // (a plain connection is up as soon as it is queued)
            let upto = if k == 2 || !T::ENC { 0 } else { r.idx(n) };
            let pooled = k == 3 || r.chance(500);
            b = b.client_options(net.copts(&LinkCfg::default()));
            let net2 = net.clone();
            let srv = tokio::spawn(async move {
                if upto > 0 {
                    let l = net2.raw_listener().await;
                    let mut v = vec![];
                    for _ in 0..upto {
                        if let Ok((s, _)) = l.protocol_accept().await {
                            v.push(Raw::new(s));
                        }
                    }
                    drop(l);
                    sleep(secs(50)).await;
                }
            });
            tokio::task::yield_now().await;
            let res = if pooled {
                tokio::time::timeout(secs(1000), b.build_pooled_client(n)).await.map(|r| r.map(|_| ()))
            } else {
                tokio::time::timeout(secs(1000), b.build_client()).await.map(|r| r.map(|_| ()))
            };
            srv.abort();
            ensure!(matches!(&res, Ok(Err(_))), "connect-error", "building a client ({} connections wanted, {} accepted) ended with {:?}; calls: {:?}", n, upto, res, m.ops);
            "connect refused"
        }
    };
    sc.count(what, 1);
    sc.case(Some(hash_bytes(format!("{}{}", kind, m.ops.join(";")).as_bytes())), || format!("{}: {}", what, m.ops.join("; ")));
    Ok(())
}
