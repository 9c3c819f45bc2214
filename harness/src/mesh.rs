//! Scripted handlers and the workloads built from them.
//!
//! Every event carries a token; a table maps it to what its handler does. Handlers log what they see, so that the
//! runs, the frames on the wire and the results of the callers can be compared with what the script says.
use crate::codec::{self, Frame};
use crate::core::*;
use crate::fix::*;
use crate::rng::*;
use crate::sim::*;
use bromine::error::Error;
use bromine::event::Event;
use bromine::prelude::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use tokio::time::Instant;

#[derive(Clone, Debug)]
pub enum Act {
    Sleep(u64),
    Yield,
    Emit { ns: Option<String>, name: String, tok: u64, len: usize },
    /// Emit and wait for the reply
    Ask { ns: Option<String>, name: String, tok: u64, len: usize },
}

#[derive(Clone, Debug)]
pub enum Out {
    Reply(u64, usize),
    Empty,
    Fail(String),
    Panic,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub acts: Vec<Act>,
    pub out: Out,
}

#[derive(Clone, Debug)]
pub struct Run {
    pub inst: u32,
    pub hns: Option<String>,
    pub hname: String,
    pub id: u64,
    pub ty: u8,
    pub ref_id: Option<u64>,
    pub ns: Option<String>,
    pub name: String,
    pub data: Vec<u8>,
    pub at: Instant,
}

impl Run {
    pub fn tok(&self) -> Option<u64> {
        token_of(&self.data)
    }
}

#[derive(Default)]
pub struct World {
    pub runs: Mutex<Vec<Run>>,
    pub plans: Mutex<HashMap<u64, Plan>>,
    /// token of an Ask, what came back
    pub asked: Mutex<Vec<(u64, Result<Vec<u8>, String>)>>,
    /// token of an Emit or Ask, id that the emit returned
    pub emitted: Mutex<Vec<(u64, u64)>>,
    pub emit_errors: Mutex<Vec<(u64, String)>>,
    pub ask_timeout: Mutex<Option<std::time::Duration>>,
}

pub type Spec = Vec<(Option<String>, String)>;

impl World {
    pub fn new() -> Arc<Self> {
        Arc::new(Self::default())
    }
    pub fn plan(&self, tok: u64, p: Plan) {
        self.plans.lock().unwrap().insert(tok, p);
    }
    pub fn runs(&self) -> Vec<Run> {
        self.runs.lock().unwrap().clone()
    }
    pub fn n_runs(&self) -> usize {
        self.runs.lock().unwrap().len()
    }

    pub async fn handle(self: Arc<Self>, ctx: &Ctx, e: Event, inst: u32, hns: Option<String>, hname: String) -> IPCResult<Response> {
        let data = e.data_raw().to_vec();
        let tok = token_of(&data);
        self.runs.lock().unwrap().push(Run {
            inst,
            hns,
            hname,
            id: e.id(),
            ty: evt_ty(e.event_type()),
            ref_id: e.reference_id(),
            ns: e.namespace().clone(),
            name: e.name().to_string(),
            data,
            at: Instant::now(),
        });
        let plan = tok.and_then(|t| self.plans.lock().unwrap().get(&t).cloned());
        let plan = match plan {
            Some(p) => p,
            None => return Ok(Response::empty()),
        };
        for a in plan.acts {
            match a {
                Act::Sleep(n) => sleep(us(n)).await,
                Act::Yield => tokio::task::yield_now().await,
                Act::Emit { ns, name, tok, len } => {
                    let p = bp(token_payload(tok, len));
                    let r = match ns {
                        Some(ns) => ctx.emit_to(ns, name, p).await,
                        None => ctx.emit(name, p).await,
                    };
                    match r {
                        Ok(id) => self.emitted.lock().unwrap().push((tok, id)),
                        Err(e) => self.emit_errors.lock().unwrap().push((tok, format!("{:?}", e))),
                    }
                }
                Act::Ask { ns, name, tok, len } => {
                    let p = bp(token_payload(tok, len));
                    let m = match ns {
                        Some(ns) => ctx.emit_to(ns, name, p),
                        None => ctx.emit(name, p),
                    };
                    let mut w = m.await_reply();
                    if let Some(t) = *self.ask_timeout.lock().unwrap() {
                        w = w.with_timeout(t);
                    }
                    let r = w.await;
                    self.asked.lock().unwrap().push((tok, r.map(|e| e.data_raw().to_vec()).map_err(|e| format!("{:?}", e))));
                }
            }
        }
        match plan.out {
            Out::Reply(tok, len) => Response::payload(ctx, bp(token_payload(tok, len))),
            Out::Empty => Ok(Response::empty()),
            Out::Fail(m) => Err(Error::Message(m)),
            Out::Panic => std::panic::panic_any(Intended),
        }
    }

    pub fn h(self: &Arc<Self>, inst: u32, hns: Option<String>, hname: String) -> impl for<'a> Fn(&'a Ctx, Event) -> HFut<'a> + Send + Sync + 'static {
        let w = self.clone();
        move |ctx: &Ctx, e: Event| {
            let (w, hns, hname) = (w.clone(), hns.clone(), hname.clone());
            Box::pin(w.handle(ctx, e, inst, hns, hname)) as HFut
        }
    }

    pub fn on<L: AsyncStreamProtocolListener>(self: &Arc<Self>, b: IPCBuilder<L>, inst: u32, name: &str) -> IPCBuilder<L> {
        b.on(name, self.h(inst, None, name.to_string()))
    }

    pub fn on_all<L: AsyncStreamProtocolListener>(self: &Arc<Self>, mut b: IPCBuilder<L>, inst: u32, spec: &Spec) -> IPCBuilder<L> {
        let mut by: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (ns, name) in spec {
            match ns {
                None => b = self.on(b, inst, name),
                Some(n) => by.entry(n.clone()).or_default().push(name.clone()),
            }
        }
        for (ns, names) in by {
            let mut nb = b.namespace(&ns);
            for n in names {
                nb = nb.on(&n, self.h(inst, Some(ns.clone()), n.clone()));
            }
            b = nb.build();
        }
        b
    }
}

pub fn replies_of(p: &Plan, id: u64, plan_tok: u64) -> Vec<Expect> {
    let _ = (id, plan_tok);
    let mut v = vec![];
    for a in &p.acts {
        match a {
            Act::Emit { ns, name, tok, len } | Act::Ask { ns, name, tok, len } => {
                v.push(Expect { ty: codec::RESP, ns: ns.clone(), name: Some(name.clone()), data: Some(token_payload(*tok, *len)), err: None })
            }
            _ => {}
        }
    }
    match &p.out {
        Out::Reply(t, l) => v.push(Expect { ty: codec::END, ns: None, name: None, data: Some(token_payload(*t, *l)), err: None }),
        Out::Empty => v.push(Expect { ty: codec::END, ns: None, name: None, data: Some(vec![]), err: None }),
        Out::Fail(m) => v.push(Expect { ty: codec::ERR, ns: None, name: None, data: None, err: Some(m.clone()) }),
        Out::Panic => {}
    }
    v
}

/// One event of the reply sequence that a script produces
#[derive(Clone, Debug)]
pub struct Expect {
    pub ty: u8,
    pub ns: Option<String>,
    pub name: Option<String>,
    pub data: Option<Vec<u8>>,
    pub err: Option<String>,
}

impl Expect {
    pub fn matches(&self, ty: u8, ns: &Option<String>, name: &str, data: &[u8]) -> Result<(), String> {
        if ty != self.ty {
            return Err(format!("type {} instead of {}", ty, self.ty));
        }
        if self.ty == codec::RESP && (ns.as_deref().unwrap_or("") != self.ns.as_deref().unwrap_or("") || Some(name) != self.name.as_deref()) {
            return Err(format!("{:?}/{} instead of {:?}/{:?}", ns, name, self.ns, self.name));
        }
        if let Some(d) = &self.data {
            if d != data {
                return Err(format!("payload of {} bytes (token {:?}) instead of {} bytes (token {:?})", data.len(), token_of(data), d.len(), token_of(d)));
            }
        }
        if let Some(m) = &self.err {
            match parse_err(data) {
                Some((500, s)) if s.contains(m.as_str()) => {}
                x => return Err(format!("error payload {:?} instead of code 500 and '{}'", x, m)),
            }
        }
        Ok(())
    }
}

pub fn uniq(r: &mut Rng) -> u64 {
    r.next() | 1
}

pub const NAMES: [&str; 7] = ["a", "b", "ab", "end", "q", "Ünï", "A"];
pub const SPACES: [&str; 5] = ["n", "m", "a", "nn", "Räume"];

/// A name that resembles another one
pub fn odd_name(r: &mut Rng, base: &str) -> String {
    let sep = *r.pick(&[":", "/", ".", "::", "-", "_", " ", "\0", "\t", "*", "#", "|", "\u{301}"]);
    let tail = *r.pick(&["", "a", "b", "n", "x", "1"]);
    match r.below(9) {
        0 => format!("{}{}{}", base, sep, tail),
        1 => format!("{}{}{}", tail, sep, base),
        2 => base.to_uppercase(),
        3 => base.to_lowercase(),
        4 => base.chars().skip(1).collect(),
        5 => base.chars().rev().skip(1).collect::<String>().chars().rev().collect(),
        6 => format!("{}{}", base, base),
        7 => sep.to_string(),
        _ => format!("{}{}{}", base, sep, base),
    }
}

/// Ids that are likely to be treated wrongly by arithmetic, besides random ones
pub fn odd_id(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1]),
        1 => 1u64 << r.below(64),
        2 => r.next() << r.below(64),
        3 => r.next() >> r.below(64),
        4 => (1u64 << r.below(64)).wrapping_sub(1),
        _ => r.next(),
    }
}

/// A random set of handlers
pub fn random_spec(r: &mut Rng) -> Spec {
    let mut v: Spec = vec![];
    for _ in 0..r.idx(4) {
        let ns = if r.chance(400) { Some(r.pick(&SPACES).to_string()) } else { None };
        let ns = if r.chance(300) { ns.map(|n| odd_name(r, &n)).filter(|n| !n.is_empty()) } else { ns };
        let base = r.pick(&NAMES).to_string();
        v.push((ns, odd_name(r, &base)));
    }
    for n in NAMES {
        if r.chance(550) {
            v.push((None, n.to_string()));
        }
    }
    if r.chance(500) {
        v.push((None, "error".into()));
    }
    for s in SPACES {
        if r.chance(600) {
            for n in NAMES {
                if r.chance(450) {
                    v.push((Some(s.to_string()), n.to_string()));
                }
            }
            if r.chance(200) {
                v.push((Some(s.to_string()), "error".into()));
            }
        }
    }
    v
}

pub fn random_plan(r: &mut Rng, emits: bool, panics: bool) -> Plan {
    let mut acts = vec![];
    for _ in 0..r.idx(4) {
        match r.below(if emits { 4 } else { 2 }) {
            0 => acts.push(Act::Sleep(r.range(0, 4000))),
            1 => acts.push(Act::Yield),
            _ => acts.push(Act::Emit {
                ns: if r.chance(400) { Some(if r.chance(120) { String::new() } else { r.pick(&SPACES).to_string() }) } else { None },
                name: r.pick(&NAMES).to_string(),
                tok: uniq(r),
                len: r.len(4000),
            }),
        }
    }
    let out = match r.below(10) {
        0 | 1 => Out::Empty,
        2 | 3 => Out::Fail(format!("failure-{:x} \u{fc}\"\\", r.next())),
        4 if panics => Out::Panic,
        _ => Out::Reply(uniq(r), r.len(6000)),
    };
    // messages are formatted with {:?}: only what survives it unchanged
    let out = match out {
        Out::Fail(m) => Out::Fail(m.split(' ').next().unwrap().to_string()),
        o => o,
    };
    Plan { acts, out }
}

/// The side that is tested, connected to raw peers
pub struct Sut {
    pub raws: Vec<Raw>,
    pub ctxs: Vec<Ctx>,
    pub pool: Option<PooledContext>,
    pub srv: Option<Srv>,
    pub kind: &'static str,
}

/// Server with raw clients, client with a raw server, or pool with a raw server
pub async fn sut<T: Tp>(net: &Net<T>, b: IPCBuilder<T::L>, r: &mut Rng, cfg: &mut dyn FnMut(&mut Rng) -> LinkCfg) -> R<Sut> {
    match r.below(4) {
        0 | 1 => {
            let srv = net.serve(b).await;
            let mut raws = vec![];
            for _ in 0..r.few() {
                raws.push(net.raw_client(&cfg(r)).await?);
            }
            Ok(Sut { raws, ctxs: vec![], pool: None, srv: Some(srv), kind: "server" })
        }
        2 => {
            let (ctx, raw) = net.raw_server(b, &cfg(r)).await?;
            Ok(Sut { raws: vec![raw], ctxs: vec![ctx], pool: None, srv: None, kind: "client" })
        }
        _ => {
            let n = r.few();
            let (pool, raws) = raw_pool(net, b, &cfg(r), n).await?;
            let ctxs = (0..n).map(|_| (*pool.acquire()).clone()).collect();
            Ok(Sut { raws, ctxs, pool: Some(pool), srv: None, kind: "pool" })
        }
    }
}

/// A pool whose connections all lead to raw servers
pub async fn raw_pool<T: Tp>(net: &Net<T>, b: IPCBuilder<T::L>, cfg: &LinkCfg, n: usize) -> R<(PooledContext, Vec<Raw>)> {
    let l = net.raw_listener().await;
    let acc = tokio::spawn(async move {
        let mut v = vec![];
        for _ in 0..n {
            match l.protocol_accept().await {
                Ok((s, _)) => v.push(Raw::new(s)),
                Err(e) => return Err(format!("{:?}", e)),
            }
        }
        // nobody else is expected
        Ok(v)
    });
    let pool = net.pool(b, cfg, n).await?;
    match acc.await {
        Ok(Ok(v)) => Ok((pool, v)),
        Ok(Err(e)) => viol("accept", format!("accepting a pooled client failed: {}", e)),
        Err(e) => viol("accept", format!("accepting a pooled client failed: {}", e)),
    }
}

/// What is checked by `routes`
#[derive(Clone, Copy, PartialEq)]
pub enum Facet {
    Runs,
    Finals,
    Faults,
}

/// Raw peers send events of every kind, the tested side has random handlers
pub async fn routes<T: Tp>(sc: Arc<Sc>, facet: Facet) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let w = World::new();
    let spec = random_spec(&mut r);
    let b = w.on_all(net.builder(), 1, &spec);
    let s = sut(&net, b, &mut r, &mut |r| LinkCfg::random(r, true)).await?;
    let mut sent: Vec<Vec<Frame>> = vec![];
    let mut tasks = vec![];
    let mut used = std::collections::HashSet::new();
    let panics = facet != Facet::Finals || r.chance(300);
    for raw in s.raws.iter() {
        let mut fs = vec![];
        for _ in 0..r.range(3, 25) {
            let ns = match r.below(5) {
                0 | 1 => None,
                2 | 3 => Some(r.pick(&SPACES).to_string()),
                _ => Some(r.pick(&["", "x", "N", "n ", "a/", "error"]).to_string()),
            };
            let mut ns = ns.filter(|n| !n.is_empty());
            let mut name = match r.below(6) {
                0 => r.pick(&["", "c", "a ", "aa", "B", "n"]).to_string(),
                1 => "error".to_string(),
                _ => r.pick(&NAMES).to_string(),
            };
            if r.chance(250) && !spec.is_empty() {
                // what is registered, and what only resembles it
                let (n, m) = r.pick(&spec).clone();
                match r.below(6) {
                    0 => {}
                    1 => name = format!("{}{}{}", n.clone().unwrap_or_default(), r.pick(&["/", ":", ".", "::"]), m),
                    2 => name = m,
                    3 => {
                        ns = n.map(|n| odd_name(&mut r, &n)).filter(|n| !n.is_empty());
                        name = m;
                    }
                    4 => {
                        ns = n;
                        name = odd_name(&mut r, &m);
                    }
                    _ => {
                        ns = n;
                        name = m;
                    }
                }
            }
            let ty = *r.pick(&[codec::INIT, codec::INIT, codec::INIT, codec::RESP, codec::ERR, codec::END]);
            let ref_id = if r.chance(300) || (ty != codec::INIT && r.chance(700)) { Some(odd_id(&mut r)) } else { None };
            let data = match r.below(8) {
                0 => vec![],
                1 => err_payload(r.next() as u16, b"msg"),
                _ => {
                    let tok = uniq(&mut r);
                    w.plan(tok, random_plan(&mut r, true, panics));
                    token_payload(tok, r.len(3000))
                }
            };
            let mut id = odd_id(&mut r);
            while !used.insert(id) {
                id = r.next();
            }
            let mut f = Frame::new(ty, id, ref_id, ns.as_deref(), &name, data);
            if r.chance(100) {
                f.version = [0, r.next() as u8, r.next() as u8];
                f.extra = r.bytes(5);
            }
            fs.push(f);
        }
        let all: Vec<u8> = fs.iter().flat_map(|f| f.encode()).collect();
        let whole = r.chance(300);
        let raw = raw.clone();
        let mut r2 = r.fork();
        tasks.push(tokio::spawn(async move {
            if whole {
                raw.send(&all).await
            } else {
                raw.send_chunked(&all, &mut r2).await
            }
        }));
        sent.push(fs);
    }
    for t in tasks {
        match tokio::time::timeout(secs(600), t).await {
            Ok(Ok(Ok(()))) => {}
            x => return viol("not-read", format!("sending to the {} failed: {:?}", s.kind, x.map(|y| y.map(|z| z.map_err(|e| e.to_string()))))),
        }
    }
    // everything settles
    net.settle(secs(10)).await;
    let runs = w.runs();
    let plan_of = |f: &Frame| token_of(&f.data).and_then(|t| w.plans.lock().unwrap().get(&t).cloned());
    let mut expected: HashMap<(u64, Option<String>, String), &Frame> = HashMap::new();
    let mut n_final = 0;
    for (raw, fs) in s.raws.iter().zip(sent.iter()) {
        ensure_open(raw, facet)?;
        let got = raw.frames();
        let mut by_ref: HashMap<u64, Vec<&Frame>> = HashMap::new();
        let mut no_ref = 0;
        for g in &got {
            match g.ref_id {
                Some(i) => by_ref.entry(i).or_default().push(g),
                None => no_ref += 1,
            }
        }
        if facet == Facet::Finals && no_ref > 0 {
            return viol("no-reference", format!("the {} sent {} frames without a reference although only handlers emit", s.kind, no_ref));
        }
        for f in fs {
            let found = f.ty != codec::END && spec.iter().any(|(n, m)| *n == f.ns && *m == f.name);
            if found {
                expected.insert((f.id, f.ns.clone(), f.name.clone()), f);
            }
            let reps = by_ref.remove(&f.id).unwrap_or_default();
            let kind = format!("{} {} for the {}", if found { "handled" } else { "unhandled" }, f.short(), s.kind);
            let want: Vec<Expect> = if f.ty == codec::END {
                vec![]
            } else if found {
                match plan_of(f) {
                    Some(p) => replies_of(&p, f.id, 0),
                    None => replies_of(&Plan { acts: vec![], out: Out::Empty }, f.id, 0),
                }
            } else if f.ns.is_none() && f.name == "error" {
                // the builder's own handler
                match parse_err(&f.data) {
                    Some(_) => replies_of(&Plan { acts: vec![], out: Out::Empty }, f.id, 0),
                    None => replies_of(&Plan { acts: vec![], out: Out::Fail("".into()) }, f.id, 0),
                }
            } else {
                replies_of(&Plan { acts: vec![], out: Out::Empty }, f.id, 0)
            };
            match facet {
                Facet::Finals => {
                    if reps.len() != want.len() {
                        return viol(
                            "final-count",
                            format!("{}: {} frames reference it, the script says {}: {:?}", kind, reps.len(), want.len(), reps.iter().map(|x| x.short()).collect::<Vec<_>>()),
                        );
                    }
                    for (g, x) in reps.iter().zip(want.iter()) {
                        if let Err(m) = x.matches(g.ty, &g.ns, &g.name, &g.data) {
                            return viol("final-content", format!("{}: reply {} has {}", kind, g.short(), m));
                        }
                    }
                    n_final += reps.len() as u64;
                }
                Facet::Faults => {
                    // an end or error reply exactly for what returned
                    let fin: Vec<_> = reps.iter().filter(|g| g.ty >= codec::END).collect();
                    let wf: Vec<_> = want.iter().filter(|g| g.ty >= codec::END).collect();
                    if fin.len() != wf.len() {
                        return viol("isolation", format!("{}: {} final replies instead of {}", kind, fin.len(), wf.len()));
                    }
                    for (g, x) in fin.iter().zip(wf.iter()) {
                        if let Err(m) = x.matches(g.ty, &g.ns, &g.name, &g.data) {
                            return viol("error-reply", format!("{}: reply {} has {}", kind, g.short(), m));
                        }
                    }
                    n_final += fin.len() as u64;
                }
                Facet::Runs => {}
            }
        }
        if facet == Facet::Finals {
            if let Some((i, v)) = by_ref.iter().next() {
                return viol("unknown-reference", format!("the {} sent {} which references {:x}, no event of this connection", s.kind, v[0].short(), i));
            }
        }
    }
    let mut runs_left = expected.clone();
    if facet != Facet::Finals {
        for run in &runs {
            let key = (run.id, run.hns.clone(), run.hname.clone());
            let f = match runs_left.remove(&key) {
                Some(f) => f,
                None => {
                    let twice = expected.contains_key(&key);
                    return viol(
                        if twice { "ran-twice" } else { "wrong-handler" },
                        format!("{}: handler {:?}/{} ran for event {:?}/{} of type {}, twice: {}", s.kind, run.hns, run.hname, run.ns, run.name, run.ty, twice),
                    );
                }
            };
            if run.ty != f.ty || run.ref_id != f.ref_id || run.ns != f.ns || run.name != f.name || run.data != f.data {
                return viol("changed", format!("{}: handler {:?}/{} got {:?} for {}", s.kind, run.hns, run.hname, (run.ty, run.ref_id, &run.ns, &run.name, run.data.len()), f.short()));
            }
        }
        if let Some((_, f)) = runs_left.iter().next() {
            return viol("not-handled", format!("{}: {} of {} events were not handled, for example {}", s.kind, runs_left.len(), expected.len(), f.short()));
        }
    }
    let total: usize = sent.iter().map(|x| x.len()).sum();
    sc.count("events sent", total as u64);
    sc.count("handler runs compared", runs.len() as u64);
    sc.count("replies compared", n_final);
    let h = sent.iter().flatten().fold(0u64, |h, f| mix(h, hash_bytes(&f.encode())));
    sc.case(Some(h), || {
        format!("{} {} with {} handlers and {} connections: {} events, {} handler runs, {} replies", T::NAME, s.kind, spec.len(), s.raws.len(), total, runs.len(), n_final)
    });
    Ok(())
}

fn ensure_open(raw: &Raw, facet: Facet) -> R {
    if let Some(b) = raw.bad() {
        return viol("bad-frame", format!("bytes that are no frame were sent: {}", b));
    }
    if facet != Facet::Finals {
        if let Some(c) = raw.closed() {
            return viol("closed", format!("the connection was closed ({})", c));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- library on both sides

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind3 {
    Fire,
    Ask,
    Stream,
}

/// What one operation of a client saw
#[derive(Clone, Debug)]
pub enum Seen3 {
    Sent(u64),
    Reply(u8, Option<String>, String, Vec<u8>, Option<u64>),
    ErrReply(u16, String),
    Fail(String),
}

pub fn seen_event(e: &Event) -> Seen3 {
    Seen3::Reply(evt_ty(e.event_type()), e.namespace().clone(), e.name().to_string(), e.data_raw().to_vec(), e.reference_id())
}
pub fn seen_err(e: Error) -> Seen3 {
    match e {
        Error::ErrorEvent(d) => Seen3::ErrReply(d.code, d.message),
        e => Seen3::Fail(format!("{:?}", e)),
    }
}

pub fn expect_seen(x: &Expect, s: &Seen3) -> Result<(), String> {
    match s {
        Seen3::Reply(ty, ns, name, data, _) => x.matches(*ty, ns, name, data),
        Seen3::ErrReply(code, m) => {
            let want = x.err.as_ref().ok_or(format!("an error reply {} '{}' instead of {:?}", code, m, x.ty))?;
            if *code != 500 || !m.contains(want.as_str()) {
                return Err(format!("error {} '{}' instead of 500 and '{}'", code, m, want));
            }
            Ok(())
        }
        o => Err(format!("{:?}", o)),
    }
}

pub struct Op {
    pub tok: u64,
    pub ns: Option<String>,
    pub name: String,
    pub kind: Kind3,
    pub client: usize,
    pub seen: Vec<Seen3>,
    pub timeout: Option<std::time::Duration>,
}

pub struct MeshCfg {
    pub clients: usize,
    pub pool: usize,
    pub tasks: usize,
    pub per_task: usize,
    pub panics: bool,
    pub timed: bool,
    pub tight: bool,
    /// clients whose connection breaks: (client, to the server, fault, bytes from when on everything is connected)
    pub faults: Vec<(usize, bool, Fault)>,
}

pub struct MeshRes {
    pub ops: Vec<Op>,
    pub spec_s: Spec,
    pub spec_c: Spec,
    pub world: Arc<World>,
    pub events: u64,
    pub victims: std::collections::HashSet<usize>,
}

/// Random clients, handlers and requests; returns what everybody saw
pub async fn mesh<T: Tp>(net: &Net<T>, r: &mut Rng, c: &MeshCfg) -> R<MeshRes> {
    let w = World::new();
    let mut spec_s = random_spec(r);
    spec_s.push((None, "a".into()));
    spec_s.push((Some("n".into()), "a".into()));
    let mut spec_c = random_spec(r);
    spec_c.push((None, "error".into()));
    spec_c.push((None, "a".into()));
    let _srv = net.serve(w.on_all(net.builder(), 0, &spec_s)).await;
    let mut handles: Vec<(usize, Ctx)> = vec![];
    let mut pools = vec![];
    for i in 0..c.clients {
        let cfg = if c.tight { LinkCfg::tight(r) } else { LinkCfg::random(r, c.timed) };
        let b = w.on_all(net.builder(), 1 + i as u32, &spec_c).timeout(secs(if c.faults.is_empty() { 3000 } else { 1000 }));
        if c.pool > 0 {
            let p = net.pool(b, &cfg, c.pool).await?;
            pools.push(p);
        } else {
            handles.push((i, net.client(b, &cfg).await?));
        }
    }
    let mut victims = std::collections::HashSet::new();
    for (v, up, f) in c.faults.iter() {
        victims.insert(*v);
        let per = c.pool.max(1);
        for k in 0..per {
            let l = net.link(v * per + k);
            let d = if *up { &l.c2s } else { &l.s2c };
            let n = d.written();
            d.set_fault(Some(match f {
                Fault::Eof(k) => Fault::Eof(n + k),
                Fault::Reset(k) => Fault::Reset(n + k),
                Fault::Stall(k) => Fault::Stall(n + k),
            }));
        }
    }
    let mut joins = vec![];
    for t in 0..c.tasks {
        let mut r2 = r.fork();
        let mut ops = vec![];
        let client = r.idx(c.clients);
        for _ in 0..c.per_task {
            let tok = uniq(&mut r2);
            let kind = *r2.pick(&[Kind3::Fire, Kind3::Ask, Kind3::Ask, Kind3::Stream]);
            let mut p = random_plan(&mut r2, true, c.panics && kind == Kind3::Fire);
            if kind == Kind3::Fire && r2.chance(300) {
                // the server asks back, which the client answers with its handler
                let atok = uniq(&mut r2);
                let ap = random_plan(&mut r2, false, false);
                w.plan(atok, ap);
                p.acts.push(Act::Ask { ns: None, name: "a".into(), tok: atok, len: r2.len(500) });
            }
            w.plan(tok, p);
            ops.push(Op {
                tok,
                ns: if r2.chance(350) { Some(r2.pick(&SPACES).to_string()) } else { None },
                name: if r2.chance(300) { "a".into() } else { r2.pick(&NAMES).to_string() },
                kind,
                client,
                seen: vec![],
                timeout: None,
            });
        }
        let ctx = if c.pool > 0 { None } else { Some(handles[client].1.clone()) };
        let pool = if c.pool > 0 { Some(pools[client].clone()) } else { None };
        let _ = t;
        joins.push(tokio::spawn(async move {
            for op in ops.iter_mut() {
                let len = r2.len(3000);
                let guard = pool.as_ref().map(|p| p.acquire());
                let ctx: &Ctx = match (&guard, &ctx) {
                    (Some(g), _) => g,
                    (_, Some(c)) => c,
                    _ => unreachable!(),
                };
                let p = bp(token_payload(op.tok, len));
                let m = match &op.ns {
                    Some(ns) => ctx.emit_to(ns, &op.name, p),
                    None => ctx.emit(&op.name, p),
                };
                match op.kind {
                    Kind3::Fire => op.seen.push(match m.await {
                        Ok(id) => Seen3::Sent(id),
                        Err(e) => seen_err(e),
                    }),
                    Kind3::Ask => op.seen.push(match m.await_reply().await {
                        Ok(e) => seen_event(&e),
                        Err(e) => seen_err(e),
                    }),
                    Kind3::Stream => match m.stream_replies().await {
                        Err(e) => op.seen.push(seen_err(e)),
                        Ok(mut s) => loop {
                            match next(&mut s).await {
                                None => break,
                                Some(Ok(e)) => op.seen.push(seen_event(&e)),
                                Some(Err(e)) => {
                                    op.seen.push(seen_err(e));
                                    break;
                                }
                            }
                            if r2.chance(200) {
                                sleep(us(r2.range(0, 3000))).await;
                            }
                            if op.seen.len() > 1000 {
                                break;
                            }
                        },
                    },
                }
                if r2.chance(200) {
                    sleep(us(r2.range(0, 2000))).await;
                }
            }
            ops
        }));
    }
    let mut ops = vec![];
    for j in joins {
        match j.await {
            Ok(o) => ops.extend(o),
            Err(e) => return viol("panic", format!("a client task panicked: {}", e)),
        }
    }
    net.settle(secs(10)).await;
    let events = w.n_runs() as u64;
    Ok(MeshRes { ops, spec_s, spec_c, world: w, events, victims })
}

/// Compares what the callers saw with the script
pub fn check_callers(m: &MeshRes) -> R {
    let plans = m.world.plans.lock().unwrap();
    for op in &m.ops {
        let handled = m.spec_s.iter().any(|(n, x)| *n == op.ns && *x == op.name);
        let empty = Plan { acts: vec![], out: Out::Empty };
        let plan = if handled { &plans[&op.tok] } else { &empty };
        let want = replies_of(plan, 0, 0);
        let what = format!("{:?} of {:?}/{} token {:x}", op.kind, op.ns, op.name, op.tok);
        if m.victims.contains(&op.client) {
            // right as far as it goes, then an error or the end
            let (seen, failed) = match op.seen.split_last() {
                Some((Seen3::Fail(_), s)) => (s, true),
                _ => (&op.seen[..], false),
            };
            if op.kind == Kind3::Fire || (op.kind == Kind3::Ask && seen.is_empty() && failed) {
                continue;
            }
            if seen.len() > want.len() {
                return viol("stream", format!("{} on a broken connection: {} replies instead of {}", what, seen.len(), want.len()));
            }
            for (x, s) in want.iter().zip(seen.iter()) {
                if let Err(e) = expect_seen(x, s) {
                    return viol("reply", format!("{} on a broken connection: a reply has {}", what, e));
                }
            }
            continue;
        }
        match op.kind {
            Kind3::Fire => match &op.seen[..] {
                [Seen3::Sent(_)] => {}
                x => return viol("emit", format!("{}: {:?}", what, x)),
            },
            Kind3::Ask => {
                if let Err(x) = expect_seen(&want[0], &op.seen[0]) {
                    return viol("reply", format!("{}: the reply has {}", what, x));
                }
            }
            Kind3::Stream => {
                if op.seen.len() != want.len() {
                    return viol("stream", format!("{}: {} replies instead of {}", what, op.seen.len(), want.len()));
                }
                for (i, (x, s)) in want.iter().zip(op.seen.iter()).enumerate() {
                    if let Err(e) = expect_seen(x, s) {
                        return viol("stream", format!("{}: reply {} of {} has {}", what, i + 1, want.len(), e));
                    }
                }
            }
        }
    }
    // what handlers asked
    let asked: HashMap<u64, &Result<Vec<u8>, String>> = HashMap::new();
    drop(asked);
    let mut broken = std::collections::HashSet::new();
    for op in m.ops.iter().filter(|o| m.victims.contains(&o.client)) {
        for a in &plans[&op.tok].acts {
            if let Act::Ask { tok, .. } = a {
                broken.insert(*tok);
            }
        }
    }
    for (tok, res) in m.world.asked.lock().unwrap().iter() {
        if res.is_err() && broken.contains(tok) {
            continue;
        }
        let want = replies_of(&plans[tok], 0, 0);
        let ok = match (&want[0], res) {
            (Expect { err: Some(e), .. }, Err(m)) => m.contains(e.as_str()),
            (Expect { data: Some(d), .. }, Ok(b)) => d == b,
            _ => false,
        };
        if !ok {
            return viol("nested-reply", format!("a handler that asked with token {:x} got {:?}", tok, res.as_ref().map(|b| token_of(b))));
        }
    }
    Ok(())
}

/// Compares the runs of handlers with the script
pub fn check_runs(m: &MeshRes) -> R {
    let plans = m.world.plans.lock().unwrap();
    let runs = m.world.runs();
    // (instance, token) -> (must, may)
    let mut want: HashMap<(u32, u64), (bool, Option<String>, String)> = HashMap::new();
    let mut errors: HashMap<u32, Vec<(String, bool)>> = HashMap::new();
    // an empty namespace is none
    let norm = |ns: &Option<String>| ns.clone().filter(|n| !n.is_empty());
    let has = |s: &Spec, ns: &Option<String>, n: &str| s.iter().any(|(a, b)| *a == norm(ns) && b == n);
    for op in &m.ops {
        let inst = 1 + op.client as u32;
        if !has(&m.spec_s, &op.ns, &op.name) {
            continue;
        }
        let sure = !m.victims.contains(&op.client);
        want.insert((0, op.tok), (sure, op.ns.clone(), op.name.clone()));
        let plan = &plans[&op.tok];
        let mut first = true;
        for a in &plan.acts {
            if let Act::Emit { ns, name, tok, .. } | Act::Ask { ns, name, tok, .. } = a {
                if has(&m.spec_c, ns, name) {
                    match op.kind {
                        Kind3::Fire => {
                            want.insert((inst, *tok), (sure, norm(ns), name.clone()));
                        }
                        // the first one is the reply, the others may come while it is picked up
                        _ if !sure => {
                            want.insert((inst, *tok), (false, norm(ns), name.clone()));
                        }
                        Kind3::Ask if !first => {
                            want.insert((inst, *tok), (false, norm(ns), name.clone()));
                        }
                        _ => {}
                    }
                }
                first = false;
            }
        }
        if let Out::Fail(e) = &plan.out {
            match op.kind {
                Kind3::Fire => errors.entry(inst).or_default().push((e.clone(), sure)),
                _ if !sure => errors.entry(inst).or_default().push((e.clone(), false)),
                Kind3::Ask if !first => errors.entry(inst).or_default().push((e.clone(), false)),
                _ => {}
            }
        }
    }
    let mut seen: HashMap<(u32, u64), u32> = HashMap::new();
    for run in &runs {
        if run.hname == "error" && run.hns.is_none() && run.ty == codec::ERR {
            let (code, msg) = match parse_err(&run.data) {
                Some(x) => x,
                None => return viol("error-event", format!("an error handler got a payload that is none: {:?}", run.data)),
            };
            let l = errors.entry(run.inst).or_default();
            match l.iter().position(|(e, _)| msg.contains(e.as_str())) {
                Some(i) if code == 500 => {
                    l.swap_remove(i);
                }
                _ => return viol("error-event", format!("an error handler ran unexpectedly or twice: {} '{}'", code, msg)),
            }
            continue;
        }
        let tok = match run.tok() {
            Some(t) => t,
            None => return viol("changed", format!("handler {:?}/{} got a changed payload of {} bytes", run.hns, run.hname, run.data.len())),
        };
        let k = (run.inst, tok);
        let n = seen.entry(k).or_insert(0);
        *n += 1;
        match want.get(&k) {
            None => return viol("wrong-handler", format!("handler {:?}/{} of side {} ran for {:?}/{} (type {}) unexpectedly", run.hns, run.hname, run.inst, run.ns, run.name, run.ty)),
            Some((_, ns, name)) => {
                if *n > 1 {
                    return viol("ran-twice", format!("handler {:?}/{} ran {} times for one event", run.hns, run.hname, n));
                }
                if run.hns != *ns || run.hname != *name || run.ns != *ns || run.name != *name {
                    return viol("wrong-handler", format!("handler {:?}/{} ran for {:?}/{}, sent as {:?}/{}", run.hns, run.hname, run.ns, run.name, ns, name));
                }
            }
        }
    }
    for (k, (must, ns, name)) in &want {
        if *must && !seen.contains_key(k) {
            return viol("not-handled", format!("event {:?}/{} for side {} was not handled", ns, name, k.0));
        }
    }
    for (inst, l) in errors {
        if let Some((e, _)) = l.iter().find(|x| x.1) {
            return viol("error-event", format!("the error '{}' did not reach the error handler of client {}", e, inst));
        }
    }
    Ok(())
}

/// Checks the recorded bytes of all plain connections: complete frames, legal references and types
pub fn check_wire<T: Tp>(net: &Net<T>, partial_ok: bool) -> R<u64> {
    if T::ENC {
        return Ok(0);
    }
    let links = net.links.lock().unwrap().clone();
    let mut n = 0;
    let mut ids = HashMap::new();
    for l in links.iter() {
        let mut both = vec![];
        for (d, dir) in [(&l.c2s, "client to server"), (&l.s2c, "server to client")] {
            match codec::parse_all(&d.recorded()) {
                Err(m) => return viol("bad-frame", format!("{}: {}", dir, m)),
                Ok((f, rest)) => {
                    if rest > 0 && !partial_ok {
                        return viol("bad-frame", format!("{}: {} bytes of an incomplete frame at the end", dir, rest));
                    }
                    n += f.len() as u64;
                    both.push(f);
                }
            }
        }
        for (i, fs) in both.iter().enumerate() {
            let other: std::collections::HashSet<u64> = both[1 - i].iter().map(|f| f.id).collect();
            let mut finals: HashMap<u64, u32> = HashMap::new();
            for f in fs {
                if ids.insert(f.id, ()).is_some() {
                    return viol("duplicate-id", format!("two frames have the id {:x}", f.id));
                }
                match f.ref_id {
                    None => {
                        if f.ty != codec::INIT {
                            return viol("no-reference", format!("{} has no reference", f.short()));
                        }
                    }
                    Some(x) => {
                        if f.ty == codec::INIT {
                            return viol("type", format!("{} is a reply with the type of an initiator", f.short()));
                        }
                        if !other.contains(&x) {
                            return viol("unknown-reference", format!("{} references no event of this connection", f.short()));
                        }
                        let k = finals.entry(x).or_insert(0);
                        if *k > 0 {
                            return viol("after-final", format!("{} was sent after the final reply", f.short()));
                        }
                        if f.ty >= codec::END {
                            *k += 1;
                        }
                    }
                }
            }
            // every event was answered
            for f in &both[1 - i] {
                if f.ty != codec::END && finals.get(&f.id).copied().unwrap_or(0) != 1 {
                    let consumed = f.ref_id.is_some();
                    if !consumed {
                        n += 0;
                    }
                }
            }
        }
    }
    Ok(n)
}
