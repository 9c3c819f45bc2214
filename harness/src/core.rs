//! Scenario runner: many seeded scenarios, each on its own runtime, watched for panics, hangs and livelocks.
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Stop {
    Viol { sig: String, msg: String },
    Inconc(String),
}
pub type R<T = ()> = Result<T, Stop>;

pub fn viol<T>(sig: &str, msg: impl Into<String>) -> R<T> {
    Err(Stop::Viol { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !$c {
            return Err($crate::core::Stop::Viol { sig: $sig.to_string(), msg: format!($($a)*) });
        }
    };
}
#[macro_export]
macro_rules! bail {
    ($sig:expr, $($a:tt)*) => {
        return Err($crate::core::Stop::Viol { sig: $sig.to_string(), msg: format!($($a)*) })
    };
}

/// Payload of panics that a scenario causes on purpose
pub struct Intended;

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub viols: Vec<(String, String)>,
    pub known: Vec<(String, String)>,
    pub inconc: Vec<String>,
}

pub struct Sc {
    pub fam: &'static str,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub tcfg: &'static str,
    st: Mutex<Stats>,
}

impl Sc {
    pub fn rng(&self) -> Rng {
        Rng::new(self.seed)
    }
    pub fn st(&self) -> std::sync::MutexGuard<'_, Stats> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// One evaluated case; `hash` identifies it among the distinct non-trivial ones (None: trivial)
    pub fn case(&self, hash: Option<u64>, desc: impl FnOnce() -> String) {
        let mut s = self.st();
        s.evals += 1;
        if let Some(h) = hash {
            s.distinct.insert(h);
        }
        if s.samples.len() < 2 {
            let mut d = desc();
            if d.len() > 400 {
                let mut n = 400;
                while !d.is_char_boundary(n) {
                    n -= 1;
                }
                d.truncate(n);
            }
            s.samples.push(format!("{}[{}]: {}", self.fam, self.idx, d));
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.st().counters.entry(k.to_string()).or_insert(0) += n;
    }
    /// Reports a violation from anywhere, for example inside of a handler
    pub fn fail(&self, sig: &str, msg: impl Into<String>) {
        let mut s = self.st();
        if s.viols.len() < 20 {
            s.viols.push((sig.to_string(), msg.into()));
        }
    }
    pub fn check(&self, ok: bool, sig: &str, msg: impl FnOnce() -> String) {
        if !ok {
            self.fail(sig, msg())
        }
    }
    /// Reports a failure that the known-findings file has to list
    pub fn known(&self, sig: &str, msg: impl Into<String>) {
        self.st().known.push((sig.to_string(), msg.into()));
    }
}

pub type Fut = Pin<Box<dyn Future<Output = R>>>;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// Current-thread runtime with virtual time; runs in parallel with other scenarios
    Sim,
    /// Multi-thread runtime in real time; runs alone
    Multi,
}

#[derive(Clone)]
pub struct Fam {
    pub name: &'static str,
    pub q: u64,
    pub t: u64,
    pub kind: Kind,
    pub f: fn(Arc<Sc>) -> Fut,
}

pub fn fam(name: &'static str, q: u64, t: u64, f: fn(Arc<Sc>) -> Fut) -> Fam {
    Fam { name, q, t, kind: Kind::Sim, f }
}
pub fn fam_multi(name: &'static str, q: u64, t: u64, f: fn(Arc<Sc>) -> Fut) -> Fam {
    Fam { name, q, t, kind: Kind::Multi, f }
}

#[macro_export]
macro_rules! boxed {
    ($f:path) => {{
        fn b(s: std::sync::Arc<$crate::core::Sc>) -> $crate::core::Fut {
            Box::pin($f(s))
        }
        b
    }};
}

// ---------------------------------------------------------------- panics

struct PanicInfo {
    loc: String,
    msg: String,
}

thread_local! {
    static PANICS: RefCell<Option<Vec<PanicInfo>>> = const { RefCell::new(None) };
}
static GPANICS: Mutex<Vec<PanicInfo>> = Mutex::new(Vec::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<Intended>() {
            return;
        }
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("BMON_BT").is_ok() {
            eprintln!("panic at {}: {}\n{}", loc, msg, std::backtrace::Backtrace::force_capture());
        }
        let p = PanicInfo { loc, msg };
        let left = PANICS.with(|v| match v.try_borrow_mut() {
            Ok(mut g) => match g.as_mut() {
                Some(v) => {
                    v.push(p);
                    None
                }
                None => Some(p),
            },
            Err(_) => Some(p),
        });
        if let Some(p) = left {
            GPANICS.lock().unwrap_or_else(|e| e.into_inner()).push(p);
        }
    }));
}

// ---------------------------------------------------------------- runner

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub tcfg: &'static str,
    pub only: Option<(String, Option<u64>)>,
    pub threads: usize,
    pub status: Option<String>,
    pub budget: Duration,
    pub scale: f64,
    /// do not end early after violations
    pub all: bool,
}

struct Slot {
    what: Mutex<(String, f64)>,
    clock: AtomicU64,
    tid: AtomicU64,
}

fn cpu_of(clock: u64) -> f64 {
    if clock == 0 {
        return 0.0;
    }
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock as u32 as libc::clockid_t, &mut ts) != 0 {
            return 0.0;
        }
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

fn process_cpu() -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

pub const HANG: Duration = Duration::from_secs(3 * 3600);

fn drain_panics(list: Vec<PanicInfo>, out: &mut Stats) {
    for p in list {
        if p.loc.contains("src/") && p.loc.starts_with("src/") {
            out.inconc.push(format!("HARNESS panic at {}: {}", p.loc, p.msg));
        } else {
            let short = p.loc.rsplit("/repo/").next().unwrap_or(&p.loc).to_string();
            let short = match short.find("registry/src/") {
                Some(i) => short[i + 13..].splitn(2, '/').nth(1).unwrap_or("").to_string(),
                None => short,
            };
            out.viols.push((format!("panic@{}", short.rsplit_once(':').map(|x| x.0).unwrap_or("")), format!("panic at {}: {}", short, p.msg)));
        }
    }
}

fn new_sc(o: &Opts, f: &Fam, idx: u64) -> Arc<Sc> {
    let h = crate::rng::hash_bytes(format!("{}/{}", o.prop, f.name).as_bytes());
    Arc::new(Sc {
        fam: f.name,
        idx,
        seed: mix(mix(o.seed, h), idx),
        thorough: o.thorough,
        tcfg: o.tcfg,
        st: Mutex::new(Stats::default()),
    })
}

fn finish(sc: Arc<Sc>, r: Option<R>) -> Stats {
    let mut st = std::mem::take(&mut *sc.st());
    match r {
        Some(Ok(())) | None => {}
        Some(Err(Stop::Viol { sig, msg })) => st.viols.push((sig, msg)),
        Some(Err(Stop::Inconc(m))) => st.inconc.push(m),
    }
    st
}

fn run_sim(o: &Opts, f: &Fam, idx: u64) -> Stats {
    PANICS.with(|p| *p.borrow_mut() = Some(vec![]));
    let sc = new_sc(o, f, idx);
    // some scenarios log everything, as debugging a deployment would
    let log = sc.seed % 4 == 0;
    crate::logger::on(log);
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
        let fut = (f.f)(sc.clone());
        let hang = if f.name.starts_with("long") { HANG * 10_000 } else { HANG };
        let r = rt.block_on(async move { tokio::time::timeout(hang, fut).await });
        drop(rt);
        match r {
            Ok(r) => r,
            Err(_) => viol("hang", "the scenario made no progress: an operation never completed (3 h of virtual time passed)"),
        }
    }));
    crate::logger::on(false);
    let panics = PANICS.with(|p| p.borrow_mut().take().unwrap_or_default());
    if log {
        sc.count("scenarios with a trace log", 1);
    }
    let mut st = finish(sc, r.ok());
    drain_panics(panics, &mut st);
    st
}

fn run_multi(o: &Opts, f: &Fam, idx: u64) -> Stats {
    let mut hangs = 0;
    let mut tries = 0;
    loop {
        tries += 1;
        GPANICS.lock().unwrap_or_else(|e| e.into_inner()).clear();
        let sc = new_sc(o, f, idx);
        let mut hung = false;
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap();
            let fut = (f.f)(sc.clone());
            let r = rt.block_on(async move { tokio::time::timeout(Duration::from_secs(60), fut).await });
            rt.shutdown_timeout(Duration::from_secs(2));
            r
        }));
        let r = match r {
            Ok(Ok(r)) => Some(r),
            Ok(Err(_)) => {
                hung = true;
                None
            }
            Err(_) => None,
        };
        let panics = std::mem::take(&mut *GPANICS.lock().unwrap_or_else(|e| e.into_inner()));
        let mut st = finish(sc, r);
        drain_panics(panics, &mut st);
        if hung && st.viols.is_empty() {
            hangs += 1;
            if hangs >= 2 {
                st.viols.push(("hang".into(), format!("no completion within 60 s, {} times", hangs)));
                return st;
            }
            if tries < 3 {
                continue;
            }
            st.inconc.push("one run did not finish within 60 s, two repetitions did".into());
        }
        if hangs == 1 && st.viols.is_empty() && tries < 3 {
            continue;
        }
        return st;
    }
}

pub struct Total {
    pub st: Stats,
    pub per_fam: BTreeMap<String, u64>,
    pub viols: Vec<(String, u64, String, String)>,
    pub known: Vec<(String, u64, String, String)>,
    pub planned: u64,
    pub ran: u64,
    pub wall: f64,
}

pub fn run(o: &Opts, fams: &[Fam], out: &(dyn Fn(&Total) + Sync)) {
    let t0 = Instant::now();
    let mut sims: Vec<(usize, u64)> = vec![];
    let mut multis: Vec<(usize, u64)> = vec![];
    for (i, f) in fams.iter().enumerate() {
        let n = if o.thorough { f.t } else { f.q };
        let n = if f.q > 3 { ((n as f64) * o.scale).ceil() as u64 } else { n };
        for k in 0..n {
            if let Some((name, idx)) = &o.only {
                if name != f.name || idx.map(|x| x != k).unwrap_or(false) {
                    continue;
                }
            }
            if f.kind == Kind::Sim {
                sims.push((i, k))
            } else {
                multis.push((i, k))
            }
        }
        // replays may name an index beyond the tier's count
        if let Some((name, Some(idx))) = &o.only {
            if name == f.name && *idx >= n {
                if f.kind == Kind::Sim {
                    sims.push((i, *idx))
                } else {
                    multis.push((i, *idx))
                }
            }
        }
    }
    // interleave the families so that a budget cuts all of them evenly
    let frac = |x: &(usize, u64)| {
        let f = &fams[x.0];
        let n = if o.thorough { f.t } else { f.q };
        (x.1 as f64 + 0.5) / (n.max(1) as f64)
    };
    sims.sort_by(|a, b| frac(a).partial_cmp(&frac(b)).unwrap());
    let planned = (sims.len() + multis.len()) as u64;
    let total = Arc::new(Mutex::new(Total {
        st: Stats::default(),
        per_fam: BTreeMap::new(),
        viols: vec![],
        known: vec![],
        planned,
        ran: 0,
        wall: 0.0,
    }));
    let merge = |f: &Fam, idx: u64, st: Stats| {
        let mut t = total.lock().unwrap();
        t.ran += 1;
        *t.per_fam.entry(f.name.to_string()).or_insert(0) += 1;
        t.st.evals += st.evals;
        let mix_in = crate::rng::hash_bytes(f.name.as_bytes());
        t.st.distinct.extend(st.distinct.iter().map(|h| mix(*h, mix_in)));
        if t.st.samples.len() < 60 && *t.per_fam.get(f.name).unwrap() <= 3 {
            t.st.samples.extend(st.samples.into_iter().take(1));
        }
        for (k, v) in st.counters {
            *t.st.counters.entry(k).or_insert(0) += v;
        }
        for (s, m) in st.viols {
            t.viols.push((f.name.to_string(), idx, s, m));
        }
        for (s, m) in st.known {
            t.known.push((f.name.to_string(), idx, s, m));
        }
        for m in st.inconc {
            if t.st.inconc.len() < 200 {
                t.st.inconc.push(format!("{}[{}]: {}", f.name, idx, m));
            }
        }
    };
    let status = o.status.as_ref().map(|p| std::fs::File::create(p).unwrap());
    let set_status = |slot: usize, s: &str| {
        if let Some(f) = &status {
            use std::os::unix::fs::FileExt;
            let mut line = format!("{:<63}", s).into_bytes();
            line.truncate(63);
            line.push(b'\n');
            let _ = f.write_at(&line, slot as u64 * 64);
        }
    };
    let slots: Vec<Slot> = (0..o.threads + 1)
        .map(|_| Slot { what: Mutex::new((String::new(), 0.0)), clock: AtomicU64::new(0), tid: AtomicU64::new(0) })
        .collect();
    let stop = AtomicUsize::new(0);
    let next = AtomicUsize::new(0);
    // enough is known some time after the first violation
    let found: Mutex<(Option<Instant>, usize)> = Mutex::new((None, 0));
    let note = |st: &Stats| {
        let n = st.viols.len();
        if n > 0 {
            let mut g = found.lock().unwrap();
            g.0.get_or_insert_with(Instant::now);
            g.1 += n;
        }
    };
    let enough = || {
        let g = found.lock().unwrap();
        !o.all && (g.1 >= 400 || g.0.map(|t| t.elapsed() > Duration::from_secs(30)).unwrap_or(false))
    };
    std::thread::scope(|s| {
        // watches for scenarios that spin or block
        s.spawn(|| {
            // counted instead of measured: a pause of the whole machine is no time
            let mut ticks: Vec<(String, u64)> = slots.iter().map(|_| (String::new(), 0)).collect();
            while stop.load(Ordering::SeqCst) == 0 {
                std::thread::sleep(Duration::from_millis(200));
                for (sl, tick) in slots.iter().zip(ticks.iter_mut()) {
                    let (what, cpu0) = sl.what.lock().unwrap().clone();
                    if what != tick.0 {
                        *tick = (what.clone(), 0);
                    }
                    tick.1 += 1;
                    if what.is_empty() {
                        continue;
                    }
                    let wall = tick.1 as f64 * 0.2;
                    let cpu = cpu_of(sl.clock.load(Ordering::SeqCst)) - cpu0;
                    let limit = if o.thorough { 240.0 } else { 60.0 };
                    let bad = if cpu > limit {
                        Some(("livelock", format!("the scenario has been computing for {:.0} s without finishing", cpu)))
                    } else if wall > 2.0 * limit && cpu < 5.0 && !what.starts_with('!') {
                        Some(("deadlock", format!("the scenario has been blocked for {:.0} s", wall)))
                    } else {
                        None
                    };
                    if let Some((sig, msg)) = bad {
                        let mut t = total.lock().unwrap();
                        let (f, i) = what.trim_start_matches('!').rsplit_once(' ').map(|(a, b)| (a.to_string(), b.parse().unwrap_or(0))).unwrap();
                        t.viols.push((f, i, sig.to_string(), msg));
                        t.wall = t0.elapsed().as_secs_f64();
                        out(&t);
                        std::process::exit(0);
                    }
                }
            }
        });
        std::thread::scope(|s2| {
            for th in 0..o.threads {
                let (sims, slots, next, merge, set_status, note, enough) = (&sims, &slots, &next, &merge, &set_status, &note, &enough);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s2, move || {
                        unsafe {
                            let mut c: libc::clockid_t = 0;
                            if libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) == 0 {
                                slots[th].clock.store(c as u32 as u64, Ordering::SeqCst);
                            }
                            slots[th].tid.store(1, Ordering::SeqCst);
                        }
                        loop {
                            let k = next.fetch_add(1, Ordering::SeqCst);
                            if k >= sims.len() || t0.elapsed() > o.budget || enough() {
                                break;
                            }
                            let (fi, idx) = sims[k];
                            let f = &fams[fi];
                            let what = format!("{} {}", f.name, idx);
                            set_status(th, &what);
                            *slots[th].what.lock().unwrap() = (what, cpu_of(slots[th].clock.load(Ordering::SeqCst)));
                            let st = run_sim(o, f, idx);
                            *slots[th].what.lock().unwrap() = (String::new(), 0.0);
                            set_status(th, "");
                            note(&st);
                            merge(f, idx, st);
                        }
                    })
                    .unwrap();
            }
        });
        let _ = process_cpu();
        for (fi, idx) in multis.iter() {
            if t0.elapsed() > o.budget || (!o.all && found.lock().unwrap().1 > 0) {
                break;
            }
            let f = &fams[*fi];
            let what = format!("!{} {}", f.name, idx);
            set_status(o.threads, &what);
            let st = run_multi(o, f, *idx);
            set_status(o.threads, "");
            note(&st);
            merge(f, *idx, st);
        }
        stop.store(1, Ordering::SeqCst);
    });
    let mut t = total.lock().unwrap();
    t.wall = t0.elapsed().as_secs_f64();
    out(&t);
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn to_json(t: &Total) -> String {
    let list = |v: &Vec<(String, u64, String, String)>| {
        v.iter()
            .take(400)
            .map(|(f, i, s, m)| format!("{{\"fam\":{},\"idx\":{},\"sig\":{},\"msg\":{}}}", jstr(f), i, jstr(s), jstr(&m.chars().take(2000).collect::<String>())))
            .collect::<Vec<_>>()
            .join(",")
    };
    format!(
        "{{\"planned\":{},\"ran\":{},\"evals\":{},\"distinct\":[{}],\"counters\":{{{}}},\"per_fam\":{{{}}},\"samples\":[{}],\"inconc\":[{}],\"viols\":[{}],\"known\":[{}],\"wall\":{:.2}}}",
        t.planned,
        t.ran,
        t.st.evals,
        t.st.distinct.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(","),
        t.st.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
        t.per_fam.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
        t.st.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        t.st.inconc.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        list(&t.viols),
        list(&t.known),
        t.wall
    )
}
