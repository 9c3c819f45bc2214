//! Simulated transport behind bromine's public transport traits.
use crate::rng::Rng;
use async_trait::async_trait;
use bromine::error::{Error, Result};
use bromine::protocol::{AsyncProtocolStream, AsyncProtocolStreamSplit, AsyncStreamProtocolListener};
use std::collections::{HashMap, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
use tokio::time::{Instant, Sleep};

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// The reader gets the first n bytes, then end of stream; later writes fail
    Eof(usize),
    /// The reader gets the first n bytes, then an error, in both directions; later writes fail
    Reset(usize),
    /// The reader gets the first n bytes, then nothing ever again
    Stall(usize),
}

#[derive(Clone, Debug)]
pub struct DirCfg {
    /// Bytes that may be in flight before writes wait
    pub cap: usize,
    pub wmax: usize,
    pub rmax: usize,
    /// Chance (permille) that a poll returns Pending once although it could proceed
    pub wpend: u32,
    pub rpend: u32,
    /// Latency range in virtual microseconds
    pub lat: (u64, u64),
    /// Data becomes visible to the reader only when flushed
    pub hold: bool,
    /// A flush takes this many virtual microseconds (while the data may already be visible)
    pub fdelay: u64,
    /// Each write call takes this many virtual microseconds at random up to
    pub wdelay: u64,
    pub fault: Option<Fault>,
    pub record: bool,
    /// Varies the way in which the connection fails
    pub mood: u64,
}

impl Default for DirCfg {
    fn default() -> Self {
        DirCfg {
            cap: usize::MAX,
            wmax: usize::MAX,
            rmax: usize::MAX,
            wpend: 0,
            rpend: 0,
            lat: (0, 0),
            hold: false,
            fdelay: 0,
            wdelay: 0,
            fault: None,
            record: true,
            mood: 0,
        }
    }
}

impl DirCfg {
    /// A random legal transport. Without virtual delays if `timed` is false.
    pub fn random(r: &mut Rng, timed: bool) -> Self {
        let size = |r: &mut Rng| match r.below(5) {
            0 => usize::MAX,
            1 => 1,
            2 => r.range(2, 9) as usize,
            3 => r.range(10, 200) as usize,
            _ => r.range(200, 3000) as usize,
        };
        DirCfg {
            cap: match r.below(4) {
                0 => usize::MAX,
                1 => r.range(1, 16) as usize,
                2 => r.range(17, 300) as usize,
                _ => r.range(300, 10000) as usize,
            },
            wmax: size(r),
            rmax: size(r),
            wpend: *r.pick(&[0, 0, 50, 300]),
            rpend: *r.pick(&[0, 0, 50, 300]),
            lat: if timed && r.chance(500) { (0, r.range(1, 3000)) } else { (0, 0) },
            hold: r.chance(300),
            fdelay: if timed && r.chance(300) { r.range(1, 5000) } else { 0 },
            wdelay: if timed && r.chance(200) { r.range(1, 500) } else { 0 },
            fault: None,
            record: true,
            mood: 0,
        }
    }
    pub fn no_rec(mut self) -> Self {
        self.record = false;
        self
    }
    pub fn desc(&self) -> String {
        let s = |x: usize| if x == usize::MAX { "inf".to_string() } else { x.to_string() };
        format!(
            "cap={} w<={} r<={} pend={}/{} lat={:?} hold={} fdelay={} wdelay={} fault={:?}",
            s(self.cap), s(self.wmax), s(self.rmax), self.wpend, self.rpend, self.lat, self.hold, self.fdelay, self.wdelay, self.fault
        )
    }
}

#[derive(Clone, Debug, Default)]
pub struct LinkCfg {
    pub c2s: DirCfg,
    pub s2c: DirCfg,
    pub seed: u64,
}

impl LinkCfg {
    pub fn random(r: &mut Rng, timed: bool) -> Self {
        LinkCfg { c2s: DirCfg::random(r, timed), s2c: DirCfg::random(r, timed), seed: r.next() }
    }
    /// Small capacity both ways, tiny writes: operations get suspended at many points
    pub fn tight(r: &mut Rng) -> Self {
        let d = |r: &mut Rng| DirCfg {
            cap: r.range(1, 40) as usize,
            wmax: r.range(1, 20) as usize,
            rmax: r.range(1, 20) as usize,
            lat: (0, r.range(0, 400)),
            wpend: 200,
            fdelay: if r.chance(500) { r.range(1, 800) } else { 0 },
            hold: r.chance(300),
            ..Default::default()
        };
        LinkCfg { c2s: d(r), s2c: d(r), seed: r.next() }
    }
    pub fn desc(&self) -> String {
        format!("c2s[{}] s2c[{}]", self.c2s.desc(), self.s2c.desc())
    }
}

struct Seg {
    ready: Option<Instant>,
    data: Vec<u8>,
    pos: usize,
}

struct DirState {
    cfg: DirCfg,
    rng: Rng,
    q: VecDeque<Seg>,
    staged: Vec<u8>,
    in_flight: usize,
    written: usize,
    read: usize,
    rec: Vec<u8>,
    w_closed: bool,
    r_closed: bool,
    broken: bool,
    r_waker: Option<Waker>,
    w_waker: Option<Waker>,
    last_ready: Option<Instant>,
    polls_w: u64,
    polls_r: u64,
    flushes: u64,
    /// How often it has been slow
    slow: u64,
    eof_seen: bool,
    shutdowns: u64,
    /// How this connection fails
    mood: u64,
}

pub struct Dir {
    s: Mutex<DirState>,
}

impl Dir {
    fn new(cfg: DirCfg, seed: u64) -> Arc<Self> {
        let mood = crate::rng::mix(seed, 77 ^ cfg.mood << 8);
        Arc::new(Dir {
            s: Mutex::new(DirState {
                cfg,
                rng: Rng::new(seed),
                q: VecDeque::new(),
                staged: vec![],
                in_flight: 0,
                written: 0,
                read: 0,
                rec: vec![],
                w_closed: false,
                r_closed: false,
                broken: false,
                r_waker: None,
                w_waker: None,
                last_ready: None,
                polls_w: 0,
                polls_r: 0,
                flushes: 0,
                slow: 0,
                eof_seen: false,
                shutdowns: 0,
                mood,
            }),
        })
    }
    fn l(&self) -> std::sync::MutexGuard<'_, DirState> {
        self.s.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// All bytes written so far
    pub fn recorded(&self) -> Vec<u8> {
        self.l().rec.clone()
    }
    pub fn written(&self) -> usize {
        self.l().written
    }
    pub fn consumed(&self) -> usize {
        self.l().read
    }
    /// Bytes written and already visible to the reader (flushed, where that is needed)
    pub fn published(&self) -> usize {
        let s = self.l();
        s.written - s.staged.len()
    }
    pub fn write_closed(&self) -> bool {
        self.l().w_closed
    }
    pub fn read_closed(&self) -> bool {
        self.l().r_closed
    }
    pub fn polls(&self) -> (u64, u64) {
        let s = self.l();
        (s.polls_w, s.polls_r)
    }
    pub fn set_fault(&self, f: Option<Fault>) {
        let mut s = self.l();
        s.cfg.fault = f;
        s.wake_all();
    }
    pub fn set_cap(&self, cap: usize) {
        let mut s = self.l();
        s.cfg.cap = cap;
        s.wake_all();
    }
    /// Turns the direction into an ideal one from now on
    pub fn calm(&self) {
        let mut s = self.l();
        s.cfg = DirCfg { record: s.cfg.record, ..Default::default() };
        s.publish();
        s.wake_all();
    }
    pub fn break_now(&self) {
        let mut s = self.l();
        s.broken = true;
        s.wake_all();
    }
}

impl DirState {
    /// Whether it may be slow once more: a transport that waits with every byte would take minutes for what
    /// has to arrive within the time limits of the scenario
    fn may_wait(&mut self) -> bool {
        self.slow += 1;
        self.slow <= 4000
    }
    /// The error of a connection that broke
    fn failure(&self) -> io::Error {
        use io::ErrorKind::*;
        [ConnectionReset, ConnectionReset, ConnectionAborted, TimedOut, BrokenPipe, NotConnected, Other, UnexpectedEof][(self.mood % 8) as usize].into()
    }
    /// The error of a write that nobody will read
    fn refusal(&self) -> io::Error {
        use io::ErrorKind::*;
        [BrokenPipe, BrokenPipe, ConnectionReset, NotConnected, ConnectionAborted, Other][(self.mood / 8 % 6) as usize].into()
    }
    fn wake_all(&mut self) {
        if let Some(w) = self.r_waker.take() {
            w.wake()
        }
        if let Some(w) = self.w_waker.take() {
            w.wake()
        }
    }
    fn publish(&mut self) {
        if self.staged.is_empty() {
            return;
        }
        let data = std::mem::take(&mut self.staged);
        let (lo, hi) = self.cfg.lat;
        let ready = if hi > 0 && self.may_wait() {
            let mut t = Instant::now() + Duration::from_micros(self.rng.range(lo, hi));
            if let Some(l) = self.last_ready {
                t = t.max(l);
            }
            self.last_ready = Some(t);
            Some(t)
        } else {
            self.last_ready
        };
        self.q.push_back(Seg { ready, data, pos: 0 });
        if let Some(w) = self.r_waker.take() {
            w.wake()
        }
    }
}

pub struct Link {
    pub n: u64,
    pub c2s: Arc<Dir>,
    pub s2c: Arc<Dir>,
}

impl Link {
    pub fn calm(&self) {
        self.c2s.calm();
        self.s2c.calm();
    }
    pub fn break_now(&self) {
        self.c2s.break_now();
        self.s2c.break_now();
    }
}

pub type Links = Arc<Mutex<Vec<Arc<Link>>>>;

pub fn links() -> Links {
    Arc::new(Mutex::new(vec![]))
}

pub struct SimRead {
    d: Arc<Dir>,
    peer: Arc<Dir>,
    sleep: Option<Pin<Box<Sleep>>>,
    ends: Arc<AtomicUsize>,
}

pub struct SimWrite {
    d: Arc<Dir>,
    wsleep: Option<Pin<Box<Sleep>>>,
    fsleep: Option<Pin<Box<Sleep>>>,
    peer: Arc<Dir>,
    ends: Arc<AtomicUsize>,
}

pub struct SimStream {
    pub r: SimRead,
    pub w: SimWrite,
}

impl Drop for SimRead {
    fn drop(&mut self) {
        if self.ends.fetch_sub(1, Ordering::SeqCst) == 1 {
            let mut s = self.d.l();
            s.r_closed = true;
            s.wake_all();
        }
    }
}
impl Drop for SimWrite {
    fn drop(&mut self) {
        {
            let mut s = self.d.l();
            s.w_closed = true;
            // what was not flushed is gone
            s.staged.clear();
            s.wake_all();
        }
        if self.ends.fetch_sub(1, Ordering::SeqCst) == 1 {
            let mut s = self.peer.l();
            s.r_closed = true;
            s.wake_all();
        }
    }
}

impl AsyncRead for SimRead {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let me = &mut *self;
        loop {
            let wait_until;
            {
                let mut g = me.d.l();
                let s = &mut *g;
                s.polls_r += 1;
                if s.broken {
                    return Poll::Ready(Err(s.failure()));
                }
                if buf.remaining() == 0 {
                    return Poll::Ready(Ok(()));
                }
                let mut limit = usize::MAX;
                match s.cfg.fault {
                    Some(Fault::Eof(n)) => {
                        if s.read >= n {
                            s.eof_seen = true;
                            // writers that wait for space fail from now on
                            if let Some(w) = s.w_waker.take() {
                                w.wake()
                            }
                            return Poll::Ready(Ok(()));
                        }
                        limit = n - s.read;
                    }
                    Some(Fault::Reset(n)) => {
                        if s.read >= n {
                            s.broken = true;
                            s.wake_all();
                            let e = s.failure();
                            drop(g);
                            me.peer.break_now();
                            return Poll::Ready(Err(e));
                        }
                        limit = n - s.read;
                    }
                    Some(Fault::Stall(n)) => {
                        if s.read >= n {
                            s.r_waker = Some(cx.waker().clone());
                            return Poll::Pending;
                        }
                        limit = n - s.read;
                    }
                    None => {}
                }
                if s.q.is_empty() {
                    if s.w_closed {
                        s.eof_seen = true;
                        return Poll::Ready(Ok(()));
                    }
                    s.r_waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                if s.rng.chance(s.cfg.rpend) {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                let ready = s.q[0].ready;
                let now_ok = match ready {
                    Some(t) => t <= Instant::now(),
                    None => true,
                };
                if now_ok {
                    let rmax = if s.cfg.rmax == usize::MAX { usize::MAX } else { 1 + s.rng.idx(s.cfg.rmax) };
                    let seg = &mut s.q[0];
                    let n = (seg.data.len() - seg.pos).min(buf.remaining()).min(rmax).min(limit);
                    buf.put_slice(&seg.data[seg.pos..seg.pos + n]);
                    seg.pos += n;
                    if seg.pos == seg.data.len() {
                        s.q.pop_front();
                    }
                    s.read += n;
                    s.in_flight -= n;
                    if let Some(w) = s.w_waker.take() {
                        w.wake()
                    }
                    me.sleep = None;
                    return Poll::Ready(Ok(()));
                }
                s.r_waker = Some(cx.waker().clone());
                wait_until = ready.unwrap();
            }
            let sl = me.sleep.get_or_insert_with(|| Box::pin(tokio::time::sleep_until(wait_until)));
            if sl.deadline() != wait_until {
                sl.as_mut().reset(wait_until);
            }
            match sl.as_mut().poll(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(()) => {
                    me.sleep = None;
                }
            }
        }
    }
}

impl SimWrite {
    fn wr_err(s: &DirState) -> Option<io::Error> {
        if s.broken {
            return Some(s.failure());
        }
        if s.w_closed || s.r_closed {
            return Some(s.refusal());
        }
        match s.cfg.fault {
            Some(Fault::Eof(n)) | Some(Fault::Reset(n)) if s.read >= n && s.written >= n => Some(s.refusal()),
            _ => None,
        }
    }
}

impl AsyncWrite for SimWrite {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let me = &mut *self;
        if let Some(sl) = me.wsleep.as_mut() {
            match sl.as_mut().poll(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(()) => me.wsleep = None,
            }
        } else {
            let d = {
                let mut s = me.d.l();
                let w = s.cfg.wdelay;
                if w > 0 && s.may_wait() {
                    s.rng.range(0, w)
                } else {
                    0
                }
            };
            if d > 0 {
                let mut sl = Box::pin(tokio::time::sleep(Duration::from_micros(d)));
                if sl.as_mut().poll(cx).is_pending() {
                    me.wsleep = Some(sl);
                    return Poll::Pending;
                }
            }
        }
        let mut g = me.d.l();
        let s = &mut *g;
        s.polls_w += 1;
        if let Some(e) = Self::wr_err(s) {
            return Poll::Ready(Err(e));
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if s.rng.chance(s.cfg.wpend) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if s.in_flight >= s.cfg.cap {
            // a transport that is full transmits what it has, flushed or not
            s.publish();
            s.w_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let wmax = if s.cfg.wmax == usize::MAX { usize::MAX } else { 1 + s.rng.idx(s.cfg.wmax) };
        let n = buf.len().min(wmax).min(s.cfg.cap - s.in_flight);
        s.staged.extend_from_slice(&buf[..n]);
        if s.cfg.record {
            s.rec.extend_from_slice(&buf[..n]);
        }
        s.written += n;
        s.in_flight += n;
        if !s.cfg.hold {
            s.publish();
        }
        Poll::Ready(Ok(n))
    }

    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let me = &mut *self;
        if me.fsleep.is_none() {
            let mut g = me.d.l();
            let s = &mut *g;
            if let Some(e) = Self::wr_err(s) {
                // a socket has nothing to flush, so it doesn't notice
                return Poll::Ready(if s.mood / 64 % 2 == 0 { Ok(()) } else { Err(e) });
            }
            s.flushes += 1;
            s.publish();
            if s.rng.chance(s.cfg.wpend) {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            let f = s.cfg.fdelay;
            if f == 0 {
                return Poll::Ready(Ok(()));
            }
            let d = s.rng.range(0, f);
            me.fsleep = Some(Box::pin(tokio::time::sleep(Duration::from_micros(d))));
        }
        match me.fsleep.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                me.fsleep = None;
                // also what was written while a flush that was given up was under way
                me.d.l().publish();
                Poll::Ready(Ok(()))
            }
        }
    }

    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        match self.as_mut().poll_flush(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Ready(Ok(())) => {}
        }
        let mut s = self.d.l();
        s.w_closed = true;
        s.shutdowns += 1;
        s.wake_all();
        Poll::Ready(Ok(()))
    }
}

impl AsyncRead for SimStream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.r).poll_read(cx, buf)
    }
}
impl AsyncWrite for SimStream {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.w).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.w).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.w).poll_shutdown(cx)
    }
}

/// Creates a connected pair: (client end, server end, link)
pub fn pair(cfg: LinkCfg) -> (SimStream, SimStream, Arc<Link>) {
    static N: AtomicU64 = AtomicU64::new(0);
    let c2s = Dir::new(cfg.c2s, cfg.seed ^ 0x11);
    let s2c = Dir::new(cfg.s2c, cfg.seed ^ 0x22);
    let link = Arc::new(Link { n: N.fetch_add(1, Ordering::SeqCst), c2s: c2s.clone(), s2c: s2c.clone() });
    let end = |rd: &Arc<Dir>, wd: &Arc<Dir>| {
        let ends = Arc::new(AtomicUsize::new(2));
        SimStream {
            r: SimRead { d: rd.clone(), peer: wd.clone(), sleep: None, ends: ends.clone() },
            w: SimWrite { d: wd.clone(), wsleep: None, fsleep: None, peer: rd.clone(), ends },
        }
    };
    (end(&s2c, &c2s), end(&c2s, &s2c), link)
}

// ---------------------------------------------------------------- listener

enum Incoming {
    Conn(SimStream),
    Fail(u64),
}

fn reg() -> &'static Mutex<HashMap<u64, UnboundedSender<Incoming>>> {
    static R: std::sync::OnceLock<Mutex<HashMap<u64, UnboundedSender<Incoming>>>> = std::sync::OnceLock::new();
    R.get_or_init(Default::default)
}

pub fn new_addr() -> u64 {
    static A: AtomicU64 = AtomicU64::new(1);
    A.fetch_add(1, Ordering::SeqCst)
}

/// Makes the next accept on the address fail once, as an exhausted operating system would
pub fn inject_accept_error(addr: u64, kind: u64) -> bool {
    reg().lock().unwrap().get(&addr).map(|s| s.send(Incoming::Fail(kind)).is_ok()).unwrap_or(false)
}

#[derive(Clone, Default)]
pub struct SimLOpts {
    pub tag: u64,
    /// receives the tag each time a listener is bound
    pub seen: Option<Arc<Mutex<Vec<u64>>>>,
    pub refuse_bind: bool,
}

#[derive(Clone, Default)]
pub struct SimOpts {
    pub cfg: LinkCfg,
    pub links: Option<Links>,
    pub tag: u64,
    pub seen: Option<Arc<Mutex<Vec<u64>>>>,
}

impl SimOpts {
    pub fn new(cfg: LinkCfg, links: &Links) -> Self {
        SimOpts { cfg, links: Some(links.clone()), tag: 0, seen: None }
    }
}

pub struct SimListener {
    addr: u64,
    rx: tokio::sync::Mutex<UnboundedReceiver<Incoming>>,
}

impl Drop for SimListener {
    fn drop(&mut self) {
        reg().lock().unwrap().remove(&self.addr);
    }
}

impl SimListener {
    pub fn bind(addr: u64) -> Result<Self> {
        let (tx, rx) = unbounded_channel();
        let mut r = reg().lock().unwrap();
        if r.contains_key(&addr) {
            return Err(Error::IoError(io::ErrorKind::AddrInUse.into()));
        }
        r.insert(addr, tx);
        Ok(SimListener { addr, rx: tokio::sync::Mutex::new(rx) })
    }
    pub async fn accept(&self) -> Result<SimStream> {
        match self.rx.lock().await.recv().await {
            Some(Incoming::Conn(s)) => Ok(s),
            Some(Incoming::Fail(k)) => Err(match k % 16 {
                // EMFILE, ENFILE, ECONNABORTED, EINTR, ENOMEM, ENOBUFS, EPROTO, EPERM, ECONNRESET, ETIMEDOUT, EAGAIN, EHOSTUNREACH
                12 => Error::IoError(io::ErrorKind::UnexpectedEof.into()),
                13 => Error::IoError(io::Error::new(io::ErrorKind::Other, "not now")),
                14 => Error::Message("this client was turned away".into()),
                15 => Error::CorruptedEvent,
                k => Error::IoError(io::Error::from_raw_os_error([24, 23, 103, 4, 12, 105, 71, 1, 104, 110, 11, 113][k as usize])),
            }),
            None => Err(Error::IoError(io::ErrorKind::NotConnected.into())),
        }
    }
}

pub async fn connect(addr: u64, o: &SimOpts) -> Result<SimStream> {
    for _ in 0..5000 {
        let tx = reg().lock().unwrap().get(&addr).cloned();
        if let Some(tx) = tx {
            let mut cfg = o.cfg.clone();
            cfg.seed ^= o.links.as_ref().map(|l| l.lock().unwrap().len() as u64 + 1).unwrap_or(0).wrapping_mul(0x9E37);
            let (c, s, link) = pair(cfg);
            if let Some(l) = &o.links {
                l.lock().unwrap().push(link);
            }
            tx.send(Incoming::Conn(s)).map_err(|_| Error::IoError(io::ErrorKind::ConnectionRefused.into()))?;
            return Ok(c);
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    Err(Error::IoError(io::ErrorKind::ConnectionRefused.into()))
}

pub fn is_bound(addr: u64) -> bool {
    reg().lock().unwrap().contains_key(&addr)
}

#[async_trait]
impl AsyncStreamProtocolListener for SimListener {
    type AddressType = u64;
    type RemoteAddressType = u64;
    type Stream = SimStream;
    type ListenerOptions = SimLOpts;

    async fn protocol_bind(address: u64, o: SimLOpts) -> Result<Self> {
        if let Some(s) = &o.seen {
            s.lock().unwrap().push(o.tag);
        }
        if o.refuse_bind {
            return Err(Error::IoError(io::ErrorKind::PermissionDenied.into()));
        }
        SimListener::bind(address)
    }
    async fn protocol_accept(&self) -> Result<(SimStream, u64)> {
        static CLIENTS: AtomicU64 = AtomicU64::new(0);
        let s = self.accept().await?;
        // like a port
        Ok((s, CLIENTS.fetch_add(1, Ordering::Relaxed)))
    }
}

impl AsyncProtocolStreamSplit for SimStream {
    type OwnedSplitReadHalf = SimRead;
    type OwnedSplitWriteHalf = SimWrite;
    fn protocol_into_split(self) -> (SimRead, SimWrite) {
        (self.r, self.w)
    }
}

#[async_trait]
impl AsyncProtocolStream for SimStream {
    type AddressType = u64;
    type StreamOptions = SimOpts;
    async fn protocol_connect(address: u64, o: SimOpts) -> Result<Self> {
        if let Some(s) = &o.seen {
            s.lock().unwrap().push(o.tag);
        }
        connect(address, &o).await
    }
}
