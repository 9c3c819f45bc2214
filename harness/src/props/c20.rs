//! C20: the encrypted stream as a byte stream
use crate::core::*;
use crate::fix::*;
use crate::rng::*;
use crate::sim::*;
use crate::{boxed, ensure};
use bromine::prelude::encrypted::*;
use bromine::prelude::*;
use std::future::Future;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use x25519_dalek::PublicKey;

pub fn fams() -> Vec<Fam> {
    vec![
        fam("duplex", 500, 15000, boxed!(duplex)),
        fam("cancelled", 300, 8000, boxed!(cancelled)),
        fam("prompt", 200, 4000, boxed!(prompt)),
        fam("broken", 200, 5000, boxed!(broken)),
        fam("large", 24, 300, boxed!(large)),
        fam("boundaries", 60, 400, boxed!(boundaries)),
        fam_multi("threads", 3, 30, boxed!(threads)),
    ]
}

pub type ES = EncryptedStream<SimStream>;
type Wr = Box<dyn AsyncWrite + Send + Sync + Unpin>;
type Rd = Box<dyn AsyncRead + Send + Sync + Unpin>;

/// Connects two encrypted streams: (client, server, link)
pub async fn streams(r: &mut Rng, cfg: LinkCfg) -> R<(ES, ES, Arc<Link>)> {
    let (a, b) = (enc::secret(r), enc::secret(r));
    let ks = enc::keys(&a, &[PublicKey::from(&b)], false);
    let kc = enc::keys(&b, &[PublicKey::from(&a)], false);
    let (c, s, link) = pair(cfg);
    if r.chance(200) {
        // a key that both sides know already
        let k1 = kc.secret.diffie_hellman(&PublicKey::from(&a));
        let k2 = ks.secret.diffie_hellman(&PublicKey::from(&b));
        return Ok((ES::new(c, k1), ES::new(s, k2), link));
    }
    let h = tokio::spawn(async move { ES::from_server_key_exchange(s, &ks).await.map_err(|e| format!("{:?}", e)) });
    let c = ES::from_client_key_exchange(c, &kc).await;
    match (c, h.await) {
        (Ok(mut c), Ok(Ok(mut s))) => {
            if r.chance(200) {
                let k = bytes::Bytes::from(r.bytes(32));
                c.update_key(k.clone());
                s.update_key(k);
            }
            Ok((c, s, link))
        }
        (c, s) => viol("handshake", format!("the handshake failed: {:?} {:?}", c.err(), s.map(|x| x.err()))),
    }
}

/// The two ways to use a stream
fn halves(s: ES, r: &mut Rng) -> (Rd, Wr) {
    if r.chance(600) {
        let (a, b) = s.protocol_into_split();
        (Box::new(a), Box::new(b))
    } else {
        let (a, b) = tokio::io::split(s);
        (Box::new(a), Box::new(b))
    }
}

/// The byte at a position of a stream
fn at(seed: u64, p: usize) -> u8 {
    mix(seed, (p / 8) as u64).to_le_bytes()[p % 8]
}
fn data(seed: u64, from: usize, n: usize) -> Vec<u8> {
    (from..from + n).map(|p| at(seed, p)).collect()
}

pub fn size(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => 1,
        1 => 0,
        2 | 3 => r.range(2, 40) as usize,
        4 | 5 => r.range(40, 900) as usize,
        6 => *r.pick(&[1008, 1023, 1024, 1025, 1040, 2047, 2048, 2049, 4096]),
        7 | 8 => r.range(900, 3000) as usize,
        9 => r.range(3000, 20000) as usize,
        10 if r.chance(100) => r.range(20_000, 200_000) as usize,
        _ => r.range(1, 200) as usize,
    }
}

#[derive(Default)]
struct Prog {
    /// accepted by write
    accepted: AtomicUsize,
    /// accepted before a flush that completed
    flushed: AtomicUsize,
    /// arrived
    read: AtomicUsize,
    down: AtomicBool,
}

struct Script {
    seed: u64,
    steps: u64,
    cancel: bool,
    shutdown: bool,
    pace: u64,
}

const LIMIT: Duration = Duration::from_secs(6000);

async fn limit<F: Future>(what: &str, f: F) -> R<F::Output> {
    match tokio::time::timeout(LIMIT, f).await {
        Ok(x) => Ok(x),
        Err(_) => viol("stuck", format!("{} never completed although the transport makes progress", what)),
    }
}

async fn writer(mut w: Wr, p: Arc<Prog>, s: Script, mut r: Rng) -> R<Wr> {
    let io = |what: &str, e: std::io::Error| -> R<()> { viol("error", format!("{} failed on a working transport: {:?}", what, e)) };
    let mut pos = 0;
    for _ in 0..s.steps {
        match r.below(10) {
            0..=4 => {
                let d = data(s.seed, pos, size(&mut r));
                if s.cancel && r.chance(400) {
                    // a dropped write has written nothing
                    match PollN::new(w.write(&d), r.idx(5)).await {
                        None => {}
                        Some(Ok(n)) => pos += n,
                        Some(Err(e)) => io("writing", e)?,
                    }
                } else {
                    match limit("write", w.write(&d)).await? {
                        Ok(n) => {
                            ensure!(n <= d.len() && (n > 0 || d.is_empty()), "count", "writing {} bytes returned {}", d.len(), n);
                            pos += n
                        }
                        Err(e) => io("writing", e)?,
                    }
                }
            }
            5 => {
                let d = data(s.seed, pos, size(&mut r));
                match limit("write_all", w.write_all(&d)).await? {
                    Ok(()) => pos += d.len(),
                    Err(e) => io("writing", e)?,
                }
            }
            6 | 7 => {
                if s.cancel && r.chance(500) {
                    match PollN::new(w.flush(), r.idx(6)).await {
                        None => {}
                        Some(Ok(())) => p.flushed.store(pos, Ordering::SeqCst),
                        Some(Err(e)) => io("flushing", e)?,
                    }
                } else {
                    match limit("flush", w.flush()).await? {
                        Ok(()) => p.flushed.store(pos, Ordering::SeqCst),
                        Err(e) => io("flushing", e)?,
                    }
                }
            }
            8 => {
                // what was flushed arrives without anything else being written
                if let Err(e) = limit("flush", w.flush()).await? {
                    io("flushing", e)?
                }
                p.flushed.store(pos, Ordering::SeqCst);
                let mut waited = 0;
                while p.read.load(Ordering::SeqCst) < pos {
                    sleep(ms(50)).await;
                    waited += 1;
                    ensure!(waited < 100_000, "flushed", "{} of {} flushed bytes arrived", p.read.load(Ordering::SeqCst), pos);
                }
            }
            _ => {
                if s.pace > 0 {
                    sleep(us(r.range(0, s.pace))).await
                } else {
                    tokio::task::yield_now().await
                }
            }
        }
        p.accepted.store(pos, Ordering::SeqCst);
    }
    if s.shutdown {
        let mut tries = 0;
        loop {
            tries += 1;
            if s.cancel && tries < 6 {
                match PollN::new(w.shutdown(), r.idx(5)).await {
                    None => continue,
                    Some(Ok(())) => break,
                    Some(Err(e)) => io("shutting down", e)?,
                }
            }
            match limit("shutdown", w.shutdown()).await? {
                Ok(()) => break,
                Err(e) => io("shutting down", e)?,
            }
        }
        p.down.store(true, Ordering::SeqCst);
    } else if let Err(e) = limit("flush", w.flush()).await? {
        io("flushing", e)?
    }
    p.flushed.store(pos, Ordering::SeqCst);
    Ok(w)
}

/// Reads until the stream ends or `flushed` has arrived and the writer is done
async fn reader(mut rd: Rd, p: Arc<Prog>, seed: u64, cancel: bool, shutdown: bool, pace: u64, done: Arc<AtomicBool>, real: bool, mut r: Rng) -> R<Rd> {
    let mut pos = 0usize;
    let mut idle = 0;
    loop {
        if !shutdown && done.load(Ordering::SeqCst) && pos >= p.accepted.load(Ordering::SeqCst) {
            break;
        }
        let n = match r.below(8) {
            0 => 1,
            1 => r.range(1, 17) as usize,
            2 => r.range(1, 2000) as usize,
            3 => 0,
            _ => *r.pick(&[16, 1024, 8192, 65536]),
        };
        let mut b = vec![0xA5u8; n];
        if n == 0 {
            // may wait, as on a socket, but must neither fail nor lose anything
            if let Some(x) = PollN::new(rd.read(&mut b), 1).await {
                if step(x, &mut pos, &b, n, seed, &p, shutdown)? {
                    break;
                }
            }
        } else if cancel && r.chance(500) {
            match tokio::time::timeout(if real { ms(200) } else { secs(20) }, PollN::new(rd.read(&mut b), r.idx(4))).await {
                Err(_) => {
                    idle += 1;
                    ensure!(idle < 2000, "flushed", "{} of {} accepted and {} flushed bytes arrived", pos, p.accepted.load(Ordering::SeqCst), p.flushed.load(Ordering::SeqCst));
                }
                Ok(None) => continue_wait(&mut r).await,
                Ok(Some(x)) => {
                    idle = 0;
                    if step(x, &mut pos, &b, n, seed, &p, shutdown)? {
                        break;
                    }
                }
            }
        } else {
            match tokio::time::timeout(if real { ms(200) } else { secs(20) }, rd.read(&mut b)).await {
                Ok(x) => {
                    idle = 0;
                    if step(x, &mut pos, &b, n, seed, &p, shutdown)? {
                        break;
                    }
                }
                Err(_) => {
                    // nothing may be available that was not delivered
                    idle += 1;
                    ensure!(idle < 2000, "flushed", "{} of {} accepted and {} flushed bytes arrived", pos, p.accepted.load(Ordering::SeqCst), p.flushed.load(Ordering::SeqCst));
                }
            }
        }
        p.read.store(pos, Ordering::SeqCst);
        if pace > 0 && r.chance(300) {
            sleep(us(r.range(0, pace))).await;
        }
    }
    p.read.store(pos, Ordering::SeqCst);
    Ok(rd)
}
async fn continue_wait(r: &mut Rng) {
    if r.chance(300) {
        sleep(us(r.range(0, 400))).await
    } else {
        sleep(us(1000)).await
    }
}
/// true: the stream is over
fn step(x: std::io::Result<usize>, pos: &mut usize, b: &[u8], n: usize, seed: u64, p: &Prog, shutdown: bool) -> R<bool> {
    match x {
        Ok(0) if n == 0 => Ok(false),
        Ok(k) if k > 0 => {
            ensure!(k <= n, "count", "a read into {} bytes returned {}", n, k);
            for (i, c) in b[..k].iter().enumerate() {
                ensure!(*c == at(seed, *pos + i), "content", "byte {} of the stream arrived changed, doubled or out of order", *pos + i);
            }
            *pos += k;
            Ok(false)
        }
        // an encrypted stream reports its end as an unexpected end of file
        Ok(_) | Err(_) => {
            let what = match x {
                Ok(_) => "an end".to_string(),
                Err(e) => format!("{:?}", e),
            };
            ensure!(shutdown && p.down.load(Ordering::SeqCst), "end", "reading gave {} although the stream was not shut down", what);
            ensure!(*pos == p.flushed.load(Ordering::SeqCst), "end", "reading gave {} after {} of {} bytes", what, *pos, p.flushed.load(Ordering::SeqCst));
            Ok(true)
        }
    }
}

async fn both_ways(sc: &Arc<Sc>, cfg: LinkCfg, mut r: Rng, cancel: bool, real: bool, steps: u64) -> R<(usize, u64)> {
    let (c, s, link) = streams(&mut r, cfg).await?;
    let (cr, cw) = halves(c, &mut r);
    let (sr, sw) = halves(s, &mut r);
    let mut js = vec![];
    let mut total = vec![];
    for (rd, w) in [(sr, cw), (cr, sw)] {
        let p = Arc::new(Prog::default());
        let seed = r.next();
        let shutdown = r.chance(500);
        let n = if r.chance(100) { 0 } else { r.range(1, steps) };
        let sc2 = Script { seed, steps: n, cancel, shutdown, pace: *r.pick(&[0, 200, 3000]) };
        let pace = *r.pick(&[0, 0, 500, 8000]);
        let done = Arc::new(AtomicBool::new(false));
        let (r1, r2) = (r.fork(), r.fork());
        let (p1, p2, d1, d2) = (p.clone(), p.clone(), done.clone(), done.clone());
        let wj = tokio::spawn(async move {
            let x = writer(w, p1, sc2, r1).await;
            d1.store(true, Ordering::SeqCst);
            x
        });
        let rj = tokio::spawn(reader(rd, p2, seed, cancel, shutdown, pace, d2, real, r2));
        js.push((wj, rj));
        total.push(p);
    }
    // halves stay alive until both directions are done: dropping one breaks off the other
    let mut keep: Vec<Box<dyn std::any::Any + Send>> = vec![];
    for (wj, rj) in js {
        match wj.await {
            Ok(x) => keep.push(Box::new(x?)),
            Err(e) => return viol("panic", format!("writing panicked: {}", e)),
        }
        match rj.await {
            Ok(x) => keep.push(Box::new(x?)),
            Err(e) => return viol("panic", format!("reading panicked: {}", e)),
        }
    }
    let mut bytes = 0;
    for p in &total {
        let (a, f, d) = (p.accepted.load(Ordering::SeqCst), p.flushed.load(Ordering::SeqCst), p.read.load(Ordering::SeqCst));
        ensure!(a == f && f == d, "lost", "{} bytes were accepted, {} flushed and {} arrived", a, f, d);
        bytes += d;
    }
    let polls = link.c2s.polls().0 + link.c2s.polls().1 + link.s2c.polls().0 + link.s2c.polls().1;
    sc.count("bytes that arrived", bytes as u64);
    sc.count("polls of the transport", polls);
    Ok((bytes, polls))
}

async fn duplex(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let cfg = if r.chance(300) { LinkCfg::tight(&mut r) } else { LinkCfg::random(&mut r, true) };
    let d = cfg.desc();
    let (bytes, polls) = both_ways(&sc, cfg, r.fork(), false, false, 60).await?;
    sc.case(Some(mix(sc.seed, bytes as u64)), || format!("{} bytes in both directions, {} polls of the transport {}", bytes, polls, d));
    Ok(())
}

async fn cancelled(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let cfg = if r.chance(600) { LinkCfg::tight(&mut r) } else { LinkCfg::random(&mut r, true) };
    let d = cfg.desc();
    let (bytes, polls) = both_ways(&sc, cfg, r.fork(), true, false, 60).await?;
    sc.case(Some(mix(sc.seed, bytes as u64)), || format!("{} bytes in both directions with dropped reads, writes and flushes, {} polls of the transport {}", bytes, polls, d));
    Ok(())
}

/// What is there is returned at once, whatever the size of the buffer
async fn prompt(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let cfg = LinkCfg::random(&mut r, true);
    let (c, s, link) = streams(&mut r, cfg).await?;
    let swap = r.chance(500);
    let (a, b) = if swap { (s, c) } else { (c, s) };
    let (ra, mut wa) = halves(a, &mut r);
    let (mut rb, wb) = halves(b, &mut r);
    let seed = r.next();
    let mut pos = 0;
    let mut reads = 0;
    for _ in 0..r.range(2, 12) {
        let n = size(&mut r).max(1);
        let d = data(seed, pos, n);
        let writing = async {
            wa.write_all(&d).await?;
            wa.flush().await
        };
        // reading goes on while a full transport blocks the writer
        let mut got = 0;
        let mut buf = vec![0; n + r.range(1, 70_000) as usize];
        tokio::pin!(writing);
        let mut written = false;
        while got < n {
            let room = buf.len() - got;
            let rd = tokio::time::timeout(secs(2000), rb.read(&mut buf[got..]));
            tokio::select! {
                biased;
                x = &mut writing, if !written => {
                    written = true;
                    if let Err(e) = x {
                        return viol("error", format!("writing failed on a working transport: {:?}", e));
                    }
                }
                x = rd => match x {
                    Ok(Ok(k)) if k > 0 => {
                        ensure!(buf[got..got + k] == d[got..got + k], "content", "bytes arrived changed");
                        got += k;
                        reads += 1;
                    }
                    Ok(x) => return viol("end", format!("reading gave {:?} on an open stream", x)),
                    Err(_) => return viol("waits", format!("a read into {} bytes does not return the {} bytes that are there", room, n - got)),
                }
            }
        }
        if !written {
            if let Err(e) = limit("flush", writing).await? {
                return viol("error", format!("writing failed on a working transport: {:?}", e));
            }
        }
        ensure!(got == n, "count", "{} bytes arrived instead of {}", got, n);
        pos += n;
    }
    drop((ra, wb, link));
    sc.count("reads into bigger buffers", reads);
    sc.case(Some(mix(sc.seed, pos as u64)), || format!("{} bytes in {} reads into bigger buffers", pos, reads));
    Ok(())
}

/// Sizes around the write buffer, all combinations of two writes
async fn boundaries(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    const S: [usize; 12] = [1, 2, 15, 16, 17, 1007, 1008, 1022, 1023, 1024, 1025, 2048];
    let cfg = if sc.idx == 0 { LinkCfg::default() } else { LinkCfg::random(&mut r, true) };
    let (c, s, _link) = streams(&mut r, cfg).await?;
    let (_ra, mut wa) = halves(c, &mut r);
    let (mut rb, _wb) = halves(s, &mut r);
    let seed = r.next();
    let total = Arc::new(AtomicUsize::new(usize::MAX));
    let t2 = total.clone();
    let rd = tokio::spawn(async move {
        let mut pos = 0;
        let mut b = vec![0; 5000];
        while pos < t2.load(Ordering::SeqCst) {
            match tokio::time::timeout(secs(3000), rb.read(&mut b)).await {
                Ok(Ok(k)) if k > 0 => {
                    for i in 0..k {
                        ensure!(b[i] == at(seed, pos + i), "content", "byte {} arrived changed, doubled or out of order", pos + i);
                    }
                    pos += k;
                }
                Ok(x) => return viol("end", format!("reading gave {:?} on an open stream", x)),
                Err(_) => {
                    ensure!(pos >= t2.load(Ordering::SeqCst), "flushed", "{} of {} flushed bytes arrived", pos, t2.load(Ordering::SeqCst));
                }
            }
        }
        Ok(pos)
    });
    let mut pos = 0;
    for i in 0..S.len() {
        for j in 0..S.len() {
            for (n, f) in [(S[i], r.chance(300)), (S[j], true)] {
                let d = data(seed, pos, n);
                if let Err(e) = limit("write_all", wa.write_all(&d)).await? {
                    return viol("error", format!("{:?}", e));
                }
                pos += n;
                if f {
                    if let Err(e) = limit("flush", wa.flush()).await? {
                        return viol("error", format!("{:?}", e));
                    }
                }
            }
        }
    }
    total.store(pos, Ordering::SeqCst);
    match rd.await {
        Ok(x) => {
            let n = x?;
            ensure!(n == pos, "count", "{} bytes were written, {} arrived", pos, n);
        }
        Err(e) => return viol("panic", format!("{}", e)),
    }
    sc.count("bytes that arrived", pos as u64);
    sc.case(Some(sc.seed), || format!("{} bytes in writes of {:?}", pos, S));
    Ok(())
}

/// Single writes of up to many megabytes: what a flush promised arrives without anything else
async fn large(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let mut cfg = if r.chance(500) { LinkCfg::default() } else { LinkCfg::random(&mut r, true) };
    for d in [&mut cfg.c2s, &mut cfg.s2c] {
        d.cap = d.cap.max(200_000);
        d.wmax = d.wmax.max(60_000);
        d.rmax = d.rmax.max(60_000);
        d.record = false;
    }
    let (c, s, _link) = streams(&mut r, cfg).await?;
    let swap = r.chance(500);
    let (a, b) = if swap { (s, c) } else { (c, s) };
    let (_ra, mut wa) = halves(a, &mut r);
    let (mut rb, _wb) = halves(b, &mut r);
    let base = r.bytes(1 << 16);
    // a byte is known by its position
    let chunk = |from: usize, n: usize| -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        let mut p = from;
        while v.len() < n {
            let (blk, o) = (p >> 16, p & 0xffff);
            let k = (n - v.len()).min(65536 - o);
            let at = v.len();
            v.extend_from_slice(&base[o..o + k]);
            // every block is marked with its number
            for (i, x) in (blk as u32).to_le_bytes().iter().enumerate() {
                for q in [i, 32768 + i] {
                    if (o..o + k).contains(&q) {
                        v[at + q - o] ^= x;
                    }
                }
            }
            p += k;
        }
        v
    };
    let mut pos = 0;
    let mut descs = vec![];
    for _ in 0..r.range(1, 4) {
        let small = r.idx(3000);
        let k = r.range(16, 22);
        let n = match r.below(6) {
            0 => r.range(1 << 16, 5 << 20) as usize,
            1 if sc.idx % 12 == 3 || sc.thorough => (1 << 24) + r.idx(3 << 20),
            2 => (1usize << k) + r.idx(4000),
            _ => ((1usize << k) + 2).saturating_sub(r.idx(5)),
        };
        let all = r.chance(500);
        let before = r.chance(400);
        let data = chunk(pos, small * before as usize + n);
        let mut done = 0;
        let writing = async {
            if before {
                wa.write_all(&data[..small]).await?;
                done += small;
            }
            if all {
                wa.write_all(&data[done..]).await?;
                done = data.len();
            } else {
                done += wa.write(&data[done..]).await?;
            }
            wa.flush().await
        };
        let mut buf = vec![0; 1 << 20];
        let mut got = vec![];
        let res = {
            tokio::pin!(writing);
            loop {
                tokio::select! {
                    biased;
                    x = &mut writing => break x,
                    x = tokio::time::timeout(secs(2000), rb.read(&mut buf)) => match x {
                        Ok(Ok(k)) if k > 0 => got.extend_from_slice(&buf[..k]),
                        Ok(x) => return viol("end", format!("reading gave {:?} on an open stream", x)),
                        Err(_) => return viol("flushed", format!("{} bytes of a write of {} arrived, then neither the flush completes nor more arrives", got.len(), n)),
                    }
                }
            }
        };
        if let Err(e) = res {
            return viol("error", format!("writing {} bytes failed on a working transport: {:?}", n, e));
        }
        while got.len() < done {
            match tokio::time::timeout(secs(2000), rb.read(&mut buf)).await {
                Ok(Ok(k)) if k > 0 => got.extend_from_slice(&buf[..k]),
                Ok(x) => return viol("end", format!("reading gave {:?} on an open stream", x)),
                Err(_) => return viol("flushed", format!("{} bytes were written and flushed, only {} arrived", done, got.len())),
            }
        }
        ensure!(got.len() == done, "count", "{} bytes were accepted, {} arrived", done, got.len());
        ensure!(done > 0 && got[..] == data[..done], "content", "a write of {} bytes arrived changed", done);
        pos += done;
        descs.push((n, done, before, all));
    }
    sc.count("bytes that arrived", pos as u64);
    sc.case(Some(hash_bytes(format!("{:?}", descs).as_bytes())), || format!("writes (size, accepted, after others, whole) {:?}", descs));
    Ok(())
}

/// A transport that breaks: what arrives is a prefix, nothing panics or hangs, also when it goes on being used
async fn broken(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let cfg = LinkCfg::random(&mut r, true);
    let (c, s, link) = streams(&mut r, cfg).await?;
    let up = r.chance(500);
    let (a, b) = if up { (c, s) } else { (s, c) };
    let dir = if up { link.c2s.clone() } else { link.s2c.clone() };
    let (ra, mut wa) = halves(a, &mut r);
    let (mut rb, wb) = halves(b, &mut r);
    let n = r.idx(6000);
    let fault = if r.chance(500) { Fault::Eof(dir.written() + n) } else { Fault::Reset(dir.written() + n) };
    let fd = format!("{:?}", fault);
    dir.set_fault(Some(fault));
    let seed = r.next();
    let mut r2 = r.fork();
    let wj = tokio::spawn(async move {
        let mut pos = 0;
        let mut errs = 0;
        let mut flushed = 0;
        for _ in 0..200 {
            let d = data(seed, pos, size(&mut r2));
            match limit("write_all on a broken transport", wa.write_all(&d)).await? {
                Ok(()) => pos += d.len(),
                Err(_) => {
                    errs += 1;
                    // the stream is over, but may be used
                    if errs > 3 {
                        break;
                    }
                }
            }
            if r2.chance(500) || errs > 0 {
                match limit("flush on a broken transport", wa.flush()).await? {
                    Ok(()) if errs == 0 => flushed = pos,
                    Ok(()) => {}
                    Err(_) => errs += 1,
                }
            }
            if r2.chance(300) {
                sleep(us(r2.range(0, 2000))).await;
            }
        }
        let _ = limit("shutdown on a broken transport", wa.shutdown()).await?;
        let _ = limit("flush after the shutdown", wa.flush()).await?;
        drop(ra);
        Ok::<(usize, usize, u32), Stop>((pos, flushed, errs))
    });
    let mut pos = 0;
    let mut ends = 0;
    while ends < 5 {
        let mut b = vec![0; 1 + r.idx(3000)];
        match limit("read on a broken transport", rb.read(&mut b)).await? {
            Ok(k) if k > 0 => {
                ensure!(ends == 0, "after", "{} bytes were read after the stream had ended", k);
                for (i, c) in b[..k].iter().enumerate() {
                    ensure!(*c == at(seed, pos + i), "content", "byte {} arrived changed", pos + i);
                }
                pos += k;
            }
            _ => ends += 1,
        }
        // plaintext is never longer than what came over the transport
        ensure!(pos <= dir.consumed(), "content", "more was read than arrived");
    }
    drop((rb, wb));
    let (w, f, e) = match wj.await {
        Ok(x) => x?,
        Err(e) => return viol("panic", format!("using a broken stream panicked: {}", e)),
    };
    sc.count("bytes before the break", pos as u64);
    sc.case(Some(mix(sc.seed, pos as u64)), || format!("{}: {} of {} accepted bytes ({} flushed) arrived, {} errors", fd, pos, w, f, e));
    Ok(())
}

async fn threads(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let d = DirCfg { cap: 3000, wmax: 700, rmax: 900, record: false, ..Default::default() };
    let cfg = LinkCfg { c2s: d.clone(), s2c: d, seed: r.next() };
    let mut js = vec![];
    for _ in 0..6 {
        let (sc, r, cfg) = (sc.clone(), r.fork(), cfg.clone());
        js.push(tokio::spawn(async move { both_ways(&sc, cfg, r, false, true, if sc.thorough { 1500 } else { 200 }).await }));
    }
    let mut bytes = 0;
    for j in js {
        match j.await {
            Ok(x) => bytes += x?.0,
            Err(e) => return viol("panic", format!("{}", e)),
        }
    }
    sc.case(Some(mix(sc.seed, bytes as u64)), || format!("{} bytes over 6 connections on threads", bytes));
    Ok(())
}
