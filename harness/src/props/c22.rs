//! C22: manipulated encrypted traffic
use super::c20::{size, ES};
use crate::core::*;
use crate::fix::enc::{secret, Enc};
use crate::fix::*;
use crate::rng::*;
use crate::sim::*;
use crate::{boxed, ensure};
use bromine::prelude::encrypted::*;
use bromine::prelude::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use x25519_dalek::PublicKey;

pub fn fams() -> Vec<Fam> {
    vec![
        fam("packages", 4000, 60000, boxed!(packages_fam)),
        fam("bytes", 2000, 20000, boxed!(bytes_fam)),
        fam("handshake", 1500, 20000, boxed!(handshake)),
        fam("replay", 600, 8000, boxed!(replay)),
        fam("far", 60, 900, boxed!(far)),
        fam("library", 2500, 40000, boxed!(library)),
        fam("known_reflection", 3, 20, boxed!(known_reflection)),
        fam("known_session_replay", 3, 20, boxed!(known_session_replay)),
    ]
}

/// Keys of two peers that know each other
struct Peers {
    s: Keys,
    c: Keys,
}

fn peers(r: &mut Rng) -> Peers {
    let (a, b) = (secret(r), secret(r));
    Peers { s: enc::keys(&a, &[PublicKey::from(&b)], false), c: enc::keys(&b, &[PublicKey::from(&a)], false) }
}

fn inc(m: &str) -> Stop {
    Stop::Inconc(m.to_string())
}

async fn read_n(s: &mut SimStream, n: usize) -> R<Vec<u8>> {
    let mut b = vec![0; n];
    match tokio::time::timeout(secs(100), s.read_exact(&mut b)).await {
        Ok(Ok(_)) => Ok(b),
        x => Err(inc(&format!("a part of the handshake is missing: {:?}", x.map(|y| y.is_ok())))),
    }
}

/// Everything that comes until nothing more comes
async fn drain(s: &mut (impl AsyncRead + Unpin)) -> Vec<u8> {
    let mut v = vec![];
    let mut b = vec![0; 65536];
    while let Ok(Ok(n)) = tokio::time::timeout(secs(50), s.read(&mut b)).await {
        if n == 0 {
            break;
        }
        v.extend_from_slice(&b[..n]);
    }
    v
}

/// A session through somebody in the middle
struct Session {
    c: ES,
    s: ES,
    /// what the client sees as the server
    mc: SimStream,
    /// what the server sees as the client
    ms: SimStream,
    rec_up: Vec<u8>,
    rec_down: Vec<u8>,
}

async fn session(p: &Peers, r: &mut Rng) -> R<Session> {
    let near = LinkCfg { seed: r.next(), ..Default::default() };
    let (c, mut mc, _) = pair(if r.chance(500) { LinkCfg::random(r, true) } else { near.clone() });
    let (mut ms, s, _) = pair(if r.chance(500) { LinkCfg::random(r, true) } else { near });
    let (ks, kc) = (p.s.clone(), p.c.clone());
    let hs = tokio::spawn(async move { ES::from_server_key_exchange(s, &ks).await.map_err(|e| format!("{:?}", e)) });
    let hc = tokio::spawn(async move { ES::from_client_key_exchange(c, &kc).await.map_err(|e| format!("{:?}", e)) });
    let rec_up = read_n(&mut mc, 32).await?;
    let io = |_| inc("the handshake could not be forwarded");
    ms.write_all(&rec_up).await.map_err(io)?;
    ms.flush().await.map_err(io)?;
    let mut rec_down = read_n(&mut ms, 36).await?;
    let n = u32::from_be_bytes(rec_down[32..36].try_into().unwrap()) as usize;
    if n > 1000 {
        return Err(inc("another handshake"));
    }
    rec_down.extend(read_n(&mut ms, n).await?);
    mc.write_all(&rec_down).await.map_err(io)?;
    mc.flush().await.map_err(io)?;
    let lim = |h| tokio::time::timeout(secs(500), h);
    match (lim(hc).await, lim(hs).await) {
        (Ok(Ok(Ok(c))), Ok(Ok(Ok(s)))) => Ok(Session { c, s, mc, ms, rec_up, rec_down }),
        (c, s) => viol("handshake", format!("an unaltered handshake failed: {:?} {:?}", c.map(|x| x.map(|y| y.err())), s.map(|x| x.map(|y| y.err())))),
    }
}

/// Writes messages of random sizes, flushed at random; returns all the data
async fn send_some(w: &mut (impl AsyncWrite + Unpin), r: &mut Rng, n: u64, big: bool) -> R<Vec<u8>> {
    let mut v = vec![];
    for i in 0..n {
        let k = if big { size(r).clamp(1, 20_000) } else { r.range(1, 60) as usize };
        let d = r.bytes(k);
        let e = |e: std::io::Error| Stop::Viol { sig: "stream".into(), msg: format!("writing failed on a working transport: {:?}", e) };
        w.write_all(&d).await.map_err(e)?;
        if i + 1 == n || r.chance(700) {
            w.flush().await.map_err(e)?;
        }
        v.extend(d);
    }
    Ok(v)
}

/// (offset, length) of every package
fn bounds(b: &[u8]) -> R<Vec<(usize, usize)>> {
    let mut v = vec![];
    let mut o = 0;
    while o < b.len() {
        if b.len() < o + 4 {
            return Err(inc("not a sequence of packages"));
        }
        let n = u32::from_be_bytes(b[o..o + 4].try_into().unwrap()) as usize + 4;
        if b.len() < o + n || n < 20 {
            return Err(inc("not a sequence of packages"));
        }
        v.push((o, n));
        o += n;
    }
    Ok(v)
}

/// How much of the data is in packages that are unaltered, in their place
fn intact(orig: &[u8], alt: &[u8], b: &[(usize, usize)]) -> usize {
    let common = orig.iter().zip(alt).take_while(|(a, b)| a == b).count();
    b.iter().filter(|(o, n)| o + n <= common).map(|(_, n)| n - 20).sum()
}

/// A manipulation of a sequence of packages
fn edit(r: &mut Rng, orig: &[u8], b: &[(usize, usize)], other: &[u8], back: &[u8]) -> (String, Vec<u8>) {
    let mut v = orig.to_vec();
    let ob = bounds(other).unwrap_or_default();
    let bb = bounds(back).unwrap_or_default();
    let k = r.idx(b.len());
    let (o, n) = b[k];
    let pk = |i: usize| orig[b[i].0..b[i].0 + b[i].1].to_vec();
    let what = match r.below(18) {
        0 => {
            let at = o + 4 + r.idx(n - 4);
            v[at] ^= 1 << r.below(8);
            format!("a bit of package {} changed", k)
        }
        1 => {
            let at = o + n - 1 - r.idx(16);
            v[at] = v[at].wrapping_add(r.range(1, 255) as u8);
            format!("the tag of package {} changed", k)
        }
        2 => {
            let at = o + r.idx(4);
            v[at] ^= 1 << r.below(8);
            format!("the length of package {} changed", k)
        }
        3 => {
            v.drain(o..o + n);
            format!("package {} dropped", k)
        }
        4 => {
            let p = pk(k);
            v.splice(o + n..o + n, p);
            format!("package {} doubled", k)
        }
        5 if b.len() > 1 => {
            let k = r.idx(b.len() - 1);
            let (p, q) = (pk(k), pk(k + 1));
            let o = b[k].0;
            v.splice(o..o + p.len() + q.len(), [q, p].concat());
            format!("packages {} and {} swapped", k, k + 1)
        }
        6 => {
            let m = 1 + r.idx(n);
            let at = o + r.idx(n - m + 1);
            v.drain(at..at + m);
            format!("{} bytes of package {} dropped", m, k)
        }
        7 => {
            v.truncate(o + r.idx(n));
            format!("cut inside of package {}", k)
        }
        8 => {
            let m = 1 + r.idx(40);
            let x = r.bytes(m);
            let at = o + r.idx(n);
            v.splice(at..at, x);
            format!("{} bytes inserted into package {}", m, k)
        }
        9 => {
            let m = r.idx(60);
            let x = [(m as u32).to_be_bytes().to_vec(), r.bytes(m)].concat();
            v.splice(o..o, x);
            format!("a random package of {} bytes inserted before package {}", m, k)
        }
        10 => {
            // cut into two
            let m = r.idx(n - 4 + 1);
            let body = orig[o + 4..o + n].to_vec();
            let x = [&(m as u32).to_be_bytes()[..], &body[..m], &((n - 4 - m) as u32).to_be_bytes()[..], &body[m..]].concat();
            v.splice(o..o + n, x);
            format!("package {} split at {}", k, m)
        }
        11 if b.len() > 1 => {
            let k = r.idx(b.len() - 1);
            let (o, n) = b[k];
            let m = b[k + 1].1;
            let x = [&((n + m - 8) as u32).to_be_bytes()[..], &orig[o + 4..o + n], &orig[o + n + 4..o + n + m]].concat();
            v.splice(o..o + n + m, x);
            format!("packages {} and {} joined", k, k + 1)
        }
        12 if !ob.is_empty() => {
            // the same or another position of an earlier session of the same peers
            let j = if r.chance(600) { k.min(ob.len() - 1) } else { r.idx(ob.len()) };
            let x = other[ob[j].0..ob[j].0 + ob[j].1].to_vec();
            if r.chance(500) {
                v.splice(o..o + n, x);
            } else {
                v.splice(o..o, x);
            }
            format!("package {} of an earlier session at package {}", j, k)
        }
        13 if !ob.is_empty() => {
            v.truncate(o);
            v.extend_from_slice(&other[ob[k.min(ob.len() - 1)].0..]);
            format!("an earlier session from package {} on", k)
        }
        14 if bb.len() > 1 => {
            // a package of the other direction, of another position
            let mut j = r.idx(bb.len());
            if j == k {
                j = if k + 1 < bb.len() { k + 1 } else { k - 1 };
            }
            let x = back[bb[j].0..bb[j].0 + bb[j].1].to_vec();
            v.splice(o..o + n, x);
            format!("package {} of the other direction instead of package {}", j, k)
        }
        15 => {
            // two changes whose effects might cancel out: an inserted package and a dropped one
            let x = r.bytes(n - 4);
            let x = [&orig[o..o + 4], &x].concat();
            v.splice(o..o + n, x);
            format!("package {} replaced by noise of the same length", k)
        }
        16 => {
            let j = r.idx(b.len());
            let p = pk(j);
            v.extend(p);
            format!("package {} again after the end", j)
        }
        _ => {
            let from = r.idx(v.len());
            let m = r.idx(200);
            for x in v.iter_mut().skip(from).take(m) {
                *x = r.below(256) as u8
            }
            format!("{} bytes of noise from byte {} on", m, from)
        }
    };
    (what, v)
}

/// Reads as long as anything comes, also after errors
async fn deliver(rd: &mut (impl AsyncRead + Unpin), r: &mut Rng) -> R<(Vec<u8>, String)> {
    let mut v = vec![];
    let mut errs = 0;
    let mut end = String::new();
    loop {
        let n = match r.below(3) {
            0 => 1,
            1 => 1 + r.idx(100),
            _ => 9000,
        };
        let mut b = vec![0; n];
        match tokio::time::timeout(secs(200), rd.read(&mut b)).await {
            Ok(Ok(0)) => {
                errs += 1;
                end.push_str("end;")
            }
            Ok(Ok(n)) => {
                ensure!(errs == 0, "after", "{} bytes were delivered after the stream had ended ({})", n, end);
                v.extend_from_slice(&b[..n])
            }
            Ok(Err(e)) => {
                errs += 1;
                end.push_str(&format!("{:?};", e.kind()))
            }
            Err(_) => {
                end.push_str("nothing;");
                break;
            }
        }
        if errs > 4 {
            break;
        }
    }
    Ok((v, end))
}

async fn forward(to: &mut SimStream, b: &[u8]) {
    // the victim may have closed the connection already
    let _ = tokio::time::timeout(secs(3000), async {
        to.write_all(b).await?;
        to.flush().await
    })
    .await;
}

fn compare(sent: &[u8], got: &[u8], want: usize, what: &str, end: &str) -> R {
    ensure!(got.len() <= sent.len() && got == &sent[..got.len()], "altered", "{}: what was delivered ({} bytes) is not a prefix of what was sent ({} bytes)", what, got.len(), sent.len());
    ensure!(got.len() <= want, "altered", "{}: {} bytes were delivered although only the packages with the first {} bytes were unaltered", what, got.len(), want);
    ensure!(got.len() == want, "lost", "{}: only {} bytes were delivered, the packages with the first {} bytes were unaltered ({})", what, got.len(), want, end);
    Ok(())
}

async fn one(sc: &Sc, r: &mut Rng, big: bool, alter: &mut dyn FnMut(&mut Rng, &[u8], &[(usize, usize)], &[u8], &[u8]) -> (String, Vec<u8>)) -> R {
    let p = peers(r);
    let mut other = vec![];
    let mut other_back = vec![];
    if r.chance(500) {
        // an earlier session of the same peers
        let mut e = session(&p, r).await?;
        let n = r.range(1, 8);
        let (mut wc, mut ws) = (e.c, e.s);
        let (a, b) = tokio::join!(async { send_some(&mut wc, &mut r.fork(), n, big).await }, drain(&mut e.mc));
        a?;
        other = b;
        let (a, b) = tokio::join!(async { send_some(&mut ws, &mut Rng::new(7), n, big).await }, drain(&mut e.ms));
        a?;
        other_back = b;
    }
    let Session { c, s, mut mc, mut ms, .. } = session(&p, r).await?;
    let (mut rc, mut wc) = c.protocol_into_split();
    let (mut rs, mut ws) = s.protocol_into_split();
    let (n, m) = (r.range(1, 9), r.range(1, 9));
    let (mut r1, mut r2) = (r.fork(), r.fork());
    let (a, up) = tokio::join!(send_some(&mut wc, &mut r1, n, big), drain(&mut mc));
    let (b, down) = tokio::join!(send_some(&mut ws, &mut r2, m, big), drain(&mut ms));
    let (a, b) = (a?, b?);
    let (ub, db) = (bounds(&up)?, bounds(&down)?);
    if ub.iter().map(|x| x.1 - 20).sum::<usize>() != a.len() || db.iter().map(|x| x.1 - 20).sum::<usize>() != b.len() {
        return Err(inc("the packages have another size"));
    }
    let which = r.below(10);
    let (mut wu, mut nu) = ("unaltered".to_string(), up.clone());
    let (mut wd, mut nd) = ("unaltered".to_string(), down.clone());
    if which < 7 {
        (wu, nu) = alter(r, &up, &ub, &other, &down);
    }
    if which >= 5 {
        (wd, nd) = alter(r, &down, &db, &other_back, &up);
    }
    let close = r.chance(500);
    let (mut r1, mut r2) = (r.fork(), r.fork());
    let (x, y, _, _) = tokio::join!(
        deliver(&mut rs, &mut r1),
        deliver(&mut rc, &mut r2),
        async {
            forward(&mut ms, &nu).await;
            if close {
                let _ = ms.shutdown().await;
            }
        },
        async {
            forward(&mut mc, &nd).await;
            if close {
                let _ = mc.shutdown().await;
            }
        }
    );
    let ((x, ex), (y, ey)) = (x?, y?);
    compare(&a, &x, intact(&up, &nu, &ub), &format!("client to server, {}", wu), &ex)?;
    compare(&b, &y, intact(&down, &nd, &db), &format!("server to client, {}", wd), &ey)?;
    sc.count("manipulations", (which < 7) as u64 + (which >= 5) as u64);
    sc.count("bytes delivered before", (x.len() + y.len()) as u64);
    sc.case(Some(mix(sc.seed, hash_bytes(&nu))), || format!("to the server: {} of {} packages, {} bytes delivered ({}); to the client: {} of {} packages, {} bytes delivered ({})", wu, ub.len(), x.len(), ex, wd, db.len(), y.len(), ey));
    drop((wc, ws));
    Ok(())
}

async fn packages_fam(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let big = r.chance(300);
    one(&sc, &mut r, big, &mut edit).await
}

/// Every byte of a short session, one after the other
async fn bytes_fam(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let at = sc.idx as usize;
    one(&sc, &mut r, false, &mut |r, orig, _, _, _| {
        let mut v = orig.to_vec();
        let at = at % v.len();
        let what = match r.below(6) {
            0 => {
                v.remove(at);
                "removed"
            }
            1 => {
                let x = r.below(256) as u8;
                v.insert(at, x);
                "inserted"
            }
            2 => {
                v.truncate(at);
                "and all that follow cut"
            }
            3 => {
                v[at] = 0;
                "set to 0"
            }
            _ => {
                v[at] ^= 1 << r.below(8);
                "changed"
            }
        };
        (format!("byte {} of {} {}", at, orig.len(), what), v)
    })
    .await
}

/// Long sessions in which a package comes again, or is taken from, many packages away
async fn far(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let p = peers(&mut r);
    let Session { c, s, mut mc, mut ms, .. } = session(&p, &mut r).await?;
    let (mut rc, mut wc) = c.protocol_into_split();
    let (mut rs, mut ws) = s.protocol_into_split();
    let dist = match sc.idx % 15 {
        7 => 65_536,
        _ if sc.thorough && sc.idx % 15 == 3 => 1 << r.range(10, 18),
        i if i % 3 == 0 => r.range(1, 700) as usize,
        _ => 1 << r.range(0, 10),
    };
    let forth = dist < 2000 && r.chance(300);
    let from = r.idx(20);
    // package k is replaced (or preceded) by package j
    let (k, j) = if forth { (from, from + dist) } else { (from + dist, from) };
    let n = k.max(j) + 1 + r.idx(3);
    let up = r.chance(500);
    let (w, m): (&mut (dyn AsyncWrite + Send + Unpin), &mut SimStream) = if up { (&mut wc, &mut mc) } else { (&mut ws, &mut ms) };
    let seed = r.next();
    let e = |e: std::io::Error| Stop::Viol { sig: "stream".into(), msg: format!("writing failed on a working transport: {:?}", e) };
    let (a, rec) = tokio::join!(
        async {
            let mut v = vec![];
            for i in 0..n {
                // all packages have the same size
                let d = mix(seed, i as u64).to_le_bytes();
                w.write_all(&d).await.map_err(e)?;
                w.flush().await.map_err(e)?;
                v.extend_from_slice(&d);
            }
            Ok(v)
        },
        drain(m)
    );
    let a: Vec<u8> = a?;
    let b = bounds(&rec)?;
    if b.len() != n || b.iter().any(|x| x.1 != 28) {
        return Err(inc("the packages have another size"));
    }
    let x = rec[b[j].0..b[j].0 + b[j].1].to_vec();
    let mut alt = rec.clone();
    let (o, l) = b[k];
    let what = match r.below(3) {
        0 => {
            alt.splice(o..o, x);
            "inserted before"
        }
        1 if !forth => {
            alt.truncate(o);
            alt.extend_from_slice(&rec[b[j].0..]);
            "and all that follow it instead of"
        }
        _ => {
            alt.splice(o..o + l, x);
            "instead of"
        }
    };
    let what = format!("package {} {} package {} of a session of {}", j, what, k, n);
    let (rd, m): (&mut (dyn AsyncRead + Send + Unpin), &mut SimStream) = if up { (&mut rs, &mut ms) } else { (&mut rc, &mut mc) };
    let mut rd = rd;
    let mut r1 = r.fork();
    let (x, _) = tokio::join!(deliver(&mut rd, &mut r1), forward(m, &alt));
    let (x, end) = x?;
    compare(&a, &x, intact(&rec, &alt, &b), &what, &end)?;
    ensure!(x.len() == k * 8, "lost", "{}: {} bytes delivered before", what, x.len());
    sc.count("packages between a package and its repetition", dist as u64);
    sc.case(Some(mix(sc.seed, dist as u64)), || format!("{}: {} bytes delivered ({})", what, x.len(), end));
    Ok(())
}

/// Manipulated handshakes: they fail or nothing is delivered
async fn handshake(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let mut p = peers(&mut r);
    let allow = r.chance(300);
    p.s.allow_unknown = allow;
    p.c.allow_unknown = allow;
    // bytes of an earlier handshake
    let early = session(&p, &mut r).await?;
    let (c, mut mc, _) = pair(LinkCfg { seed: r.next(), ..Default::default() });
    let (mut ms, s, _) = pair(LinkCfg { seed: r.next(), ..Default::default() });
    let (ks, kc) = (p.s.clone(), p.c.clone());
    let (mut r1, mut r2) = (r.fork(), r.fork());
    let delivered = Arc::new(Mutex::new(vec![]));
    let (d1, d2) = (delivered.clone(), delivered.clone());
    let run = |who: &'static str, d: Arc<Mutex<Vec<String>>>| {
        move |x: Result<ES, String>, mut r: Rng| async move {
            match x {
                Err(e) => d.lock().unwrap().push(format!("{} fails: {}", who, e)),
                Ok(s) => {
                    let (mut rd, mut w) = s.protocol_into_split();
                    let data = r.bytes(50);
                    let _ = tokio::time::timeout(secs(100), async {
                        w.write_all(&data).await?;
                        w.flush().await
                    })
                    .await;
                    let (v, end) = match deliver(&mut rd, &mut r).await {
                        Ok(x) => x,
                        Err(_) => (vec![1], "more after the end".into()),
                    };
                    d.lock().unwrap().push(format!("{} {}: {} bytes delivered, {}", if v.is_empty() { "ok" } else { "DELIVERED" }, who, v.len(), end));
                    if !v.is_empty() {
                        return Some(v.len());
                    }
                }
            }
            None
        }
    };
    let (run1, run2) = (run("server", d1), run("client", d2));
    let r1b = r1.fork();
    let r2b = r2.fork();
    let hs = tokio::spawn(async move { run1(ES::from_server_key_exchange(s, &ks).await.map_err(|e| format!("{:?}", e)), r1b).await });
    let hc = tokio::spawn(async move { run2(ES::from_client_key_exchange(c, &kc).await.map_err(|e| format!("{:?}", e)), r2b).await });
    let mut up = read_n(&mut mc, 32).await?;
    let kind = r.below(9);
    let mut what;
    match kind {
        0 => {
            let k = r.idx(32);
            // the curve ignores the highest bit of a key
            let bit = if k == 31 { r.below(7) } else { r.below(8) };
            up[k] ^= 1 << bit;
            what = format!("bit {} of byte {} of the client's key changed", bit, k);
        }
        1 => {
            up = r.bytes(32);
            what = "another key for the client".to_string();
        }
        2 => {
            // points of small order make every shared secret the same
            up = r.pick(&[vec![0; 32], [vec![1], vec![0; 31]].concat(), [vec![0xec], vec![0xff; 30], vec![0x7f]].concat(), [vec![0xed], vec![0xff; 30], vec![0x7f]].concat()]).clone();
            what = "a weak key for the client".to_string();
        }
        _ => what = String::new(),
    }
    forward(&mut ms, &up).await;
    // the server may refuse
    let mut down = vec![0; 32 + 4 + 48];
    let got = matches!(tokio::time::timeout(secs(50), ms.read_exact(&mut down)).await, Ok(Ok(_)));
    if !got {
        down = early.rec_down.clone();
        r1.shuffle(&mut down[40..]);
    }
    match kind {
        0..=2 => {}
        3 => {
            let k = r.idx(32);
            let bit = if k == 31 { r.below(7) } else { r.below(8) };
            down[k] ^= 1 << bit;
            what = format!("bit {} of byte {} of the server's key changed", bit, k);
        }
        4 => {
            let k = r.bytes(32);
            down[..32].copy_from_slice(&k);
            what = "another key for the server".into();
        }
        5 => {
            let k = 36 + r.idx(48);
            down[k] ^= 1 << r.below(8);
            what = format!("byte {} of the session key package changed", k - 36);
        }
        6 => {
            let k = 32 + r.idx(4);
            down[k] ^= 1 << r.below(8);
            what = "the length of the session key package changed".into();
        }
        7 => {
            // what follows could by chance replace the last byte or two
            down.truncate(r.idx(78));
            what = format!("the handshake cut after {} bytes", down.len());
        }
        _ => {
            let k = r.bytes(48);
            down[36..].copy_from_slice(&k);
            what = "a random session key package".into();
        }
    }
    forward(&mut mc, &down).await;
    // what they send then reaches the other side
    let (mut a, mut b) = tokio::io::split(mc);
    let (mut c, mut d) = tokio::io::split(ms);
    let f1 = tokio::spawn(async move { tokio::io::copy(&mut a, &mut d).await.is_ok() });
    let f2 = tokio::spawn(async move { tokio::io::copy(&mut c, &mut b).await.is_ok() });
    let mut out = None;
    for h in [hs, hc] {
        match tokio::time::timeout(secs(4000), h).await {
            Ok(Ok(x)) => out = out.or(x),
            Ok(Err(e)) if e.is_panic() => return viol("panic", format!("{}: a handshake panicked", what)),
            // still waiting for data
            _ => {}
        }
    }
    f1.abort();
    f2.abort();
    ensure!(out.is_none(), "altered", "{}: data was delivered after a manipulated handshake: {:?}", what, delivered.lock().unwrap());
    sc.count("manipulated handshakes", 1);
    sc.case(Some(mix(sc.seed, kind)), || format!("{}, unknown peers allowed: {}: {:?}", what, allow, delivered.lock().unwrap()));
    Ok(())
}

/// What the client sent in an earlier session means nothing in a later one
async fn replay(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<Enc>::new(&mut r);
    let n_runs = Arc::new(AtomicUsize::new(0));
    let runs = n_runs.clone();
    let h = hnd(move |ctx, _| {
        let runs = runs.clone();
        Box::pin(async move {
            runs.fetch_add(1, Ordering::SeqCst);
            Response::payload(ctx, bp(vec![1, 2, 3]))
        })
    });
    let _srv = net.serve(net.builder().on("a", h)).await;
    let ctx = net.client(net.builder(), &LinkCfg::default()).await?;
    let k = r.range(1, 10) as usize;
    for i in 0..k {
        let n = r.len(2000);
        let x = r.bytes(n);
        if let Err(e) = ctx.emit("a", bp(x)).await_reply().await {
            return viol("reply", format!("request {} failed: {:?}", i, e));
        }
    }
    let link = net.link(0);
    let rec = link.c2s.recorded();
    if r.chance(500) {
        let _ = ctx.stop().await;
    }
    for _ in 0..r.range(1, 4) {
        let before = n_runs.load(Ordering::SeqCst);
        let mut s = connect(net.addr, &SimOpts::new(LinkCfg::default(), &net.links)).await.map_err(|e| inc(&format!("{:?}", e)))?;
        match r.below(4) {
            0 => forward(&mut s, &rec).await,
            1 => {
                // as if the client waited for the handshake
                forward(&mut s, &rec[..32]).await;
                let _ = read_n(&mut s, 84).await?;
                forward(&mut s, &rec[32..]).await;
            }
            2 => {
                forward(&mut s, &rec[..32]).await;
                let b = bounds(&rec[32..])?;
                let k = r.idx(b.len());
                forward(&mut s, &rec[32 + b[k].0..]).await;
            }
            _ => {
                let mut v = rec.clone();
                let x = rec[32..].to_vec();
                v.extend(x);
                forward(&mut s, &v).await
            }
        }
        sleep(secs(30)).await;
        ensure!(n_runs.load(Ordering::SeqCst) == before, "replayed", "{} events of a recorded session were handled", n_runs.load(Ordering::SeqCst) - before);
    }
    // the server still serves others
    let ctx = net.client(net.builder(), &LinkCfg::default()).await?;
    ensure!(ctx.emit("a", bp(vec![])).await_reply().await.is_ok(), "served", "a request after replayed sessions failed");
    sc.count("replayed sessions", 1);
    sc.case(Some(mix(sc.seed, rec.len() as u64)), || format!("a session with {} events ({} bytes) replayed", k, rec.len()));
    Ok(())
}

#[derive(Clone, Debug)]
enum Cut {
    Flip(u8),
    Drop(usize),
    Insert(Vec<u8>),
    Close,
    Noise(u64),
    Again(usize),
}

/// Copies with one manipulation at an offset
async fn copy_cut(mut from: impl AsyncRead + Unpin, mut to: impl AsyncWrite + Unpin, at: usize, cut: Option<Cut>, done: Arc<AtomicBool>) {
    let mut pos = 0;
    let mut seen: Vec<u8> = vec![];
    let mut b = vec![0; 8192];
    let mut noise = None;
    while let Ok(n) = from.read(&mut b).await {
        if n == 0 {
            break;
        }
        let mut out = b[..n].to_vec();
        if let Some(c) = cut.as_ref().filter(|_| pos <= at && at < pos + n) {
            done.store(true, Ordering::SeqCst);
            let i = at - pos;
            match c {
                Cut::Flip(x) => out[i] ^= x,
                Cut::Drop(k) => {
                    out.drain(i..(i + k).min(n));
                }
                Cut::Insert(v) => {
                    out.splice(i..i, v.clone());
                }
                Cut::Close => out.truncate(i),
                Cut::Noise(s) => {
                    let mut r = Rng::new(*s);
                    for x in out[i..].iter_mut() {
                        *x = r.below(256) as u8
                    }
                    noise = Some(r);
                }
                Cut::Again(k) => {
                    // what was sent before, once more
                    let all = [&seen[..], &out[..i]].concat();
                    let v = all[all.len() - (*k).min(all.len())..].to_vec();
                    out.splice(i..i, v);
                }
            }
        } else if let Some(r) = noise.as_mut() {
            for x in out.iter_mut() {
                *x = r.below(256) as u8
            }
        }
        if seen.len() < 1 << 16 {
            seen.extend_from_slice(&b[..n]);
        }
        pos += n;
        if to.write_all(&out).await.is_err() || to.flush().await.is_err() {
            break;
        }
        if matches!(cut, Some(Cut::Close)) && done.load(Ordering::SeqCst) {
            break;
        }
    }
    let _ = to.shutdown().await;
}

/// A client whose connection is manipulated, next to one whose connection is not
async fn library(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<Enc>::new(&mut r);
    let runs: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
    let r2 = runs.clone();
    let h = hnd(move |ctx, e| {
        let r2 = r2.clone();
        Box::pin(async move {
            let p = e.payload::<BytePayload>()?.into_inner();
            r2.lock().unwrap().push(p.clone());
            if p[0] & 1 == 1 {
                // on top of the reply
                ctx.emit("more", bp(p.clone())).await?;
            }
            Response::payload(ctx, bp(p))
        })
    });
    let _srv = net.serve(net.builder().on("a", h).timeout(secs(60))).await;
    // the attacker's address
    let mid = new_addr();
    let up = r.chance(500);
    let at = if r.chance(150) { r.idx(120) } else { 32 + r.idx(2500) };
    let cut = match r.below(6) {
        0 => Cut::Drop(1 + r.idx(100)),
        1 => {
            let n = 1 + r.idx(100);
            Cut::Insert(r.bytes(n))
        }
        2 => Cut::Close,
        3 => Cut::Noise(r.next()),
        4 => Cut::Again(1 + r.idx(300)),
        _ => Cut::Flip(1 << r.below(8)),
    };
    let listener = SimListener::bind(mid).map_err(|e| inc(&format!("{:?}", e)))?;
    let done = Arc::new(AtomicBool::new(false));
    let (d2, c2, links, addr) = (done.clone(), cut.clone(), net.links.clone(), net.addr);
    let mitm = tokio::spawn(async move {
        while let Ok(c) = listener.accept().await {
            let s = match connect(addr, &SimOpts::new(LinkCfg::default(), &links)).await {
                Ok(s) => s,
                Err(_) => return,
            };
            let (d, d3) = (d2.clone(), d2.clone());
            let (cu, cd) = if up { (Some(c2.clone()), None) } else { (None, Some(c2.clone())) };
            tokio::spawn(copy_cut(c.r, s.w, at, cu, d));
            tokio::spawn(copy_cut(s.r, c.w, at, cd, d3));
        }
    });
    let more: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
    let m2 = more.clone();
    let hm = hnd(move |_, e| {
        let m2 = m2.clone();
        Box::pin(async move {
            m2.lock().unwrap().push(e.payload::<BytePayload>()?.into_inner());
            Ok(Response::empty())
        })
    });
    let good = net.client(net.builder(), &LinkCfg::default()).await?;
    let b = IPCBuilder::<<Enc as Tp>::L>::new().address(mid).timeout(secs(20)).on("more", hm).client_options(net.copts(&LinkCfg::default()));
    let victim = tokio::time::timeout(secs(100), b.build_client()).await;
    let mut sent: Vec<Vec<u8>> = vec![];
    let mut replies = 0;
    let mut failed = 0;
    let mut good_sent = 0;
    if let Ok(Ok(ctx)) = victim {
        let rounds = r.range(6, 30);
        for i in 0..rounds {
            let mut p = vec![r.below(256) as u8 & !2, i as u8];
            let n = r.len(300);
            p.extend(r.bytes(n));
            sent.push(p.clone());
            if r.chance(300) {
                let x = tokio::time::timeout(secs(100), ctx.emit("a", bp(p.clone()))).await;
                match x {
                    Ok(Ok(_)) => {}
                    Ok(Err(_)) => failed += 1,
                    Err(_) => return viol("hang", "emitting on a manipulated connection did not return"),
                }
            } else {
                match tokio::time::timeout(secs(100), ctx.emit("a", bp(p.clone())).await_reply()).await {
                    Ok(Ok(e)) => {
                        replies += 1;
                        // the first reply may be the event that the handler emitted
                        let b = e.payload::<BytePayload>().map(|b| b.into_inner());
                        ensure!(b.as_ref().ok() == Some(&p), "altered", "a reply has another content: {:?}", b);
                    }
                    Ok(Err(_)) => failed += 1,
                    Err(_) => return viol("hang", "a request on a manipulated connection did not end"),
                }
            }
            if r.chance(200) {
                let x = good.emit("a", bp(vec![2, good_sent])).await_reply().await;
                good_sent += 1;
                ensure!(x.is_ok(), "served", "a request on another connection failed: {:?}", x.err());
            }
            if failed > 6 {
                break;
            }
        }
        sleep(secs(60)).await;
        let got: Vec<Vec<u8>> = runs.lock().unwrap().iter().filter(|p| p[0] & 2 == 0).cloned().collect();
        // handlers of one connection start in the order of the events, but may log in another one
        let mut want = sent[..got.len().min(sent.len())].to_vec();
        let mut g = got.clone();
        want.sort();
        g.sort();
        ensure!(g == want, "altered", "{:?} at byte {}: the server handled {} events that are not the first ones of the {} sent", cut, at, got.len(), sent.len());
        for m in more.lock().unwrap().iter() {
            ensure!(got.contains(m), "altered", "{:?} at byte {}: the client handled an event that was not sent", cut, at);
        }
        if !done.load(Ordering::SeqCst) {
            ensure!(failed == 0 && got.len() == sent.len(), "lost", "{} of {} events arrived and {} failed without any manipulation", got.len(), sent.len(), failed);
        }
        sc.count("events handled before", got.len() as u64);
    } else {
        ensure!(done.load(Ordering::SeqCst), "connect", "connecting failed without any manipulation");
        sc.count("connections that failed", 1);
    }
    let x = good.emit("a", bp(vec![2, 99])).await_reply().await;
    ensure!(x.is_ok(), "served", "a request on another connection failed afterwards: {:?}", x.err());
    let late = net.client(net.builder(), &LinkCfg::default()).await?;
    let x = late.emit("a", bp(vec![2, 100])).await_reply().await;
    ensure!(x.is_ok(), "served", "a request on a new connection failed afterwards: {:?}", x.err());
    mitm.abort();
    sc.count("manipulated connections", done.load(Ordering::SeqCst) as u64);
    sc.case(Some(mix(sc.seed, at as u64)), || format!("{:?} at byte {} {}, reached: {}; {} sent, {} replies, {} failed", cut, at, if up { "to the server" } else { "to the client" }, done.load(Ordering::SeqCst), sent.len(), replies, failed));
    Ok(())
}

/// A package that comes back to its sender
async fn known_reflection(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let p = peers(&mut r);
    let Session { c, s, mut mc, mut ms, .. } = session(&p, &mut r).await?;
    let (mut rs, mut ws) = s.protocol_into_split();
    let (a, down) = tokio::join!(send_some(&mut ws, &mut r, 3, false), drain(&mut ms));
    let a = a?;
    let (v, end) = {
        let (x, _) = tokio::join!(async { deliver(&mut rs, &mut Rng::new(1)).await }, forward(&mut ms, &down));
        x?
    };
    if !v.is_empty() {
        if v[..] == a[..v.len().min(a.len())] {
            sc.known("reflected-package", format!("packages that the server sent were sent back to it and delivered as the client's ({} bytes)", v.len()));
        } else {
            return viol("altered", "something was delivered that nobody sent");
        }
    }
    drop((c, &mut mc));
    sc.case(Some(sc.seed), || format!("{} bytes reflected, {} delivered ({})", down.len(), v.len(), end));
    Ok(())
}

/// A recorded server, played to the client again
async fn known_session_replay(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let p = peers(&mut r);
    let Session { c, s, mut mc, mut ms, rec_down, .. } = session(&p, &mut r).await?;
    let (_rs, mut ws) = s.protocol_into_split();
    let (a, down) = tokio::join!(send_some(&mut ws, &mut r, 3, false), drain(&mut ms));
    let a = a?;
    drop((c, &mut mc));
    let (c, mut m, _) = pair(LinkCfg { seed: r.next(), ..Default::default() });
    let kc = p.c.clone();
    let h = tokio::spawn(async move { ES::from_client_key_exchange(c, &kc).await });
    forward(&mut m, &rec_down).await;
    forward(&mut m, &down).await;
    let mut n = 0;
    if let Ok(Ok(Ok(mut c))) = tokio::time::timeout(secs(100), h).await {
        let (v, _) = deliver(&mut c, &mut r).await?;
        n = v.len();
        if n > 0 {
            ensure!(v == a, "altered", "something was delivered that nobody sent");
            sc.known("replayed-session", format!("a client accepted the recorded bytes of an earlier session of its server and delivered {} bytes", n));
        }
    }
    sc.case(Some(sc.seed), || format!("{} bytes replayed, {} delivered", rec_down.len() + down.len(), n));
    Ok(())
}
