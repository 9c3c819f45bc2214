//! C21: secrecy of encrypted traffic
use super::c20::{size, streams};
use super::tap::*;
use crate::core::*;
use crate::fix::*;
use crate::mesh::*;
use crate::rng::*;
use crate::sim::*;
use crate::{boxed, ensure};
use bromine::prelude::encrypted::*;
use bromine::prelude::*;
use chacha20poly1305::aead::Aead;
use chacha20poly1305::{ChaCha20Poly1305, Key, KeyInit, Nonce};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use x25519_dalek::PublicKey;

pub fn fams() -> Vec<Fam> {
    vec![
        fam("library", 120, 4000, boxed!(library)),
        fam("streams", 150, 4000, boxed!(stream_pairs)),
        fam("sessions", 6, 60, boxed!(sessions)),
        fam("long", 1, 4, boxed!(long)),
        fam("secrets", 1, 4, boxed!(secrets)),
    ]
}

/// Splits what was recorded into packages (length, ciphertext with tag); the last one may be incomplete
fn packages(b: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut o = 0;
    while b.len() >= o + 4 {
        let n = u32::from_be_bytes(b[o..o + 4].try_into().unwrap()) as usize;
        if b.len() < o + 4 + n {
            break;
        }
        v.push(&b[o + 4..o + 4 + n]);
        o += 4 + n;
    }
    v
}

#[derive(Default)]
struct Streams {
    /// first bytes of a keystream: (connection, client to server, package)
    seen: HashMap<u64, (usize, bool, usize)>,
    shared: u64,
    n: u64,
}

impl Streams {
    /// Compares the packages of one direction of one connection with all others
    fn dir(&mut self, conn: usize, up: bool, pkgs: &[&[u8]], plain: &[u8]) -> R {
        let mut pos = 0;
        for (i, p) in pkgs.iter().enumerate() {
            if p.len() < 16 {
                return Err(Stop::Inconc(format!("a package of {} bytes", p.len())));
            }
            let n = p.len() - 16;
            if pos + n > plain.len() {
                break;
            }
            if n >= 8 {
                let ks: Vec<u8> = (0..8).map(|k| p[k] ^ plain[pos + k]).collect();
                let ks = u64::from_le_bytes(ks.try_into().unwrap());
                self.n += 1;
                if let Some((c, u, j)) = self.seen.insert(ks, (conn, up, i)) {
                    if c == conn && u != up {
                        // both directions use the same keys and counters
                        self.shared += 1;
                    } else {
                        let d = |u: bool| if u { "client" } else { "server" };
                        return viol(
                            "reuse",
                            format!("package {} that the {} sent on connection {} has the keystream of package {} that the {} sent on connection {}", i, d(up), conn, j, d(u), c),
                        );
                    }
                }
            }
            pos += n;
        }
        Ok(())
    }
}

/// Searches the plaintext (and anything else that is secret) in the recorded bytes
fn clear(rec: &[&[u8]], secret: &[u8], what: &str) -> R<u64> {
    let mut set = HashSet::new();
    for w in secret.windows(8) {
        set.insert(u64::from_le_bytes(w.try_into().unwrap()));
    }
    let mut n = 0;
    for r in rec {
        for (o, w) in r.windows(8).enumerate() {
            n += 1;
            ensure!(!set.contains(&u64::from_le_bytes(w.try_into().unwrap())), "clear", "{} appears in clear at byte {} of the traffic: {:02x?}", what, o, w);
        }
    }
    Ok(n)
}

fn open(key: &[u8], p: &[u8]) -> Option<Vec<u8>> {
    ChaCha20Poly1305::new(Key::from_slice(key)).decrypt(&Nonce::default(), p).ok()
}

/// Looks for a key in what was sent in clear, whatever the handshake looks like: any 32 bytes of
/// the beginning of the connection must not open the first package that starts anywhere in it
fn eavesdrop(up: &[u8], down: &[u8]) -> R<u64> {
    let mut tried = 0;
    let mut firsts: Vec<&[u8]> = vec![];
    for rec in [up, down] {
        for o in 0..rec.len().min(260) {
            let ps = packages(&rec[o..]);
            let len: usize = ps.iter().map(|p| p.len() + 4).sum();
            // packages up to the end of what was sent
            if !ps.is_empty() && len == rec.len() - o && ps.iter().all(|p| p.len() >= 16) && ps[0].len() < 70_000 {
                firsts.push(ps[0]);
                // the key may come in a package of its own
                firsts.extend(ps.get(1).filter(|p| p.len() < 70_000));
            }
        }
    }
    firsts.dedup();
    firsts.truncate(8);
    for f in firsts {
        for rec in [up, down] {
            for w in rec[..rec.len().min(300)].windows(32) {
                tried += 1;
                ensure!(open(w, f).is_none(), "clear", "the traffic is encrypted with a key that was sent in clear: {:02x?}", w);
            }
        }
    }
    Ok(tried)
}

struct Conn {
    /// key exchange: sent by the client, sent by the server (key, package)
    key: Option<Vec<u8>>,
}

/// Judges one recorded connection
fn judge(sc: &Sc, st: &mut Streams, conn: usize, link: &Link, dh: &[u8], sent: &[u8], got: &[u8]) -> R<Conn> {
    let (up, down) = (link.c2s.recorded(), link.s2c.recorded());
    // nothing that was sent is readable, whatever the structure
    clear(&[&up, &down], &[sent, got].concat(), "content of events")?;
    sc.count("keys tried", eavesdrop(&up, &down)?);
    if up.len() < 32 || down.len() < 32 {
        return Err(Stop::Inconc("no key exchange".into()));
    }
    let (pu, pd) = (packages(&up[32..]), packages(&down[32..]));
    if pd.is_empty() {
        return Err(Stop::Inconc("no session key package".into()));
    }
    st.dir(conn, true, &pu, sent)?;
    st.dir(conn, false, &pd[1..], got)?;
    let mut secret = sent.to_vec();
    secret.extend_from_slice(got);
    let mut bytes = clear(&[&up[32..], &down[32..]], &secret, "content of events")?;
    bytes += clear(&[&up, &down], dh, "the shared secret of the key exchange")?;
    // the session key must not be anywhere in what was sent
    let key = open(dh, pd[0]);
    if let Some(k) = &key {
        ensure!(k.len() == 32, "key", "the session key has {} bytes", k.len());
        clear(&[&up, &down], k, "the session key")?;
    } else {
        sc.count("key packages of another construction", 1);
    }
    let first = pu.first().or(pd.get(1));
    if let Some(first) = first {
        let mut public = up[..32.min(up.len())].to_vec();
        public.extend_from_slice(&down[..(32 + 4 + pd[0].len()).min(down.len())]);
        for w in public.windows(32) {
            ensure!(open(w, first).is_none(), "clear", "the traffic is encrypted with a key that was sent in clear: {:02x?}", w);
        }
        for w in [&[0u8; 32], &[1u8; 32], &[0xffu8; 32]] {
            ensure!(open(w, first).is_none(), "clear", "the traffic is encrypted with a constant key");
        }
        ensure!(open(dh, first).is_none(), "fresh", "the traffic is encrypted with the static shared secret instead of a session key");
    }
    sc.count("bytes searched for plaintext", bytes);
    Ok(Conn { key })
}

fn shared(sc: &Sc, st: &Streams) {
    if st.shared > 0 {
        sc.known("directions-share-keystream", format!("{} packages have the keystream of a package of the other direction of the same connection", st.shared));
    }
}

/// Random traffic of servers, clients and pools
async fn library(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<Tapped>::new(&mut r);
    let c = MeshCfg {
        clients: r.range(1, 3) as usize,
        pool: if r.chance(400) { r.range(1, 4) as usize } else { 0 },
        tasks: r.range(1, 5) as usize,
        per_task: r.range(3, 12) as usize,
        tight: false,
        timed: true,
        panics: false,
        faults: vec![],
    };
    let res = mesh(&net, &mut r, &c).await?;
    check_callers(&res)?;
    let logs: Vec<Log> = net.keys.1.list.lock().unwrap().clone();
    let n = net.links.lock().unwrap().len();
    ensure!(n == logs.len(), "harness", "{} links, {} logs", n, logs.len());
    let dh = net.keys.0.s.secret.diffie_hellman(&PublicKey::from(&net.keys.0.c.secret));
    let mut st = Streams::default();
    let mut keys = HashSet::new();
    for (i, l) in logs.iter().enumerate() {
        let g = l.lock().unwrap();
        let k = judge(&sc, &mut st, i, &net.link(i), dh.as_bytes(), &g.sent, &g.got)?;
        if let Some(k) = k.key {
            ensure!(keys.insert(k), "fresh", "two connections have the same session key");
        }
    }
    shared(&sc, &st);
    sc.count("keystreams compared", st.n);
    sc.count("connections", n as u64);
    ensure!(st.n > 0, "harness", "no keystreams");
    sc.case(Some(mix(sc.seed, st.n)), || format!("{} connections with the same keys, {} packages", n, st.n));
    Ok(())
}

async fn exchange(c: ES2, s: ES2, r: &mut Rng, steps: u64) -> R<((ES2, Vec<u8>, Vec<u8>), ES2)> {
    let (mut rc, mut wc) = tokio::io::split(c);
    let (mut rs, mut ws) = tokio::io::split(s);
    let (mut sent, mut got) = (vec![], vec![]);
    for _ in 0..steps {
        let mut ds = vec![];
        for _ in 0..r.range(1, 3) {
            let n = size(r);
            ds.push(r.bytes(n));
        }
        let n: usize = ds.iter().map(|d| d.len()).sum();
        let e = |e: std::io::Error| Stop::Viol { sig: "stream".into(), msg: format!("the stream failed: {:?}", e) };
        let mut buf = vec![0; n];
        if r.chance(500) {
            let (a, b) = tokio::join!(
                async {
                    for d in &ds {
                        wc.write_all(d).await?
                    }
                    wc.flush().await
                },
                rs.read_exact(&mut buf)
            );
            a.map_err(e)?;
            b.map_err(e)?;
            sent.extend(ds.concat());
        } else {
            let (a, b) = tokio::join!(
                async {
                    for d in &ds {
                        ws.write_all(d).await?
                    }
                    ws.flush().await
                },
                rc.read_exact(&mut buf)
            );
            a.map_err(e)?;
            b.map_err(e)?;
            got.extend(ds.concat());
        }
        ensure!(buf == ds.concat(), "content", "the stream changed the data");
    }
    Ok(((rc.unsplit(wc), sent, got), rs.unsplit(ws)))
}
type ES2 = super::c20::ES;

/// Pairs of streams, also with a key that is changed on the way and with given keys
async fn stream_pairs(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let cfg = LinkCfg::random(&mut r, true);
    let (c, s, link) = streams(&mut r, cfg).await?;
    let (u0, d0) = (link.c2s.written(), link.s2c.written());
    let steps = r.range(2, 40);
    let ((mut c, mut sent, mut got), mut s) = exchange(c, s, &mut r, steps).await?;
    let changed = r.chance(500);
    if changed {
        let k = bytes::Bytes::from(r.bytes(32));
        c.update_key(k.clone());
        s.update_key(k);
        let ((c2, b, d), s2) = exchange(c, s, &mut r, 10).await?;
        sent.extend(b);
        got.extend(d);
        drop((c2, s2));
    }
    let (up, down) = (link.c2s.recorded(), link.s2c.recorded());
    let mut st = Streams::default();
    st.dir(0, true, &packages(&up[u0..]), &sent)?;
    st.dir(0, false, &packages(&down[d0..]), &got)?;
    let n = clear(&[&up[u0..], &down[d0..]], &[sent, got].concat(), "data")?;
    shared(&sc, &st);
    sc.count("keystreams compared", st.n);
    sc.count("bytes searched for plaintext", n);
    sc.case(Some(mix(sc.seed, n)), || format!("{} bytes in {} packages, key changed: {}", n, st.n, changed));
    Ok(())
}

/// Many connections between the same two peers
async fn sessions(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let (a, b) = (enc::secret(&mut r), enc::secret(&mut r));
    let ks = enc::keys(&a, &[PublicKey::from(&b)], false);
    let kc = enc::keys(&b, &[PublicKey::from(&a)], false);
    let dh = a.diffie_hellman(&PublicKey::from(&b));
    let mut st = Streams::default();
    let mut keys: Vec<Vec<u8>> = vec![];
    let mut handshakes: HashSet<Vec<u8>> = HashSet::new();
    let mut again = 0;
    const N: usize = 120;
    for i in 0..N {
        let (c, s, link) = pair(LinkCfg { seed: r.next(), ..Default::default() });
        let ks2 = ks.clone();
        let h = tokio::spawn(async move { ES2::from_server_key_exchange(s, &ks2).await.map_err(|e| format!("{:?}", e)) });
        let c = ES2::from_client_key_exchange(c, &kc).await.map_err(|e| Stop::Viol { sig: "handshake".into(), msg: format!("{:?}", e) })?;
        let s = match h.await {
            Ok(Ok(s)) => s,
            x => return viol("handshake", format!("the handshake failed: {:?}", x.map(|y| y.err()))),
        };
        let ((_c, sent, got), _s) = exchange(c, s, &mut r, 6).await?;
        let conn = judge(&sc, &mut st, i, &link, dh.as_bytes(), &sent, &got)?;
        if let Some(k) = conn.key {
            // the keystream of the package with the key
            let down = link.s2c.recorded();
            let p = packages(&down[32..])[0].to_vec();
            let x: Vec<u8> = p.iter().zip(&k).map(|(a, b)| a ^ b).collect();
            if !handshakes.insert(x) {
                again += 1;
            }
            ensure!(!keys.contains(&k), "fresh", "two connections have the same session key");
            keys.push(k);
        }
    }
    if keys.len() == N {
        for p in 0..32 {
            let n = keys.iter().map(|k| k[p]).collect::<HashSet<_>>().len();
            ensure!(n >= 40, "weak", "byte {} of {} session keys has only {} different values", p, N, n);
        }
        for i in 0..N {
            for p in 0..29 {
                ensure!(keys[i][p..p + 4] != keys[(i + 1) % N][p..p + 4], "weak", "session keys of different connections share bytes {} to {}", p, p + 4);
            }
        }
    }
    if again > 0 {
        sc.known("handshake-keystream", format!("the package with the session key has the same keystream in {} connections between the same peers", again + 1));
    }
    shared(&sc, &st);
    sc.count("keystreams compared", st.n);
    sc.count("connections", N as u64);
    sc.case(Some(sc.seed), || format!("{} connections between the same peers, {} session keys recovered and compared", N, keys.len()));
    Ok(())
}

/// More packages than fit in 16 bits, both ways
async fn long(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let (a, b) = (enc::secret(&mut r), enc::secret(&mut r));
    let (ks, kc) = (enc::keys(&a, &[], true), enc::keys(&b, &[], true));
    let (c, s, link) = pair(LinkCfg { seed: r.next(), ..Default::default() });
    let h = tokio::spawn(async move { ES2::from_server_key_exchange(s, &ks).await.map_err(|e| format!("{:?}", e)) });
    let c = ES2::from_client_key_exchange(c, &kc).await.map_err(|e| Stop::Viol { sig: "handshake".into(), msg: format!("{:?}", e) })?;
    let s = match h.await {
        Ok(Ok(s)) => s,
        x => return viol("handshake", format!("the handshake failed: {:?}", x.map(|y| y.err()))),
    };
    let n: u64 = if sc.thorough { 400_000 } else { 80_000 };
    let run = |x: ES2, seed: u64| {
        let (mut rd, mut w) = tokio::io::split(x);
        async move {
            let rj = tokio::spawn(async move {
                let mut b = vec![0; 8];
                for i in 0..n {
                    match rd.read_exact(&mut b).await {
                        Ok(_) => ensure!(b == mix(!seed, i).to_le_bytes(), "content", "package {} arrived changed", i),
                        Err(e) => return viol("stream", format!("reading package {} failed: {:?}", i, e)),
                    }
                }
                Ok(())
            });
            for i in 0..n {
                if let Err(e) = w.write_all(&mix(seed, i).to_le_bytes()).await {
                    return viol("stream", format!("writing package {} failed: {:?}", i, e));
                }
                if let Err(e) = w.flush().await {
                    return viol("stream", format!("writing package {} failed: {:?}", i, e));
                }
                if i % 64 == 0 {
                    tokio::task::yield_now().await
                }
            }
            match rj.await {
                Ok(x) => x,
                Err(e) => viol("panic", format!("{}", e)),
            }
        }
    };
    let seed = r.next();
    let (x, y) = tokio::join!(run(c, seed), run(s, !seed));
    x?;
    y?;
    let (up, down) = (link.c2s.recorded(), link.s2c.recorded());
    let mut st = Streams::default();
    let plain = |seed: u64| (0..n).flat_map(|i| mix(seed, i).to_le_bytes()).collect::<Vec<u8>>();
    st.dir(0, true, &packages(&up[32..]), &plain(seed))?;
    let pd = packages(&down[32..]);
    st.dir(0, false, &pd[1.min(pd.len())..], &plain(!seed))?;
    if st.n < n {
        return Err(Stop::Inconc(format!("{} keystreams of {} packages", st.n, n)));
    }
    shared(&sc, &st);
    sc.count("keystreams compared", st.n);
    sc.case(Some(sc.seed), || format!("{} packages in each direction of one connection", n));
    Ok(())
}

/// Generated secrets
async fn secrets(sc: Arc<Sc>) -> R {
    let n = if sc.thorough { 1_000_000 } else { 100_000 };
    let mut seen: HashSet<[u8; 32]> = HashSet::with_capacity(n);
    let mut vals = vec![HashSet::new(); 32];
    let mut add = |k: [u8; 32]| -> R {
        for i in 0..32 {
            vals[i].insert(k[i]);
        }
        ensure!(k != [0; 32], "weak", "a secret of zeros");
        ensure!(seen.insert(k), "repeated", "a secret was generated twice");
        Ok(())
    };
    // from several threads at once
    let hs: Vec<_> = (0..4)
        .map(|_| std::thread::spawn(move || (0..n / 4).map(|_| bromine::utils::generate_secret().to_bytes()).collect::<Vec<_>>()))
        .collect();
    for h in hs {
        for k in h.join().map_err(|_| Stop::Viol { sig: "panic".into(), msg: "generating secrets panicked".into() })? {
            add(k)?;
        }
    }
    for _ in 0..2000 {
        let o = EncryptionOptions::<SimOpts>::default();
        ensure!(!o.keys.allow_unknown, "default", "unknown peers are allowed by default");
        ensure!(o.keys.known_peers.is_empty(), "default", "the default options know peers");
        add(o.keys.secret.to_bytes())?;
    }
    // default options of several threads at the same time
    let start = Arc::new(std::sync::Barrier::new(8));
    let hs: Vec<_> = (0..8)
        .map(|_| {
            let start = start.clone();
            std::thread::spawn(move || {
                let mut v = vec![];
                for _ in 0..40 {
                    start.wait();
                    v.extend((0..25).map(|_| EncryptionOptions::<SimOpts>::default().keys.secret.to_bytes()));
                }
                v
            })
        })
        .collect();
    for h in hs {
        for k in h.join().map_err(|_| Stop::Viol { sig: "panic".into(), msg: "creating options panicked".into() })? {
            add(k)?;
        }
    }
    let total = seen.len();
    for i in 0..32 {
        // the curve's clamping may fix some bits of the first and the last byte
        let want = if i == 0 || i == 31 { 16 } else { 250 };
        ensure!(vals[i].len() >= want, "weak", "byte {} of {} secrets has only {} different values", i, total, vals[i].len());
    }
    // 12 byte parts are distinct as well, so no part of a secret is derived from a small state
    for o in [0usize, 10, 20] {
        let parts = seen.iter().map(|k| k[o..o + 12].to_vec()).collect::<HashSet<_>>().len();
        ensure!(parts == total, "weak", "only {} different values of bytes {} to {} of {} secrets", parts, o, o + 12, total);
    }
    sc.count("secrets", total as u64);
    sc.case(Some(sc.seed), || format!("{} secrets of 4 threads and of default options", total));
    Ok(())
}
