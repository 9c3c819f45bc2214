//! C23: who gets through the encrypted handshake
use super::c20::ES;
use crate::codec::{Frame, INIT};
use crate::core::*;
use crate::fix::enc::{secret, Enc, EK};
use crate::fix::*;
use crate::rng::*;
use crate::sim::*;
use crate::{boxed, ensure};
use bromine::error::Error;
use bromine::prelude::encrypted::*;
use bromine::prelude::*;
use chacha20poly1305::aead::Aead;
use chacha20poly1305::{ChaCha20Poly1305, Key, KeyInit, Nonce};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use x25519_dalek::{PublicKey, StaticSecret};

pub fn fams() -> Vec<Fam> {
    vec![
        fam("matrix", 6000, 40000, boxed!(matrix)),
        fam("clients", 2500, 40000, boxed!(clients)),
        fam("near_keys", 1020, 10200, boxed!(near_keys)),
        fam("copied_client", 2500, 40000, boxed!(copied_client)),
        fam("copied_server", 2500, 40000, boxed!(copied_server)),
        fam("defaults", 20, 200, boxed!(defaults)),
    ]
}

fn pk(s: &StaticSecret) -> PublicKey {
    PublicKey::from(s)
}
fn inc(m: &str) -> Stop {
    Stop::Inconc(m.to_string())
}

fn o2(n: usize, r: &mut Rng) -> Vec<PublicKey> {
    (0..n).map(|_| PublicKey::from(<[u8; 32]>::try_from(r.bytes(32)).unwrap())).collect()
}

/// A list of known peers with or without the given one
fn list(kind: u64, me: PublicKey, own: PublicKey, r: &mut Rng) -> Vec<PublicKey> {
    let mut o = |n: usize| (0..n).map(|_| pk(&secret(r))).collect::<Vec<_>>();
    match kind {
        0 => vec![],
        1 => o(1),
        2 => vec![me],
        3 => [o(2), vec![me]].concat(),
        4 => [vec![me], o(3)].concat(),
        5 => o(6),
        6 => [o(1), vec![me], o(1), vec![me]].concat(),
        // long lists
        7 => {
            let n = [16, 31, 32, 63, 64, 99, 127][r.idx(7)];
            [o2(n, r), vec![me]].concat()
        }
        8 => {
            let n = [32, 64, 100][r.idx(3)];
            let mut v = o2(n, r);
            let at = r.idx(v.len() + 1);
            v.insert(at, me);
            v
        }
        9 => o2(70, r),
        // the own key is not the peer's
        10 => vec![own],
        // keys that agree with the peer's in parts
        _ => {
            let mut v = vec![];
            for _ in 0..1 + r.idx(8) {
                let (mut b, n) = (me.to_bytes(), 1 + r.idx(30));
                let from = r.idx(32 - n);
                let noise = r.bytes(32);
                if r.chance(500) {
                    (from..from + n).for_each(|i| b[i] = noise[i]);
                } else {
                    (0..32).filter(|i| *i < from || *i >= from + n).for_each(|i| b[i] = noise[i]);
                }
                if PublicKey::from(b) != me {
                    v.push(PublicKey::from(b));
                }
            }
            v
        }
    }
}

/// Which error a refusing side has to report
fn refusal(x: &Result<ES, Error>, peer: &PublicKey, who: &str, d: &str) -> R {
    match x {
        Err(Error::UnknownPeer(k)) => {
            ensure!(k == peer, "error", "{}: the {} reports another peer as unknown than the one that connected", d, who);
            Ok(())
        }
        Err(e) => viol("error", format!("{}: the {} refused an unlisted peer with {:?} instead of an unknown-peer error", d, who, e)),
        Ok(_) => viol("unlisted", format!("{}: the {} accepted a peer that is not listed", d, who)),
    }
}

async fn transfer(a: &mut (impl AsyncWriteExt + Unpin), b: &mut (impl AsyncReadExt + Unpin), data: &[u8], d: &str) -> R {
    let mut buf = vec![0; data.len()];
    let (x, y) = tokio::join!(
        tokio::time::timeout(secs(3000), async {
            a.write_all(data).await?;
            a.flush().await
        }),
        tokio::time::timeout(secs(3000), b.read_exact(&mut buf))
    );
    ensure!(matches!(x, Ok(Ok(()))) && matches!(y, Ok(Ok(_))) && buf == data, "works", "{}: data did not get through an accepted connection: {:?} {:?}", d, x, y.map(|z| z.map(|_| ())));
    Ok(())
}

/// All combinations of lists and settings
async fn matrix(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let a = secret(&mut r);
    // both sides may have the same key
    let same = r.chance(100);
    let b = if same { a.clone() } else { secret(&mut r) };
    let i = sc.idx % 576;
    let (ls, lc, al_s, al_c) = (i % 12, i / 12 % 12, i / 144 % 2 == 1, i / 288 == 1);
    let ks = enc::keys(&a, &list(ls, pk(&b), pk(&a), &mut r), al_s);
    let kc = enc::keys(&b, &list(lc, pk(&a), pk(&b), &mut r), al_c);
    let s_ok = al_s || ks.known_peers.contains(&pk(&b));
    let c_ok = al_c || kc.known_peers.contains(&pk(&a));
    let d = format!("server list {} allow {}, client list {} allow {}, the same key: {}", ls, al_s, lc, al_c, same);
    let cfg = if sc.idx < 576 { LinkCfg::default() } else { LinkCfg::random(&mut r, true) };
    let (c, s, _link) = pair(cfg);
    let kb = kc.clone();
    let (x, y) = tokio::join!(
        async {
            let s = tokio::time::timeout(secs(3000), ES::from_server_key_exchange(s, &ks)).await;
            // a refused connection is dropped
            s
        },
        tokio::time::timeout(secs(3000), ES::from_client_key_exchange(c, &kb))
    );
    let (x, y) = match (x, y) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return viol("hang", format!("{}: the handshake did not end", d)),
    };
    match (s_ok, c_ok) {
        (true, true) => match (x, y) {
            (Ok(mut s), Ok(mut c)) => {
                let m = r.bytes(300);
                transfer(&mut c, &mut s, &m, &d).await?;
                transfer(&mut s, &mut c, &m, &d).await?;
            }
            (x, y) => return viol("works", format!("{}: peers that know each other could not connect: {:?} {:?}", d, x.err(), y.err())),
        },
        (false, _) => {
            refusal(&x, &pk(&b), "server", &d)?;
            ensure!(y.is_err(), "refused", "{}: the client completed the handshake with a server that refused it", d);
        }
        (true, false) => {
            refusal(&y, &pk(&a), "client", &d)?;
            // the server finds out at once or when reading
            if let Ok(mut s) = x {
                let mut b = [0; 10];
                let z = tokio::time::timeout(secs(100), s.read(&mut b)).await;
                ensure!(!matches!(z, Ok(Ok(n)) if n > 0), "refused", "{}: the server got data of a client that refused it", d);
            }
        }
    }
    sc.count(if s_ok && c_ok { "accepted" } else { "refused" }, 1);
    sc.case(Some(mix(i, sc.seed)), || d);
    Ok(())
}

fn options(net: &Net<Enc>, k: &Keys) -> EncryptionOptions<SimOpts> {
    Enc::copts(SimOpts::new(LinkCfg::default(), &net.links), &EK { s: net.keys.s.clone(), c: k.clone() })
}

type Runs = Arc<Mutex<HashMap<u64, u32>>>;

fn counting(runs: &Runs) -> impl for<'a> Fn(&'a Ctx, bromine::event::Event) -> HFut<'a> + Send + Sync + 'static {
    let runs = runs.clone();
    hnd(move |ctx, e| {
        let runs = runs.clone();
        Box::pin(async move {
            let p = e.payload::<BytePayload>()?.into_inner();
            *runs.lock().unwrap().entry(token_of(&p).unwrap_or(0)).or_insert(0) += 1;
            Response::payload(ctx, bp(p))
        })
    })
}

/// Several clients with different keys and one server
async fn clients(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let mut net = Net::<Enc>::new(&mut r);
    let server = secret(&mut r);
    let n = r.range(2, 7) as usize;
    let secrets: Vec<StaticSecret> = (0..n).map(|_| secret(&mut r)).collect();
    let listed: Vec<bool> = (0..n).map(|_| r.chance(500)).collect();
    let mut known: Vec<PublicKey> = secrets.iter().zip(&listed).filter(|x| *x.1).map(|x| pk(x.0)).collect();
    r.shuffle(&mut known);
    let allow = r.chance(200);
    net.keys = EK { s: enc::keys(&server, &known, allow), c: enc::keys(&server, &[], false) };
    let runs: Runs = Default::default();
    let _srv = net.serve(net.builder().on("a", counting(&runs))).await;
    let mut hs = vec![];
    for i in 0..n {
        let trusts = r.chance(700);
        let all = r.chance(200);
        let others = [pk(&secret(&mut r)), pk(&secrets[(i + 1) % n])];
        let mut l = others.to_vec();
        if trusts {
            l.insert(r.idx(3), pk(&server));
        }
        let k = enc::keys(&secrets[i], &l, all);
        let s_ok = allow || listed[i];
        let c_ok = all || trusts;
        let o = options(&net, &k);
        let b = net.builder().timeout(secs(50)).client_options(o);
        let pool = if r.chance(300) { r.range(1, 4) as usize } else { 0 };
        let tok = r.next();
        let serverpk = pk(&server);
        let delay = r.range(0, 3000);
        hs.push(tokio::spawn(async move {
            sleep(us(delay)).await;
            let d = format!("client {}: listed {}, trusts {}, pool {}", i, s_ok, c_ok, pool);
            let e: Option<Error>;
            let mut ok = false;
            if pool > 0 {
                match tokio::time::timeout(secs(1000), b.build_pooled_client(pool)).await {
                    Ok(Ok(p)) => {
                        e = None;
                        for _ in 0..3 {
                            let c = p.acquire();
                            ok = c.emit("a", bp(token_payload(tok, 20))).await_reply().await.is_ok();
                        }
                    }
                    Ok(Err(x)) => e = Some(x),
                    Err(_) => return viol("hang", format!("{}: connecting did not end", d)),
                }
            } else {
                match tokio::time::timeout(secs(1000), b.build_client()).await {
                    Ok(Ok(c)) => {
                        e = None;
                        for _ in 0..3 {
                            ok = c.emit("a", bp(token_payload(tok, 20))).await_reply().await.is_ok();
                        }
                    }
                    Ok(Err(x)) => e = Some(x),
                    Err(_) => return viol("hang", format!("{}: connecting did not end", d)),
                }
            }
            match (s_ok, c_ok) {
                (true, true) => ensure!(ok, "works", "{}: the connection does not work: {:?}", d, e),
                (true, false) => ensure!(matches!(&e, Some(Error::UnknownPeer(k)) if *k == serverpk), "error", "{}: connecting to an unlisted server gave {:?}", d, e.map(|e| format!("{:?}", e)).unwrap_or("a client".into())),
                (false, _) => ensure!(e.is_some(), "refused", "{}: connecting to a server that refuses the client worked", d),
            }
            Ok((tok, if s_ok && c_ok { 3u32 } else { 0 }, d))
        }));
    }
    let mut ds = vec![];
    for h in hs {
        match h.await {
            Ok(x) => {
                let (tok, want, d) = x?;
                let n = runs.lock().unwrap().get(&tok).copied().unwrap_or(0);
                ensure!(n == want, "handled", "{}: {} events were handled instead of {}", d, n, want);
                ds.push(d);
                sc.count(if want > 0 { "accepted" } else { "refused" }, 1);
            }
            Err(_) => return viol("panic", "a client panicked"),
        }
    }
    sc.case(Some(sc.seed), || format!("unknown peers allowed by the server: {}; {}", allow, ds.join("; ")));
    Ok(())
}

/// A key that differs from a listed one in one bit is not listed
async fn near_keys(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    // the highest bit has no meaning
    let bit = (sc.idx % 255) as usize;
    let (a, b) = (secret(&mut r), secret(&mut r));
    let mut near = pk(&b).to_bytes();
    near[bit / 8] ^= 1 << (bit % 8);
    let others: Vec<PublicKey> = (0..r.idx(3)).map(|_| pk(&secret(&mut r))).collect();
    let keys = enc::keys(&a, &[others, vec![pk(&b)]].concat(), false);
    let (mut m, s, _link) = pair(LinkCfg { seed: r.next(), ..Default::default() });
    let d = format!("bit {} of a listed key changed", bit);
    let k2 = keys.clone();
    let h = tokio::spawn(async move { ES::from_server_key_exchange(s, &k2).await });
    m.write_all(&near).await.map_err(|_| inc("write"))?;
    match tokio::time::timeout(secs(100), h).await {
        Ok(Ok(x)) => refusal(&x, &PublicKey::from(near), "server", &d)?,
        _ => return viol("hang", format!("{}: the handshake did not end", d)),
    }
    let (c, mut m, _link) = pair(LinkCfg { seed: r.next(), ..Default::default() });
    let h = tokio::spawn(async move { ES::from_client_key_exchange(c, &keys).await });
    m.write_all(&near).await.map_err(|_| inc("write"))?;
    match tokio::time::timeout(secs(100), h).await {
        Ok(Ok(x)) => refusal(&x, &PublicKey::from(near), "client", &d)?,
        _ => return viol("hang", format!("{}: the handshake did not end", d)),
    }
    sc.count("refused", 2);
    sc.case(Some(mix(sc.seed, bit as u64)), || d);
    Ok(())
}

/// A package as somebody with the given key would send it
fn sealed(key: &[u8], nonce: u64, data: &[u8]) -> Vec<u8> {
    let n = nonce.to_be_bytes().repeat(2);
    let c = ChaCha20Poly1305::new(Key::from_slice(key)).encrypt(Nonce::from_slice(&n[..12]), data).unwrap();
    [&(c.len() as u32).to_be_bytes()[..], &c].concat()
}

/// Keys that somebody without the right secret could think of
fn guess(r: &mut Rng, own: &StaticSecret, a: &PublicKey, b: &PublicKey) -> (String, Vec<u8>) {
    match r.below(8) {
        0 => ("zeros".into(), vec![0; 32]),
        1 => ("the own shared secret with the victim".into(), own.diffie_hellman(a).as_bytes().to_vec()),
        2 => ("the own shared secret with the copied peer".into(), own.diffie_hellman(b).as_bytes().to_vec()),
        3 => ("the victim's public key".into(), a.to_bytes().to_vec()),
        4 => ("the copied public key".into(), b.to_bytes().to_vec()),
        5 => ("both keys combined".into(), a.to_bytes().iter().zip(b.to_bytes()).map(|(x, y)| x ^ y).collect()),
        6 => ("ones".into(), vec![0xff; 32]),
        _ => ("a random key".into(), r.bytes(32)),
    }
}

/// Clients that copy a listed public key without its secret
async fn copied_client(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let mut net = Net::<Enc>::new(&mut r);
    let (server, client) = (secret(&mut r), secret(&mut r));
    net.keys = EK { s: enc::keys(&server, &[pk(&client)], false), c: enc::keys(&client, &[pk(&server)], false) };
    let runs: Runs = Default::default();
    let _srv = net.serve(net.builder().on("a", counting(&runs))).await;
    let good = net.client(net.builder(), &LinkCfg::default()).await?;
    let tok = r.next();
    let mut ds = vec![];
    let mut bad_runs = vec![];
    for _ in 0..r.range(1, 4) {
        let own = secret(&mut r);
        let mut s = connect(net.addr, &SimOpts::new(LinkCfg::default(), &net.links)).await.map_err(|e| inc(&format!("{:?}", e)))?;
        let _ = s.write_all(pk(&client).as_bytes()).await;
        let mut down = vec![0; 84];
        let got = matches!(tokio::time::timeout(secs(20), s.read_exact(&mut down)).await, Ok(Ok(_)));
        let evil = r.next();
        bad_runs.push(evil);
        let ev = Frame::new(INIT, 0, None, None, "a", token_payload(evil, 30)).encode();
        let (what, key) = guess(&mut r, &own, &pk(&server), &pk(&client));
        let mut out = vec![];
        let kind = r.below(6);
        match kind {
            0 => out.extend(sealed(&key, 0, &ev)),
            1 => (0..5).for_each(|i| out.extend(sealed(&key, i, &ev))),
            2 => {
                // in clear
                out.extend(&(ev.len() as u32).to_be_bytes());
                out.extend(&ev);
            }
            3 => out.extend(&ev),
            4 if got => {
                // what the server sent
                out.extend(&down[32..]);
                out.extend(sealed(&key, 1, &ev));
            }
            _ => {
                // with the length of a valid package
                out.extend(((ev.len() + 16) as u32).to_be_bytes());
                out.extend(&ev);
                out.extend([0; 16]);
            }
        }
        let _ = s.write_all(&out).await;
        let _ = s.flush().await;
        ds.push(format!("{} (kind {})", what, kind));
        if r.chance(500) {
            sleep(secs(5)).await;
        }
        sc.count("copied keys", 1);
    }
    sleep(secs(20)).await;
    for e in &bad_runs {
        ensure!(!runs.lock().unwrap().contains_key(e), "impostor", "an event of a client with a copied key was handled ({})", ds.join(", "));
    }
    let n: u32 = runs.lock().unwrap().values().sum();
    ensure!(n == 0, "impostor", "{} events were handled although nobody sent any ({})", n, ds.join(", "));
    let x = good.emit("a", bp(token_payload(tok, 20))).await_reply().await;
    ensure!(x.is_ok(), "works", "the real client is not served after impostors: {:?}", x.err());
    let late = net.client(net.builder(), &LinkCfg::default()).await?;
    let x = late.emit("a", bp(token_payload(tok, 20))).await_reply().await;
    ensure!(x.is_ok(), "works", "the real client is not served after impostors: {:?}", x.err());
    sc.case(Some(sc.seed), || ds.join(", "));
    Ok(())
}

/// Servers that copy a listed public key without its secret
async fn copied_server(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let (server, client, own) = (secret(&mut r), secret(&mut r), secret(&mut r));
    let net = Net::<Enc>::new(&mut r);
    let keys = enc::keys(&client, &[pk(&secret(&mut r)), pk(&server)], false);
    let l = SimListener::bind(net.addr).map_err(|e| inc(&format!("{:?}", e)))?;
    let evil = r.next();
    let ev = Frame::new(INIT, 0, None, None, "a", token_payload(evil, 30)).encode();
    let (what, dh) = guess(&mut r, &own, &pk(&client), &pk(&server));
    let session = r.bytes(32);
    let listed = r.chance(850);
    let shown = if listed { pk(&server) } else { pk(&own) };
    let kind = r.below(5);
    let mut out = shown.to_bytes().to_vec();
    let nonce = if r.chance(800) { 0 } else { r.below(3) };
    match kind {
        0 | 1 => out.extend(sealed(&dh, nonce, &session)),
        2 => {
            out.extend(48u32.to_be_bytes());
            out.extend(r.bytes(48));
        }
        3 => {
            // the key in clear
            out.extend(32u32.to_be_bytes());
            out.extend(&session);
        }
        _ => out.extend(&session),
    }
    let mut after = vec![];
    for i in 0..3 {
        after.extend(sealed(&session, i, &ev));
    }
    after.extend(sealed(&dh, 0, &ev));
    after.extend(sealed(&dh, 1, &ev));
    let o2 = out.clone();
    let acc = tokio::spawn(async move {
        let mut keep = vec![];
        while let Ok(mut s) = l.accept().await {
            let mut b = [0; 32];
            let _ = s.read_exact(&mut b).await;
            let _ = s.write_all(&o2).await;
            let _ = s.write_all(&after).await;
            let _ = s.flush().await;
            let _ = s.w.shutdown().await;
            keep.push(s);
        }
    });
    let runs: Runs = Default::default();
    let d = format!("listed {}, key {}, kind {}, nonce {}", listed, what, kind, nonce);
    let b = net.builder().on("a", counting(&runs)).timeout(secs(10)).client_options(options(&net, &keys));
    let x = match tokio::time::timeout(secs(500), b.build_client()).await {
        Ok(x) => x,
        Err(_) => return viol("hang", format!("{}: connecting to an impostor did not end", d)),
    };
    sleep(secs(5)).await;
    let n: u32 = runs.lock().unwrap().values().sum();
    ensure!(n == 0, "impostor", "{}: {} events of an impostor were handled", d, n);
    match x {
        Ok(_) => return viol("impostor", format!("{}: connecting to an impostor worked", d)),
        Err(Error::UnknownPeer(k)) if !listed => ensure!(k == pk(&own), "error", "{}: another key is reported", d),
        Err(e) => ensure!(listed, "error", "{}: an unlisted server was refused with {:?} instead of an unknown-peer error", d, e),
    }
    acc.abort();
    sc.count("impostors", 1);
    sc.case(Some(mix(sc.seed, kind)), || d);
    Ok(())
}

/// Options as they are by default refuse everybody
async fn defaults(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let o = EncryptionOptions::<SimOpts>::default();
    let other = secret(&mut r);
    let own = pk(&o.keys.secret);
    let (c, s, _l) = pair(LinkCfg::default());
    let kc = enc::keys(&other, &[own], false);
    let (x, y) = tokio::join!(
        tokio::time::timeout(secs(500), ES::from_server_key_exchange(s, &o.keys)),
        tokio::time::timeout(secs(500), ES::from_client_key_exchange(c, &kc))
    );
    match (x, y) {
        (Ok(x), Ok(y)) => {
            refusal(&x, &pk(&other), "server with default options", "defaults")?;
            ensure!(y.is_err(), "refused", "a client completed the handshake with a server that refused it");
        }
        _ => return viol("hang", "the handshake did not end"),
    }
    let (c, s, _l) = pair(LinkCfg::default());
    let ks = enc::keys(&other, &[own], false);
    let (x, y) = tokio::join!(
        tokio::time::timeout(secs(500), ES::from_server_key_exchange(s, &ks)),
        tokio::time::timeout(secs(500), ES::from_client_key_exchange(c, &o.keys))
    );
    match (x, y) {
        (Ok(_), Ok(y)) => refusal(&y, &pk(&other), "client with default options", "defaults")?,
        _ => return viol("hang", "the handshake did not end"),
    }
    sc.count("refused", 2);
    sc.case(Some(sc.seed), || "a server and a client with default options".into());
    Ok(())
}
