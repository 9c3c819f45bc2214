//! C02: frame layout and compatibility, against an independent implementation of the format
use super::c01::{some_event, Chunked};
use crate::codec::{self, Frame};
use crate::core::*;
use crate::fix::*;
use crate::rng::*;
use crate::sim::*;
use crate::{boxed, both, ensure};
use bromine::event::Event;
use bromine::prelude::*;
use std::sync::{Arc, Mutex};

pub fn fams() -> Vec<Fam> {
    vec![
        fam("encode", 160, 3000, boxed!(encode)),
        fam("decode", 160, 3000, boxed!(decode)),
        fam("refuse", 48, 800, boxed!(refuse)),
        fam("refuse_all", 1, 1, boxed!(refuse_all)),
        fam("live_sent", 80, 1500, boxed!(live_sent)),
        fam("live_received", 80, 1500, boxed!(live_received)),
    ]
}

async fn encode(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    for _ in 0..40 {
        let (e, w) = some_event(&mut r, 3000);
        let b = match e.into_bytes() {
            Ok(b) => b,
            Err(e) => return viol("encode-refused", format!("{:?}", e)),
        };
        let f = Frame::new(evt_ty(w.ty), w.id, w.ref_id, w.ns.as_deref(), &w.name, w.data.clone());
        let want = f.encode();
        if b[..] != want[..] {
            let at = b.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(b.len().min(want.len()));
            return viol("layout", format!("the encoding of {} differs from the documented layout at byte {} ({} instead of {} bytes)", f.short(), at, b.len(), want.len()));
        }
        sc.case(Some(hash_bytes(&f.header())), || f.short());
    }
    Ok(())
}

fn some_frame(r: &mut Rng) -> Frame {
    let ty = r.below(4) as u8;
    let mut f = Frame::new(
        ty,
        *r.pick(&[0, 1, u64::MAX, 0x0102030405060708, 1 << 63]),
        None,
        None,
        "",
        vec![],
    );
    if r.chance(600) {
        f.id = r.next();
    }
    // any type with or without a reference
    if r.chance(600) {
        f.ref_id = Some(if r.chance(700) { r.next() } else { *r.pick(&[0, u64::MAX, 255]) });
    }
    f.version[1] = if r.chance(400) { r.next() as u8 } else { 9 };
    f.version[2] = if r.chance(400) { r.next() as u8 } else { 0 };
    let max_extra = match r.below(6) {
        0 => 1,
        1 => 40,
        2 => 3000,
        _ => 0,
    };
    if max_extra > 0 {
        let n = 1 + r.idx(max_extra);
        f.extra = if r.chance(300) { vec![0xFF; n] } else { r.bytes(n) };
    }
    let room = 65535 - 25 - f.extra.len();
    let ns = super::c01::some_len(r, room);
    let name = super::c01::some_len(r, room - ns);
    if r.chance(700) && ns > 0 {
        f.ns = Some(r.string(ns));
    }
    f.name = r.string(name);
    let n = r.len(5000);
    f.data = r.bytes(n);
    f
}

fn same(e: &Event, f: &Frame) -> R {
    ensure!(e.id() == f.id, "accepted-id", "{}: id {:x}", f.short(), e.id());
    ensure!(evt_ty(e.event_type()) == f.ty, "accepted-type", "{}: type {:?}", f.short(), e.event_type());
    ensure!(e.reference_id() == f.ref_id, "accepted-ref", "{}: reference {:?}", f.short(), e.reference_id());
    ensure!(*e.namespace() == f.ns, "accepted-namespace", "{}: namespace {:?}", f.short(), e.namespace().as_ref().map(|n| n.len()));
    ensure!(e.name() == f.name, "accepted-name", "{}: name of {} bytes", f.short(), e.name().len());
    ensure!(e.data_raw() == &f.data[..], "accepted-data", "{}: payload of {} bytes", f.short(), e.data_raw().len());
    Ok(())
}

async fn decode(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    for _ in 0..25 {
        let n = 1 + r.idx(4);
        let fs: Vec<Frame> = (0..n).map(|_| some_frame(&mut r)).collect();
        let bytes: Vec<u8> = fs.iter().flat_map(|f| f.encode()).collect();
        let total = bytes.len();
        let mut rd = Chunked::new(bytes, &mut r);
        for f in &fs {
            let e = match Event::from_async_read(&mut rd).await {
                Ok(e) => e,
                Err(e) => return viol("refused", format!("a valid frame was refused: {} version {:?} extra header {} B: {:?}", f.short(), f.version, f.extra.len(), e)),
            };
            same(&e, f)?;
            sc.case(Some(hash_bytes(&f.header())), || format!("{} version {:?} extra header {} B", f.short(), f.version, f.extra.len()));
        }
        ensure!(rd.pos == total, "consumed", "{} of {} bytes consumed", rd.pos, total);
    }
    Ok(())
}

/// A frame that is not valid, and why
pub fn bad_frame(r: &mut Rng) -> (Vec<u8>, String) {
    let mut f = Frame::new(r.below(4) as u8, r.next(), if r.chance(500) { Some(r.next()) } else { None }, None, "", vec![]);
    if r.chance(500) {
        let n = 1 + r.idx(20);
        f.ns = Some(r.string(n));
    }
    let n = r.idx(20);
    f.name = r.string(n);
    // enough payload that a decoder that looks beyond the header finds something plausible
    let n = r.idx(200);
    f.data = if r.chance(500) { vec![0; n] } else { r.bytes(n) };
    let h = f.header();
    let total = (h.len() + f.data.len()) as u64;
    match r.below(6) {
        0 => {
            let v = r.range(1, 255) as u8;
            f.version[0] = v;
            (f.encode(), format!("major version {}", v))
        }
        1 => {
            let t = r.range(4, 255) as u8;
            f.ty = t;
            (f.encode(), format!("event type {}", t))
        }
        2 => {
            let v = r.range(1, 254) as u8;
            let mut h = h;
            h[12] = v;
            // with and without room for a reference
            if f.ref_id.is_none() && r.chance(500) {
                let tail = h.split_off(13);
                h.extend_from_slice(&[0; 8]);
                h.extend(tail);
            }
            let t = (h.len() + f.data.len()) as u64;
            (codec::assemble(t, h.len() as u16, &h, &f.data), format!("reference indicator {:#x}", v))
        }
        3 => {
            let bad: &[&[u8]] = &[&[0xff], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xc3], &[b'a', 0x80], &[0xf4, 0x90, 0x80, 0x80]];
            let b = *r.pick(bad);
            let ns = r.chance(500);
            let mut h = f.header();
            let base = if f.ref_id.is_some() { 21 } else { 13 };
            h.truncate(base);
            if ns {
                h.extend_from_slice(&(b.len() as u16).to_be_bytes());
                h.extend_from_slice(b);
                h.extend_from_slice(&[0, 1, b'x']);
            } else {
                h.extend_from_slice(&[0, 1, b'x']);
                h.extend_from_slice(&(b.len() as u16).to_be_bytes());
                h.extend_from_slice(b);
            }
            let t = (h.len() + f.data.len()) as u64;
            (codec::assemble(t, h.len() as u16, &h, &f.data), format!("{} with the bytes {:?}", if ns { "namespace" } else { "name" }, b))
        }
        4 => {
            let cut = r.idx(h.len());
            if r.chance(500) {
                // the rest of the header is there, but counted as payload
                (codec::assemble(total, cut as u16, &h, &f.data), format!("header length {} instead of {}", cut, h.len()))
            } else {
                let t = (cut + f.data.len()) as u64;
                (codec::assemble(t, cut as u16, &h[..cut], &f.data), format!("header cut off after {} of {} bytes", cut, h.len()))
            }
        }
        _ => {
            let t = r.below(h.len() as u64);
            (codec::assemble(t, h.len() as u16, &h, &f.data), format!("total length {} below the header length {}", t, h.len()))
        }
    }
}

async fn refuse(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    for _ in 0..200 {
        let (b, why) = bad_frame(&mut r);
        let h = hash_bytes(&b);
        let mut rd = Chunked::new(b, &mut r);
        if let Ok(e) = Event::from_async_read(&mut rd).await {
            return viol("accepted-invalid", format!("a frame with {} was accepted as {:?}", why, e));
        }
        sc.case(Some(h), || why.clone());
    }
    Ok(())
}

/// Every value of each single-byte field
async fn refuse_all(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let base = Frame::new(1, 77, Some(5), Some("ns"), "name", vec![1, 2, 3]);
    let fields: [(usize, &str); 5] = [(10, "major version"), (11, "minor version"), (12, "patch version"), (21, "event type"), (22, "reference indicator")];
    for (pos, what) in fields {
        for v in 0..=255u8 {
            let mut b = base.encode();
            b[pos] = v;
            let ok = match pos {
                10 => v == 0,
                11 | 12 => true,
                21 => v < 4,
                _ => v == 0xFF || v == 0,
            };
            if pos == 22 && v == 0 {
                // the following bytes are then read as lengths, which is decided elsewhere
                continue;
            }
            let mut rd = Chunked::new(b, &mut r);
            let res = Event::from_async_read(&mut rd).await;
            ensure!(res.is_ok() == ok, "field-value", "{} {} was {}", what, v, if ok { "refused" } else { "accepted" });
            if let Ok(e) = res {
                let mut f = base.clone();
                if pos == 21 {
                    f.ty = v;
                }
                same(&e, &f)?;
            }
            sc.case(Some(pos as u64 * 256 + v as u64), || format!("{} = {}", what, v));
        }
    }
    Ok(())
}

both!(live_sent, live_sent_);
/// What a client and a server put on the wire, byte for byte
async fn live_sent_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let cfg = LinkCfg::random(&mut r, true);
    // client -> raw server
    let (ctx, raw) = net.raw_server(net.builder(), &cfg).await?;
    let mut want = vec![];
    for _ in 0..8 {
        let n = r.idx(30);
        let name = r.string(n);
        let k = r.idx(30);
        let ns = if r.chance(500) { Some(r.string(k)) } else { None };
        let n = r.len(4000);
        let data = r.bytes(n);
        let res = match &ns {
            Some(ns) => ctx.emit_to(ns, &name, bp(data.clone())).await,
            None => ctx.emit(&name, bp(data.clone())).await,
        };
        let id = match res {
            Ok(i) => i,
            Err(e) => return viol("emit-failed", format!("{:?}", e)),
        };
        want.push(Frame::new(codec::INIT, id, None, ns.as_deref().filter(|n| !n.is_empty()), &name, data));
    }
    let n = want.len();
    raw.wait_n(n, secs(100)).await;
    compare_frames(&sc, &raw, &want)?;
    if !T::ENC {
        let rec = net.link(0).c2s.recorded();
        let bytes: Vec<u8> = want.iter().flat_map(|f| f.encode()).collect();
        ensure!(rec == bytes, "wire-bytes", "the bytes written by the client are not the documented encoding ({} instead of {} bytes)", rec.len(), bytes.len());
    }
    // replies of handlers
    let net = Net::<T>::new(&mut r);
    let sent: Arc<Mutex<Vec<Frame>>> = Default::default();
    let s2 = sent.clone();
    let seed = r.next();
    let b = net.builder().on("go", move |ctx: &Ctx, ev: Event| {
        let s = s2.clone();
        Box::pin(async move {
            let mut r = Rng::new(seed ^ ev.data_raw().len() as u64);
            for _ in 0..r.below(4) {
                let n = r.idx(20);
                let name = r.string(n);
                let ns = if r.chance(500) { Some(r.string(1 + n)) } else { None };
                let d = r.bytes(n * 7);
                let id = match &ns {
                    Some(ns) => ctx.emit_to(ns, &name, bp(d.clone())).await?,
                    None => ctx.emit(&name, bp(d.clone())).await?,
                };
                s.lock().unwrap().push(Frame::new(codec::RESP, id, Some(ev.id()), ns.as_deref(), &name, d));
            }
            let n = r.idx(50);
            let d = r.bytes(n);
            if r.chance(300) {
                s.lock().unwrap().push(Frame::new(codec::ERR, 0, Some(ev.id()), None, "error", vec![]));
                return Err(bromine::error::Error::from("failed"));
            }
            s.lock().unwrap().push(Frame::new(codec::END, 0, Some(ev.id()), None, "end", d.clone()));
            Response::payload(ctx, bp(d))
        }) as HFut
    });
    let _srv = net.serve(b).await;
    let raw = net.raw_client(&cfg).await?;
    for i in 0..4u64 {
        raw.frame(&Frame::new(codec::INIT, 1000 + i, None, None, "go", vec![0; i as usize])).await.ok();
        let before = raw.n();
        raw.until(secs(100), |f| f[before..].iter().any(|f| f.0.ty >= codec::END)).await;
    }
    let mut want = sent.lock().unwrap().clone();
    let got = raw.frames();
    // the ids of the final events are the library's choice, the message of an error too
    for (w, g) in want.iter_mut().zip(got.iter()) {
        if w.ty >= codec::END {
            w.id = g.id;
        }
        if w.ty == codec::ERR {
            ensure!(parse_err(&g.data).is_some(), "error-layout", "the payload of an error event is malformed: {:?}", g.data);
            w.data = g.data.clone();
        }
    }
    compare_frames(&sc, &raw, &want)?;
    if !T::ENC {
        let rec = net.link(0).s2c.recorded();
        let bytes: Vec<u8> = want.iter().flat_map(|f| f.encode()).collect();
        ensure!(rec == bytes, "wire-bytes", "the bytes written by the server are not the documented encoding ({} instead of {} bytes)", rec.len(), bytes.len());
    }
    Ok(())
}

fn compare_frames(sc: &Sc, raw: &Raw, want: &[Frame]) -> R {
    if let Some(b) = raw.bad() {
        return viol("malformed-sent", b);
    }
    let got = raw.frames();
    for (i, w) in want.iter().enumerate() {
        ensure!(i < got.len(), "missing-frame", "only {} of {} frames were sent ({} bytes of a further one)", got.len(), want.len(), raw.partial());
        ensure!(got[i] == *w, "frame-differs", "frame {} is {} instead of {}", i, got[i].short(), w.short());
        sc.case(Some(hash_bytes(&w.encode())), || w.short());
    }
    ensure!(got.len() == want.len(), "extra-frame", "an unexpected frame was sent: {}", got[want.len()].short());
    Ok(())
}

both!(live_received, live_received_);
/// Frames of another implementation on a live connection
async fn live_received_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let seen: Arc<Mutex<Vec<Frame>>> = Default::default();
    let s2 = seen.clone();
    let b = net.builder().on("a", move |_: &Ctx, e: Event| {
        let s = s2.clone();
        Box::pin(async move {
            s.lock().unwrap().push(Frame::new(evt_ty(e.event_type()), e.id(), e.reference_id(), e.namespace().as_deref(), e.name(), e.data_raw().to_vec()));
            Ok(Response::empty())
        }) as HFut
    });
    let _srv = net.serve(b).await;
    let raw = net.raw_client(&LinkCfg::random(&mut r, true)).await?;
    let mut bytes = vec![];
    let mut want = vec![];
    let n = 1 + r.idx(10);
    for i in 0..n {
        let mut f = some_frame(&mut r);
        f.id = i as u64 + 1;
        f.ns = None;
        f.name = "a".into();
        if f.ty == codec::END {
            f.ty = codec::RESP;
        }
        bytes.extend(f.encode());
        f.version = [0, 9, 0];
        f.extra.clear();
        want.push(f);
    }
    let _ = raw.send_chunked(&bytes, &mut r).await;
    let ok = raw.wait_n(n, secs(100)).await;
    ensure!(ok, "not-answered", "{} of {} valid frames were answered, closed {:?}", raw.n(), n, raw.closed());
    let mut got = seen.lock().unwrap().clone();
    got.sort_by_key(|f| f.id);
    for (w, g) in want.iter().zip(got.iter()) {
        ensure!(w == g, "received-differs", "{} was handled as {}", w.short(), g.short());
        sc.case(Some(hash_bytes(&w.encode())), || w.short());
    }
    ensure!(got.len() == want.len(), "received-count", "{} of {} frames were handled", got.len(), want.len());
    // and a malformed one closes the connection
    let (b, why) = bad_frame(&mut r);
    let _ = raw.send(&b).await;
    let _ = raw.frame(&Frame::new(codec::INIT, 99, None, None, "a", vec![])).await;
    let closed = raw.wait_closed(secs(100)).await;
    ensure!(closed, "kept-open", "the connection stays open after a frame with {}", why);
    ensure!(seen.lock().unwrap().len() == n, "handled-after", "an event after a frame with {} was handled", why);
    Ok(())
}
