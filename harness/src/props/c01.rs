//! C01: encoding and decoding
use crate::core::*;
use crate::fix::evt_ty;
use crate::rng::*;
use crate::{boxed, ensure};
use bromine::bytes::Bytes;
use bromine::event::{Event, EventType};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, ReadBuf};

pub fn fams() -> Vec<Fam> {
    vec![
        fam("roundtrip", 260, 4000, boxed!(roundtrip)),
        fam("limits", 24, 200, boxed!(limits)),
        fam("large", 8, 60, boxed!(large)),
        fam("aligned", 24, 300, boxed!(aligned)),
    ]
}

/// Delivers bytes in random pieces, sometimes pending first; counts what was taken
pub struct Chunked {
    pub data: Vec<u8>,
    pub pos: usize,
    pub max: usize,
    pub pend: u32,
    pub r: Rng,
    pub chunks: u64,
}
impl Chunked {
    pub fn new(data: Vec<u8>, r: &mut Rng) -> Self {
        let max = *r.pick(&[1usize, 2, 3, 7, 64, 1000, 70000, usize::MAX]);
        // a byte at a time only for data where that is quick
        let max = if data.len() > 200_000 { max.max(1000) } else { max };
        let pend = *r.pick(&[0, 0, 100, 500]);
        Chunked { data, pos: 0, max, pend, r: r.fork(), chunks: 0 }
    }
}
impl AsyncRead for Chunked {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let me = &mut *self;
        if me.r.chance(me.pend) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let left = me.data.len() - me.pos;
        let max = if me.max == usize::MAX { left.max(1) } else { 1 + me.r.idx(me.max) };
        let n = left.min(buf.remaining()).min(max);
        buf.put_slice(&me.data[me.pos..me.pos + n]);
        me.pos += n;
        me.chunks += 1;
        Poll::Ready(Ok(()))
    }
}

#[derive(Clone, Debug)]
pub struct Want {
    pub id: u64,
    pub ty: EventType,
    pub ref_id: Option<u64>,
    pub ns: Option<String>,
    pub name: String,
    pub data: Vec<u8>,
}

pub fn some_len(r: &mut Rng, max: usize) -> usize {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => r.range(240, 270) as usize,
        3 => r.range(2, 30) as usize,
        4 => r.range(30, 600) as usize,
        5 => r.range(32700, 32800) as usize,
        6 => max.saturating_sub(r.idx(3)),
        _ => r.range(0, 24) as usize,
    }
    .min(max)
}

pub fn some_event(r: &mut Rng, max_data: usize) -> (Event, Want) {
    let ref_id = *r.pick(&[0u64, 1, 0xFF, 1 << 32, u64::MAX, u64::MAX - 1]);
    let ref_id = if r.chance(500) { r.next() } else { ref_id };
    let k = r.below(4);
    // header: 3 + 8 + 1 + 1 (+ 8) + 2 + 2
    let room = 65535 - if k == 0 { 17 } else { 25 };
    let ns_len = some_len(r, room);
    let name_len = some_len(r, room - ns_len);
    let ns = match r.below(4) {
        0 => None,
        1 if ns_len == 0 => Some(String::new()),
        _ => Some(r.string(ns_len)),
    };
    let name = r.string(name_len);
    let n = r.len(max_data);
    let data = r.bytes(n);
    let b = Bytes::from(data.clone());
    let (e, ty, rf) = match k {
        0 => (Event::initiator(ns.clone(), name.clone(), b), EventType::Initiator, None),
        1 => (Event::response(ns.clone(), name.clone(), b, ref_id), EventType::Response, Some(ref_id)),
        2 => (Event::end(ns.clone(), name.clone(), b, ref_id), EventType::End, Some(ref_id)),
        _ => (Event::error(ns.clone(), name.clone(), b, ref_id), EventType::Error, Some(ref_id)),
    };
    let w = Want { id: e.id(), ty, ref_id: rf, ns, name, data };
    (e, w)
}

pub fn compare(what: &str, e: &Event, w: &Want) -> R {
    let ns = w.ns.clone().filter(|n| !n.is_empty());
    ensure!(e.id() == w.id, "field-id", "{}: id {:x} instead of {:x}", what, e.id(), w.id);
    ensure!(e.event_type() == w.ty, "field-type", "{}: type {:?} instead of {:?}", what, e.event_type(), w.ty);
    ensure!(e.reference_id() == w.ref_id, "field-ref", "{}: reference {:?} instead of {:?}", what, e.reference_id(), w.ref_id);
    let ens = e.namespace().clone().filter(|n| !n.is_empty());
    ensure!(ens == ns, "field-namespace", "{}: namespace differs ({:?} B instead of {:?} B)", what, ens.map(|n| n.len()), ns.map(|n| n.len()));
    ensure!(e.name() == w.name, "field-name", "{}: name differs ({} B instead of {} B)", what, e.name().len(), w.name.len());
    ensure!(
        e.data_raw() == &w.data[..],
        "field-data",
        "{}: payload differs ({} B instead of {} B)",
        what,
        e.data_raw().len(),
        w.data.len()
    );
    Ok(())
}

async fn one_batch(sc: &Sc, r: &mut Rng, n: usize, max_data: usize) -> R {
    let mut bytes = vec![];
    let mut wants = vec![];
    let mut ends = vec![];
    for _ in 0..n {
        let (e, w) = some_event(r, max_data);
        compare("constructed event", &e, &w)?;
        let enc = match e.into_bytes() {
            Ok(b) => b,
            Err(e) => return viol("encode-refused", format!("an event that fits the format was refused: {:?} ({} B ns, {} B name)", e, w.ns.map(|n| n.len()).unwrap_or(0), w.name.len())),
        };
        bytes.extend_from_slice(&enc);
        ends.push(bytes.len());
        wants.push(w);
    }
    // what follows must neither be touched nor matter
    let tail = if r.chance(500) { let n = r.idx(40); r.bytes(n) } else { vec![] };
    bytes.extend_from_slice(&tail);
    let mut rd = Chunked::new(bytes, r);
    for (i, w) in wants.iter().enumerate() {
        let e = match Event::from_async_read(&mut rd).await {
            Ok(e) => e,
            Err(e) => return viol("decode-failed", format!("event {} of {} cannot be decoded: {:?}; {:?} ns {:?} B name {} B data {} B", i, n, e, w.ty, w.ns.as_ref().map(|n| n.len()), w.name.len(), w.data.len())),
        };
        compare("decoded event", &e, w)?;
        ensure!(rd.pos == ends[i], "consumed", "decoding event {} of {} consumed {} bytes instead of {}", i, n, rd.pos, ends[i]);
        // a decoded event encodes to the same bytes
        let from = if i == 0 { 0 } else { ends[i - 1] };
        let orig = rd.data[from..ends[i]].to_vec();
        let again = e.into_bytes().map_err(|e| Stop::Viol { sig: "reencode".into(), msg: format!("{:?}", e) })?;
        ensure!(again[..] == orig[..], "reencode", "a decoded event encodes differently");
        let h = mix(mix(evt_ty(w.ty) as u64 | (w.ns.as_ref().map(|n| n.len()).unwrap_or(99999) as u64) << 8, w.name.len() as u64), w.data.len() as u64 ^ (rd.max as u64) << 32);
        sc.case(if w.name.is_empty() && w.data.is_empty() { None } else { Some(h) }, || {
            format!("{:?} ref={:?} ns={:?}B name={}B data={}B in pieces of <={} back to back {}/{}", w.ty, w.ref_id, w.ns.as_ref().map(|n| n.len()), w.name.len(), w.data.len(), rd.max, i + 1, n)
        });
    }
    sc.count("read calls", rd.chunks);
    Ok(())
}

async fn roundtrip(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    for _ in 0..12 {
        let n = 1 + r.idx(6);
        one_batch(&sc, &mut r, n, 20_000).await?;
    }
    Ok(())
}

async fn large(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let max = if sc.thorough { 40 << 20 } else { 6 << 20 };
    let mut data = r.bytes(4096);
    let n = match sc.idx % 8 {
        // about the limits of shorter length fields
        3 => (1 << 24) + 2 - r.idx(40),
        5 => (1 << 24) + r.range(1000, 1 << 20) as usize,
        _ => r.range(70_000, max) as usize,
    };
    data.resize(n, 7);
    let k = n - 1;
    data[k] = 9;
    let e = Event::response(None, "large".into(), Bytes::from(data.clone()), 5);
    let id = e.id();
    let b = e.into_bytes().map_err(|e| Stop::Viol { sig: "encode-refused".into(), msg: format!("{} bytes: {:?}", n, e) })?;
    let len = b.len();
    let mut rd = Chunked::new(b.to_vec(), &mut r);
    rd.max = 1 << 20;
    let e = Event::from_async_read(&mut rd).await.map_err(|e| Stop::Viol { sig: "decode-failed".into(), msg: format!("{} bytes: {:?}", n, e) })?;
    compare("large event", &e, &Want { id, ty: EventType::Response, ref_id: Some(5), ns: None, name: "large".into(), data })?;
    ensure!(rd.pos == len, "consumed", "{} of {} bytes consumed", rd.pos, len);
    sc.case(Some(n as u64), || format!("payload of {} bytes", n));
    Ok(())
}

/// Payloads and frames of exactly the sizes that buffers have
async fn aligned(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    for _ in 0..8 {
        let unit = 1usize << r.range(9, 17);
        let n = unit * r.range(1, 5) as usize;
        let name_len = r.idx(40);
        let name = r.string(name_len);
        // either the payload, the frame or what comes after the length is that long
        let less = *r.pick(&[0, 0, name.len() + 17, name.len() + 17 + 10, name.len() + 17 + 2]);
        let data = r.bytes(n - less);
        let e = Event::initiator(None, name.clone(), Bytes::from(data.clone()));
        let w = Want { id: e.id(), ty: EventType::Initiator, ref_id: None, ns: None, name, data };
        let b = e.into_bytes().map_err(|e| Stop::Viol { sig: "encode-refused".into(), msg: format!("{} bytes: {:?}", n, e) })?;
        let (next, nw) = some_event(&mut r, 100);
        let mut all = b.to_vec();
        let len = all.len();
        all.extend_from_slice(&next.into_bytes().map_err(|e| Stop::Viol { sig: "encode-refused".into(), msg: format!("{:?}", e) })?);
        let mut rd = Chunked::new(all, &mut r);
        for (w, end) in [(&w, Some(len)), (&nw, None)] {
            let e = Event::from_async_read(&mut rd).await.map_err(|e| Stop::Viol { sig: "decode-failed".into(), msg: format!("payload of {} bytes: {:?}", w.data.len(), e) })?;
            compare("event of an even size", &e, w)?;
            let end = end.unwrap_or(rd.data.len());
            ensure!(rd.pos == end, "consumed", "{} of {} bytes consumed", rd.pos, end);
        }
        sc.count("read calls", rd.chunks);
        sc.case(Some(mix(n as u64, less as u64) ^ rd.max as u64), || format!("payload of {} - {} bytes in pieces of <={}", n, less, rd.max));
    }
    Ok(())
}

/// Headers at and over the limit of the length field
async fn limits(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    for _ in 0..12 {
        let k = r.below(4);
        let room = 65535 - if k == 0 { 17usize } else { 25 };
        let over: i64 = *r.pick(&[-2, -1, 0, 1, 2, 7, 300, 65000, 65536, 131072]);
        let sum = (room as i64 + over) as usize;
        let ns_len = match r.below(5) {
            0 => 0,
            1 => sum,
            2 => 65535.min(sum),
            3 => 65536.min(sum),
            _ => r.idx(sum + 1),
        };
        let (ns, name) = (r.string(ns_len), r.string(sum - ns_len));
        let ns = if ns.is_empty() { None } else { Some(ns) };
        let data = r.bytes(9);
        let mk = |d: Vec<u8>| match k {
            0 => Event::initiator(ns.clone(), name.clone(), Bytes::from(d)),
            1 => Event::response(ns.clone(), name.clone(), Bytes::from(d), 3),
            2 => Event::end(ns.clone(), name.clone(), Bytes::from(d), 3),
            _ => Event::error(ns.clone(), name.clone(), Bytes::from(d), 3),
        };
        let e = mk(data.clone());
        let id = e.id();
        let ty = e.event_type();
        let res = e.into_bytes();
        if over > 0 {
            ensure!(
                res.is_err(),
                "oversize-accepted",
                "an event with a namespace of {} and a name of {} bytes, which do not fit the header, was encoded",
                ns_len,
                sum - ns_len
            );
        } else {
            let b = match res {
                Ok(b) => b,
                Err(e) => return viol("encode-refused", format!("namespace {} name {}: {:?}", ns_len, sum - ns_len, e)),
            };
            let mut rd = Chunked::new(b.to_vec(), &mut r);
            let e = Event::from_async_read(&mut rd).await.map_err(|e| Stop::Viol { sig: "decode-failed".into(), msg: format!("{:?}", e) })?;
            let w = Want { id, ty, ref_id: if k == 0 { None } else { Some(3) }, ns: ns.clone(), name: name.clone(), data };
            compare("event at the size limit", &e, &w)?;
        }
        sc.case(Some(mix(sum as u64, ns_len as u64) ^ k), || format!("kind {} header {} bytes over the limit, namespace {} name {}", k, over, ns_len, sum - ns_len));
    }
    Ok(())
}
