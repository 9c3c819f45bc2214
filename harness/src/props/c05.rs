//! C05: serde payloads
use crate::core::*;

#[cfg(not(feature = "ser"))]
pub fn fams() -> Vec<Fam> {
    vec![]
}
#[cfg(feature = "ser")]
pub use s::{deep_child, fams};

#[cfg(feature = "ser")]
mod s {
    use super::super::c03::mutate;
    use crate::alloc;
    use crate::codec;
    use crate::core::*;
    use crate::fix::*;
    use crate::rng::*;
    use crate::sim::*;
    use crate::{boxed, both, ensure};
    use bromine::event::Event;
    use bromine::prelude::*;
    use serde::de::DeserializeOwned;
    use serde::{Deserialize, Serialize};
    use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
    use std::fmt::Debug;
    use std::io::Read;
    use std::sync::{Arc, Mutex};
    use std::time::Duration;

    pub fn fams() -> Vec<Fam> {
        vec![
            fam("values", 150, 6000, boxed!(values)),
            fam("exchange", 240, 5000, boxed!(exchange)),
            fam("mixed_defaults", 120, 3000, boxed!(mixed)),
            fam("unknown_formats", 3, 3, boxed!(unknown)),
            fam("malformed", 150, 6000, boxed!(malformed)),
            fam("cut_short", 60, 1500, boxed!(cut_short)),
            fam("large", 6, 24, boxed!(large)),
            fam("exotic", 60, 2500, boxed!(exotic)),
            fam("known_deep", 4, 4, boxed!(deep)),
            fam("live_malformed", 60, 1500, boxed!(live_malformed)),
        ]
    }

    const ALL: [DynamicSerializer; 4] = [DynamicSerializer::Messagepack, DynamicSerializer::Bincode, DynamicSerializer::Postcard, DynamicSerializer::Json];
    /// Formats built in, by their documented ids
    fn enabled() -> Vec<u8> {
        let mut v = vec![];
        if cfg!(feature = "rmp") {
            v.push(0)
        }
        if cfg!(feature = "bin") {
            v.push(1)
        }
        if cfg!(feature = "pst") {
            v.push(2)
        }
        if cfg!(feature = "jsn") {
            v.push(3)
        }
        v
    }
    fn ser(id: u8) -> DynamicSerializer {
        ALL[id as usize]
    }

    fn oracle_encode<V: Serialize>(id: u8, v: &V) -> Option<Vec<u8>> {
        match id {
            0 => rmp_serde::to_vec(v).ok(),
            1 => bincode::serialize(v).ok(),
            2 => postcard::to_allocvec(v).ok(),
            _ => serde_json::to_vec(v).ok(),
        }
    }
    fn oracle_decode<V: DeserializeOwned>(id: u8, b: &[u8]) -> Option<V> {
        match id {
            0 => rmp_serde::from_slice(b).ok(),
            1 => bincode::deserialize(b).ok(),
            2 => postcard::from_bytes(b).ok(),
            _ => serde_json::from_slice(b).ok(),
        }
    }

    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
    pub enum En {
        Unit,
        New(u32),
        Tup(i8, String),
        Str { a: Option<u16>, b: Vec<bool> },
        Deep(Box<St>),
    }
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
    pub struct UnitS;
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
    pub struct NewS(i64);
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
    pub struct TupS(u8, char, String);
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
    pub struct St {
        pub id: u64,
        #[serde(rename = "ty pe")]
        pub text: String,
        pub opt: Option<i32>,
        pub list: Vec<En>,
        pub map: BTreeMap<String, Vec<u8>>,
        pub nested: Option<Box<St>>,
        pub tup: (i16, bool, u8),
        pub n: NewS,
        pub unit: UnitS,
        pub c: char,
        pub f: f64,
    }

    pub trait Gen: Sized {
        fn gen(r: &mut Rng) -> Self;
    }
    fn int(r: &mut Rng) -> u64 {
        match r.below(6) {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << r.below(64),
            3 => (1u64 << r.below(64)).wrapping_sub(1),
            4 => r.below(300),
            _ => r.next(),
        }
    }
    macro_rules! gen_int { ($($t:ty)*) => { $(impl Gen for $t { fn gen(r: &mut Rng) -> Self { int(r) as $t } })* } }
    gen_int!(u8 u16 u32 u64 i8 i16 i32 i64);
    impl Gen for bool {
        fn gen(r: &mut Rng) -> Self {
            r.chance(500)
        }
    }
    impl Gen for char {
        fn gen(r: &mut Rng) -> Self {
            r.string(4).chars().next().unwrap()
        }
    }
    impl Gen for String {
        fn gen(r: &mut Rng) -> Self {
            let n = r.len(300);
            r.string(n)
        }
    }
    impl Gen for f64 {
        fn gen(r: &mut Rng) -> Self {
            // short binary fractions: exact in every format
            (int(r) as i32) as f64 / 8.0
        }
    }
    impl<V: Gen> Gen for Option<V> {
        fn gen(r: &mut Rng) -> Self {
            if r.chance(500) {
                Some(V::gen(r))
            } else {
                None
            }
        }
    }
    impl<V: Gen> Gen for Vec<V> {
        fn gen(r: &mut Rng) -> Self {
            let n = if r.chance(100) { r.idx(600) } else { r.idx(5) };
            (0..n).map(|_| V::gen(r)).collect()
        }
    }
    impl<A: Gen, B: Gen> Gen for (A, B) {
        fn gen(r: &mut Rng) -> Self {
            (A::gen(r), B::gen(r))
        }
    }
    impl<A: Gen, B: Gen, C: Gen> Gen for (A, B, C) {
        fn gen(r: &mut Rng) -> Self {
            (A::gen(r), B::gen(r), C::gen(r))
        }
    }
    impl<V: Gen> Gen for BTreeMap<String, V> {
        fn gen(r: &mut Rng) -> Self {
            (0..r.idx(5)).map(|_| (String::gen(r), V::gen(r))).collect()
        }
    }
    impl<V: Gen> Gen for HashMap<u16, V> {
        fn gen(r: &mut Rng) -> Self {
            (0..r.idx(5)).map(|_| (u16::gen(r), V::gen(r))).collect()
        }
    }
    impl Gen for BTreeSet<i32> {
        fn gen(r: &mut Rng) -> Self {
            (0..r.idx(9)).map(|_| i32::gen(r)).collect()
        }
    }
    impl Gen for VecDeque<String> {
        fn gen(r: &mut Rng) -> Self {
            (0..r.idx(9)).map(|_| String::gen(r)).collect()
        }
    }
    impl Gen for [u16; 7] {
        fn gen(r: &mut Rng) -> Self {
            [0; 7].map(|_: u16| u16::gen(r))
        }
    }
    impl Gen for () {
        fn gen(_: &mut Rng) -> Self {}
    }
    impl Gen for UnitS {
        fn gen(_: &mut Rng) -> Self {
            UnitS
        }
    }
    impl Gen for NewS {
        fn gen(r: &mut Rng) -> Self {
            NewS(i64::gen(r))
        }
    }
    impl Gen for TupS {
        fn gen(r: &mut Rng) -> Self {
            TupS(u8::gen(r), char::gen(r), String::gen(r))
        }
    }
    impl Gen for En {
        fn gen(r: &mut Rng) -> Self {
            match r.below(9) {
                0 | 1 => En::Unit,
                2 | 3 => En::New(u32::gen(r)),
                4 | 5 => En::Tup(i8::gen(r), String::gen(r)),
                6 | 7 => En::Str { a: Option::gen(r), b: Vec::gen(r) },
                _ => En::Deep(Box::new(St::gen_d(r, 0))),
            }
        }
    }
    impl Gen for Result<u8, String> {
        fn gen(r: &mut Rng) -> Self {
            if r.chance(500) {
                Ok(u8::gen(r))
            } else {
                Err(String::gen(r))
            }
        }
    }
    impl St {
        fn gen_d(r: &mut Rng, depth: usize) -> Self {
            St {
                id: u64::gen(r),
                text: String::gen(r),
                opt: Option::gen(r),
                list: if depth == 0 { vec![] } else { (0..r.idx(4)).map(|_| En::gen(r)).collect() },
                map: BTreeMap::gen(r),
                nested: if depth > 0 && r.chance(600) { Some(Box::new(St::gen_d(r, depth - 1))) } else { None },
                tup: (i16::gen(r), bool::gen(r), u8::gen(r)),
                n: NewS::gen(r),
                unit: UnitS,
                c: char::gen(r),
                f: f64::gen(r),
            }
        }
    }
    impl Gen for St {
        fn gen(r: &mut Rng) -> Self {
            let d = r.idx(6);
            St::gen_d(r, d)
        }
    }

    pub trait Val: Gen + Serialize + DeserializeOwned + PartialEq + Debug + Clone + Send + Sync + 'static {}
    impl<V: Gen + Serialize + DeserializeOwned + PartialEq + Debug + Clone + Send + Sync + 'static> Val for V {}

    /// Runs `$f::<V>` for one of the types
    macro_rules! with_type {
        ($k:expr, $f:ident ( $($a:expr),* )) => {
            match $k % 22 {
                0 => $f::<u8>($($a),*).await,
                1 => $f::<u64>($($a),*).await,
                2 => $f::<i64>($($a),*).await,
                3 => $f::<bool>($($a),*).await,
                4 => $f::<char>($($a),*).await,
                5 => $f::<String>($($a),*).await,
                6 => $f::<Option<String>>($($a),*).await,
                7 => $f::<Vec<u8>>($($a),*).await,
                8 => $f::<Vec<String>>($($a),*).await,
                9 => $f::<(u8, String, Option<i32>)>($($a),*).await,
                10 => $f::<BTreeMap<String, Vec<i16>>>($($a),*).await,
                11 => $f::<HashMap<u16, String>>($($a),*).await,
                12 => $f::<BTreeSet<i32>>($($a),*).await,
                13 => $f::<[u16; 7]>($($a),*).await,
                14 => $f::<()>($($a),*).await,
                15 => $f::<UnitS>($($a),*).await,
                16 => $f::<TupS>($($a),*).await,
                17 => $f::<Result<u8, String>>($($a),*).await,
                18 => $f::<Vec<(u32, f64)>>($($a),*).await,
                19 => $f::<En>($($a),*).await,
                20 => $f::<VecDeque<String>>($($a),*).await,
                _ => $f::<St>($($a),*).await,
            }
        };
    }

    struct Pieces<'a> {
        b: &'a [u8],
        r: Rng,
        whole: bool,
    }
    impl<'a> Read for Pieces<'a> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            let max = if self.whole { usize::MAX } else { 1 + self.r.idx(7) };
            let n = self.b.len().min(buf.len()).min(max);
            buf[..n].copy_from_slice(&self.b[..n]);
            self.b = &self.b[n..];
            Ok(n)
        }
    }

    async fn any_ctx(r: &mut Rng, f: impl FnOnce(IPCBuilder<SimListener>) -> IPCBuilder<SimListener>) -> R<(Ctx, Raw)> {
        let net = Net::<Plain>::new(r);
        let b = f(net.builder());
        net.raw_server(b, &LinkCfg::default()).await
    }

    async fn one_value<V: Val>(sc: &Sc, r: &mut Rng, ctx: &Ctx, dflt: u8) -> R {
        let v = V::gen(r);
        let ty = std::any::type_name::<V>();
        let mut check = |id: u8, b: &[u8], how: &str| -> R {
            ensure!(!b.is_empty() && b[0] == id, "format-id", "{} of {} in format {}: the first byte is {:?}", how, ty, id, b.first());
            match oracle_decode::<V>(id, &b[1..]) {
                Some(x) => ensure!(x == v, "other-format", "{} of {} in format {}: an independent decoder gets another value", how, ty, id),
                None => return viol("other-format", format!("{} of {} in format {}: the bytes are not of this format: {:?}", how, ty, id, &b[..b.len().min(30)])),
            }
            for whole in [true, false] {
                let rd = || Pieces { b, r: Rng::new(b.len() as u64), whole };
                match V::from_payload(rd()) {
                    Ok(x) => ensure!(x == v, "changed", "{} of {} in format {} decodes to {:?} instead of {:?}", how, ty, id, short(&x), short(&v)),
                    Err(e) => return viol("decode", format!("{} of {} in format {} ({}): {:?}", how, ty, id, short(&v), e)),
                }
                match SerdePayload::<V>::from_payload(rd()) {
                    Ok(x) => {
                        // what was received can be sent on in the same format
                        let again = x.clone().try_into_bytes().map_err(|e| Stop::Viol { sig: "encode".into(), msg: format!("{:?}", e) })?;
                        ensure!(again[0] == id, "format-id", "a received payload of format {} is sent on in format {}", id, again[0]);
                        ensure!(x.data() == v, "changed", "{} of {} in format {} decodes to another value", how, ty, id)
                    }
                    Err(e) => return viol("decode", format!("{} of {} in format {}: {:?}", how, ty, id, e)),
                }
            }
            let ev = Event::initiator(None, "x".into(), bromine::bytes::Bytes::copy_from_slice(b));
            match ev.payload::<V>() {
                Ok(x) => ensure!(x == v, "changed", "the payload of an event decodes to another value"),
                Err(e) => return viol("decode", format!("{} of {} in format {}: {:?}", how, ty, id, e)),
            }
            // whatever an independent encoder makes
            let mut o = vec![id];
            o.extend(oracle_encode(id, &v).unwrap());
            match V::from_payload(&o[..]) {
                Ok(x) => ensure!(x == v, "changed", "an independently encoded {} in format {} decodes to another value", ty, id),
                Err(e) => return viol("decode", format!("an independently encoded {} in format {}: {:?}", ty, id, e)),
            }
            sc.case(Some(hash_bytes(b)), || format!("{} in format {} ({}): {}", ty, id, how, short(&v)));
            Ok(())
        };
        let en = |e: IPCResult<bromine::bytes::Bytes>, how: &str, id: u8| {
            e.map_err(|e| Stop::Viol { sig: "encode".into(), msg: format!("{} of {} in format {} is refused: {:?}", how, ty, id, e) })
        };
        for id in enabled() {
            let b = en(SerdePayload::new(ser(id), v.clone()).into_payload(ctx), "an explicit payload", id)?;
            check(id, &b, "an explicit payload")?;
            let b = en(SerdePayload::new(ser(id), v.clone()).clone().try_into_bytes(), "an explicit payload", id)?;
            check(id, &b, "an explicit payload")?;
        }
        let b = en(v.clone().into_payload(ctx), "a plain value", dflt)?;
        check(dflt, &b, "a plain value")?;
        let b = en(ctx.create_serde_payload(v.clone()).into_payload(ctx), "a created payload", dflt)?;
        check(dflt, &b, "a created payload")?;
        Ok(())
    }
    fn short<V: Debug>(v: &V) -> String {
        let s = format!("{:?}", v);
        s.chars().take(120).collect()
    }

    async fn values(sc: Arc<Sc>) -> R {
        let mut r = sc.rng();
        let ids = enabled();
        let dflt = if r.chance(300) { None } else { Some(*r.pick(&ids)) };
        let (ctx, _raw) = any_ctx(&mut r, |b| match dflt {
            Some(d) => b.default_serializer(ser(d)),
            None => b,
        })
        .await?;
        let d = dflt.unwrap_or(ids[0]);
        ensure!(DynamicSerializer::first_available() == ser(ids[0]), "default", "the first available format is {:?}, not {:?}", DynamicSerializer::first_available(), ser(ids[0]));
        for k in 0..44 {
            with_type!(k, one_value(&sc, &mut r, &ctx, d))?;
        }
        Ok(())
    }

    // ---- types some formats cannot carry, or only some of their values

    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
    pub struct Rec {
        next: Option<Box<Rec>>,
    }
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Key {
        A,
        B(u8),
        C { x: String },
    }
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
    #[serde(untagged)]
    pub enum Untagged {
        N(u64),
        S(String),
        L(Vec<Untagged>),
        M { a: i32, b: Option<String> },
    }
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
    #[serde(tag = "t", content = "c")]
    pub enum Adjacent {
        One(u8),
        Two { y: String },
        Three,
    }
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
    #[serde(tag = "kind")]
    pub enum Internal {
        Line { len: u32 },
        Text { s: String, #[serde(default, skip_serializing_if = "Option::is_none")] o: Option<u8> },
        Nothing,
    }
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
    pub struct Flat {
        id: u32,
        #[serde(flatten)]
        rest: BTreeMap<String, i64>,
    }
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
    #[serde(default)]
    pub struct Skips {
        #[serde(skip_serializing_if = "Vec::is_empty")]
        v: Vec<u8>,
        #[serde(skip)]
        never: u8,
        #[serde(alias = "other")]
        name: String,
    }
    impl Default for Skips {
        fn default() -> Self {
            Skips { v: vec![], never: 0, name: "d".into() }
        }
    }
    /// Floats, equal if their bits are
    #[derive(Serialize, Deserialize, Clone, Debug)]
    pub struct Fl(f32, f64);
    impl PartialEq for Fl {
        fn eq(&self, o: &Self) -> bool {
            self.0.to_bits() == o.0.to_bits() && self.1.to_bits() == o.1.to_bits()
        }
    }
    /// A byte string in the sense of serde
    #[derive(Clone, Debug, PartialEq)]
    pub struct Blob(Vec<u8>);
    impl Serialize for Blob {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_bytes(&self.0)
        }
    }
    impl<'de> Deserialize<'de> for Blob {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct V;
            impl<'de> serde::de::Visitor<'de> for V {
                type Value = Blob;
                fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str("bytes")
                }
                fn visit_bytes<E>(self, b: &[u8]) -> Result<Blob, E> {
                    Ok(Blob(b.to_vec()))
                }
                fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Blob, A::Error> {
                    let mut v = vec![];
                    while let Some(x) = a.next_element()? {
                        v.push(x)
                    }
                    Ok(Blob(v))
                }
            }
            d.deserialize_byte_buf(V)
        }
    }
    /// A sequence of a length that is not known beforehand
    #[derive(Clone, Debug, PartialEq, Deserialize)]
    pub struct Lazy(Vec<u16>);
    impl Serialize for Lazy {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            use serde::ser::SerializeSeq;
            let mut q = s.serialize_seq(None)?;
            for x in &self.0 {
                q.serialize_element(x)?
            }
            q.end()
        }
    }
    /// Fails to serialize, possibly after some of it has been written
    #[derive(Clone, Debug, PartialEq, Deserialize)]
    pub struct Refuses(u8);
    impl Serialize for Refuses {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            use serde::ser::SerializeTuple;
            let mut q = s.serialize_tuple(self.0 as usize + 1)?;
            for x in 0..self.0 {
                q.serialize_element(&x)?
            }
            Err(serde::ser::Error::custom("refused"))
        }
    }
    impl Gen for u128 {
        fn gen(r: &mut Rng) -> Self {
            (int(r) as u128) << r.below(65) | r.below(9) as u128
        }
    }
    impl Gen for i128 {
        fn gen(r: &mut Rng) -> Self {
            u128::gen(r) as i128
        }
    }
    impl Gen for Rec {
        fn gen(r: &mut Rng) -> Self {
            let n = *r.pick(&[0, 1, 10, 30, 60, 100, 120, 126, 140, 250]);
            (0..n).fold(Rec { next: None }, |x, _| Rec { next: Some(Box::new(x)) })
        }
    }
    impl Gen for Key {
        fn gen(r: &mut Rng) -> Self {
            match r.below(4) {
                0 | 1 => Key::A,
                2 => Key::B(r.next() as u8),
                _ => Key::C { x: String::gen(r) },
            }
        }
    }
    impl<V: Gen> Gen for BTreeMap<Key, V> {
        fn gen(r: &mut Rng) -> Self {
            (0..r.idx(3)).map(|_| (Key::gen(r), V::gen(r))).collect()
        }
    }
    impl<V: Gen> Gen for BTreeMap<(u8, i16), V> {
        fn gen(r: &mut Rng) -> Self {
            (0..r.idx(4)).map(|_| (<(u8, i16)>::gen(r), V::gen(r))).collect()
        }
    }
    impl<V: Gen> Gen for BTreeMap<bool, V> {
        fn gen(r: &mut Rng) -> Self {
            (0..r.idx(4)).map(|_| (bool::gen(r), V::gen(r))).collect()
        }
    }
    impl<V: Gen> Gen for BTreeMap<i128, V> {
        fn gen(r: &mut Rng) -> Self {
            (0..r.idx(4)).map(|_| (i128::gen(r), V::gen(r))).collect()
        }
    }
    impl Gen for Untagged {
        fn gen(r: &mut Rng) -> Self {
            match r.below(7) {
                0 | 1 => Untagged::N(u64::gen(r)),
                2 | 3 => Untagged::S(String::gen(r)),
                4 => Untagged::L((0..r.idx(3)).map(|_| Untagged::gen(r)).collect()),
                _ => Untagged::M { a: i32::gen(r), b: Option::gen(r) },
            }
        }
    }
    impl Gen for Adjacent {
        fn gen(r: &mut Rng) -> Self {
            match r.below(3) {
                0 => Adjacent::One(u8::gen(r)),
                1 => Adjacent::Two { y: String::gen(r) },
                _ => Adjacent::Three,
            }
        }
    }
    impl Gen for Internal {
        fn gen(r: &mut Rng) -> Self {
            match r.below(3) {
                0 => Internal::Line { len: u32::gen(r) },
                1 => Internal::Text { s: String::gen(r), o: Option::gen(r) },
                _ => Internal::Nothing,
            }
        }
    }
    impl Gen for Flat {
        fn gen(r: &mut Rng) -> Self {
            Flat { id: u32::gen(r), rest: BTreeMap::gen(r) }
        }
    }
    impl Gen for Skips {
        fn gen(r: &mut Rng) -> Self {
            Skips { v: Vec::gen(r), never: 0, name: String::gen(r) }
        }
    }
    impl Gen for Fl {
        fn gen(r: &mut Rng) -> Self {
            if r.chance(300) {
                Fl(*r.pick(&[f32::NAN, f32::INFINITY, -0.0, f32::MIN_POSITIVE, 1e-45, f32::MAX]), *r.pick(&[f64::NAN, f64::NEG_INFINITY, -0.0, 5e-324, f64::MAX, 0.1]))
            } else {
                Fl(f32::from_bits(r.next() as u32), f64::from_bits(r.next()))
            }
        }
    }
    impl Gen for Blob {
        fn gen(r: &mut Rng) -> Self {
            let n = r.len(3000);
            Blob(r.bytes(n))
        }
    }
    impl Gen for Lazy {
        fn gen(r: &mut Rng) -> Self {
            Lazy(Vec::gen(r))
        }
    }
    impl Gen for Refuses {
        fn gen(r: &mut Rng) -> Self {
            Refuses(r.next() as u8)
        }
    }
    impl Gen for std::net::IpAddr {
        fn gen(r: &mut Rng) -> Self {
            if r.chance(500) {
                std::net::Ipv4Addr::from(u32::gen(r)).into()
            } else {
                std::net::Ipv6Addr::from(u128::gen(r)).into()
            }
        }
    }
    impl Gen for Duration {
        fn gen(r: &mut Rng) -> Self {
            Duration::new(int(r), r.below(1_000_000_000) as u32)
        }
    }
    impl Gen for std::num::NonZeroI16 {
        fn gen(r: &mut Rng) -> Self {
            std::num::NonZeroI16::new(i16::gen(r)).unwrap_or(std::num::NonZeroI16::MIN)
        }
    }
    impl Gen for std::ops::Range<i8> {
        fn gen(r: &mut Rng) -> Self {
            i8::gen(r)..i8::gen(r)
        }
    }
    impl Gen for Box<[String]> {
        fn gen(r: &mut Rng) -> Self {
            Vec::gen(r).into()
        }
    }
    impl Gen for std::path::PathBuf {
        fn gen(r: &mut Rng) -> Self {
            use std::os::unix::ffi::OsStringExt;
            let b = if r.chance(500) { r.bytes(20) } else { String::gen(r).into_bytes() };
            std::ffi::OsString::from_vec(b).into()
        }
    }

    macro_rules! with_exotic {
        ($k:expr, $f:ident ( $($a:expr),* )) => {
            match $k % 26 {
                0 => $f::<u128>($($a),*).await,
                1 => $f::<i128>($($a),*).await,
                2 => $f::<Rec>($($a),*).await,
                3 => $f::<BTreeMap<Key, u8>>($($a),*).await,
                4 => $f::<BTreeMap<(u8, i16), String>>($($a),*).await,
                5 => $f::<BTreeMap<bool, ()>>($($a),*).await,
                6 => $f::<BTreeMap<i128, bool>>($($a),*).await,
                7 => $f::<Untagged>($($a),*).await,
                8 => $f::<Adjacent>($($a),*).await,
                9 => $f::<Internal>($($a),*).await,
                10 => $f::<Flat>($($a),*).await,
                11 => $f::<Skips>($($a),*).await,
                12 => $f::<Fl>($($a),*).await,
                13 => $f::<Vec<Fl>>($($a),*).await,
                14 => $f::<Blob>($($a),*).await,
                15 => $f::<Lazy>($($a),*).await,
                16 => $f::<Refuses>($($a),*).await,
                17 => $f::<std::net::IpAddr>($($a),*).await,
                18 => $f::<Duration>($($a),*).await,
                19 => $f::<std::num::NonZeroI16>($($a),*).await,
                20 => $f::<std::ops::Range<i8>>($($a),*).await,
                21 => $f::<Box<[String]>>($($a),*).await,
                22 => $f::<std::path::PathBuf>($($a),*).await,
                23 => $f::<Option<Option<u8>>>($($a),*).await,
                24 => $f::<Option<()>>($($a),*).await,
                _ => $f::<Vec<Option<Internal>>>($($a),*).await,
            }
        };
    }

    /// What the format itself carries has to come through; what it refuses is refused, and never sent in another format
    async fn one_exotic<V: Val>(sc: &Sc, r: &mut Rng, ctx: &Ctx, raw: &Raw, dflt: u8) -> R {
        let v = V::gen(r);
        let ty = std::any::type_name::<V>();
        for id in enabled() {
            let enc = oracle_encode(id, &v);
            let carried = enc.as_ref().and_then(|b| oracle_decode::<V>(id, b)).map_or(false, |x| x == v);
            for plain in [false, true] {
                if plain && id != dflt {
                    continue;
                }
                let got = if plain { v.clone().into_payload(ctx) } else { SerdePayload::new(ser(id), v.clone()).into_payload(ctx) };
                match &got {
                    Ok(b) => ensure!(b.first() == Some(&id), "format-id", "{} for format {} (plain: {}): the first byte is {:?}", ty, id, plain, b.first()),
                    Err(e) => ensure!(enc.is_none(), "encode", "{} of {} in format {} (plain: {}) is refused: {:?}", short(&v), ty, id, plain, e),
                }
                if let Ok(b) = &got {
                    let whole = r.chance(500);
                    let rd = Pieces { b, r: Rng::new(b.len() as u64), whole };
                    match V::from_payload(rd) {
                        Ok(x) => ensure!(x == v || !carried, "changed", "{} in format {} decodes to {} instead of {}", ty, id, short(&x), short(&v)),
                        Err(e) => ensure!(!carried, "decode", "{} in format {} ({}): {:?}", ty, id, short(&v), e),
                    }
                }
                // on a connection
                let n = raw.n();
                let sent = if plain { ctx.emit("x", v.clone()).await.map(|_| ()) } else { ctx.emit("x", SerdePayload::new(ser(id), v.clone())).await.map(|_| ()) };
                ensure!(sent.is_ok() == got.is_ok(), "emit", "{} in format {} (plain: {}): encoding {:?}, emitting {:?}", ty, id, plain, got.is_ok(), sent);
                if sent.is_ok() {
                    ensure!(raw.wait_n(n + 1, secs(100)).await, "lost", "an emitted {} did not arrive", ty);
                    let f = raw.frames().pop().unwrap();
                    ensure!(f.data.first() == Some(&id), "format-id", "{} for format {} (plain: {}) arrives with {:?}", ty, id, plain, f.data.first());
                    if carried {
                        ensure!(oracle_decode::<V>(id, &f.data[1..]).map_or(false, |x| x == v), "other-format", "{} in format {}: an independent decoder gets another value", ty, id);
                    }
                }
                sc.count(if carried { "exotic values carried" } else if got.is_ok() { "exotic values not carried back by the format" } else { "exotic values refused" }, 1);
                sc.case(Some(mix(hash_bytes(short(&v).as_bytes()), id as u64)), || format!("{} in format {}: sent {}, carried {}", ty, id, got.is_ok(), carried));
            }
        }
        Ok(())
    }
    async fn exotic(sc: Arc<Sc>) -> R {
        let mut r = sc.rng();
        let d = *r.pick(&enabled());
        let (ctx, raw) = any_ctx(&mut r, |b| b.default_serializer(ser(d))).await?;
        for k in 0..26 {
            with_exotic!(k, one_exotic(&sc, &mut r, &ctx, &raw, d))?;
        }
        // nothing that was refused left anything behind
        ensure!(raw.partial() == 0 && raw.bad().is_none(), "remains", "there is a part of a frame on the wire");
        Ok(())
    }

    /// Decodes a deeply nested payload of a recursive type; run in a process of its own
    pub fn deep_child(id: u8, n: usize) {
        unsafe {
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
        }
        let mut b = vec![id];
        match id {
            0 => b.extend(vec![0x91u8; n]),
            1 | 2 => b.extend(vec![1u8; n]),
            _ => (0..n).for_each(|_| b.extend(b"{\"next\":")),
        }
        // far more than the 2 MiB of a worker thread of tokio, as frames are large in this build
        let t = std::thread::Builder::new().stack_size(16 << 20).spawn(move || Rec::from_payload(&b[..]).is_ok()).unwrap();
        println!("deep {:?}", t.join().ok());
    }
    async fn deep(sc: Arc<Sc>) -> R {
        let id = sc.idx as u8;
        if !enabled().contains(&id) {
            return Ok(());
        }
        for n in [2_000usize, 3_000_000] {
            let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["deep", &id.to_string(), &n.to_string()]).output();
            let o = match o {
                Ok(o) => o,
                Err(e) => return Err(Stop::Inconc(format!("cannot run a process: {}", e))),
            };
            let s = String::from_utf8_lossy(&o.stdout).to_string();
            sc.case(Some(mix(n as u64, id as u64)), || format!("{} levels in format {}: {:?} {}", n, id, o.status, s.trim()));
            if o.status.success() && s.contains("deep Some(false)") {
                sc.count("deeply nested payloads refused", 1);
                continue;
            }
            let msg = format!("an incomplete payload of format {} with {} levels of a recursive type: {:?} {:?}", id, n, o.status, s.trim());
            match id {
                1 if n > 100_000 => sc.known("deep-bincode", msg),
                2 if n > 100_000 => sc.known("deep-postcard", msg),
                _ => return viol("deep-nesting", msg),
            }
        }
        Ok(())
    }

    type Log = Arc<Mutex<Vec<(u8, Vec<u8>)>>>;

    async fn one_exchange<V: Val>(sc: &Sc, r: &mut Rng, tr: u64) -> R {
        if cfg!(feature = "enc") && tr % 2 == 1 {
            #[cfg(feature = "enc")]
            return exchange_on::<enc::Enc, V>(sc, r).await;
        }
        exchange_on::<Plain, V>(sc, r).await
    }
    /// A value goes through a live connection and comes back, everybody with an own default
    async fn exchange_on<T: Tp, V: Val>(sc: &Sc, r: &mut Rng) -> R {
        let net = Net::<T>::new(r);
        let ids = enabled();
        let ty = std::any::type_name::<V>();
        let pickd = |r: &mut Rng| if r.chance(250) { None } else { Some(*r.pick(&ids)) };
        let (ds, dc) = (pickd(r), pickd(r));
        let got: Arc<Mutex<Vec<V>>> = Default::default();
        let first: Log = Default::default();
        let handler = |tag: &'static str| {
            let (got, first) = (got.clone(), first.clone());
            hnd(move |ctx: &Ctx, e: Event| {
                let (got, first, ctx) = (got.clone(), first.clone(), ctx.clone());
                Box::pin(async move {
                    first.lock().unwrap().push((e.data_raw()[0], tag.into()));
                    let v = e.payload::<V>()?;
                    got.lock().unwrap().push(v.clone());
                    ctx.response(v)
                }) as HFut
            })
        };
        let set = |b: IPCBuilder<T::L>, d: Option<u8>| match d {
            Some(d) => b.default_serializer(ser(d)),
            None => b,
        };
        let back = {
            let (got, first) = (got.clone(), first.clone());
            hnd(move |ctx: &Ctx, e: Event| {
                let (got, first, ctx) = (got.clone(), first.clone(), ctx.clone());
                Box::pin(async move {
                    first.lock().unwrap().push((e.data_raw()[0], "back".into()));
                    let v = e.payload::<V>()?;
                    got.lock().unwrap().push(v.clone());
                    // ask the other side and return what it says
                    let x = ctx.emit("v", v).await_reply().with_timeout(secs(1000)).await?;
                    first.lock().unwrap().push((x.data_raw()[0], "asked".into()));
                    Response::payload(&ctx, x.payload::<V>()?)
                }) as HFut
            })
        };
        let early = r.chance(500);
        let mut sb = net.builder();
        if early {
            sb = set(sb, ds);
        }
        sb = sb.on("v", handler("s")).on("back", back).namespace("n").on("v", handler("s")).build();
        if !early {
            sb = set(sb, ds);
        }
        // the client is asked by the server
        let answer: Arc<Mutex<Vec<(u8, Option<V>)>>> = Default::default();
        let an2 = answer.clone();
        sb = sb.namespace("turn").on("round", hnd(move |ctx: &Ctx, e: Event| {
            let (an, ctx) = (an2.clone(), ctx.clone());
            Box::pin(async move {
                let x = ctx.emit_to("n", "v", e.payload::<V>()?).await_reply().with_timeout(secs(1000)).await?;
                an.lock().unwrap().push((x.data_raw()[0], x.payload::<V>().ok()));
                Ok(Response::empty())
            }) as HFut
        })).build();
        let cb = set(net.builder().namespace("n").on("v", handler("c")).build(), dc);
        let _srv = net.serve(sb).await;
        let cfg = LinkCfg::random(r, true);
        let (_keep, ctxs) = if r.chance(400) {
            let n = 1 + r.idx(4);
            let p = net.pool(cb, &cfg, n).await?;
            let g: Vec<_> = (0..n).map(|_| p.acquire()).collect();
            let c: Vec<Ctx> = g.iter().map(|g| (**g).clone()).collect();
            (Some((p, g)), c)
        } else {
            (None, vec![net.client(cb, &cfg).await?])
        };
        let (ids_s, ids_c) = (ds.unwrap_or(ids[0]), dc.unwrap_or(ids[0]));
        for (i, c) in ctxs.iter().enumerate() {
            ensure!(c.default_serializer == ser(ids_c), "default", "connection {} of {} with default {:?} has {:?}", i, ctxs.len(), dc, c.default_serializer);
        }
        for i in 0..4 {
            let ctx = &ctxs[if i < 2 { r.idx(ctxs.len()) } else { i % ctxs.len() }];
            let v = V::gen(r);
            let explicit = if r.chance(400) { Some(*r.pick(&ids)) } else { None };
            let sent = explicit.unwrap_or(ids_c);
            first.lock().unwrap().clear();
            got.lock().unwrap().clear();
            let where_ = r.below(4);
            let what = format!("{} {} sent in {} (client default {:?}, server default {:?}, way {})", T::NAME, ty, sent, dc, ds, where_);
            let rep = match (where_, explicit) {
                (0, None) => ctx.emit("v", v.clone()).await_reply().with_timeout(secs(3000)).await,
                (0, Some(x)) => ctx.emit("v", SerdePayload::new(ser(x), v.clone())).await_reply().with_timeout(secs(3000)).await,
                (1, None) => ctx.emit_to("n", "v", v.clone()).await_reply().with_timeout(secs(3000)).await,
                (1, Some(x)) => ctx.emit_to("n", "v", SerdePayload::new(ser(x), v.clone())).await_reply().with_timeout(secs(3000)).await,
                // the server asks the client, which answers in its own format
                (3, None) => {
                    answer.lock().unwrap().clear();
                    if let Err(e) = ctx.emit_to("turn", "round", v.clone()).await {
                        return viol("emit", format!("{}: {:?}", what, e));
                    }
                    for _ in 0..2000 {
                        if !answer.lock().unwrap().is_empty() {
                            break;
                        }
                        sleep(secs(1)).await;
                    }
                    let a = answer.lock().unwrap().clone();
                    ensure!(a.len() == 1 && a[0].1.as_ref() == Some(&v), "changed", "{}: a client answered with {}", what, short(&a));
                    ensure!(a[0].0 == ids_c, "default", "{}: a client's handler answers in format {}", what, a[0].0);
                    ensure!(first.lock().unwrap()[0].0 == ids_s, "default", "{}: a client was asked in format {}", what, first.lock().unwrap()[0].0);
                    continue;
                }
                // the server asks back; its question is a reply, so it does not satisfy an Ask
                (_, None) => {
                    let mut s = ctx.emit("back", v.clone()).stream_replies().with_timeout(secs(3000)).await.map_err(|e| Stop::Viol { sig: "emit".into(), msg: format!("{}: {:?}", what, e) })?;
                    let q = next(&mut s).await;
                    match q {
                        Some(Ok(e)) => {
                            ensure!(e.data_raw().first() == Some(&ids_s), "default", "{}: the server's handler emits in format {:?}", what, e.data_raw().first());
                            ensure!(e.payload::<V>().ok() == Some(v.clone()), "changed", "{}: the server's handler emits another value", what);
                        }
                        x => return viol("emit", format!("{}: {:?}", what, x)),
                    }
                    drop(s);
                    continue;
                }
                (_, Some(_)) => continue,
            };
            let e = match rep {
                Ok(e) => e,
                Err(e) => return viol("exchange", format!("{}: {:?}", what, e)),
            };
            ensure!(got.lock().unwrap().as_slice() == [v.clone()], "changed", "{}: the handler got {}", what, short(&*got.lock().unwrap()));
            ensure!(first.lock().unwrap()[0].0 == sent, "format-id", "{}: the handler got format {}", what, first.lock().unwrap()[0].0);
            ensure!(e.data_raw()[0] == ids_s, "default", "{}: the response is in format {}", what, e.data_raw()[0]);
            match e.payload::<V>() {
                Ok(x) => ensure!(x == v, "changed", "{}: the response has another value", what),
                Err(e) => return viol("decode", format!("{}: the response is not decoded: {:?}", what, e)),
            }
            sc.case(Some(mix(hash_bytes(e.data_raw()), (ids_s * 16 + ids_c) as u64)), || format!("{}: {}", what, short(&v)));
        }
        Ok(())
    }
    async fn exchange(sc: Arc<Sc>) -> R {
        let mut r = sc.rng();
        for k in 0..4 {
            let t = sc.idx * 4 + k;
            with_type!(t, one_exchange(&sc, &mut r, t))?;
        }
        Ok(())
    }

    both!(mixed, mixed_);
    /// Several clients with different defaults share a server: the frames on the wire tell the formats
    async fn mixed_<T: Tp>(sc: Arc<Sc>) -> R {
        let mut r = sc.rng();
        let net = Net::<T>::new(&mut r);
        let ids = enabled();
        let ds = *r.pick(&ids);
        let sb = net.builder().default_serializer(ser(ds)).on("e", |ctx: &Ctx, e: Event| {
            let ctx = ctx.clone();
            Box::pin(async move {
                let v = e.payload::<St>()?;
                ctx.emit("part", v.clone()).await?;
                ctx.emit_to("n", "part", SerdePayload::new(ctx.default_serializer, v.text.clone())).await?;
                ctx.response(v)
            }) as HFut
        });
        let _srv = net.serve(sb).await;
        let mut joins = vec![];
        for _ in 0..r.range(2, 5) {
            let dc = *r.pick(&ids);
            let ctx = net.client(net.builder().default_serializer(ser(dc)), &LinkCfg::random(&mut r, true)).await?;
            ensure!(ctx.default_serializer == ser(dc), "default", "a client with default {} has {:?}", dc, ctx.default_serializer);
            let vs: Vec<St> = (0..3).map(|_| St::gen(&mut r)).collect();
            joins.push(tokio::spawn(async move {
                for v in vs {
                    let mut s = ctx.emit("e", v.clone()).stream_replies().with_timeout(secs(5000)).await.map_err(|e| Stop::Viol { sig: "emit".into(), msg: format!("{:?}", e) })?;
                    let mut n = 0;
                    while let Some(e) = next(&mut s).await {
                        let e = match e {
                            Ok(e) => e,
                            Err(e) => return viol("exchange", format!("{:?}", e)),
                        };
                        ensure!(e.data_raw()[0] == ds, "default", "reply {} of a server with default {} is in format {}", n, ds, e.data_raw()[0]);
                        let same = if n == 1 { e.payload::<String>().ok() == Some(v.text.clone()) } else { e.payload::<St>().ok() == Some(v.clone()) };
                        ensure!(same, "changed", "reply {} differs", n);
                        n += 1;
                    }
                    ensure!(n == 3, "exchange", "{} replies instead of 3", n);
                }
                Ok(())
            }));
        }
        let n = joins.len();
        for j in joins {
            j.await.map_err(|e| Stop::Viol { sig: "panic".into(), msg: e.to_string() })??;
        }
        sc.case(Some(mix(sc.seed, ds as u64)), || format!("{}: {} clients, server default {}", T::NAME, n, ds));
        Ok(())
    }

    /// All 256 format ids
    async fn unknown(sc: Arc<Sc>) -> R {
        let mut r = sc.rng();
        let (ctx, _raw) = any_ctx(&mut r, |b| b).await?;
        let ids = enabled();
        for id in 0..=255u8 {
            for k in 0..22 {
                async fn one<V: Val>(r: &mut Rng, id: u8) -> R<(bool, Vec<u8>)> {
                    let v = V::gen(r);
                    let of = if id < 4 { id } else { r.below(4) as u8 };
                    let mut b = vec![id];
                    b.extend(oracle_encode(of, &v).unwrap());
                    let ok = V::from_payload(&b[..]).is_ok();
                    let ok2 = SerdePayload::<V>::from_payload(&b[..]).is_ok();
                    ensure!(ok == ok2, "differs", "decoding {} in format {} as value and as payload differs", std::any::type_name::<V>(), id);
                    Ok((ok, b))
                }
                let (ok, b) = with_type!(k, one(&mut r, id))?;
                let want = ids.contains(&id);
                ensure!(ok == want, if want { "decode" } else { "unknown-accepted" }, "format id {} with type {}: decoded {}", id, k, ok);
                sc.case(Some(hash_bytes(&b)), || format!("format id {}: decoded {}", id, ok));
            }
            match DynamicSerializer::from_primitive(id as usize) {
                Ok(x) => ensure!(ids.contains(&id) && x == ser(id), "unknown-accepted", "id {} is {:?}", id, x),
                Err(_) => ensure!(!ids.contains(&id), "decode", "id {} is unknown", id),
            }
        }
        for big in [256usize, 257, 259, 65536, usize::MAX, 1 << 32] {
            ensure!(DynamicSerializer::from_primitive(big).is_err(), "unknown-accepted", "id {} is accepted", big);
        }
        // formats that are not built in can not be used for sending either
        for id in 0..4u8 {
            let res = SerdePayload::new(ser(id), 5u8).into_payload(&ctx);
            ensure!(res.is_ok() == ids.contains(&id), "unavailable", "sending in format {}: {:?}", id, res);
            let res = ser(id).deserialize::<u8, _>(&oracle_encode(id, &5u8).unwrap()[..]);
            ensure!(res.is_ok() == ids.contains(&id), "unavailable", "reading format {}: {:?}", id, res);
        }
        ensure!(u8::from_payload(&[][..]).is_err(), "empty-accepted", "an empty payload is a u8");
        ensure!(<()>::from_payload(&[][..]).is_err(), "empty-accepted", "an empty payload is a unit");
        Ok(())
    }

    fn bound(n: usize) -> isize {
        // serde itself preallocates up to 1 MiB for a sequence, on every level
        (n * 64 + (8 << 20)) as isize
    }

    async fn one_malformed<V: Val>(sc: &Sc, r: &mut Rng) -> R {
        let id = if r.chance(900) { *r.pick(&enabled()) } else { r.next() as u8 };
        let mut b = match r.below(3) {
            0 => {
                let n = r.len(400);
                r.bytes(n)
            }
            1 => {
                // other type
                let v = St::gen(r);
                oracle_encode(*r.pick(&enabled()), &v).unwrap()
            }
            _ => {
                let v = V::gen(r);
                oracle_encode(id & 3, &v).unwrap()
            }
        };
        if r.chance(800) {
            mutate(r, &mut b);
        }
        if r.chance(200) {
            // huge lengths in the way of every format
            let l: Vec<u8> = match id {
                0 => r.pick(&[vec![0xdd, 0xff, 0xff, 0xff, 0xff], vec![0xdb, 0xff, 0xff, 0xff, 0xf0], vec![0xc6, 0x7f, 0xff, 0xff, 0xff], vec![0xdf, 0xff, 0xff, 0xff, 0xff]]).clone(),
                1 => r.pick(&[u64::MAX, 1 << 40, 1 << 62, (1 << 31) - 1, u32::MAX as u64]).to_le_bytes().to_vec(),
                2 => r.pick(&[vec![0xff, 0xff, 0xff, 0xff, 0x0f], vec![0xff; 9], vec![0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01]]).clone(),
                _ => b"[[[[[[[[[[[[[[[[".to_vec(),
            };
            let at = r.idx(b.len().min(6) + 1);
            b.splice(at..at, l);
        }
        b.insert(0, id);
        let n = b.len();
        let ev = Event::initiator(None, "x".into(), bromine::bytes::Bytes::copy_from_slice(&b));
        let base = alloc::mark();
        let res = ev.payload::<V>();
        let used = alloc::peak() - base;
        let ok = res.is_ok();
        if let Ok(v) = res {
            // it is what an independent decoder reads, too
            ensure!(enabled().contains(&id), "unknown-accepted", "a payload of format {} is accepted", id);
            if let Some(w) = oracle_decode::<V>(id, &b[1..]) {
                ensure!(w == v || format!("{:?}", w) == format!("{:?}", v), "changed", "malformed data decodes to {} instead of {}", short(&v), short(&w));
            }
        }
        ensure!(used <= bound(n), "memory", "decoding {} bytes of format {} as {} allocated {} bytes: {:?}", n, id, std::any::type_name::<V>(), used, &b[..n.min(40)]);
        sc.count(if ok { "decoded to a value" } else { "decoded to an error" }, 1);
        sc.case(Some(hash_bytes(&b)), || format!("{} from {} bytes of format {}: value {}", std::any::type_name::<V>(), n, id, ok));
        Ok(())
    }
    async fn malformed(sc: Arc<Sc>) -> R {
        let mut r = sc.rng();
        for k in 0..110 {
            with_type!(k, one_malformed(&sc, &mut r))?;
        }
        Ok(())
    }

    /// Every prefix of an encoded structure is refused
    async fn cut_short(sc: Arc<Sc>) -> R {
        let mut r = sc.rng();
        let v = St::gen_d(&mut r, 1);
        for id in enabled() {
            let mut b = vec![id];
            b.extend(oracle_encode(id, &v).unwrap());
            let step = 1 + b.len() / 400;
            for n in (0..b.len()).step_by(step) {
                if let Ok(x) = St::from_payload(&b[..n]) {
                    return viol("cut-accepted", format!("{} of {} bytes of a structure in format {} decode to {}", n, b.len(), id, short(&x)));
                }
                sc.case(Some(hash_bytes(&b[..n])), || format!("{} of {} bytes in format {}", n, b.len(), id));
            }
            // wrong types, bad text
            for (what, bad) in [
                ("an unknown variant", match id {
                    0 => vec![0x81, 0xa3, b'N', b'o', b'o', 0x01],
                    1 => vec![9, 0, 0, 0, 1, 0, 0, 0],
                    2 => vec![9, 1],
                    _ => b"{\"Noo\":1}".to_vec(),
                }),
                ("a string for a number", match id {
                    0 => vec![0x81, 0xa3, b'N', b'e', b'w', 0xa1, b'x'],
                    1 => vec![1, 0, 0],
                    2 => vec![1, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
                    _ => b"{\"New\":\"1\"}".to_vec(),
                }),
                ("text that is not UTF-8", match id {
                    0 => vec![0x81, 0xa3, b'T', b'u', b'p', 0x92, 1, 0xa2, 0xff, 0xfe],
                    1 => vec![2, 0, 0, 0, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xfe],
                    2 => vec![2, 1, 2, 0xff, 0xfe],
                    _ => b"{\"Tup\":[1,\"\xff\xfe\"]}".to_vec(),
                }),
            ] {
                let mut b = vec![id];
                b.extend(bad);
                if let Ok(x) = En::from_payload(&b[..]) {
                    return viol("malformed-accepted", format!("{} in format {} decodes to {:?}", what, id, x));
                }
            }
        }
        Ok(())
    }

    both!(large, large_);
    async fn large_<T: Tp>(sc: Arc<Sc>) -> R {
        let mut r = sc.rng();
        let net = Net::<T>::new(&mut r);
        let sb = net.builder().on("e", |ctx: &Ctx, e: Event| {
            let ctx = ctx.clone();
            Box::pin(async move { ctx.response(e.payload::<(String, Vec<u8>, Vec<u64>)>()?) }) as HFut
        });
        let _srv = net.serve(sb).await;
        let ctx = net.client(net.builder(), &LinkCfg::default()).await?;
        let n = r.range(100_000, 700_000) as usize;
        let v = (r.string(n), r.bytes(n), (0..n / 8).map(|_| r.next()).collect::<Vec<u64>>());
        for id in enabled() {
            let e = ctx.emit("e", SerdePayload::new(ser(id), v.clone())).await_reply().with_timeout(secs(3000)).await;
            match e.map(|e| e.payload::<(String, Vec<u8>, Vec<u64>)>()) {
                Ok(Ok(x)) => ensure!(x == v, "changed", "a large value in format {} came back changed", id),
                x => return viol("exchange", format!("a large value in format {} was lost: {:?}", id, x.map(|y| y.map(|_| ())))),
            }
            sc.case(Some(mix(n as u64, id as u64)), || format!("{}: {} bytes in format {}", T::NAME, 3 * n, id));
        }
        Ok(())
    }

    both!(live_malformed, live_malformed_);
    /// Handlers that decode hostile payloads answer with errors, the connection stays usable
    async fn live_malformed_<T: Tp>(sc: Arc<Sc>) -> R {
        let mut r = sc.rng();
        let net = Net::<T>::new(&mut r);
        let sb = net.builder().on("e", |ctx: &Ctx, e: Event| {
            let ctx = ctx.clone();
            Box::pin(async move { ctx.response(e.payload::<St>()?) }) as HFut
        });
        let _srv = net.serve(sb).await;
        let raw = net.raw_client(&LinkCfg::random(&mut r, false)).await?;
        for i in 0..24u64 {
            let id = *r.pick(&enabled());
            let v = St::gen_d(&mut r, 1);
            let good = r.chance(300);
            let mut b = vec![id];
            b.extend(oracle_encode(id, &v).unwrap());
            if !good {
                match r.below(3) {
                    0 => b[0] = r.range(4, 255) as u8,
                    1 => {
                        let n = r.idx(b.len());
                        b.truncate(n)
                    }
                    _ => {
                        let n = r.len(100);
                        b = r.bytes(n);
                        b.insert(0, 77);
                    }
                }
            }
            let h = hash_bytes(&b);
            let f = codec::Frame::new(codec::INIT, i + 1, None, None, "e", b);
            ensure!(raw.frame(&f).await.is_ok(), "closed", "the connection was closed");
            ensure!(raw.wait_n(i as usize + 1, secs(3000)).await, "no-answer", "no answer to payload {} (good: {})", i, good);
            let a = raw.frames().pop().unwrap();
            if good {
                let x = if a.ty == codec::END && !a.data.is_empty() { oracle_decode::<St>(a.data[0], &a.data[1..]) } else { None };
                ensure!(x.as_ref() == Some(&v), "changed", "a good payload in format {} is answered with {}", id, a.short());
            } else {
                ensure!(a.ty == codec::ERR, "malformed-accepted", "a malformed payload is answered with {}", a.short());
            }
            sc.case(Some(h), || format!("{}: payload in format {}, good {}: {}", T::NAME, id, good, a.short()));
        }
        Ok(())
    }
}
