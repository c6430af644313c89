//! Concrete types as users write them: derived, with every kind of serde attribute,
//! plus standard library types, in traits of every tagging style.
use tt_harness::formats::{Doc, Fmt};
use tt_harness::model::Tag;
use tt_harness::play::{lower, Cx, Play, Style};
use tt_harness::rec::record;
use tt_harness::rng::Rng;
use tt_harness::v::{gen_string, V};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, LinkedList, VecDeque};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::num::{NonZeroU32, Wrapping};
use std::ops::{Bound, Range};
use std::rc::Rc;
use std::time::Duration;

pub trait Sample: Sized {
    fn sample(r: &mut Rng, d: usize) -> Self;
}

macro_rules! ints {
    ($($t:ty)*) => {$(impl Sample for $t {
        fn sample(r: &mut Rng, _: usize) -> Self {
            match r.below(6) {
                0 => 0,
                1 => <$t>::MAX,
                2 => <$t>::MIN,
                3 => r.below(100) as $t,
                4 => (r.next() % 1000) as $t,
                _ => r.next() as $t,
            }
        }
    })*};
}
ints! { u8 u16 u32 u64 i8 i16 i32 i64 usize isize i128 u128 }
impl Sample for bool {
    fn sample(r: &mut Rng, _: usize) -> Self {
        r.one_in(2)
    }
}
impl Sample for () {
    fn sample(_: &mut Rng, _: usize) -> Self {}
}
impl Sample for f64 {
    fn sample(r: &mut Rng, _: usize) -> Self {
        match r.below(4) {
            0 => r.below(1000) as f64,
            1 => -(r.below(1000) as f64) / 8.0,
            2 => 0.1 + r.below(10) as f64,
            _ => r.next() as f64 * 1e-3,
        }
    }
}
impl Sample for f32 {
    fn sample(r: &mut Rng, _: usize) -> Self {
        r.below(1000) as f32 / 8.0
    }
}
impl Sample for char {
    fn sample(r: &mut Rng, _: usize) -> Self {
        *r.pick(&['a', 'Z', 'é', '😀', '"', '\0', '\u{ffff}'])
    }
}
impl Sample for String {
    fn sample(r: &mut Rng, _: usize) -> Self {
        gen_string(r, false)
    }
}
impl<T: Sample> Sample for Option<T> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        if r.one_in(3) {
            None
        } else {
            Some(T::sample(r, d + 1))
        }
    }
}
impl<T: Sample> Sample for Box<T> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        Box::new(T::sample(r, d + 1))
    }
}
impl<T: Sample> Sample for Vec<T> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        let n = if d > 4 { 0 } else { r.below(4) };
        (0..n).map(|_| T::sample(r, d + 1)).collect()
    }
}
impl<K: Sample + Ord, T: Sample> Sample for BTreeMap<K, T> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        let n = if d > 4 { 0 } else { r.below(4) };
        (0..n).map(|_| (K::sample(r, d + 1), T::sample(r, d + 1))).collect()
    }
}
impl<T: Sample, const N: usize> Sample for [T; N] {
    fn sample(r: &mut Rng, d: usize) -> Self {
        std::array::from_fn(|_| T::sample(r, d + 1))
    }
}
macro_rules! tuples {
    ($(($($t:ident)*))*) => {$(impl<$($t: Sample),*> Sample for ($($t,)*) {
        fn sample(r: &mut Rng, d: usize) -> Self {
            ($($t::sample(r, d + 1),)*)
        }
    })*};
}
tuples! { (A) (A B) (A B C) (A B C D) }
macro_rules! samples {
    ($($t:ty = |$r:ident| $e:expr;)*) => {$(impl Sample for $t {
        fn sample($r: &mut Rng, _: usize) -> Self { $e }
    })*};
}
samples! {
    Duration = |r| Duration::new(r.next() >> 20, r.below(1_000_000_000) as u32);
    IpAddr = |r| if r.one_in(2) { IpAddr::V4(Ipv4Addr::sample(r, 0)) } else { IpAddr::V6(Ipv6Addr::from((r.next() as u128) << 50)) };
    Ipv4Addr = |r| Ipv4Addr::from(r.next() as u32);
    SocketAddr = |r| SocketAddr::new(IpAddr::sample(r, 0), r.next() as u16);
    NonZeroU32 = |r| NonZeroU32::new(1 + r.below(1000) as u32).unwrap();
    std::path::PathBuf = |r| gen_string(r, false).into();
}

/// A struct, tuple struct or unit struct with its derives and sample.
macro_rules! ty {
    ($(#[$m:meta])* struct $n:ident { $($(#[$fm:meta])* $f:ident: $t:ty,)* }) => {
        #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
        $(#[$m])*
        pub struct $n { $($(#[$fm])* pub $f: $t,)* }
        impl Sample for $n {
            #[allow(unused_variables)]
            fn sample(r: &mut Rng, d: usize) -> Self { $n { $($f: <$t>::sample(r, d + 1),)* } }
        }
    };
    ($(#[$m:meta])* struct $n:ident($($(#[$fm:meta])* $t:ty),*)) => {
        #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
        $(#[$m])*
        pub struct $n($($(#[$fm])* pub $t),*);
        impl Sample for $n {
            #[allow(unused_variables)]
            fn sample(r: &mut Rng, d: usize) -> Self { $n($(<$t>::sample(r, d + 1)),*) }
        }
    };
    ($(#[$m:meta])* enum $n:ident { $($body:tt)* } $(= |$r:ident, $d:ident| $($e:expr),*;)?) => {
        #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
        $(#[$m])*
        pub enum $n { $($body)* }
        $(impl Sample for $n {
            #[allow(unused_variables)]
            fn sample($r: &mut Rng, $d: usize) -> Self {
                let all: Vec<fn(&mut Rng, usize) -> $n> = vec![$(|$r, $d| $e),*];
                let i = $r.below(all.len());
                all[i]($r, $d + 1)
            }
        })?
    };
}

fn s<T: Sample>(r: &mut Rng, d: usize) -> T {
    T::sample(r, d)
}

ty! { struct Plain { a: u8, b: String, c: Option<bool>, d: Vec<i32>, } }
ty! { struct Empty {} }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Nothing;
impl Sample for Nothing {
    fn sample(_: &mut Rng, _: usize) -> Self {
        Nothing
    }
}
ty! { struct Pair(u16, String) }
ty! { struct One(i64) }
ty! { struct OneStr(String) }
ty! { struct OneVec(Vec<u8>) }
ty! { struct OneOpt(Option<u32>) }
ty! { struct OneMap(BTreeMap<String, i32>) }
ty! { struct OneUnit(()) }
ty! { struct OneStruct(Plain) }
ty! { struct OneEnum(Kind) }
ty! { struct OneTuple((u8, bool)) }
ty! { struct OneArray([u16; 3]) }
ty! { #[serde(transparent)] struct Clear { inner: Plain, } }
ty! { #[serde(transparent)] struct ClearOpt { inner: Option<Pair>, } }
ty! { enum Kind { Unit, New(i32), Tup(u8, String), Str { a: i8, b: Option<Box<Kind>> }, NewUnit(()), NewStr(Plain), NewOpt(Option<u8>), NewVec(Vec<u8>) }
    = |r, d| Kind::Unit, Kind::New(s(r, d)), Kind::Tup(s(r, d), s(r, d)), Kind::Str { a: s(r, d), b: if d > 3 { None } else { s(r, d) } },
      Kind::NewUnit(()), Kind::NewStr(s(r, d)), Kind::NewOpt(s(r, d)), Kind::NewVec(s(r, d)); }
ty! { #[serde(tag = "type")] enum SameTag { A { x: i32 }, B, C(Plain) }
    = |r, d| SameTag::A { x: s(r, d) }, SameTag::B, SameTag::C(s(r, d)); }
ty! { #[serde(tag = "sort")] enum InnerTag { A { x: i32, y: Vec<u8> }, B, C(Plain), D(BTreeMap<String, u8>) }
    = |r, d| InnerTag::A { x: s(r, d), y: s(r, d) }, InnerTag::B, InnerTag::C(s(r, d)), InnerTag::D(BTreeMap::from([("k".to_owned(), s(r, d))])); }
ty! { #[serde(tag = "k", content = "v")] enum NextTag { A { x: i32 }, B, C(u8, u8), D(String) }
    = |r, d| NextTag::A { x: s(r, d) }, NextTag::B, NextTag::C(s(r, d), s(r, d)), NextTag::D(s(r, d)); }
ty! { #[serde(untagged)] enum Either { Num(u64), Text(String), List(Vec<i16>), Rec { inner: Box<Either>, flag: bool } }
    = |r, d| Either::Num(s(r, d)), Either::Text(s(r, d)), Either::List(s(r, d)),
      Either::Rec { inner: if d > 4 { Box::new(Either::Num(1)) } else { s(r, d) }, flag: s(r, d) }; }
ty! { struct Flat { a: u8, #[serde(flatten)] rest: Plainer, z: String, } }
ty! { struct Plainer { p: i16, q: Option<String>, } }
ty! { struct FlatMap { name: String, #[serde(flatten)] more: BTreeMap<String, i32>, } }
ty! { struct FlatEnum { id: u8, #[serde(flatten)] e: InnerTag, } }
ty! { struct FlatOpt { id: u8, #[serde(flatten)] e: Option<Plainer>, } }
ty! { #[serde(deny_unknown_fields)] struct Strict { a: u8, #[serde(default)] b: String, } }
ty! { #[serde(default)] struct Lax { a: u8, b: String, c: Vec<Option<u8>>, } }
impl Default for Lax {
    fn default() -> Self {
        Lax { a: 42, b: "lax".into(), c: vec![] }
    }
}
ty! { #[serde(rename_all = "SCREAMING-KEBAB-CASE", rename = "renamed type")] struct Renamed { field_one: u8, #[serde(rename = "value")] other: String, #[serde(alias = "old")] new: bool, } }
ty! { struct Skips { #[serde(skip)] hidden: (), #[serde(skip_serializing_if = "Option::is_none", default)] maybe: Option<u8>, always: u8, } }
ty! { #[serde(into = "String", try_from = "String")] struct ViaString { n: u32, } }
impl From<ViaString> for String {
    fn from(v: ViaString) -> String {
        v.n.to_string()
    }
}
impl TryFrom<String> for ViaString {
    type Error = std::num::ParseIntError;
    fn try_from(s: String) -> Result<Self, Self::Error> {
        Ok(ViaString { n: s.parse()? })
    }
}
ty! { struct Std { d: Duration, ip: IpAddr, sock: SocketAddr, nz: NonZeroU32, } }
ty! { struct Wide { a: i128, b: u128, } }
ty! { struct Floats { a: f32, b: f64, c: Vec<f64>, } }
ty! { struct Chars { a: char, b: Vec<char>, c: BTreeMap<char, bool>, } }
ty! { struct IntKeys { m: BTreeMap<u16, String>, } }
ty! { struct EnumKeys { m: BTreeMap<Key, u8>, } }
ty! { #[derive(PartialOrd, Ord, Eq)] enum Key { Low, High } = |r, d| Key::Low, Key::High; }
ty! { struct Tuples { a: (u8, (String, bool)), b: [Plainer; 2], c: Vec<(i8, Option<char>)>, u: (), } }
ty! { struct Tree { v: i32, kids: Vec<Tree>, } }
ty! { struct Opts { a: Option<Option<u8>>, b: Option<()>, c: Option<Vec<u8>>, d: Option<Kind>, } }
ty! { struct Lend { s: Cow<'static, str>, v: Cow<'static, [u8]>, } }
samples! {
    Cow<'static, str> = |r| Cow::Owned(s(r, 0));
    Cow<'static, [u8]> = |r| Cow::Owned(s(r, 0));
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Gathered {
    set: BTreeSet<i8>,
    deque: VecDeque<u8>,
    list: LinkedList<String>,
    range: Range<u8>,
    bound: Bound<u8>,
    wrap: Wrapping<u8>,
    res: Result<u8, String>,
}
impl Sample for Gathered {
    fn sample(r: &mut Rng, d: usize) -> Self {
        Gathered {
            set: s::<Vec<i8>>(r, d).into_iter().collect(),
            deque: s::<Vec<u8>>(r, d).into(),
            list: s::<Vec<String>>(r, d).into_iter().collect(),
            range: s(r, d)..s(r, d),
            bound: if r.one_in(2) { Bound::Included(s(r, d)) } else { Bound::Unbounded },
            wrap: Wrapping(s(r, d)),
            res: if r.one_in(2) { Ok(s(r, d)) } else { Err(s(r, d)) },
        }
    }
}
/// Bytes written as bytes.
#[derive(Debug, PartialEq, Clone)]
pub struct Raw(Vec<u8>);
impl Serialize for Raw {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Raw {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis;
        impl<'de> serde::de::Visitor<'de> for Vis {
            type Value = Raw;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, b: &[u8]) -> Result<Raw, E> {
                Ok(Raw(b.to_vec()))
            }
            fn visit_byte_buf<E>(self, b: Vec<u8>) -> Result<Raw, E> {
                Ok(Raw(b))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Raw, A::Error> {
                let mut b = vec![];
                while let Some(x) = a.next_element()? {
                    b.push(x);
                }
                Ok(Raw(b))
            }
        }
        d.deserialize_byte_buf(Vis)
    }
}
impl Sample for Raw {
    fn sample(r: &mut Rng, d: usize) -> Self {
        Raw(s(r, d))
    }
}
/// Different in text and binary, and picky about what it accepts.
#[derive(Debug, PartialEq, Clone)]
pub struct Even(u32);
impl Serialize for Even {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() {
            s.collect_str(&format_args!("even:{}", self.0))
        } else {
            s.serialize_u32(self.0)
        }
    }
}
impl<'de> Deserialize<'de> for Even {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        use serde::de::Error;
        let n = if d.is_human_readable() {
            let s = String::deserialize(d)?;
            s.strip_prefix("even:").and_then(|s| s.parse().ok()).ok_or_else(|| D::Error::custom("not even:n"))?
        } else {
            u32::deserialize(d)?
        };
        if n % 2 == 0 {
            Ok(Even(n))
        } else {
            Err(D::Error::custom("odd"))
        }
    }
}
impl Sample for Even {
    fn sample(r: &mut Rng, _: usize) -> Self {
        Even(r.below(1000) as u32 * 2)
    }
}
ty! { struct Evens { a: Even, b: Vec<Even>, c: Option<Even>, } }
ty! { struct JsonAny { v: Json, } }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(transparent)]
pub struct Json(serde_json::Value);
impl Sample for Json {
    fn sample(r: &mut Rng, d: usize) -> Self {
        use serde_json::{json, Value};
        Json(match r.below(if d > 4 { 5 } else { 7 }) {
            0 => Value::Null,
            1 => json!(true),
            2 => json!(s::<i64>(r, d)),
            3 => json!(s::<String>(r, d)),
            4 => json!(s::<f64>(r, d)),
            5 => Value::Array(s::<Vec<Json>>(r, d).into_iter().map(|j| j.0).collect()),
            _ => Value::Object(s::<BTreeMap<String, Json>>(r, d).into_iter().map(|(k, v)| (k, v.0)).collect()),
        })
    }
}

// Of no size, of none to speak of, and of much.
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct NoFields();
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Phantom<T>(PhantomData<T>);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Units {
    a: (),
    b: PhantomData<Vec<u8>>,
    c: [u64; 0],
    d: Nothing,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[repr(align(128))]
pub struct Aligned(u8);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[repr(C, packed)]
pub struct Packed {
    a: u8,
    b: u64,
}
impl Sample for NoFields {
    fn sample(_: &mut Rng, _: usize) -> Self {
        NoFields()
    }
}
pub type PhantomStr = Phantom<String>;
impl Sample for PhantomStr {
    fn sample(_: &mut Rng, _: usize) -> Self {
        Phantom(PhantomData)
    }
}
impl Sample for Units {
    fn sample(_: &mut Rng, _: usize) -> Self {
        Units { a: (), b: PhantomData, c: [], d: Nothing }
    }
}
impl Sample for Aligned {
    fn sample(r: &mut Rng, d: usize) -> Self {
        Aligned(s(r, d))
    }
}
impl Sample for Packed {
    fn sample(r: &mut Rng, d: usize) -> Self {
        Packed { a: s(r, d), b: s(r, d) }
    }
}
ty! { struct Large { a: [u64; 32], b: [u128; 16], c: u8, } }
ty! { struct Many { a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, b0: i8, b1: i8, b2: i8, b3: i8,
    b4: i8, b5: i8, b6: i8, b7: i8, b8: i8, b9: i8, c0: bool, c1: bool, c2: bool, c3: bool, c4: bool, c5: bool, c6: String, } }
ty! { enum Other { A, B, #[serde(other)] Rest } = |r, d| Other::A, Other::B, Other::Rest; }
ty! { #[serde(rename_all = "snake_case", rename_all_fields = "camelCase")] enum Cased { FirstOne { long_name: u8 }, #[serde(alias = "x", rename = "y z")] Next(u8) }
    = |r, d| Cased::FirstOne { long_name: s(r, d) }, Cased::Next(s(r, d)); }
/// Only reads what it can keep a reference to.
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Borrower {
    #[serde(deserialize_with = "lent")]
    s: String,
    #[serde(deserialize_with = "lent_keys")]
    m: BTreeMap<String, u8>,
    #[serde(deserialize_with = "lent_opt")]
    o: Option<String>,
    #[serde(deserialize_with = "lent_seq")]
    v: Vec<String>,
}
fn lent<'de, D: serde::Deserializer<'de>>(d: D) -> Result<String, D::Error> {
    <&str>::deserialize(d).map(|s| s.to_owned())
}
fn lent_keys<'de, D: serde::Deserializer<'de>>(d: D) -> Result<BTreeMap<String, u8>, D::Error> {
    <BTreeMap<&str, u8>>::deserialize(d).map(|m| m.into_iter().map(|(k, v)| (k.to_owned(), v)).collect())
}
fn lent_opt<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<String>, D::Error> {
    <Option<&str>>::deserialize(d).map(|o| o.map(|s| s.to_owned()))
}
fn lent_seq<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<String>, D::Error> {
    <Vec<&str>>::deserialize(d).map(|o| o.into_iter().map(|s| s.to_owned()).collect())
}
impl Sample for Borrower {
    fn sample(r: &mut Rng, d: usize) -> Self {
        // Without what text must escape, as a rule.
        let plain = |r: &mut Rng| if r.one_in(4) { s(r, d) } else { format!("{}-é{}", "x".repeat(r.below(30)), r.below(100)) };
        Borrower {
            s: plain(r),
            m: (0..r.below(4)).map(|i| (plain(r), i as u8)).collect(),
            o: if r.one_in(3) { None } else { Some(plain(r)) },
            v: (0..r.below(4)).map(|_| plain(r)).collect(),
        }
    }
}

/// Objects inside objects.
#[derive(Serialize, Deserialize, Debug)]
pub struct Holder {
    one: Box<dyn TExt>,
    many: Vec<Box<dyn TInt>>,
    map: BTreeMap<String, Box<dyn TAdj>>,
    opt: Option<Box<dyn TExt>>,
}
impl Sample for Holder {
    fn sample(r: &mut Rng, d: usize) -> Self {
        let plain = |r: &mut Rng| Plain::sample(r, d + 2);
        Holder {
            one: if d < 3 && r.one_in(2) { Box::new(Holder::sample(r, d + 2)) } else { Box::new(plain(r)) },
            many: vec![Box::new(plain(r)), Box::new(Kind::sample(r, d + 2)), Box::new(One(5))],
            map: BTreeMap::from([("k".to_owned(), Box::new(Pair::sample(r, d + 2)) as Box<dyn TAdj>)]),
            opt: if r.one_in(2) { Some(Box::new(Nothing)) } else { None },
        }
    }
}
#[derive(Serialize, Deserialize, Debug)]
pub struct Shared {
    rc: Rc2<String>,
    heap: Vec<u8>,
}
/// Rc without serde's rc feature.
#[derive(Debug)]
pub struct Rc2<T>(Rc<T>);
impl<T: Serialize> Serialize for Rc2<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Rc2<T> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        T::deserialize(d).map(|t| Rc2(Rc::new(t)))
    }
}
impl Sample for Shared {
    fn sample(r: &mut Rng, d: usize) -> Self {
        let mut h: BinaryHeap<u8> = s::<Vec<u8>>(r, d).into();
        h.push(3);
        Shared { rc: Rc2(Rc::new(s(r, d))), heap: h.into_vec() }
    }
}
samples! {
    HashMap<String, u8> = |r| s::<Option<(String, u8)>>(r, 0).into_iter().collect();
}

/// What can be done with any object, whichever trait it is of.
pub trait Obj {
    fn type_name(&self) -> &'static str;
    fn text(&self) -> String;
    fn write(&self, f: Fmt) -> Result<Doc, String>;
    fn rec(&self, hr: bool) -> Result<V, String>;
    fn alone(&self) -> &dyn Alone;
}

/// The same value without the trait object.
pub trait Alone {
    fn write(&self, f: Fmt) -> Result<Doc, String>;
    fn rec(&self, hr: bool) -> Result<V, String>;
    /// The format reads the value back and writes it the same again.
    fn stable(&self, f: Fmt) -> bool;
    fn stable_played(&self, st: &Style) -> bool;
    /// Another document read as this type.
    fn play(&self, d: &V, c: &Cx) -> Result<String, String>;
}
impl<T: Serialize + DeserializeOwned + Debug> Alone for T {
    fn write(&self, f: Fmt) -> Result<Doc, String> {
        tt_harness::formats::ser(f, self)
    }
    fn rec(&self, hr: bool) -> Result<V, String> {
        record(self, hr, None).0.map_err(|e| e.0)
    }
    fn stable(&self, f: Fmt) -> bool {
        let Ok(d) = Alone::write(self, f) else { return false };
        // Some formats take it at the top and not inside anything.
        let inside = BTreeMap::from([("k", self)]);
        let Ok(i) = tt_harness::formats::ser(f, &inside) else { return false };
        match tt_harness::formats::read::<BTreeMap<String, T>>(f, &i) {
            Ok(b) if format!("{:?}", b) == format!("{:?}", inside) => {}
            _ => return false,
        }
        // RON looks at the type of the visitor, to treat those of serde's own tagged enums
        // apart. Behind any layer of type erasure it takes them for something else.
        if let (Fmt::Ron | Fmt::RonPretty, Doc::Bytes(b)) = (f, &i) {
            let Ok(mut d) = ron::Deserializer::from_bytes(b) else { return false };
            let mut e = <dyn erased_serde::Deserializer>::erase(&mut d);
            if erased_serde::deserialize::<BTreeMap<String, T>>(&mut e).is_err() {
                return false;
            }
        }
        match tt_harness::formats::read::<T>(f, &d) {
            Ok(b) => format!("{:?}", b) == format!("{:?}", self) && Alone::write(&b, f) == Ok(d),
            Err(_) => false,
        }
    }
    fn stable_played(&self, st: &Style) -> bool {
        let Ok(d) = Alone::rec(self, st.hr).map(|v| lower(&v)) else { return false };
        match T::deserialize(Play::new(&d, &Cx::new(*st))) {
            Ok(b) => format!("{:?}", b) == format!("{:?}", self) && Alone::rec(&b, st.hr).map(|v| lower(&v)) == Ok(d),
            Err(_) => false,
        }
    }
    fn play(&self, d: &V, c: &Cx) -> Result<String, String> {
        T::deserialize(Play::new(d, c)).map(|t| format!("{:?}", t)).map_err(|e| e.0)
    }
}

macro_rules! kinds {
    ($(($tr:ident))* ; $list:tt) => { $(kinds!(@each $tr $list);)* };
    (@each $tr:ident [$($t:ident)*]) => {$(
        #[typetag::serde]
        impl $tr for $t {
            fn type_name(&self) -> &'static str { stringify!($t) }
            fn alone(&self) -> &dyn Alone { self }
        }
    )*};
}

const fn tagging(tag: Option<&'static str>, content: Option<&'static str>, a: &str) -> Tag {
    match (tag, content) {
        (None, _) => Tag::Ext,
        (Some(t), None) => Tag::Int(t, None),
        (Some(t), Some(c)) => Tag::Adj(t, c, None, a.len() > 40),
    }
}
macro_rules! tfams {
    ($($k:literal $tr:ident $tag:expr, $content:expr, [$($a:tt)*];)*) => {
        $(
            #[typetag::serde $($a)*]
            pub trait $tr: Debug {
                fn type_name(&self) -> &'static str;
                fn alone(&self) -> &dyn Alone;
            }
            impl Obj for Box<dyn $tr> {
                fn type_name(&self) -> &'static str { (**self).type_name() }
                fn text(&self) -> String { format!("{:?}", self) }
                fn write(&self, f: Fmt) -> Result<Doc, String> { tt_harness::formats::ser(f, self) }
                fn rec(&self, hr: bool) -> Result<V, String> { record(self, hr, None).0.map_err(|e| e.0) }
                fn alone(&self) -> &dyn Alone { (**self).alone() }
            }
        )*
        pub const TAGGING: &[Tag] = &[$(tagging($tag, $content, stringify!($($a)*))),*];
        /// Trait name, tag field, content field.
        pub const TFAMS: &[(&str, Option<&str>, Option<&str>)] = &[$((stringify!($tr), $tag, $content)),*];
        pub fn read_obj(k: usize, f: Fmt, d: &Doc) -> Result<Box<dyn Obj>, String> {
            match k {
                $($k => tt_harness::formats::read::<Box<dyn $tr>>(f, d).map(|b| Box::new(b) as Box<dyn Obj>),)*
                _ => unreachable!(),
            }
        }
        pub fn play_obj(k: usize, d: &V, c: &Cx) -> Result<Box<dyn Obj>, String> {
            match k {
                $($k => <Box<dyn $tr>>::deserialize(Play::new(d, c)).map(|b| Box::new(b) as Box<dyn Obj>).map_err(|e| e.0),)*
                _ => unreachable!(),
            }
        }
        fn boxed<T: Sample + 'static $(+ $tr)*>(k: usize, r: &mut Rng) -> Box<dyn Obj> {
            let t = T::sample(r, 0);
            match k {
                $($k => Box::new(Box::new(t) as Box<dyn $tr>),)*
                _ => unreachable!(),
            }
        }
        all_types!($(($tr))*);
    };
}
macro_rules! all_types {
    ($($x:tt)*) => {
        kinds! { $($x)* ; [
            Plain Empty Nothing Pair One OneStr OneVec OneOpt OneMap OneUnit OneStruct OneEnum OneTuple OneArray Clear ClearOpt
            Kind SameTag InnerTag NextTag Either Flat FlatMap FlatEnum FlatOpt Strict Lax Renamed Skips ViaString Std Wide
            Floats Chars IntKeys EnumKeys Tuples Tree Opts Lend Gathered Raw Even Evens JsonAny Json Holder Shared
            NoFields PhantomStr Units Aligned Packed Large Many Other Cased Borrower
        ] }
        mod std_types {
            use super::*;
            kinds! { $($x)* ; [ bool u8 i64 u128 f64 char String Duration IpAddr SocketAddr ] }
        }
    };
}
tfams! {
    0 TExt None, None, [];
    1 TInt Some("type"), None, [(tag = "type")];
    2 TAdj Some("t"), Some("c"), [(tag = "t", content = "c")];
    3 TIntDefault Some("kind"), None, [(tag = "kind", default_variant = "FlatMap")];
    4 TAdjDeny Some("type"), Some("value"), [(tag = "type", content = "value", deny_unknown_fields, default_variant = "Json")];
}

type Make = fn(usize, &mut Rng) -> Box<dyn Obj>;
macro_rules! makers { ($($t:ident)*) => { &[$((stringify!($t), boxed::<$t> as Make)),*] }; }
pub const TYPES: &[(&str, Make)] = makers! {
    Plain Empty Nothing Pair One OneStr OneVec OneOpt OneMap OneUnit OneStruct OneEnum OneTuple OneArray Clear ClearOpt
    Kind SameTag InnerTag NextTag Either Flat FlatMap FlatEnum FlatOpt Strict Lax Renamed Skips ViaString Std Wide
    Floats Chars IntKeys EnumKeys Tuples Tree Opts Lend Gathered Raw Even Evens JsonAny Json Holder Shared
    NoFields PhantomStr Units Aligned Packed Large Many Other Cased Borrower
    bool u8 i64 u128 f64 char String Duration IpAddr SocketAddr
};

