//! C08: tags registered more than once.
use crate::ctx::Ctx;
use crate::model::s;
use crate::play::{Cx, Play, STYLES};
use crate::rec::record;
use crate::rng::Rng;
use crate::v::V;
use serde::de::{Deserialize, Deserializer};
use serde::ser::Serialize;
use serde::{Deserialize as D, Serialize as S};
use serde_json::json;

#[derive(S, D)]
pub struct T<const I: usize>;
#[derive(S, D)]
pub struct Gen<X>(std::marker::PhantomData<X>);

pub mod first {
    use super::*;
    #[derive(S, D)]
    pub struct Same;
}
pub mod second {
    use super::*;
    #[derive(S, D)]
    pub struct Same;
}

/// Tags, how often each is registered, in the order they are written below.
pub const TAGS: &[(&str, usize)] = &[
    ("two", 2), ("one", 1), ("three", 3), ("four", 4), ("Same", 2), ("Gen", 2), ("", 2), ("tw", 1), ("twoo", 1), ("last", 1),
    ("five", 5), ("T", 1),
];

macro_rules! imp {
    ($tr:ident $t:ty, $n:expr) => {
        #[typetag::serde(name = $n)]
        impl $tr for $t { fn tag(&self) -> &'static str { $n } }
    };
    ($tr:ident $t:ty) => {
        #[typetag::serde]
        impl $tr for $t { fn tag(&self) -> &'static str { stringify!($t) } }
    };
}
macro_rules! imps {
    ($tr:ident) => {
        mod before {
            use super::*;
            imp!($tr first::Same);
            imp!($tr Gen<u8>);
        }
        imp!($tr T<0>, "two");
        imp!($tr T<1>, "one");
        imp!($tr T<2>, "three");
        imp!($tr T<3>, "three");
        imp!($tr T<4>, "three");
        imp!($tr T<5>, "four");
        imp!($tr T<6>, "");
        imp!($tr T<7>, "four");
        imp!($tr T<8>, "tw");
        imp!($tr T<9>, "twoo");
        imp!($tr T<10>, "five");
        imp!($tr T<11>, "five");
        mod after {
            use super::*;
            imp!($tr second::Same);
            imp!($tr Gen<u16>);
            imp!($tr T<12>, "four");
            imp!($tr T<13>, "two");
            imp!($tr T<14>, "four");
            imp!($tr T<15>, "");
            imp!($tr T<16>, "last");
            imp!($tr T<17>, "five");
            imp!($tr T<18>, "five");
            imp!($tr T<19>, "five");
            imp!($tr T<20>);
        }
        pub fn every() -> Vec<(&'static str, Box<dyn $tr>)> {
            vec![
                ("Same", Box::new(first::Same)), ("Same", Box::new(second::Same)),
                ("Gen", Box::new(Gen::<u8>(std::marker::PhantomData))), ("two", Box::new(T::<0>)), ("two", Box::new(T::<13>)),
                ("one", Box::new(T::<1>)), ("three", Box::new(T::<2>)), ("three", Box::new(T::<4>)), ("four", Box::new(T::<14>)),
                ("", Box::new(T::<6>)), ("last", Box::new(T::<16>)), ("five", Box::new(T::<11>)), ("T", Box::new(T::<20>)),
            ]
        }
    };
}

macro_rules! traits {
    ($($k:literal $m:ident $tr:ident $style:ident $t:literal $default:expr, [$($a:tt)*];)*) => {
        $(pub mod $m {
            use super::*;
            #[typetag::serde $($a)*]
            pub trait $tr { fn tag(&self) -> &'static str; }
            imps!($tr);
        })*
        pub const TRAITS: &[(&str, Shape, &str, Option<&str>)] = &[$((stringify!($tr), Shape::$style, $t, $default)),*];
        fn read<'de, De: Deserializer<'de>>(k: usize, d: De) -> Result<&'static str, De::Error> {
            match k {
                $($k => { let b: Box<dyn $m::$tr> = Deserialize::deserialize(d)?; Ok(b.tag()) })*
                _ => unreachable!(),
            }
        }
        fn all(k: usize) -> Vec<(&'static str, Box<dyn erased::Erased>)> {
            match k {
                $($k => $m::every().into_iter().map(|(t, b)| (t, Box::new(b) as Box<dyn erased::Erased>)).collect(),)*
                _ => unreachable!(),
            }
        }
    };
}
mod erased {
    use super::*;
    pub trait Erased { fn rec(&self, hr: bool) -> Result<V, String>; }
    impl<X: Serialize> Erased for X {
        fn rec(&self, hr: bool) -> Result<V, String> { record(self, hr, None).0.map_err(|e| e.0) }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Shape { Ext, Int, Adj }

traits! {
    0 ext DupExt Ext "" None, [];
    1 int DupInt Int "type" None, [(tag = "type")];
    2 adj DupAdj Adj "t" None, [(tag = "t", content = "c")];
    3 intd DupIntDefault Int "type" Some("two"), [(tag = "type", default_variant = "two")];
    4 adjd DupAdjDefault Adj "t" Some("three"), [(tag = "t", content = "c", default_variant = "three")];
    5 adjdd DupAdjDenyDefault Adj "t" Some("Same"), [(tag = "t", content = "c", deny_unknown_fields, default_variant = "Same")];
    6 intu DupIntDefaultUnique Int "k" Some("last"), [(tag = "k", default_variant = "last")];
}

// The same tags once, in other traits.
#[typetag::serde]
pub trait OnceExt { fn tag(&self) -> &'static str; }
#[typetag::serde(tag = "type")]
pub trait OnceInt { fn tag(&self) -> &'static str; }
mod once {
    use super::*;
    imp!(OnceExt T<0>, "two");
    imp!(OnceExt first::Same);
    imp!(OnceExt T<2>, "three");
    imp!(OnceInt T<0>, "two");
    imp!(OnceInt second::Same);
    imp!(OnceInt T<2>, "three");
}

pub fn docs(k: usize, tag: &str) -> Vec<V> {
    let (_, shape, t, _) = TRAITS[k];
    match shape {
        Shape::Ext => vec![V::Map(true, vec![(s(tag), V::Unit)])],
        Shape::Int => vec![V::Map(true, vec![(s(t), s(tag))])],
        Shape::Adj => vec![
            V::Map(true, vec![(s(t), s(tag)), (s("c"), V::Unit)]),
            V::Map(true, vec![(s("c"), V::Unit), (s(t), s(tag))]),
            V::Map(true, vec![(s(t), s(tag))]),
            V::Seq(true, vec![s(tag), V::Unit]),
        ],
    }
}

fn judge(cx: &mut Ctx, k: usize, tag: &str, got: Result<&'static str, String>, how: &str) {
    let n = TAGS.iter().find(|t| t.0 == tag).unwrap().1;
    let ok = match &got {
        Ok(g) => n == 1 && (*g == tag || tag == "T" && g.starts_with("T") && g.contains("20")),
        Err(e) => n > 1 && e.contains("unique") && e.contains(tag),
    };
    if !ok {
        cx.violation(&format!("trait {}: tag {:?}, registered {} times, {}: {:?}", TRAITS[k].0, tag, n, how, got));
    }
    cx.count(if n > 1 { "ambiguous tags tried" } else { "unique tags tried" }, 1);
}

pub fn read_doc(k: usize, d: &V, how: usize) -> Result<&'static str, String> {
    match how {
        0..=6 => read(k, Play::new(d, &Cx::new(STYLES[how]))).map_err(|e| e.0),
        7 => read(k, &mut serde_json::Deserializer::from_str(&serde_json::to_string(d).unwrap())).map_err(|e| e.to_string()),
        8 => read(k, serde_json::to_value(d).unwrap()).map_err(|e| e.to_string()),
        _ => {
            let mut b = Vec::new();
            ciborium::into_writer(d, &mut b).unwrap();
            let v: ciborium::Value = ciborium::from_reader(&b[..]).unwrap();
            read(k, v.deserialized::<Raw>().map(|r| r.0).unwrap()).map_err(|e| e.to_string())
        }
    }
}
struct Raw(serde_json::Value);
impl<'de> Deserialize<'de> for Raw {
    fn deserialize<De: Deserializer<'de>>(d: De) -> Result<Self, De::Error> {
        serde_json::Value::deserialize(d).map(Raw)
    }
}

pub fn run(args: &[String]) {
    let mut cx = Ctx::new("C08", args);
    let mut n = 0;
    for k in 0..TRAITS.len() {
        for (tag, times) in TAGS {
            cx.case("every tag", n, |cx| {
                for (j, d) in docs(k, tag).iter().enumerate() {
                    for how in 0..10 {
                        let got = read_doc(k, d, how);
                        judge(cx, k, tag, got, &format!("document {} read by {}", d.show(), how));
                        cx.eval(&format!("{}{}{}{}", k, tag, j, how), *times > 1);
                    }
                }
                cx.sample(&format!("{}", times), || json!({"trait": TRAITS[k].0, "tag": tag, "registered": times, "result": format!("{:?}", read_doc(k, &docs(k, tag)[0], 0))}));
            });
            n += 1;
        }
        // The default variant.
        cx.case("default", k as u64, |cx| {
            let (_, shape, t, Some(def)) = TRAITS[k] else { return };
            let docs = match shape {
                Shape::Int => vec![V::Map(true, vec![]), V::Map(true, vec![(s("other"), V::U8(1))])],
                _ => vec![V::Map(true, vec![(s("c"), V::Unit)])],
            };
            for d in &docs {
                // Unit data does not look at further entries.
                for how in 0..10 {
                    if d == &docs[docs.len() - 1] && docs.len() > 1 && TAGS.iter().any(|t| t.0 == def && t.1 == 1) {
                        continue;
                    }
                    judge(cx, k, def, read_doc(k, d, how), &format!("default variant of {} read by {}", d.show(), how));
                    cx.eval(&format!("default{}{}{}", k, d.show(), how), true);
                }
            }
            let _ = t;
        });
        cx.case("still serializes", k as u64, |cx| {
            for (tag, obj) in all(k) {
                for hr in [true, false] {
                    let got = obj.rec(hr);
                    let (_, shape, t, _) = TRAITS[k];
                    let ok = match (&got, shape) {
                        (Ok(V::Map(_, es)), Shape::Ext) => es.len() == 1 && es[0].0 == s(tag),
                        (Ok(V::Map(_, es)), Shape::Int) => es.len() == 1 && es[0] == (s(t), s(tag)),
                        (Ok(V::Struct(_, fs)), Shape::Adj) => fs.len() == 2 && fs[0] == (t, s(tag)),
                        _ => false,
                    };
                    if !ok {
                        cx.violation(&format!("trait {}: a type registered as {:?} was written as {:?}", TRAITS[k].0, tag, got));
                    }
                    cx.eval(&format!("ser{}{}{}", k, tag, hr), true);
                }
            }
        });
    }
    // Other traits have them once.
    cx.case("other traits", 0, |cx| {
        for tag in ["two", "Same", "three"] {
            for st in STYLES {
                let d = V::Map(true, vec![(s(tag), V::Unit)]);
                let a: Result<Box<dyn OnceExt>, _> = Deserialize::deserialize(Play::new(&d, &Cx::new(*st)));
                let d = V::Map(true, vec![(s("type"), s(tag))]);
                let b: Result<Box<dyn OnceInt>, _> = Deserialize::deserialize(Play::new(&d, &Cx::new(*st)));
                let (a, b) = (a.map(|x| x.tag().to_owned()), b.map(|x| x.tag().to_owned()));
                for r in [a, b] {
                    if !matches!(&r, Ok(x) if x.ends_with(tag)) {
                        cx.violation(&format!("tag {:?}, registered once for another trait, gave {:?}", tag, r));
                    }
                    cx.eval(&format!("other{}{:?}", tag, r), true);
                }
            }
        }
    });
    // The outcome of a lookup does not depend on those before it.
    for n in 0..cx.n(400) {
        cx.case("histories", n, |cx| {
            let mut r = Rng::new(cx.seed, 80, n);
            let mut key = String::new();
            for _ in 0..30 {
                let k = r.below(TRAITS.len());
                let (tag, _) = *r.pick(TAGS);
                let ds = docs(k, tag);
                let d = r.pick(&ds);
                let how = r.below(10);
                judge(cx, k, tag, read_doc(k, d, how), "in a random history");
                key += &format!("{},{},{};", k, tag, how);
            }
            cx.eval(&key, true);
        });
    }
    cx.finish();
}
