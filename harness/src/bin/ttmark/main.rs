//! C17: marker traits and pointers.
#![recursion_limit = "256"]
#![allow(clippy::all)]
use serde::de::Deserialize;
use serde::Serialize;
use serde_json::json;
use std::rc::Rc;
use std::sync::Arc;
use tt_harness::ctx::Ctx;
use tt_harness::fams::{push_template, Pop, Probe};
use tt_harness::formats::{read, ser, Doc, Fmt};
use tt_harness::mutate::{mutate_n, word};
use tt_harness::play::{lower, Cx, Play, Style, STYLES};
use tt_harness::rec::record;
use tt_harness::rng::Rng;
use tt_harness::v::{gen, zoo, Gen, V};

const FMTS: &[Fmt] = &[
    Fmt::JsonStr, Fmt::JsonReader, Fmt::JsonValue, Fmt::Ron, Fmt::Cbor, Fmt::Toml, Fmt::Bincode, Fmt::Postcard,
];

/// The concrete type and its value, or the error.
type Read = Result<(usize, V), String>;

struct Kind {
    name: &'static str,
    tag: Option<&'static str>,
    content: Option<&'static str>,
    names: &'static [&'static str],
    /// The document through every pointer and marker, by whoever wrote it.
    write: fn(usize, V, &mut dyn FnMut(&'static str, &dyn Out)),
    play: fn(&V, &Style) -> Vec<(&'static str, Read)>,
    read: fn(Fmt, &Doc) -> Vec<(&'static str, Read)>,
}

trait Out {
    fn rec(&self, hr: bool) -> Result<V, String>;
    fn doc(&self, f: Fmt) -> Result<Doc, String>;
}
struct W<'a, T: ?Sized>(&'a T);
impl<'a, T: ?Sized + Serialize> Out for W<'a, T> {
    fn rec(&self, hr: bool) -> Result<V, String> {
        record(self.0, hr, None).0.map_err(|e| e.0)
    }
    fn doc(&self, f: Fmt) -> Result<Doc, String> {
        ser(f, self.0)
    }
}

macro_rules! traits {
    ($($m:ident $tr:ident [$($attr:tt)*] ($tag:expr, $content:expr) ($($sup:tt)*) {$([$($mark:tt)*])*};)*) => {
        $(
            mod $m {
                use super::*;
                #[typetag::serde $($attr)*]
                pub trait $tr: $($sup)* {
                    fn which(&self) -> usize;
                    fn value(&self) -> V;
                }
                traits!(@impls $tr 0 "Probe" 1 "Other" 2 "");
                pub fn write(which: usize, v: V, f: &mut dyn FnMut(&'static str, &dyn Out)) {
                    match which {
                        0 => traits!(@write $tr, f Probe::<0>::new(v)),
                        1 => traits!(@write $tr, f Probe::<1>::new(v)),
                        _ => traits!(@write $tr, f Probe::<2>::new(v)),
                    }
                }
                pub fn play(d: &V, st: &Style) -> Vec<(&'static str, Read)> {
                    let mut all = vec![];
                    $(
                        traits!(@play all d st [Box<dyn $tr $($mark)*>] $($mark)*);
                        traits!(@play all d st [Rc<dyn $tr $($mark)*>] $($mark)*);
                        traits!(@play all d st [Arc<dyn $tr $($mark)*>] $($mark)*);
                        traits!(@play all d st [std::sync::Mutex<Box<dyn $tr $($mark)*>>] $($mark)* ; lock() unwrap());
                    )*
                    all
                }
                pub fn read(f: Fmt, d: &Doc) -> Vec<(&'static str, Read)> {
                    let mut all = vec![];
                    $(
                        traits!(@read all d f [Box<dyn $tr $($mark)*>] $($mark)*);
                        traits!(@read all d f [Rc<dyn $tr $($mark)*>] $($mark)*);
                    )*
                    all
                }
            }
        )*
        const KINDS: &[Kind] = &[$(Kind {
            name: stringify!($tr),
            tag: $tag,
            content: $content,
            names: &["Probe", "Other", ""],
            write: $m::write,
            play: $m::play,
            read: $m::read,
        },)*];
    };
    (@impls $tr:ident $($i:literal $name:literal)*) => {$(
        #[typetag::serde(name = $name)]
        impl $tr for Probe<$i> {
            fn which(&self) -> usize { $i }
            fn value(&self) -> V { self.v.clone() }
        }
    )*};
    (@play $all:ident $d:ident $st:ident [$t:ty] $($mark:tt)*) => {
        $all.push((
            stringify!($t),
            <$t>::deserialize(Play::new($d, &Cx::new(*$st))).map(|b| traits!(@look b $($mark)*)).map_err(|e| e.0),
        ));
    };
    (@read $all:ident $d:ident $f:ident [$t:ty] $($mark:tt)*) => {
        $all.push((stringify!($t), super::read::<$t>($f, $d).map(|b| (b.which(), b.value()))));
    };
    (@look $b:ident $(+ $mark:ident)* ; lock() unwrap()) => {{
        let b = $b.into_inner().unwrap();
        (b.which(), b.value())
    }};
    (@look $b:ident $(+ $mark:ident)*) => { ($b.which(), $b.value()) };
    (@write $tr:path, $f:ident $p:expr) => {{
        let mut p = $p;
        $f("&T", &W::<dyn $tr>(&p));
        $f("&(T + Send)", &W::<dyn $tr + Send>(&p));
        $f("&(T + Sync)", &W::<dyn $tr + Sync>(&p));
        $f("&(T + Send + Sync)", &W::<dyn $tr + Send + Sync>(&p));
        $f("&(Sync + Send + T)", &W::<dyn Sync + Send + $tr>(&p));
        $f("&&mut T", &W({ let x: &mut dyn $tr = &mut p; &{x} }));
        $f("&&mut (T + Send)", &W({ let x: &mut (dyn $tr + Send) = &mut p; &{x} }));
        $f("&&T", &W({ let x: &dyn $tr = &p; &{x} }));
        $f("&&(T + Sync)", &W({ let x: &(dyn $tr + Sync) = &p; &{x} }));
        $f("[&T]", &W::<[&dyn $tr]>(&[&p]));
        $f("[&(T + Send)]", &W::<[&(dyn $tr + Send)]>(&[&p]));
        $f("[Some(&(T + Send + Sync))]", &W::<[Option<&(dyn $tr + Send + Sync)>]>(&[Some(&p)]));
        fn short<'a>(x: &(dyn $tr + Send + 'a), f: &mut dyn FnMut(&'static str, &dyn Out)) {
            f("&(T + Send + 'a)", &W(x));
        }
        short(&p, $f);
        let v = p.v.clone();
        let again = move || { let mut q = p_like(&p, v.clone()); q.v = v.clone(); q };
        let b: Box<dyn $tr> = Box::new(again());
        $f("Box<T>", &W(&b));
        let b: Box<dyn $tr + Send> = Box::new(again());
        $f("Box<T + Send>", &W(&b));
        let b: Box<dyn $tr + Sync> = Box::new(again());
        $f("Box<T + Sync>", &W(&b));
        let b: Box<dyn $tr + Send + Sync> = Box::new(again());
        $f("Box<T + Send + Sync>", &W(&b));
        let b: Rc<dyn $tr> = Rc::new(again());
        $f("Rc<T>", &W(&b));
        let b: Arc<dyn $tr + Send + Sync> = Arc::new(again());
        $f("Arc<T + Send + Sync>", &W(&b));
        let b: Box<Arc<Box<dyn $tr + Sync>>> = Box::new(Arc::new(Box::new(again())));
        $f("Box<Arc<Box<T + Sync>>>", &W(&b));
        let b: Vec<Box<dyn $tr + Send + Sync>> = vec![Box::new(again())];
        $f("[Box<T + Send + Sync>]", &W(&b));
        let m = std::sync::Mutex::new(Box::new(again()) as Box<dyn $tr + Send>);
        $f("Mutex<Box<T + Send>>", &W(&m));
        let m = std::cell::RefCell::new(Box::new(again()) as Box<dyn $tr>);
        $f("RefCell<Box<T>>", &W(&m));
    }};
}

fn p_like<const I: usize>(_: &Probe<I>, v: V) -> Probe<I> {
    Probe::new(v)
}


/// Neither marker, to stand before, between and after them.
pub trait Neutral {}
impl<T: ?Sized> Neutral for T {}

traits! {
    e0 Ext0 [] (None, None) (Neutral) {[]};
    e1 Ext1 [] (None, None) (Send) {[] [+ Send]};
    e2 Ext2 [] (None, None) (Sync) {[] [+ Sync]};
    e3 Ext3 [] (None, None) (Send + Sync) {[] [+ Send] [+ Sync] [+ Send + Sync]};
    i0 Int0 [(tag = "type")] (Some("type"), None) (Neutral) {[]};
    i1 Int1 [(tag = "type")] (Some("type"), None) (Neutral + Send) {[] [+ Send]};
    i2 Int2 [(tag = "type")] (Some("type"), None) (Sync + Neutral) {[] [+ Sync]};
    i3 Int3 [(tag = "type")] (Some("type"), None) (Sync + Neutral + Send) {[] [+ Send] [+ Sync] [+ Sync + Send]};
    d0 IntD0 [(tag = "kind", default_variant = "Other")] (Some("kind"), None) (Neutral) {[]};
    d1 IntD1 [(tag = "kind", default_variant = "Other")] (Some("kind"), None) (Send + Neutral) {[] [+ Send]};
    d2 IntD2 [(tag = "kind", default_variant = "Other")] (Some("kind"), None) (Neutral + Sync) {[] [+ Sync]};
    d3 IntD3 [(tag = "kind", default_variant = "Other")] (Some("kind"), None) (Send + Neutral + Sync) {[] [+ Send] [+ Sync] [+ Send + Sync]};
    a0 Adj0 [(tag = "t", content = "c")] (Some("t"), Some("c")) (Neutral) {[]};
    a1 Adj1 [(tag = "t", content = "c")] (Some("t"), Some("c")) (Send) {[] [+ Send]};
    a2 Adj2 [(tag = "t", content = "c")] (Some("t"), Some("c")) (Sync) {[] [+ Sync]};
    a3 Adj3 [(tag = "t", content = "c")] (Some("t"), Some("c")) (Sync + Send) {[] [+ Send] [+ Sync] [+ Send + Sync]};
    n0 AdjD0 [(tag = "t", content = "c", default_variant = "", deny_unknown_fields)] (Some("t"), Some("c")) (Neutral) {[]};
    n1 AdjD1 [(tag = "t", content = "c", default_variant = "", deny_unknown_fields)] (Some("t"), Some("c")) (Send) {[] [+ Send]};
    n2 AdjD2 [(tag = "t", content = "c", default_variant = "", deny_unknown_fields)] (Some("t"), Some("c")) (Sync) {[] [+ Sync]};
    n3 AdjD3 [(tag = "t", content = "c", default_variant = "", deny_unknown_fields)] (Some("t"), Some("c")) (Send + Sync) {[] [+ Send] [+ Sync] [+ Send + Sync]};
    // Every place a lifetime, another trait or a marker may have among the supertraits.
    s0 Sup0 [] (None, None) ('static + Neutral) {[]};
    s1 Sup1 [] (None, None) ('static + Send) {[] [+ Send]};
    s2 Sup2 [] (None, None) (Sync + 'static) {[] [+ Sync]};
    s3 Sup3 [] (None, None) (Send + 'static + Sync) {[] [+ Send] [+ Sync] [+ Send + Sync]};
    u0 Sup4 [(tag = "type")] (Some("type"), None) ('static) {[]};
    u1 Sup5 [(tag = "type")] (Some("type"), None) (Neutral + 'static + Send) {[] [+ Send]};
    u2 Sup6 [(tag = "type")] (Some("type"), None) ('static + Neutral + Sync) {[] [+ Sync]};
    u3 Sup7 [(tag = "type")] (Some("type"), None) (Neutral + Send + Other<u8> + Sync + 'static) {[] [+ Send] [+ Sync] [+ Send + Sync]};
    v0 Sup8 [(tag = "t", content = "c")] (Some("t"), Some("c")) (Neutral + Other<dyn Send>) {[]};
    v1 Sup9 [(tag = "t", content = "c")] (Some("t"), Some("c")) (Other<dyn Sync> + Send + Neutral + 'static) {[] [+ Send]};
    v2 Sup10 [(tag = "t", content = "c")] (Some("t"), Some("c")) (super::Neutral + Sync + for<'a> Lent<'a>) {[] [+ Sync]};
    v3 Sup11 [(tag = "t", content = "c")] (Some("t"), Some("c")) (for<'a> Lent<'a> + Sync + std::any::Any + (Neutral) + Send) {[] [+ Send] [+ Sync] [+ Send + Sync]};
    w0 Sup12 [(tag = "t", content = "c")] (Some("t"), Some("c")) (Neutral) {[]};
    w1 Sup13 [(tag = "t", content = "c")] (Some("t"), Some("c")) ((Neutral) + Send +) {[] [+ Send]};
    w2 Sup14 [(tag = "t", content = "c")] (Some("t"), Some("c")) ('static + 'static + Sync + Sync) {[] [+ Sync]};
    w3 Sup15 [(tag = "t", content = "c")] (Some("t"), Some("c")) (Send + Send + Neutral + Sync + Neutral) {[] [+ Send] [+ Sync] [+ Send + Sync]};
}
pub trait Other<T: ?Sized> {}
impl<S: ?Sized, T: ?Sized> Other<T> for S {}
pub trait Lent<'a> {}
impl<'a, S: ?Sized> Lent<'a> for S {}

/// Traits that are only written, which may be generic.
macro_rules! writers {
    ($($m:ident $base:ident [$($attr:tt)*] [$($g:tt)*] $tr:ident [$($sup:tt)*] [$($args:tt)*] [$($wh:tt)*];)*) => {
        $(
            mod $m {
                use super::*;
                #[typetag::serialize $($attr)*]
                pub trait $tr $($g)* : $($sup)* $($wh)* {
                    fn which(&self) -> usize { 0 }
                }
                writers!(@impl $tr [$($args)*] 0 "Probe");
                writers!(@impl $tr [$($args)*] 1 "Other");
                writers!(@impl $tr [$($args)*] 2 "");
                pub fn write(which: usize, v: V, f: &mut dyn FnMut(&'static str, &dyn Out)) {
                    match which {
                        0 => traits!(@write $tr $($args)*, f Probe::<0>::new(v)),
                        1 => traits!(@write $tr $($args)*, f Probe::<1>::new(v)),
                        _ => traits!(@write $tr $($args)*, f Probe::<2>::new(v)),
                    }
                }
            }
        )*
        const WRITERS: &[(&str, &str, &str, fn(usize, V, &mut dyn FnMut(&'static str, &dyn Out)))] = &[$(
            (stringify!($base), stringify!($tr), stringify!($tr $($g)* : $($sup)* $($wh)*), $m::write),
        )*];
    };
    (@impl $tr:ident [$($args:tt)*] $i:literal $name:literal) => {
        #[typetag::serialize(name = $name)]
        impl $tr $($args)* for Probe<$i> {}
    };
}
writers! {
    x0 Ext0 [] [] Only0 [Neutral] [] [];
    x1 Ext0 [] [<T>] Gen0 [Neutral] [<u8>] [];
    x2 Ext0 [] [<T: Clone, U = u8>] Gen1 [Neutral] [<String>] [where U: Copy];
    x3 Ext0 [] [<const N: usize>] Gen2 [Neutral + Send] [<3>] [];
    x4 Ext0 [] [<T, const B: bool>] Gen3 [Sync + Send] [<Vec<Option<u8>>, true>] [where T: PartialEq];
    x5 Ext0 [] [<'t>] Life0 [Neutral + Lent<'t>] [<'static>] [];
    y0 Int0 [(tag = "type")] [] Only1 [Send] [] [];
    y1 Int0 [(tag = "type")] [<T>] Gen4 [Neutral] [<u8>] [];
    y2 Int0 [(tag = "type")] [<T: Copy + ?Sized>] Gen5 [Sync] [<u8>] [];
    y3 Int0 [(tag = "type")] [<T, U, const N: usize>] Gen6 [Neutral] [<u8, fn(u8) -> u8, 0>] [where T: Into<u64>];
    y4 Int0 [(tag = "type")] [<'t>] Life1 [Send] [<'static>] [];
    z0 Adj0 [(tag = "t", content = "c")] [] Only2 [Sync] [] [];
    z1 Adj0 [(tag = "t", content = "c")] [<T>] Gen7 [Neutral] [<u8>] [];
    z2 Adj0 [(tag = "t", content = "c")] [<T = u8>] Gen8 [Other<T>] [<u8>] [];
    z3 Adj0 [(tag = "t", content = "c")] [<T: 'static, const C: char>] Gen9 [Send + Other<T> + Sync] [<&'static str, 'x'>] [];
}

/// The document of a trait that can be read as well.
fn only(cx: &mut Ctx, r: &mut Rng, k: usize, v: V) {
    let (base, short, name, write) = WRITERS[k];
    let plain = |d: &Result<V, String>| format!("{:?}", d).replace(short, "Trait");
    let base = KINDS.iter().find(|b| b.name == base).unwrap();
    let which = r.below(3);
    let hr = r.one_in(2);
    let f = *r.pick(FMTS);
    let mut want = None;
    (base.write)(which, v.clone(), &mut |_, o| {
        want.get_or_insert_with(|| (nameless(base, &o.rec(hr)), o.doc(f)));
    });
    let (want, doc) = want.unwrap();
    let (mut wrong, mut n) = (vec![], 0);
    write(which, v.clone(), &mut |how, o| {
        n += 1;
        let rec = o.rec(hr);
        let got = match (&rec, how.starts_with('[')) {
            (Ok(V::Seq(_, xs)), true) => match xs.first() {
                Some(V::Some(x)) => plain(&Ok((**x).clone())),
                Some(x) => plain(&Ok(x.clone())),
                None => "nothing".to_string(),
            },
            _ => plain(&rec),
        };
        if got != want {
            wrong.push(format!("{}: {} but {} gives {}", how, got, base.name, want));
        }
        if !how.starts_with('[') && o.doc(f).is_ok() != doc.is_ok() {
            wrong.push(format!("{} in {:?}: {:?} but {} gives {:?}", how, f, o.doc(f), base.name, doc));
        }
    });
    for w in wrong {
        cx.violation(&format!("trait {}, {}: written through {}", name, v.show(), w));
    }
    cx.count("traits that are only written, and generic ones, written through", n);
    cx.eval(&format!("o{}{}{}{:?}{}", k, which, hr, f, v.show()), true);
}

/// What may stand around the object without changing its document.
fn around(how: &str, d: &V) -> V {
    if how.starts_with("[Some(") {
        V::Seq(true, vec![V::Some(Box::new(d.clone()))])
    } else if how.starts_with('[') {
        V::Seq(true, vec![d.clone()])
    } else {
        d.clone()
    }
}

fn run(_: &str, args: &[String]) {
    let mut cx = Ctx::new("C17", args);
    let zoo = zoo();
    let mut n = 0;
    for k in 0..KINDS.len() {
        for v in &zoo {
            cx.case("zoo", n, |cx| {
                let mut r = Rng::new(cx.seed, 600, n);
                one(cx, &mut r, k, v.clone());
            });
            n += 1;
        }
    }
    n = 0;
    for k in 0..WRITERS.len() {
        for v in &zoo {
            cx.case("only written", n, |cx| {
                let mut r = Rng::new(cx.seed, 602, n);
                only(cx, &mut r, k, v.clone());
            });
            n += 1;
        }
    }
    for n in 0..cx.n(4000) {
        cx.case("random", n, |cx| {
            let mut r = Rng::new(cx.seed, 601, n);
            let k = r.below(KINDS.len());
            let v = gen(&mut r, &Gen::all(), 0);
            one(cx, &mut r, k, v);
        });
    }
    cx.finish();
}

fn one(cx: &mut Ctx, r: &mut Rng, k: usize, v: V) {
    let kind = &KINDS[k];
    let which = r.below(3);
    let hr = r.one_in(2);
    let f = *r.pick(FMTS);
    // Writing: every spelling gives what the first gave.
    let mut plain: Option<(Result<V, String>, Result<Doc, String>)> = None;
    let mut wrong = vec![];
    let mut n = 0;
    (kind.write)(which, v.clone(), &mut |how, o| {
        let rec = o.rec(hr);
        match &plain {
            None => plain = Some((rec, o.doc(f))),
            Some((p, d)) => {
                n += 1;
                let agree = match (p, &rec) {
                    (Ok(p), Ok(q)) => around(how, p) == *q,
                    (Err(p), Err(q)) => p == q,
                    _ => false,
                };
                if !agree {
                    wrong.push(format!("{}: {:?} as &T gives {:?}", how, rec, p));
                }
                if !how.starts_with('[') {
                    let g = o.doc(f);
                    if g != *d {
                        wrong.push(format!("{} in {:?}: {:?}, as &T {:?}", how, f, g, d));
                    }
                }
            }
        }
    });
    for w in wrong {
        cx.violation(&format!("trait {}, {}: written through {}", kind.name, v.show(), w));
    }
    cx.count("markers and pointers written through", n);
    cx.eval(&format!("w{}{}{}{:?}{}", k, which, hr, f, v.show()), true);
    let Some((written, real)) = plain else { return };
    // A trait with supertraits behaves like the one without.
    let base = &KINDS[k - k % 4];
    let mut first = None;
    (base.write)(which, v.clone(), &mut |_, o| {
        first.get_or_insert_with(|| o.rec(hr));
    });
    let (a, b) = (nameless(kind, &written), nameless(base, &first.unwrap()));
    if a != b {
        cx.violation(&format!("traits {} and {}, {}: written as {} and {}", kind.name, base.name, v.show(), a, b));
    }
    let Ok(doc) = written else { return };
    // Reading: every marker and pointer the trait allows gives what the strictest gives.
    push_template(v.clone());
    let _pop = Pop;
    let mut docs = vec![lower(&doc)];
    for _ in 0..3 {
        let mut d = docs[0].clone();
        mutate_n(r, &mut d, 2);
        docs.push(d);
    }
    if let V::Map(_, es) = &docs[0] {
        // Other tags, and none.
        let mut es = es.clone();
        let tag = V::Str(if r.one_in(2) { word(r) } else { kind.names[r.below(3)].to_string() });
        match (kind.tag, r.below(3)) {
            (None, _) => es[0].0 = tag,
            (Some(t), 0) => es.retain(|e| e.0 != V::Str(t.into())),
            (Some(_), 1) => es[0].1 = tag,
            (Some(_), _) => es.rotate_left(1),
        }
        if r.one_in(3) {
            es.push((V::Str(kind.content.unwrap_or("x").into()), V::Unit));
        }
        docs.push(V::Map(true, es));
    }
    for d in &docs {
        let st = *r.pick(STYLES);
        let got = (kind.play)(d, &st);
        let other = (base.play)(d, &st);
        let (a, b) = (nameless(kind, &got[0].1), nameless(base, &other[0].1));
        if a != b {
            cx.violation(&format!("traits {} and {}, {:?}: {} is read as {} and {}", kind.name, base.name, st, d.show(), a, b));
        }
        compare(cx, kind, &format!("{:?}", st), &d.show(), got);
    }
    if let Ok(d) = real {
        compare(cx, kind, &format!("{:?}", f), &d.show(), (kind.read)(f, &d));
        if let Doc::Bytes(b) = &d {
            let mut b = b.clone();
            if !b.is_empty() {
                let i = r.below(b.len());
                if r.one_in(2) {
                    b[i] = b[i].wrapping_add(1 << r.below(8));
                } else {
                    b.truncate(i);
                }
                let d = Doc::Bytes(b);
                compare(cx, kind, &format!("{:?}", f), &d.show(), (kind.read)(f, &d));
            }
        }
    }
}

fn nameless<T: std::fmt::Debug>(k: &Kind, t: &T) -> String {
    format!("{:?}", t).replace(k.name, "Trait")
}

fn compare(cx: &mut Ctx, kind: &Kind, how: &str, doc: &str, got: Vec<(&'static str, Read)>) {
    cx.count(if got[0].1.is_ok() { "documents accepted" } else { "documents rejected" }, 1);
    for (m, g) in &got[1..] {
        if *g != got[0].1 {
            cx.violation(&format!(
                "trait {}, {}: {} is read as {} giving {:?} and as {} giving {:?}", kind.name, how, doc, m, g, got[0].0, got[0].1));
        }
        cx.count("reads compared", 1);
    }
    cx.eval(&format!("r{}{}{}", kind.name, how, doc), got.len() > 2);
    cx.sample(&format!("{} {}", kind.name, got[0].1.is_ok()), || json!({"how": how, "document": doc, "read as": got.iter().map(|g| g.0).collect::<Vec<_>>()}));
}

fn main() {
    tt_harness::main(run)
}
