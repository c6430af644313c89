//! C06: the position of the tag does not matter.
use crate::c_rt::odd_keys;
use crate::ctx::Ctx;
use crate::fams::{self, FAMS, TAGS};
use crate::formats::{de, ser, Fmt};
use crate::model::{self, Tag};
use crate::mutate::{leaf, mutate_n, with_node, word};
use crate::play::{lower, lower_in, Cx, Play, Style, STYLES};
use crate::rng::Rng;
use crate::v::{self, deep, gen, in_manner, zoo, Gen, Manner, V};
use serde_json::json;

pub fn run(args: &[String]) {
    let mut cx = Ctx::new("C06", args);
    let fams: Vec<usize> = fams::int().into_iter().chain(fams::adj()).collect();
    let mut n = 0;
    for v in zoo().into_iter().chain(v::ref_zoo()) {
        for &k in &fams {
            for which in [0, 1] {
                cx.case("zoo", n, |cx| {
                    let st = &STYLES[n as usize % STYLES.len()];
                    every_spot(cx, k, which, &v, st);
                    every_spot(cx, k, which, &v, &STYLES[0]);
                });
                n += 1;
            }
        }
    }
    for (n, (d, style)) in [(3, 0), (30, 1), (60, 2), (60, 3), (60, 4), (60, 5), (60, 6), (60, 7), (60, 8)].into_iter().enumerate() {
        cx.case("deep", n as u64, |cx| {
            for &k in &fams {
                every_spot(cx, k, 0, &deep(d, style), &STYLES[n % STYLES.len()]);
            }
        });
    }
    for (n, v) in v::wide().into_iter().enumerate() {
        for j in 0..3 {
            cx.case("wide", (n * 3 + j) as u64, |cx| {
                every_spot(cx, fams[(n * 5 + j * 7) % fams.len()], j, &v, &STYLES[(n + j) % STYLES.len()]);
            });
        }
    }
    for n in 0..cx.n(12_000) {
        cx.case("random", n, |cx| {
            let mut r = Rng::new(cx.seed, 6, n);
            let k = *r.pick(&fams);
            let mut g = Gen::all();
            g.refs = r.one_in(4);
            g.repeats = r.one_in(5);
            g.odd_keys = false;
            g.avoid = fams::avoid(k);
            if r.one_in(3) {
                g.dyns = fams.clone();
            }
            let v = gen(&mut r, &g, 0);
            let which = r.below(TAGS.len());
            let st = *r.pick(STYLES);
            every_spot(cx, k, which, &v, &st);
            if v.any(&|v| matches!(v, V::Dyn(..))) && !model::clashes(k, &v) && !odd_keys(&v) {
                for j in 0..4 {
                    let mut r2 = Rng::new(cx.seed, 7 + j, n);
                    let obj = V::Dyn(k, which, Box::new(v.clone()));
                    let make = |st: &Style| {
                        let mut r2 = Rng::new(r2.next(), 1, n);
                        model::with_spots(move |n| r2.below(n), || lower_in(st, &model::resolve(&obj, st.hr)))
                    };
                    let mut r3 = make;
                    check(cx, &obj, &mut r3, &st, &format!("shuffled inside, seed {}", j));
                    cx.count("documents with nested tags moved", 1);
                }
            }
        });
    }
    // Data that is something else than the type wants, or more, or less.
    for n in 0..cx.n(12_000) {
        cx.case("unfit", n, |cx| {
            let mut r = Rng::new(cx.seed, 61, n);
            let k = *r.pick(&fams);
            let mut g = Gen::all();
            g.odd_keys = false;
            g.big = false;
            g.avoid = fams::avoid(k);
            let mut v = gen(&mut r, &g, 0);
            let mut tpl = if r.one_in(4) { gen(&mut r, &g, 0) } else { v.clone() };
            let bends = r.below(3);
            if bends == 0 {
                repeat(&mut r, &mut v);
            }
            for _ in 0..bends {
                bend(&mut r, &mut tpl);
            }
            let st = *r.pick(STYLES);
            unfit(cx, k, &v, &tpl, &st);
            in_manner(manner(r.next()), || unfit(cx, k, &v, &tpl, &st));
        });
    }
    // Documents no object would give.
    for n in 0..cx.n(16_000) {
        cx.case("odd documents", n, |cx| {
            let mut r = Rng::new(cx.seed, 62, n);
            let k = *r.pick(&fams);
            let mut g = Gen::all();
            g.odd_keys = false;
            g.big = false;
            g.avoid = fams::avoid(k);
            let v = gen(&mut r, &g, 0);
            let st = *r.pick(STYLES);
            let m = if r.one_in(2) { Manner::default() } else { manner(r.next()) };
            odd_document(cx, &mut r, k, &v, &st, m);
        });
    }
    cx.finish();
}

fn odd_document(cx: &mut Ctx, r: &mut Rng, k: usize, v: &V, st: &Style, m: Manner) {
    if model::clashes(k, v) || odd_keys(v) {
        return cx.count("skipped: keys", 1);
    }
    let which = r.below(TAGS.len());
    let V::Map(_, mut rest) = lower_in(st, &model::doc(k, which, v, st.hr)) else { unreachable!() };
    let tag = rest.remove(0);
    let mut rest = match FAMS[k].tag {
        Tag::Adj(..) => {
            mutate_n(r, &mut rest[0].1, 2);
            rest
        }
        _ => {
            let mut rest = V::Map(true, rest);
            mutate_n(r, &mut rest, 2);
            let V::Map(_, rest) = rest else { return };
            rest
        }
    };
    // The first entry of that name is the tag, and comes before any other.
    let last = rest.iter().position(|e| e.0 == tag.0).unwrap_or(rest.len());
    if r.one_in(4) {
        let at = last.min(r.below(rest.len() + 1));
        let value = match r.below(4) {
            0 => tag.1.clone(),
            1 => V::Str(fams::tag_of(k, r.below(TAGS.len())).into()),
            2 => V::Str(word(r)),
            _ => leaf(r),
        };
        rest.insert(at, (tag.0.clone(), value));
        cx.count("documents with the tag repeated", 1);
    }
    let last = rest.iter().position(|e| e.0 == tag.0).unwrap_or(rest.len());
    let asked = V::Dyn(k, which, Box::new(v.clone()));
    let whole = V::Map(true, rest.clone());
    let hollow = |v: &V| match v {
        V::Seq(_, xs) => xs.is_empty(),
        V::Map(_, es) => es.is_empty() || es.iter().any(|e| !matches!(e.0, V::Str(_)) && !(st.indexed && matches!(e.0, V::U8(_)))),
        V::Char(_) => true,
        V::Some(x) => nullish(x),
        _ => false,
    };
    if whole.any(&hollow) || rest.iter().any(|e| !matches!(e.0, V::Str(_))) {
        return cx.count("skipped: buffered data passes for more", 1);
    }
    if st.some_plain {
        for e in &mut rest {
            put(&mut e.1, &mut |v| {
                while let V::Some(x) = v {
                    *v = (**x).clone();
                }
            });
        }
    }
    let at = |p: usize| {
        let mut es = rest.clone();
        es.insert(p, tag.clone());
        V::Map(true, es)
    };
    let mut places = vec![1, last / 2, last];
    places.retain(|&p| p > 0 && p <= last);
    places.dedup();
    let mut ways: Vec<Option<Fmt>> = vec![None];
    if st.indexed || st.newtypes || whole.any(&|v| matches!(v, V::I128(_) | V::U128(_)))
        || v.any(&|v| matches!(v, V::Bytes(_) | V::RefBytes(_)))
    {
        // Integers of that size are not JSON's, nor are bytes, for which a string passes directly.
        cx.count("odd documents not put into formats", 1);
    } else if st.hr {
        ways.extend([Some(Fmt::JsonStr), Some(Fmt::JsonReader)]);
    }
    for f in ways {
        let read = |doc: &V| match f {
            None => v::de(&asked, Play::new(doc, &Cx::new(*st))).map_err(|e| e.to_string()),
            Some(f) => de(f, &ser(f, doc)?, &asked),
        };
        in_manner(m, || {
            let first = at(0);
            let base = read(&first);
            for &p in &places {
                let doc = at(p);
                let got = read(&doc);
                let agree = match (&base, &got) {
                    (Ok(a), Ok(b)) => a == b,
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if !agree {
                    cx.violation(&format!(
                        "{:?} {} read as {} in {:?} gave {:?}, but {:?} from {} in style {:?}",
                        f, first.show(), asked.show(), m, base.as_ref().map(|v| v.show()), got.map(|v| v.show()), doc.show(), st
                    ));
                }
                cx.count(if base.is_ok() { "odd documents read wherever the tag is" } else { "odd documents refused wherever the tag is" }, 1);
                cx.eval(&format!("odd{:?}{:?}{:?}{:?}", f, asked, doc, m), true);
            }
        });
    }
}

fn put(t: &mut V, f: &mut dyn FnMut(&mut V)) {
    f(t);
    match t {
        V::Some(v) | V::NewtypeStruct(_, v) | V::NewtypeVariant(_, _, _, v) | V::Dyn(_, _, v) => put(v, f),
        V::Seq(_, vs) | V::Tuple(vs) | V::TupleStruct(_, vs) | V::TupleVariant(_, _, _, vs) => vs.iter_mut().for_each(|v| put(v, f)),
        V::Map(_, es) => es.iter_mut().for_each(|(k, v)| {
            put(k, f);
            put(v, f)
        }),
        V::Struct(_, fs) | V::StructVariant(_, _, _, fs) => fs.iter_mut().for_each(|(_, v)| put(v, f)),
        V::Hr(a, b) => {
            put(a, f);
            put(b, f)
        }
        _ => {}
    }
}

/// Some field or key twice.
fn repeat(r: &mut Rng, v: &mut V) {
    let mut left = r.below(3);
    let (which, other) = (r.next() as usize, V::U8(r.below(3) as u8));
    let same = r.one_in(2);
    put(v, &mut |v| {
        let n = match v {
            V::Struct(_, fs) | V::StructVariant(_, _, _, fs) => fs.len(),
            V::Map(_, es) => es.len(),
            _ => 0,
        };
        if n == 0 {
            return;
        }
        if left == 0 {
            match v {
                V::Struct(_, fs) | V::StructVariant(_, _, _, fs) => {
                    let (name, v) = fs[which % n].clone();
                    fs.push((name, if same { v } else { other.clone() }));
                }
                V::Map(_, es) => {
                    let (key, v) = es[which % n].clone();
                    es.push((key, if same { v } else { other.clone() }));
                }
                _ => {}
            }
        }
        left = left.wrapping_sub(1);
    });
}

/// A type that is nearly the right one.
fn bend(r: &mut Rng, t: &mut V) {
    let mut g = Gen::all();
    g.odd_keys = false;
    g.big = false;
    let at = r.below(t.size());
    let other = gen(r, &g, 2);
    *t = with_node(t, &mut { at }, &other);
    // Elements and fields more or less.
    let mut left = r.below(4);
    let (more, which) = (r.one_in(2), r.next() as usize);
    put(t, &mut |v| match v {
        V::Tuple(vs) | V::TupleStruct(_, vs) | V::TupleVariant(_, _, _, vs) => {
            if left == 0 {
                if more {
                    vs.push(V::Unit);
                } else {
                    vs.pop();
                }
            }
            left = left.wrapping_sub(1);
        }
        V::Struct(_, fs) | V::StructVariant(_, _, _, fs) => {
            if left == 0 {
                if more {
                    fs.push(("surplus", V::U8(0)));
                } else if !fs.is_empty() {
                    let i = which % fs.len();
                    fs.remove(i);
                }
            }
            left = left.wrapping_sub(1);
        }
        _ => {}
    });
}

/// Refused or accepted alike wherever the tag is.
fn unfit(cx: &mut Ctx, k: usize, v: &V, tpl: &V, st: &Style) {
    if model::clashes(k, v) || odd_keys(v) || odd_keys(tpl) {
        return cx.count("skipped: keys", 1);
    }
    // Buffered data passes for a little more than it does when read directly, as in serde
    // itself: nothing inside brackets for a unit struct. A char is only a char if the format
    // says so, and a Some(null) is spelled like a None.
    let hollow = |v: &V| match v {
        V::Seq(_, xs) | V::Tuple(xs) | V::TupleStruct(_, xs) | V::TupleVariant(_, _, _, xs) => xs.is_empty(),
        V::Map(_, es) => es.is_empty(),
        V::Struct(_, fs) | V::StructVariant(_, _, _, fs) => fs.is_empty(),
        _ => false,
    };
    if v.any(&|v| matches!(v, V::Char(_)))
        || v.any(&|v| matches!(v, V::Some(x) if nullish(x)))
        || v.any(&hollow) && tpl.any(&|t| matches!(t, V::UnitStruct(_)))
    {
        return cx.count("skipped: buffered data passes for more", 1);
    }
    let asked = V::Dyn(k, 0, Box::new(tpl.clone()));
    let places = match model::doc(k, 0, v, st.hr) {
        V::Map(_, es) => es.len(),
        _ => 2,
    };
    let read = |p: usize| {
        let doc = model::with_spots(move |n| if n == places { p } else { 0 }, || lower_in(st, &model::doc(k, 0, v, st.hr)));
        let got = v::de(&asked, Play::new(&doc, &Cx::new(*st)));
        (got, doc)
    };
    let (base, first) = read(0);
    for p in [1, places / 2, places - 1] {
        let (got, doc) = read(p.min(places - 1));
        let agree = match (&base, &got) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !agree {
            cx.violation(&format!(
                "{} read as {} gave {:?}, but {:?} from {} in style {:?}",
                first.show(), tpl.show(), base.as_ref().map(|v| v.show()), got.map(|v| v.show()), doc.show(), st
            ));
        }
        cx.count(if base.is_ok() { "another type, read wherever the tag is" } else { "another type, refused wherever the tag is" }, 1);
        cx.eval(&format!("unfit{}{:?}{:?}{:?}{}", k, v, tpl, st, p), true);
    }
}

fn every_spot(cx: &mut Ctx, k: usize, which: usize, v: &V, st: &Style) {
    if model::clashes(k, v) || odd_keys(v) {
        return cx.count("skipped: keys", 1);
    }
    let obj = V::Dyn(k, which, Box::new(v.clone()));
    let places = match FAMS[k].tag {
        Tag::Adj(..) => 2,
        _ => match model::doc(k, which, v, st.hr) {
            V::Map(_, es) => es.len(),
            _ => unreachable!(),
        },
    };
    let all: Vec<usize> = if places <= 8 { (0..places).collect() } else { vec![0, 1, places / 2, places - 2, places - 1] };
    for p in all {
        let mut make = |st: &Style| {
            model::with_spots(move |n| if n == places { p } else { 0 }, || lower_in(st, &model::doc(k, which, v, st.hr)))
        };
        check(cx, &obj, &mut make, st, &format!("tag at {} of {}", p, places));
        cx.count(if p == 0 { "documents with the tag first" } else { "documents with the tag moved" }, 1);
    }
}

/// Other ways of going about it than asking for what is there.
pub fn manner(n: u64) -> Manner {
    Manner { any: if n % 4 == 3 { 0 } else { 1 + n / 4 }, odd: false, lazy: n % 4 > 1, strict: false }
}

fn check(cx: &mut Ctx, obj: &V, make: &mut dyn FnMut(&Style) -> V, st: &Style, what: &str) {
    check_in(cx, obj, make, st, what, Manner::default());
    let mut m = manner(cx.evaluations);
    // Where nothing and no value look the same, no reader can tell them apart.
    m.strict = !st.null_unit;
    m.odd = true;
    in_manner(m, || check_in(cx, obj, make, st, what, m));
}

fn check_in(cx: &mut Ctx, obj: &V, make: &mut dyn FnMut(&Style) -> V, st: &Style, what: &str, m: Manner) {
    let doc = make(st);
    let plain = model::resolve(obj, st.hr);
    let plain = lower_in(st, &plain);
    // Read with the tag in front, in the same style.
    let base = v::de(obj, Play::new(&plain, &Cx::new(*st)));
    let (got, mistold, asked) = v::told(st.hr, || v::de(obj, Play::new(&doc, &Cx::new(*st))));
    // A Some(null) is spelled like a None.
    let plain_some = obj.any(&|v| matches!(v, V::Some(x) if nullish(x)));
    if base.as_ref() != Ok(obj) || st.some_plain && plain_some {
        return cx.count("skipped: not read back with the tag first either", 1);
    }
    if got.as_ref() != Ok(obj) {
        cx.violation(&format!(
            "{}: {} read in {:?} from {} in style {:?} as {:?}",
            what, obj.show(), m, doc.show(), st, got.map(|v| v.show())
        ));
    }
    if mistold > 0 {
        cx.violation(&format!(
            "{}: {} of {} deserializers told that the format is not what it is, human-readable {}, reading {} in {:?} from {} in style {:?}",
            what, mistold, asked, st.hr, obj.show(), m, doc.show(), st
        ));
    }
    cx.count("deserializers asked whether the format is human-readable", asked);
    cx.eval(&format!("{:?}{:?}{}{:?}", obj, st, what, m), doc.size() > 3);
    if m.any != 0 {
        cx.count("documents read as whatever they offer", 1);
    }
    if m.lazy {
        cx.count("documents read up to the last entry wanted", 1);
    }
    cx.sample(what, || json!({"document": doc.show(), "style": format!("{:?}", st)}));
    for f in [Fmt::JsonStr, Fmt::JsonReader, Fmt::Cbor] {
        if f != Fmt::Cbor && obj.any(&|v| matches!(v, V::I128(_) | V::U128(_))) {
            continue;
        }
        if plain_some {
            continue;
        }
        // An error deep inside takes CBOR ages (see the known findings).
        if f == Fmt::Cbor && m.any != 0 {
            continue;
        }
        if m.strict && f != Fmt::Cbor {
            continue;
        }
        if f != Fmt::JsonReader || cx.evaluations % 4 == 0 {
            real(cx, f, obj, make(&Style { hr: f.human(), newtypes: false, indexed: false, ..*st }), what);
        }
    }
}

fn real(cx: &mut Ctx, f: Fmt, obj: &V, doc: V, what: &str) {
    let plain = lower(&model::resolve(obj, f.human()));
    let (Ok(a), Ok(b)) = (ser(f, &plain), ser(f, &doc)) else { return };
    if de(f, &a, obj).as_ref() != Ok(obj) {
        return cx.count("skipped: not read back with the tag first either", 1);
    }
    match de(f, &b, obj) {
        Ok(g) if g == *obj => {}
        r => cx.violation(&format!("{}: {:?} {} read from {} as {:?}", what, f, obj.show(), b.show(), r.map(|v| v.show()))),
    }
    cx.count(&format!("documents read in {:?}", f), 1);
    cx.eval(&format!("{:?}{:?}{}", f, obj, what), true);
}

pub fn nullish(v: &V) -> bool {
    match v {
        V::Unit | V::UnitStruct(_) | V::None => true,
        V::NewtypeStruct(_, x) | V::Some(x) => nullish(x),
        V::Hr(a, b) => nullish(a) || nullish(b),
        _ => false,
    }
}
