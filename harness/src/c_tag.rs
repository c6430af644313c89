//! C10: internally tagged documents without a tag. C11: data with a field named like it.
use crate::c_rt::odd_keys;
use crate::ctx::Ctx;
use crate::fams::{self, FAMS, TAGS};
use crate::formats::{de, ser, Fmt};
use crate::model::{self, s, Tag};
use crate::play::{lower, Cx, Play, Style, STYLES};
use crate::rec::record;
use crate::rng::Rng;
use crate::v::{self, deep, gen, zoo, Gen, FIELDS, V};
use serde_json::json;

fn tag_field(k: usize) -> (&'static str, Option<&'static str>) {
    match FAMS[k].tag {
        Tag::Int(t, d) => (t, d),
        _ => unreachable!(),
    }
}

pub fn run10(args: &[String]) {
    let mut cx = Ctx::new("C10", args);
    let fams = fams::int();
    let mut n = 0;
    for v in zoo() {
        for &k in &fams {
            cx.case("zoo", n, |cx| {
                tagless(cx, k, &v, &STYLES[n as usize % STYLES.len()]);
                tagless(cx, k, &v, &STYLES[0]);
            });
            n += 1;
        }
    }
    for style in 0..9 {
        cx.case("deep", style, |cx| {
            for &k in &fams {
                tagless(cx, k, &deep(if style == 0 { 2 } else { 40 }, style as usize), &STYLES[style as usize % STYLES.len()]);
            }
        });
    }
    for (n, v) in v::wide().into_iter().enumerate() {
        for j in 0..3 {
            cx.case("wide", (n * 3 + j) as u64, |cx| {
                tagless(cx, fams[(n * 5 + j) % fams.len()], &v, &STYLES[(n + j) % STYLES.len()]);
            });
        }
    }
    let defaults: Vec<usize> = fams.iter().copied().filter(|&k| tag_field(k).1.is_some()).collect();
    for n in 0..cx.n(10_000) {
        cx.case("random", n, |cx| {
            let mut r = Rng::new(cx.seed, 100, n);
            let k = if r.one_in(4) { *r.pick(&fams) } else { *r.pick(&defaults) };
            let mut g = Gen::all();
            g.odd_keys = false;
            g.avoid = fams::avoid(k);
            if r.one_in(4) {
                g.dyns = (0..FAMS.len()).collect();
            }
            let v = gen(&mut r, &g, 0);
            let st = *r.pick(STYLES);
            tagless(cx, k, &v, &st);
        });
    }
    // Data that is not a map is in the entry named for it, and in no other.
    n = 0;
    for v in zoo() {
        for &k in &fams {
            cx.case("another name", n, |cx| another_name(cx, k, n as usize % TAGS.len(), &v, &STYLES[n as usize % STYLES.len()]));
            n += 1;
        }
    }
    // A tag that is there wins, wherever it is and whatever it says.
    n = 0;
    for &k in &fams {
        let (t, default) = tag_field(k);
        let known = fams::tags_of(k);
        let tags: Vec<&str> = known.iter().copied().chain(["nope", "probe2", "Probe2 ", "x", "kind", "\0"]).collect();
        for tag in tags {
            cx.case("present", n, |cx| {
                let data = V::Struct("S", vec![("a", V::U8(1)), ("b", V::Bool(true)), ("zzz", V::Unit)]);
                if model::clashes(k, &data) {
                    return;
                }
                for spot in 0..4 {
                    let mut es = vec![(s("a"), V::U8(1)), (s("b"), V::Bool(true)), (s("zzz"), V::Unit)];
                    es.insert(spot, (s(t), s(tag)));
                    let doc = V::Map(true, es);
                    for st in STYLES {
                        let got = v::de(&V::Dyn(k, 0, Box::new(data.clone())), Play::new(&doc, &Cx::new(*st)));
                        let ok = match &got {
                            Ok(V::Dyn(_, w, x)) => known.contains(&tag) && fams::tag_of(k, *w) == tag && **x == data,
                            Ok(_) => false,
                            Err(e) => !known.contains(&tag) && e.0.contains(tag),
                        };
                        if !ok {
                            cx.violation(&format!("trait {} (default {:?}): {} gave {:?}", FAMS[k].trait_name, default, doc.show(), got));
                        }
                        cx.eval(&format!("present{}{}{}{:?}", k, tag, spot, st), true);
                        cx.count("documents with a tag", 1);
                    }
                }
                // Not even a tag that is no string makes way for the default.
                for bad in [V::Unit, V::None, V::U8(0), V::Bool(false), V::Seq(true, vec![]), V::Map(true, vec![])] {
                    let doc = V::Map(true, vec![(s("a"), V::U8(1)), (s(t), bad), (s("b"), V::Bool(true)), (s("zzz"), V::Unit)]);
                    for st in STYLES {
                        if let Ok(g) = v::de(&V::Dyn(k, 0, Box::new(data.clone())), Play::new(&doc, &Cx::new(*st))) {
                            cx.violation(&format!("trait {}: {} gave {}", FAMS[k].trait_name, doc.show(), g.show()));
                        }
                    }
                }
            });
            n += 1;
        }
    }
    cx.finish();
}

fn another_name(cx: &mut Ctx, k: usize, which: usize, v: &V, st: &Style) {
    let data = model::resolve(v, st.hr);
    let mut x = &data;
    while let V::NewtypeStruct(_, y) = x {
        x = y;
    }
    let entries = matches!(x, V::Map(..) | V::Struct(..) | V::Unit | V::UnitStruct(_) | V::None
        | V::UnitVariant(..) | V::NewtypeVariant(..) | V::TupleVariant(..) | V::StructVariant(..) | V::Dyn(..));
    if entries || model::clashes(k, v) {
        return cx.count("skipped: more than one value", 1);
    }
    let (t, _) = tag_field(k);
    let V::Map(_, es) = lower(&model::doc(k, which, v, st.hr)) else { unreachable!() };
    let read = |es: Vec<(V, V)>| {
        let doc = V::Map(true, es);
        let got = v::de(&V::Dyn(k, which, Box::new(v.clone())), Play::new(&doc, &Cx::new(*st)));
        (doc, got)
    };
    for name in ["Value", "values", "val", "", "value ", "value\0", "content", "0", "type", "$value"] {
        if name == t {
            continue;
        }
        for last in [false, true] {
            let mut es = es.clone();
            assert!(es.len() == 2 && es[1].0 == s("value"));
            if last {
                es.rotate_left(1);
            }
            let usual = read(es.clone()).1;
            es[if last { 0 } else { 1 }].0 = s(name);
            let (doc, got) = read(es);
            if let Ok(g) = got {
                cx.violation(&format!("trait {} data {} in style {:?}: {} gave {}", FAMS[k].trait_name, data.show(), st, doc.show(), g.show()));
            }
            cx.count(if usual.is_ok() { "values under another name" } else { "unreadable under any name" }, 1);
            cx.eval(&format!("named{:?}{:?}{}{}{:?}", (k, which), v, name, last, st), usual.is_ok());
        }
    }
}

fn tagless(cx: &mut Ctx, k: usize, v: &V, st: &Style) {
    if model::clashes(k, v) || odd_keys(v) {
        return cx.count("skipped: keys", 1);
    }
    let (t, default) = tag_field(k);
    let which = default.map_or(0, |d| (0..TAGS.len()).find(|w| fams::tag_of(k, *w) == d).unwrap());
    // What the template says about the type is not what comes out.
    let obj = V::Dyn(k, which, Box::new(v.clone()));
    let asked = V::Dyn(k, (which + 3) % TAGS.len(), Box::new(v.clone()));
    let make = |hr: bool, tag: bool| {
        let V::Map(d, mut es) = lower(&model::doc(k, which, v, hr)) else { unreachable!() };
        if !tag {
            es.remove(0);
        }
        V::Map(d, es)
    };
    let plain_some = obj.any(&|v| matches!(v, V::Some(x) if crate::c_perm::nullish(x)));
    let ints = obj.any(&|v| matches!(v, V::I128(_) | V::U128(_)));
    let mut how: Vec<(String, Result<V, String>, Result<V, String>, V)> = vec![];
    if !(st.some_plain && plain_some) {
        let (with, without) = (make(st.hr, true), make(st.hr, false));
        how.push((
            format!("style {:?}", st),
            v::de(&asked, Play::new(&with, &Cx::new(*st))).map_err(|e| e.0),
            v::de(&asked, Play::new(&without, &Cx::new(*st))).map_err(|e| e.0),
            without,
        ));
    }
    for f in [Fmt::JsonStr, Fmt::JsonValue, Fmt::Cbor] {
        if plain_some || ints && f != Fmt::Cbor || cx.evaluations % 3 != 0 && f == Fmt::JsonValue {
            continue;
        }
        let (with, without) = (make(f.human(), true), make(f.human(), false));
        if let (Ok(a), Ok(b)) = (ser(f, &with), ser(f, &without)) {
            how.push((format!("{:?}", f), de(f, &a, &asked), de(f, &b, &asked), without));
        }
    }
    for (how, with, got, doc) in how {
        if with.as_ref() != Ok(&obj) {
            cx.count("skipped: not read with the tag either", 1);
            continue;
        }
        let ok = match (default, &got) {
            (Some(_), Ok(g)) => *g == obj,
            (None, Err(e)) => e.contains(&format!("`{}`", t)) || e.contains(&format!("{:?}", t)) || !t.is_empty() && e.contains(t),
            _ => false,
        };
        if !ok {
            cx.violation(&format!("trait {}, default {:?}, {}: {} read from {} as {:?}",
                FAMS[k].trait_name, default, how, v.show(), doc.show(), got.map(|v| v.show())));
        }
        cx.eval(&format!("{}{}{:?}", k, how, v), true);
        cx.count(if default.is_some() { "read as the default" } else { "rejected without a tag" }, 1);
        cx.sample(how.split(' ').next().unwrap(), || json!({"trait": FAMS[k].trait_name, "document": doc.show()}));
    }
}

pub fn run11(args: &[String]) {
    let mut cx = Ctx::new("C11", args);
    let fams = fams::int();
    // Every position in structs of one to four fields, every kind of value.
    let mut n = 0;
    for &k in &fams {
        for which in 0..TAGS.len() {
            for len in [1, 2, 3, 4, 9] {
                for at in 0..len {
                    cx.case("positions", n, |cx| {
                        for x in values(fams::tag_of(k, which)) {
                            for hr in [true, false] {
                                conflict(cx, k, which, len, at, &x, hr, &|_| V::I32(5));
                            }
                        }
                    });
                    n += 1;
                }
            }
        }
    }
    for n in 0..cx.n(6_000) {
        cx.case("random", n, |cx| {
            let mut r = Rng::new(cx.seed, 110, n);
            let k = *r.pick(&fams);
            let which = r.below(TAGS.len());
            let len = 1 + r.below(12);
            let at = if r.one_in(2) { 0 } else { r.below(len) };
            let vs = values(fams::tag_of(k, which));
            let g = Gen::all();
            let x = match r.below(4) {
                0 => gen(&mut r, &g, 1),
                _ => r.pick(&vs).clone(),
            };
            if x.any(&|v| matches!(v, V::Hr(..))) {
                return;
            }
            let others: Vec<V> = (0..len).map(|_| gen(&mut r, &g, 2)).collect();
            let hr = r.one_in(2);
            conflict(cx, k, which, len, at, &x, hr, &|i| others[i].clone());
        });
    }
    cx.finish();
}

fn wrap(v: V) -> V {
    V::NewtypeStruct("W", Box::new(v))
}

/// Values for the field: the tag, what looks like it, and everything else.
fn values(tag: &'static str) -> Vec<V> {
    let mut out = vec![
        s(tag), wrap(s(tag)), V::Some(Box::new(s(tag))), wrap(V::Some(Box::new(s(tag)))), wrap(wrap(s(tag))),
        s(&format!("{} ", tag)), s(&format!("{}\0", tag)), s(&tag.to_uppercase()), s(&tag.to_lowercase()), s(&format!("x{}", tag)),
        s(&tag.chars().skip(1).collect::<String>()), s(""), s("Probe"), wrap(s("no")),
        V::Bytes(tag.as_bytes().to_vec()), V::Unit, V::None, V::UnitStruct("Probe"), V::UnitVariant("E", 0, "Alpha"),
        V::UnitVariant("E", 0, tag), V::NewtypeVariant("E", 0, tag, Box::new(s(tag))), V::Seq(true, vec![s(tag)]), V::Tuple(vec![s(tag)]),
        V::TupleStruct("T", vec![s(tag)]), V::Map(true, vec![(s(tag), s(tag))]), V::Struct("Probe", vec![("a", s(tag))]),
        V::TupleVariant("E", 0, tag, vec![s(tag)]), V::StructVariant("E", 0, tag, vec![("a", s(tag))]), V::Struct("Probe", vec![]), V::Map(true, vec![]),
        V::Bool(true), V::I8(0), V::I16(0), V::I32(0), V::I64(0), V::I128(0), V::U8(0), V::U16(0), V::U32(0), V::U64(0), V::U128(0),
        V::F32(0), V::f64(1.0), V::Char('x'), V::Char('a'), V::Char('A'), V::Char('0'),
    ];
    if let Some(c) = tag.chars().next() {
        out.push(V::Char(c));
    }
    let fail = V::Fail(FAILS.into());
    out.extend([fail.clone(), wrap(fail.clone()), wrap(V::Some(Box::new(fail)))]);
    out
}

/// What a field says that fails to serialize.
const FAILS: &str = "the field \"fails\"\n№ é";

/// The string a format would show for the value, if it is a string.
fn text(v: &V) -> Option<String> {
    match v {
        V::Str(x) => Some(x.clone()),
        V::Char(c) => Some(c.to_string()),
        V::NewtypeStruct(_, x) | V::Some(x) => text(x),
        _ => None,
    }
}

fn conflict(cx: &mut Ctx, k: usize, which: usize, len: usize, at: usize, x: &V, hr: bool, other: &dyn Fn(usize) -> V) {
    let (t, _) = tag_field(k);
    let tag = fams::tag_of(k, which);
    let names: Vec<&'static str> = FIELDS.iter().copied().filter(|n| *n != t).collect();
    let fields: Vec<(&'static str, V)> = (0..len).map(|i| if i == at { (t, x.clone()) } else { (names[(i * 3 + which) % names.len()], other(i)) }).collect();
    let mut seen = std::collections::HashSet::new();
    if !fields.iter().all(|f| seen.insert(f.0)) {
        return;
    }
    let data = V::Struct("S", fields.clone());
    let (got, st) = record(&V::Dyn(k, which, Box::new(data.clone())), hr, None);
    let what = || format!("trait {} tag {:?} hr={} data {}", FAMS[k].trait_name, tag, hr, data.show());
    match (text(x).as_deref() == Some(tag), &got) {
        (true, Ok(V::Map(d, es))) => {
            let mut want = vec![(s(t), s(tag))];
            want.extend(fields.iter().enumerate().filter(|(i, _)| *i != at).map(|(_, (n, v))| (s(n), model::resolve(v, hr))));
            if *es != want || !d {
                cx.violation(&format!("{}: wrote {}", what(), got.as_ref().unwrap().show()));
            }
            for p in &st.protocol {
                if at > 0 && *p == format!("declared length {} but {} entries were written", len + 1, len) {
                    // Listed in known-findings.txt.
                    cx.known("internally tagged struct with a later field named like the tag, holding the tag: declares one entry too many");
                } else {
                    cx.violation(&format!("{}: {}", what(), p));
                }
            }
            cx.count("folded into the tag", 1);
        }
        (false, Err(e)) if e.0.contains(&format!("{:?}", t)) || e.0.contains(&format!("`{}`", t)) || !t.is_empty() && e.0.contains(t) => cx.count("conflicts rejected", 1),
        _ => cx.violation(&format!("{}: gave {:?}", what(), got.as_ref().map(|v| v.show()))),
    }
    cx.eval(&format!("{:?}{}{}{}", data, k, which, hr), true);
    cx.sample(x.kind(), || json!({"trait": FAMS[k].trait_name, "tag": tag, "data": data.show()}));
    if x.any(&|v| matches!(v, V::Fail(_))) && matches!(x, V::Fail(_) | V::NewtypeStruct(..)) {
        if !matches!(&got, Err(e) if e.0.contains(FAILS)) {
            cx.violation(&format!("{}: the field failed saying {:?}, the error is {:?}", what(), FAILS, got.as_ref().map(|v| v.show())));
        }
        if st.after_failure > 0 {
            cx.violation(&format!("{}: {} calls after the field failed", what(), st.after_failure));
        }
        cx.count("fields that fail", 1);
        return;
    }
    // In real formats the tag is there once, or there is an error.
    if cx.evaluations % 5 == 0 {
        for f in [Fmt::JsonStr, Fmt::JsonValue, Fmt::Cbor, Fmt::Postcard, Fmt::Bincode] {
            let r = ser(f, &V::Dyn(k, which, Box::new(data.clone())));
            let own = ser(f, &data).is_ok();
            if own && r.is_ok() != (text(x).as_deref() == Some(tag)) {
                cx.violation(&format!("{}: {:?} gave {:?}", what(), f, r.as_ref().map(|d| d.show())));
            }
            if let (Fmt::Postcard, 0, Ok(crate::formats::Doc::Bytes(b))) = (f, at, &r) {
                // The declared length is the number of entries.
                if b.first() != Some(&(len as u8)) {
                    cx.violation(&format!("{}: Postcard wrote {:?}", what(), b));
                }
            }
        }
    }
}
