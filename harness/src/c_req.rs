//! C20: what the concrete type asks for is what the format is asked for.
use crate::c_perm::manner;
use crate::c_rt::odd_keys;
use crate::ctx::Ctx;
use crate::fams::{self, FAMS, TAGS};
use crate::model::{self, Tag};
use crate::play::{lower_in, Cx, Play, Style, STYLES};
use crate::rec::RecError;
use crate::rng::Rng;
use crate::v::{self, deep, gen, in_manner, obs_start, obs_take, zoo, Gen, Manner, V};
use serde::de::{Deserializer, Visitor};
use serde_json::json;
use std::collections::HashMap;

pub fn run(args: &[String]) {
    let mut cx = Ctx::new("C20", args);
    let all: Vec<usize> = (0..FAMS.len()).collect();
    let mut n = 0;
    for v in zoo().into_iter().chain(v::ref_zoo()) {
        for &k in &all {
            cx.case("zoo", n, |cx| {
                for st in STYLES {
                    same(cx, k, n as usize % TAGS.len(), &v, &v, st);
                }
            });
            n += 1;
        }
    }
    // Every request against every kind of data.
    let probes = requests();
    n = 0;
    for d in zoo() {
        for t in &probes {
            cx.case("requests", n, |cx| {
                let k = [0, 9, 14, 16][n as usize % 4];
                for st in [&STYLES[n as usize % STYLES.len()], &STYLES[(n as usize + 3) % STYLES.len()]] {
                    same(cx, k, n as usize % TAGS.len(), &d, t, st);
                }
                for k in [2, 7] {
                    inside(cx, k, &d, t, &STYLES[n as usize % STYLES.len()]);
                    in_manner(manner(n), || inside(cx, k, &d, t, &STYLES[n as usize % STYLES.len()]));
                }
            });
            n += 1;
        }
    }
    // The same inside an enum and an option that are internally tagged.
    n = 0;
    for d in zoo() {
        for t in &probes {
            cx.case("requests inside", n, |cx| {
                let st = &STYLES[n as usize % STYLES.len()];
                let k = [2, 7, 18][n as usize % 3];
                let of = |x: &V| V::NewtypeVariant("E", 1, "Beta", Box::new(x.clone()));
                same(cx, k, n as usize % TAGS.len(), &of(&d), &of(t), st);
                let of = |x: &V| V::Some(Box::new(x.clone()));
                same(cx, k, n as usize % TAGS.len(), &of(&d), &of(t), st);
            });
            n += 1;
        }
    }
    // Internal tagging, and the whole of the data asked for in other ways.
    n = 0;
    for v in zoo().into_iter().chain(v::ref_zoo()) {
        for k in fams::int() {
            cx.case("whole", n, |cx| whole(cx, k, n as usize % TAGS.len(), &v, &STYLES[n as usize % STYLES.len()]));
            n += 1;
        }
    }
    for n in 0..cx.n(1_500) {
        cx.case("whole, random", n, |cx| {
            let mut r = Rng::new(cx.seed, 201, n);
            let k = *r.pick(&fams::int());
            let mut g = Gen::all();
            g.refs = r.one_in(4);
            g.odd_keys = false;
            g.avoid = fams::avoid(k);
            whole(cx, k, r.below(TAGS.len()), &gen(&mut r, &g, 0), r.pick(STYLES));
        });
    }
    // Adjacent tagging, and no content at all.
    n = 0;
    for v in zoo().into_iter().chain(v::ref_zoo()).chain(requests()) {
        for k in fams::adj() {
            cx.case("no content", n, |cx| {
                for st in STYLES {
                    absent(cx, k, n as usize % TAGS.len(), &v, st);
                }
            });
            n += 1;
        }
    }
    for style in 0..9 {
        cx.case("deep", style, |cx| {
            let v = deep(40, style as usize);
            for &k in &all {
                same(cx, k, 0, &v, &v, &STYLES[style as usize % STYLES.len()]);
            }
        });
    }
    for (n, v) in v::wide().into_iter().enumerate() {
        for j in 0..3 {
            cx.case("wide", (n * 3 + j) as u64, |cx| {
                same(cx, all[(n * 5 + j * 11) % all.len()], j, &v, &v, &STYLES[(n + j) % STYLES.len()]);
            });
        }
    }
    for n in 0..cx.n(20_000) {
        cx.case("random", n, |cx| {
            let mut r = Rng::new(cx.seed, 200, n);
            let k = *r.pick(&all);
            let which = r.below(TAGS.len());
            let mut g = Gen::all();
            g.refs = r.one_in(4);
            g.repeats = r.one_in(5);
            g.avoid = fams::avoid(k);
            if r.one_in(3) {
                g.dyns = all.clone();
            }
            let v = gen(&mut r, &g, 0);
            let st = *r.pick(STYLES);
            same(cx, k, which, &v, &v, &st);
            // Another type's requests.
            let t = gen(&mut r, &g, 0);
            let k = *r.pick(&[0, 8, 11, 14, 17]);
            same(cx, k, which, &v, &t, &st);
            inside(cx, *r.pick(&[2, 7, 18]), &v, &t, &st);
            in_manner(manner(n), || inside(cx, 7, &v, &v, &st));
        });
    }
    cx.finish();
}

/// One template per request a Deserialize implementation can make.
fn requests() -> Vec<V> {
    let i = || V::I32(1);
    vec![
        V::Any,
        V::Ignored,
        V::Bool(true),
        V::I8(0),
        V::I16(0),
        V::I32(0),
        V::I64(0),
        V::I128(0),
        V::U8(0),
        V::U16(0),
        V::U32(0),
        V::U64(0),
        V::U128(0),
        V::F32(0),
        V::F64(0),
        V::Char('a'),
        V::Str("".into()),
        V::Str("a".into()),
        V::Bytes(vec![]),
        V::Bytes(vec![1]),
        V::Ref("".into()),
        V::RefBytes(vec![]),
        V::Map(true, vec![(V::Ref("".into()), V::Any)]),
        V::Seq(true, vec![V::Ref("".into())]),
        V::None,
        V::Some(Box::new(V::Any)),
        V::Some(Box::new(i())),
        V::Unit,
        V::UnitStruct("U"),
        V::NewtypeStruct("W", Box::new(V::Any)),
        V::NewtypeStruct("W", Box::new(V::Str("a".into()))),
        V::Seq(true, vec![]),
        V::Seq(true, vec![V::Any]),
        V::Tuple(vec![]),
        V::Tuple(vec![V::Any, V::Any]),
        V::TupleStruct("TS", vec![V::Any, V::Any]),
        V::Map(true, vec![]),
        V::Map(true, vec![(V::Any, V::Any)]),
        V::Map(true, vec![(V::Str("a".into()), V::I32(0))]),
        V::Struct("S", vec![]),
        V::Struct("S", vec![("a", V::Any)]),
        V::Struct("S", vec![("b", V::Ignored), ("a", V::Any)]),
        V::UnitVariant("E", 0, "Alpha"),
        V::NewtypeVariant("E", 1, "Beta", Box::new(V::Any)),
        V::TupleVariant("E", 5, "Gamma", vec![V::Any, V::Any]),
        V::StructVariant("E", 10, "Delta", vec![("a", V::Any), ("b", V::Any)]),
    ]
}

type Path = Vec<usize>;

fn paths(v: &V, at: &mut Path, out: &mut HashMap<usize, Path>) {
    out.insert(v as *const V as usize, at.clone());
    let mut i = 0;
    v.children(&mut |c| {
        at.push(i);
        paths(c, at, out);
        at.pop();
        i += 1;
    });
}

/// Where the data, or its parts, are in the document, and where they are on their own.
fn roots(k: usize, r: &V) -> Vec<(Path, Path)> {
    match FAMS[k].tag {
        Tag::Ext => return vec![(vec![1], vec![])],
        Tag::Adj(..) => return vec![(vec![3], vec![])],
        Tag::Int(..) => {}
    }
    match r {
        V::NewtypeStruct(_, x) => roots(k, x),
        V::Struct(_, fs) => (0..fs.len()).map(|i| (vec![2 * i + 3], vec![2 * i + 1])).collect(),
        V::Map(_, es) => (0..es.len()).map(|i| (vec![2 * i + 3], vec![2 * i + 1])).collect(),
        V::Unit | V::UnitStruct(_) | V::UnitVariant(..) | V::None => vec![],
        V::NewtypeVariant(..) => vec![(vec![3], vec![1])],
        V::TupleVariant(_, _, _, xs) => (0..xs.len()).map(|j| (vec![3, j], vec![1, j])).collect(),
        V::StructVariant(_, _, _, fs) => (0..fs.len()).map(|j| (vec![3, 2 * j + 1], vec![1, 2 * j + 1])).collect(),
        V::Some(_) => vec![(vec![3], vec![0])],
        _ => vec![(vec![3], vec![])],
    }
}

struct Seen {
    result: Result<V, RecError>,
    requests: Vec<(Path, String)>,
    obs: Vec<String>,
    mistold: u64,
    asked: u64,
}

fn watch(doc: &V, st: &Style, f: impl FnOnce(Play) -> Result<V, RecError>) -> Seen {
    let c = Cx::logging(*st);
    let mut at = HashMap::new();
    paths(doc, &mut vec![], &mut at);
    obs_start();
    let (result, mistold, asked) = v::told(st.hr, || f(Play::new(doc, &c)));
    let obs = obs_take();
    let log = c.log.borrow_mut().take().unwrap();
    let requests = log.into_iter().filter_map(|(a, what)| Some((at.get(&a)?.clone(), what))).collect();
    Seen { result, requests, obs, mistold, asked }
}

fn under(all: &[(Path, String)], roots: &[Path], to: &[Path]) -> Vec<(Path, String)> {
    let mut out = vec![];
    for (p, w) in all {
        if let Some(i) = roots.iter().position(|r| p.starts_with(r)) {
            let mut q = to[i].clone();
            q.extend(&p[roots[i].len()..]);
            out.push((q, w.clone()));
        }
    }
    out
}

fn same(cx: &mut Ctx, k: usize, which: usize, v: &V, tpl: &V, st: &Style) {
    same_in(cx, k, which, v, tpl, st, Manner::default());
    let mut m = manner(cx.evaluations);
    m.strict = !st.null_unit;
    m.odd = true;
    if matches!(FAMS[k].tag, Tag::Int(..)) {
        // The data and the tag are offered together.
        m.any = 0;
    }
    if m != Manner::default() {
        in_manner(m, || same_in(cx, k, which, v, tpl, st, m));
        cx.count("requests compared in another manner", 1);
    }
}

fn same_in(cx: &mut Ctx, k: usize, which: usize, v: &V, tpl: &V, st: &Style, m: Manner) {
    if model::clashes(k, v) {
        return cx.count("skipped: keys", 1);
    }
    let int = matches!(FAMS[k].tag, Tag::Int(..));
    let data = model::resolve(v, st.hr);
    let (there, alone): (Vec<Path>, Vec<Path>) = roots(k, &data).into_iter().unzip();
    let spelled = Style { newtypes: st.newtypes && !int, ..*st };
    let native_doc = lower_in(&spelled, &data);
    let doc = lower_in(&spelled, &model::doc(k, which, v, st.hr));
    let native = watch(&native_doc, st, |p| v::de(tpl, p));
    if int && native.result.is_err() {
        return cx.count("not readable in this style", 1);
    }
    let got = watch(&doc, st, |p| {
        fams::push_template(tpl.clone());
        let _pop = fams::Pop;
        let (w, v) = fams::deserialize(k, p)?;
        if w == which {
            Ok(v)
        } else {
            Err(RecError(format!("another type, {}", w)))
        }
    });
    let about = || format!("trait {} data {} read as {} in style {:?}, {:?}", FAMS[k].trait_name, native_doc.show(), tpl.show(), st, m);
    if got.mistold > 0 {
        cx.violation(&format!("{}: {} of {} deserializers told that the format is not what it is", about(), got.mistold, got.asked));
    }
    let agree = match (&native.result, &got.result) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => b.0.contains(&a.0),
        _ => false,
    };
    if !agree {
        cx.violation(&format!("{}: alone {:?}, in the object {:?}", about(), native.result, got.result));
    }
    let mut want = under(&native.requests, &alone, &alone);
    let have = under(&got.requests, &there, &alone);
    if int && want.first().is_some_and(|(p, w)| *p == [1] && w == "newtype_variant") {
        // The variant's payload has become an entry of the document.
        want.remove(0);
    }
    let mut top = &data;
    while let (true, V::NewtypeStruct(_, x)) = (int, top) {
        // A newtype struct is its content.
        top = x;
        if want.first().is_some_and(|(p, w)| p.is_empty() && w.starts_with("deserialize_newtype_struct")) {
            want.remove(0);
        }
    }
    if want != have {
        let i = want.iter().zip(&have).take_while(|(a, b)| a == b).count();
        cx.violation(&format!("{}: request {} was {:?} alone and {:?} in the object", about(), i, want.get(i), have.get(i)));
    }
    cx.count("requests compared", want.len() as u64);
    if !int && native.obs != got.obs {
        let i = native.obs.iter().zip(&got.obs).take_while(|(a, b)| a == b).count();
        cx.violation(&format!(
            "{}: observation {} was {:?} alone and {:?} in the object", about(), i, native.obs.get(i), got.obs.get(i)));
    }
    // How a key is handed over is not the same where keys are read by the library.
    if int {
        let flat = alone.iter().all(|a| a.len() == 1) && alone != [vec![0]];
        let kinds = |o: &Vec<String>| {
            let mut o = o.clone();
            if let Some(top) = o.iter_mut().find(|s| s.starts_with("visit_map")).filter(|_| flat) {
                // The entries are among those of the document.
                *top = "visit_map".into();
            }
            o.iter().filter(|s| !(s.starts_with("visit_") && s.ends_with("str")) && *s != "visit_string").cloned().collect::<Vec<_>>()
        };
        let (a, b) = (kinds(&native.obs), kinds(&got.obs));
        if a != b {
            let i = a.iter().zip(&b).take_while(|(a, b)| a == b).count();
            cx.violation(&format!("{}: observation {} was {:?} alone and {:?} in the object", about(), i, a.get(i), b.get(i)));
        }
    }
    cx.count("observations compared", native.obs.len() as u64);
    cx.eval(&format!("{:?}{:?}{:?}{:?}{:?}", (k, which), v, tpl, st, m), !want.is_empty());
    cx.sample(tpl.kind(), || {
        json!({"trait": FAMS[k].trait_name, "document": doc.show(), "requests": have.iter().take(6).map(|(p, w)| format!("{:?} {}", p, w)).collect::<Vec<_>>()})
    });
}

/// A field of internally tagged data, asked for in a way that may not fit.
fn inside(cx: &mut Ctx, k: usize, v: &V, tpl: &V, st: &Style) {
    let v = V::Struct("Outer", vec![("a first", V::U8(1)), ("inner", v.clone())]);
    let tpl = V::Struct("Outer", vec![("a first", V::U8(1)), ("inner", tpl.clone())]);
    if model::clashes(k, &v) {
        return;
    }
    let data = lower_in(st, &model::resolve(&v, st.hr));
    let doc = lower_in(st, &model::doc(k, 0, &v, st.hr));
    let native = watch(&data, st, |p| v::de(&tpl, p));
    let got = watch(&doc, st, |p| v::de(&V::Dyn(k, 0, Box::new(tpl.clone())), p));
    let agree = match (&native.result, &got.result) {
        (Ok(a), Ok(V::Dyn(_, _, b))) => *a == **b,
        (Err(a), Err(b)) => b.0.contains(&a.0),
        _ => false,
    };
    let want = under(&native.requests, &[vec![3]], &[vec![]]);
    let have = under(&got.requests, &[vec![5]], &[vec![]]);
    if !agree || want != have || got.mistold > 0 {
        let i = want.iter().zip(&have).take_while(|(a, b)| a == b).count();
        cx.violation(&format!(
            "trait {} field {} read as {} in style {:?}: alone {:?}, in the object {:?}; request {} was {:?} and {:?}; {} mistold",
            FAMS[k].trait_name, v.show(), tpl.show(), st, native.result, got.result, i, want.get(i), have.get(i), got.mistold));
    }
    cx.count("unfitting requests inside internal data", 1);
    cx.eval(&format!("inside{:?}{:?}{:?}{:?}", k, v, tpl, st), true);
}

/// The content is left out, and the type is given what stands for nothing.
fn absent(cx: &mut Ctx, k: usize, which: usize, tpl: &V, st: &Style) {
    let Tag::Adj(t, ..) = FAMS[k].tag else { unreachable!() };
    let doc = lower_in(st, &V::Struct(FAMS[k].trait_name, vec![(t, V::Str(fams::tag_of(k, which).into()))]));
    let want = v::de(tpl, Nothing { hr: st.hr });
    let got = watch(&doc, st, |p| {
        fams::push_template(tpl.clone());
        let _pop = fams::Pop;
        fams::deserialize(k, p).map(|(_, v)| v)
    });
    cx.count(if want.is_ok() { "content missing and not missed" } else { "content missed" }, 1);
    cx.eval(&format!("absent{:?}{:?}{:?}", (k, which), tpl, st), true);
    if got.result != want || got.mistold > 0 {
        cx.violation(&format!("trait {} without content read as {} in style {:?}: from a unit {:?}, from the object {:?}; {} of {} deserializers told that the format is not what it is",
            FAMS[k].trait_name, tpl.show(), st, want, got.result, got.mistold, got.asked));
    }
}

/// What there is when the content is left out: a unit, or no value.
struct Nothing {
    hr: bool,
}

impl<'de> Deserializer<'de> for Nothing {
    type Error = RecError;

    fn deserialize_any<W: Visitor<'de>>(self, visitor: W) -> Result<W::Value, RecError> {
        visitor.visit_unit()
    }

    fn deserialize_option<W: Visitor<'de>>(self, visitor: W) -> Result<W::Value, RecError> {
        visitor.visit_none()
    }

    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }

    fn is_human_readable(&self) -> bool {
        self.hr
    }
}

/// The type ignores its data, or asks for it by another name that serves as well.
fn whole(cx: &mut Ctx, k: usize, which: usize, v: &V, st: &Style) {
    if model::clashes(k, v) || odd_keys(v) {
        return cx.count("skipped: keys", 1);
    }
    if v.any(&|v| matches!(v, V::Some(x) if crate::c_perm::nullish(x))) {
        return cx.count("skipped: a Some spelled like a None", 1);
    }
    let data = lower_in(st, &model::resolve(v, st.hr));
    let V::Map(_, mut es) = lower_in(st, &model::doc(k, which, v, st.hr)) else { unreachable!() };
    let first = V::Map(true, es.clone());
    es.rotate_left(1);
    let last = V::Map(true, es);
    let mut seen = &data;
    while let V::NewtypeStruct(_, x) = seen {
        seen = x;
    }
    let seq = matches!(seen, V::Seq(..) | V::Tuple(_) | V::TupleStruct(..));
    let mut tpl = v;
    while let V::NewtypeStruct(_, x) = tpl {
        tpl = x;
    }
    let leaf = tpl.kind();
    for n in 0..16 {
        let tpl = if n == 15 { &V::Ignored } else { v };
        let native = watch(&data, st, |p| v::first_way(n, || v::de(tpl, p)));
        let how = native.requests.iter().find(|(p, _)| p.is_empty()).map_or("", |(_, w)| w);
        if native.result.is_err() || how.starts_with("deserialize_any") || seq && how.starts_with("deserialize_struct") {
            cx.count("ways that do not serve", 1);
            continue;
        }
        for doc in [&first, &last] {
            let got = watch(doc, st, |p| {
                fams::push_template(tpl.clone());
                let _pop = fams::Pop;
                v::first_way(n, || fams::deserialize(k, p)).map(|(_, v)| v)
            });
            if got.result != native.result {
                cx.violation(&format!("trait {} data {} read as {} by {:?} from {} in style {:?}: alone {:?}, in the object {:?}",
                    FAMS[k].trait_name, data.show(), tpl.show(), how, doc.show(), st, native.result, got.result));
            }
            // These are not passed on as they are.
            let own = ["enum", "newtype", "option", "unit", "map", "struct"].iter().any(|w| how["deserialize_".len()..].starts_with(w));
            if n < 15 && !own && std::ptr::eq(doc, &first) && roots(k, &data) == [(vec![3], vec![])] {
                let (want, have) = (under(&native.requests, &[vec![]], &[vec![]]), under(&got.requests, &[vec![3]], &[vec![]]));
                if want != have {
                    let i = want.iter().zip(&have).take_while(|(a, b)| a == b).count();
                    cx.violation(&format!("trait {} data {} read as {} by {:?} from {} in style {:?}: request {} was {:?} alone and {:?} in the object",
                        FAMS[k].trait_name, data.show(), tpl.show(), how, doc.show(), st, i, want.get(i), have.get(i)));
                }
                cx.count("other requests for the value compared", 1);
            }
            cx.eval(&format!("whole{:?}{:?}{}{:?}", (k, which), v, n, doc), true);
        }
        cx.count(&format!("all of {} by {}", leaf, how.split(' ').next().unwrap()), 1);
    }
}
