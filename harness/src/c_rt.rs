//! C04, C05: what is written can be read back.
use crate::ctx::Ctx;
use crate::fams::{self, TAGS};
use crate::formats::{de, ser, Doc, Fmt, BINARY, TEXT};
use crate::model::{self, Tag};
use crate::rng::Rng;
use crate::v::{deep, gen, ref_zoo, wide, zoo, Gen, V};
use serde_json::json;

pub fn run(prop: &'static str, args: &[String]) {
    let mut cx = Ctx::new(prop, args);
    let fmts = if prop == "C04" { TEXT } else { BINARY };
    let all: Vec<usize> = (0..fams::FAMS.len()).collect();
    let mut n = 0;
    for v in zoo().into_iter().chain(ref_zoo()) {
        for &k in &all {
            for which in [0, 1, 3, 5] {
                cx.case("zoo", n, |cx| {
                    for &f in fmts {
                        one(cx, k, which, &v, f);
                    }
                });
                n += 1;
            }
        }
    }
    for (n, (d, style)) in
        [(3, 0), (20, 1), (30, 2), (30, 3), (30, 4), (30, 5), (30, 6), (30, 7), (30, 8), (100, 1), (100, 5)].into_iter().enumerate()
    {
        cx.case("deep", n as u64, |cx| {
            let v = deep(d, style);
            for &k in &all {
                for &f in fmts {
                    one(cx, k, 0, &v, f);
                }
            }
        });
    }
    for (n, v) in wide().into_iter().enumerate() {
        for j in 0..6 {
            cx.case("wide", (n * 6 + j) as u64, |cx| {
                for &f in fmts {
                    one(cx, all[(n * 7 + j * 5) % all.len()], j, &v, f);
                }
            });
        }
    }
    for n in 0..cx.n(20_000) {
        cx.case("random", n, |cx| {
            let mut r = Rng::new(cx.seed, 2, n);
            let k = *r.pick(&all);
            let which = r.below(TAGS.len());
            let mut g = Gen::all();
            g.avoid = fams::avoid(k);
            g.undeclared = r.one_in(4);
            g.refs = r.one_in(4);
            g.repeats = prop == "C05" && r.one_in(5);
            g.odd_keys = prop == "C05" || r.one_in(4);
            if r.one_in(3) {
                g.dyns = all.clone();
            }
            let v = gen(&mut r, &g, 0);
            for _ in 0..2 {
                let f = *r.pick(fmts);
                one(cx, k, which, &v, f);
                if prop == "C05" || r.one_in(8) {
                    embedded(cx, &mut r, k, which, &v, f);
                }
            }
        });
    }
    cx.finish();
}

/// Whether the format reads back the data on its own.
fn native_ok(f: Fmt, v: &V) -> bool {
    match ser(f, v) {
        Ok(d) => de(f, &d, v).as_ref() == Ok(v),
        Err(_) => false,
    }
}

fn one(cx: &mut Ctx, k: usize, which: usize, v: &V, f: Fmt) {
    if model::clashes(k, v) {
        return cx.count("skipped: data has an entry named like the tag", 1);
    }
    if !native_ok(f, v) {
        return cx.count(&format!("skipped: {:?} does not round-trip the data itself", f), 1);
    }
    if let Some(why) = excluded(k, v, f) {
        return cx.count(&format!("skipped: {}", why), 1);
    }
    let obj = V::Dyn(k, which, Box::new(v.clone()));
    round(cx, &obj, f);
    cx.sample(&format!("{:?}", f), || {
        json!({"trait": fams::FAMS[k].trait_name, "data": v.show(), "document": ser(f, &obj).map(|d| d.show())})
    });
}

fn round(cx: &mut Ctx, obj: &V, f: Fmt) {
    let d = match ser(f, obj) {
        Ok(d) => d,
        Err(e) => return cx.violation(&format!("{:?}: {} was not written: {}", f, obj.show(), e)),
    };
    match de(f, &d, obj) {
        Ok(got) if got == *obj => {}
        r => {
            let r = r.map(|v| v.show());
            return cx.violation(&format!("{:?}: {} was written as {} and read as {:?}", f, obj.show(), d.show(), r));
        }
    }
    cx.eval(&format!("{:?}{:?}", f, obj), obj.size() > 2);
    cx.count(&format!("round trips in {:?}", f), 1);
}

/// Limits of the formats that only show for documents with a tag.
fn excluded(k: usize, v: &V, f: Fmt) -> Option<&'static str> {
    if !native_ok(f, &model::doc(k, 0, v, f.human())) {
        return Some("the format does not round-trip that document as plain data");
    }
    // These two sort the entries of a map. The tag may then come after the content,
    // which has to be set aside without knowing what its keys are meant to be.
    if matches!(f, Fmt::JsonValue | Fmt::Toml) && odd_keys(v) {
        return Some("keys other than strings in a format that reorders entries");
    }
    // RON can be told to write type names, and then insists on them. The payload of a
    // variant becomes an entry of the internally tagged map, where no type name is
    // known when it is read back.
    if f == Fmt::RonPretty {
        let obj = V::Dyn(k, 0, Box::new(v.clone()));
        let int = |x: &V| matches!(x, V::Dyn(k, ..) if matches!(fams::FAMS[*k].tag, Tag::Int(..)));
        let var = |x: &V| matches!(x, V::TupleVariant(..) | V::StructVariant(..));
        if obj.any(&int) && obj.any(&var) {
            return Some("RON with type names, internally tagged variant payload");
        }
    }
    None
}

/// Between neighbours, and several one after the other.
fn embedded(cx: &mut Ctx, r: &mut Rng, k: usize, which: usize, v: &V, f: Fmt) {
    if model::clashes(k, v) || !native_ok(f, v) || excluded(k, v, f).is_some() {
        return;
    }
    let obj = || V::Dyn(k, which, Box::new(v.clone()));
    let whole = match r.below(4) {
        0 => V::Tuple(vec![V::U32(0xdead_beef), obj(), V::Str("neighbour".into())]),
        1 => V::Seq(true, vec![obj(), obj(), obj()]),
        2 => V::Struct("Holder", vec![("a", V::U8(7)), ("b", obj()), ("f0", V::Some(Box::new(obj()))), ("name", V::I64(-5))]),
        _ => V::Map(true, vec![(V::Str("x".into()), obj()), (V::Str("y".into()), obj())]),
    };
    if f == Fmt::Toml && native_ok(f, v) && ser(f, &whole).is_err() {
        return;
    }
    round(cx, &whole, f);
    cx.count("embedded in a larger value", 1);
    // A stream of objects.
    if matches!(f, Fmt::Bincode | Fmt::Postcard) {
        let (Ok(Doc::Bytes(a)), Ok(Doc::Bytes(b))) = (ser(f, &obj()), ser(f, &V::Tuple(vec![obj(), obj()]))) else {
            return cx.violation(&format!("{:?}: not written: {}", f, v.show()));
        };
        if b != [a.clone(), a].concat() {
            cx.violation(&format!("{:?}: {} depends on what surrounds it", f, v.show()));
        }
    }
}

/// Whether a map has keys a self-describing format does not tell from strings.
pub fn odd_keys(v: &V) -> bool {
    fn plain(k: &V) -> bool {
        match k {
            V::Str(_) | V::Ref(_) | V::Char(_) | V::UnitVariant(..) => true,
            V::NewtypeStruct(_, x) => plain(x),
            V::Hr(a, _) => plain(a),
            _ => false,
        }
    }
    v.any(&|v| matches!(v, V::Map(_, es) if es.iter().any(|(k, _)| !plain(k))))
}
