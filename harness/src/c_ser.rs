//! C01, C02, C03: what is written.
use crate::ctx::Ctx;
use crate::fams::{self, TAGS};
use crate::formats::{ser, BINARY, TEXT};
use crate::model;
use crate::rec::record;
use crate::rng::Rng;
use crate::v::{deep, gen, wide, zoo, Gen, V};
use serde_json::json;

pub fn run(prop: &'static str, args: &[String]) {
    let mut cx = Ctx::new(prop, args);
    let fams = match prop {
        "C01" => fams::ext(),
        "C02" => fams::adj(),
        _ => fams::int(),
    };

    // Every kind, in every trait, under every tag.
    let zoo = zoo();
    let mut n = 0;
    for v in &zoo {
        for &k in &fams {
            for which in 0..TAGS.len() {
                let (v, hr) = (v.clone(), n % 2 == 0);
                cx.case("zoo", n, |cx| {
                    one(cx, k, which, &v, hr);
                    one(cx, k, which, &v, !hr);
                });
                n += 1;
            }
        }
    }
    for (n, (d, style)) in [(3, 0), (30, 1), (200, 2), (100, 3), (60, 4), (128, 5), (129, 6), (64, 7), (50, 8)]
        .into_iter()
        .enumerate()
    {
        cx.case("deep", n as u64, |cx| {
            let v = deep(d, style);
            for &k in &fams {
                one(cx, k, 0, &v, true);
                one(cx, k, 1, &v, false);
            }
        });
    }
    for (n, v) in wide().into_iter().enumerate() {
        for j in 0..3 {
            cx.case("wide", (n * 3 + j) as u64, |cx| one(cx, fams[(n * 7 + j) % fams.len()], j, &v, (n + j) % 2 == 0));
        }
    }
    for n in 0..cx.n(30_000) {
        cx.case("random", n, |cx| {
            let mut r = Rng::new(cx.seed, 1, n);
            let k = *r.pick(&fams);
            let which = r.below(TAGS.len());
            let mut g = Gen::all();
            g.repeats = r.one_in(5);
            g.avoid = fams::avoid(k);
            if r.one_in(3) {
                g.dyns = (0..fams::FAMS.len()).collect();
            }
            let v = gen(&mut r, &g, 0);
            let hr = r.one_in(2);
            one(cx, k, which, &v, hr);
        });
    }
    for n in 0..cx.n(3_000) {
        cx.case("skips", n, |cx| {
            let mut r = Rng::new(cx.seed, 2, n);
            let k = *r.pick(&fams);
            let which = r.below(TAGS.len());
            let mut g = Gen::all();
            g.avoid = fams::avoid(k);
            let mut v = gen(&mut r, &g, 0);
            if n % 2 == 0 {
                v = V::Struct("S", vec![("a", v), ("b", V::skipped()), ("c", V::I8(1)), ("d", V::skipped())]);
            }
            v.skip_some(&mut r);
            let hr = r.one_in(2);
            one(cx, k, which, &v, hr);
        });
    }
    cx.finish();
}

fn one(cx: &mut Ctx, k: usize, which: usize, v: &V, hr: bool) {
    if model::clashes(k, v) {
        cx.count("skipped: data has an entry named like the tag", 1);
        return;
    }
    // The recorder itself, against the program on its own.
    let (own, st) = record(v, hr, None);
    let want_own = model::resolve(v, hr);
    let nested = v.any(&|v| matches!(v, V::Dyn(..)));
    if !nested && own.as_ref() != Ok(&want_own) {
        panic!("harness: the recorder changed {:?} into {:?}", want_own, own);
    }
    drop(st);

    let obj = V::Dyn(k, which, Box::new(v.clone()));
    let (got, st) = record(&obj, hr, None);
    let what = || format!("trait {} tag {:?} hr={} data {}", fams::FAMS[k].trait_name, fams::tag_of(k, which), hr, v.show());
    let got = match got {
        Ok(g) => g,
        Err(e) => return cx.violation(&format!("{}: serialization failed: {}", what(), e)),
    };
    let (mut got, mut want) = (got, model::doc(k, which, v, hr));
    if v.any(&|v| v.is_skipped()) {
        cx.count("documents with fields left out", 1);
        // Internal tagging writes maps, which have no fields to leave out.
        if let model::Tag::Int(..) = fams::FAMS[k].tag {
            got.drop_skipped();
            want.drop_skipped();
        }
    }
    let ok = if nested {
        // Nested internal documents have the same freedoms.
        model::same_nested(k, &want, &got)
    } else {
        model::same_doc(k, &want, &got)
    };
    if !ok {
        cx.violation(&format!("{}: wrote {} instead of {}", what(), got.show(), want.show()));
    }
    for p in &st.protocol {
        cx.violation(&format!("{}: {}", what(), p));
    }
    // Real formats get what the recorder got.
    if cx.evaluations % 8 == 0 && v.size() < 200 {
        for &f in TEXT.iter().chain(BINARY).filter(|f| f.human() == hr) {
            let (a, b) = (ser(f, &obj), ser(f, &got));
            if a != b {
                let (a, b) = (a.map(|d| d.show()), b.map(|d| d.show()));
                cx.violation(&format!("{}: {:?} wrote {:?} instead of {:?}", what(), f, a, b));
            }
            cx.count("documents compared in real formats", 1);
        }
    }
    cx.eval(&format!("{:?}", (k, which, hr, v)), v.size() > 1 || which > 0);
    cx.count(&format!("kind {}", v.kind()), 1);
    cx.count("calls recorded", st.calls);
    cx.sample(v.kind(), || json!({"trait": fams::FAMS[k].trait_name, "data": v.show(), "document": got.show()}));
}
