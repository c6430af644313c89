//! C15: arbitrary input.
use crate::types::{play_obj, read_obj, Obj, TFAMS, TYPES};
use serde_json::json;
use tt_harness::c_hist::object;
use tt_harness::ctx::{clip, Ctx};
use tt_harness::formats::{de, ser, Doc, Fmt};
use tt_harness::model;
use tt_harness::mutate::{leaf, mutate_n, word};
use tt_harness::play::{lower, Cx, Play, STYLES};
use tt_harness::rec::record;
use tt_harness::rng::Rng;
use tt_harness::v::{self, V};

const FMTS: &[Fmt] = &[
    Fmt::JsonStr, Fmt::JsonSlice, Fmt::JsonReader, Fmt::JsonValue, Fmt::Ron, Fmt::Cbor, Fmt::Toml, Fmt::Bincode, Fmt::Postcard,
];

pub fn run(args: &[String]) {
    let mut cx = Ctx::new("C15", args);
    for n in 0..cx.n(30_000) {
        cx.case("tree", n, |cx| tree(cx, n));
    }
    for n in 0..cx.n(8_000) {
        cx.case("probe", n, |cx| probe(cx, n));
    }
    for n in 0..cx.n(20_000) {
        cx.case("bytes", n, |cx| bytes(cx, n));
    }
    for n in 0..cx.n(4_000) {
        cx.case("noise", n, |cx| noise(cx, n));
    }
    cx.finish();
}

fn make(r: &mut Rng, k: usize) -> Box<dyn Obj> {
    TYPES[r.below(TYPES.len())].1(k, r)
}

/// Objects whose document would have the tag's key twice: refused, or not expected to
/// be read back, whoever wrote it.
fn conflict(k: usize, o: &dyn Obj, hr: bool) -> bool {
    let (Some(t), None) = (TFAMS[k].1, TFAMS[k].2) else { return false };
    fn key(v: &V, t: &str) -> bool {
        match v {
            V::NewtypeStruct(_, x) => key(x, t),
            V::Struct(_, fs) => fs.iter().any(|f| f.0 == t),
            V::Map(_, es) => es.iter().any(|e| matches!(&e.0, V::Str(s) if s == t)),
            _ => false,
        }
    }
    o.alone().rec(hr).is_ok_and(|v| key(&v, t))
}

fn tree(cx: &mut Ctx, n: u64) {
    let mut r = Rng::new(cx.seed, 600, n);
    let k = r.below(TFAMS.len());
    let st = *r.pick(STYLES);
    let o = make(&mut r, k);
    let Ok(d) = o.rec(st.hr) else { return cx.count("not written", 1) };
    let mut d = lower(&d);
    if r.one_in(30) {
        d = leaf(&mut r);
    } else if !r.one_in(12) {
        mutate_n(&mut r, &mut d, 4);
    }
    let got = play_obj(k, &d, &Cx::new(st));
    cx.eval(&format!("{}{:?}{:?}", k, d, st), true);
    let Ok(got) = got else { return cx.count("trees refused", 1) };
    cx.count("trees accepted", 1);
    if conflict(k, &*got, st.hr) {
        return cx.count("accepted: an entry named like the tag", 1);
    }
    let about = || format!("{} {} {} read from {} in style {:?}", TFAMS[k].0, got.type_name(), clip(&got.text(), 400), d.show(), st);
    if !got.alone().stable_played(&st) {
        return cx.count("accepted: not stable on its own", 1);
    }
    let again = match got.rec(st.hr) {
        Ok(v) => lower(&v),
        Err(e) => return cx.violation(&format!("{} cannot be written: {}", about(), e)),
    };
    match play_obj(k, &again, &Cx::new(st)) {
        Ok(b) if b.type_name() == got.type_name() && b.text() == got.text() && b.rec(st.hr).map(|v| lower(&v)).as_ref() == Ok(&again) => {}
        g => cx.violation(&format!("{} was written as {} and read again as {:?}", about(), again.show(), g.map(|b| b.text()))),
    }
    cx.count("trees written and read again", 1);
    cx.sample(got.type_name(), || json!({"input": d.show(), "object": clip(&got.text(), 200)}));
}

/// The same with types that take anything.
fn probe(cx: &mut Ctx, n: u64) {
    let mut r = Rng::new(cx.seed, 601, n);
    let st = *r.pick(STYLES);
    let obj = object(&mut r, false);
    let V::Dyn(k, w, _) = obj else { unreachable!() };
    let mut d = lower(&model::resolve(&obj, st.hr));
    mutate_n(&mut r, &mut d, 4);
    let any = V::Dyn(k, w, Box::new(V::Any));
    let got = v::de(&any, Play::new(&d, &Cx::new(st)));
    cx.eval(&format!("{}{:?}{:?}", k, d, st), true);
    let Ok(got) = got else { return cx.count("probe trees refused", 1) };
    cx.count("probe trees accepted", 1);
    let V::Dyn(k, w, x) = &got else { unreachable!() };
    if matches!(model_tag(*k), model::Tag::Int(..)) && model::clashes(*k, x) {
        return cx.count("accepted: an entry named like the tag", 1);
    }
    let again = match record(&got, st.hr, None).0 {
        Ok(v) => lower(&v),
        Err(e) => return cx.violation(&format!("{} read from {} cannot be written: {}", got.show(), d.show(), e)),
    };
    let any = V::Dyn(*k, *w, Box::new(V::Any));
    let back = v::de(&any, Play::new(&again, &Cx::new(st)));
    let data = lower(x);
    let alone = v::de(&V::Any, Play::new(&data, &Cx::new(st)));
    if alone.as_ref() != Ok(&**x) {
        return cx.count("accepted: not stable on its own", 1);
    }
    if back.as_ref() != Ok(&got) {
        cx.violation(&format!("{} read from {} was written as {} and read again as {:?}", got.show(), d.show(), again.show(), back.map(|b| b.show())));
    }
}

fn model_tag(k: usize) -> model::Tag {
    tt_harness::fams::FAMS[k].tag
}

const TOKENS: &[&str] = &[
    "{", "}", "[", "]", ":", ",", "\"", "null", "true", "-1", "0", "1e999", "\"type\"", "\"t\":", "\"c\":", "\"value\":", "\"kind\":",
    "Plain", "\"Plain\"", "\"Kind\"", "()", "(", ")", "Some(", "None", "\\u0000", "\\ud800", "=", "[x]", "x = ", "\n", "\u{feff}",
    "99999999999999999999999999999999999999", "{\"type\":\"Json\"", "{\"Unit\":null}", "1.0e308", "\\", "\u{0}", "b\"", "'",
];

fn mangle(r: &mut Rng, b: &mut Vec<u8>, other: &[u8]) {
    let times = if r.one_in(2) { 1 } else { 1 + r.below(4) };
    for _ in 0..times {
        let n = b.len();
        match r.below(11) {
            0 if n > 0 => {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            1 if n > 0 => {
                let i = r.below(n);
                b[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xfb, 0xfc, b'"', b'{', 0x9f, 0xbf, 0x5f, 0xf6, 0xf7, 2, 3]);
            }
            2 => b.truncate(r.below(n + 1)),
            3 => {
                let i = r.below(n + 1);
                b.insert(i, r.next() as u8);
            }
            4 if n > 0 => {
                b.remove(r.below(n));
            }
            5 | 6 => {
                let i = r.below(n + 1);
                let t = *r.pick(TOKENS);
                b.splice(i..i, t.bytes());
            }
            7 => {
                let i = r.below(n + 1);
                let w = word(r);
                b.splice(i..i, w.bytes());
            }
            8 if n > 1 => {
                let (i, j) = (r.below(n), r.below(n));
                let piece = b[i.min(j)..i.max(j)].to_vec();
                let at = r.below(b.len() + 1);
                b.splice(at..at, piece);
            }
            9 if !other.is_empty() => {
                let i = r.below(n + 1);
                let j = r.below(other.len());
                b.truncate(i);
                b.extend(&other[j..]);
            }
            _ if n > 1 => {
                let (i, j) = (r.below(n), r.below(n));
                b.drain(i.min(j)..i.max(j));
            }
            _ => {}
        }
        if b.len() > 4096 {
            b.truncate(4096);
        }
    }
}

fn bytes(cx: &mut Ctx, n: u64) {
    let mut r = Rng::new(cx.seed, 602, n);
    let k = r.below(TFAMS.len());
    let f = *r.pick(FMTS);
    let o = make(&mut r, k);
    let p = make(&mut r, k);
    let get = |o: &dyn Obj| match o.write(f) {
        Ok(Doc::Bytes(b)) => b,
        Ok(Doc::Json(v)) => v.to_string().into_bytes(),
        Err(_) => vec![],
    };
    let (mut b, other) = (get(&*o), get(&*p));
    if b.is_empty() {
        b = other.clone();
    }
    mangle(&mut r, &mut b, &other);
    try_bytes(cx, k, f, b);
}

fn noise(cx: &mut Ctx, n: u64) {
    let mut r = Rng::new(cx.seed, 603, n);
    let k = r.below(TFAMS.len());
    let f = *r.pick(FMTS);
    let b = if r.one_in(2) {
        (0..r.below(64)).map(|_| r.next() as u8).collect()
    } else {
        let mut s = String::new();
        for _ in 0..r.below(20) {
            s += *r.pick(TOKENS);
        }
        s.into_bytes()
    };
    try_bytes(cx, k, f, b);
}

fn try_bytes(cx: &mut Ctx, k: usize, f: Fmt, b: Vec<u8>) {
    let d = Doc::Bytes(b);
    let got = read_obj(k, f, &d);
    cx.eval(&format!("{}{:?}{:?}", k, f, d), true);
    // The probes, with requests of their own.
    let _ = de(f, &d, &V::Dyn(k, 0, Box::new(V::Str("x".into()))));
    if !matches!(f, Fmt::Bincode | Fmt::Postcard) {
        let _ = de(f, &d, &V::Dyn(k + 2, 0, Box::new(V::Any)));
    }
    let Ok(got) = got else { return cx.count(&format!("{:?}: refused", f), 1) };
    cx.count(&format!("{:?}: accepted", f), 1);
    if conflict(k, &*got, f.human()) {
        return cx.count("accepted: an entry named like the tag", 1);
    }
    if let Some(why) = crate::c_derived::excluded(k, &*got, f) {
        return cx.count(&format!("accepted: {}", why), 1);
    }
    let about = || format!("{:?}: {} {} {} read from {}", f, TFAMS[k].0, got.type_name(), clip(&got.text(), 400), d.show());
    let again = match got.write(f) {
        Ok(d) => d,
        Err(e) => return cx.violation(&format!("{} cannot be written: {}", about(), e)),
    };
    match read_obj(k, f, &again) {
        Ok(b) if b.type_name() == got.type_name() && b.text() == got.text() && b.write(f).as_ref() == Ok(&again) => {}
        g => cx.violation(&format!("{} was written as {} and read again as {:?}", about(), again.show(), g.map(|b| b.text()))),
    }
    cx.count(&format!("{:?}: written and read again", f), 1);
    let _ = ser(f, &V::Unit);
}
