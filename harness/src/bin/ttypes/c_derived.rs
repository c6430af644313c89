//! C04, C05, C06 and C20 for types as users write them.
use crate::types::{play_obj, read_obj, Obj, TAGGING, TFAMS, TYPES};
use serde_json::json;
use tt_harness::ctx::Ctx;
use tt_harness::formats::{de, ser, Fmt, BINARY, TEXT};
use tt_harness::model::{doc_of, same_doc_of, Tag};
use tt_harness::mutate::mutate_n;
use tt_harness::play::{lower, Cx, STYLES};
use tt_harness::rng::Rng;
use tt_harness::v::V;

/// Types that read through "any" at the top and may not be maps: in internal tagging
/// they are shown the entries of the document.
fn sees_entries(name: &str, data: &V) -> bool {
    matches!(name, "Either" | "Json") && !matches!(data, V::Map(..) | V::Struct(..))
}

/// C01, C02 and C03: what is written, of types as users write them.
pub fn written(prop: &'static str, args: &[String]) {
    let mut cx = Ctx::new(prop, args);
    let n = cx.n(60);
    for (i, (name, make)) in TYPES.iter().enumerate() {
        for k in 0..TFAMS.len() {
            let mine = match TAGGING[k] {
                Tag::Ext => "C01",
                Tag::Adj(..) => "C02",
                Tag::Int(..) => "C03",
            };
            if mine != prop {
                continue;
            }
            for j in 0..n {
                cx.case("derived", ((i * TFAMS.len() + k) as u64) * 100_000 + j, |cx| {
                    let mut r = Rng::new(cx.seed, 800 + i as u64, j * 8 + k as u64);
                    let o = make(k, &mut r);
                    let hr = r.one_in(2);
                    let Ok(data) = o.alone().rec(hr) else { return cx.count("skipped: not written alone", 1) };
                    if matches!(TAGGING[k], Tag::Int(t, _) if has_key(&data, t)) {
                        return cx.count("skipped: data has an entry named like the tag", 1);
                    }
                    let mut want = doc_of(TAGGING[k], TFAMS[k].0, name, &data, hr);
                    let what = || format!("trait {} {} {} hr={}", TFAMS[k].0, name, o.text(), hr);
                    let mut got = o.rec(hr);
                    if want.any(&|v| v.is_skipped()) {
                        cx.count("documents with fields left out", 1);
                        // Internal tagging writes maps, which have no fields to leave out.
                        if let Tag::Int(..) = TAGGING[k] {
                            want.drop_skipped();
                            got.iter_mut().for_each(|v| v.drop_skipped());
                        }
                    }
                    match got {
                        Ok(got) if same_doc_of(TAGGING[k], &want, &got) => {}
                        got => cx.violation(&format!("{}: wrote {:?} instead of {}", what(), got.map(|v| v.show()), want.show())),
                    }
                    for &f in TEXT.iter().chain(BINARY).filter(|f| f.human() == hr) {
                        let (a, b) = (o.write(f), ser(f, &want));
                        let told = !matches!(TAGGING[k], Tag::Int(..)) && a != b;
                        // The payload of a variant may be named or counted in more than one way.
                        let read = matches!((&a, &b), (Ok(_), Err(_)) | (Err(_), Ok(_)));
                        if told || read {
                            let (a, b) = (a.map(|d| d.show()), b.map(|d| d.show()));
                            cx.violation(&format!("{}: {:?} wrote {:?} instead of {:?}", what(), f, a, b));
                        }
                        cx.count("documents of derived types compared in real formats", 1);
                    }
                    cx.count("documents of derived types compared", 1);
                    cx.eval(&format!("{}{}{}{}", k, hr, name, o.text()), true);
                });
            }
        }
    }
    cx.finish();
}

fn has_key(data: &V, key: &str) -> bool {
    match data {
        V::NewtypeStruct(_, x) => has_key(x, key),
        V::Struct(_, fs) => fs.iter().any(|f| f.0 == key),
        V::Map(_, es) => es.iter().any(|e| matches!(&e.0, V::Str(s) if s == key)),
        V::UnitVariant(_, _, n) | V::NewtypeVariant(_, _, n, _) | V::TupleVariant(_, _, n, _) | V::StructVariant(_, _, n, _) => *n == key,
        _ => key == "value",
    }
}

fn native_ok(f: Fmt, v: &V) -> bool {
    match ser(f, v) {
        Ok(d) => de(f, &d, v).as_ref() == Ok(v),
        Err(_) => false,
    }
}

/// Why the object cannot be expected to be read back.
pub fn excluded(k: usize, o: &dyn Obj, f: Fmt) -> Option<&'static str> {
    if !o.alone().stable(f) {
        return Some("the format does not round-trip the data itself");
    }
    let hr = f.human();
    let (Ok(data), Ok(doc)) = (o.alone().rec(hr), o.rec(hr)) else { return Some("not written") };
    if let (Some(t), None) = (TFAMS[k].1, TFAMS[k].2) {
        if sees_entries(o.type_name(), &data) {
            return Some("type that reads anything, internally tagged");
        }
        if has_key(&data, t) {
            return Some("data has an entry named like the tag");
        }
        if f == Fmt::RonPretty && data.any(&|v| matches!(v, V::TupleVariant(..) | V::StructVariant(..))) {
            return Some("RON with type names, internally tagged variant payload");
        }
    }
    if !native_ok(f, &doc) {
        return Some("the format does not round-trip that document as plain data");
    }
    if matches!(f, Fmt::JsonValue | Fmt::Toml) && tt_harness::c_rt::odd_keys(&data) {
        return Some("keys other than strings in a format that reorders entries");
    }
    None
}

pub fn round_trips(prop: &'static str, args: &[String]) {
    let mut cx = Ctx::new(prop, args);
    let fmts = if prop == "C04" { TEXT } else { BINARY };
    let n = cx.n(40);
    for (i, (name, make)) in TYPES.iter().enumerate() {
        for k in 0..TFAMS.len() {
            for j in 0..n {
                cx.case("derived", ((i * TFAMS.len() + k) as u64) * 100_000 + j, |cx| {
                    let mut r = Rng::new(cx.seed, 300 + i as u64, j * 8 + k as u64);
                    let o = make(k, &mut r);
                    for &f in fmts {
                        one(cx, k, name, &*o, f);
                    }
                });
            }
        }
    }
    cx.finish();
}

fn one(cx: &mut Ctx, k: usize, name: &str, o: &dyn Obj, f: Fmt) {
    if let Some(why) = excluded(k, o, f) {
        return cx.count(&format!("skipped: {}", why), 1);
    }
    let d = match o.write(f) {
        Ok(d) => d,
        Err(e) => return cx.violation(&format!("{:?}: {} {} was not written: {}", f, TFAMS[k].0, o.text(), e)),
    };
    match read_obj(k, f, &d) {
        Ok(b) if b.type_name() == name && b.text() == o.text() && b.write(f) == Ok(d.clone()) => {}
        g => cx.violation(&format!(
            "{:?}: {} {} {} was written as {} and read as {:?}", f, TFAMS[k].0, name, o.text(), d.show(), g.map(|b| (b.type_name(), b.text())))),
    }
    cx.eval(&format!("{}{}{:?}{}", k, name, f, o.text()), o.text().len() > name.len() + 4);
    cx.count(&format!("derived types in {:?}", f), 1);
    cx.sample(&format!("{:?} {}", f, TFAMS[k].0), || json!({"type": name, "value": o.text(), "document": d.show()}));
}

/// C06: the entries in any order.
pub fn order(args: &[String]) {
    let mut cx = Ctx::new("C06", args);
    let n = cx.n(40);
    for (i, (name, make)) in TYPES.iter().enumerate() {
        for k in 1..TFAMS.len() {
            for j in 0..n {
                cx.case("derived", ((i * TFAMS.len() + k) as u64) * 100_000 + j, |cx| {
                    let mut r = Rng::new(cx.seed, 400 + i as u64, j * 8 + k as u64);
                    let o = make(k, &mut r);
                    for f in [Fmt::JsonStr, Fmt::JsonReader, Fmt::Cbor] {
                        moved(cx, &mut r, k, name, &*o, f);
                    }
                });
            }
        }
    }
    cx.finish();
}

fn moved(cx: &mut Ctx, r: &mut Rng, k: usize, name: &str, o: &dyn Obj, f: Fmt) {
    if let Some(why) = excluded(k, o, f) {
        return cx.count(&format!("skipped: {}", why), 1);
    }
    let hr = f.human();
    let data = o.alone().rec(hr).unwrap();
    if tt_harness::c_rt::odd_keys(&data) {
        return cx.count("skipped: keys other than strings", 1);
    }
    // Wider than 64 bits is beyond JSON read without knowing the type, and null stands
    // for more than one thing there.
    if data.any(&|v| matches!(v, V::I128(_) | V::U128(_))) || data.any(&tt_harness::c_perm::nullish) {
        return cx.count("skipped: not described by the format", 1);
    }
    let V::Map(_, mut es) = lower(&o.rec(hr).unwrap()) else { unreachable!() };
    let tag = es.remove(0);
    let at = r.below(es.len() + 1);
    es.insert(at, tag);
    let d = match ser(f, &V::Map(true, es)) {
        Ok(d) => d,
        Err(_) => return,
    };
    match read_obj(k, f, &d) {
        Ok(b) if b.type_name() == name && b.text() == o.text() => {}
        g => cx.violation(&format!(
            "{:?}: {} {} {} read with the tag at {} from {} as {:?}", f, TFAMS[k].0, name, o.text(), at, d.show(), g.map(|b| (b.type_name(), b.text())))),
    }
    cx.eval(&format!("{}{}{:?}{}{}", k, name, f, o.text(), at), at > 0);
    cx.count(if at > 0 { "derived types, tag moved" } else { "derived types, tag in place" }, 1);
}

/// C20: what derived implementations see and ask for.
pub fn requests(args: &[String]) {
    let mut cx = Ctx::new("C20", args);
    let n = cx.n(60);
    for (i, (name, make)) in TYPES.iter().enumerate() {
        for j in 0..n {
            cx.case("derived", (i as u64) * 100_000 + j, |cx| {
                let mut r = Rng::new(cx.seed, 500 + i as u64, j);
                let k = *r.pick(&[0, 2, 4]);
                let o = make(k, &mut r);
                let st = *r.pick(STYLES);
                let Ok(data) = o.alone().rec(st.hr) else { return };
                let mut data = lower(&data);
                if j % 3 > 0 {
                    mutate_n(&mut r, &mut data, 3);
                }
                let tag = V::Str(if *name == "Renamed" { "Renamed" } else { name }.to_string());
                let es = match TFAMS[k] {
                    (_, Some(t), Some(c)) => vec![(V::Str(t.into()), tag), (V::Str(c.into()), data)],
                    _ => vec![(tag, data)],
                };
                let doc = V::Map(true, es);
                let V::Map(_, es) = &doc else { unreachable!() };
                let data = &es.last().unwrap().1;
                let (c1, c2) = (Cx::logging(st), Cx::logging(st));
                let alone = o.alone().play(data, &c1);
                let got = play_obj(k, &doc, &c2);
                let agree = match (&alone, &got) {
                    (Ok(a), Ok(b)) => b.type_name() == *name && b.text() == *a,
                    (Err(a), Err(b)) => b.contains(a),
                    _ => false,
                };
                let mut inside = std::collections::HashSet::new();
                mark(data, &mut inside);
                let want = c1.log.borrow_mut().take().unwrap();
                let mut have = c2.log.borrow_mut().take().unwrap();
                have.retain(|(a, _)| inside.contains(a));
                if !agree || want != have {
                    let i = want.iter().zip(&have).take_while(|(a, b)| a == b).count();
                    cx.violation(&format!(
                        "{} {} data {} in style {:?}: alone {:?}, in the object {:?}; request {} was {:?} and {:?}",
                        TFAMS[k].0, name, data.show(), st, alone, got.map(|b| b.text()), i, want.get(i).map(|w| &w.1), have.get(i).map(|w| &w.1)));
                }
                cx.count(if alone.is_ok() { "derived: read" } else { "derived: refused" }, 1);
                cx.count("requests of derived types compared", want.len() as u64);
                cx.eval(&format!("{}{}{:?}{:?}", k, name, data, st), !want.is_empty());
            });
        }
    }
    cx.finish();
}

fn mark(v: &V, out: &mut std::collections::HashSet<usize>) {
    out.insert(v as *const V as usize);
    v.children(&mut |c| mark(c, out));
}
