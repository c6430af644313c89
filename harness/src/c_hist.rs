//! C21: what else happens, before or around an operation, does not matter.
use crate::c_dup;
use crate::ctx::{clip, guarded, Ctx};
use crate::fams::{self, FAMS, TAGS};
use crate::fork::in_child;
use crate::formats::{de, ser, Doc, Fmt};
use crate::model::{self, Tag};
use crate::mutate::mutate_n;
use crate::play::{lower, Cx, Play, STYLES};
use crate::rec::record;
use crate::rng::Rng;
use crate::v::{self, gen, reset_concrete_failed, Gen, V};
use serde_json::json;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Op {
    Write(V, bool, Option<u64>),
    Read(V, V, usize, Option<u64>),
    WriteTo(V, Fmt),
    ReadFrom(V, Doc, Fmt),
    Dup(usize, V, usize),
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Write(..) => "write to the recorder",
            Op::Read(..) => "read from the player",
            Op::WriteTo(..) => "write to a format",
            Op::ReadFrom(..) => "read from a format",
            Op::Dup(..) => "read an ambiguous or unique tag",
        }
    }
}

pub fn perform(op: &Op) -> String {
    let r = guarded(|| match op {
        Op::Write(v, hr, at) => format!("{:?}", record(v, *hr, *at).0),
        Op::Read(t, d, st, at) => {
            let mut c = Cx::new(STYLES[*st]);
            c.fail_at = *at;
            reset_concrete_failed();
            format!("{:?}", v::de(t, Play::new(d, &c)))
        }
        Op::WriteTo(v, f) => format!("{:?}", ser(*f, v)),
        Op::ReadFrom(t, d, f) => format!("{:?}", de(*f, d, t)),
        Op::Dup(k, d, how) => format!("{:?}", c_dup::read_doc(*k, d, *how)),
    });
    match r {
        Ok(s) => s,
        Err(p) => format!("panicked: {}", p),
    }
}

/// The program with a node replaced by something that fails or panics.
fn spoil(r: &mut Rng, v: &V) -> V {
    let msg = if r.one_in(2) { "PANIC in the type" } else { "the type fails" };
    let mut v = v.clone();
    let n = v.size();
    let mut at = r.below(n);
    set(&mut v, &mut at, &V::Fail(msg.into()));
    v
}
fn set(v: &mut V, i: &mut usize, new: &V) {
    if *i == 0 {
        *v = new.clone();
        *i = usize::MAX;
        return;
    }
    *i -= 1;
    match v {
        V::Some(x) | V::NewtypeStruct(_, x) | V::NewtypeVariant(_, _, _, x) | V::Dyn(_, _, x) => set(x, i, new),
        V::Seq(_, xs) | V::Tuple(xs) | V::TupleStruct(_, xs) | V::TupleVariant(_, _, _, xs) => {
            xs.iter_mut().for_each(|x| set(x, i, new))
        }
        V::Map(_, es) => es.iter_mut().for_each(|(k, v)| {
            set(k, i, new);
            set(v, i, new)
        }),
        V::Struct(_, fs) | V::StructVariant(_, _, _, fs) => fs.iter_mut().for_each(|f| set(&mut f.1, i, new)),
        V::Hr(a, b) => {
            set(a, i, new);
            set(b, i, new)
        }
        _ => {}
    }
}

pub fn object(r: &mut Rng, deep: bool) -> V {
    let all: Vec<usize> = (0..FAMS.len()).collect();
    loop {
        let k = *r.pick(&all);
        let mut g = Gen::all();
        g.avoid = fams::avoid(k);
        g.big = false;
        if deep || r.one_in(2) {
            g.dyns = all.clone();
        }
        let v = gen(r, &g, 0);
        if !model::clashes(k, &v) {
            return V::Dyn(k, r.below(TAGS.len()), Box::new(v));
        }
    }
}

pub fn op(r: &mut Rng) -> Op {
    let obj = object(r, false);
    let st = r.below(STYLES.len());
    let hr = STYLES[st].hr;
    let place = |r: &mut Rng| if r.one_in(4) { Some(r.below(12) as u64) } else { None };
    match r.below(8) {
        0 | 1 => {
            let obj = if r.one_in(3) { spoil(r, &obj) } else { obj };
            let at = place(r);
            Op::Write(obj, hr, at)
        }
        2..=4 => {
            let mut d = lower(&model::resolve(&obj, hr));
            if r.one_in(2) {
                mutate_n(r, &mut d, 3);
            }
            let t = if r.one_in(4) { spoil(r, &obj) } else { obj };
            let at = place(r);
            Op::Read(t, d, st, at)
        }
        5 => {
            let f = *r.pick(&[Fmt::JsonStr, Fmt::JsonValue, Fmt::Ron, Fmt::Cbor, Fmt::Bincode, Fmt::Postcard]);
            let obj = if r.one_in(4) { spoil(r, &obj) } else { obj };
            Op::WriteTo(obj, f)
        }
        6 => {
            let f = *r.pick(&[Fmt::JsonStr, Fmt::JsonSlice, Fmt::JsonReader, Fmt::Ron, Fmt::Cbor, Fmt::Bincode, Fmt::Postcard]);
            match ser(f, &model::resolve(&obj, f.human())) {
                Ok(Doc::Bytes(mut b)) => {
                    if r.one_in(3) && !b.is_empty() {
                        let n = r.below(b.len());
                        b.truncate(n);
                    }
                    let t = if r.one_in(4) && f != Fmt::Bincode && f != Fmt::Postcard { spoil(r, &obj) } else { obj };
                    Op::ReadFrom(t, Doc::Bytes(b), f)
                }
                _ => Op::Write(obj, hr, None),
            }
        }
        _ => {
            let k = r.below(c_dup::TRAITS.len());
            let tag = r.pick(c_dup::TAGS).0;
            let d = c_dup::docs(k, tag);
            let d = r.pick(&d).clone();
            Op::Dup(k, d, r.below(7))
        }
    }
}

pub fn run(args: &[String]) {
    let mut cx = Ctx::new("C21", args);
    for n in 0..cx.n(400) {
        cx.case("history", n, |cx| history(cx, n));
    }
    for n in 0..cx.n(150) {
        cx.case("worn", n, |cx| worn(cx, n));
    }
    for n in 0..cx.n(400) {
        cx.case("around", n, |cx| around(cx, n));
    }
    for n in 0..cx.n(4_000) {
        cx.case("parts", n, |cx| parts(cx, n));
    }
    for n in 0..cx.n(8_000) {
        cx.case("nested", n, |cx| nested(cx, n));
    }
    for n in 0..cx.n(60) {
        cx.case("deep", n, |cx| deep(cx, n));
    }
    cx.finish();
}

/// The result in a process that has done nothing else.
fn fresh(op: &Op) -> Result<String, String> {
    in_child(|| perform(op).into_bytes()).map(|b| String::from_utf8_lossy(&b).into_owned())
}

fn history(cx: &mut Ctx, n: u64) {
    let mut r = Rng::new(cx.seed, 210, n);
    let pool: Vec<Op> = (0..3 + r.below(4)).map(|_| op(&mut r)).collect();
    let alone: Vec<Result<String, String>> = pool.iter().map(fresh).collect();
    let seq: Vec<usize> = (0..6 + r.below(14)).map(|_| r.below(pool.len())).collect();
    let got = in_child(|| {
        let out: Vec<String> = seq.iter().map(|i| perform(&pool[*i])).collect();
        serde_json::to_vec(&out).unwrap()
    });
    let got: Vec<String> = match got {
        Ok(b) => serde_json::from_slice(&b).unwrap(),
        Err(e) => return cx.violation(&format!("operations {:?}: {}", pool, e)),
    };
    for (j, i) in seq.iter().enumerate() {
        if Ok(&got[j]) != alone[*i].as_ref() {
            cx.violation(&format!(
                "operation {} gave {} after operations {:?} and {:?} alone; the operations: {}",
                i, clip(&got[j], 600), &seq[..j], alone[*i].as_ref().map(|s| clip(s, 600)), clip(&format!("{:?}", pool), 2500)));
            break;
        }
        cx.count(pool[*i].kind(), 1);
        cx.count(outcome(&got[j]), 1);
    }
    cx.eval(&format!("{:?}{:?}", pool, seq), true);
    cx.sample("history", || json!({"operations": pool.iter().map(|o| clip(&format!("{:?}", o), 200)).collect::<Vec<_>>(), "order": seq, "results": got.iter().map(|g| clip(g, 80)).collect::<Vec<_>>()}));
}

fn outcome(s: &str) -> &'static str {
    if s.starts_with("Ok") {
        "succeeded"
    } else if s.starts_with("panicked") {
        "panicked"
    } else {
        "failed"
    }
}

/// The same operation over and over, and then others.
fn worn(cx: &mut Ctx, n: u64) {
    let mut r = Rng::new(cx.seed, 215, n);
    let want = (["write to the recorder", "read from the player", "write to a format", "read from a format"][n as usize % 4],
        ["failed", "panicked", "failed", "succeeded"][n as usize / 4 % 4]);
    let mut found = None;
    for _ in 0..60 {
        let o = op(&mut r);
        if o.kind() == want.0 {
            if let Ok(s) = fresh(&o) {
                let good = outcome(&s) == want.1;
                found = Some((o, s));
                if good {
                    break;
                }
            }
        }
    }
    let Some((o, alone)) = found else { return };
    let pool: Vec<Op> = (0..4).map(|_| op(&mut r)).collect();
    let pool_alone: Vec<Result<String, String>> = pool.iter().map(fresh).collect();
    // Past what a byte counts, and now and then past two bytes.
    let times: u32 = if n % 15 == 0 { 66_000 } else { 1_500 };
    let got = in_child(|| {
        let t = std::time::Instant::now();
        let (mut i, mut odd) = (0, String::new());
        while i < times && (i < 1_500 || t.elapsed().as_secs() < 10) {
            let s = perform(&o);
            if s != alone {
                odd = s;
                break;
            }
            i += 1;
        }
        let after: Vec<String> = if odd.is_empty() { pool.iter().map(perform).collect() } else { vec![] };
        serde_json::to_vec(&(i, odd, after)).unwrap()
    });
    let (i, odd, after): (u32, String, Vec<String>) = match got {
        Ok(b) => serde_json::from_slice(&b).unwrap(),
        Err(e) => return cx.violation(&format!("operation {:?}, {} times: {}", o, times, e)),
    };
    if !odd.is_empty() {
        cx.violation(&format!("{:?} gave {} after {} times {}", o, clip(&odd, 600), i, clip(&alone, 600)));
    }
    for ((p, a), b) in pool.iter().zip(&pool_alone).zip(&after) {
        if a.as_ref() != Ok(b) {
            cx.violation(&format!("{:?} gave {} after {} times {:?}, and {:?} alone", p, clip(b, 600), i, o, a));
        }
    }
    cx.count(&format!("repeated operations that {}", outcome(&alone)), i as u64);
    cx.eval(&format!("{:?}{}", o, times), true);
}

/// Operations run by the concrete type in the middle of another operation.
fn around(cx: &mut Ctx, n: u64) {
    let mut r = Rng::new(cx.seed, 211, n);
    let outer = loop {
        match op(&mut r) {
            Op::Dup(..) => {}
            o => break o,
        }
    };
    let inner: Vec<Op> = (0..1 + r.below(3)).map(|_| op(&mut r)).collect();
    let (outer_alone, inner_alone): (_, Vec<_>) = (fresh(&outer), inner.iter().map(fresh).collect());
    let got = in_child(|| {
        let out: Rc<RefCell<Vec<(usize, String)>>> = Rc::default();
        let (o, i) = (out.clone(), inner.clone());
        let mut j = 0;
        fams::set_before(Some(Box::new(move || {
            // The format keeps count of failures of the type, whoever's they are.
            let failed = v::concrete_failed();
            let s = perform(&i[j % i.len()]);
            if !failed {
                reset_concrete_failed();
            }
            o.borrow_mut().push((j % i.len(), s));
            j += 1;
        })));
        let r = perform(&outer);
        fams::set_before(None);
        let all = out.borrow().clone();
        serde_json::to_vec(&(r, all)).unwrap()
    });
    let (result, inners): (String, Vec<(usize, String)>) = match got {
        Ok(b) => serde_json::from_slice(&b).unwrap(),
        Err(e) => return cx.violation(&format!("{:?} around {:?}: {}", outer, inner, e)),
    };
    if Ok(&result) != outer_alone.as_ref() {
        cx.violation(&format!("{:?} gave {} with {:?} done by the type inside it, and {:?} alone", outer, clip(&result, 600), inner, outer_alone));
    }
    for (i, s) in &inners {
        if Ok(s) != inner_alone[*i].as_ref() {
            cx.violation(&format!("{:?} gave {} done by the type inside {:?}, and {:?} alone", inner[*i], clip(s, 600), outer, inner_alone[*i]));
        }
    }
    cx.count("operations inside operations", inners.len() as u64);
    cx.eval(&format!("{:?}{:?}", outer, inner), !inners.is_empty());
}

/// Every nested object replaced by a record of what it writes alone.
fn subst(v: &V, hr: bool) -> Option<V> {
    let s = |v: &V| subst(v, hr);
    let ss = |vs: &[V]| vs.iter().map(s).collect::<Option<Vec<_>>>();
    let sf = |fs: &[(v::N, V)]| fs.iter().map(|(k, v)| Some((*k, s(v)?))).collect::<Option<Vec<_>>>();
    Some(match v {
        V::Some(x) => V::Some(Box::new(s(x)?)),
        V::NewtypeStruct(n, x) => V::NewtypeStruct(n, Box::new(s(x)?)),
        V::NewtypeVariant(n, i, vn, x) => V::NewtypeVariant(n, *i, vn, Box::new(s(x)?)),
        V::Seq(d, vs) => V::Seq(*d, ss(vs)?),
        V::Tuple(vs) => V::Tuple(ss(vs)?),
        V::TupleStruct(n, vs) => V::TupleStruct(n, ss(vs)?),
        V::TupleVariant(n, i, vn, vs) => V::TupleVariant(n, *i, vn, ss(vs)?),
        V::Map(d, es) => V::Map(*d, es.iter().map(|(k, v)| Some((s(k)?, s(v)?))).collect::<Option<Vec<_>>>()?),
        V::Struct(n, fs) => V::Struct(n, sf(fs)?),
        V::StructVariant(n, i, vn, fs) => V::StructVariant(n, *i, vn, sf(fs)?),
        V::Hr(a, b) => s(if hr { a } else { b })?,
        V::Dyn(..) => record(v, hr, None).0.ok()?,
        x => x.clone(),
    })
}

fn parts(cx: &mut Ctx, n: u64) {
    let mut r = Rng::new(cx.seed, 212, n);
    let obj = object(&mut r, true);
    let V::Dyn(k, w, x) = &obj else { unreachable!() };
    let hr = r.one_in(2);
    let Some(plain) = subst(x, hr) else {
        return cx.violation(&format!("an object inside {} was not written", obj.show()));
    };
    let whole = record(&obj, hr, None).0;
    let want = record(&V::Dyn(*k, *w, Box::new(plain)), hr, None).0;
    if whole != want {
        cx.violation(&format!("{} was written as {:?}, and with its inner objects written beforehand as {:?}", obj.show(), whole, want));
    }
    cx.eval(&format!("{:?}{}", obj, hr), x.any(&|v| matches!(v, V::Dyn(..))));
    cx.count("objects compared with their parts", 1);
}

/// A layer around a document and its template.
fn wrap(r: &mut Rng, k: usize, hr: bool, d: V, t: V) -> (V, V) {
    let w = r.below(TAGS.len());
    let (d, t) = match r.below(5) {
        0 => (V::Seq(true, vec![V::U8(1), d]), V::Tuple(vec![V::U8(1), t])),
        1 => (V::Map(true, vec![(V::Str("in here".into()), d)]), V::Map(true, vec![(V::Str("in here".into()), t)])),
        2 => (
            V::Map(true, vec![(V::Str("Beta".into()), d)]),
            V::NewtypeVariant("E", 1, "Beta", Box::new(t)),
        ),
        3 => (
            V::Map(true, vec![(V::Str("first".into()), V::U8(2)), (V::Str("in here".into()), d)]),
            V::Struct("Outer", vec![("first", V::U8(2)), ("in here", t)]),
        ),
        _ => (V::Map(true, vec![(V::Str("in here".into()), d)]), V::Struct("Outer", vec![("in here", t)])),
    };
    let _ = hr;
    let tag = V::Str(fams::tag_of(k, w).into());
    let doc = match (FAMS[k].tag, &t) {
        (Tag::Ext, _) => V::Map(true, vec![(tag, d)]),
        (Tag::Adj(t, c, ..), _) => V::Map(true, vec![(V::Str(t.into()), tag), (V::Str(c.into()), d)]),
        (Tag::Int(f, _), V::Tuple(_)) => V::Map(true, vec![(V::Str(f.into()), tag), (V::Str("value".into()), d)]),
        (Tag::Int(f, _), _) => {
            let V::Map(_, mut es) = d else { unreachable!() };
            es.insert(0, (V::Str(f.into()), tag));
            V::Map(true, es)
        }
    };
    (doc, V::Dyn(k, w, Box::new(t)))
}

/// A document, good or bad, read alone and inside other objects.
fn nested(cx: &mut Ctx, n: u64) {
    let mut r = Rng::new(cx.seed, 213, n);
    let st = r.below(STYLES.len());
    let hr = STYLES[st].hr;
    let obj = object(&mut r, false);
    let mut d = lower(&model::resolve(&obj, hr));
    let bad = r.one_in(2);
    if bad {
        mutate_n(&mut r, &mut d, 2);
    }
    let alone = v::de(&obj, Play::new(&d, &Cx::new(STYLES[st])));
    let (mut doc, mut t) = (d.clone(), obj.clone());
    let layers = 1 + r.below(4);
    for _ in 0..layers {
        let k = r.below(FAMS.len());
        // A tag field named "value" and data with its own entry of that name.
        let k = if matches!(FAMS[k].tag, Tag::Int("value", _)) { 2 } else { k };
        (doc, t) = wrap(&mut r, k, hr, doc, t);
    }
    let got = v::de(&t, Play::new(&doc, &Cx::new(STYLES[st])));
    let ok = match (&alone, &got) {
        (Ok(a), Ok(g)) => {
            let mut x = g;
            for _ in 0..layers {
                x = match x {
                    V::Dyn(_, _, y) => match &**y {
                        V::Tuple(xs) => &xs[1],
                        V::Map(_, es) => &es[0].1,
                        V::NewtypeVariant(_, _, _, y) => y,
                        V::Struct(_, fs) => &fs.last().unwrap().1,
                        y => y,
                    },
                    x => x,
                };
            }
            x == a
        }
        (Err(a), Err(g)) => g.0.contains(&a.0),
        _ => false,
    };
    if !ok {
        cx.violation(&format!("{} alone gave {:?}, and inside {} gave {:?}", d.show(), alone, doc.show(), got));
    }
    cx.count(if alone.is_ok() { "read, alone and inside" } else { "refused, alone and inside" }, 1);
    cx.eval(&format!("{:?}{:?}{}", doc, t, st), true);
}

/// Objects in objects in objects.
fn deep(cx: &mut Ctx, n: u64) {
    let mut r = Rng::new(cx.seed, 214, n);
    let depth = 1 + r.below(60);
    let mut v = V::I32(5);
    let mut last = usize::MAX;
    for _ in 0..depth {
        let k = loop {
            let k = r.below(FAMS.len());
            if k != last {
                break k;
            }
        };
        last = k;
        let inner = match if k == 4 { 0 } else { r.below(3) } {
            0 => V::Struct("Level", vec![("down", v)]),
            1 => V::Seq(true, vec![v]),
            _ => V::Some(Box::new(v)),
        };
        v = V::Dyn(k, r.below(TAGS.len()), Box::new(inner));
    }
    if nested_clash(&v) {
        return;
    }
    let (got, _) = record(&v, true, None);
    let want = model::resolve(&v, true);
    if !got.as_ref().is_ok_and(|g| model::same_nested(match v { V::Dyn(k, ..) => k, _ => 0 }, &want, g)) {
        cx.violation(&format!("{} levels: {} written as {:?}", depth, v.show(), got.map(|g| g.show())));
    }
    for st in STYLES.iter().take(3) {
        let d = lower(&model::resolve(&v, st.hr));
        let back = v::de(&v, Play::new(&d, &Cx::new(*st)));
        if back.as_ref() != Ok(&v) {
            cx.violation(&format!("{} levels: {} read as {:?}", depth, d.show(), back.map(|b| b.show())));
        }
    }
    for f in [Fmt::JsonStr, Fmt::JsonValue, Fmt::Bincode, Fmt::Postcard, Fmt::Cbor] {
        if depth > 30 && f != Fmt::Bincode && f != Fmt::Postcard {
            continue;
        }
        match ser(f, &v).map(|d| de(f, &d, &v)) {
            Ok(Ok(b)) if b == v => cx.count("deep round trips", 1),
            g => cx.violation(&format!("{:?}, {} levels: {} gave {:?}", f, depth, v.show(), g.map(|g| g.map(|v| v.show())))),
        }
    }
    cx.eval(&format!("{:?}", v), depth > 1);
}

fn nested_clash(v: &V) -> bool {
    match v {
        V::Dyn(k, _, x) => model::clashes(*k, x),
        _ => false,
    }
}
