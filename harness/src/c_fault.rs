//! C12: failures.
use crate::ctx::{guarded, Ctx};
use crate::fams::{self, FAMS, TAGS};
use crate::formats::{de, ser, Doc, Fmt};
use crate::model;
use crate::mutate::{spots, with_node};
use crate::play::{lower, Cx, Play, Style, STYLES};
use crate::rec::record;
use crate::rng::Rng;
use crate::v::{self, concrete_failed, gen, reset_concrete_failed, zoo, Gen, V};
use serde_json::json;
use std::io;

pub fn run(args: &[String]) {
    let mut cx = Ctx::new("C12", args);
    let all: Vec<usize> = (0..FAMS.len()).collect();
    // One family per kind of path is enough for the sweep; random cases take the rest.
    let sweep = [0, 2, 7, 9, 14, 16];
    let mut n = 0;
    for v in zoo() {
        for k in sweep {
            cx.case("zoo", n, |cx| {
                let mut r = Rng::new(cx.seed, 120, n);
                every(cx, &mut r, k, n as usize % TAGS.len(), &v, &STYLES[n as usize % STYLES.len()]);
            });
            n += 1;
        }
    }
    for n in 0..cx.n(2_500) {
        cx.case("random", n, |cx| {
            let mut r = Rng::new(cx.seed, 121, n);
            let k = *r.pick(&all);
            let mut g = Gen::all();
            g.avoid = fams::avoid(k);
            g.big = r.one_in(10);
            if r.one_in(3) {
                g.dyns = all.clone();
            }
            let v = gen(&mut r, &g, 0);
            let which = r.below(TAGS.len());
            let st = *r.pick(STYLES);
            every(cx, &mut r, k, which, &v, &st);
        });
    }
    for n in 0..cx.n(600) {
        cx.case("tag-named field", n, |cx| {
            let mut r = Rng::new(cx.seed, 122, n);
            named_like_tag(cx, &mut r, *r_int(n));
        });
    }
    cx.finish();
}

fn r_int(n: u64) -> &'static usize {
    static INT: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    let int = INT.get_or_init(fams::int);
    &int[n as usize % int.len()]
}

/// A struct with a field named like the tag, any field of which fails: what
/// is said is what the field says.
fn named_like_tag(cx: &mut Ctx, r: &mut Rng, k: usize) {
    let model::Tag::Int(t, _) = FAMS[k].tag else { return };
    let which = r.below(TAGS.len());
    let len = 1 + r.below(5);
    let (tag_at, fail_at) = (r.below(len), r.below(len));
    const NAMES: [&str; 5] = ["na", "nb", "nc", "nd", "ne"];
    let msg = format!("the field fails, №{} é\nand \"more\"", fail_at);
    let field = |i: usize| {
        let name = if i == tag_at { t } else { NAMES[i] };
        let v = if i == fail_at { V::Fail(msg.clone()) } else if i == tag_at { V::Str(fams::tag_of(k, which).into()) } else { V::U8(i as u8) };
        (name, v)
    };
    let data = V::Struct("S", (0..len).map(field).collect());
    let (got, st) = record(&V::Dyn(k, which, Box::new(data.clone())), r.one_in(2), None);
    if !matches!(&got, Err(e) if e.0.contains(&msg)) || st.after_failure > 0 {
        cx.violation(&format!("trait {} data {}: the result was {:?}, with {} calls after the failure",
            FAMS[k].trait_name, data.show(), got.map(|v| v.show()), st.after_failure));
    }
    cx.eval(&format!("named{}{}{:?}", k, which, data), true);
    cx.count("failures beside a field named like the tag", 1);
}

fn every(cx: &mut Ctx, r: &mut Rng, k: usize, which: usize, v: &V, st: &Style) {
    if model::clashes(k, v) {
        return cx.count("skipped: keys", 1);
    }
    let obj = V::Dyn(k, which, Box::new(v.clone()));
    let about = || format!("trait {} data {}", FAMS[k].trait_name, v.show());
    let limit = 60;

    // Writing, with the format failing at each call.
    let hr = st.hr;
    let (base, base_st) = record(&obj, hr, None);
    let mut less = v.clone();
    less.skip_some(r);
    for v in if less == *v { vec![v] } else { vec![v, &less] } {
        let obj = V::Dyn(k, which, Box::new(v.clone()));
        let (_, bst) = record(&obj, hr, None);
        for at in spots(r, bst.calls, limit) {
            let (got, gst) = record(&obj, hr, Some(at));
            let text = format!("injected failure #{} in the format\r\n\twith \"details\" {{0}}.", at);
            match got {
                Err(e) if e.0.contains(&text) => {}
                g => cx.violation(&format!("{}: the serializer failed at call {} and the result was {:?}", about(), at, g.map(|v| v.show()))),
            }
            if gst.after_failure > 0 {
                cx.violation(&format!("{}: {} calls after the serializer failed at call {}", about(), gst.after_failure, at));
            }
            cx.eval(&format!("ser{:?}{}{}", obj, hr, at), true);
            cx.count("failures injected while writing", 1);
        }
    }
    // With the type failing at each node.
    for at in spots(r, v.size() as u64, limit) {
        let text = format!("the type fails, №{} é:\n - \"one\"\n\n\tand 'two' {{}} \\n  .", at);
        let bad = V::Dyn(k, which, Box::new(with_node(v, &mut (at as usize), &V::Fail(text.clone()))));
        let (got, gst) = record(&bad, hr, None);
        if !gst.failed {
            cx.count("node not reached", 1);
            continue;
        }
        match got {
            Err(e) if e.0.contains(&text) => {}
            g => cx.violation(&format!("{}: node {} failed to serialize and the result was {:?}", about(), at, g.map(|v| v.show()))),
        }
        if gst.after_failure > 0 {
            cx.violation(&format!("{}: {} calls after node {} failed to serialize", about(), gst.after_failure, at));
        }
        cx.eval(&format!("sernode{:?}{}{}", obj, hr, at), true);
        cx.count("failures of the type while writing", 1);
    }
    if record(&obj, hr, None).0 != base {
        cx.violation(&format!("{}: written differently after failures", about()));
    }

    // Reading, likewise, with the tag in front and moved.
    for how in 0..3 {
        let moved = how > 0;
        if how == 2 && !obj.any(&|v| matches!(v, V::Dyn(k, ..) if matches!(FAMS[*k].tag, model::Tag::Adj(_, _, _, false)))) {
            continue;
        }
        let make = || lower(&model::resolve(&obj, hr));
        let mut r2 = Rng::new(r.next(), 1, 1);
        let mut r3 = Rng::new(r.next(), 1, 2);
        let doc = match how {
            0 => make(),
            1 => model::with_spots(move |n| r2.below(n), make),
            _ => {
                cx.count("documents with ignored fields", 1);
                model::with_extras(move || extras(&mut r3), || model::with_spots(move |n| r2.below(n), make))
            }
        };
        let c = Cx::new(*st);
        let base = v::de(&obj, Play::new(&doc, &c));
        if base.is_err() {
            cx.count("not readable in this style", 1);
        }
        let calls = c.calls.get();
        for at in spots(r, calls, limit) {
            let c = Cx::failing(*st, at);
            reset_concrete_failed();
            let got = v::de(&obj, Play::new(&doc, &c));
            let text = format!("injected failure #{} in the format\r\n\twith \"details\" {{0}}.", at);
            match got {
                Err(e) if e.0.contains(&text) => {}
                g => cx.violation(&format!("{}: reading {} failed at request {} and the result was {:?}", about(), doc.show(), at, g.map(|v| v.show()))),
            }
            if c.after.get() > 0 {
                cx.violation(&format!("{}: {} requests after reading {} failed at request {}", about(), c.after.get(), doc.show(), at));
            }
            cx.eval(&format!("de{:?}{:?}{}{}", obj, st, at, moved), true);
            cx.count("failures injected while reading", 1);
        }
        if base.is_ok() {
            for at in spots(r, v.size() as u64, limit) {
                let text = format!("the type refuses, №{} é:\n - \"one\"\n\n\tand 'two' {{}} \\n  .", at);
                let bad = V::Dyn(k, which, Box::new(with_node(v, &mut (at as usize), &V::Fail(text.clone()))));
                let c = Cx::new(*st);
                reset_concrete_failed();
                let got = v::de(&bad, Play::new(&doc, &c));
                if !concrete_failed() {
                    cx.count("node not reached", 1);
                    continue;
                }
                match got {
                    Err(e) if e.0.contains(&text) => {}
                    g => cx.violation(&format!("{}: node {} refused {} and the result was {:?}", about(), at, doc.show(), g.map(|v| v.show()))),
                }
                if c.after.get() > 0 {
                    cx.violation(&format!("{}: {} requests after node {} refused {}", about(), c.after.get(), at, doc.show()));
                }
                cx.eval(&format!("denode{:?}{:?}{}{}", obj, st, at, moved), true);
                cx.count("failures of the type while reading", 1);
            }
        }
        reset_concrete_failed();
        if v::de(&obj, Play::new(&doc, &Cx::new(*st))) != base {
            cx.violation(&format!("{}: {} read differently after failures", about(), doc.show()));
        }
    }

    // What the type says about data that does not fit.
    let wrong = with_node(v, &mut r.below(v.size()), &V::Struct("Wanted", vec![("missing one", V::U8(0))]));
    refused(cx, k, which, v, &wrong, st);

    // Input and output that break, in real formats.
    if cx.evaluations % 3 == 0 && v.size() < 60 {
        for f in [Fmt::JsonStr, Fmt::Bincode, Fmt::Postcard, Fmt::Cbor] {
            broken(cx, r, &obj, f);
        }
    }
    cx.sample(v.kind(), || json!({"trait": FAMS[k].trait_name, "data": v.show(), "calls": base_st.calls}));
}

/// Fields nobody asked for, some of which take many calls to get past.
fn extras(r: &mut Rng) -> Vec<(usize, v::N, V)> {
    let mut g = Gen::all();
    g.hr_switch = false;
    g.big = false;
    (0..1 + r.below(3)).map(|_| (r.below(9), *r.pick(v::FIELDS), model::resolve(&gen(r, &g, 2), true))).collect()
}

/// Data of one type read as another: the same complaint as without the trait object.
fn refused(cx: &mut Ctx, k: usize, which: usize, v: &V, wrong: &V, st: &Style) {
    if let model::Tag::Int(..) = FAMS[k].tag {
        return;
    }
    if wrong.any(&|v| matches!(v, V::Dyn(..))) {
        return;
    }
    let doc = lower(&model::doc(k, which, v, st.hr));
    let data = lower(&model::resolve(v, st.hr));
    let native = v::de(wrong, Play::new(&data, &Cx::new(*st)));
    let got = v::de(&V::Dyn(k, which, Box::new(wrong.clone())), Play::new(&doc, &Cx::new(*st)));
    match (native, got) {
        (Err(n), Err(g)) if g.0.contains(&n.0) => {}
        (Ok(n), Ok(V::Dyn(_, _, g))) if n == *g => {}
        (n, g) => cx.violation(&format!("{} read as {} gave {:?}, and as an object {:?}", data.show(), wrong.show(), n, g)),
    }
    cx.count("unfitting data compared", 1);
}

struct Breaking<T> {
    left: usize,
    inner: T,
}
impl io::Write for Breaking<Vec<u8>> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 {
            return Err(io::Error::new(io::ErrorKind::Other, "injected i/o failure"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.inner.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl<'a> io::Read for Breaking<&'a [u8]> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.left == 0 {
            return Err(io::Error::new(io::ErrorKind::Other, "injected i/o failure"));
        }
        let n = b.len().min(self.left);
        let n = self.inner.read(&mut b[..n])?;
        self.left -= n;
        Ok(n)
    }
}

fn broken(cx: &mut Ctx, r: &mut Rng, obj: &V, f: Fmt) {
    let Ok(doc @ Doc::Bytes(_)) = ser(f, obj) else { return };
    let Doc::Bytes(bytes) = &doc else { unreachable!() };
    if de(f, &doc, obj).as_ref() != Ok(obj) {
        return;
    }
    for at in spots(r, bytes.len() as u64, 40) {
        let at = at as usize;
        let mut w = Breaking { left: at, inner: vec![] };
        let e = match f {
            Fmt::JsonStr => serde_json::to_writer(&mut w, obj).err().map(|e| e.to_string()),
            Fmt::Bincode => bincode::serialize_into(&mut w, obj).err().map(|e| e.to_string()),
            Fmt::Cbor => ciborium::into_writer(obj, &mut w).err().map(|e| format!("{:?}", e)),
            _ => Some("injected i/o failure".into()),
        };
        if !e.as_ref().is_some_and(|e| e.contains("injected i/o failure")) {
            cx.violation(&format!("{:?}: output broke after {} bytes while writing {} and the result was {:?}", f, at, obj.show(), e));
        }
        if w.inner.len() > at || (f != Fmt::Postcard && w.inner != bytes[..w.inner.len()]) {
            cx.violation(&format!("{:?}: output broke after {} bytes but {:?} was written", f, at, w.inner));
        }
        // Input that ends, and input that breaks.
        let short = Doc::Bytes(bytes[..at].to_vec());
        match guarded(|| de(f, &short, obj)) {
            Ok(Err(_)) => {}
            g => cx.violation(&format!("{:?}: the first {} bytes of {} gave {:?}", f, at, doc.show(), g)),
        }
        if f == Fmt::JsonStr || f == Fmt::Bincode {
            let read = Breaking { left: at, inner: &bytes[..] };
            let seed = v::Tpl(obj);
            let e = if f == Fmt::JsonStr {
                use serde::de::DeserializeSeed;
                seed.deserialize(&mut serde_json::Deserializer::from_reader(read)).err().map(|e| e.to_string())
            } else {
                use bincode::Options;
                bincode::DefaultOptions::new().with_fixint_encoding().deserialize_from_seed(seed, read).err().map(|e| e.to_string())
            };
            // Bincode itself says so when its input breaks inside a char.
            let own = f == Fmt::Bincode && e.as_ref().is_some_and(|e| e.contains("char is not valid"));
            if !own && !e.as_ref().is_some_and(|e| e.contains("injected i/o failure")) {
                cx.violation(&format!("{:?}: input broke after {} bytes of {} and the result was {:?}", f, at, doc.show(), e));
            }
        }
        cx.count("broken inputs and outputs", 1);
    }
}
