//! C14: what operations leave behind, and how much they take.
#![allow(clippy::all)]
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::Ordering::SeqCst;
use tt_harness::ctx::{guarded, Ctx};
use tt_harness::fams::{self, BUILT, DROP_ERRORS, FAMS, LIVE, TAGS, TRACK};
#[cfg(feature = "formats")]
use tt_harness::formats::{de, ser, Doc, Fmt};
use tt_harness::model;
use tt_harness::mutate::{mutate_n, spots, with_node};
use tt_harness::play::{lower, Cx, Hint, Play, Style, STYLES};
use tt_harness::rec::record;
use tt_harness::rng::Rng;
use tt_harness::v::{self, deep, gen, zoo, Gen, V};

// ---------------------------------------------------------------------------
// The allocator counts for its own thread.

thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<i64> = const { Cell::new(0) };
}
struct Counting;
fn took(n: i64, blocks: i64) {
    let _ = BYTES.try_with(|b| {
        b.set(b.get() + n);
        BLOCKS.with(|c| c.set(c.get() + blocks));
        PEAK.with(|p| p.set(p.get().max(b.get())));
        LARGEST.with(|l| l.set(l.get().max(n)));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            took(l.size() as i64, 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        took(-(l.size() as i64), -1);
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            took(l.size() as i64, 1);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            took(n as i64 - l.size() as i64, 0);
        }
        q
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// Bytes and blocks left behind, and the most bytes held meanwhile.
fn measured(f: &mut dyn FnMut()) -> (i64, i64, i64) {
    let (b, c) = (BYTES.with(|b| b.get()), BLOCKS.with(|c| c.get()));
    PEAK.with(|p| p.set(b));
    f();
    let peak = PEAK.with(|p| p.get()) - b;
    (BYTES.with(|b| b.get()) - b, BLOCKS.with(|c| c.get()) - c, peak)
}

/// Repeat an operation until it leaves nothing behind.
fn clean(cx: &mut Ctx, what: &str, about: &dyn Fn() -> String, op: &mut dyn FnMut() -> &'static str) {
    let (live, errors) = (LIVE.load(SeqCst), DROP_ERRORS.load(SeqCst));
    let mut left = vec![];
    let mut result = "";
    for _ in 0..6 {
        let (bytes, blocks, _) = measured(&mut || result = op());
        left.push((bytes, blocks));
        if left.len() > 1 && bytes <= 0 && blocks <= 0 {
            break;
        }
    }
    let last = *left.last().unwrap();
    if last.0 > 0 || last.1 > 0 {
        cx.violation(&format!("{}: repeated operations leave (bytes, blocks) {:?} behind: {}", what, left, about()));
    }
    let (l, e) = (LIVE.load(SeqCst) - live, DROP_ERRORS.load(SeqCst) - errors);
    if l != 0 || e != 0 {
        cx.violation(&format!("{}: {} objects not dropped, {} dropped again: {}", what, l, e, about()));
    }
    cx.eval(&format!("{}{}", what, about()), true);
    cx.count(&format!("{}, {}", what, result), left.len() as u64);
}

fn verdict<T, E>(r: Result<Result<T, E>, String>) -> &'static str {
    match r {
        Ok(Ok(_)) => "succeeded",
        Ok(Err(_)) => "failed",
        Err(_) => "panicked",
    }
}

fn run(_: &str, args: &[String]) {
    let mut cx = Ctx::new("C14", args);
    let all: Vec<usize> = (0..FAMS.len()).collect();
    TRACK.store(true, SeqCst);
    let sweep = [0, 2, 7, 9, 14, 16];
    let mut n = 0;
    let tiny = cx.scale < 0.01;
    if !tiny {
        for v in zoo() {
            for k in sweep {
                // Not everything where every step costs more.
                if cx.scale < 1.0 && n % 5 != 0 {
                    n += 1;
                    continue;
                }
                cx.case("zoo", n, |cx| {
                    let mut r = Rng::new(cx.seed, 140, n);
                    leaks(cx, &mut r, k, n as usize % TAGS.len(), &v, &STYLES[n as usize % STYLES.len()]);
                });
                n += 1;
            }
        }
    }
    for n in 0..cx.n(1_000) {
        cx.case("random", n, |cx| {
            let mut r = Rng::new(cx.seed, 141, n);
            let k = *r.pick(&all);
            let mut g = Gen::all();
            g.avoid = fams::avoid(k);
            if r.one_in(3) {
                g.dyns = all.clone();
            }
            let v = gen(&mut r, &g, if tiny { 2 } else { 0 });
            let which = r.below(TAGS.len());
            let st = *r.pick(STYLES);
            leaks(cx, &mut r, k, which, &v, &st);
        });
    }
    for n in 0..cx.n(1_500) {
        cx.case("claims", n, |cx| {
            let mut r = Rng::new(cx.seed, 142, n);
            claims(cx, &mut r);
        });
    }
    #[cfg(feature = "formats")]
    cx.case("doubling", 0, doubling);
    if !tiny {
        for n in 0..20 * FAMS.len() as u64 {
            cx.case("growth", n, |cx| growth(cx, n as usize / 20, n as usize % 20));
        }
    }
    cx.count("objects built", BUILT.load(SeqCst) as u64);
    cx.finish();
}

fn leaks(cx: &mut Ctx, r: &mut Rng, k: usize, which: usize, v: &V, st: &Style) {
    if model::clashes(k, v) {
        return cx.count("skipped: keys", 1);
    }
    let limit = if cx.scale < 0.01 { 3 } else { 12 };
    let obj = V::Dyn(k, which, Box::new(v.clone()));
    let hr = st.hr;
    let about = || format!("trait {} data {}", FAMS[k].trait_name, v.show());

    // Writing: whole, failing in the format, failing in the type, panicking there.
    clean(cx, "writing", &about, &mut || verdict(guarded(|| record(&obj, hr, None).0)));
    let calls = record(&obj, hr, None).1.calls;
    for at in spots(r, calls, limit) {
        clean(cx, "writing, format fails", &|| format!("{} at {}", about(), at), &mut || verdict(guarded(|| record(&obj, hr, Some(at)).0)));
    }
    for at in spots(r, v.size() as u64, limit) {
        for m in ["the type fails", "PANIC in the type"] {
            let bad = V::Dyn(k, which, Box::new(with_node(v, &mut (at as usize), &V::Fail(m.into()))));
            clean(cx, "writing, type fails", &|| format!("{} {} at {}", m, about(), at), &mut || verdict(guarded(|| record(&bad, hr, None).0)));
        }
    }
    // Reading, with the tag in front and elsewhere.
    for moved in [false, true] {
        let doc = if moved {
            let mut r2 = Rng::new(r.next(), 1, 1);
            model::with_spots(move |n| r2.below(n), || lower(&model::resolve(&obj, hr)))
        } else {
            lower(&model::resolve(&obj, hr))
        };
        let about = || format!("trait {} document {} style {:?}", FAMS[k].trait_name, doc.show(), st);
        let read = |t: &V, c: &Cx, d: &V| verdict(guarded(|| v::de(t, Play::new(d, c))));
        let c = Cx::new(*st);
        let _ = v::de(&obj, Play::new(&doc, &c));
        let calls = c.calls.get();
        clean(cx, "reading", &about, &mut || read(&obj, &Cx::new(*st), &doc));
        for at in spots(r, calls, limit) {
            clean(cx, "reading, format fails", &|| format!("{} at {}", about(), at), &mut || read(&obj, &Cx::failing(*st, at), &doc));
        }
        for at in spots(r, v.size() as u64, limit) {
            for m in ["the type fails", "PANIC in the type"] {
                let bad = V::Dyn(k, which, Box::new(with_node(v, &mut (at as usize), &V::Fail(m.into()))));
                clean(cx, "reading, type fails", &|| format!("{} {} at {}", m, about(), at), &mut || read(&bad, &Cx::new(*st), &doc));
            }
        }
        for _ in 0..limit.min(4) {
            let mut d = doc.clone();
            mutate_n(r, &mut d, 3);
            clean(cx, "reading, changed", &|| format!("trait {} document {}", FAMS[k].trait_name, d.show()), &mut || read(&obj, &Cx::new(*st), &d));
        }
    }
    #[cfg(feature = "formats")]
    real(cx, r, &obj);
    cx.sample(v.kind(), || json!({"trait": FAMS[k].trait_name, "data": v.show(), "style": format!("{:?}", st)}));
}

#[cfg(feature = "formats")]
fn real(cx: &mut Ctx, r: &mut Rng, obj: &V) {
    let f = *r.pick(&[Fmt::JsonStr, Fmt::JsonReader, Fmt::JsonValue, Fmt::Ron, Fmt::Cbor, Fmt::Toml, Fmt::Bincode, Fmt::Postcard]);
    if f == Fmt::Cbor && obj.depth() > 5 {
        return cx.count("skipped: the known finding", 1);
    }
    let about = || format!("{:?} {}", f, obj.show());
    clean(cx, "writing in a format", &about, &mut || verdict(guarded(|| ser(f, obj))));
    let Ok(d) = ser(f, obj) else { return };
    clean(cx, "reading from a format", &about, &mut || verdict(guarded(|| de(f, &d, obj))));
    if let Doc::Bytes(b) = &d {
        for at in spots(r, b.len() as u64, 12) {
            let cut = Doc::Bytes(b[..at as usize].to_vec());
            clean(cx, "reading from a format, cut", &|| cut.show(), &mut || verdict(guarded(|| de(f, &cut, obj))));
        }
    }
}

/// Lengths that are not so.
fn claims(cx: &mut Ctx, r: &mut Rng) {
    let k = r.below(FAMS.len());
    let mut g = Gen::all();
    g.avoid = fams::avoid(k);
    if r.one_in(3) {
        g.dyns = (0..FAMS.len()).collect();
    }
    let v = if r.one_in(8) { deep(2 + r.below(30), r.below(9)) } else { gen(r, &g, 0) };
    if model::clashes(k, &v) {
        return cx.count("skipped: keys", 1);
    }
    let obj = V::Dyn(k, r.below(TAGS.len()), Box::new(v.clone()));
    // Size hints in the player.
    let mut st = *r.pick(STYLES);
    let mut r2 = Rng::new(r.next(), 1, 1);
    let doc = model::with_spots(move |n| r2.below(n), || lower(&model::resolve(&obj, st.hr)));
    let mut peaks = vec![];
    for h in [Hint::Exact, Hint::Huge] {
        st.hint = h;
        let _ = v::de(&obj, Play::new(&doc, &Cx::new(st)));
        let (_, _, peak) = measured(&mut || drop(v::de(&obj, Play::new(&doc, &Cx::new(st)))));
        peaks.push(peak);
    }
    if peaks[1] > peaks[0] * 2 + 1024 {
        cx.violation(&format!("reading {} took {} bytes with true size hints and {} with huge ones", doc.show(), peaks[0], peaks[1]));
    }
    cx.eval(&format!("hints{}", doc.show()), true);
    cx.count("size hints", 1);
    cx.sample("hints", || json!({"document": doc.show(), "bytes": peaks}));
    #[cfg(feature = "formats")]
    lengths(cx, r, k, &obj);
}

#[cfg(feature = "formats")]
fn lengths(cx: &mut Ctx, r: &mut Rng, k: usize, obj: &V) {
    for f in [Fmt::Bincode, Fmt::Postcard, Fmt::Cbor] {
        let Ok(Doc::Bytes(b)) = ser(f, obj) else { continue };
        let plain = model::resolve(obj, false);
        if f == Fmt::Cbor && obj.depth() > 5 {
            cx.count("skipped: the known finding", 1);
            continue;
        }
        for _ in 0..4 {
            let mut b = b.clone();
            if b.is_empty() {
                continue;
            }
            let at = r.below(b.len());
            let huge = *r.pick(&[1u64 << 16, 1 << 20, 1 << 24, 1 << 32, 1 << 40, 1 << 62, u64::MAX, i64::MAX as u64]);
            match f {
                Fmt::Bincode => {
                    let le = huge.to_le_bytes();
                    for i in 0..8.min(b.len() - at) {
                        b[at + i] = le[i];
                    }
                }
                Fmt::Postcard => {
                    let mut x = huge;
                    let mut var = vec![];
                    while x >= 0x80 {
                        var.push(x as u8 | 0x80);
                        x >>= 7;
                    }
                    var.push(x as u8);
                    b.splice(at..at + 1, var);
                }
                _ => {
                    // A head of whatever kind is there.
                    let major = if r.one_in(2) { b[at] & 0xe0 } else { *r.pick(&[0x40, 0x60, 0x80, 0xa0]) };
                    let mut head = vec![major | 0x1b];
                    head.extend(huge.to_be_bytes());
                    b.splice(at..at + 1, head);
                }
            }
            let n = b.len() as i64;
            let d = Doc::Bytes(b);
            let _ = guarded(|| drop(de(f, &d, obj)));
            let (mut how, mut text) = ("", 0);
            let (_, _, native) = measured(&mut || drop(guarded(|| de(f, &d, &plain))));
            let (_, _, peak) = measured(&mut || how = verdict(guarded(|| de(f, &d, obj))));
            // A node of a few bytes takes a few hundred in memory.
            if let (Fmt::Cbor, Ok(Err(e))) = (f, guarded(|| de(f, &d, obj))) {
                // The known finding: what its text takes is set apart.
                if e.matches("Semantic(None, ").count() > 2 {
                    text = 16 * e.len() as i64;
                }
            }
            if peak - text > 4 * native + 700 * n + 32 * 1024 {
                cx.violation(&format!(
                    "{:?}, trait {}: reading {} bytes took {} bytes, {} without trait objects: {}", f, FAMS[k].trait_name, n, peak, native, d.show()));
            }
            cx.eval(&format!("lengths{:?}{}", f, d.show()), true);
            cx.count(&format!("lengths claimed in {:?}, {}", f, how), 1);
        }
    }
}

pub const DOUBLING: &str = "the text of an error in CBOR doubles with every level of the data around it";

/// Each level of data behind an erased deserializer passes an error of Ciborium on as text,
/// which Ciborium then quotes: its escapes double every time.
#[cfg(feature = "formats")]
fn doubling(cx: &mut Ctx) {
    for k in [0, 2, 8] {
        let mut len = vec![];
        for depth in [4, 8] {
            let mut v = V::U8(0);
            for _ in 0..depth {
                v = V::Struct("S", vec![("a", v)]);
            }
            let obj = V::Dyn(k, 0, Box::new(v));
            let Ok(Doc::Bytes(mut b)) = ser(Fmt::Cbor, &obj) else { return };
            b.pop();
            len.push(de(Fmt::Cbor, &Doc::Bytes(b), &obj).map_or_else(|e| e.len(), |_| 0));
        }
        if len[1] > 8 * len[0] {
            cx.known(DOUBLING);
        }
    }
}

/// Larger documents take proportionally more.
fn growth(cx: &mut Ctx, k: usize, shape: usize) {
    let make = |n: usize| -> V {
        let leafs = |n: usize| (0..n as u32).map(V::U32).collect::<Vec<_>>();
        match shape {
            0 => V::Seq(true, leafs(n)),
            1 => V::Seq(false, leafs(n)),
            2 => V::Map(true, leafs(n).into_iter().enumerate().map(|(i, x)| (V::Str(format!("key{}", i)), x)).collect()),
            3 => V::Str("x".repeat(n * 8)),
            4 => V::Bytes(vec![200; n * 8]),
            5 => V::Struct("S", vec![("a", V::Seq(true, leafs(n))), ("b", V::Seq(true, leafs(n)))]),
            6 => V::NewtypeVariant("E", 1, "Alpha", Box::new(V::Seq(true, leafs(n)))),
            7 => V::TupleVariant("E", 2, "Beta", vec![V::Seq(true, leafs(n)), V::U8(1)]),
            8 => V::StructVariant("E", 3, "Gamma", vec![("a", V::Seq(true, leafs(n)))]),
            9 => V::Seq(true, (0..n).map(|_| V::Dyn(k, 0, Box::new(V::Struct("S", vec![("a", V::U8(1))])))).collect()),
            10 => V::Map(true, (0..n).map(|i| (V::Str(format!("k{}", i)), V::Dyn(k, 1, Box::new(V::Str("abc".into()))))).collect()),
            11 => V::Some(Box::new(V::Seq(true, (0..n).map(|_| V::Map(true, vec![])).collect()))),
            s => deep(n / 16, s - 12),
        }
    };
    let mut peaks: Vec<[i64; 3]> = vec![];
    for n in [64, 128, 256, 512] {
        let obj = V::Dyn(k, 0, Box::new(make(n)));
        if model::clashes(k, &obj) {
            return;
        }
        let st = STYLES[3];
        let first = lower(&model::resolve(&obj, st.hr));
        let last = model::with_spots(|n| n - 1, || lower(&model::resolve(&obj, st.hr)));
        let mut p = [0; 3];
        for (i, d) in [&first, &last].into_iter().enumerate() {
            drop(v::de(&obj, Play::new(d, &Cx::new(st))));
            p[i] = measured(&mut || drop(v::de(&obj, Play::new(d, &Cx::new(st))))).2;
        }
        p[2] = measured(&mut || drop(record(&obj, st.hr, None))).2;
        peaks.push(p);
    }
    for (i, how) in ["reading", "reading with the tag last", "writing"].into_iter().enumerate() {
        // Between the largest and half of it, since small documents cost the same.
        let (a, b, c) = (peaks[1][i], peaks[2][i], peaks[3][i]);
        if c > b * 5 / 2 + 8192 && b > a * 5 / 2 + 8192 {
            cx.violation(&format!("trait {}, shape {}: {} takes {:?} bytes for sizes doubling", FAMS[k].trait_name, shape, how, peaks.iter().map(|p| p[i]).collect::<Vec<_>>()));
        }
        cx.eval(&format!("growth{}{}{}", k, shape, i), true);
        cx.count("growth", 4);
    }
    cx.sample("growth", || json!({"trait": FAMS[k].trait_name, "shape": shape, "reading, tag last, writing": peaks}));
}

fn main() {
    tt_harness::main(run)
}
