#![recursion_limit = "1024"]
#![allow(clippy::all)]
//! C07: traits with many types under similar tags, and with very few.
use tt_harness::ctx::Ctx;
use tt_harness::fams::{self, FAMS, TAGS};
use tt_harness::formats::{de, ser, Fmt};
use tt_harness::model::{self, s, Tag};
use tt_harness::play::{Cx, Play, STYLES};
use tt_harness::rec::record;
use tt_harness::rng::Rng;
use tt_harness::v::{self, gen_string, V};
use serde::de::{Deserialize, Deserializer};
use serde::{Deserialize as D, Serialize as S};
use serde_json::json;

include!("../big_names.rs");

#[derive(S, D)]
pub struct Big<const I: usize>(u32);

macro_rules! impls {
    ($(($tr:ident))* $($i:literal $n:literal)*) => { impls!(@ [$($tr)*] $(($i $n))*); };
    (@ [$($tr:ident)*] $x:tt $($r:tt)*) => {
        $( one!($tr $x); )*
        impls!(@ [$($tr)*] $($r)*);
    };
    (@ [$($tr:ident)*]) => {};
}
macro_rules! one {
    ($tr:ident ($i:literal $n:literal)) => {
        #[typetag::serde(name = $n)]
        impl $tr for Big<$i> {
            fn index(&self) -> usize { $i }
            fn held(&self) -> u32 { self.0 }
        }
    };
}
macro_rules! names { ($($i:literal $n:literal)*) => { pub const NAMES: &[&str] = &[$($n),*]; } }
big_names!(names);

macro_rules! traits {
    ($($tr:ident [$($a:tt)*];)*) => { $(
        #[typetag::serde $($a)*]
        pub trait $tr { fn index(&self) -> usize; fn held(&self) -> u32; }
    )* }
}
traits! {
    BigExt [];
    BigInt [(tag = "type")];
    BigAdj [(tag = "t", content = "c")];
}
big_names!(impls (BigExt) (BigInt) (BigAdj));

macro_rules! make {
    ($($i:literal $n:literal)*) => {
        fn make_ext(i: usize, x: u32) -> Box<dyn BigExt> { match i { $($i => Box::new(Big::<$i>(x)),)* _ => unreachable!() } }
        fn make_int(i: usize, x: u32) -> Box<dyn BigInt> { match i { $($i => Box::new(Big::<$i>(x)),)* _ => unreachable!() } }
        fn make_adj(i: usize, x: u32) -> Box<dyn BigAdj> { match i { $($i => Box::new(Big::<$i>(x)),)* _ => unreachable!() } }
    };
}
big_names!(make);

// Traits with no type, one type, a few types, and types of two traits.
macro_rules! small {
    ($($tr:ident $n:literal [$($a:tt)*] [$($t:ident $name:literal)*];)*) => {
        $(
            #[typetag::serde $($a)*]
            pub trait $tr { fn name(&self) -> &'static str; }
            $(
                #[typetag::serde(name = $name)]
                impl $tr for $t { fn name(&self) -> &'static str { $name } }
            )*
        )*
        pub const SMALL: &[(usize, &str, &[&str])] = &[$(($n, stringify!($tr), &[$($name),*])),*];
        fn de_small<'de, De: Deserializer<'de>>(n: usize, d: De) -> Result<&'static str, De::Error> {
            match n {
                $($n => { let b: Box<dyn $tr> = Deserialize::deserialize(d)?; Ok(b.name()) })*
                _ => unreachable!(),
            }
        }
    };
}
#[derive(S, D)]
pub struct P;
#[derive(S, D)]
pub struct Q;
#[derive(S, D)]
pub struct R;
small! {
    None0 0 [] [];
    None1 1 [(tag = "t")] [];
    None2 2 [(tag = "t", content = "c")] [];
    One0 3 [] [P "P"];
    One1 4 [(tag = "t")] [Q "P"];
    One2 5 [(tag = "t", content = "c")] [R "R"];
    Two0 6 [] [P "Q" Q "P"];
    Two1 7 [(tag = "t")] [P "P" Q "Q"];
    Two2 8 [(tag = "t", content = "c")] [R "P" P "R"];
    Three1 9 [(tag = "t")] [P "" Q " " R "\u{0}"];
    NoDefault1 10 [(tag = "t", default_variant = "nope")] [P "P"];
    NoDefault2 11 [(tag = "t", content = "c", default_variant = "nope")] [P "P"];
}

fn de_big<'de, De: Deserializer<'de>>(style: usize, d: De) -> Result<(usize, u32), De::Error> {
    Ok(match style {
        0 => { let b: Box<dyn BigExt> = Deserialize::deserialize(d)?; (b.index(), b.held()) }
        1 => { let b: Box<dyn BigInt> = Deserialize::deserialize(d)?; (b.index(), b.held()) }
        _ => { let b: Box<dyn BigAdj> = Deserialize::deserialize(d)?; (b.index(), b.held()) }
    })
}

/// A document for a tag; `last` puts the tag after the content.
fn doc(style: usize, tag: &str, content: V, last: bool) -> V {
    let mut es = match style {
        0 => return V::Map(true, vec![(s(tag), content)]),
        1 => vec![(s("type"), s(tag)), (s("value"), content)],
        _ => vec![(s("t"), s(tag)), (s("c"), content)],
    };
    if last {
        es.reverse();
    }
    V::Map(true, es)
}

fn read_big(cx: &mut Ctx, style: usize, doc: &V, how: usize) -> Result<(usize, u32), String> {
    let e = |x: &dyn std::fmt::Display| x.to_string();
    let V::Map(_, es) = doc else { unreachable!() };
    match how {
        0..=6 => de_big(style, Play::new(doc, &Cx::new(STYLES[how]))).map_err(|x| e(&x)),
        7 => {
            let t = serde_json::to_string(doc).unwrap();
            let r = de_big(style, &mut serde_json::Deserializer::from_str(&t)).map_err(|x| e(&x));
            r
        }
        8 => {
            let t = serde_json::to_vec(doc).unwrap();
            let r = de_big(style, &mut serde_json::Deserializer::from_reader(&t[..])).map_err(|x| e(&x));
            r
        }
        9 => de_big(style, serde_json::to_value(doc).unwrap()).map_err(|x| e(&x)),
        _ => {
            // Positional: tag first, adjacent as a sequence.
            let t = if style == 2 {
                if es[0].0 != s("t") {
                    return read_big(cx, style, doc, 0);
                }
                postcard::to_stdvec(&V::Tuple(vec![es[0].1.clone(), es[1].1.clone()])).unwrap()
            } else {
                postcard::to_stdvec(doc).unwrap()
            };
            if style == 1 && es[0].0 != s("type") {
                return read_big(cx, style, doc, 0);
            }
            let mut d = postcard::Deserializer::from_bytes(&t);
            de_big(style, &mut d).map_err(|x| e(&x))
        }
    }
}

fn near(r: &mut Rng, name: &str) -> String {
    let mut c: Vec<char> = name.chars().collect();
    match r.below(14) {
        0 => { c.pop(); }
        1 => { if !c.is_empty() { c.remove(0); } }
        2 => c.push(*r.pick(&['a', ' ', '\0', '\u{301}', 'x', '\u{200b}', '\n', 'b'])),
        3 => c.insert(0, *r.pick(&['a', ' ', '\0', '\u{feff}', 'x', ':'])),
        4 => return name.to_uppercase(),
        5 => return name.to_lowercase(),
        6 => return name.trim().to_owned(),
        7 => return format!("{}{}", name, name),
        8 => { let n = c.len(); if n > 1 { let i = r.below(n - 1); c.swap(i, i + 1); } }
        9 => { let n = c.len(); if n > 0 { let i = r.below(n); c[i] = char::from_u32(c[i] as u32 ^ 1).unwrap_or('?'); } }
        10 => { let n = c.len(); c.truncate(r.below(n + 1)); }
        11 => return format!("::{}", name),
        12 => return format!("\"{}\"", name),
        _ => c.reverse(),
    }
    c.into_iter().collect()
}

/// What some convention or other takes for the same name.
fn spellings(name: &str) -> std::collections::BTreeSet<String> {
    let mut out = std::collections::BTreeSet::new();
    let mut add = |s: String| {
        out.insert(s);
    };
    let mut words: Vec<String> = vec![String::new()];
    let mut before = ' ';
    for c in name.chars() {
        if !c.is_alphanumeric() {
            words.push(String::new());
        } else {
            if c.is_uppercase() && !before.is_uppercase() {
                words.push(String::new());
            }
            words.last_mut().unwrap().push(c);
        }
        before = c;
    }
    words.retain(|w| !w.is_empty());
    let cap = |w: &String| {
        let mut c = w.chars();
        c.next().map_or(String::new(), |f| f.to_uppercase().chain(c.flat_map(|c| c.to_lowercase())).collect())
    };
    let low: Vec<String> = words.iter().map(|w| w.to_lowercase()).collect();
    for sep in ["_", "-", " ", ".", "::", "/", ":", ""] {
        add(low.join(sep));
        add(words.join(sep));
        add(low.join(sep).to_uppercase());
        add(words.iter().map(cap).collect::<Vec<_>>().join(sep));
    }
    if let Some((f, rest)) = low.split_first() {
        add(f.clone() + &rest.iter().map(cap).collect::<String>());
    }
    for a in ["-", "_", " ", ".", "::", "/", ":", "|", "+"] {
        for b in ["-", "_", " ", ".", "::", "/", ":", "|", ""] {
            add(name.replace(a, b));
        }
        if let Some((x, y)) = name.split_once(a) {
            add(x.into());
            add(y.into());
        }
        if let Some((x, y)) = name.rsplit_once(a) {
            add(x.into());
            add(y.into());
        }
        add(format!("{}{}", name, a));
        add(format!("{}{}", a, name));
        add(format!("ns{}{}", a, name));
        add(format!("{}{}x", name, a));
    }
    for (open, close) in [("<", ">"), ("(", ")"), ("[", "]"), ("{", "}"), ("\"", "\""), ("'", "'"), ("`", "`"), ("Box<", ">"), ("r#", ""), ("#", ""),
        ("dyn ", ""), ("&", ""), ("crate::", ""), ("struct ", ""), (" ", ""), ("", " "), ("", "\0"), ("\u{feff}", ""), ("", "s"), ("", "<>"), ("", "()"), ("T", ""), ("v", ""), ("0", ""), ("+", "")]
    {
        add(format!("{}{}{}", open, name, close));
        if let Some(x) = name.strip_prefix(open).and_then(|x| x.strip_suffix(close)) {
            add(x.into());
        }
        if let (false, Some((x, y))) = (open.is_empty(), name.split_once(open)) {
            add(x.into());
            add(y.into());
        }
    }
    add(name.split_whitespace().collect::<Vec<_>>().join(" "));
    add(name.split_whitespace().collect());
    add(name.chars().filter(|c| c.is_alphanumeric()).collect());
    add(name.chars().filter(|c| c.is_ascii()).collect());
    add(name.chars().filter(|c| !c.is_control()).collect());
    add(name.chars().filter(|c| !c.is_ascii_digit()).collect());
    add(name.chars().rev().collect());
    add(name.chars().map(|c| (c as u8) as char).collect());
    add(name.chars().map(|c| if c.is_ascii() { char::from_u32(c as u32 + 0xfee0).unwrap_or(c) } else { c }).collect());
    add(name.chars().map(|c| if c.is_ascii() { c } else { '?' }).collect());
    add(name.chars().map(|c| if c.is_uppercase() { c.to_lowercase().next().unwrap() } else { c.to_uppercase().next().unwrap() }).collect());
    add(name.to_lowercase());
    add(name.to_uppercase());
    add(name.to_ascii_lowercase());
    add(name.to_ascii_uppercase());
    for (a, b) in [
        ("%41", "A"), ("&lt;", "<"), ("&gt;", ">"), ("\\n", "\n"), ("\\u0041", "A"), ("\u{e9}", "e"), ("\u{e9}", "e\u{301}"), ("e\u{301}", "\u{e9}"), ("\u{df}", "ss"),
        ("ss", "\u{df}"), ("\u{ff21}", "A"), ("\u{212a}", "K"), ("\u{b2}", "2"), ("\u{ad}", ""), ("\u{2013}", "-"), ("\u{2019}", "'"), ("\u{130}", "I"),
        ("\u{130}", "i"), ("\u{212b}", "\u{c5}"), ("A\u{30a}", "\u{c5}"), ("\u{fb00}", "ff"), ("\u{410}", "A"), ("A", "\u{410}"), ("\u{3c2}", "\u{3c3}"), ("\u{200b}", ""),
        ("\u{feff}", ""), ("\0", ""), ("1", "l"), ("l", "1"), ("0", "O"), ("O", "0"), ("rn", "m"), ("aa", "a"), ("bb", "b"), ("xx", "x"),
    ] {
        add(name.replace(a, b));
        add(name.replacen(b, a, 1));
    }
    for n in [name.parse::<i64>().ok(), name.parse::<f64>().ok().filter(|x| x.abs() < 1e9).map(|x| x as i64), i64::from_str_radix(name.trim_start_matches("0x"), 16).ok()].into_iter().flatten() {
        for s in [format!("{}", n), format!("{:03}", n), format!("{}.0", n), format!("{:#x}", n), format!("{:#b}", n), format!("{:+}", n), format!(" {}", n)] {
            add(s);
        }
    }
    // Where fixed sizes and hashes of parts end.
    for n in [1, 2, 4, 8, 15, 16, 22, 23, 24, 31, 32, 63, 64, 127, 128, 255] {
        if name.len() > n && name.is_char_boundary(n) {
            add(name[..n].into());
            if name.is_char_boundary(name.len() - n) {
                add(name[name.len() - n..].into());
            }
            add(format!("{}?", &name[..n]));
        }
        if name.len() <= n {
            add(format!("{}{}", name, "x".repeat(n - name.len() + 1)));
            add(format!("{}{}", name, "\0".repeat(n - name.len())));
            add(format!("{:n$}", name));
        }
    }
    out
}

fn tried(cx: &mut Ctx, r: &mut Rng, base: &str, tag: &str) {
    let styles = ["external", "internal", "adjacent"];
    let (style, how) = (r.below(3), r.below(11));
    let d = doc(style, tag, V::U32(1), r.one_in(2));
    let got = read_big(cx, style, &d, how);
    match NAMES.iter().position(|n| *n == tag) {
        Some(i) => {
            if got != Ok((i, 1)) {
                cx.violation(&format!("{} tagging: {} gave {:?} instead of type {}", styles[style], d.show(), got, i));
            }
            cx.count("happened to be registered", 1);
        }
        None => match got {
            Ok(g) => cx.violation(&format!("{} tagging: tag {:?} is not registered, but {} gave {:?}", styles[style], tag, d.show(), g)),
            Err(e) => {
                // Postcard has no messages.
                if how == 10 {
                } else if let Err(m) = unknown_ok(&e, tag, NAMES) {
                    cx.violation(&format!("{} tagging: {}", styles[style], m));
                }
                cx.count("unregistered tags rejected", 1);
            }
        },
    }
    cx.eval(&format!("{}{}{}", style, tag, how), true);
    cx.sample("near miss", || json!({"registered": base, "tried": tag}));
}

/// Names the tag and lists what is registered.
fn unknown_ok(e: &str, tag: &str, names: &[&str]) -> Result<(), String> {
    if !e.contains(tag) {
        return Err(format!("the error does not name the tag {:?}: {}", tag, e));
    }
    for n in names {
        if !e.contains(n) {
            return Err(format!("the error does not list {:?}: {}", n, e));
        }
    }
    Ok(())
}

pub fn run(args: &[String]) {
    let mut cx = Ctx::new("C07", args);
    let styles = ["external", "internal", "adjacent"];
    // Every registered tag, every way of reading it.
    for (i, name) in NAMES.iter().enumerate() {
        cx.case("registered", i as u64, |cx| {
            for style in 0..3 {
                for how in 0..11 {
                    for last in [false, true] {
                        if last && style == 0 {
                            continue;
                        }
                        let d = doc(style, name, V::U32(i as u32 + 7), last);
                        let got = read_big(cx, style, &d, how);
                        if got != Ok((i, i as u32 + 7)) {
                            cx.violation(&format!(
                                "{} tagging, tag {:?} of type {}: {} read by {} gave {:?}",
                                styles[style], name, i, d.show(), how, got
                            ));
                        }
                        cx.eval(&format!("{}{}{}{}", style, i, how, last), true);
                    }
                }
                let (rec, _) = match style {
                    0 => record(&*make_ext(i, 5), true, None),
                    1 => record(&*make_int(i, 5), true, None),
                    _ => record(&*make_adj(i, 5), true, None),
                };
                let tag = match &rec {
                    Ok(V::Map(_, es)) if style == 0 => es.first().map(|e| e.0.clone()),
                    Ok(V::Map(_, es)) => es.first().map(|e| e.1.clone()),
                    Ok(V::Struct(_, fs)) => fs.first().map(|f| f.1.clone()),
                    _ => None,
                };
                if tag != Some(s(name)) {
                    cx.violation(&format!("{} tagging: type {} registered as {:?} was written as {:?}", styles[style], i, name, rec));
                }
            }
            cx.sample("registered", || json!({"tag": name, "types in the registry": NAMES.len()}));
        });
    }
    // Unregistered ones.
    for n in 0..cx.n(6_000) {
        cx.case("unregistered", n, |cx| {
            let mut r = Rng::new(cx.seed, 70, n);
            let base = *r.pick(NAMES);
            let mut tag = if r.one_in(5) { gen_string(&mut r, false) } else { near(&mut r, base) };
            if r.one_in(10) {
                tag = near(&mut r, &tag);
            }
            tried(cx, &mut r, base, &tag);
        });
    }
    for (n, base) in NAMES.iter().enumerate() {
        cx.case("spelled otherwise", n as u64, |cx| {
            let mut r = Rng::new(cx.seed, 71, n as u64);
            for tag in spellings(base) {
                tried(cx, &mut r, base, &tag);
            }
        });
    }
    // Small registries: exactly what is registered, and nothing of other traits.
    for (n, &(k, tr, names)) in SMALL.iter().enumerate() {
        cx.case("small", n as u64, |cx| {
            let style = k % 3;
            let tags: Vec<&str> = ["P", "Q", "R", "p", "", " ", "\0", "PQ", "nope", "value", "t"].into_iter().chain(NAMES.iter().copied().take(30)).collect();
            let style = match k { 9 | 10 => 1, 11 => 2, _ => style };
            for tag in tags {
                let d = match style {
                    0 => V::Map(true, vec![(s(tag), V::Unit)]),
                    1 => V::Map(true, vec![(s("t"), s(tag))]),
                    _ => V::Map(true, vec![(s("t"), s(tag)), (s("c"), V::Unit)]),
                };
                for st in STYLES {
                    let got = de_small(k, Play::new(&d, &Cx::new(*st)));
                    let ok = match &got {
                        Ok(g) => names.contains(&tag) && *g == tag,
                        Err(e) => !names.contains(&tag) && unknown_ok(&e.0, tag, names).is_ok(),
                    };
                    if !ok {
                        cx.violation(&format!("trait {} with types {:?}: tag {:?} gave {:?}", tr, names, tag, got));
                    }
                    cx.eval(&format!("{}{}{:?}", k, tag, st), true);
                }
            }
            // The default variant has to be registered to be used.
            if k >= 10 {
                let d = if k == 10 { V::Map(true, vec![]) } else { V::Map(true, vec![(s("c"), V::Unit)]) };
                match de_small(k, Play::new(&d, &Cx::new(STYLES[0]))) {
                    Err(e) if unknown_ok(&e.0, "nope", names).is_ok() => {}
                    r => cx.violation(&format!("trait {} whose default is not registered: {:?}", tr, r)),
                }
            }
        });
    }
    // Every family, every tag of every family.
    let mut all: Vec<&str> = TAGS.to_vec();
    all.pop();
    all.extend(FAMS.iter().map(|f| f.own_tag));
    all.extend(FAMS.iter().map(|f| f.trait_name));
    let mut n = 0;
    for f in FAMS {
        for tag in &all {
            let t = *tag;
            cx.case("families", n, |cx| {
                let k = f.k;
                let d = family_doc(k, t);
                let know = fams::tags_of(k);
                let tpl = V::Dyn(k, 0, Box::new(V::U8(3)));
                for st in STYLES {
                    check_family(cx, k, t, &know, &v::de(&tpl, Play::new(&d, &Cx::new(*st))).map_err(|e| e.0));
                }
                let V::Map(_, es) = &d else { unreachable!() };
                let positional = match f.tag {
                    Tag::Adj(..) => V::Tuple(es.iter().map(|e| e.1.clone()).collect()),
                    _ => d.clone(),
                };
                for fmt in [Fmt::Bincode] {
                    check_family(cx, k, t, &know, &de(fmt, &ser(fmt, &positional).unwrap(), &tpl));
                }
                cx.eval(&format!("{}{}", k, t), true);
                cx.count("tags of other traits tried", (!know.contains(&t)) as u64);
            });
            n += 1;
        }
    }
    // Tags that are not strings.
    n = 0;
    for f in FAMS.iter() {
        for bad in [V::U8(0), V::I64(-1), V::Bool(true), V::Unit, V::None, V::Seq(true, vec![s("Probe")]), V::Map(true, vec![(s("Probe"), V::Unit)]), V::f64(0.0)] {
            cx.case("not a string", n, |cx| {
                let d = match f.tag {
                    Tag::Ext => V::Map(true, vec![(bad.clone(), V::U8(3))]),
                    Tag::Int(t, _) => V::Map(true, vec![(s(t), bad.clone()), (s("valu"), V::U8(3))]),
                    Tag::Adj(t, c, ..) => V::Map(true, vec![(s(t), bad.clone()), (s(c), V::U8(3))]),
                };
                for st in STYLES {
                    if let Ok(g) = v::de(&V::Dyn(f.k, 0, Box::new(V::Any)), Play::new(&d, &Cx::new(*st))) {
                        cx.violation(&format!("{}: {} gave {}", f.trait_name, d.show(), g.show()));
                    }
                    cx.eval(&format!("{}{:?}{:?}", f.k, bad, st), true);
                }
            });
            n += 1;
        }
    }
    cx.finish();
}

fn family_doc(k: usize, tag: &str) -> V {
    match FAMS[k].tag {
        Tag::Ext => V::Map(true, vec![(s(tag), V::U8(3))]),
        Tag::Int(t, _) => V::Map(true, vec![(s(t), s(tag)), (s("value"), V::U8(3))]),
        Tag::Adj(t, c, ..) => V::Map(true, vec![(s(t), s(tag)), (s(c), V::U8(3))]),
    }
}

fn check_family(cx: &mut Ctx, k: usize, tag: &str, know: &[&str], got: &Result<V, String>) {
    let ok = match got {
        Ok(V::Dyn(_, w, _)) => know.contains(&tag) && fams::tag_of(k, *w) == tag,
        Ok(_) => false,
        Err(e) => !know.contains(&tag) && unknown_ok(e, tag, know).is_ok(),
    };
    if !ok && !(model::clashes(k, &V::U8(3))) {
        cx.violation(&format!("trait {}: tag {:?} gave {:?}", FAMS[k].trait_name, tag, got));
    }
}

fn main() {
    tt_harness::main(|_, rest| run(rest));
}
