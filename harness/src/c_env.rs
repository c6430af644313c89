//! C09: the adjacent envelope.
use crate::ctx::Ctx;
use crate::fams::{self, FAMS};
use crate::formats::{de, ser, Fmt};
use crate::model::{s, Tag};
use crate::play::{Cx, Play, STYLES};
use crate::rng::Rng;
use crate::v::{self, gen, Gen, V};
use serde::de::IntoDeserializer;
use serde_json::json;

#[derive(Clone, Copy, Debug, PartialEq)]
enum E {
    /// The tag field, with probe 0's or probe 1's tag, or one that is not registered.
    Tag(usize),
    BadTag,
    Content(usize),
    Other(usize),
}
const LETTERS: &[E] = &[E::Tag(0), E::Tag(1), E::BadTag, E::Content(0), E::Content(1), E::Other(0), E::Other(1)];

struct Case {
    k: usize,
    tpl: V,
    contents: [V; 2],
    others: Vec<(String, V)>,
}

fn fields(k: usize) -> (&'static str, &'static str, Option<&'static str>, bool) {
    match FAMS[k].tag {
        Tag::Adj(t, c, d, deny) => (t, c, d, deny),
        _ => unreachable!(),
    }
}

/// Field names that are neither tag nor content, but look like them.
fn other_names(k: usize) -> Vec<String> {
    let (t, c, ..) = fields(k);
    let mut out: Vec<String> = vec![];
    for x in [t, c] {
        out.extend([
            format!("{} ", x), format!(" {}", x), x.to_uppercase(), format!("{}{}", x, x), format!("{}\0", x),
            x.chars().skip(1).collect(), x.chars().take(x.chars().count().saturating_sub(1)).collect(), format!("{}_", x),
        ]);
    }
    out.extend(["", "0", "1", "type", "value", "content", "tag", "Probe", "other", "名", "_"].map(str::to_owned));
    out.retain(|x| x != t && x != c);
    out.dedup();
    out
}

impl Case {
    fn doc(&self, es: &[E]) -> V {
        let (t, c, ..) = fields(self.k);
        V::Map(
            true,
            es.iter()
                .map(|e| match e {
                    E::Tag(w) => (s(t), s(fams::tag_of(self.k, *w))),
                    E::BadTag => (s(t), s("no such tag")),
                    E::Content(i) => (s(c), self.contents[*i].clone()),
                    E::Other(i) => {
                        let (n, v) = &self.others[*i % self.others.len()];
                        (s(n), v.clone())
                    }
                })
                .collect(),
        )
    }

    /// The documented outcome; Err(Some(text)) when the error has to contain the text.
    fn want(&self, es: &[E]) -> Want {
        let (_, _, default, deny) = fields(self.k);
        let tags: Vec<E> = es.iter().copied().filter(|e| matches!(e, E::Tag(_) | E::BadTag)).collect();
        let contents: Vec<usize> = es.iter().filter_map(|e| if let E::Content(i) = e { Some(*i) } else { None }).collect();
        let others: Vec<usize> = es.iter().filter_map(|e| if let E::Other(i) = e { Some(*i) } else { None }).collect();
        let mut wrong: Vec<String> = vec![];
        if deny && !others.is_empty() {
            wrong.push(self.others[others[0] % self.others.len()].0.clone());
        }
        if tags.len() > 1 || contents.len() > 1 {
            wrong.push(String::new());
        }
        let which = match tags.first() {
            Some(E::Tag(w)) => *w,
            Some(_) => {
                wrong.push("no such tag".into());
                0
            }
            None => match default {
                Some(d) => (0..fams::TAGS.len()).find(|w| fams::tag_of(self.k, *w) == d).unwrap(),
                None => {
                    wrong.push(fields(self.k).0.to_owned());
                    0
                }
            },
        };
        match wrong.len() {
            0 => {}
            1 => return Want::Err(wrong.pop().unwrap()),
            _ => return Want::Err(String::new()),
        }
        if tags.is_empty() && contents.is_empty() {
            return Want::Unsaid(which);
        }
        Want::Read(which, contents.first().copied())
    }
}

enum Want {
    Err(String),
    /// A probe reading a content, or nothing.
    Read(usize, Option<usize>),
    /// With neither tag nor content, the default has nothing to read: an error, or
    /// the default reading a unit.
    Unsaid(usize),
}

fn from_unit(t: &V) -> Result<V, String> {
    let d: serde::de::value::UnitDeserializer<serde::de::value::Error> = ().into_deserializer();
    v::de(t, d).map_err(|e| e.to_string())
}

fn judge(cx: &mut Ctx, c: &Case, es: &[E], got: Result<V, String>, native: &dyn Fn(&V) -> Result<V, String>, how: &str) {
    let doc = c.doc(es);
    let obj = |w: usize, r: Result<V, String>| r.map(|v| V::Dyn(c.k, w, Box::new(v)));
    let bad = |cx: &mut Ctx, want: &str| {
        cx.violation(&format!(
            "trait {}, reading {:?} {}: {} gave {:?} instead of {}",
            FAMS[c.k].trait_name, c.tpl.kind(), how, doc.show(), got.as_ref().map(|v| v.show()), want
        ))
    };
    match c.want(es) {
        Want::Err(text) => match &got {
            Ok(_) => bad(cx, "an error"),
            Err(e) if !e.contains(&text) => bad(cx, &format!("an error naming {:?}", text)),
            Err(_) => cx.count("rejected", 1),
        },
        Want::Read(w, content) => {
            let want = obj(w, match content {
                Some(i) => native(&c.contents[i]),
                None => from_unit(&c.tpl),
            });
            let same = match (&want, &got) {
                (Ok(a), Ok(b)) => a == b,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if !same {
                bad(cx, &format!("{:?}", want.map(|v| v.show())));
            }
            cx.count(if content.is_none() { "without content" } else { "read" }, 1);
        }
        Want::Unsaid(w) => {
            if got.is_ok() && got.as_ref().ok() != obj(w, from_unit(&c.tpl)).as_ref().ok() {
                bad(cx, "an error or the default read from nothing");
            }
        }
    }
}

fn play(c: &Case, doc: &V, st: usize) -> Result<V, String> {
    v::de(&V::Dyn(c.k, 0, Box::new(c.tpl.clone())), Play::new(doc, &Cx::new(STYLES[st]))).map_err(|e| e.0)
}

/// All sequences of up to four entries, numbered.
fn sequences() -> Vec<Vec<E>> {
    let mut all: Vec<Vec<E>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..4 {
        last = last.iter().flat_map(|p| LETTERS.iter().map(move |l| [&p[..], &[*l]].concat())).collect();
        all.extend(last.clone());
    }
    all
}

fn nested(i: usize) -> V {
    match i % 6 {
        0 => V::U8(1),
        1 => V::Map(true, vec![(s("t"), s("Probe")), (s("c"), V::Seq(true, vec![V::Unit]))]),
        2 => V::Unit,
        3 => V::Seq(true, vec![s("Probe"), V::Map(true, vec![])]),
        4 => V::f64(0.5),
        _ => s("Probe2"),
    }
}

pub fn run(args: &[String]) {
    let mut cx = Ctx::new("C09", args);
    let seqs = sequences();
    // Every small envelope, in every trait.
    for &k in &fams::adj() {
        let names = other_names(k);
        for (n, es) in seqs.iter().enumerate() {
            cx.case(&format!("envelope{}", k), n as u64, |cx| {
                let c = Case {
                    k,
                    tpl: V::U8(9),
                    contents: [V::U8(5), V::U8(6)],
                    others: vec![
                        (names[n % names.len()].clone(), nested(n)),
                        (names[(n * 7 + 3) % names.len()].clone(), nested(n / 5)),
                    ],
                };
                let d = c.doc(es);
                for st in 0..STYLES.len() {
                    if st > 1 && !cx.thorough && (n + st) % 5 != 0 {
                        continue;
                    }
                    let native = |x: &V| v::de(&c.tpl, Play::new(x, &Cx::new(STYLES[st]))).map_err(|e| e.0);
                    judge(cx, &c, es, play(&c, &d, st), &native, &format!("style {}", st));
                    cx.eval(&format!("{}{:?}{}", k, es, st), es.len() > 1);
                }
                if (n + k) % 4 == 0 {
                    let text = ser(Fmt::JsonStr, &d).unwrap();
                    let native = |x: &V| de(Fmt::JsonStr, &ser(Fmt::JsonStr, x)?, &c.tpl);
                    judge(cx, &c, es, de(Fmt::JsonStr, &text, &V::Dyn(k, 0, Box::new(c.tpl.clone()))), &native, "from JSON");
                    cx.eval(&format!("{}{:?}json", k, es), es.len() > 1);
                }
                if es.len() == 3 {
                    cx.sample(&format!("{}", k), || json!({"trait": FAMS[k].trait_name, "document": d.show(), "result": format!("{:?}", play(&c, &d, 0).map(|v| v.show()))}));
                }
            });
        }
    }
    // Other kinds of content, and of none; longer envelopes.
    let g = { let mut g = Gen::all(); g.odd_keys = false; g.ints128 = false; g.big = false; g };
    for n in 0..cx.n(8_000) {
        cx.case("random", n, |cx| {
            let mut r = Rng::new(cx.seed, 90, n);
            let k = *r.pick(&fams::adj());
            let st = r.below(STYLES.len());
            let names = other_names(k);
            let tpl = match r.below(5) {
                0 => V::Unit,
                1 => V::None,
                2 => V::UnitStruct("U"),
                3 => V::Some(Box::new(V::U8(1))),
                _ => gen(&mut r, &g, 0),
            };
            let doc = |x: &V| crate::play::lower(&crate::model::resolve(x, STYLES[st].hr));
            let wrong = gen(&mut r, &g, 1);
            let right = doc(&tpl);
            // Content that is set aside and content read directly have to be the same
            // to the type, which C06 judges; null options differ by style.
            let same = |x: &V| !x.any(&|v| matches!(v, V::Some(_)));
            if !same(&tpl) || !same(&wrong) {
                return cx.count("skipped: options", 1);
            }
            let c = Case { k, contents: [right, doc(&wrong)], tpl, others: (0..3).map(|_| (r.pick(&names).clone(), doc(&gen(&mut r, &g, 1)))).collect() };
            let mut es: Vec<E> = vec![];
            if !r.one_in(4) { es.push(E::Tag(r.below(2))) }
            if !r.one_in(3) { es.push(E::Content(0)) }
            for _ in 0..r.below(5) { es.push(E::Other(r.below(3))) }
            if r.one_in(8) { es.push(*r.pick(LETTERS)) }
            if r.one_in(30) { for i in 0..100 { es.push(E::Other(i)) } }
            r.shuffle(&mut es);
            let d = c.doc(&es);
            let native = |x: &V| v::de(&c.tpl, Play::new(x, &Cx::new(STYLES[st]))).map_err(|e| e.0);
            let second = es.contains(&E::Content(1));
            if !second {
                judge(cx, &c, &es, play(&c, &d, st), &native, &format!("style {}", st));
            }
            cx.eval(&format!("{}{}{:?}{}", k, d.show(), es, st), true);
        });
    }
    // The sequence form.
    for (n, &k) in fams::adj().iter().enumerate() {
        cx.case("sequence", n as u64, |cx| {
            let c = Case { k, tpl: V::U8(9), contents: [V::U8(5), V::U8(6)], others: vec![] };
            let (good, bad) = (s(fams::tag_of(k, 1)), s("no such tag"));
            let docs = [
                (vec![], false), (vec![good.clone()], false), (vec![good.clone(), V::U8(5)], true),
                (vec![V::U8(5), good.clone()], false), (vec![V::U8(5)], false), (vec![good.clone(), good.clone()], false),
                (vec![bad.clone(), V::U8(5)], false), (vec![V::Unit, V::U8(5)], false), (vec![good.clone(), V::Unit], false),
                (vec![bad], false), (vec![good.clone(), V::Seq(true, vec![V::U8(5)])], false),
            ];
            for (vs, ok) in docs {
                for st in 0..STYLES.len() {
                    let d = V::Seq(true, vs.clone());
                    let got = play(&c, &d, st);
                    if got.is_ok() != ok || ok && got != Ok(V::Dyn(k, 1, Box::new(V::U8(5)))) {
                        cx.violation(&format!("trait {}: {} gave {:?}", FAMS[k].trait_name, d.show(), got));
                    }
                    cx.eval(&format!("seq{}{:?}{}", k, vs, st), true);
                }
            }
            // Positional formats: both have to be there, and a missing content is not a unit.
            for tpl in [V::U8(5), V::Unit, V::None] {
                for f in [Fmt::Bincode, Fmt::Postcard] {
                    let t = V::Dyn(k, 0, Box::new(tpl.clone()));
                    let both = ser(f, &V::Tuple(vec![good.clone(), tpl.clone()])).unwrap();
                    let got = de(f, &both, &t);
                    if got != Ok(V::Dyn(k, 1, Box::new(tpl.clone()))) {
                        cx.violation(&format!("trait {}: {:?} {} gave {:?}", FAMS[k].trait_name, f, both.show(), got));
                    }
                    if tpl != V::Unit {
                        let got = de(f, &ser(f, &V::Tuple(vec![good.clone()])).unwrap(), &t);
                        if got.is_ok() {
                            cx.violation(&format!("trait {}: {:?} with only the tag gave {:?}", FAMS[k].trait_name, f, got));
                        }
                    }
                    cx.eval(&format!("seq{}{:?}{:?}", k, tpl, f), true);
                }
                // A sequence with only the tag, for a type a missing content could stand for.
                for st in 0..STYLES.len() {
                    let d = V::Seq(true, vec![good.clone()]);
                    let got = v::de(&V::Dyn(k, 0, Box::new(tpl.clone())), Play::new(&d, &Cx::new(STYLES[st])));
                    if got.is_ok() {
                        cx.violation(&format!("trait {}: {} gave {:?}", FAMS[k].trait_name, d.show(), got));
                    }
                }
            }
        });
    }
    cx.finish();
}
