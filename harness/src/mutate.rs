//! Documents that are not quite what was written.
use crate::fams::{self, TAGS};
use crate::rng::Rng;
use crate::v::{gen, gen_string, Gen, FIELDS, V, VARS};

pub fn word(r: &mut Rng) -> String {
    match r.below(7) {
        0 => (*r.pick(TAGS)).to_owned(),
        1 => (*r.pick(FIELDS)).to_owned(),
        2 => (*r.pick(VARS)).to_owned(),
        3 => (*r.pick(&["type", "value", "kind", "t", "c", "content", "tag", "data", "x", "y", "zz", "aa", "é", "tt"])).to_owned(),
        4 => {
            let mut s = (*r.pick(TAGS)).to_owned();
            match r.below(4) {
                0 => s.push(' '),
                1 => s = s.to_uppercase(),
                2 => {
                    s.pop();
                }
                _ => s.insert(0, '_'),
            }
            s
        }
        5 => fams::FAMS[r.below(fams::FAMS.len())].own_tag.to_owned(),
        _ => gen_string(r, false),
    }
}

pub fn leaf(r: &mut Rng) -> V {
    match r.below(14) {
        0 => V::Unit,
        1 => V::None,
        2 => V::Bool(r.one_in(2)),
        3 => V::I64(r.next() as i64),
        4 => V::U64(r.next()),
        5 => V::U8(r.next() as u8),
        6 => V::I32(-(r.below(5) as i32)),
        7 => V::f64(r.below(100) as f64 / 4.0),
        8 => V::Bytes((0..r.below(5)).map(|_| r.next() as u8).collect()),
        9 => V::Seq(true, vec![]),
        10 => V::Map(true, vec![]),
        11 => V::Char('c'),
        12 => V::U64(r.below(20) as u64),
        _ => V::Str(word(r)),
    }
}

fn small(r: &mut Rng) -> V {
    let mut g = Gen::all();
    g.hr_switch = false;
    g.big = false;
    crate::play::lower(&crate::model::resolve(&gen(r, &g, 3), true))
}

/// One change somewhere in a document.
pub fn mutate(r: &mut Rng, d: &mut V) {
    let n = d.size();
    let mut at = r.below(n);
    // Most of what matters is near the top.
    if r.one_in(2) {
        at = r.below(n.min(5));
    }
    let copy = if r.one_in(5) { Some(node(d, &mut r.below(n)).clone()) } else { None };
    let place = node_mut(d, &mut at);
    change(r, place, copy);
}

pub fn mutate_n(r: &mut Rng, d: &mut V, max: usize) {
    for _ in 0..1 + r.below(max) {
        mutate(r, d);
    }
}

fn node<'a>(v: &'a V, i: &mut usize) -> &'a V {
    if *i == 0 {
        return v;
    }
    let mut found = None;
    v.children(&mut |c| {
        if found.is_none() {
            *i -= 1;
            let n = c.size();
            if *i < n {
                found = Some(node(c, i));
                *i = 0;
            } else {
                *i -= n - 1;
            }
        }
    });
    found.unwrap_or(v)
}

fn node_mut<'a>(v: &'a mut V, i: &mut usize) -> &'a mut V {
    if *i == 0 {
        return v;
    }
    // Which child holds the i-th node.
    let mut sizes = vec![];
    v.children(&mut |c| sizes.push(c.size()));
    let mut k = 0;
    *i -= 1;
    while k < sizes.len() && *i >= sizes[k] {
        *i -= sizes[k];
        k += 1;
    }
    let kids: Vec<&'a mut V> = match v {
        V::Some(x) | V::NewtypeStruct(_, x) | V::NewtypeVariant(_, _, _, x) | V::Dyn(_, _, x) => vec![&mut **x],
        V::Seq(_, xs) | V::Tuple(xs) | V::TupleStruct(_, xs) | V::TupleVariant(_, _, _, xs) => xs.iter_mut().collect(),
        V::Map(_, es) => es.iter_mut().flat_map(|(k, v)| [k, v]).collect(),
        V::Struct(_, fs) | V::StructVariant(_, _, _, fs) => fs.iter_mut().map(|f| &mut f.1).collect(),
        V::Hr(a, b) => vec![&mut **a, &mut **b],
        _ => unreachable!("a leaf has no nodes inside"),
    };
    node_mut(kids.into_iter().nth(k).unwrap(), i)
}

fn change(r: &mut Rng, v: &mut V, copy: Option<V>) {
    if let Some(c) = copy {
        *v = c;
        return;
    }
    match v {
        V::Map(_, es) if !r.one_in(5) => match r.below(9) {
            0 if !es.is_empty() => {
                let i = r.below(es.len());
                es.remove(i);
            }
            1 if !es.is_empty() => {
                let e = es[r.below(es.len())].clone();
                es.insert(r.below(es.len() + 1), e);
            }
            2 => r.shuffle(es),
            3 if !es.is_empty() => {
                let i = r.below(es.len());
                es[i].0 = V::Str(word(r));
            }
            4 if !es.is_empty() => {
                let i = r.below(es.len());
                es[i].1 = leaf(r);
            }
            5 if es.len() > 1 => {
                let (i, j) = (r.below(es.len()), r.below(es.len()));
                let x = es[i].1.clone();
                es[j].1 = x;
            }
            6 if !es.is_empty() && r.one_in(3) => {
                let i = r.below(es.len());
                es[i].0 = leaf(r);
            }
            7 => *v = V::Seq(true, es.drain(..).map(|(_, v)| v).collect()),
            _ => {
                let e = (V::Str(word(r)), small(r));
                es.insert(r.below(es.len() + 1), e);
            }
        },
        V::Seq(_, xs) if !r.one_in(4) => match r.below(4) {
            0 if !xs.is_empty() => {
                let i = r.below(xs.len());
                xs.remove(i);
            }
            1 if !xs.is_empty() => {
                let x = xs[r.below(xs.len())].clone();
                xs.push(x);
            }
            2 => r.shuffle(xs),
            _ => {
                let x = small(r);
                xs.insert(r.below(xs.len() + 1), x);
            }
        },
        V::Str(s) if !r.one_in(3) => *s = word(r),
        _ => {
            *v = match r.below(6) {
                0 => V::Some(Box::new(v.clone())),
                1 => V::Seq(true, vec![v.clone()]),
                2 => V::Map(true, vec![(V::Str(word(r)), v.clone())]),
                3 => small(r),
                _ => leaf(r),
            }
        }
    }
}

/// Places to try: all of them, or a spread.
pub fn spots(r: &mut Rng, n: u64, limit: u64) -> Vec<u64> {
    if n <= limit {
        return (0..n).collect();
    }
    let mut out: Vec<u64> = (0..8.min(limit / 2)).chain(n - 8.min(limit / 2)..n).collect();
    while (out.len() as u64) < limit {
        out.push(r.below(n as usize) as u64);
    }
    out
}

/// The program with its i-th node replaced.
pub fn with_node(v: &V, i: &mut usize, new: &V) -> V {
    if *i == 0 {
        *i = usize::MAX;
        return new.clone();
    }
    *i -= 1;
    let mut b = |x: &V| Box::new(with_node(x, i, new));
    match v {
        V::Some(x) => V::Some(b(x)),
        V::NewtypeStruct(n, x) => V::NewtypeStruct(n, b(x)),
        V::NewtypeVariant(n, j, vn, x) => V::NewtypeVariant(n, *j, vn, b(x)),
        V::Dyn(k, w, x) => V::Dyn(*k, *w, b(x)),
        V::Seq(d, xs) => V::Seq(*d, xs.iter().map(|x| *b(x)).collect()),
        V::Tuple(xs) => V::Tuple(xs.iter().map(|x| *b(x)).collect()),
        V::TupleStruct(n, xs) => V::TupleStruct(n, xs.iter().map(|x| *b(x)).collect()),
        V::TupleVariant(n, j, vn, xs) => V::TupleVariant(n, *j, vn, xs.iter().map(|x| *b(x)).collect()),
        V::Map(d, es) => V::Map(*d, es.iter().map(|(x, y)| (*b(x), *b(y))).collect()),
        V::Struct(n, fs) => V::Struct(n, fs.iter().map(|(f, x)| (*f, *b(x))).collect()),
        V::StructVariant(n, j, vn, fs) => V::StructVariant(n, *j, vn, fs.iter().map(|(f, x)| (*f, *b(x))).collect()),
        V::Hr(x, y) => {
            let x = b(x);
            V::Hr(x, b(y))
        }
        x => x.clone(),
    }
}
