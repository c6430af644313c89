//! What the documents must be, written from the documentation.
use crate::fams::{tag_of, FAMS};
use crate::v::{N, V};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tag {
    Ext,
    /// tag, default
    Int(N, Option<N>),
    /// tag, content, default, deny
    Adj(N, N, Option<N>, bool),
}

pub fn s(x: &str) -> V {
    V::Str(x.to_owned())
}

/// What the program writes when serialized on its own.
pub fn resolve(v: &V, hr: bool) -> V {
    let r = |v: &V| resolve(v, hr);
    let rs = |vs: &[V]| vs.iter().map(r).collect::<Vec<_>>();
    let rf = |fs: &[(N, V)]| fs.iter().map(|(k, v)| (*k, r(v))).collect::<Vec<_>>();
    match v {
        V::Some(x) => V::Some(Box::new(r(x))),
        V::NewtypeStruct(n, x) => V::NewtypeStruct(n, Box::new(r(x))),
        V::NewtypeVariant(n, i, vn, x) => V::NewtypeVariant(n, *i, vn, Box::new(r(x))),
        V::Seq(d, vs) => V::Seq(*d, rs(vs)),
        V::Tuple(vs) => V::Tuple(rs(vs)),
        V::TupleStruct(n, vs) => V::TupleStruct(n, rs(vs)),
        V::TupleVariant(n, i, vn, vs) => V::TupleVariant(n, *i, vn, rs(vs)),
        V::Map(d, es) => V::Map(*d, es.iter().map(|(k, v)| (r(k), r(v))).collect()),
        V::Struct(n, fs) => V::Struct(n, rf(fs)),
        V::StructVariant(n, i, vn, fs) => V::StructVariant(n, *i, vn, rf(fs)),
        V::Ref(x) => V::Str(x.clone()),
        V::RefBytes(x) => V::Bytes(x.clone()),
        V::Hr(a, b) => r(if hr { a } else { b }),
        V::Dyn(k, w, x) => doc(*k, *w, x, hr),
        x => x.clone(),
    }
}

thread_local! {
    static SPOT: std::cell::RefCell<Option<Box<dyn FnMut(usize) -> usize>>> = const { std::cell::RefCell::new(None) };
}

/// The document with the tag of every trait object in it put where `f` says, given the
/// number of places there are. Called first for the innermost objects.
pub fn with_spots<R>(f: impl FnMut(usize) -> usize + 'static, g: impl FnOnce() -> R) -> R {
    SPOT.with(|p| *p.borrow_mut() = Some(Box::new(f)));
    let r = g();
    SPOT.with(|p| *p.borrow_mut() = None);
    r
}

fn spot(n: usize) -> usize {
    SPOT.with(|p| p.borrow_mut().as_mut().map_or(0, |f| f(n)))
}

thread_local! {
    static EXTRA: std::cell::RefCell<Option<Box<dyn FnMut() -> Vec<(usize, N, V)>>>> = const { std::cell::RefCell::new(None) };
}

/// The document with fields that are to be ignored in every adjacently tagged object that
/// allows them.
pub fn with_extras<R>(f: impl FnMut() -> Vec<(usize, N, V)> + 'static, g: impl FnOnce() -> R) -> R {
    EXTRA.with(|p| *p.borrow_mut() = Some(Box::new(f)));
    let r = g();
    EXTRA.with(|p| *p.borrow_mut() = None);
    r
}

/// The document for an object.
pub fn doc(k: usize, which: usize, v: &V, hr: bool) -> V {
    doc_of(FAMS[k].tag, FAMS[k].trait_name, tag_of(k, which), v, hr)
}

/// The same for any trait.
pub fn doc_of(tag: Tag, trait_name: N, name: &str, v: &V, hr: bool) -> V {
    let name = s(name);
    match tag {
        Tag::Ext => V::Map(true, vec![(name, resolve(v, hr))]),
        Tag::Adj(t, c, _, deny) => {
            let mut fs = vec![(c, resolve(v, hr))];
            fs.insert(spot(2), (t, name));
            if !deny {
                let extra = EXTRA.with(|p| p.borrow_mut().as_mut().map_or(vec![], |f| f()));
                for (at, k, v) in extra {
                    if k != t && k != c {
                        fs.insert(at % (fs.len() + 1), (k, v));
                    }
                }
            }
            V::Struct(trait_name, fs)
        }
        Tag::Int(t, _) => {
            let (declared, mut es) = int_entries(v, hr);
            es.insert(spot(es.len() + 1), (s(t), name));
            V::Map(declared, es)
        }
    }
}

fn int_entries(v: &V, hr: bool) -> (bool, Vec<(V, V)>) {
    let r = |v: &V| resolve(v, hr);
    let es = match v {
        V::Hr(a, b) => return int_entries(if hr { a } else { b }, hr),
        V::NewtypeStruct(_, x) => return int_entries(x, hr),
        V::Dyn(k, w, x) => return int_entries(&doc(*k, *w, x, hr), hr),
        V::Unit | V::UnitStruct(_) | V::None => vec![],
        V::UnitVariant(_, _, n) => vec![(s(n), V::Unit)],
        V::NewtypeVariant(_, _, n, x) => vec![(s(n), r(x))],
        V::TupleVariant(_, _, n, xs) => vec![(s(n), V::TupleStruct(n, xs.iter().map(r).collect()))],
        V::StructVariant(_, _, n, fs) => {
            vec![(s(n), V::Struct(n, fs.iter().map(|(k, v)| (*k, r(v))).collect()))]
        }
        V::Struct(_, fs) => fs.iter().map(|(k, v)| (s(k), r(v))).collect(),
        V::Map(d, es) => return (*d, es.iter().map(|(k, v)| (r(k), r(v))).collect()),
        V::Some(x) => vec![(s("value"), r(x))],
        x => vec![(s("value"), r(x))],
    };
    (true, es)
}

/// Internal tagging keeps lengths only where the data declares them, and does not say
/// how the payload of a variant is named.
pub fn same_doc(k: usize, want: &V, got: &V) -> bool {
    same_doc_of(FAMS[k].tag, want, got)
}

pub fn same_doc_of(tag: Tag, want: &V, got: &V) -> bool {
    match tag {
        Tag::Ext | Tag::Adj(..) => want == got,
        Tag::Int(..) => {
            let (V::Map(wd, we), V::Map(gd, ge)) = (want, got) else {
                return false;
            };
            (!wd || *gd)
                && we.len() == ge.len()
                && we.iter().zip(ge).all(|((wk, wv), (gk, gv))| {
                    same_inner(wk, gk)
                        && (same_inner(wv, gv)
                            || match (wv, gv) {
                                (V::TupleStruct(_, a), V::TupleStruct(_, b) | V::Tuple(b)) => {
                                    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_inner(a, b))
                                }
                                (V::Struct(_, a), V::Struct(_, b)) => same_fields(a, b),
                                _ => false,
                            })
                })
        }
    }
}

/// With trait objects nested inside, every part gets the freedoms of internal tagging.
pub fn same_nested(k: usize, want: &V, got: &V) -> bool {
    if let Tag::Int(..) = FAMS[k].tag {
        if same_doc(k, want, got) {
            return true;
        }
    }
    same_inner(want, got)
}

fn same_fields(a: &[(N, V)], b: &[(N, V)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((ak, av), (bk, bv))| ak == bk && same_inner(av, bv))
}

/// Equal, except that an undeclared length may have become a declared one.
fn same_inner(w: &V, g: &V) -> bool {
    let all = |a: &[V], b: &[V]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_inner(a, b));
    match (w, g) {
        (V::Seq(wd, a), V::Seq(gd, b)) => (!wd || *gd) && all(a, b),
        (V::Map(wd, a), V::Map(gd, b)) => {
            (!wd || *gd)
                && a.len() == b.len()
                && a.iter().zip(b).all(|(a, b)| same_inner(&a.0, &b.0) && same_inner(&a.1, &b.1))
        }
        (V::Some(a), V::Some(b)) => same_inner(a, b),
        (V::NewtypeStruct(n, a), V::NewtypeStruct(m, b)) => n == m && same_inner(a, b),
        (V::NewtypeVariant(n, i, v, a), V::NewtypeVariant(m, j, w, b)) => {
            (n, i, v) == (m, j, w) && same_inner(a, b)
        }
        (V::Tuple(a), V::Tuple(b)) => all(a, b),
        (V::TupleStruct(n, a), V::TupleStruct(m, b)) => n == m && all(a, b),
        (V::TupleVariant(n, i, v, a), V::TupleVariant(m, j, w, b)) => (n, i, v) == (m, j, w) && all(a, b),
        (V::Struct(n, a), V::Struct(m, b)) => n == m && same_fields(a, b),
        (V::StructVariant(n, i, v, a), V::StructVariant(m, j, w, b)) => {
            (n, i, v) == (m, j, w) && same_fields(a, b)
        }
        (a, b) => a == b,
    }
}

/// The entries of an internally tagged document whose key clashes with the tag, which
/// the data must not have.
pub fn clashes(k: usize, v: &V) -> bool {
    if let V::Dyn(k2, _, x) = v {
        if clashes(*k2, x) {
            return true;
        }
    }
    let mut inner = false;
    v.children(&mut |c| inner = inner || nested_clash(c));
    if inner {
        return true;
    }
    let Tag::Int(t, _) = FAMS[k].tag else {
        return false;
    };
    [true, false].iter().any(|top| {
        let V::Map(_, es) = doc(k, 0, v, *top) else { unreachable!() };
        es[1..].iter().any(|(key, _)| key_is(key, t))
    })
}

fn key_is(key: &V, t: &str) -> bool {
    match key {
        V::Str(x) => x == t,
        V::Char(c) => c.to_string() == t,
        V::NewtypeStruct(_, x) | V::Some(x) => key_is(x, t),
        V::UnitVariant(_, _, n) => *n == t,
        _ => false,
    }
}

fn nested_clash(v: &V) -> bool {
    if let V::Dyn(k, _, x) = v {
        return clashes(*k, x);
    }
    let mut r = false;
    v.children(&mut |c| r = r || nested_clash(c));
    r
}

/// Internal tagging reached through a transparent value of another trait object.
pub fn top_dyn(v: &V) -> bool {
    match v {
        V::Dyn(..) => true,
        V::NewtypeStruct(_, x) => top_dyn(x),
        V::Hr(a, b) => top_dyn(a) || top_dyn(b),
        _ => false,
    }
}
