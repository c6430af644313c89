//! A self-describing format over a tree: replays a document with a chosen style
//! (ownership of strings, size hints, spelling of null, integer widths), logs every
//! request it receives, and fails at a chosen request.
use crate::rec::RecError;
use crate::v::V;
use serde::de::{
    self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor,
};
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Strs {
    Borrowed,
    Transient,
    Owned,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    Exact,
    None,
    Huge,
    Zero,
}

#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub hr: bool,
    pub strs: Strs,
    pub hint: Hint,
    /// Null read through "any" is a unit rather than a none.
    pub null_unit: bool,
    /// Some(x) is spelled like x.
    pub some_plain: bool,
    /// Integers are offered as 64-bit, as JSON does.
    pub wide: bool,
    /// Newtype structs are spelled as such.
    pub newtypes: bool,
    /// Fields are spelled as their positions.
    pub indexed: bool,
    /// Entries left unread are an error, as in JSON.
    pub strict_end: bool,
}

pub const STYLES: &[Style] = &[
    Style { hr: true, strs: Strs::Borrowed, hint: Hint::Exact, null_unit: true, some_plain: true, wide: true, newtypes: false, indexed: false, strict_end: true },
    Style { hr: true, strs: Strs::Transient, hint: Hint::None, null_unit: true, some_plain: true, wide: true, newtypes: false, indexed: false, strict_end: true },
    Style { hr: false, strs: Strs::Owned, hint: Hint::Exact, null_unit: false, some_plain: true, wide: true, newtypes: false, indexed: false, strict_end: true },
    Style { hr: true, strs: Strs::Owned, hint: Hint::Zero, null_unit: false, some_plain: false, wide: false, newtypes: false, indexed: false, strict_end: true },
    Style { hr: false, strs: Strs::Transient, hint: Hint::None, null_unit: true, some_plain: false, wide: false, newtypes: false, indexed: true, strict_end: true },
    Style { hr: false, strs: Strs::Borrowed, hint: Hint::Huge, null_unit: false, some_plain: true, wide: false, newtypes: false, indexed: false, strict_end: true },
    Style { hr: true, strs: Strs::Borrowed, hint: Hint::Huge, null_unit: true, some_plain: false, wide: true, newtypes: false, indexed: true, strict_end: true },
    Style { hr: false, strs: Strs::Owned, hint: Hint::None, null_unit: true, some_plain: false, wide: false, newtypes: true, indexed: false, strict_end: true },
    Style { hr: true, strs: Strs::Borrowed, hint: Hint::Exact, null_unit: false, some_plain: false, wide: true, newtypes: true, indexed: false, strict_end: true },
];

pub struct Cx {
    pub st: Style,
    pub fail_at: Option<u64>,
    pub calls: Cell<u64>,
    pub budget: u64,
    pub failed: Cell<bool>,
    pub after: Cell<u64>,
    pub log: RefCell<Option<Vec<(usize, String)>>>,
}

impl Cx {
    pub fn new(st: Style) -> Cx {
        Cx {
            st,
            fail_at: None,
            calls: Cell::new(0),
            budget: 5_000_000,
            failed: Cell::new(false),
            after: Cell::new(0),
            log: RefCell::new(None),
        }
    }
    pub fn logging(st: Style) -> Cx {
        let c = Cx::new(st);
        *c.log.borrow_mut() = Some(vec![]);
        c
    }
    pub fn failing(st: Style, at: u64) -> Cx {
        let mut c = Cx::new(st);
        c.fail_at = Some(at);
        c
    }
    fn call(&self, node: Option<&V>, what: impl FnOnce() -> String) -> Result<(), RecError> {
        if self.failed.get() || crate::v::concrete_failed() {
            self.after.set(self.after.get() + 1);
        }
        let k = self.calls.get();
        self.calls.set(k + 1);
        if let (Some(n), Some(l)) = (node, self.log.borrow_mut().as_mut()) {
            l.push((n as *const V as usize, what()));
        }
        if self.fail_at == Some(k) {
            self.failed.set(true);
            return Err(RecError(format!("injected failure #{} in the format\r\n\twith \"details\" {{0}}.", k)));
        }
        if k > self.budget {
            panic!("more than {} requests for one document", self.budget);
        }
        Ok(())
    }
}

#[derive(Clone, Copy)]
pub struct Play<'de, 'c> {
    pub v: &'de V,
    pub cx: &'c Cx,
}

thread_local! {
    static KEEP: Cell<bool> = const { Cell::new(false) };
    static INDEX: Cell<bool> = const { Cell::new(false) };
}

/// The document as it is in the style, with newtype structs if they are spelled.
pub fn lower_in(st: &Style, v: &V) -> V {
    KEEP.with(|k| k.set(st.newtypes));
    INDEX.with(|k| k.set(st.indexed));
    let out = lower(v);
    KEEP.with(|k| k.set(false));
    INDEX.with(|k| k.set(false));
    out
}

/// The document form of a recorded tree, as self-describing formats write it.
pub fn lower(v: &V) -> V {
    let lf = |fs: &[(crate::v::N, V)]| {
        let index = INDEX.with(|k| k.get());
        let key = |(i, (k, v)): (usize, &(crate::v::N, V))| match u8::try_from(i) {
            Ok(i) if index => (V::U8(i), lower(v)),
            _ => (V::Str((*k).to_owned()), lower(v)),
        };
        V::Map(true, fs.iter().enumerate().map(key).collect())
    };
    let ls = |vs: &[V]| V::Seq(true, vs.iter().map(lower).collect());
    let one = |k: &str, v: V| V::Map(true, vec![(V::Str(k.to_owned()), v)]);
    match v {
        V::UnitStruct(_) => V::Unit,
        V::UnitVariant(_, _, n) => V::Str((*n).to_owned()),
        V::NewtypeStruct(n, x) if KEEP.with(|k| k.get()) => V::NewtypeStruct(n, Box::new(lower(x))),
        V::NewtypeStruct(_, x) => lower(x),
        V::NewtypeVariant(_, _, n, x) => one(n, lower(x)),
        V::Seq(_, vs) | V::Tuple(vs) | V::TupleStruct(_, vs) => ls(vs),
        V::TupleVariant(_, _, n, vs) => one(n, ls(vs)),
        V::Map(_, es) => {
            // Keys are strings all the same.
            let key = |k: &V| KEEP.with(|keep| {
                let was = keep.replace(false);
                let out = lower(k);
                keep.set(was);
                out
            });
            V::Map(true, es.iter().map(|(k, v)| (key(k), lower(v))).collect())
        }
        // Of an object the tag and the content are named.
        V::Struct(n, fs) if crate::fams::FAMS.iter().any(|f| f.trait_name == *n) => {
            V::Map(true, fs.iter().map(|(k, v)| (V::Str((*k).to_owned()), lower(v))).collect())
        }
        V::Struct(_, fs) => lf(fs),
        V::StructVariant(_, _, n, fs) => one(n, lf(fs)),
        V::Some(x) => V::Some(Box::new(lower(x))),
        V::Hr(..) | V::Dyn(..) | V::Fail(_) | V::Any | V::Ignored => panic!("not a document: {:?}", v),
        x => x.clone(),
    }
}

impl<'de, 'c> Play<'de, 'c> {
    pub fn new(v: &'de V, cx: &'c Cx) -> Self {
        Play { v, cx }
    }
    fn at(self, v: &'de V) -> Self {
        Play { v, cx: self.cx }
    }

    /// Nothing is shown of what is ignored, but it has to be read all the same.
    fn skip(self) -> Result<(), RecError> {
        let step = |p: Self| {
            p.cx.call(None, String::new)?;
            p.skip()
        };
        match self.v {
            V::Seq(_, vs) => vs.iter().try_for_each(|v| step(self.at(v))),
            V::Map(_, es) => es.iter().try_for_each(|(k, v)| {
                step(self.at(k))?;
                step(self.at(v))
            }),
            V::NewtypeStruct(_, v) => step(self.at(v)),
            _ => Ok(()),
        }
    }

    fn string<W: Visitor<'de>>(self, s: &'de str, w: W) -> Result<W::Value, RecError> {
        match self.cx.st.strs {
            Strs::Borrowed => w.visit_borrowed_str(s),
            Strs::Transient => w.visit_str(&s.to_owned()),
            Strs::Owned => w.visit_string(s.to_owned()),
        }
    }

    fn bytes<W: Visitor<'de>>(self, s: &'de [u8], w: W) -> Result<W::Value, RecError> {
        match self.cx.st.strs {
            Strs::Borrowed => w.visit_borrowed_bytes(s),
            Strs::Transient => w.visit_bytes(&s.to_owned()),
            Strs::Owned => w.visit_byte_buf(s.to_owned()),
        }
    }

    fn seq<W: Visitor<'de>>(self, vs: &'de [V], w: W) -> Result<W::Value, RecError> {
        let mut a = Seq { it: vs.iter(), p: self };
        let r = w.visit_seq(&mut a)?;
        if self.cx.st.strict_end && a.it.len() > 0 {
            return Err(RecError(format!("{} elements left unread", a.it.len())));
        }
        Ok(r)
    }

    pub fn map<W: Visitor<'de>>(self, es: &'de [(V, V)], w: W) -> Result<W::Value, RecError> {
        let mut a = Map { it: es.iter(), value: None, p: self };
        let r = w.visit_map(&mut a)?;
        if self.cx.st.strict_end && a.it.len() > 0 {
            return Err(RecError(format!("{} entries left unread", a.it.len())));
        }
        Ok(r)
    }

    fn any<W: Visitor<'de>>(self, w: W) -> Result<W::Value, RecError> {
        let wide = self.cx.st.wide;
        match self.v {
            V::Bool(x) => w.visit_bool(*x),
            V::I8(x) if !wide => w.visit_i8(*x),
            V::I16(x) if !wide => w.visit_i16(*x),
            V::I32(x) if !wide => w.visit_i32(*x),
            V::I64(x) if !wide => w.visit_i64(*x),
            V::U8(x) if !wide => w.visit_u8(*x),
            V::U16(x) if !wide => w.visit_u16(*x),
            V::U32(x) if !wide => w.visit_u32(*x),
            V::U64(x) if !wide => w.visit_u64(*x),
            V::I128(x) if !wide => w.visit_i128(*x),
            V::U128(x) if !wide => w.visit_u128(*x),
            V::I8(_) | V::I16(_) | V::I32(_) | V::I64(_) | V::I128(_) => {
                let x = match self.v {
                    V::I8(x) => *x as i128,
                    V::I16(x) => *x as i128,
                    V::I32(x) => *x as i128,
                    V::I64(x) => *x as i128,
                    V::I128(x) => *x,
                    _ => unreachable!(),
                };
                if let Ok(u) = u64::try_from(x) {
                    w.visit_u64(u)
                } else if let Ok(i) = i64::try_from(x) {
                    w.visit_i64(i)
                } else {
                    w.visit_i128(x)
                }
            }
            V::U8(x) => w.visit_u64(*x as u64),
            V::U16(x) => w.visit_u64(*x as u64),
            V::U32(x) => w.visit_u64(*x as u64),
            V::U64(x) => w.visit_u64(*x),
            V::U128(x) => match u64::try_from(*x) {
                Ok(u) => w.visit_u64(u),
                Err(_) => w.visit_u128(*x),
            },
            V::F32(x) => w.visit_f32(f32::from_bits(*x)),
            V::F64(x) => w.visit_f64(f64::from_bits(*x)),
            V::Char(x) => w.visit_char(*x),
            V::Str(s) => self.string(s, w),
            V::Bytes(b) => self.bytes(b, w),
            V::None | V::Unit => {
                if self.cx.st.null_unit {
                    w.visit_unit()
                } else if matches!(self.v, V::None) {
                    w.visit_none()
                } else {
                    w.visit_unit()
                }
            }
            V::Some(x) => {
                if self.cx.st.some_plain {
                    self.at(x).any(w)
                } else {
                    w.visit_some(self.at(x))
                }
            }
            V::Seq(_, vs) => self.seq(vs, w),
            V::Map(_, es) => self.map(es, w),
            V::NewtypeStruct(_, x) => w.visit_newtype_struct(self.at(x)),
            x => panic!("not a document node: {:?}", x),
        }
    }
}

macro_rules! forward_any {
    ($($m:ident)*) => {$(
        fn $m<W: Visitor<'de>>(self, w: W) -> Result<W::Value, RecError> {
            self.cx.call(Some(self.v), || stringify!($m).into())?;
            self.peel().any(w)
        }
    )*};
}

impl<'de, 'c> Play<'de, 'c> {
    /// A spelled Some answers requests for its content.
    fn peel(self) -> Self {
        match self.v {
            V::Some(x) if self.cx.st.some_plain => self.at(x).peel(),
            _ => self,
        }
    }
}

impl<'de, 'c> Deserializer<'de> for Play<'de, 'c> {
    type Error = RecError;

    forward_any! {
        deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64
        deserialize_i128 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128
        deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string
        deserialize_bytes deserialize_byte_buf deserialize_seq deserialize_map deserialize_identifier
    }
    fn deserialize_unit<W: Visitor<'de>>(self, w: W) -> Result<W::Value, RecError> {
        self.cx.call(Some(self.v), || "deserialize_unit".into())?;
        match self.v {
            V::Unit | V::None => w.visit_unit(),
            _ => self.peel().any(w),
        }
    }
    fn deserialize_unit_struct<W: Visitor<'de>>(self, n: &'static str, w: W) -> Result<W::Value, RecError> {
        self.cx.call(Some(self.v), || format!("deserialize_unit_struct {:?}", n))?;
        match self.v {
            V::Unit | V::None => w.visit_unit(),
            _ => self.peel().any(w),
        }
    }
    fn deserialize_ignored_any<W: Visitor<'de>>(self, w: W) -> Result<W::Value, RecError> {
        self.cx.call(Some(self.v), || "deserialize_ignored_any".into())?;
        self.skip()?;
        w.visit_unit()
    }
    fn deserialize_option<W: Visitor<'de>>(self, w: W) -> Result<W::Value, RecError> {
        self.cx.call(Some(self.v), || "deserialize_option".into())?;
        match self.v {
            V::None | V::Unit => w.visit_none(),
            V::Some(x) => w.visit_some(self.at(x)),
            _ => w.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<W: Visitor<'de>>(self, n: &'static str, w: W) -> Result<W::Value, RecError> {
        self.cx.call(Some(self.v), || format!("deserialize_newtype_struct {:?}", n))?;
        w.visit_newtype_struct(match self.v {
            V::NewtypeStruct(_, x) => self.at(x),
            _ => self,
        })
    }
    fn deserialize_tuple<W: Visitor<'de>>(self, len: usize, w: W) -> Result<W::Value, RecError> {
        self.cx.call(Some(self.v), || format!("deserialize_tuple {}", len))?;
        self.peel().any(w)
    }
    fn deserialize_tuple_struct<W: Visitor<'de>>(
        self,
        n: &'static str,
        len: usize,
        w: W,
    ) -> Result<W::Value, RecError> {
        self.cx.call(Some(self.v), || format!("deserialize_tuple_struct {:?} {}", n, len))?;
        self.peel().any(w)
    }
    fn deserialize_struct<W: Visitor<'de>>(
        self,
        n: &'static str,
        fs: &'static [&'static str],
        w: W,
    ) -> Result<W::Value, RecError> {
        self.cx.call(Some(self.v), || format!("deserialize_struct {:?} {:?}", n, fs))?;
        self.peel().any(w)
    }
    fn deserialize_enum<W: Visitor<'de>>(
        self,
        n: &'static str,
        vs: &'static [&'static str],
        w: W,
    ) -> Result<W::Value, RecError> {
        self.cx.call(Some(self.v), || format!("deserialize_enum {:?} {:?}", n, vs))?;
        let p = self.peel();
        match p.v {
            V::Str(_) => w.visit_enum(Enum { variant: p, value: None }),
            V::Map(_, es) if es.len() == 1 => w.visit_enum(Enum {
                variant: p.at(&es[0].0),
                value: Some(p.at(&es[0].1)),
            }),
            x => Err(RecError(format!("expected an enum, found {}", x.kind()))),
        }
    }
    fn is_human_readable(&self) -> bool {
        self.cx.st.hr
    }
}

fn hint(st: &Style, n: usize) -> Option<usize> {
    match st.hint {
        Hint::Exact => Some(n),
        Hint::None => None,
        Hint::Huge => Some(usize::MAX),
        Hint::Zero => Some(0),
    }
}

struct Seq<'de, 'c> {
    it: std::slice::Iter<'de, V>,
    p: Play<'de, 'c>,
}
impl<'de, 'c> SeqAccess<'de> for &mut Seq<'de, 'c> {
    type Error = RecError;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, RecError> {
        self.p.cx.call(None, String::new)?;
        match self.it.next() {
            Some(v) => seed.deserialize(self.p.at(v)).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        hint(&self.p.cx.st, self.it.len())
    }
}

struct Map<'de, 'c> {
    it: std::slice::Iter<'de, (V, V)>,
    value: Option<&'de V>,
    p: Play<'de, 'c>,
}
impl<'de, 'c> MapAccess<'de> for &mut Map<'de, 'c> {
    type Error = RecError;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, RecError> {
        self.p.cx.call(None, String::new)?;
        if self.value.is_some() {
            return Err(RecError("next_key before the value was read".into()));
        }
        match self.it.next() {
            Some((k, v)) => {
                self.value = Some(v);
                seed.deserialize(self.p.at(k)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, RecError> {
        self.p.cx.call(None, String::new)?;
        match self.value.take() {
            Some(v) => seed.deserialize(self.p.at(v)),
            None => Err(RecError("next_value before next_key".into())),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        hint(&self.p.cx.st, self.it.len())
    }
}

struct Enum<'de, 'c> {
    variant: Play<'de, 'c>,
    value: Option<Play<'de, 'c>>,
}
impl<'de, 'c> EnumAccess<'de> for Enum<'de, 'c> {
    type Error = RecError;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, Self), RecError> {
        self.variant.cx.call(Some(self.variant.v), || "variant".into())?;
        Ok((seed.deserialize(self.variant)?, self))
    }
}
impl<'de, 'c> VariantAccess<'de> for Enum<'de, 'c> {
    type Error = RecError;
    fn unit_variant(self) -> Result<(), RecError> {
        self.variant.cx.call(self.value.map(|p| p.v), || "unit_variant".into())?;
        match self.value {
            None => Ok(()),
            Some(p) => de::Deserialize::deserialize(p),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, RecError> {
        self.variant.cx.call(self.value.map(|p| p.v), || "newtype_variant".into())?;
        match self.value {
            Some(p) => seed.deserialize(p),
            None => Err(RecError("expected a newtype variant".into())),
        }
    }
    fn tuple_variant<W: Visitor<'de>>(self, len: usize, w: W) -> Result<W::Value, RecError> {
        self.variant.cx.call(self.value.map(|p| p.v), || format!("tuple_variant {}", len))?;
        match self.value.map(|p| (p, p.v)) {
            Some((p, V::Seq(_, vs))) => p.seq(vs, w),
            _ => Err(RecError("expected a tuple variant".into())),
        }
    }
    fn struct_variant<W: Visitor<'de>>(
        self,
        fs: &'static [&'static str],
        w: W,
    ) -> Result<W::Value, RecError> {
        self.variant.cx.call(self.value.map(|p| p.v), || format!("struct_variant {:?}", fs))?;
        match self.value.map(|p| (p, p.v)) {
            Some((p, V::Map(_, es))) => p.map(es, w),
            Some((p, V::Seq(_, vs))) => p.seq(vs, w),
            _ => Err(RecError("expected a struct variant".into())),
        }
    }
}
