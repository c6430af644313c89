//! A program in the serde data model: what a concrete type serializes, and the
//! template of the requests it makes when deserializing.
use crate::fams;
use crate::rng::Rng;
use serde::de::{
    self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess,
    VariantAccess, Visitor,
};
use serde::ser::{
    Error as _, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant,
    SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer,
};
use std::cell::{Cell, RefCell};
use std::fmt;

pub type N = &'static str;

/// Enum variant names; index = variant index.
pub const VARS: &[N] = &[
    "Alpha", "Beta", "value", "type", "content", "Gamma", "", "déjà", "Alph", "alpha", "Delta",
    "a_very_long_variant_name_that_goes_well_past_any_small_inline_string_buffer_size_0123456789",
];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    /// Floats as bits, so that equality is exact.
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<V>),
    Unit,
    UnitStruct(N),
    UnitVariant(N, u32, N),
    NewtypeStruct(N, Box<V>),
    NewtypeVariant(N, u32, N, Box<V>),
    /// Whether the length is declared, then the elements.
    Seq(bool, Vec<V>),
    Tuple(Vec<V>),
    TupleStruct(N, Vec<V>),
    TupleVariant(N, u32, N, Vec<V>),
    Map(bool, Vec<(V, V)>),
    Struct(N, Vec<(N, V)>),
    StructVariant(N, u32, N, Vec<(N, V)>),
    /// Program only: written like a string or bytes, and read only where it can be borrowed.
    Ref(String),
    RefBytes(Vec<u8>),
    /// Program only: human-readable form, compact form.
    Hr(Box<V>, Box<V>),
    /// A trait object of the given family and probe.
    Dyn(usize, usize, Box<V>),
    /// Program only: the type's own code fails with this message.
    Fail(String),
    /// Template only: captured through deserialize_any / ignored.
    Any,
    Ignored,
}

const SKIPPED: N = "\u{1}skipped";

fn written(fs: &[(N, V)]) -> usize {
    fs.iter().filter(|(_, v)| !v.is_skipped()).count()
}

impl V {
    pub fn f64(f: f64) -> V {
        V::F64(f.to_bits())
    }
    pub fn kind(&self) -> &'static str {
        match self {
            V::Bool(_) => "bool",
            V::I8(_) => "i8",
            V::I16(_) => "i16",
            V::I32(_) => "i32",
            V::I64(_) => "i64",
            V::I128(_) => "i128",
            V::U8(_) => "u8",
            V::U16(_) => "u16",
            V::U32(_) => "u32",
            V::U64(_) => "u64",
            V::U128(_) => "u128",
            V::F32(_) => "f32",
            V::F64(_) => "f64",
            V::Char(_) => "char",
            V::Str(_) => "str",
            V::Bytes(_) => "bytes",
            V::None => "none",
            V::Some(_) => "some",
            V::Unit => "unit",
            V::UnitStruct(_) => "unit_struct",
            V::UnitVariant(..) => "unit_variant",
            V::NewtypeStruct(..) => "newtype_struct",
            V::NewtypeVariant(..) => "newtype_variant",
            V::Seq(..) => "seq",
            V::Tuple(_) => "tuple",
            V::TupleStruct(..) => "tuple_struct",
            V::TupleVariant(..) => "tuple_variant",
            V::Map(..) => "map",
            V::Struct(..) => "struct",
            V::StructVariant(..) => "struct_variant",
            V::Ref(_) => "borrowed str",
            V::RefBytes(_) => "borrowed bytes",
            V::Hr(..) => "hr",
            V::Dyn(..) => "dyn",
            V::Fail(_) => "fail",
            V::Any => "any",
            V::Ignored => "ignored",
        }
    }

    /// A field that is declared but left out, as by `skip_serializing_if`.
    pub fn skipped() -> V {
        V::UnitStruct(SKIPPED)
    }

    pub fn is_skipped(&self) -> bool {
        matches!(self, V::UnitStruct(n) if *n == SKIPPED)
    }

    /// Leaves out some fields.
    pub fn skip_some(&mut self, r: &mut Rng) {
        match self {
            V::Struct(_, fs) | V::StructVariant(_, _, _, fs) => {
                for (_, v) in fs {
                    if r.one_in(3) {
                        *v = V::skipped();
                    } else {
                        v.skip_some(r);
                    }
                }
            }
            V::Some(v) | V::NewtypeStruct(_, v) | V::NewtypeVariant(_, _, _, v) => v.skip_some(r),
            V::Seq(_, vs) | V::Tuple(vs) | V::TupleStruct(_, vs) | V::TupleVariant(_, _, _, vs) => {
                vs.iter_mut().for_each(|v| v.skip_some(r))
            }
            V::Map(_, es) => es.iter_mut().for_each(|(_, v)| v.skip_some(r)),
            _ => {}
        }
    }

    /// Without the fields left out.
    pub fn drop_skipped(&mut self) {
        match self {
            V::Struct(_, fs) | V::StructVariant(_, _, _, fs) => {
                fs.retain(|(_, v)| !v.is_skipped());
                fs.iter_mut().for_each(|(_, v)| v.drop_skipped());
            }
            V::Some(v) | V::NewtypeStruct(_, v) | V::NewtypeVariant(_, _, _, v) | V::Dyn(_, _, v) => v.drop_skipped(),
            V::Seq(_, vs) | V::Tuple(vs) | V::TupleStruct(_, vs) | V::TupleVariant(_, _, _, vs) => {
                vs.iter_mut().for_each(V::drop_skipped)
            }
            V::Map(_, es) => {
                es.retain(|(_, v)| !v.is_skipped());
                es.iter_mut().for_each(|(_, v)| v.drop_skipped());
            }
            V::Hr(a, b) => {
                a.drop_skipped();
                b.drop_skipped();
            }
            _ => {}
        }
    }

    /// Number of nodes.
    pub fn size(&self) -> usize {
        let mut n = 1;
        self.children(&mut |c| n += c.size());
        n
    }

    pub fn children<'a>(&'a self, f: &mut dyn FnMut(&'a V)) {
        match self {
            V::Some(v) | V::NewtypeStruct(_, v) | V::NewtypeVariant(_, _, _, v) | V::Dyn(_, _, v) => {
                f(v)
            }
            V::Seq(_, vs) | V::Tuple(vs) | V::TupleStruct(_, vs) | V::TupleVariant(_, _, _, vs) => {
                vs.iter().for_each(f)
            }
            V::Map(_, es) => es.iter().for_each(|(k, v)| {
                f(k);
                f(v)
            }),
            V::Struct(_, fs) | V::StructVariant(_, _, _, fs) => fs.iter().for_each(|(_, v)| f(v)),
            V::Hr(a, b) => {
                f(a);
                f(b)
            }
            _ => {}
        }
    }

    pub fn any(&self, p: &dyn Fn(&V) -> bool) -> bool {
        if p(self) {
            return true;
        }
        let mut r = false;
        self.children(&mut |c| r = r || c.any(p));
        r
    }

    pub fn depth(&self) -> usize {
        let mut d = 0;
        self.children(&mut |c| d = d.max(c.depth()));
        d + 1
    }

    /// Short rendering for reports.
    pub fn show(&self) -> String {
        let s = format!("{:?}", self);
        if s.len() > 600 {
            let mut i = 600;
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            format!("{}… ({} chars)", &s[..i], s.len())
        } else {
            s
        }
    }
}

impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            V::Bool(x) => s.serialize_bool(*x),
            V::I8(x) => s.serialize_i8(*x),
            V::I16(x) => s.serialize_i16(*x),
            V::I32(x) => s.serialize_i32(*x),
            V::I64(x) => s.serialize_i64(*x),
            V::I128(x) => s.serialize_i128(*x),
            V::U8(x) => s.serialize_u8(*x),
            V::U16(x) => s.serialize_u16(*x),
            V::U32(x) => s.serialize_u32(*x),
            V::U64(x) => s.serialize_u64(*x),
            V::U128(x) => s.serialize_u128(*x),
            V::F32(x) => s.serialize_f32(f32::from_bits(*x)),
            V::F64(x) => s.serialize_f64(f64::from_bits(*x)),
            V::Char(x) => s.serialize_char(*x),
            V::Str(x) | V::Ref(x) => s.serialize_str(x),
            V::Bytes(x) | V::RefBytes(x) => s.serialize_bytes(x),
            V::None => s.serialize_none(),
            V::Some(x) => s.serialize_some(&**x),
            V::Unit => s.serialize_unit(),
            V::UnitStruct(n) => s.serialize_unit_struct(n),
            V::UnitVariant(n, i, v) => s.serialize_unit_variant(n, *i, v),
            V::NewtypeStruct(n, x) => s.serialize_newtype_struct(n, &**x),
            V::NewtypeVariant(n, i, v, x) => s.serialize_newtype_variant(n, *i, v, &**x),
            V::Seq(d, xs) => {
                let mut q = s.serialize_seq(if *d { Some(xs.len()) } else { None })?;
                for x in xs {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            V::Tuple(xs) => {
                let mut q = s.serialize_tuple(xs.len())?;
                for x in xs {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            V::TupleStruct(n, xs) => {
                let mut q = s.serialize_tuple_struct(n, xs.len())?;
                for x in xs {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            V::TupleVariant(n, i, v, xs) => {
                let mut q = s.serialize_tuple_variant(n, *i, v, xs.len())?;
                for x in xs {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            V::Map(d, es) => {
                let mut q = s.serialize_map(if *d { Some(es.len()) } else { None })?;
                for (j, (k, v)) in es.iter().enumerate() {
                    // Both ways of writing an entry.
                    if (j + es.len()) % 2 == 0 {
                        q.serialize_entry(k, v)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(v)?;
                    }
                }
                q.end()
            }
            V::Struct(n, fs) => {
                let mut q = s.serialize_struct(n, written(fs))?;
                for (k, v) in fs {
                    if v.is_skipped() {
                        q.skip_field(k)?;
                    } else {
                        q.serialize_field(k, v)?;
                    }
                }
                q.end()
            }
            V::StructVariant(n, i, v, fs) => {
                let mut q = s.serialize_struct_variant(n, *i, v, written(fs))?;
                for (k, v) in fs {
                    if v.is_skipped() {
                        q.skip_field(k)?;
                    } else {
                        q.serialize_field(k, v)?;
                    }
                }
                q.end()
            }
            V::Hr(a, b) => {
                if s.is_human_readable() {
                    a.serialize(s)
                } else {
                    b.serialize(s)
                }
            }
            V::Dyn(k, w, x) => fams::serialize(*k, *w, (**x).clone(), s),
            V::Fail(m) => {
                crate::rec::note_failure();
                if m.starts_with("PANIC") {
                    panic!("{}", m);
                }
                Err(S::Error::custom(m))
            }
            V::Any | V::Ignored => Err(S::Error::custom("template-only node")),
        }
    }
}

// ---------------------------------------------------------------------------
// Observations of what the concrete type sees while deserializing.

thread_local! {
    static OBS: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}

thread_local! {
    static CONCRETE_FAILED: Cell<bool> = const { Cell::new(false) };
}

/// Whether a `V::Fail` template has fired since the last reset.
pub fn concrete_failed() -> bool {
    CONCRETE_FAILED.with(|c| c.get())
}
pub fn reset_concrete_failed() {
    CONCRETE_FAILED.with(|c| c.set(false));
}

pub fn obs_start() {
    OBS.with(|o| *o.borrow_mut() = Some(Vec::new()));
}

pub fn obs_take() -> Vec<String> {
    OBS.with(|o| o.borrow_mut().take().unwrap_or_default())
}

fn obs(f: impl FnOnce() -> String) {
    OBS.with(|o| {
        if let Some(v) = o.borrow_mut().as_mut() {
            v.push(f())
        }
    });
}

/// Deserialize following a template.
pub struct Tpl<'t>(pub &'t V);

impl<'t, 'de> DeserializeSeed<'de> for Tpl<'t> {
    type Value = V;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        de(self.0, d)
    }
}

/// How the concrete types of a thread go about reading.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Manner {
    /// Not 0: some of the nodes take whatever the format offers, which of them depending on this
    /// number and on the template.
    pub any: u64,
    /// They also ask for it by other names than the usual one. Only for data that fits, since
    /// formats differ in what else they would take.
    pub odd: bool,
    /// Stop reading once everything has been found, without asking for the end.
    pub lazy: bool,
    /// Take nothing but a none for a none and a unit for what is ignored.
    pub strict: bool,
}

thread_local! {
    static MANNER: Cell<Manner> = const { Cell::new(Manner { any: 0, odd: false, lazy: false, strict: false }) };
}

pub fn in_manner<T>(m: Manner, f: impl FnOnce() -> T) -> T {
    struct Back(Manner);
    impl Drop for Back {
        fn drop(&mut self) {
            MANNER.with(|x| x.set(self.0));
        }
    }
    let _back = Back(MANNER.with(|x| x.replace(m)));
    f()
}

fn lazy() -> bool {
    MANNER.with(|x| x.get().lazy)
}

fn strict() -> bool {
    MANNER.with(|x| x.get().strict)
}

thread_local! {
    static FIRST: Cell<Option<usize>> = const { Cell::new(None) };
}

/// The next to be read asks for it in its n-th other way, and what is inside as usual.
pub fn first_way<T>(n: usize, f: impl FnOnce() -> T) -> T {
    FIRST.with(|w| w.set(Some(n)));
    let r = f();
    FIRST.with(|w| w.set(None));
    r
}

fn another_way(t: &V) -> Option<usize> {
    let Manner { any: seed, odd, .. } = MANNER.with(|x| x.get());
    let mut r = crate::rng::Rng::new(seed, t.size() as u64, t.kind().len() as u64 + t.kind().as_bytes()[0] as u64);
    (seed != 0 && r.one_in(2)).then(|| if odd { r.next() as usize >> 8 } else { 0 })
}

thread_local! {
    static HUMAN: Cell<Option<bool>> = const { Cell::new(None) };
    static MISTOLD: Cell<u64> = const { Cell::new(0) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
}

/// Runs `f`, in which all reading is from a format that is (or is not) human-readable. How many
/// deserializers said otherwise, and how many said so, comes back as well.
pub fn told<T>(human: bool, f: impl FnOnce() -> T) -> (T, u64, u64) {
    let before = HUMAN.with(|h| h.replace(Some(human)));
    MISTOLD.with(|n| n.set(0));
    ASKED.with(|n| n.set(0));
    let r = f();
    HUMAN.with(|h| h.set(before));
    (r, MISTOLD.with(|n| n.get()), ASKED.with(|n| n.get()))
}

fn look<'de, D: Deserializer<'de>>(d: &D) {
    if let Some(h) = HUMAN.with(|h| h.get()) {
        ASKED.with(|n| n.set(n.get() + 1));
        if d.is_human_readable() != h {
            MISTOLD.with(|n| n.set(n.get() + 1));
        }
    }
}

/// A request that serves the template just as well as the usual one, and a visitor that takes
/// whatever may come of it.
fn another<'de, D: Deserializer<'de>>(t: &V, n: usize, d: D) -> Result<V, D::Error> {
    macro_rules! ask {
        ($v:expr; $($m:ident $(($($a:expr),*))?),+) => {{
            let v = $v;
            let count = [$(stringify!($m)),+].len();
            let mut i = n % count;
            $(
                if i == 0 {
                    return d.$m($($($a,)*)? v);
                }
                i = i.wrapping_sub(1);
            )+
            let _ = i;
            unreachable!()
        }};
    }
    match t {
        V::Bool(_) => ask!(BoolVisitor; deserialize_any, deserialize_bool),
        V::I8(_) | V::I16(_) | V::I32(_) | V::I64(_) | V::U8(_) | V::U16(_) | V::U32(_) | V::U64(_) => ask!(
            NumVisitor(t); deserialize_any, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64,
            deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_i128, deserialize_u128, deserialize_f32,
            deserialize_f64),
        V::I128(_) | V::U128(_) => ask!(NumVisitor(t); deserialize_any),
        V::F32(_) | V::F64(_) => ask!(NumVisitor(t); deserialize_any, deserialize_f32, deserialize_f64),
        V::Char(_) => ask!(CharVisitor; deserialize_any, deserialize_char),
        V::Str(_) => ask!(StrVisitor; deserialize_any, deserialize_any, deserialize_str, deserialize_string,
            deserialize_char, deserialize_identifier, deserialize_bytes, deserialize_byte_buf),
        V::Bytes(_) => ask!(BytesVisitor; deserialize_any, deserialize_any, deserialize_bytes, deserialize_byte_buf,
            deserialize_str, deserialize_string, deserialize_identifier),
        V::Ref(_) => ask!(RefVisitor; deserialize_any, deserialize_any, deserialize_str, deserialize_string,
            deserialize_char, deserialize_identifier, deserialize_bytes, deserialize_byte_buf),
        V::RefBytes(_) => ask!(RefBytesVisitor; deserialize_any, deserialize_any, deserialize_bytes,
            deserialize_byte_buf, deserialize_str, deserialize_string, deserialize_identifier),
        V::None => ask!(OptVisitor(&V::Any); deserialize_any, deserialize_option),
        V::Some(x) => ask!(OptVisitor(x); deserialize_any, deserialize_option),
        V::Unit | V::UnitStruct(_) => ask!(UnitVisitor(t.clone()); deserialize_any, deserialize_unit, deserialize_unit_struct("U")),
        V::NewtypeStruct(m, x) => ask!(NewtypeVisitor(m, x); deserialize_any, deserialize_newtype_struct(m)),
        V::Seq(..) | V::Tuple(_) | V::TupleStruct(..) => ask!(SeqVisitor(t); deserialize_any, deserialize_any,
            deserialize_seq, deserialize_tuple(2), deserialize_tuple_struct("TS", 1), deserialize_struct("S", &["a"]),
            deserialize_bytes, deserialize_byte_buf),
        V::Map(..) => ask!(MapVisitor(t); deserialize_any, deserialize_map, deserialize_struct("S", &["a", "b"])),
        V::Struct(m, fs) => ask!(StructVisitor { t, fields: fs }; deserialize_any, deserialize_map,
            deserialize_struct(m, static_fields(fs))),
        _ => unreachable!(),
    }
}

struct BoolVisitor;
impl<'de> Visitor<'de> for BoolVisitor {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a boolean")
    }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<V, E> {
        Ok(V::Bool(b))
    }
}

struct CharVisitor;
impl<'de> Visitor<'de> for CharVisitor {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a character")
    }
    fn visit_char<E: de::Error>(self, c: char) -> Result<V, E> {
        Ok(V::Char(c))
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<V, E> {
        let mut cs = s.chars();
        match (cs.next(), cs.next()) {
            (Some(c), None) => Ok(V::Char(c)),
            _ => Err(E::invalid_value(de::Unexpected::Str(s), &self)),
        }
    }
}

struct NumVisitor<'t>(&'t V);
impl<'t> NumVisitor<'t> {
    fn int<E: de::Error>(self, x: i128) -> Result<V, E> {
        macro_rules! fit {
            ($($k:ident $ty:ty,)*) => {
                match self.0 {
                    $(V::$k(_) => <$ty>::try_from(x).ok().map(V::$k),)*
                    V::F32(_) => Some(V::F32((x as f32).to_bits())),
                    V::F64(_) => Some(V::F64((x as f64).to_bits())),
                    _ => None,
                }
            };
        }
        let fit = fit! { I8 i8, I16 i16, I32 i32, I64 i64, I128 i128, U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, };
        fit.ok_or_else(|| E::custom("a number that does not fit"))
    }
}
impl<'t, 'de> Visitor<'de> for NumVisitor<'t> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0.kind())
    }
    fn visit_i64<E: de::Error>(self, x: i64) -> Result<V, E> {
        self.int(x as i128)
    }
    fn visit_u64<E: de::Error>(self, x: u64) -> Result<V, E> {
        self.int(x as i128)
    }
    fn visit_i128<E: de::Error>(self, x: i128) -> Result<V, E> {
        self.int(x)
    }
    fn visit_u128<E: de::Error>(self, x: u128) -> Result<V, E> {
        match (i128::try_from(x), self.0) {
            (Ok(i), _) => self.int(i),
            (Err(_), V::U128(_)) => Ok(V::U128(x)),
            _ => Err(E::custom("a number that does not fit")),
        }
    }
    fn visit_f32<E: de::Error>(self, x: f32) -> Result<V, E> {
        match self.0 {
            V::F32(_) => Ok(V::F32(x.to_bits())),
            V::F64(_) => Ok(V::F64((x as f64).to_bits())),
            _ => Err(E::custom("a number with a fraction")),
        }
    }
    fn visit_f64<E: de::Error>(self, x: f64) -> Result<V, E> {
        match self.0 {
            V::F32(_) => Ok(V::F32((x as f32).to_bits())),
            V::F64(_) => Ok(V::F64(x.to_bits())),
            _ => Err(E::custom("a number with a fraction")),
        }
    }
}

/// Which of the equivalent requests a template uses is a function of the
/// template, so that the same template always makes the same requests.
pub fn de<'de, D: Deserializer<'de>>(t: &V, d: D) -> Result<V, D::Error> {
    obs(|| format!("{}:hr={}", t.kind(), d.is_human_readable()));
    look(&d);
    match t {
        V::Bool(_) | V::I8(_) | V::I16(_) | V::I32(_) | V::I64(_) | V::I128(_) | V::U8(_) | V::U16(_) | V::U32(_)
        | V::U64(_) | V::U128(_) | V::F32(_) | V::F64(_) | V::Char(_) | V::Str(_) | V::Bytes(_) | V::Ref(_)
        | V::RefBytes(_) | V::None | V::Some(_) | V::Unit | V::UnitStruct(_) | V::NewtypeStruct(..) | V::Seq(..)
        | V::Tuple(_) | V::TupleStruct(..) | V::Map(..) | V::Struct(..) => {
            if let Some(n) = FIRST.with(|w| w.take()).or_else(|| another_way(t)) {
                return another(t, n, d);
            }
        }
        _ => {}
    }
    match t {
        V::Bool(_) => bool::deserialize(d).map(V::Bool),
        V::I8(_) => i8::deserialize(d).map(V::I8),
        V::I16(_) => i16::deserialize(d).map(V::I16),
        V::I32(_) => i32::deserialize(d).map(V::I32),
        V::I64(_) => i64::deserialize(d).map(V::I64),
        V::I128(_) => i128::deserialize(d).map(V::I128),
        V::U8(_) => u8::deserialize(d).map(V::U8),
        V::U16(_) => u16::deserialize(d).map(V::U16),
        V::U32(_) => u32::deserialize(d).map(V::U32),
        V::U64(_) => u64::deserialize(d).map(V::U64),
        V::U128(_) => u128::deserialize(d).map(V::U128),
        V::F32(_) => f32::deserialize(d).map(|f| V::F32(f.to_bits())),
        V::F64(_) => f64::deserialize(d).map(|f| V::F64(f.to_bits())),
        V::Char(_) => char::deserialize(d).map(V::Char),
        V::Str(s) => {
            if s.len() % 2 == 0 {
                d.deserialize_string(StrVisitor)
            } else {
                d.deserialize_str(StrVisitor)
            }
        }
        V::Bytes(b) => {
            if b.len() % 2 == 0 {
                d.deserialize_byte_buf(BytesVisitor)
            } else {
                d.deserialize_bytes(BytesVisitor)
            }
        }
        V::Ref(_) => <&'de str>::deserialize(d).map(|s| V::Ref(s.to_owned())),
        V::RefBytes(_) => <&'de [u8]>::deserialize(d).map(|b| V::RefBytes(b.to_owned())),
        V::None => d.deserialize_option(OptVisitor(&V::Any)),
        V::Some(x) => d.deserialize_option(OptVisitor(x)),
        V::Unit => d.deserialize_unit(UnitVisitor(V::Unit)),
        V::UnitStruct(n) => d.deserialize_unit_struct(n, UnitVisitor(t.clone())),
        V::NewtypeStruct(n, x) => d.deserialize_newtype_struct(n, NewtypeVisitor(n, x)),
        V::Seq(..) => d.deserialize_seq(SeqVisitor(t)),
        V::Tuple(xs) => d.deserialize_tuple(xs.len(), SeqVisitor(t)),
        V::TupleStruct(n, xs) => d.deserialize_tuple_struct(n, xs.len(), SeqVisitor(t)),
        V::Map(..) => d.deserialize_map(MapVisitor(t)),
        V::Struct(n, fs) => {
            d.deserialize_struct(n, static_fields(fs), StructVisitor { t, fields: fs })
        }
        V::UnitVariant(n, ..)
        | V::NewtypeVariant(n, ..)
        | V::TupleVariant(n, ..)
        | V::StructVariant(n, ..) => d.deserialize_enum(n, VARS, EnumVisitor(t)),
        V::Hr(a, b) => {
            let side = if d.is_human_readable() { a } else { b };
            let got = de(side, d)?;
            if got == **side {
                Ok(t.clone())
            } else {
                Ok(got)
            }
        }
        V::Dyn(k, _, x) => {
            fams::push_template((**x).clone());
            let _pop = fams::Pop;
            let (which, got) = fams::deserialize(*k, d)?;
            Ok(V::Dyn(*k, which, Box::new(got)))
        }
        V::Fail(m) => {
            // Look at the data first, like a validating implementation.
            d.deserialize_any(AnyVisitor)?;
            CONCRETE_FAILED.with(|c| c.set(true));
            if m.starts_with("PANIC") {
                panic!("{}", m);
            }
            Err(de::Error::custom(m))
        }
        V::Any => d.deserialize_any(AnyVisitor),
        V::Ignored if strict() => d.deserialize_ignored_any(UnitVisitor(V::Ignored)),
        V::Ignored => d.deserialize_ignored_any(AnyVisitor).map(|_| V::Ignored),
    }
}

/// Interned field list, since serde wants `&'static [&'static str]`.
pub fn static_fields(fs: &[(N, V)]) -> &'static [N] {
    use std::collections::HashMap;
    thread_local! {
        static LISTS: RefCell<HashMap<Vec<N>, &'static [N]>> = RefCell::new(HashMap::new());
    }
    let key: Vec<N> = fs.iter().map(|f| f.0).collect();
    LISTS.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(l) = m.get(&key) {
            return *l;
        }
        let l: &'static [N] = Box::leak(key.clone().into_boxed_slice());
        m.insert(key, l);
        l
    })
}

struct StrVisitor;
impl<'de> Visitor<'de> for StrVisitor {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a string")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<V, E> {
        obs(|| "visit_str".into());
        Ok(V::Str(s.to_owned()))
    }
    fn visit_borrowed_str<E: de::Error>(self, s: &'de str) -> Result<V, E> {
        obs(|| "visit_borrowed_str".into());
        Ok(V::Str(s.to_owned()))
    }
    fn visit_string<E: de::Error>(self, s: String) -> Result<V, E> {
        obs(|| "visit_string".into());
        Ok(V::Str(s))
    }
    fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<V, E> {
        match std::str::from_utf8(b) {
            Ok(s) => Ok(V::Str(s.to_owned())),
            Err(_) => Err(E::invalid_value(de::Unexpected::Bytes(b), &self)),
        }
    }
}

struct BytesVisitor;
impl<'de> Visitor<'de> for BytesVisitor {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<V, E> {
        obs(|| "visit_bytes".into());
        Ok(V::Bytes(b.to_owned()))
    }
    fn visit_borrowed_bytes<E: de::Error>(self, b: &'de [u8]) -> Result<V, E> {
        obs(|| "visit_borrowed_bytes".into());
        Ok(V::Bytes(b.to_owned()))
    }
    fn visit_byte_buf<E: de::Error>(self, b: Vec<u8>) -> Result<V, E> {
        obs(|| "visit_byte_buf".into());
        Ok(V::Bytes(b))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut b = Vec::new();
        while let Some(x) = a.next_element::<u8>()? {
            b.push(x);
        }
        Ok(V::Bytes(b))
    }
}

struct RefVisitor;
impl<'de> Visitor<'de> for RefVisitor {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a borrowed string")
    }
    fn visit_borrowed_str<E: de::Error>(self, s: &'de str) -> Result<V, E> {
        Ok(V::Ref(s.to_owned()))
    }
    fn visit_borrowed_bytes<E: de::Error>(self, b: &'de [u8]) -> Result<V, E> {
        match std::str::from_utf8(b) {
            Ok(s) => Ok(V::Ref(s.to_owned())),
            Err(_) => Err(E::invalid_value(de::Unexpected::Bytes(b), &self)),
        }
    }
}

struct RefBytesVisitor;
impl<'de> Visitor<'de> for RefBytesVisitor {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("borrowed bytes")
    }
    fn visit_borrowed_bytes<E: de::Error>(self, b: &'de [u8]) -> Result<V, E> {
        Ok(V::RefBytes(b.to_owned()))
    }
}

struct OptVisitor<'t>(&'t V);
impl<'t, 'de> Visitor<'de> for OptVisitor<'t> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_none<E: de::Error>(self) -> Result<V, E> {
        obs(|| "visit_none".into());
        Ok(V::None)
    }
    fn visit_unit<E: de::Error>(self) -> Result<V, E> {
        obs(|| "visit_unit".into());
        if strict() {
            return Err(E::invalid_type(de::Unexpected::Unit, &self));
        }
        Ok(V::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        obs(|| "visit_some".into());
        Ok(V::Some(Box::new(de(self.0, d)?)))
    }
}

struct UnitVisitor(V);
impl<'de> Visitor<'de> for UnitVisitor {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit")
    }
    fn visit_unit<E: de::Error>(self) -> Result<V, E> {
        obs(|| "visit_unit".into());
        Ok(self.0)
    }
}

struct NewtypeVisitor<'t>(N, &'t V);
impl<'t, 'de> Visitor<'de> for NewtypeVisitor<'t> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "newtype struct {}", self.0)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        Ok(V::NewtypeStruct(self.0, Box::new(de(self.1, d)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        match a.next_element_seed(Tpl(self.1))? {
            Some(v) => Ok(V::NewtypeStruct(self.0, Box::new(v))),
            None => Err(de::Error::invalid_length(0, &self)),
        }
    }
}

/// Lengths come from documents that need not be what was written, and elements without any
/// bytes make any length possible.
fn enough<E: de::Error>(n: usize) -> Result<(), E> {
    if n > 50_000 {
        return Err(E::custom("more elements than any document here has"));
    }
    Ok(())
}

struct SeqVisitor<'t>(&'t V);
impl<'t, 'de> Visitor<'de> for SeqVisitor<'t> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0.kind())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        obs(|| format!("visit_seq hint={:?}", a.size_hint()));
        let (tpls, open) = match self.0 {
            V::Seq(_, xs) => (xs, true),
            V::Tuple(xs) | V::TupleStruct(_, xs) | V::TupleVariant(_, _, _, xs) => (xs, false),
            _ => unreachable!(),
        };
        let mut out = Vec::new();
        if open {
            while !(lazy() && out.len() == tpls.len()) {
                enough(out.len())?;
                let t = tpls.get(out.len()).or(tpls.last()).unwrap_or(&V::Any);
                match a.next_element_seed(Tpl(t))? {
                    Some(v) => out.push(v),
                    None => break,
                }
            }
        } else {
            for t in tpls {
                match a.next_element_seed(Tpl(t))? {
                    Some(v) => out.push(v),
                    None => return Err(de::Error::invalid_length(out.len(), &self)),
                }
            }
        }
        Ok(match self.0 {
            V::Seq(d, _) => V::Seq(*d, out),
            V::Tuple(_) => V::Tuple(out),
            V::TupleStruct(n, _) => V::TupleStruct(n, out),
            V::TupleVariant(n, i, v, _) => V::TupleVariant(n, *i, v, out),
            _ => unreachable!(),
        })
    }
}

struct MapVisitor<'t>(&'t V);
impl<'t, 'de> Visitor<'de> for MapVisitor<'t> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        obs(|| format!("visit_map hint={:?}", a.size_hint()));
        let V::Map(d, es) = self.0 else { unreachable!() };
        let mut out = Vec::new();
        while !(lazy() && out.len() == es.len()) {
            enough(out.len())?;
            let kt = es.get(out.len()).or(es.last()).map_or(&V::Any, |e| &e.0);
            let Some(k) = a.next_key_seed(Tpl(kt))? else { break };
            let vt = es
                .iter()
                .find(|e| e.0 == k)
                .or(es.last())
                .map_or(&V::Any, |e| &e.1);
            let v = a.next_value_seed(Tpl(vt))?;
            out.push((k, v));
        }
        // Maps compare as the template orders them (C06 permutes documents).
        let mut sorted = Vec::new();
        for (k, _) in es {
            if let Some(i) = out.iter().position(|o| o.0 == *k) {
                sorted.push(out.remove(i));
            }
        }
        sorted.extend(out);
        Ok(V::Map(*d, sorted))
    }
}

struct FieldSeed<'t>(&'t [(N, V)]);
enum Field {
    Known(usize),
    Other,
}
impl<'t, 'de> DeserializeSeed<'de> for FieldSeed<'t> {
    type Value = Field;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Field, D::Error> {
        look(&d);
        d.deserialize_identifier(self)
    }
}
impl<'t, 'de> Visitor<'de> for FieldSeed<'t> {
    type Value = Field;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("field identifier")
    }
    fn visit_u64<E: de::Error>(self, i: u64) -> Result<Field, E> {
        Ok(if (i as usize) < self.0.len() {
            Field::Known(i as usize)
        } else {
            Field::Other
        })
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Field, E> {
        Ok(match self.0.iter().position(|f| f.0 == s) {
            Some(i) => Field::Known(i),
            None => Field::Other,
        })
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<Field, E> {
        Ok(match self.0.iter().position(|f| f.0.as_bytes() == s) {
            Some(i) => Field::Known(i),
            None => Field::Other,
        })
    }
}

struct StructVisitor<'t> {
    t: &'t V,
    fields: &'t [(N, V)],
}
impl<'t> StructVisitor<'t> {
    fn build(&self, out: Vec<(N, V)>) -> V {
        match self.t {
            V::Struct(n, _) => V::Struct(n, out),
            V::StructVariant(n, i, v, _) => V::StructVariant(n, *i, v, out),
            _ => unreachable!(),
        }
    }
}
impl<'t, 'de> Visitor<'de> for StructVisitor<'t> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "struct-like {}", self.t.kind())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        obs(|| format!("visit_seq hint={:?}", a.size_hint()));
        let mut out = Vec::new();
        for (n, t) in self.fields {
            match a.next_element_seed(Tpl(t))? {
                Some(v) => out.push((*n, v)),
                None => return Err(de::Error::invalid_length(out.len(), &self)),
            }
        }
        Ok(self.build(out))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        obs(|| format!("visit_map hint={:?}", a.size_hint()));
        let mut slots: Vec<Option<V>> = vec![None; self.fields.len()];
        while !(lazy() && slots.iter().all(|s| s.is_some())) {
            let Some(k) = a.next_key_seed(FieldSeed(self.fields))? else { break };
            match k {
                Field::Known(i) => {
                    if slots[i].is_some() {
                        return Err(de::Error::duplicate_field(self.fields[i].0));
                    }
                    slots[i] = Some(a.next_value_seed(Tpl(&self.fields[i].1))?);
                }
                Field::Other => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut out = Vec::new();
        for (i, s) in slots.into_iter().enumerate() {
            match s {
                Some(v) => out.push((self.fields[i].0, v)),
                None => match self.fields[i].1 {
                    // Like serde's derive for Option fields.
                    V::None => out.push((self.fields[i].0, V::None)),
                    _ => return Err(de::Error::missing_field(self.fields[i].0)),
                },
            }
        }
        Ok(self.build(out))
    }
}

struct VariantSeed;
impl<'de> DeserializeSeed<'de> for VariantSeed {
    type Value = u32;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<u32, D::Error> {
        look(&d);
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for VariantSeed {
    type Value = u32;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("variant identifier")
    }
    fn visit_u64<E: de::Error>(self, i: u64) -> Result<u32, E> {
        if (i as usize) < VARS.len() {
            Ok(i as u32)
        } else {
            Err(E::invalid_value(de::Unexpected::Unsigned(i), &"variant index"))
        }
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<u32, E> {
        match VARS.iter().position(|v| *v == s) {
            Some(i) => Ok(i as u32),
            None => Err(E::unknown_variant(s, VARS)),
        }
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<u32, E> {
        match std::str::from_utf8(s) {
            Ok(s) => self.visit_str(s),
            Err(_) => Err(E::custom("bad variant bytes")),
        }
    }
}

struct EnumVisitor<'t>(&'t V);
impl<'t, 'de> Visitor<'de> for EnumVisitor<'t> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<V, A::Error> {
        let (i, acc) = a.variant_seed(VariantSeed)?;
        obs(|| format!("variant {}", i));
        let want = match self.0 {
            V::UnitVariant(_, i, _)
            | V::NewtypeVariant(_, i, ..)
            | V::TupleVariant(_, i, ..)
            | V::StructVariant(_, i, ..) => *i,
            _ => unreachable!(),
        };
        if i != want {
            // A real enum would read whatever that other variant holds.
            acc.unit_variant()?;
            return Ok(V::UnitVariant("", i, VARS[i as usize]));
        }
        match self.0 {
            V::UnitVariant(..) => {
                acc.unit_variant()?;
                Ok(self.0.clone())
            }
            V::NewtypeVariant(n, i, v, x) => Ok(V::NewtypeVariant(
                n,
                *i,
                v,
                Box::new(acc.newtype_variant_seed(Tpl(x))?),
            )),
            V::TupleVariant(_, _, _, xs) => acc.tuple_variant(xs.len(), SeqVisitor(self.0)),
            V::StructVariant(_, _, _, fs) => acc.struct_variant(
                static_fields(fs),
                StructVisitor {
                    t: self.0,
                    fields: fs,
                },
            ),
            _ => unreachable!(),
        }
    }
}

/// Captures whatever the format offers.
pub struct AnyVisitor;
struct AnySeed;
impl<'de> DeserializeSeed<'de> for AnySeed {
    type Value = V;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        look(&d);
        d.deserialize_any(AnyVisitor)
    }
}
macro_rules! any_scalar {
    ($($m:ident $t:ty => $v:ident;)*) => {$(
        fn $m<E: de::Error>(self, x: $t) -> Result<V, E> {
            obs(|| stringify!($m).into());
            Ok(V::$v(x.into()))
        }
    )*};
}
impl<'de> Visitor<'de> for AnyVisitor {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    any_scalar! {
        visit_bool bool => Bool; visit_i8 i8 => I8; visit_i16 i16 => I16; visit_i32 i32 => I32;
        visit_i64 i64 => I64; visit_i128 i128 => I128; visit_u8 u8 => U8; visit_u16 u16 => U16;
        visit_u32 u32 => U32; visit_u64 u64 => U64; visit_u128 u128 => U128; visit_char char => Char;
        visit_str &str => Str; visit_string String => Str; visit_bytes &[u8] => Bytes;
        visit_byte_buf Vec<u8> => Bytes;
    }
    fn visit_f32<E: de::Error>(self, x: f32) -> Result<V, E> {
        Ok(V::F32(x.to_bits()))
    }
    fn visit_f64<E: de::Error>(self, x: f64) -> Result<V, E> {
        Ok(V::F64(x.to_bits()))
    }
    fn visit_none<E: de::Error>(self) -> Result<V, E> {
        Ok(V::None)
    }
    fn visit_unit<E: de::Error>(self) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        look(&d);
        Ok(V::Some(Box::new(d.deserialize_any(AnyVisitor)?)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        look(&d);
        Ok(V::NewtypeStruct("", Box::new(d.deserialize_any(AnyVisitor)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut out = Vec::new();
        while let Some(v) = a.next_element_seed(AnySeed)? {
            out.push(v);
        }
        Ok(V::Seq(true, out))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut out = Vec::new();
        while let Some(e) = a.next_entry_seed(AnySeed, AnySeed)? {
            out.push(e);
        }
        Ok(V::Map(true, out))
    }
}

// ---------------------------------------------------------------------------
// Generation

#[derive(Clone)]
pub struct Gen {
    pub hr_switch: bool,
    /// Families that may be nested.
    pub dyns: Vec<usize>,
    pub undeclared: bool,
    /// Map keys other than strings, string newtypes and unit variants.
    pub odd_keys: bool,
    /// Names no top-level field or key may have.
    pub avoid: Vec<N>,
    pub ints128: bool,
    pub big: bool,
    /// Strings and bytes that must be borrowed.
    pub refs: bool,
    /// Maps in which a key occurs more than once.
    pub repeats: bool,
}

impl Gen {
    pub fn all() -> Gen {
        Gen {
            hr_switch: true,
            dyns: vec![],
            undeclared: true,
            odd_keys: true,
            avoid: vec![],
            ints128: true,
            big: true,
            refs: false,
            repeats: false,
        }
    }
}

pub const NAMES: &[N] = &[
    "S", "Point", "Probe", "T", "type", "", "Struct", "r#struct", "Długi", "Option", "value",
    "A_rather_long_type_name_to_get_past_sixty_four_bytes_of_any_inline_buffer_0123456789",
];

pub const FIELDS: &[N] = &[
    "a", "b", "c", "x", "value", "Value", "values", "type", "Type", "type_", "typ", "types", "content",
    "Content", "tag", "kind", "", " ", "0", "1", "name", "é", "名前", "key", "zz", "zzz", "aa", "t", "tt",
    "_", "type ", "valu", "f_long_field_name_that_is_longer_than_thirty_two_bytes_for_sure",
    "f_long_field_name_that_is_longer_than_sixty_four_bytes_because_some_buffers_are_64", "f0", "f1", "f2", "f3",
    "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15", "f16", "f17", "f18", "f19",
    "f20", "f21", "f22", "f23", "f24", "f25", "f26", "f27", "f28", "f29", "f30", "f31", "f32", "f33", "f34",
    "f35", "f36", "f37", "f38", "f39", "Probe", "null", "true",
];

const LENS: &[usize] = &[
    0, 1, 2, 3, 7, 8, 15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256,
    257, 300,
];

pub fn gen_string(r: &mut Rng, big: bool) -> String {
    match r.below(12) {
        0 => (*r.pick(FIELDS)).to_owned(),
        1 => (*r.pick(VARS)).to_owned(),
        2 => {
            let n = *r.pick(LENS);
            "x".repeat(n)
        }
        3 => {
            let n = *r.pick(LENS) / 3;
            "é😀\u{0}\"\\".chars().cycle().take(n).collect()
        }
        4 if big && r.one_in(40) => {
            let n = [1000, 4095, 4096, 4097, 65535, 65536, 65537, 100_000][r.below(8)];
            (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
        }
        5 => ["true", "null", "1", "-1", "1.5", "NaN", "{}", "[]", "\u{feff}", "\r\n\t", "a b", "~", "()"]
            [r.below(13)]
        .to_owned(),
        _ => {
            let n = r.below(12);
            (0..n)
                .map(|_| match r.below(8) {
                    0 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
                    1 => char::from_u32(r.below(0x300) as u32).unwrap_or('?'),
                    _ => (b' ' + r.below(95) as u8) as char,
                })
                .collect()
        }
    }
}

fn gen_int(r: &mut Rng) -> u128 {
    match r.below(5) {
        0 => r.below(4) as u128,
        1 => {
            let b = r.below(129) as u32;
            let p = if b == 128 { u128::MAX } else { 1u128 << b };
            p.wrapping_add(r.below(3) as u128).wrapping_sub(1)
        }
        2 => {
            let b = r.below(128) as u32;
            (1u128 << b).wrapping_neg().wrapping_add(r.below(3) as u128).wrapping_sub(1)
        }
        3 => r.below(300) as u128,
        _ => ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128),
    }
}

pub fn gen_f64(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => [
            0.0, -0.0, 1.0, -1.0, 1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON,
            9007199254740991.0, 9007199254740992.0, 9007199254740993.0, 1e15, 1e16, 1e17, 1e21, 1e22, 123456789.0,
            0.1, -0.3, 1e300, 4294967296.0, 18446744073709551616.0,
        ][r.below(24)],
        1 => r.below(100) as f64,
        2 => {
            let f = f64::from_bits(r.next());
            if f.is_finite() {
                f
            } else {
                2.5
            }
        }
        3 => -(r.below(1000) as f64) / 8.0,
        _ => (r.next() >> 11) as f64 / (1u64 << 53) as f64,
    }
}

pub fn gen_f32(r: &mut Rng) -> f32 {
    match r.below(4) {
        0 => [0.0, -0.0, 1.0, f32::MAX, f32::MIN_POSITIVE, 1e-45, 16777216.0, 16777217.0, 0.1][r.below(9)],
        1 => {
            let f = f32::from_bits(r.next() as u32);
            if f.is_finite() {
                f
            } else {
                1.25
            }
        }
        _ => r.below(4096) as f32 / 16.0,
    }
}

pub fn gen_scalar(r: &mut Rng, g: &Gen) -> V {
    let i = gen_int(r);
    match r.below(17) {
        0 => V::Bool(i & 1 == 1),
        1 => V::I8(i as i8),
        2 => V::I16(i as i16),
        3 => V::I32(i as i32),
        4 => V::I64(i as i64),
        5 => {
            if g.ints128 {
                V::I128(i as i128)
            } else {
                V::I64(i as i64)
            }
        }
        6 => V::U8(i as u8),
        7 => V::U16(i as u16),
        8 => V::U32(i as u32),
        9 => V::U64(i as u64),
        10 => {
            if g.ints128 {
                V::U128(i)
            } else {
                V::U64(i as u64)
            }
        }
        11 => V::F32(gen_f32(r).to_bits()),
        12 => V::F64(gen_f64(r).to_bits()),
        13 => V::Char(
            ['a', '\0', '"', 'é', '\u{ffff}', '😀', '\u{10ffff}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}']
                [r.below(11)],
        ),
        14 => {
            let n = *r.pick(LENS);
            let n = if r.one_in(2) { n } else { r.below(6) };
            let b = (0..n).map(|_| r.next() as u8).collect();
            if g.refs && r.one_in(3) {
                V::RefBytes(b)
            } else {
                V::Bytes(b)
            }
        }
        15 if g.refs => V::Ref(gen_string(r, g.big)),
        _ => V::Str(gen_string(r, g.big)),
    }
}

fn gen_key(r: &mut Rng, g: &Gen, style: usize) -> V {
    if g.refs && style < 3 && r.one_in(2) {
        return V::Ref(if r.one_in(2) { (*r.pick(FIELDS)).to_owned() } else { gen_string(r, false) });
    }
    match style {
        0..=4 => V::Str(if r.one_in(2) { (*r.pick(FIELDS)).to_owned() } else { gen_string(r, false) }),
        5 => V::NewtypeStruct("Id", Box::new(V::Str(gen_string(r, false)))),
        6 => {
            let i = r.below(VARS.len());
            V::UnitVariant("KeyEnum", i as u32, VARS[i])
        }
        7 => V::Char((b'a' + r.below(26) as u8) as char),
        8 => V::U8(gen_int(r) as u8),
        9 => V::I64(gen_int(r) as i64),
        10 => V::Bool(r.one_in(2)),
        11 => V::NewtypeStruct("IdN", Box::new(V::U32(gen_int(r) as u32))),
        12 => V::Tuple(vec![V::U8(r.next() as u8), V::Str(gen_string(r, false))]),
        13 => V::Hr(
            Box::new(V::Str(format!("h{}", r.below(50)))),
            Box::new(V::Tuple(vec![V::U8(r.next() as u8), V::U8(r.next() as u8)])),
        ),
        _ => gen_scalar(r, g),
    }
}

fn gen_len(r: &mut Rng, g: &Gen, depth: usize) -> usize {
    if depth <= 1 && g.big && r.one_in(60) {
        [16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300][r.below(14)]
    } else {
        match r.below(8) {
            0 => 0,
            1 | 2 => 1,
            3 | 4 => 2,
            5 => 3,
            6 => r.below(6),
            _ => r.below(9),
        }
    }
}

fn gen_fields(r: &mut Rng, g: &Gen, depth: usize, n: usize) -> Vec<(N, V)> {
    let mut names: Vec<N> = FIELDS.to_vec();
    if depth == 0 {
        names.retain(|n| !g.avoid.contains(n));
    }
    r.shuffle(&mut names);
    let n = n.min(names.len());
    names.truncate(n);
    names.into_iter().map(|k| (k, gen(r, g, depth + 1))).collect()
}

/// Kinds of compound at the given depth; `depth` 0 is the concrete type itself.
pub fn gen(r: &mut Rng, g: &Gen, depth: usize) -> V {
    let lim = 4;
    if depth > lim || (depth > 0 && r.one_in(2)) {
        return gen_scalar(r, g);
    }
    let name: N = r.pick(NAMES);
    let vi = r.below(VARS.len());
    let (vi, var) = (vi as u32, VARS[vi]);
    let avoid_var = depth == 0 && g.avoid.contains(&var);
    let n = gen_len(r, g, depth);
    match r.below(if depth == 0 { 20 } else { 18 }) {
        0 => V::None,
        1 => V::Some(Box::new(gen(r, g, depth + 1))),
        2 => V::Unit,
        3 => V::UnitStruct(name),
        4 if !avoid_var => V::UnitVariant(name, vi, var),
        5 => V::NewtypeStruct(
            name,
            // Transparent for internal tagging, so it is still the top level.
            Box::new(if depth == 0 && r.one_in(2) { gen(r, g, 0) } else { gen(r, g, depth + 1) }),
        ),
        6 if !avoid_var => V::NewtypeVariant(name, vi, var, Box::new(gen(r, g, depth + 1))),
        7 | 8 => {
            let declared = !(g.undeclared && r.one_in(3));
            // Homogeneous like Vec<T>, or not.
            V::Seq(declared, (0..n).map(|_| gen(r, g, depth + 1)).collect())
        }
        9 => V::Tuple((0..n).map(|_| gen(r, g, depth + 1)).collect()),
        10 => V::TupleStruct(name, (0..n).map(|_| gen(r, g, depth + 1)).collect()),
        11 if !avoid_var => V::TupleVariant(name, vi, var, (0..n).map(|_| gen(r, g, depth + 1)).collect()),
        12 | 13 => {
            let declared = !(g.undeclared && r.one_in(3));
            let style = if g.odd_keys { r.below(15) } else { r.below(7) };
            let mut es: Vec<(V, V)> = Vec::new();
            for _ in 0..n {
                let k = match es.len() {
                    0 => gen_key(r, g, style),
                    n if g.repeats && r.one_in(2) => es[r.below(n)].0.clone(),
                    _ => gen_key(r, g, style),
                };
                let clash = depth == 0 && g.avoid.iter().any(|a| key_text(&k) == Some(a));
                if !clash && (g.repeats || !es.iter().any(|e| e.0 == k || (key_text(&k).is_some() && key_text(&e.0) == key_text(&k)))) {
                    es.push((k, gen(r, g, depth + 1)));
                }
            }
            V::Map(declared, es)
        }
        14 if !avoid_var => V::StructVariant(name, vi, var, gen_fields(r, g, depth.max(1), n)),
        15 if g.hr_switch => gen_hr(r),
        16 if !g.dyns.is_empty() => {
            let k = *r.pick(&g.dyns);
            // Inside a nested object its own tag must not clash either.
            let mut g2 = g.clone();
            g2.avoid = fams::avoid(k);
            V::Dyn(k, r.below(fams::TAGS.len()), Box::new(gen_sub(r, &g2, depth + 1)))
        }
        _ => V::Struct(name, gen_fields(r, g, depth, n)),
    }
}

fn gen_sub(r: &mut Rng, g: &Gen, depth: usize) -> V {
    if depth > 3 {
        return gen_scalar(r, g);
    }
    // Depth 0 rules (names to avoid) apply to the nested object's own top level,
    // but keep the size small.
    let mut g0 = g.clone();
    g0.big = false;
    if depth >= 2 {
        g0.dyns.clear();
    }
    gen(r, &g0, 0)
}

fn key_text(k: &V) -> Option<&str> {
    match k {
        V::Str(s) | V::Ref(s) => Some(s),
        V::NewtypeStruct(_, x) => key_text(x),
        V::UnitVariant(_, _, v) => Some(v),
        _ => None,
    }
}

/// Like IpAddr, Uuid, and so on.
pub fn gen_hr(r: &mut Rng) -> V {
    let b: Vec<u8> = (0..4).map(|_| r.next() as u8).collect();
    let text = V::Str(format!("{}.{}.{}.{}", b[0], b[1], b[2], b[3]));
    let compact = match r.below(3) {
        0 => V::Tuple(b.into_iter().map(V::U8).collect()),
        1 => V::Bytes(b),
        _ => V::U32(u32::from_be_bytes([b[0], b[1], b[2], b[3]])),
    };
    V::Hr(Box::new(text), Box::new(compact))
}

/// Every kind once, small: a deterministic sweep that random generation tops up.
pub fn zoo() -> Vec<V> {
    let i = |x: i32| V::I32(x);
    let s = |x: &str| V::Str(x.to_owned());
    let hr = || {
        V::Hr(
            Box::new(s("1.2.3.4")),
            Box::new(V::Tuple(vec![V::U8(1), V::U8(2), V::U8(3), V::U8(4)])),
        )
    };
    let leafs = vec![
        V::Bool(true),
        V::Bool(false),
        V::I8(-1),
        V::I16(-300),
        V::I32(i32::MIN),
        V::I64(i64::MIN),
        V::I128(i128::MIN),
        V::U8(255),
        V::U16(65535),
        V::U32(u32::MAX),
        V::U64(u64::MAX),
        V::U128(u128::MAX),
        V::U128(7),
        V::F32(1.5f32.to_bits()),
        V::f64(2.25),
        V::f64(3.0),
        V::Char('x'),
        s(""),
        s("odd"),
        s("even"),
        V::Bytes(vec![]),
        V::Bytes(vec![1]),
        V::Bytes(vec![1, 2]),
        V::None,
        V::Some(Box::new(i(1))),
        V::Some(Box::new(V::Unit)),
        V::Some(Box::new(V::None)),
        V::Some(Box::new(hr())),
        V::Some(Box::new(V::Struct("S", vec![("a", i(1))]))),
        V::Unit,
        V::UnitStruct("U"),
        V::UnitVariant("E", 0, "Alpha"),
        hr(),
    ];
    let mut out = leafs.clone();
    for l in &leafs {
        out.push(V::NewtypeStruct("W", Box::new(l.clone())));
        out.push(V::NewtypeVariant("E", 1, "Beta", Box::new(l.clone())));
        out.push(V::Seq(true, vec![l.clone(), l.clone()]));
        out.push(V::Tuple(vec![l.clone(), i(2)]));
        out.push(V::TupleStruct("TS", vec![i(2), l.clone()]));
        out.push(V::TupleVariant("E", 5, "Gamma", vec![l.clone(), i(3)]));
        out.push(V::Map(true, vec![(s("k"), l.clone())]));
        out.push(V::Struct("S", vec![("a", l.clone()), ("b", i(1))]));
        out.push(V::StructVariant("E", 10, "Delta", vec![("a", l.clone()), ("b", i(1))]));
        out.push(V::Some(Box::new(l.clone())));
        out.push(V::NewtypeStruct("W", Box::new(V::NewtypeStruct("W2", Box::new(l.clone())))));
        out.push(V::Some(Box::new(V::Some(Box::new(l.clone())))));
    }
    out.extend([
        V::Seq(true, vec![]),
        V::Seq(false, vec![i(1)]),
        V::Tuple(vec![]),
        V::TupleStruct("TS", vec![]),
        V::TupleVariant("E", 5, "Gamma", vec![]),
        V::Map(true, vec![]),
        V::Map(false, vec![(s("k"), i(1))]),
        V::Struct("S", vec![]),
        V::StructVariant("E", 10, "Delta", vec![]),
        V::Struct("S", vec![("only", i(1))]),
        V::Map(true, vec![(V::NewtypeStruct("Id", Box::new(s("q"))), i(1))]),
        V::Map(true, vec![(V::UnitVariant("K", 0, "Alpha"), i(1)), (V::UnitVariant("K", 1, "Beta"), i(2))]),
        V::Seq(
            true,
            vec![V::Struct("S", vec![("a", i(1)), ("m", V::Map(true, vec![(s("k"), V::Seq(true, vec![i(1)]))]))])],
        ),
    ]);
    out
}

/// Everything borrowed.
pub fn ref_zoo() -> Vec<V> {
    let i = |x: i32| V::I32(x);
    let leafs =
        [V::Ref("".into()), V::Ref("lent é".into()), V::RefBytes(vec![]), V::RefBytes(vec![0, 255, 34]), V::Some(Box::new(V::Ref("lent".into())))];
    let mut out = vec![];
    for l in leafs {
        out.push(l.clone());
        out.push(V::NewtypeStruct("W", Box::new(l.clone())));
        out.push(V::NewtypeVariant("E", 1, "Beta", Box::new(l.clone())));
        out.push(V::Seq(true, vec![l.clone(), l.clone()]));
        out.push(V::Tuple(vec![l.clone(), i(2)]));
        out.push(V::TupleStruct("TS", vec![i(2), l.clone()]));
        out.push(V::TupleVariant("E", 5, "Gamma", vec![l.clone(), i(3)]));
        out.push(V::Map(true, vec![(V::Ref("k".into()), l.clone()), (V::Ref("k2".into()), l.clone())]));
        out.push(V::Map(true, vec![(V::NewtypeStruct("Id", Box::new(V::Ref("k".into()))), i(1))]));
        out.push(V::Struct("S", vec![("a", l.clone()), ("b", i(1))]));
        out.push(V::Struct("S", vec![("a", V::Map(true, vec![(V::Ref("k".into()), V::Seq(true, vec![l.clone()]))]))]));
        out.push(V::StructVariant("E", 10, "Delta", vec![("a", l.clone()), ("b", i(1))]));
        out.push(V::Some(Box::new(l)));
    }
    out
}

pub fn deep(n: usize, style: usize) -> V {
    let mut v = V::I32(7);
    for _ in 0..n {
        v = match style {
            0 => V::Some(Box::new(v)),
            1 => V::Seq(true, vec![v]),
            2 => V::Map(true, vec![(V::Str("k".into()), v)]),
            3 => V::NewtypeStruct("W", Box::new(v)),
            4 => V::NewtypeVariant("E", 0, "Alpha", Box::new(v)),
            5 => V::Struct("S", vec![("a", v)]),
            6 => V::TupleVariant("E", 5, "Gamma", vec![v, V::Unit]),
            7 => V::StructVariant("E", 10, "Delta", vec![("a", v)]),
            _ => V::TupleStruct("T2", vec![V::Bool(true), v]),
        };
    }
    v
}

/// Names made up at run time.
fn many_names(n: usize) -> Vec<N> {
    use std::sync::OnceLock;
    static ALL: OnceLock<Vec<N>> = OnceLock::new();
    let all = ALL.get_or_init(|| (0..700).map(|i| &*Box::leak(format!("field{}", i).into_boxed_str())).collect());
    all[..n].to_vec()
}

/// Few nodes deep, and a lot of them, or large ones: on their own and inside of others.
pub fn wide() -> Vec<V> {
    let text = |n: usize| (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect::<String>();
    let bytes = |n: usize| (0..n).map(|i| (i * 7) as u8).collect::<Vec<u8>>();
    let ints = |n: usize| (0..n).map(|i| V::U32(i as u32)).collect::<Vec<V>>();
    let keyed = |n: usize| (0..n).map(|i| (V::Str(format!("key {}", i)), V::U32(i as u32))).collect::<Vec<_>>();
    let named = |n: usize| many_names(n).into_iter().enumerate().map(|(i, k)| (k, V::U16(i as u16))).collect::<Vec<_>>();
    let mut out = vec![
        V::Str(text(1025)),
        V::Str(text(8193)),
        V::Str(text(70_001)),
        V::Str("é😀\n".repeat(9000)),
        V::Bytes(bytes(1025)),
        V::Bytes(bytes(8193)),
        V::Bytes(bytes(70_001)),
        V::Seq(true, ints(1025)),
        V::Seq(false, ints(513)),
        V::Seq(true, ints(5000)),
        V::Seq(true, vec![V::Bool(true); 70_001]),
        V::Tuple(ints(600)),
        V::TupleStruct("TS", ints(600)),
        V::TupleVariant("E", 5, "Gamma", ints(600)),
        V::Map(true, keyed(1025)),
        V::Map(false, keyed(513)),
        V::Map(true, vec![(V::Str(text(70_001)), V::Unit), (V::Str("k".into()), V::Unit)]),
        V::Struct("S", named(300)),
        V::Struct("S", named(700)),
        V::StructVariant("E", 10, "Delta", named(300)),
    ];
    for v in out.clone() {
        out.push(V::Seq(true, vec![v.clone(), V::U8(1)]));
        out.push(V::Struct("S", vec![("a", v.clone()), ("b", V::U8(1))]));
        out.push(V::NewtypeVariant("E", 1, "Beta", Box::new(v)));
    }
    out
}
