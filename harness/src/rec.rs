//! A format that records exactly which calls it receives, as a tree, checks the
//! calling protocol, and fails at a chosen call.
use crate::v::{N, V};
use serde::ser::{self, Serialize, Serializer};
use std::cell::RefCell;
use std::fmt;

#[derive(Default, Clone, Debug)]
pub struct RecState {
    pub hr: bool,
    pub calls: u64,
    pub fail_at: Option<u64>,
    /// A failure happened, in the format or in the concrete type.
    pub failed: bool,
    pub after_failure: u64,
    pub protocol: Vec<String>,
}

thread_local! {
    static ST: RefCell<RecState> = RefCell::new(RecState::default());
}

/// The concrete type's own code failed.
pub fn note_failure() {
    ST.with(|s| s.borrow_mut().failed = true);
}

#[derive(Debug, Clone, PartialEq)]
pub struct RecError(pub String);
impl fmt::Display for RecError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for RecError {}
impl ser::Error for RecError {
    fn custom<T: fmt::Display>(m: T) -> Self {
        RecError(m.to_string())
    }
}
impl serde::de::Error for RecError {
    fn custom<T: fmt::Display>(m: T) -> Self {
        RecError(m.to_string())
    }
}

fn call() -> Result<(), RecError> {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        if s.failed {
            s.after_failure += 1;
        }
        let k = s.calls;
        s.calls += 1;
        if s.fail_at == Some(k) {
            s.failed = true;
            return Err(RecError(format!("injected failure #{} in the format\r\n\twith \"details\" {{0}}.", k)));
        }
        Ok(())
    })
}

fn protocol(m: String) {
    ST.with(|s| s.borrow_mut().protocol.push(m));
}

/// Record `value`, returning the tree and the final state.
pub fn record<T: ?Sized + Serialize>(
    value: &T,
    hr: bool,
    fail_at: Option<u64>,
) -> (Result<V, RecError>, RecState) {
    // One recording may happen inside another.
    struct Back(Option<RecState>);
    impl Drop for Back {
        fn drop(&mut self) {
            ST.with(|s| *s.borrow_mut() = self.0.take().unwrap());
        }
    }
    let new = RecState {
        hr,
        fail_at,
        ..RecState::default()
    };
    let _back = Back(Some(ST.with(|s| s.replace(new))));
    let r = value.serialize(Rec);
    let st = ST.with(|s| s.borrow().clone());
    (r, st)
}

#[derive(Clone, Copy)]
pub struct Rec;

pub struct Compound {
    kind: Kind,
    declared: Option<usize>,
    items: Vec<V>,
    fields: Vec<(N, V)>,
    entries: Vec<(V, V)>,
    key: Option<V>,
}

enum Kind {
    Seq,
    Tuple,
    TupleStruct(N),
    TupleVariant(N, u32, N),
    Map,
    Struct(N),
    StructVariant(N, u32, N),
}

fn begin(kind: Kind, declared: Option<usize>) -> Result<Compound, RecError> {
    call()?;
    Ok(Compound {
        kind,
        declared,
        items: vec![],
        fields: vec![],
        entries: vec![],
        key: None,
    })
}

impl Compound {
    fn item<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecError> {
        call()?;
        self.items.push(v.serialize(Rec)?);
        Ok(())
    }
    fn field<T: ?Sized + Serialize>(&mut self, k: N, v: &T) -> Result<(), RecError> {
        call()?;
        self.fields.push((k, v.serialize(Rec)?));
        Ok(())
    }
    fn skip(&mut self, k: N) -> Result<(), RecError> {
        call()?;
        self.fields.push((k, V::skipped()));
        Ok(())
    }
    fn finish(self) -> Result<V, RecError> {
        call()?;
        let skipped = self.fields.iter().filter(|(_, v)| v.is_skipped()).count();
        let n = self.items.len() + self.fields.len() + self.entries.len() - skipped;
        if let Some(d) = self.declared {
            if d != n {
                protocol(format!("declared length {} but {} entries were written", d, n));
            }
        }
        if self.key.is_some() {
            protocol("map ended after a key without a value".into());
        }
        let d = self.declared.is_some();
        Ok(match self.kind {
            Kind::Seq => V::Seq(d, self.items),
            Kind::Tuple => V::Tuple(self.items),
            Kind::TupleStruct(n) => V::TupleStruct(n, self.items),
            Kind::TupleVariant(n, i, v) => V::TupleVariant(n, i, v, self.items),
            Kind::Map => V::Map(d, self.entries),
            Kind::Struct(n) => V::Struct(n, self.fields),
            Kind::StructVariant(n, i, v) => V::StructVariant(n, i, v, self.fields),
        })
    }
}

impl ser::SerializeSeq for Compound {
    type Ok = V;
    type Error = RecError;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecError> {
        self.item(v)
    }
    fn end(self) -> Result<V, RecError> {
        self.finish()
    }
}
impl ser::SerializeTuple for Compound {
    type Ok = V;
    type Error = RecError;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecError> {
        self.item(v)
    }
    fn end(self) -> Result<V, RecError> {
        self.finish()
    }
}
impl ser::SerializeTupleStruct for Compound {
    type Ok = V;
    type Error = RecError;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecError> {
        self.item(v)
    }
    fn end(self) -> Result<V, RecError> {
        self.finish()
    }
}
impl ser::SerializeTupleVariant for Compound {
    type Ok = V;
    type Error = RecError;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecError> {
        self.item(v)
    }
    fn end(self) -> Result<V, RecError> {
        self.finish()
    }
}
impl ser::SerializeStruct for Compound {
    type Ok = V;
    type Error = RecError;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: N, v: &T) -> Result<(), RecError> {
        self.field(k, v)
    }
    fn skip_field(&mut self, k: N) -> Result<(), RecError> {
        self.skip(k)
    }
    fn end(self) -> Result<V, RecError> {
        self.finish()
    }
}
impl ser::SerializeStructVariant for Compound {
    type Ok = V;
    type Error = RecError;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: N, v: &T) -> Result<(), RecError> {
        self.field(k, v)
    }
    fn skip_field(&mut self, k: N) -> Result<(), RecError> {
        self.skip(k)
    }
    fn end(self) -> Result<V, RecError> {
        self.finish()
    }
}
impl ser::SerializeMap for Compound {
    type Ok = V;
    type Error = RecError;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), RecError> {
        call()?;
        if self.key.is_some() {
            protocol("two keys in a row".into());
        }
        self.key = Some(k.serialize(Rec)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecError> {
        call()?;
        let v = v.serialize(Rec)?;
        match self.key.take() {
            Some(k) => self.entries.push((k, v)),
            None => protocol("value without a key".into()),
        }
        Ok(())
    }
    fn end(self) -> Result<V, RecError> {
        self.finish()
    }
}

macro_rules! scalars {
    ($($m:ident $t:ty => $v:expr;)*) => {$(
        fn $m(self, x: $t) -> Result<V, RecError> {
            call()?;
            Ok($v(x))
        }
    )*};
}

impl Serializer for Rec {
    type Ok = V;
    type Error = RecError;
    type SerializeSeq = Compound;
    type SerializeTuple = Compound;
    type SerializeTupleStruct = Compound;
    type SerializeTupleVariant = Compound;
    type SerializeMap = Compound;
    type SerializeStruct = Compound;
    type SerializeStructVariant = Compound;

    scalars! {
        serialize_bool bool => V::Bool; serialize_i8 i8 => V::I8; serialize_i16 i16 => V::I16;
        serialize_i32 i32 => V::I32; serialize_i64 i64 => V::I64; serialize_i128 i128 => V::I128;
        serialize_u8 u8 => V::U8; serialize_u16 u16 => V::U16; serialize_u32 u32 => V::U32;
        serialize_u64 u64 => V::U64; serialize_u128 u128 => V::U128; serialize_char char => V::Char;
        serialize_str &str => |s: &str| V::Str(s.to_owned());
        serialize_bytes &[u8] => |s: &[u8]| V::Bytes(s.to_owned());
        serialize_f32 f32 => |f: f32| V::F32(f.to_bits());
        serialize_f64 f64 => |f: f64| V::F64(f.to_bits());
        serialize_unit_struct N => V::UnitStruct;
    }
    fn serialize_none(self) -> Result<V, RecError> {
        call()?;
        Ok(V::None)
    }
    fn serialize_unit(self) -> Result<V, RecError> {
        call()?;
        Ok(V::Unit)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<V, RecError> {
        call()?;
        Ok(V::Some(Box::new(v.serialize(Rec)?)))
    }
    fn serialize_unit_variant(self, n: N, i: u32, v: N) -> Result<V, RecError> {
        call()?;
        Ok(V::UnitVariant(n, i, v))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: N, v: &T) -> Result<V, RecError> {
        call()?;
        Ok(V::NewtypeStruct(n, Box::new(v.serialize(Rec)?)))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        n: N,
        i: u32,
        vn: N,
        v: &T,
    ) -> Result<V, RecError> {
        call()?;
        Ok(V::NewtypeVariant(n, i, vn, Box::new(v.serialize(Rec)?)))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Compound, RecError> {
        begin(Kind::Seq, len)
    }
    fn serialize_tuple(self, len: usize) -> Result<Compound, RecError> {
        begin(Kind::Tuple, Some(len))
    }
    fn serialize_tuple_struct(self, n: N, len: usize) -> Result<Compound, RecError> {
        begin(Kind::TupleStruct(n), Some(len))
    }
    fn serialize_tuple_variant(self, n: N, i: u32, v: N, len: usize) -> Result<Compound, RecError> {
        begin(Kind::TupleVariant(n, i, v), Some(len))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Compound, RecError> {
        begin(Kind::Map, len)
    }
    fn serialize_struct(self, n: N, len: usize) -> Result<Compound, RecError> {
        begin(Kind::Struct(n), Some(len))
    }
    fn serialize_struct_variant(self, n: N, i: u32, v: N, len: usize) -> Result<Compound, RecError> {
        begin(Kind::StructVariant(n, i, v), Some(len))
    }
    fn is_human_readable(&self) -> bool {
        ST.with(|s| s.borrow().hr)
    }
}
