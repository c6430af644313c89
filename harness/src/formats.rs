//! The real formats.
use crate::v::{Tpl, V};
use serde::de::{Deserialize, DeserializeSeed, Deserializer, MapAccess, Visitor};
use serde::ser::{Serialize, SerializeStruct, Serializer};
use std::cell::RefCell;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt {
    JsonStr,
    JsonSlice,
    JsonReader,
    JsonPretty,
    JsonValue,
    Ron,
    RonPretty,
    Cbor,
    Toml,
    Bincode,
    Postcard,
}
pub const TEXT: &[Fmt] = &[
    Fmt::JsonStr,
    Fmt::JsonSlice,
    Fmt::JsonReader,
    Fmt::JsonPretty,
    Fmt::JsonValue,
    Fmt::Ron,
    Fmt::RonPretty,
    Fmt::Cbor,
    Fmt::Toml,
];
impl Fmt {
    pub fn human(self) -> bool {
        !matches!(self, Fmt::Cbor | Fmt::Bincode | Fmt::Postcard)
    }
}
pub const BINARY: &[Fmt] = &[Fmt::Bincode, Fmt::Postcard];

#[derive(Clone, Debug, PartialEq)]
pub enum Doc {
    Bytes(Vec<u8>),
    Json(serde_json::Value),
}

impl Doc {
    pub fn show(&self) -> String {
        match self {
            Doc::Bytes(b) => match std::str::from_utf8(b) {
                Ok(s) if !s.contains('\0') => crate::ctx::clip(s, 800),
                _ => crate::ctx::clip(&format!("{:02x?}", b), 800),
            },
            Doc::Json(v) => crate::ctx::clip(&v.to_string(), 800),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Doc::Bytes(b) => b.len(),
            Doc::Json(v) => v.to_string().len(),
        }
    }
}

struct InTable<'a, T: ?Sized>(&'a T);
impl<'a, T: ?Sized + Serialize> Serialize for InTable<'a, T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut st = s.serialize_struct("Table", 1)?;
        st.serialize_field("x", self.0)?;
        st.end()
    }
}
struct FromTable<S>(S);
impl<'de, S: DeserializeSeed<'de>> DeserializeSeed<'de> for FromTable<S> {
    type Value = S::Value;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<S::Value, D::Error> {
        d.deserialize_map(self)
    }
}
impl<'de, S: DeserializeSeed<'de>> Visitor<'de> for FromTable<S> {
    type Value = S::Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a table with x")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<S::Value, A::Error> {
        let k: Option<String> = a.next_key()?;
        if k.as_deref() != Some("x") {
            return Err(serde::de::Error::missing_field("x"));
        }
        let v = a.next_value_seed(self.0)?;
        while let Some((_, _)) = a.next_entry::<String, serde::de::IgnoredAny>()? {}
        Ok(v)
    }
}

fn e(x: impl fmt::Display) -> String {
    x.to_string()
}

pub fn ser<T: ?Sized + Serialize>(f: Fmt, v: &T) -> Result<Doc, String> {
    Ok(Doc::Bytes(match f {
        Fmt::JsonStr | Fmt::JsonReader => serde_json::to_string(v).map_err(e)?.into_bytes(),
        Fmt::JsonSlice => serde_json::to_vec(v).map_err(e)?,
        Fmt::JsonPretty => serde_json::to_vec_pretty(v).map_err(e)?,
        Fmt::JsonValue => return serde_json::to_value(v).map(Doc::Json).map_err(e),
        Fmt::Ron => ron::ser::to_string(v).map_err(e)?.into_bytes(),
        Fmt::RonPretty => ron::ser::to_string_pretty(v, ron::ser::PrettyConfig::new().struct_names(true))
            .map_err(e)?
            .into_bytes(),
        Fmt::Cbor => {
            let mut b = Vec::new();
            ciborium::into_writer(v, &mut b).map_err(e)?;
            b
        }
        Fmt::Toml => toml::to_string(&InTable(v)).map_err(e)?.into_bytes(),
        Fmt::Bincode => bincode::serialize(v).map_err(e)?,
        Fmt::Postcard => postcard::to_stdvec(v).map_err(e)?,
    }))
}

/// Read the whole document; anything left over is an error.
pub fn de(f: Fmt, d: &Doc, t: &V) -> Result<V, String> {
    de_seed(f, d, Tpl(t), Some(t))
}

thread_local! {
    static CBOR: RefCell<Option<V>> = const { RefCell::new(None) };
}
struct CborV(V);
impl<'de> Deserialize<'de> for CborV {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = CBOR.with(|c| c.borrow().clone()).expect("template");
        crate::v::de(&t, d).map(CborV)
    }
}

fn text(b: &[u8]) -> Result<&str, String> {
    std::str::from_utf8(b).map_err(e)
}

fn de_seed<'de, S: DeserializeSeed<'de, Value = V>>(
    f: Fmt,
    d: &'de Doc,
    s: S,
    t: Option<&V>,
) -> Result<V, String> {
    let b: &'de [u8] = match d {
        Doc::Bytes(b) => b,
        Doc::Json(v) => {
            let before = v.clone();
            return s.deserialize(before).map_err(e);
        }
    };
    let v = match f {
        Fmt::JsonStr | Fmt::JsonPretty => {
            let mut d = serde_json::Deserializer::from_str(text(b)?);
            let v = s.deserialize(&mut d).map_err(e)?;
            d.end().map_err(e)?;
            v
        }
        Fmt::JsonSlice => {
            let mut d = serde_json::Deserializer::from_slice(b);
            let v = s.deserialize(&mut d).map_err(e)?;
            d.end().map_err(e)?;
            v
        }
        Fmt::JsonReader => {
            let mut d = serde_json::Deserializer::from_reader(std::io::Cursor::new(b));
            let v = s.deserialize(&mut d).map_err(e)?;
            d.end().map_err(e)?;
            v
        }
        Fmt::JsonValue => {
            let v: serde_json::Value = serde_json::from_slice(b).map_err(e)?;
            s.deserialize(v).map_err(e)?
        }
        Fmt::Ron | Fmt::RonPretty => {
            let mut d = ron::Deserializer::from_str(text(b)?).map_err(e)?;
            let v = s.deserialize(&mut d).map_err(e)?;
            d.end().map_err(e)?;
            v
        }
        Fmt::Cbor => {
            let old = CBOR.with(|c| c.replace(Some(t.expect("template").clone())));
            let mut rest: &[u8] = b;
            let r: Result<CborV, _> = ciborium::from_reader(&mut rest);
            CBOR.with(|c| c.replace(old));
            let v = r.map_err(e)?.0;
            if !rest.is_empty() {
                return Err(format!("{} bytes left over", rest.len()));
            }
            v
        }
        Fmt::Toml => {
            let d = toml::Deserializer::parse(text(b)?).map_err(e)?;
            FromTable(s).deserialize(d).map_err(e)?
        }
        Fmt::Bincode => {
            use bincode::Options;
            let o = bincode::DefaultOptions::new().with_fixint_encoding();
            o.deserialize_seed(s, b).map_err(e)?
        }
        Fmt::Postcard => {
            let mut d = postcard::Deserializer::from_bytes(b);
            let v = s.deserialize(&mut d).map_err(e)?;
            let rest = d.finalize().map_err(e)?;
            if !rest.is_empty() {
                return Err(format!("{} bytes left over", rest.len()));
            }
            v
        }
    };
    Ok(v)
}

/// As `de`, for a type of its own.
pub fn read<T: serde::de::DeserializeOwned>(f: Fmt, d: &Doc) -> Result<T, String> {
    let b: &[u8] = match d {
        Doc::Bytes(b) => b,
        Doc::Json(v) => return serde_json::from_value(v.clone()).map_err(e),
    };
    match f {
        Fmt::JsonStr | Fmt::JsonPretty => serde_json::from_str(text(b)?).map_err(e),
        Fmt::JsonSlice => serde_json::from_slice(b).map_err(e),
        Fmt::JsonReader => serde_json::from_reader(std::io::Cursor::new(b)).map_err(e),
        Fmt::JsonValue => serde_json::from_value(serde_json::from_slice(b).map_err(e)?).map_err(e),
        Fmt::Ron | Fmt::RonPretty => ron::from_str(text(b)?).map_err(e),
        Fmt::Cbor => {
            let mut rest: &[u8] = b;
            let t = ciborium::from_reader(&mut rest).map_err(e)?;
            if rest.is_empty() {
                Ok(t)
            } else {
                Err(format!("{} bytes left over", rest.len()))
            }
        }
        Fmt::Toml => {
            let d = toml::Deserializer::parse(text(b)?).map_err(e)?;
            FromTable(std::marker::PhantomData).deserialize(d).map_err(e)
        }
        Fmt::Bincode => {
            use bincode::Options;
            bincode::DefaultOptions::new().with_fixint_encoding().deserialize(b).map_err(e)
        }
        Fmt::Postcard => {
            let (t, rest) = postcard::take_from_bytes(b).map_err(e)?;
            if rest.is_empty() {
                Ok(t)
            } else {
                Err(format!("{} bytes left over", rest.len()))
            }
        }
    }
}
