//! What generated programs (C16, C19) report of what they see.
use crate::rec;
use crate::v::V;
use serde::de::DeserializeOwned;
use serde::Serialize;

fn key(v: &V) -> String {
    match v {
        V::Str(s) => s.clone(),
        v => v.show(),
    }
}

fn json<T: Serialize>(t: &T) -> String {
    serde_json::to_string(t).unwrap()
}

/// The calls at the top: kind, name, declared length, keys.
fn shape(v: &V) -> String {
    match v {
        V::Map(d, es) => json(&("map", d, es.iter().map(|e| key(&e.0)).collect::<Vec<_>>())),
        V::Struct(n, fs) => json(&("struct", n, fs.iter().map(|f| f.0).collect::<Vec<_>>())),
        v => v.kind().to_string(),
    }
}

pub fn line(case: &str, probe: &str, result: &str) {
    use std::io::Write;
    let l = serde_json::to_string(&(case, probe, result)).unwrap();
    let _ = writeln!(std::io::stdout(), "{}", l);
}

pub fn ser<T: ?Sized + Serialize>(case: &str, probe: &str, t: &T) {
    let text = match serde_json::to_string(t) {
        Ok(j) => j,
        Err(e) => format!("error: {}", e),
    };
    let (r, st) = rec::record(t, true, None);
    let mut s = match r {
        Ok(v) => shape(&v),
        Err(e) => format!("error: {}", e),
    };
    for p in st.protocol {
        s.push_str("; ");
        s.push_str(&p);
    }
    line(case, probe, &json(&(text, s)));
}

/// Read JSON and say what came.
pub fn de<T: DeserializeOwned>(case: &str, probe: &str, doc: &str, show: impl Fn(&T) -> String) {
    let r = match serde_json::from_str::<T>(doc) {
        Ok(t) => show(&t),
        Err(e) => format!("error: {}", e),
    };
    line(case, probe, &r);
}

/// Write the same with bincode, read it back, and say what came.
#[cfg(feature = "formats")]
pub fn bin<T: DeserializeOwned, U: ?Sized + Serialize>(case: &str, probe: &str, u: &U, show: impl Fn(&T) -> String) {
    let r = match bincode::serialize(u) {
        Ok(b) => match bincode::deserialize::<T>(&b) {
            Ok(t) => show(&t),
            Err(e) => format!("error: {}", e),
        },
        Err(e) => format!("write error: {}", e),
    };
    line(case, probe, &r);
}
