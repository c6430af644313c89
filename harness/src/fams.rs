//! Trait families in every tagging style, all implemented by probes that serialize
//! whatever program they hold and deserialize whatever template is current.
use crate::model::Tag;
use crate::v::{de, V};
use serde::de::{Deserialize, Deserializer};
use serde::ser::{Serialize, Serializer};
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::Mutex;

thread_local! {
    static TEMPLATES: RefCell<Vec<Rc<V>>> = const { RefCell::new(Vec::new()) };
    static BEFORE: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}

pub fn push_template(v: V) {
    TEMPLATES.with(|t| t.borrow_mut().push(Rc::new(v)));
}
pub fn clear_templates() {
    TEMPLATES.with(|t| t.borrow_mut().clear());
}
fn before() {
    let f = BEFORE.with(|b| b.borrow_mut().take());
    if let Some(mut f) = f {
        f();
        BEFORE.with(|b| {
            let mut b = b.borrow_mut();
            if b.is_none() {
                *b = Some(f);
            }
        });
    }
}
/// Run something at the moment the concrete type starts to be read or written.
pub fn set_before(f: Option<Box<dyn FnMut()>>) {
    BEFORE.with(|b| *b.borrow_mut() = f);
}

pub static TRACK: AtomicBool = AtomicBool::new(false);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static BUILT: AtomicI64 = AtomicI64::new(0);
pub static DROP_ERRORS: AtomicI64 = AtomicI64::new(0);
static IDS: Mutex<Option<HashSet<u64>>> = Mutex::new(None);

/// Lives exactly as long as the object holding it.
pub struct Guard {
    id: u64,
    tracked: bool,
}
impl Guard {
    pub fn new() -> Guard {
        if !TRACK.load(Ordering::Relaxed) {
            return Guard { id: 0, tracked: false };
        }
        LIVE.fetch_add(1, Ordering::SeqCst);
        let id = BUILT.fetch_add(1, Ordering::SeqCst) as u64;
        IDS.lock().unwrap().get_or_insert_with(HashSet::new).insert(id);
        Guard { id, tracked: true }
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        if self.tracked {
            LIVE.fetch_sub(1, Ordering::SeqCst);
            let present = IDS.lock().unwrap().get_or_insert_with(HashSet::new).remove(&self.id);
            if !present {
                DROP_ERRORS.fetch_add(1, Ordering::SeqCst);
            }
        }
    }
}

pub struct Probe<const I: usize> {
    pub v: V,
    _guard: Guard,
}
impl<const I: usize> Probe<I> {
    pub fn new(v: V) -> Self {
        Probe { v, _guard: Guard::new() }
    }
}
impl<const I: usize> Serialize for Probe<I> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        before();
        self.v.serialize(s)
    }
}
impl<'de, const I: usize> Deserialize<'de> for Probe<I> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        before();
        let t = TEMPLATES.with(|t| t.borrow().last().cloned());
        let t = t.unwrap_or_else(|| Rc::new(V::Any));
        let v = de(&t, d)?;
        Ok(Probe::new(v))
    }
}

const LONG: &str = "aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_aVeryLongTag_x";

/// Tags by probe index; the last one is replaced by one of the trait's own.
pub const TAGS: &[&str] = &[
    "Probe",
    "Probe2",
    "probe",
    "",
    "Probe ",
    "déjà-vu 名前 😀",
    LONG,
    "value",
    "a",
    "A",
    "\"q\\\n\u{0}\"",
    "0",
    "type",
    "ns::Probe",
    "::Probe",
    "Probe::",
    "Probe<crate::A, 'a>",
    "a.b/c\\d",
    " Probe",
    "PROBE",
    "r#type",
    "true",
    "null",
    "-1.5e3",
    "e\u{301}",
    "é",
    "\u{feff}Probe",
    "{}",
    "{0:?}%s",
    "pro\tbe\u{200b}",
    "a-b_c d,e;f", "OWN",
];
/// The index of that one.
const OWN: usize = 31;

macro_rules! probe {
    ($tr:ident $i:literal [$($n:tt)*]) => {
        #[typetag::serde $($n)*]
        impl $tr for Probe<$i> {
            fn which(&self) -> usize {
                $i
            }
            fn into_v(self: Box<Self>) -> V {
                self.v
            }
        }
    };
}

// One with its default name, the rest with explicit ones, literal or constant.
macro_rules! probes {
    ($tr:ident) => {
        probe!($tr 0 []);
        probe!($tr 1 [(name = "Probe2")]);
        probe!($tr 2 [(name = "probe",)]);
        probe!($tr 3 [(name = "")]);
        probe!($tr 4 [(name = TAGS[4])]);
        probe!($tr 5 [(name = TAGS[5])]);
        probe!($tr 6 [(name = LONG)]);
        probe!($tr 7 [(name = { "value" })]);
        probe!($tr 8 [(name = "a")]);
        probe!($tr 9 [(name = "A")]);
        probe!($tr 10 [(name = TAGS[10])]);
        probe!($tr 11 [(name = "0")]);
        probe!($tr 12 [(name = "type")]);
        probe!($tr 13 [(name = "ns::Probe")]);
        probe!($tr 14 [(name = "::Probe")]);
        probe!($tr 15 [(name = "Probe::")]);
        probe!($tr 16 [(name = "Probe<crate::A, 'a>")]);
        probe!($tr 17 [(name = "a.b/c\\d")]);
        probe!($tr 18 [(name = " Probe")]);
        probe!($tr 19 [(name = "PROBE")]);
        probe!($tr 20 [(name = "r#type")]);
        probe!($tr 21 [(name = "true")]);
        probe!($tr 22 [(name = "null")]);
        probe!($tr 23 [(name = "-1.5e3")]);
        probe!($tr 24 [(name = "e\u{301}")]);
        probe!($tr 25 [(name = "é")]);
        probe!($tr 26 [(name = "\u{feff}Probe")]);
        probe!($tr 27 [(name = "{}")]);
        probe!($tr 28 [(name = "{0:?}%s")]);
        probe!($tr 29 [(name = "pro\tbe\u{200b}")]);
        probe!($tr 30 [(name = "a-b_c d,e;f")]);
        probe!($tr 31 [(name = concat!("Only", stringify!($tr)))]);
    };
}

macro_rules! families {
    ($($k:literal $m:ident $tr:ident ($($style:tt)*) [$($attr:tt)*];)*) => {
        $(
            pub mod $m {
                use super::*;
                #[typetag::serde $($attr)*]
                pub trait $tr {
                    fn which(&self) -> usize;
                    fn into_v(self: Box<Self>) -> V;
                }
                probes!($tr);
                pub fn make(which: usize, v: V) -> Box<dyn $tr> {
                    match which {
                        0 => Box::new(Probe::<0>::new(v)),
                        1 => Box::new(Probe::<1>::new(v)),
                        2 => Box::new(Probe::<2>::new(v)),
                        3 => Box::new(Probe::<3>::new(v)),
                        4 => Box::new(Probe::<4>::new(v)),
                        5 => Box::new(Probe::<5>::new(v)),
                        6 => Box::new(Probe::<6>::new(v)),
                        7 => Box::new(Probe::<7>::new(v)),
                        8 => Box::new(Probe::<8>::new(v)),
                        9 => Box::new(Probe::<9>::new(v)),
                        10 => Box::new(Probe::<10>::new(v)),
                        11 => Box::new(Probe::<11>::new(v)),
                        12 => Box::new(Probe::<12>::new(v)),
                        13 => Box::new(Probe::<13>::new(v)),
                        14 => Box::new(Probe::<14>::new(v)),
                        15 => Box::new(Probe::<15>::new(v)),
                        16 => Box::new(Probe::<16>::new(v)),
                        17 => Box::new(Probe::<17>::new(v)),
                        18 => Box::new(Probe::<18>::new(v)),
                        19 => Box::new(Probe::<19>::new(v)),
                        20 => Box::new(Probe::<20>::new(v)),
                        21 => Box::new(Probe::<21>::new(v)),
                        22 => Box::new(Probe::<22>::new(v)),
                        23 => Box::new(Probe::<23>::new(v)),
                        24 => Box::new(Probe::<24>::new(v)),
                        25 => Box::new(Probe::<25>::new(v)),
                        26 => Box::new(Probe::<26>::new(v)),
                        27 => Box::new(Probe::<27>::new(v)),
                        28 => Box::new(Probe::<28>::new(v)),
                        29 => Box::new(Probe::<29>::new(v)),
                        30 => Box::new(Probe::<30>::new(v)),
                        _ => Box::new(Probe::<OWN>::new(v)),
                    }
                }
            }
        )*

        pub fn serialize<S: Serializer>(k: usize, which: usize, v: V, s: S) -> Result<S::Ok, S::Error> {
            match k {
                $($k => { let b = $m::make(which, v); Serialize::serialize(&*b, s) })*
                _ => unreachable!(),
            }
        }

        pub fn deserialize<'de, D: Deserializer<'de>>(k: usize, d: D) -> Result<(usize, V), D::Error> {
            match k {
                $($k => { let b: Box<dyn $m::$tr> = Deserialize::deserialize(d)?; Ok((b.which(), b.into_v())) })*
                _ => unreachable!(),
            }
        }

        pub struct Fam {
            pub k: usize,
            pub trait_name: &'static str,
            pub own_tag: &'static str,
            pub tag: Tag,
        }
        pub const FAMS: &[Fam] = &[
            $(Fam { k: $k, trait_name: stringify!($tr), own_tag: concat!("Only", stringify!($tr)), tag: Tag::$($style)* },)*
        ];
    };
}

families! {
    0 e0 ExtA (Ext) [];
    1 e1 ExtB (Ext) [];
    2 i0 IntType (Int("type", None)) [(tag = "type")];
    3 i1 IntEmpty (Int("", None)) [(tag = "")];
    4 i2 IntValue (Int("value", None)) [(tag = "value",)];
    5 i3 IntUni (Int("é", None)) [(tag = "é")];
    6 i4 IntLong (Int("a_rather_long_tag_field_name_that_is_longer_than_any_short_string_buffer", None)) [(tag = "a_rather_long_tag_field_name_that_is_longer_than_any_short_string_buffer")];
    7 i5 IntDefault (Int("kind", Some("Probe2"))) [(tag = "kind", default_variant = "Probe2")];
    8 a0 AdjTC (Adj("type", "value", None, false)) [(tag = "type", content = "value")];
    9 a1 AdjShort (Adj("t", "c", None, false)) [(tag = "t", content = "c")];
    10 a2 AdjPrefix (Adj("t", "tt", None, false)) [(tag = "t", content = "tt",)];
    11 a3 AdjOrder (Adj("zz", "aa", None, false)) [(tag = "zz", content = "aa")];
    12 a4 AdjEmptyTag (Adj("", "content", None, false)) [(tag = "", content = "content")];
    13 a5 AdjEmptyContent (Adj("tag", "", None, false)) [(tag = "tag", content = "")];
    14 a6 AdjDefault (Adj("t", "c", Some("Probe2"), false)) [(tag = "t", content = "c", default_variant = "Probe2")];
    15 a7 AdjDeny (Adj("t", "c", None, true)) [(tag = "t", content = "c", deny_unknown_fields)];
    16 a8 AdjDenyDefault (Adj("kind", "data", Some("a"), true)) [(tag = "kind", content = "data", deny_unknown_fields, default_variant = "a")];
    17 a9 AdjDefaultDeny (Adj("c", "t", Some(""), true)) [(tag = "c", content = "t", default_variant = "", deny_unknown_fields,)];
    18 i6 IntDefaultEmpty (Int("type", Some(""))) [(tag = "type", default_variant = "")];
    19 a10 AdjDefaultSame (Adj("x", "y", Some("value"), false)) [(tag = "x", content = "y", default_variant = "value")];
    20 i7 IntPath (Int("ns::type", None)) [(tag = "ns::type")];
    21 a11 AdjPath (Adj("@ns::type", "ns::type.value", None, false)) [(tag = "@ns::type", content = "ns::type.value")];
}

pub fn tag_of(k: usize, which: usize) -> &'static str {
    if which == OWN {
        FAMS[k].own_tag
    } else {
        TAGS[which]
    }
}

pub fn tags_of(k: usize) -> Vec<&'static str> {
    (0..TAGS.len()).map(|w| tag_of(k, w)).collect()
}

/// Names the data's own top level must not use.
pub fn avoid(k: usize) -> Vec<&'static str> {
    match FAMS[k].tag {
        Tag::Int(t, _) => vec![t],
        _ => vec![],
    }
}

pub fn of_style(p: fn(&Tag) -> bool) -> Vec<usize> {
    FAMS.iter().filter(|f| p(&f.tag)).map(|f| f.k).collect()
}
pub fn ext() -> Vec<usize> {
    of_style(|t| matches!(t, Tag::Ext))
}
pub fn int() -> Vec<usize> {
    of_style(|t| matches!(t, Tag::Int(..)))
}
pub fn adj() -> Vec<usize> {
    of_style(|t| matches!(t, Tag::Adj(..)))
}

/// Removes the current template however the deserialization ends.
pub struct Pop;
impl Drop for Pop {
    fn drop(&mut self) {
        TEMPLATES.with(|t| t.borrow_mut().pop());
    }
}
