"""C16: programs whose attributes are spelled in every documented way, and what they must print."""
import json
import random


def lit(s, r=None):
    """A Rust string literal for s, spelled in some way."""
    forms = ["plain"]
    if r is not None:
        forms += ["plain", "esc", "uni"]
        if "\n" not in s and "\r" not in s and "\0" not in s:
            forms.append("raw")
    form = r.choice(forms) if r else "plain"
    if form == "raw":
        return 'r##"%s"##' % s
    out = []
    for i, c in enumerate(s):
        o = ord(c)
        if c in '"\\':
            out.append("\\" + c)
        elif c == "\n":
            out.append("\\n")
        elif o < 32 or o == 127:
            out.append("\\x%02x" % o)
        elif form == "esc" and o < 128 and r.random() < 0.5:
            out.append("\\x%02x" % o)
        elif form == "uni" and r.random() < 0.5 or o > 0xffff:
            out.append("\\u{%x}" % o)
        else:
            out.append(c)
    return '"%s"' % "".join(out)


TYPES = r'''
#[derive(Debug{D})] pub struct Foo { pub x: u8, pub y: ::std::string::String }
#[derive(Debug{D})] pub struct Unit;
#[derive(Debug{D})] pub struct Nt(pub u8);
#[derive(Debug{D})] pub struct NtS(pub Foo);
#[derive(Debug{D})] pub struct Tup(pub u8, pub bool);
#[derive(Debug{D})] pub enum En { A, B { z: u8 }, C(u8) }
#[derive(Debug{D})] pub struct W<T> { pub w: T }
#[derive(Debug, ::serde::Serialize)] pub struct Borrow<'b> { pub b: &'b str }
pub type Al = W<u16>;
pub type F = Foo;
pub mod deep { pub mod er { #[derive(Debug{D})] pub struct Inner { pub i: i8 } } }
pub trait Out { type Out; }
impl Out for u8 { type Out = W<u32>; }
pub trait Sup {}
impl<X: ?Sized> Sup for X {}
pub trait HasName { const NAME: &'static str; }
macro_rules! ident_name { ($t:ident) => { stringify!($t) } }
pub(crate) use ident_name;
'''

# key, type as seen from ty::, default tag, kind, external data, internal entries, value expression, Debug
V = "::std::string::String::from"


def targets(T):
    """T: the path of the ty module."""
    t = T + "::"
    return [
        ("Foo", [t + "Foo"], "Foo", {"x": 3, "y": "b"}, {"x": 3, "y": "b"}, t + "Foo { x: 3, y: %s(\"b\") }" % V, 'Foo { x: 3, y: "b" }'),
        ("Unit", [t + "Unit"], "Unit", None, {}, t + "Unit", "Unit"),
        ("Nt", [t + "Nt"], "Nt", 4, {"value": 4}, t + "Nt(4)", "Nt(4)"),
        ("NtS", [t + "NtS"], "NtS", {"x": 5, "y": ""}, {"x": 5, "y": ""}, t + "NtS(%sFoo { x: 5, y: %s(\"\") })" % (t, V), 'NtS(Foo { x: 5, y: "" })'),
        ("Tup", [t + "Tup"], "Tup", [6, True], {"value": [6, True]}, t + "Tup(6, true)", "Tup(6, true)"),
        ("EnA", [t + "En"], "En", "A", {"A": None}, t + "En::A", "A"),
        ("EnB", [t + "En"], "En", {"B": {"z": 7}}, {"B": {"z": 7}}, t + "En::B { z: 7 }", "B { z: 7 }"),
        ("EnC", [t + "En"], "En", {"C": 8}, {"C": 8}, t + "En::C(8)", "C(8)"),
        ("Wu8", [t + "W<u8>", t + "W<::core::primitive::u8>"], "W", {"w": 9}, {"w": 9}, t + "W { w: 9u8 }", "W { w: 9 }"),
        ("Wvec", [t + "W<::std::vec::Vec<%sUnit>>" % t], "W", {"w": [None]}, {"w": [None]}, t + "W { w: ::std::vec![%sUnit] }" % t, "W { w: [Unit] }"),
        ("Al", [t + "Al"], "Al", {"w": 300}, {"w": 300}, t + "W { w: 300u16 }", "W { w: 300 }"),
        ("Inner", [t + "deep::er::Inner"], "Inner", {"i": -1}, {"i": -1}, t + "deep::er::Inner { i: -1 }", "Inner { i: -1 }"),
        ("u8", ["u8", "::core::primitive::u8"], "u8", 10, {"value": 10}, "10u8", "10"),
        ("bool", ["bool"], "bool", True, {"value": True}, "true", "true"),
        ("i64", ["::std::primitive::i64"], "i64", -11, {"value": -11}, "-11i64", "-11"),
        ("String", ["::std::string::String"], "String", "twelve", {"value": "twelve"}, '%s("twelve")' % V, '"twelve"'),
        ("Vec", ["::std::vec::Vec<u16>"], "Vec", [1, 3], {"value": [1, 3]}, "::std::vec![1u16, 3]", "[1, 3]"),
        ("Option", ["::core::option::Option<u8>"], "Option", 14, {"value": 14}, "::core::option::Option::Some(14u8)", "Some(14)"),
        ("BTreeMap", ["::std::collections::BTreeMap<::std::string::String, u8>"], "BTreeMap", {"k": 15, "l": 0}, {"k": 15, "l": 0},
         '::core::iter::IntoIterator::into_iter([(%s("k"), 15u8), (%s("l"), 0)]).collect::<::std::collections::BTreeMap<_, _>>()' % (V, V), '{"k": 15, "l": 0}'),
        ("Box", ["::std::boxed::Box<%sFoo>" % t], "Box", {"x": 16, "y": "z"}, {"x": 16, "y": "z"}, "::std::boxed::Box::new(%sFoo { x: 16, y: %s(\"z\") })" % (t, V), 'Foo { x: 16, y: "z" }'),
        ("pair", ["(u8, bool)"], None, [17, False], {"value": [17, False]}, "(17u8, false)", "(17, false)"),
        ("array", ["[u8; 2]", "[u8; 1 + 1]"], None, [18, 0], {"value": [18, 0]}, "[18u8, 0]", "[18, 0]"),
        ("unit", ["()"], None, None, {}, "()", "()"),
        ("qself", ["<u8 as %sOut>::Out" % t], None, {"w": 19}, {"w": 19}, t + "W { w: 19u32 }", "W { w: 19 }"),
        ("paren", ["(%sW<u64>)" % t], None, {"w": 20}, {"w": 20}, t + "W { w: 20u64 }", "W { w: 20 }"),
    ]


# Needs a default tag from the type or a name; these have the same type.
SERIALIZED_ONLY = [
    ("Gen", "<Y9: ::serde::Serialize + ::core::fmt::Debug>", "@T::W<::core::option::Option<Y9>>", "W", {"w": 21}, {"w": 21}, "@T::W { w: ::core::option::Option::Some(21u8) }", "W { w: Some(21) }"),
    ("Borrow", "<'y>", "@T::Borrow<'y>", "Borrow", {"b": "bor"}, {"b": "bor"}, "@T::Borrow { b: &*%s(\"bor\") }" % V, 'Borrow { b: "bor" }'),
    ("Ref", "<'y>", "&'y u16", None, 22, {"value": 22}, "&22u16", "22"),
    ("Slice", "<'y>", "[&'y [u8; 2]; 1]", None, [[2, 3]], {"value": [[2, 3]]}, "[&[2u8, 3]]", "[[2, 3]]"),
]
SAME = {"EnA": "En", "EnB": "En", "EnC": "En"}

NAMES = ["a", "mouse_button_down", "Foo", "", " ", "два", "with space", "quote\"d", "back\\slash", "new\nline", "tab\t", "\u0001",
         "type", "content", "value", "name", "emoji\U0001F980", "S", "0", "null", "a.b.c", "a::B", "W<u8>", "{x}", "{}", "%s",
         "very_" * 30 + "long"]
TAGS = ["type", "t", "@type", "kind of", "тип", "tag\"", "ta\\g", "$", "type\n", "", "Tag", "__type", "{}"]
CONTENTS = ["content", "c", "inner value", "содержимое", "con\"tent", "data", "{0}"]
TRAITS = ["Shape", "S", "D", "T", "Object", "__T", "Send2", "Result", "Box", "Serialize", "Tr4it", "shape", "Ünique", "Vec", "F", "E",
          "Registry", "Option", "V", "A", "Any", "Clone", "Typetag", "Trait"]
MODES = {"serde": (True, True), "serialize": (True, False), "deserialize": (False, True)}

STRUCTS = ["Box", "Result", "Option", "Some", "None", "Ok", "Err", "Vec", "String", "BTreeMap", "Registry", "DeserializeFn", "Strictest",
           "S", "D", "T", "str", "Entry", "Occupied", "Vacant", "Error", "Cow"]
TRAITSH = ["Send", "Sync", "Serialize", "Deserialize", "Serializer", "Deserializer", "Default", "Clone", "From", "Into", "Iterator",
           "IntoIterator", "Fn", "FnOnce", "Drop", "Copy", "Deref", "PartialEq", "Ord", "ToString", "AsRef"]
MODSH = ["core", "std", "alloc", "serde", "inventory", "erased_serde", "once_cell", "typetag_impl", "externally", "internally",
         "adjacently", "btree_map", "private", "ser", "de"]
# Only what the macros' own variables have been called: any other name is theirs to choose.
VALUES = ["name", "registry", "serializer", "deserializer", "map", "names", "entry", "registered"]



class Case:
    def __init__(self, id, r):
        self.id, self.r = id, r
        self.expect = {}     # probe -> function of the printed result, giving a complaint or None
        self.features = []
        self.lint = False
        self.text = self.build()
        if self.lint:
            # Refuses to compile unless the items' own attributes still say otherwise.
            self.text = "#[deny(unused_mut)]\n" + self.text

    # -- pieces ---------------------------------------------------------

    def note(self, *f):
        self.features.extend(f)

    def attr(self, args, uses):
        """The attribute, spelled in some way. `uses` collects imports."""
        r = self.r
        spell = r.choice(["plain"] * 5 + ["abs", "import", "alias", "cfg_attr", "cfg_attr_abs"])
        path = {"plain": "typetag::" + self.mode, "abs": "::typetag::" + self.mode, "cfg_attr": "typetag::" + self.mode,
                "cfg_attr_abs": "::typetag::" + self.mode, "import": "tt_" + self.mode, "alias": "tt::" + self.mode}[spell]
        if spell == "import":
            uses.add("use ::typetag::%s as tt_%s;" % (self.mode, self.mode))
        if spell == "alias":
            uses.add("use ::typetag as tt;")
        self.note("spell " + spell)
        if args:
            o, c = r.choice(["()"] * 6 + ["[]", "{}"])
            body = path + o + args + c
        else:
            form = r.choice(["", "", "", "()", "{}", "[]"])
            self.note("no args " + (form or "bare"))
            body = path + form
        if spell.startswith("cfg_attr"):
            return "#[cfg_attr(all(), %s)]" % body
        return "#[%s]" % body

    def trait_args(self):
        r = self.r
        self.style = r.choice(["ext", "int", "int", "adj", "adj", "adj"])
        self.tag, self.content, self.default, self.deny = r.choice(TAGS), r.choice(CONTENTS), False, False
        sp = lambda: r.choice([" = ", "=", "  =\n    "])
        if self.style == "ext":
            self.note("style ext")
            return ""
        parts = ["tag" + sp() + ("$tag" if self.layout == "macro" else lit(self.tag, r))]
        if self.style == "adj":
            parts.append("content" + sp() + lit(self.content, r))
        self.default = r.random() < 0.45
        rest = []
        if self.default:
            rest.append("default_variant" + sp() + "@DEFAULT@")
        if self.style == "adj" and r.random() < 0.45:
            self.deny = True
            rest.append("deny_unknown_fields")
        if r.random() < 0.5:
            rest.reverse()
        self.note("style %s%s%s%s" % (self.style, " default" if self.default else "", " deny" if self.deny else "",
                                      " reversed" if len(rest) > 1 and rest[0].startswith("deny") else ""))
        parts += rest
        comma = r.random() < 0.4
        if comma:
            self.note("trailing comma on trait")
        return r.choice([", ", ",", " ,\n    "]).join(parts) + ("," if comma else "")

    def shadows(self, taken):
        r = self.r
        out = []
        if r.random() < 0.35:
            return ""
        kinds = r.sample(["struct", "trait", "mod", "value", "fn", "method"], r.randint(1, 4))
        if r.random() < 0.1:
            kinds = ["struct", "trait", "mod", "value", "fn", "method"]
        some = lambda l: l if r.random() < 0.4 else r.sample(l, r.randint(1, len(l)))
        for k in kinds:
            self.note("shadow " + k)
            if k == "struct":
                for n in some(STRUCTS):
                    if n not in taken:
                        taken.add(n)
                        out.append(r.choice(["pub struct %s;", "pub struct %s<Q>(pub Q);", "pub enum %s {}", "pub type %s = ();"]) % n)
            elif k == "trait":
                for n in some(TRAITSH):
                    if n not in taken:
                        taken.add(n)
                        out.append("pub trait %s {}" % n)
            elif k == "mod":
                for n in some(MODSH):
                    if n not in taken:
                        taken.add(n)
                        out.append("pub mod %s {}" % n)
            elif k == "value":
                for n in some(VALUES):
                    if n not in taken:
                        taken.add(n)
                        out.append(r.choice(["pub const %s: u8 = 0;", "pub static %s: u8 = 0;", "pub struct %s;"]) % n)
            elif k == "fn":
                for n in ["typetag_name", "typetag_register", "typetag_deserialize", "serialize", "deserialize", "get_or_init", "submit"]:
                    if n not in taken:
                        taken.add(n)
                        out.append("pub fn %s() {}" % n)
            else:
                out.append("pub trait ExtMethods { fn typetag_name(&self) {} fn typetag_register(&self) {} fn serialize(&self) {} "
                           "fn deserialize(&self) {} fn erased_serialize(&self) {} fn into(&self) {} }\n"
                           "impl<Q: ?::core::marker::Sized> ExtMethods for Q {}")
        r.shuffle(out)
        return "\n".join(out) + "\n"

    def name_expr(self, k, s, defs):
        """An expression for the name s. `defs` collects items of the ty module."""
        r, T = self.r, "crate::%s::ty" % self.id
        form = r.choice(["literal"] * 4 + ["const", "path const", "assoc const", "trait const", "concat", "block", "block const",
                                           "const fn", "if", "match", "paren", "deref", "stringify", "macro", "index"])
        if form == "stringify" and not (s.isidentifier() and s.isascii() and s not in ("type", "null")):
            form = "literal"
        self.note("name " + form)
        l = lit(s, r)
        if form == "literal":
            return l
        if form == "const":
            self.consts.append("pub const NAME_%d: &'static ::core::primitive::str = %s;" % (k, l))
            return "NAME_%d" % k
        if form == "path const":
            defs.append("pub const PNAME_%d: &str = %s;" % (k, l))
            return T + "::PNAME_%d" % k
        if form == "assoc const":
            defs.append("pub struct Holder%d; impl Holder%d { pub const NAME: &'static str = %s; }" % (k, k, l))
            return T + "::Holder%d::NAME" % k
        if form == "trait const":
            defs.append("pub struct THolder%d; impl HasName for THolder%d { const NAME: &'static str = %s; }" % (k, k, l))
            return "<%s::THolder%d as %s::HasName>::NAME" % (T, k, T)
        if form == "concat":
            i = r.randint(0, len(s))
            return "::core::concat!(%s, %s)" % (lit(s[:i], r), lit(s[i:], r))
        if form == "block":
            return "{ %s }" % l
        if form == "block const":
            return "{ const X: &::core::primitive::str = %s; X }" % l
        if form == "const fn":
            defs.append("pub const fn name_%d() -> &'static str { %s }" % (k, l))
            return T + "::name_%d()" % k
        if form == "if":
            return "if 1 + 1 == 2 { %s } else { \"no\" }" % l
        if form == "match":
            return "match 3 { 4 => \"no\", _ => %s }" % l
        if form == "paren":
            return "(%s)" % l
        if form == "deref":
            return "&*%s" % l
        if form == "stringify":
            return "::core::stringify!(%s)" % s
        if form == "macro":
            defs.append("macro_rules! nm_%s_%d { () => { %s } }\npub(crate) use nm_%s_%d;" % (self.id, k, l, self.id, k))
            return T + "::nm_%s_%d!()" % (self.id, k)
        return "[\"no\", %s][1]" % l

    # -- the whole ------------------------------------------------------

    def build(self):
        r, id = self.r, self.id
        T = "crate::%s::ty" % id
        self.mode = r.choice(["serde"] * 4 + ["serialize", "deserialize"])
        ser, de = MODES[self.mode]
        self.note("mode " + self.mode)
        self.layout = r.choice(["split", "split", "one", "one", "fn", "macro", "nested fn"])
        self.note("layout " + self.layout)
        self.trait = r.choice(TRAITS)
        args = self.trait_args()
        self.consts = []
        defs = []

        # Generics only where nothing is deserialized.
        generics = dyn = ""
        gen_method = ""
        where = ""
        impl_generics = impl_args = ""
        if self.mode == "serialize" and r.random() < 0.6:
            which = r.choice(["type", "life", "const", "all", "default", "bound", "S"])
            self.note("generic trait " + which)
            generics, dyn, impl_args = {
                "type": ("<X1>", "<u8>", "<u8>"), "life": ("<'a>", "<'static>", "<'static>"), "const": ("<const N: usize>", "<3>", "<3>"),
                "all": ("<'a, X1: 'a, const N: usize>", "<'static, u8, 3>", "<'static, u8, 3>"),
                "default": ("<X1 = u8, X2: ?::core::marker::Sized = [u8]>", "", ""), "bound": ("<X1>", "<u8>", "<u8>"),
                "S": ("<S, D, T, K, V>", "<u8, u8, u8, u8, u8>", "<u8, u8, u8, u8, u8>")}[which]
            if which == "bound":
                where = " where X1: ::core::marker::Copy"
            if which == "S" and self.trait in "SDTKV":
                self.trait = "Shape"
            if r.random() < 0.4 and which in ("type", "life", "const"):
                impl_generics = {"type": "<X9>", "life": "<'z>", "const": "<const M: usize>"}[which]
                impl_args = {"type": "<X9>", "life": "<'z>", "const": "<M>"}[which]
                self.note("generic impl")

        taken = {self.trait, "S", "D", "T", "K", "V"} if generics else {self.trait}
        if r.random() < 0.5:
            sup = r.choice(["Send", "Sync", "Send + Sync", "Sync + Send", "'static", "::core::fmt::Debug", "Send + 'static",
                            T + "::Sup", T + "::Sup + Send", "::core::fmt::Debug + Sync + " + T + "::Sup"])
        else:
            sup = ""
        if generics:
            # The language cannot show that dyn Trait<'a>: 'static.
            sup = sup.replace("'static", "::core::fmt::Debug")
        self.note("supertraits " + (sup.replace(T + "::", "") or "none"))
        taken |= {"Send", "Sync"} if ("Send" in sup or "Sync" in sup) else set()
        unsafe = "unsafe " if r.random() < 0.1 else ""
        if unsafe:
            self.note("unsafe trait")
        self.vis = r.choice(["pub", "pub(crate)", "pub(in crate::%s)" % id, "pub(super)"] if self.layout == "split" else
                            ["pub", "", "pub(crate)", "pub(self)"] + (["pub(in crate::%s)" % id, "pub(super)"] if self.layout == "one" else []))
        self.note("vis " + self.vis.replace(id, "m"))

        # Types and tags.
        ts = targets(T)
        r.shuffle(ts)
        impl_of = {}
        if self.mode == "serialize" and not impl_generics and "Any" != self.trait:
            for key, g, path, dtag, data, flat, val, dbg in r.sample(SERIALIZED_ONLY, r.randint(0, 3)):
                if ("Send" in sup or "Sync" in sup or "Sup" in sup) and key == "Gen":
                    g = g.replace("Serialize +", "Serialize + ::core::marker::Send + ::core::marker::Sync +")
                if "'static" in sup:
                    continue
                impl_of[key] = g
                ts.insert(0, (key, [path.replace("@T", T)], dtag, data, flat, val.replace("@T", T), dbg))
                self.note("impl for " + key)
        chosen, types, tags = [], set(), {}
        for t in ts:
            if len(chosen) >= r.choice([2, 4, 5, 6, 8]):
                break
            key, paths, dtag, data, flat, val, dbg = t
            if SAME.get(key, key) in types or key == "qself" and "paren" in types:
                continue
            if self.style == "int" and self.tag in flat:
                continue
            named = dtag is None or r.random() < 0.5
            tag = r.choice(NAMES) if named else dtag
            if tag in tags:
                continue
            types.add(SAME.get(key, key))
            tags[tag] = key
            chosen.append((key, r.choice(paths), tag, named, data, flat, val, dbg))
        if self.default:
            c = r.choice(chosen)
            self.dflt = c
            d = c[2] if r.random() < 0.85 else None
            self.dflt_known = d is not None
            if d is None:
                d = "not registered"
            args = args.replace("@DEFAULT@", lit(d, r))
            self.default_tag = d

        # Methods of the trait.
        sized_ok = "Sized" not in taken
        methods = ["fn show(&self) -> ::std::string::String;"]
        extra_impl = []
        if r.random() < 0.3:
            methods.append("fn extra(&self) -> u8 { 7 }")
            self.note("default method")
        if r.random() < 0.3:
            methods.append("fn generic<Q>(&self, _q: Q) where Self: ::core::marker::Sized {}")
        if r.random() < 0.3 and sized_ok:
            methods.append("type Assoc where Self: Sized;")
            extra_impl.append("type Assoc = u8;")
            self.note("associated type where Self: Sized")
        if r.random() < 0.2:
            methods.append("fn serialize(&self) -> u8 { 1 } fn deserialize(&self) -> u8 { 2 } fn name(&self) {} fn type_name(&self) {}")
            self.note("methods named serialize, deserialize, name")
        if r.random() < 0.2:
            methods.append("fn make() -> u8 where Self: ::core::marker::Sized { 3 }")
        if r.random() < 0.2:
            methods.append("#[cfg(any())] fn gone(&self);")
            methods.append("#[doc(hidden)] unsafe fn risky(&self) {}")
        if "<X1" in generics or "<'a, X1" in generics:
            methods.append("fn takes(&self, _x: &X1) {}")
        r.shuffle(methods)
        if r.random() < 0.2:
            methods.insert(0, "#![allow(unused)]")   # an inner attribute
            self.note("inner attribute")

        def lint(items, where_clause=""):
            """Code that only compiles because of an attribute on the item: (before, after, items)"""
            if r.random() > 0.25:
                return "", "", items
            self.lint = True
            where = r.choice(["before", "after", "inside", "inside"])
            self.note("lint attribute " + where)
            item = "fn lenient(&self) -> ::core::primitive::bool%s { let mut unneeded = true; unneeded }" % where_clause
            i = r.randrange(len(items) + 1) if not items or not items[0].startswith("#!") else len(items)
            items = items[:i] + [item] + items[i:]
            if where == "inside":
                items = [r.choice(["#![allow(unused_mut)]", "#![cfg_attr(all(), allow(unused_mut))]"])] + items
            a = "#[allow(unused_mut)]\n"
            return a if where == "before" else "", a if where == "after" else "", items

        lint_before, lint_after, methods = lint(methods, r.choice(["", " where Self: ::core::marker::Sized"]))
        before = r.choice(["", "", "/// Documented.\n", "#[allow(dead_code)]\n", "#[doc = \"x\"] #[must_use]\n", "#[cfg_attr(all(), doc = \"y\")]\n"])
        after = r.choice(["", "", "/// Documented after.\n", "#[allow(non_camel_case_types)]\n", "#[deprecated]\n", "#[cfg(all())]\n",
                          "/** block */\n"])
        if before or after:
            self.note("other attributes on trait")
        suptext = (": " + sup) if sup else r.choice(["", "", ":"])

        uses_t = set()
        head = self.attr(args, uses_t)
        trait_body = "%s%strait %s%s%s%s {\n    %s\n}" % (
            "", unsafe, "$trait" if self.layout == "macro" else self.trait, generics, suptext, where, "\n    ".join(methods))
        before, after = lint_before + before, after + lint_after
        trait_src = before + head + "\n" + after + (("$vis " if self.layout == "macro" else self.vis + " ")) + trait_body

        # The impls.
        uses_i = set()
        impls = []
        trait_path_base = {"split": "crate::%s::tr::%s" % (id, self.trait), "one": "crate::%s::all::%s" % (id, self.trait)}.get(self.layout, self.trait)
        for k, (key, path, tag, named, data, flat, val, dbg) in enumerate(chosen):
            a = ""
            if named:
                a = "name%s%s%s" % (r.choice([" = ", "="]), self.name_expr(k, tag, defs), r.choice(["", "", ",", " ,"]))
            ig = impl_of.get(key, impl_generics)
            ub = r.choice(["", "", "/// On the impl.\n", "#[allow(clippy::all)]\n"])
            ua = r.choice(["", "", "#[allow(dead_code)]\n", "#[cfg(all())]\n"])
            tp = r.choice([trait_path_base, self.trait]) if self.layout in ("split", "one") else self.trait
            if tp == self.trait and self.layout == "split":
                uses_i.add("use crate::%s::tr::%s;" % (id, self.trait))
            body = "fn show(&self) -> ::std::string::String { ::std::format!(%s, self) }" % lit("%s {:?}" % key)
            how = r.choice(["plain"] * 5 + ["ty", "ty and path", "ident", "name expr", "name literal", "tt", "whole"])
            lint_before, lint_after, items = ("", "", extra_impl + [body])
            if "fn lenient" in trait_body:
                lint_before, lint_after, items = lint(items)
                ub, ua = lint_before + ub, ua + lint_after
            items = " ".join(items)
            attr = self.attr(a, uses_i)
            src = "%s%s\n%s%simpl%s %s%s for %s { %s }" % (ub, attr, ua, unsafe, ig, tp, impl_args, path, items)
            m = "mk_%s_%d" % (id, k)
            if ig:
                how = "plain"
            if how == "ty":
                src = "macro_rules! %s { ($t:ty) => { %s } }\n%s!(%s);" % (m, src.replace(" for %s {" % path, " for $t {"), m, path)
            elif how == "ty and path" and not impl_args:
                src = "macro_rules! %s { ($p:path, $t:ty) => { %s } }\n%s!(%s, %s);" % (
                    m, src.replace(" %s for %s {" % (tp, path), " $p for $t {"), m, tp, path)
            elif how == "name expr" and named:
                n = a.split("=", 1)[1].rstrip(" ,").strip()
                src = "macro_rules! %s { ($n:expr) => { %s } }\n%s!(%s);" % (m, src.replace(a, "name = $n"), m, n)
            elif how == "name literal" and named:
                src = "macro_rules! %s { ($n:literal) => { %s } }\n%s!(%s);" % (m, src.replace(a, "name = $n,"), m, lit(tag, r))
            elif how == "tt":
                src = "macro_rules! %s { ($($t:tt)*) => { %s } }\n%s!(%s);" % (m, src.replace(" for %s {" % path, " for $($t)* {"), m, path)
            elif how == "whole":
                src = "macro_rules! %s { ($i:item) => { $i } }\n%s! { %s }" % (m, m, src)
            else:
                how = "plain"
            self.note("impl written " + how)
            impls.append(src)
        r.shuffle(impls)

        # The probes.
        obj = "dyn " + (trait_path_base if self.layout != "macro" else self.trait) + dyn
        probes = []
        P = lambda n: "%s" % lit(n)
        C = lit(id)
        show = "|o| o.show()"
        boxed = "::std::boxed::Box<%s>" % obj
        bare = obj.replace("dyn ", "", 1)

        def doc(c, order=False):
            key, path, tag, named, data, flat, val, dbg = c
            if self.style == "ext":
                return {tag: data}
            if self.style == "int":
                d = [(self.tag, tag)] + list(flat.items())
            else:
                d = [(self.tag, tag), (self.content, data)]
            if order:
                d.reverse()
            return dict(d)

        J = lambda d: lit(json.dumps(d, ensure_ascii=False))
        for c in chosen:
            key, path, tag, named, data, flat, val, dbg = c
            want_show = "%s %s" % (key, dbg)
            if ser:
                m = r.choice(["", "", " + ::core::marker::Send", " + ::core::marker::Sync", " + ::core::marker::Send + ::core::marker::Sync"])
                probes.append("{ let o: &(%s%s) = &%s; ::tt_harness::obs::ser(%s, %s, o); }" % (obj, m, val, C, P("ser " + key)))
                w = doc(c)
                if self.style == "ext":
                    shape = ["map", True, [tag]]
                elif self.style == "int":
                    shape = ["map", True, list(w)]
                else:
                    shape = ["struct", self.trait, [self.tag, self.content]]
                self.expect["ser " + key] = ("ser", w, shape)
            if de:
                probes.append("::tt_harness::obs::de::<%s>(%s, %s, %s, %s);" % (boxed, C, P("de " + key), J(doc(c)), show))
                self.expect["de " + key] = ("eq", want_show)
                if self.style != "ext":
                    probes.append("::tt_harness::obs::de::<%s>(%s, %s, %s, %s);" % (boxed, C, P("de reversed " + key), J(doc(c, True)), show))
                    self.expect["de reversed " + key] = ("eq", want_show)
                wrong = dict(doc(c))
                bad = tag + "x"
                if bad not in tags:
                    wrong = {bad: data} if self.style == "ext" else dict(wrong, **{self.tag: bad})
                    probes.append("::tt_harness::obs::de::<%s>(%s, %s, %s, %s);" % (boxed, C, P("de unknown " + key), J(wrong), show))
                    self.expect["de unknown " + key] = ("err", [bad] + sorted(tags))
            if ser and de:
                probes.append("{ let o: &%s = &%s; ::tt_harness::obs::bin::<%s, _>(%s, %s, o, %s); }" % (obj, val, boxed, C, P("bin " + key), show))
                self.expect["bin " + key] = ("eq", want_show)
            if de and self.style == "adj":
                x = dict(doc(c), **{"an extra field": 1})
                probes.append("::tt_harness::obs::de::<%s>(%s, %s, %s, %s);" % (boxed, C, P("de extra " + key), J(x), show))
                self.expect["de extra " + key] = ("err", ["an extra field"]) if self.deny else ("eq", want_show)
        if de and self.style != "ext":
            if self.default:
                key, path, tag, named, data, flat, val, dbg = self.dflt
                d = dict(flat) if self.style == "int" else {self.content: data}
                want = ("eq", "%s %s" % (key, dbg)) if self.dflt_known else ("err", [self.default_tag])
            else:
                d = {} if self.style == "int" else {self.content: None}
                want = ("err", [self.tag])
            probes.append("::tt_harness::obs::de::<%s>(%s, %s, %s, %s);" % (boxed, C, P("de without tag"), J(d), show))
            self.expect["de without tag"] = want
        if de and ("Send" in sup or "Sync" in sup) and not generics:
            c = chosen[0]
            for marks in [["Send"], ["Sync"], ["Send", "Sync"]]:
                if all(m in sup for m in marks):
                    n = "de as " + "+".join(marks)
                    probes.append("::tt_harness::obs::de::<::std::boxed::Box<%s + %s>>(%s, %s, %s, %s);" % (
                        obj, " + ".join("::core::marker::" + m for m in marks), C, P(n), J(doc(c)), show))
                    self.expect[n] = ("eq", "%s %s" % (c[0], c[-1]))
        r.shuffle(probes)

        derive = {"serde": ", ::serde::Serialize, ::serde::Deserialize", "serialize": ", ::serde::Serialize", "deserialize": ", ::serde::Deserialize"}[self.mode]
        ty = "pub mod ty {\n%s\n%s\n}" % (TYPES.replace("{D}", derive), "\n".join(defs))
        consts = "\n".join(self.consts)
        probes_src = "\n    ".join(probes)
        use = lambda s: "\n".join(sorted(s))
        if self.layout == "split":
            return ("pub mod %s {\n%s\npub mod tr {\n%s\n%s%s\n}\npub mod im {\n%s\n%s%s\n%s\n}\npub fn run() {\n    use tr::%s as _;\n    %s\n}\n}\n" % (
                id, ty, use(uses_t), self.shadows(set(taken)), trait_src, use(uses_i), self.shadows(taken | {self.trait}), consts, "\n".join(impls),
                self.trait, probes_src))
        if self.layout == "one":
            parts = [trait_src] + impls
            r.shuffle(parts)
            return "pub mod %s {\n%s\npub mod all {\n%s\n%s%s\n%s\npub fn run() {\n    %s\n}\n}\npub fn run() { all::run() }\n}\n" % (
                id, ty, use(uses_t | uses_i), self.shadows(taken), consts, "\n".join(parts), probes_src)
        if self.layout == "macro":
            trait_src = "macro_rules! mkt_%s { ($vis:vis $trait:ident $tag:literal) => { %s } }\nmkt_%s!(%s %s %s);" % (
                id, trait_src, id, self.vis, self.trait, lit(self.tag, r))
            return "pub mod %s {\n%s\npub mod all {\n%s\n%s%s\n%s\n%s\npub fn run() {\n    %s\n}\n}\npub fn run() { all::run() }\n}\n" % (
                id, ty, use(uses_t | uses_i), self.shadows(taken), consts, trait_src, "\n".join(impls), probes_src)
        inner = "%s\n%s%s\n%s\n%s" % (use(uses_t | uses_i), self.shadows(taken), consts, trait_src, "\n".join(impls))
        if self.layout == "fn":
            return "pub mod %s {\n%s\npub fn run() {\n%s\n    %s\n}\n}\n" % (id, ty, inner, probes_src)
        return ("pub mod %s {\n%s\npub struct Outer;\nimpl Outer { pub fn go(&self) {\n let f = || { {\n%s\n    %s\n} };\n f() } }\npub fn run() { Outer.go() }\n}\n" % (
            id, ty, inner, probes_src))

    # -- the oracle -----------------------------------------------------

    def complaint(self, probe, got):
        want = self.expect[probe]
        if want[0] == "eq":
            return None if got == want[1] else "expected %r" % want[1]
        if want[0] == "err":
            if not got.startswith("error: "):
                return "expected an error"
            for s in want[1]:
                # messages may quote
                if s not in got and json.dumps(s, ensure_ascii=False)[1:-1] not in got and lit(s)[1:-1] not in got:
                    return "expected an error naming %r" % s
            return None
        text, shape = json.loads(got)
        pairs = lambda ps: [(k, v) for k, v in ps]
        try:
            g = json.loads(text, object_pairs_hook=pairs)
        except ValueError:
            return "expected %r" % (want[1],)
        w = json.loads(json.dumps(want[1]), object_pairs_hook=pairs)
        if g != w:
            return "expected the document %s" % json.dumps(want[1], ensure_ascii=False)
        try:
            s = json.loads(shape)
        except ValueError:
            s = shape
        if s != want[2]:
            return "expected the calls %s" % json.dumps(want[2], ensure_ascii=False)
        return None


def whole(cases):
    src = "#![allow(warnings)]\n#![recursion_limit = \"256\"]\n" + "\n".join(c.text for c in cases)
    return src + "\nfn main() {\n" + "\n".join("    %s::run();" % c.id for c in cases) + "\n}\n"


def program(seed, n, first):
    cases = [Case("c%d" % (first + i), random.Random((seed << 20) + first + i)) for i in range(n)]
    return whole(cases), cases
