"""C18: programs that must not compile, each beside the one that differs only in being right."""

PRE = """
#[derive(Debug, ::serde::Serialize, ::serde::Deserialize)] pub struct Foo { pub x: u8 }
#[derive(Debug, ::serde::Serialize, ::serde::Deserialize)] pub struct Bar;
#[derive(Debug, ::serde::Serialize, ::serde::Deserialize)] pub struct W<T> { pub w: T }
#[derive(Debug, ::serde::Serialize)] pub struct OnlySer;
#[derive(Debug, ::serde::Deserialize)] pub struct OnlyDe;
#[derive(Debug)] pub struct Neither;
#[derive(Debug, ::serde::Serialize, ::serde::Deserialize)] pub struct Borrowed<'a> { pub s: &'a str }
#[derive(Debug, ::serde::Serialize, ::serde::Deserialize)] pub struct NotSend { #[serde(skip)] p: Option<std::rc::Rc<u8>> }
#[derive(Debug, ::serde::Serialize, ::serde::Deserialize)] pub struct NotSync { #[serde(skip)] p: std::cell::Cell<u8> }
pub trait Plain {}
pub trait Assoc { type Out; }
impl Assoc for u8 { type Out = Foo; }
pub const NAME: &str = "name";
pub const NUMBER: u32 = 3;
pub fn runtime() -> &'static str { "runtime" }
pub fn read<T: ::serde::de::DeserializeOwned>() {}
pub fn write<T: ?Sized + ::serde::Serialize>() {}
"""

STYLES = {
    "ext": "", "int": '(tag = "type")', "int default": '(tag = "type", default_variant = "Foo")',
    "adj": '(tag = "t", content = "c")', "adj default": '(tag = "t", content = "c", default_variant = "Foo")',
    "adj deny": '(tag = "t", content = "c", deny_unknown_fields)',
}
MODES = ["serde", "serialize", "deserialize"]


def programs():
    """[(id, bad, good)]"""
    out = []

    def add(id, bad, good):
        assert bad != good, id
        out.append((id, bad, good))

    def styles(some):
        return STYLES if some else {"ext": STYLES["ext"], "int": STYLES["int"], "adj": STYLES["adj"]}

    for m in MODES:
        de, ser = m != "serialize", m != "deserialize"
        for sn, st in STYLES.items():
            t = "#[typetag::%s%s] " % (m, st)
            i = "#[typetag::%s] " % m
            k = "%s %s: " % (m, sn)
            good = t + "trait Tr {} " + i + "impl Tr for Foo {}"
            # Traits.
            add(k + "associated const", t + "trait Tr { const X: u8; }", t + "trait Tr { fn x(&self) -> u8; }")
            add(k + "associated const with a value, after a method", t + "trait Tr { fn f(&self); const X: u8 = 1; }", t + "trait Tr { fn f(&self); fn x(&self) -> u8 { 1 } }")
            add(k + "associated type", t + "trait Tr { type X; }", t + "trait Tr { type X where Self: Sized; }")
            add(k + "associated type bounded otherwise", t + "trait Tr { type X: Clone; }", t + "trait Tr { type X: Clone where Self: Sized; }")
            add(k + "second associated type", t + "trait Tr { type Y where Self: Sized; type X; }", t + "trait Tr { type Y where Self: Sized; type X where Self: Sized; }")
            add(k + "associated type where another is sized", t + "trait Tr { type X<T> where T: Sized; }", t + "trait Tr { type X<T> where Self: Sized; }")
            if de:
                for g, a in [("<T>", "T"), ("<'a>", "lifetime"), ("<const N: usize>", "const"), ("<T = u8>", "default")]:
                    add(k + "generic trait, " + a, t + "trait Tr%s {}" % g, t.replace(m, "serialize") + "trait Tr%s {}" % g)
            else:
                add(k + "generic impl without the bound", t + "trait Tr {} " + i + "impl<T> Tr for W<T> {}", t + "trait Tr {} " + i + "impl<T: ::serde::Serialize> Tr for W<T> {}")
            if de:
                tr = t + "trait Tr {} "
                add(k + "generic impl, type", tr + i + "impl<T: ::serde::Serialize + ::serde::de::DeserializeOwned + 'static> Tr for W<T> {}", tr + i + "impl Tr for W<u8> {}")
                add(k + "generic impl, lifetime", tr + i + "impl<'a> Tr for Borrowed<'a> {}", tr + i + "impl Tr for W<String> {}")
                add(k + "generic impl, const", tr + i + "impl<const N: usize> Tr for W<std::marker::PhantomData<[u8; N]>> {}", tr + i + "impl Tr for W<std::marker::PhantomData<[u8; 3]>> {}")
                add(k + "generic impl with a name", tr + i.replace("]", '(name = "w")]') + "impl<T> Tr for W<T> where T: ::serde::Serialize + ::serde::de::DeserializeOwned + 'static {}",
                    tr + i.replace("]", '(name = "w")]') + "impl Tr for W<u8> {}")
                add(k + "borrowing impl", tr + i + "impl Tr for Borrowed<'static> {}", tr + i + "impl Tr for W<&'static u8> {}".replace("&'static u8", "u8"))
            # Impls.
            add(k + "impl without the attribute", t + "trait Tr {} impl Tr for Foo {}", good)
            add(k + "one impl of two without the attribute", t + "trait Tr {} " + i + "impl Tr for Bar {} impl Tr for Foo {}", t + "trait Tr {} " + i + "impl Tr for Bar {} " + i + "impl Tr for Foo {}")
            for o in MODES:
                if o != m:
                    add(k + "impl with the attribute of " + o, t + "trait Tr {} #[typetag::%s] impl Tr for Foo {}" % o, good)
            add(k + "impl of a trait without the attribute", "trait Tr {} " + i + "impl Tr for Foo {}", good)
            add(k + "impl with the trait's arguments", t + "trait Tr {} #[typetag::%s(tag = \"type\")] impl Tr for Foo {}" % m, good)
            if ser:
                add(k + "type not serializable", t + "trait Tr {} " + i + "impl Tr for OnlyDe {}", good)
                add(k + "type neither", t + "trait Tr {} " + i + "impl Tr for Neither {}", good)
            if de:
                add(k + "type not deserializable", t + "trait Tr {} " + i + "impl Tr for OnlySer {}", good)
                add(k + "instantiation not deserializable", t + "trait Tr {} " + i + "impl Tr for W<OnlySer> {}", t + "trait Tr {} " + i + "impl Tr for W<Foo> {}")
            # Pointers.
            ts = {"": "trait Tr {}", "Send": "trait Tr: Send {}", "Sync": "trait Tr: Sync {}", "Send + Sync": "trait Tr: Send + Sync {}", "Debug + Send": "trait Tr: std::fmt::Debug + Send {}"}
            if de:
                for sup, decl in ts.items():
                    for want in ["Send", "Sync", "Send + Sync"]:
                        if all(w in sup for w in want.split(" + ")):
                            continue
                        use = " pub fn go() { read::<%s>() }"
                        add(k + "read as Box<dyn Tr + %s> of %s" % (want, sup or "no supertraits"), t + decl + use % ("Box<dyn Tr + %s>" % want), t + decl + use % "Box<dyn Tr>")
                        add(k + "read as Vec<Arc<dyn Tr + %s>> of %s" % (want, sup or "no supertraits"), t + decl + use % ("Vec<std::sync::Arc<dyn Tr + %s>>" % want), t + decl + use % "Vec<std::sync::Arc<dyn Tr>>")
            else:
                add(k + "reading", t + "trait Tr {} pub fn go() { read::<Box<dyn Tr>>() }", t + "trait Tr {} pub fn go() { write::<Box<dyn Tr>>() }")
                add(k + "reading in a struct", t + "trait Tr {} #[derive(::serde::Serialize, ::serde::Deserialize)] struct H { b: Option<Box<dyn Tr>> }", t + "trait Tr {} #[derive(::serde::Serialize)] struct H { b: Option<Box<dyn Tr>> }")
            if not ser:
                add(k + "writing", t + "trait Tr {} pub fn go() { write::<Box<dyn Tr>>() }", t + "trait Tr {} pub fn go() { read::<Box<dyn Tr>>() }")
                add(k + "writing with markers", t + "trait Tr: Send {} pub fn go() { write::<dyn Tr + Send>() }", t + "trait Tr: Send {} pub fn go() { read::<Box<dyn Tr + Send>>() }")
            add(k + "type that is not Send", t + "trait Tr: Send {} " + i + "impl Tr for NotSend {}", t + "trait Tr {} " + i + "impl Tr for NotSend {}")
            add(k + "type that is not Sync", t + "trait Tr: Send + Sync {} " + i + "impl Tr for NotSync {}", t + "trait Tr: Send {} " + i + "impl Tr for NotSync {}")

        # Items and impls, whatever the style.
        k = m + ": "
        t = "#[typetag::%s] " % m
        tr = t + "trait Tr {} "
        good = tr + t + "impl Tr for Foo {}"
        items = {
            "inherent impl": "impl Foo {}", "inherent impl with methods": "impl Foo { pub fn f(&self) {} }", "struct": "pub struct A;", "enum": "pub enum A { B }",
            "function": "fn f() {}", "module": "mod a {}", "const": "const A: u8 = 1;", "static": "static A: u8 = 1;", "type": "type A = u8;", "use": "use std::fmt as f;",
            "union": "union A { b: u8 }", "macro": "macro_rules! m { () => {} }", "extern block": 'extern "C" {}', "unsafe function": "unsafe fn f() {}", "generic inherent impl": "impl<T> W<T> {}",
        }
        for n, it in items.items():
            add(k + "on " + n, t + it, it)
        add(k + "associated const in the impl", "pub trait Tr { const X: u8; } " + t + "impl Tr for Foo { const X: u8 = 1; }", "pub trait Tr { const X: u8; } impl Tr for Foo { const X: u8 = 1; }")
        add(k + "associated const in the impl, after a method", tr + t + "impl Tr for Foo { fn f(&self) {} const X: u8 = 1; }", tr.replace("{}", "{ fn f(&self); }") + t + "impl Tr for Foo { fn f(&self) {} }")
        unnamed = {"tuple": "(u8, u8)", "unit": "()", "array": "[u8; 2]", "pointer": "*const u8", "function pointer": "fn()", "projection": "<u8 as Assoc>::Out", "parenthesized": "(Foo)",
                   "parenthesized path": "(std::string::String)", "nested tuple": "((u8,), Foo)"}
        if not de:
            unnamed.update({"reference": "&'static u8", "slice reference": "&'static [u8]"})
        for n, ty in unnamed.items():
            if "pointer" in n:
                add(k + "unnamed " + n, tr + t + "impl Tr for %s {}" % ty, good)
            else:
                add(k + "unnamed " + n, tr + t + "impl Tr for %s {}" % ty, tr + "#[typetag::%s(name = \"n\")] impl Tr for %s {}" % (m, ty))

        add(k + "attribute twice on the trait", t + tr, tr)
        add(k + "attribute twice on the impl", tr + t + t + "impl Tr for Foo {}", good)
        add(k + "trait not dyn-compatible, generic method", t + "trait Tr { fn g<Q>(&self, q: Q); }", t + "trait Tr { fn g<Q>(&self, q: Q) where Self: Sized; }")
        add(k + "trait not dyn-compatible, Self", t + "trait Tr { fn g() -> Self; }", t + "trait Tr { fn g() -> Self where Self: Sized; }")
        add(k + "method missing in the impl", t + "trait Tr { fn g(&self); } " + t + "impl Tr for Foo {}", t + "trait Tr { fn g(&self); } " + t + "impl Tr for Foo { fn g(&self) {} }")
        add(k + "two impls for one type", good + t + "impl Tr for Foo {}", good + t + "impl Tr for Bar {}")
        add(k + "two impls for one type under different names", good + "#[typetag::%s(name = \"other\")] impl Tr for Foo {}" % m, good + "#[typetag::%s(name = \"other\")] impl Tr for Bar {}" % m)

        # Arguments on the trait.
        args = {
            'tag': 'tag = "t"', 'tag =': 'tag = "t"', 'tag "t"': 'tag = "t"', 'tag = t': 'tag = "t"', 'tag = 1': 'tag = "1"', "tag = 't'": 'tag = "t"', 'tag = b"t"': 'tag = "t"',
            'tag = NAME': 'tag = "t"', 'tag = concat!("t")': 'tag = "t"', 'tag("t")': 'tag = "t"', 'tag: "t"': 'tag = "t"', 'tag == "t"': 'tag = "t"', 'tags = "t"': 'tag = "t"', 'Tag = "t"': 'tag = "t"',
            '"tag" = "t"': 'tag = "t"', '"t"': 'tag = "t"', ',': '', ', tag = "t"': 'tag = "t"', 'tag = "t",,': 'tag = "t",', 'tag = "t" "u"': 'tag = "t"', 'tag = "t"; ': 'tag = "t",',
            'tag = "t", tag = "t"': 'tag = "t"', 'tag = "t", tag = "u"': 'tag = "t", content = "u"', 'tag = "t", name = "n"': 'tag = "t"', 'name = "n"': '', 'name = "n", tag = "t"': 'tag = "t"', 'rename = "n"': '', 'untagged': '',
            'content = "c"': 'tag = "t", content = "c"', 'content = "c", tag = "t"': 'tag = "t", content = "c"', 'tag = "t" content = "c"': 'tag = "t", content = "c"', 'tag = "t", content': 'tag = "t"',
            'tag = "t", content = c': 'tag = "t", content = "c"', 'tag = "t", content = NAME': 'tag = "t", content = "c"', 'tag = "t", contents = "c"': 'tag = "t", content = "c"',
            'tag = "t", content = "c", content = "d"': 'tag = "t", content = "c"', 'tag = "t", content = "c", tag = "u"': 'tag = "t", content = "c"', 'tag = "t", content = "c", name = "n"': 'tag = "t", content = "c"',
            'default_variant = "d"': 'tag = "t", default_variant = "d"', 'default_variant = "d", tag = "t"': 'tag = "t", default_variant = "d"', 'tag = "t", default_variant': 'tag = "t"', 'tag = "t", default_variant = d': 'tag = "t", default_variant = "d"',
            'tag = "t", default_variant = NAME': 'tag = "t", default_variant = "name"', 'tag = "t", default_variant("d")': 'tag = "t", default_variant = "d"', 'tag = "t", default = "d"': 'tag = "t", default_variant = "d"',
            'tag = "t", default_variant = "d", default_variant = "d"': 'tag = "t", default_variant = "d"', 'tag = "t", default_variant = "d",,': 'tag = "t", default_variant = "d",', 'tag = "t", default_variant = "d" x': 'tag = "t", default_variant = "d"',
            'tag = "t", default_variant = "d", content = "c"': 'tag = "t", content = "c", default_variant = "d"', 'deny_unknown_fields': '', 'tag = "t", deny_unknown_fields': 'tag = "t", content = "c", deny_unknown_fields',
            'tag = "t", default_variant = "d", deny_unknown_fields': 'tag = "t", content = "c", default_variant = "d", deny_unknown_fields', 'deny_unknown_fields, tag = "t", content = "c"': 'tag = "t", content = "c", deny_unknown_fields',
            'tag = "t", deny_unknown_fields, content = "c"': 'tag = "t", content = "c", deny_unknown_fields', 'tag = "t", content = "c", deny_unknown_fields = true': 'tag = "t", content = "c", deny_unknown_fields',
            'tag = "t", content = "c", deny_unknown_fields, deny_unknown_fields': 'tag = "t", content = "c", deny_unknown_fields', 'tag = "t", content = "c", deny_unknown_fields()': 'tag = "t", content = "c", deny_unknown_fields',
            'tag = "t", content = "c", allow_unknown_fields': 'tag = "t", content = "c", deny_unknown_fields', 'tag = "t", content = "c" deny_unknown_fields': 'tag = "t", content = "c", deny_unknown_fields',
            'tag = "t", content = "c", default_variant = "d", default_variant = "e"': 'tag = "t", content = "c", default_variant = "d"', 'tag = "t", content = "c", default_variant = "d" deny_unknown_fields': 'tag = "t", content = "c", default_variant = "d", deny_unknown_fields',
            'tag = "t", content = "c", default_variant = "d", deny_unknown_fields, default_variant = "d"': 'tag = "t", content = "c", default_variant = "d", deny_unknown_fields',
            'tag = "t", content = "c", deny_unknown_fields, default_variant = "d", deny_unknown_fields': 'tag = "t", content = "c", deny_unknown_fields, default_variant = "d"',
            'tag = "t", content = "c",,': 'tag = "t", content = "c",', 'tag = "t", content = "c", default_variant': 'tag = "t", content = "c"', 'tag = "t", content = "c", deny_unknown_fields,,': 'tag = "t", content = "c", deny_unknown_fields,',
            'tag = "t", content = "c", default_variant = 1': 'tag = "t", content = "c", default_variant = "1"', 'tag = "t", content = "c", bound = ""': 'tag = "t", content = "c"',
            'tag = "t", content = "t"': 'tag = "t", content = "T"', 'tag = "", content = "",': 'tag = "", content = "t",', 'tag = "t", content = r#"t"#': 'tag = "t", content = r#"t "#',
            'tag = "a\\"b", content = r#"a"b"#': 'tag = "a\\"b", content = r#"a\\"b"#', 'tag = "\\u{e9}\\x41", content = "\u00e9A", deny_unknown_fields': 'tag = "\\u{e9}\\x41", content = "\u00e9\u0041b", deny_unknown_fields',
            'tag = "t", content = "t", default_variant = "d"': 'tag = "t", content = "d", default_variant = "t"',
            'tag = "t", rename_all = "c"': 'tag = "t"', 'tag = "t", deny': 'tag = "t"', 'serde(tag = "t")': 'tag = "t"', 'true': '', '= "t"': 'tag = "t"', 'tag = ""t': 'tag = ""',
        }
        for bad, good_args in args.items():
            add(k + "trait(" + bad + ")", "#[typetag::%s(%s)] trait Tr {}" % (m, bad), "#[typetag::%s(%s)] trait Tr {}" % (m, good_args))
        add(k + "trait = ", '#[typetag::%s = "tag"] trait Tr {}' % m, '#[typetag::%s(tag = "tag")] trait Tr {}' % m)

        # Arguments on the impl.
        args = {
            'name': '', 'name =': 'name = "n"', 'name "n"': 'name = "n"', 'name("n")': 'name = "n"', 'name: "n"': 'name = "n"', 'Name = "n"': 'name = "n"', 'names = "n"': 'name = "n"', '"n"': 'name = "n"', 'Foo': '', 'rename = "n"': 'name = "n"',
            'tag = "n"': 'name = "n"', 'name = 1': 'name = "1"', "name = 'n'": 'name = "n"', 'name = b"n"': 'name = "n"', 'name = NUMBER': 'name = NAME', 'name = UNKNOWN': 'name = NAME', 'name = "n" "m"': 'name = "n"', 'name = "n",,': 'name = "n",', ', name = "n"': 'name = "n"',
            'name = "n", name = "n"': 'name = "n"', 'name = "n", name = "m"': 'name = "n"', 'name = "n", tag = "t"': 'name = "n"', 'name = "n"; ': 'name = "n",', 'name = "n", "m"': 'name = "n"', 'name = "n", alias = "m"': 'name = "n"', ',': '', 'name = String::from("n")': 'name = "n"',
            'name = "n".to_owned()': 'name = "n"', 'name = None': 'name = "n"', 'name = Some("n")': 'name = "n"', 'name = ()': 'name = "n"', 'content = "c"': '', 'default_variant = "n"': '', 'deny_unknown_fields': '', 'skip': '', 'name == "n"': 'name = "n"', 'name = {}': 'name = {"n"}',
        }
        if de:
            args['name = runtime()'] = 'name = NAME'
            args['name = &*String::from("n")'] = 'name = "n"'
        for bad, good_args in args.items():
            add(k + "impl(" + bad + ")", tr + "#[typetag::%s(%s)] impl Tr for Foo {}" % (m, bad), tr + "#[typetag::%s(%s)] impl Tr for Foo {}" % (m, good_args))
    return out
