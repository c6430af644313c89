"""C19: programs of several crates with impls written everywhere, and what each trait must then read."""
import json
import random

STYLES = ["", '(tag = "type")', '(tag = "type", content = "c")']


def lit(s):
    return json.dumps(s, ensure_ascii=False)


class Trait:
    def __init__(self, k, crate, r):
        self.k, self.crate = k, crate
        self.ident = r.choice(["Shape", "Object"])      # on purpose the same again and again
        self.style = r.randrange(3)
        self.sup = r.choice(["", "", ": Send", ": Send + Sync", ": std::fmt::Debug"])
        self.where = r.choice(["mod", "mod", "fn", "vis"])
        # How far a trait of nested modules can be seen, and so where it can be implemented:
        # 0 below its module, 1 in it, 2 in the parent, 3 in a sibling, 4 in the grandparent, 5 all over the crate.
        self.vis, self.levels = r.choice([
            ("", 2), ("pub(self)", 2), ("pub(super)", 4), ("pub(in super)", 4), ("pub(in super::super)", 5),
            ("pub(in crate::t%d)" % k, 5), ("pub(crate)", 6), ("pub(crate)", 6), ("pub(in crate)", 6), ("crate_public!", 6)])
        self.at = [""] * 5
        self.path = "%s::t%d::%s%s" % (crate, k, "outer::inner::" if self.where == "vis" else "", self.ident)
        self.impls = []     # (tag, who)

    def decl(self):
        vis = "pub" if self.where != "vis" or "!" in self.vis else self.vis
        return "#[typetag::serde%s]\n" % STYLES[self.style] + "%s trait %s%s { fn who(&self) -> (&'static str, u32); }" % (vis, self.ident, self.sup)


# Where an impl (and its type) may be written. {I} is replaced by the type and impl, {n} by a number of its own.
PLACES = [
    ("crate root", "{I}"),
    ("module", "mod p{n} { {I} }"),
    ("nested modules", "pub mod p{n} { mod q { pub(super) mod r { {I} } } }"),
    ("function never called", "#[allow(dead_code)] fn p{n}() { {I} }"),
    ("nested function never called", "fn p{n}() { fn q() { {I} } }"),
    ("generic function never called", "fn p{n}<T>(_: T) { {I} }"),
    ("closure", "fn p{n}() { let _f = || { {I} }; }"),
    ("closure in a static", "static P{n}: fn() = || { {I} };"),
    ("async block", "fn p{n}() { let _f = async { {I} }; }"),
    ("async function", "async fn p{n}() { {I} }"),
    ("const initializer", "const P{n}: u8 = { {I} 3 };"),
    ("static initializer", "static P{n}: u8 = { {I} 3 };"),
    ("anonymous const", "const _: () = { {I} };"),
    ("array length", "#[allow(dead_code)] type P{n} = [u8; { {I} 2 }];"),
    ("enum discriminant", "#[allow(dead_code)] enum P{n} { A = { {I} 2 } }"),
    ("method", "struct P{n}; impl P{n} { fn f(&self) { {I} } }"),
    ("method of a generic type", "struct P{n}<T>(T); impl<T> P{n}<T> { fn f(&self) { {I} } }"),
    ("default method", "trait P{n} { fn f(&self) { {I} } }"),
    ("trait impl", "struct P{n}; impl Drop for P{n} { fn drop(&mut self) { {I} } }"),
    ("match arm", "fn p{n}(x: u8) -> u8 { match x { 0 => { {I} 1 } _ => 2 } }"),
    ("after return", "#[allow(unreachable_code)] fn p{n}() { return; {I} }"),
    ("if false", "fn p{n}() { if false { {I} } }"),
    ("loop", "fn p{n}() { loop { {I} break; } }"),
    ("unsafe block", "fn p{n}() { unsafe { {I} } }"),
    ("const fn", "const fn p{n}() { {I} }"),
    ("unsafe extern fn", "unsafe extern \"C\" fn p{n}() { {I} }"),
    ("inline function", "#[inline(always)] pub fn p{n}() { {I} }"),
    ("cold function", "#[cold] #[inline(never)] fn p{n}() { {I} }"),
    ("macro", "mod p{n} { macro_rules! p{n} { () => { {I} } } p{n}!(); }"),
    ("macro in a function", "macro_rules! p{n} { () => { {I} } } fn p{n}() { p{n}!(); }"),
    ("macro passing an item", "mod p{n} { macro_rules! p{n} { ($($i:item)*) => { $($i)* } } p{n}! { {I} } }"),
    ("macro passing a block", "macro_rules! p{n} { ($b:block) => { fn p{n}() $b } } p{n}!({ {I} });"),
    ("macro by recursion", "mod p{n} { macro_rules! p{n} { (@ $($i:item)*) => { $($i)* }; ($($i:item)*) => { p{n}!(@ $($i)*); } } p{n}! { {I} } }"),
    ("macro passing tokens", "macro_rules! p{n} { ($($i:tt)*) => { mod p{n} { $($i)* } } } p{n}! { {I} }"),
    ("included file", "@INCLUDE"),
    ("file module", "@FILE"),
]


class Program:
    def __init__(self, id, seed, size=None):
        r = self.r = random.Random(seed)
        self.id = id
        self.features = {}
        self.files = {}
        # The crates, each later one depending on all earlier ones; the last is the program.
        self.crates = ["base"] + ["mid%d" % i for i in range(r.randint(1, 3))] + ["leaf", "prog"]
        self.traits = []
        for k in range(r.randint(4, 8)):
            self.traits.append(Trait(k, r.choice(["base", "base"] + self.crates), r))
        self.items = {c: [] for c in self.crates}
        n = 0
        # Types of the first crate that any crate may implement its own traits for.
        self.shared = ["Sh%d" % i for i in range(4)]
        used = set()
        for i in range(size or r.choice([24, 40, 70])):
            t = r.choice(self.traits)
            users = self.crates[self.crates.index(t.crate):]
            c = r.choice(users) if t.where == "mod" or (t.where == "vis" and "!" in t.vis) else t.crate
            n += 1
            shared = r.random() < 0.15 and c == t.crate
            ty = r.choice(self.shared) if shared else "Ty%d" % r.choice([1, 2, 3, n, n, n])
            if shared and (ty, t.k) in used:
                continue
            used.add((ty, t.k))
            tag = ty if r.random() < 0.5 else r.choice(["a", "b", "x y", "Ty1", "Sh0", "é", "n%d" % n])
            who = "%s#%d" % (c, n)
            place, code = r.choice(PLACES)
            if t.where == "fn":
                place = "same function"
            tyref = ("base::" if c != "base" else "crate::") + ty if shared else ty
            path = t.path.replace(c + "::", "crate::", 1) if t.crate == c else t.path
            level = None
            if t.where == "vis" and c == t.crate:
                level = r.randrange(t.levels)
                if level < 5:
                    place = ["below the trait's module", "trait's module", "parent of the trait's module", "sibling of the trait's module",
                             "grandparent of the trait's module"][level]
                    path = ["super::", "", "inner::", "super::inner::", "outer::inner::"][level] + t.ident
                else:
                    level = None
            if t.where == "fn":
                path = t.ident
            attr = "#[typetag::serde%s]" % ("" if tag == ty else "(name = %s)" % lit(tag))
            impl = "%s impl %s for %s { fn who(&self) -> (&'static str, u32) { (%s, self.n) } }" % (attr, path, tyref, lit(who))
            if not shared:
                impl = "#[derive(Debug, ::serde::Serialize, ::serde::Deserialize)] pub struct %s { pub n: u32 } " % ty + impl
            t.impls.append((tag, who))
            self.note(place)
            self.note("in the trait's crate" if c == t.crate else "in another crate")
            if t.where == "fn":
                # Types of one name can live in blocks of their own.
                t.body = getattr(t, "body", "") + "{ %s }\n" % impl
                continue
            if level is not None:
                # Types of one name can live in modules of their own.
                if path.startswith("super::") or not "pub struct Ty%d " % n in impl:
                    impl = impl.replace(" impl " + path, " impl super::" + path, 1)
                    impl = "mod p%d { %s }" % (n, impl)
                t.at[level] += impl + "\n"
                continue
            self.put(c, n, place, code, impl)
        for t in self.traits:
            probe = "pub fn probe(k: &str, docs: &[&str]) { %sprobe::<Box<dyn %s>>(k, docs, |o| o.who()) }" % (
                "crate::" if t.crate == "base" else "base::", t.ident)
            if t.where == "fn":
                inner = probe.replace("pub fn probe(", "fn inner(")
                text = "pub mod t%d { pub fn probe(k: &str, docs: &[&str]) { %s\n%s\n%s\n inner(k, docs) } }" % (t.k, t.decl(), getattr(t, "body", ""), inner)
            elif t.where == "vis":
                text = "pub mod t%d { pub mod outer { pub mod inner { %s\n%s\nmod deeper { %s }\n%s }\n%s\nmod sibling { %s } }\n%s\npub fn probe(k: &str, docs: &[&str]) { outer::inner::probe(k, docs) } }" % (
                    t.k, t.decl(), probe, t.at[0], t.at[1], t.at[2], t.at[3], t.at[4])
            else:
                text = "pub mod t%d { %s\n%s }" % (t.k, t.decl(), probe)
            self.items[t.crate].append(text)
        for c in self.crates:
            r.shuffle(self.items[c])
        # Whether later crates name the earlier ones, or only link them.
        for i, c in enumerate(self.crates):
            head = "#![allow(warnings)]\n"
            if i:
                for d in self.crates[:i] if c == "prog" else self.crates[:i][-2:] + ["base"]:
                    if "extern crate %s " % d not in head:
                        head += r.choice(["extern crate %s as _;\n", "extern crate %s as _;\nuse %s as _;\n" % (d, d) if False else "extern crate %s as _;\n"]) % d
            body = "\n".join(self.items[c])
            if c == "base":
                body += """
pub fn probe<T: ::serde::de::DeserializeOwned>(k: &str, docs: &[&str], who: fn(&T) -> (&'static str, u32)) {
    for d in docs {
        let got = match ::serde_json::from_str::<T>(d) {
            Ok(t) => format!("{:?}", who(&t)),
            Err(e) => format!("error: {}", e),
        };
        println!("{}", ::serde_json::to_string(&(k, d, got)).unwrap());
    }
}
"""
                for s in self.shared:
                    body += "#[derive(Debug, ::serde::Serialize, ::serde::Deserialize)] pub struct %s { pub n: u32 }\n" % s
            if c == "prog":
                arms = "\n".join("%s => %s::t%d::probe(k, &[%s])," % (lit(str(t.k)), t.crate if t.crate != "prog" else "crate", t.k, ", ".join(lit(d) for d in self.docs(t)))
                                 for t in self.traits)
                body += """
pub fn go(order: &str) { for k in order.split(',') { match k { %s _ => panic!() } } }
#[unsafe(no_mangle)] pub unsafe extern "C" fn go_c(p: *const u8, n: usize) { go(std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap()) }
pub fn main() { go(&std::env::args().nth(1).unwrap()) }
""" % arms
            self.files[c + ".rs"] = head + body

    def note(self, f):
        self.features[f] = self.features.get(f, 0) + 1

    def put(self, c, n, place, code, impl):
        if place == "crate root":
            code = "mod root%d { {I} }"   # types of one name may not share the root
            if "pub struct Ty%d " % n in impl:
                code = "{I}"
            code = code.replace("root%d", "root%d" % n)
        if code == "@INCLUDE":
            f = "inc_%s_%d.rs" % (c, n)
            self.files[f] = impl
            self.items[c].append("mod p%d { include!(%s); }" % (n, lit(f)))
        elif code == "@FILE":
            f = "file_%s_%d.rs" % (c, n)
            self.files[f] = impl
            self.items[c].append("#[path = %s] mod p%d;" % (lit(f), n))
        else:
            self.items[c].append(code.replace("{n}", str(n)).replace("{I}", impl))

    def doc(self, t, tag):
        d = {"n": 7}
        return json.dumps({tag: d} if t.style == 0 else dict({"type": tag}, **d) if t.style == 1 else {"type": tag, "c": d}, ensure_ascii=False)

    def docs(self, t):
        tags = {tag for tag, _ in t.impls}
        other = {tag for u in self.traits for tag, _ in u.impls} - tags
        return [self.doc(t, x) for x in sorted(tags) + sorted(other) + ["never registered"]]

    def expected(self):
        """{(k, doc): result or a set of strings an error must name}"""
        out = {}
        for t in self.traits:
            by = {}
            for tag, who in t.impls:
                by.setdefault(tag, []).append(who)
            for d in self.docs(t):
                j = json.loads(d)
                tag = next(iter(j)) if t.style == 0 else j["type"]
                whos = by.get(tag, [])
                if len(whos) == 1:
                    out[(str(t.k), d)] = '("%s", 7)' % whos[0]
                elif whos:
                    out[(str(t.k), d)] = ({tag}, "unique")
                else:
                    out[(str(t.k), d)] = ({tag} | set(by), "`")
        return out

    def complaint(self, want, got):
        if isinstance(want, str):
            return None if got == want else "expected %s" % want
        names, form = want
        if not got.startswith("error: "):
            return "expected an error"
        for n in names:
            if n not in got and json.dumps(n)[1:-1] not in got:
                return "expected an error naming %r" % n
        return None


# How to compile and link it.
VARIANTS = [
    ("plain", []), ("one codegen unit", ["-C", "codegen-units=1"]), ("256 codegen units", ["-C", "codegen-units=256"]),
    ("optimized", ["-C", "opt-level=3"]), ("optimized, one codegen unit", ["-C", "opt-level=3", "-C", "codegen-units=1"]),
    ("small, stripped", ["-C", "opt-level=s", "-C", "strip=symbols"]), ("thin-local LTO", ["-C", "opt-level=2", "-C", "codegen-units=16"]),
    ("static relocation", ["-C", "relocation-model=static"]), ("panic=abort", ["-C", "panic=abort", "-C", "opt-level=1"]),
    ("hidden visibility", ["-C", "link-arg=-Wl,--gc-sections", "-C", "opt-level=1"]), ("lld", ["-C", "link-arg=-fuse-ld=lld"]),
    ("shared library", ["@cdylib"]), ("shared library, optimized", ["@cdylib", "-C", "opt-level=3", "-C", "codegen-units=1"]),
    ("debug info", ["-C", "debuginfo=2"]), ("fat LTO", ["@lto", "-C", "lto=fat", "-C", "opt-level=2"]), ("thin LTO", ["@lto", "-C", "lto=thin", "-C", "opt-level=2"]),
]
