"""The checks, one per property."""
import json
import os
import shutil

import base


class Harness:
    """A property decided by monitors inside a harness binary."""

    level = "exploration"
    assumptions = []

    def __init__(self, prop, rule, bin="tt", scale=1.0, least=1000, level="exploration", assumptions=(), timeout=600, also=()):
        self.prop, self.rule, self.bin, self.scale, self.least = prop, rule, bin, scale, least
        self.level, self.assumptions, self.timeout, self.also = level, list(assumptions), timeout, also

    def prepare(self):
        for name, _ in self.also:
            base.build_both(name)
        return base.build_both(self.bin)

    def run(self, res):
        exe = self.prepare()
        base.run_shards(res, exe, self.prop, scale=self.scale, timeout=self.timeout)
        for name, scale in self.also:
            base.run_shards(res, base.build_both(name), self.prop, scale=scale, timeout=self.timeout)


class Race(Harness):
    """C13: races to be first, natively, under ThreadSanitizer and under Miri."""

    def run(self, res):
        import json
        thorough = res.tier == "thorough"
        # Threads reserve address space: no limit on that.
        base.run_shards(res, base.build_both("tt"), self.prop, scale=self.scale, timeout=self.timeout, memory=None)
        native = base.build_both("ttrace")
        tsan = base.build_sanitized("ttrace", "thread", True)
        orders, lock = set(), __import__("threading").Lock()

        def seen(text, how, replay):
            done = False
            for line in text.splitlines():
                if not line.startswith("{"):
                    continue
                d = json.loads(line)
                if "stuck" in d:
                    res.violation("%s: no operation ended for 60 s after %d rounds" % (how, d["stuck"]), replay)
                    return True
                if "done" in d:
                    done = True
                    res.evaluations += d["operations"]
                    res.count("operations, " + how, d["operations"])
                    res.count("first uses raced for, " + how, d["first uses"])
                    res.count("first uses raced for by overlapping operations, " + how, d["overlapping"])
                    orders.update(d["orders"])
                    for o in d["orders"]:
                        res.hashes.add(int(o))
                    for w in d["wrong"]:
                        res.violation("%s: %s" % (how, w), replay)
            return done

        def one(exe, how, env, args):
            def go():
                cmd = [exe, "race"] + [str(a) for a in args]
                rc, out, err = base.sh(cmd, timeout=300, env=env)
                with lock:
                    if len(res.violations) > 20:
                        return
                    done = seen(out, how, {"cmd": cmd})
                    if "ThreadSanitizer" in err:
                        res.violation("%s: %s" % (" ".join(cmd), err[err.find("WARNING: ThreadSanitizer"):][:3500]), {"cmd": cmd})
                    elif rc is None:
                        res.violation("%s did not end within 300 s" % " ".join(cmd), {"cmd": cmd})
                    elif rc != 0 or not done:
                        if not (rc == 9 and done):
                            res.violation("%s ended with status %s: %s" % (" ".join(cmd), rc, err[-2000:]), {"cmd": cmd})
            return go

        tsan_env = dict(base.ENV, TSAN_OPTIONS="halt_on_error=0 exitcode=66 report_thread_leaks=0 history_size=4")
        jobs = []
        for i in range(400 * (12 if thorough else 1)):
            t = [2, 3, 4, 6, 8, 12, 16, 24][i % 8]
            jobs.append(one(native[i // 8 % 2], "native", base.ENV, ["--seed", res.seed * 100003 + i, "--threads", t, "--stress", 60, "--jitter", [0, 300, 3000][i % 3]]))
        base.parallel(jobs, 4)
        jobs = []
        for i in range(48 * (12 if thorough else 1)):
            t = [2, 3, 4, 8][i % 4]
            jobs.append(one(tsan, "ThreadSanitizer", tsan_env, ["--seed", res.seed * 200003 + i, "--threads", t, "--stress", 150, "--jitter", [0, 2000][i % 2]]))
        base.parallel(jobs, 4)
        if not res.violations:
            args = ["race", "--seed", str(res.seed), "--threads", "3", "--traits", "6", "--stress", "4", "--clock", "0", "--jitter", "30"]
            n = 16 * (20 if thorough else 1)
            for line in base.miri(res, "ttrace", args, res.seed * 1000, n, "racing for first use", timeout=700 if thorough else 250):
                res.count("schedules under Miri")
                seen(line, "Miri", {"args": args})
        res.count("distinct orders of begins and ends", len(orders))


class Memory(Harness):
    """C14: counting natively and under AddressSanitizer; undefined behaviour under both and Miri."""

    def run(self, res):
        thorough = res.tier == "thorough"
        exe = base.build_both("ttmem")
        base.run_shards(res, exe, self.prop, scale=self.scale, timeout=self.timeout)
        native = res.evaluations
        asan = base.build_sanitized("ttmem", "address", False, ())
        env = dict(base.ENV, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1")
        base.run_shards(res, asan, self.prop, scale=self.scale / 5, timeout=self.timeout, env=env, memory=None)
        res.count("evaluations natively", native)
        res.count("evaluations under AddressSanitizer", res.evaluations - native)
        before = res.evaluations
        if not res.violations:
            scale = "0.009"
            jobs = []
            n = 8 * (6 if thorough else 1)
            for i in range(n):
                args = ["C14", "--seed", str(res.seed * 31 + i // 8), "--scale", scale, "--shard", "%d/8" % (i % 8)]
                jobs.append(lambda args=args: base.miri(res, "ttmem", args, 1, 1, "the workload", flags="-Zmiri-ignore-leaks"))
            first = jobs[0]()
            for lines in [first] + base.parallel(jobs[1:]):
                for line in lines:
                    base.fold(res, line, ["cargo", "miri", "run"])
        res.count("evaluations under Miri", res.evaluations - before)


class Compiled(Harness):
    """Properties of what the macros make: generated programs, compiled against /repo and run."""

    def run(self, res):
        import rustc
        with base.Scratch() as dir:
            self.dir, self.res, self.kit = dir, res, rustc.Kit()
            self.plain = rustc.Kit("plain") if self.prop in ("C16", "C19") else None
            self.thorough = res.tier == "thorough"
            self.lock = __import__("threading").Lock()
            self.go()

    def compile(self, *a, plain=False, **k):
        """Compile, and again when the compiler gave no answer."""
        import rustc
        for _ in (0, 1):
            rc, out, err = (self.plain if plain else self.kit).compile(*a, **k)
            v = rustc.verdict(rc, err)
            if v:
                return v, err
        raise base.Broken("the compiler gave no answer: %s" % err[-2000:])

    def keep(self, name, text):
        """A program a violation is about, kept beside its replay file."""
        d = os.path.join(base.VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.rs" % (self.prop, name))
        with open(path, "w") as f:
            f.write(text)
        return path

    def write(self, name, text):
        path = os.path.join(self.dir, name)
        with open(path, "w") as f:
            f.write(text)
        return path

    def run_lines(self, cmd, env=None):
        """What a program reports, one JSON array a line."""
        rc, out, err = base.sh(cmd, timeout=120, env=env)
        lines = []
        for l in out.splitlines():
            if l.startswith("["):
                try:
                    lines.append(json.loads(l))
                except ValueError:
                    pass
        return rc, lines, err


class Forms(Compiled):
    """C16"""

    def go(self):
        import gen16
        res = self.res
        per = 24
        jobs = []
        for i in range(32 * (12 if self.thorough else 1)):
            jobs.append(lambda i=i: self.one(gen16, i, per, ["2021", "2021", "2018", "2024"][i % 4]))
        for name, (text, names, kind) in FIXED16.items():
            jobs.append(lambda name=name, text=text, names=names, kind=kind: self.fixed(name, text, names, kind))
        base.parallel(jobs)
        res.count("programs", len(jobs))

    def fixed(self, name, text, names, kind):
        for edition in ("2018", "2021", "2024"):
            f = self.write("f_%d_%s.rs" % (sorted(FIXED16).index(name), edition), text)
            v, err = self.compile(f, f[:-3] + ".rmeta", edition=edition, kind=kind, emit="metadata", names=names)
            with self.lock:
                self.res.eval(name + edition)
                if v != "ok":
                    self.res.violation("%s does not compile in edition %s: %s" % (name, edition, err[:2500]), {"program": self.keep(name, text)})

    def one(self, gen16, i, per, edition):
        res = self.res
        src, cases = gen16.program(res.seed, per, i * per)
        f = self.write("p%d.rs" % i, src)
        exe = f[:-3]
        plain = i // 4 % 2 == 1
        flags = ["-C", "debug-assertions=no"] if plain else []
        v, err = self.compile(f, exe, edition=edition, plain=plain, flags=flags)
        if v != "ok":
            bad = 0
            for c in cases:
                one = gen16.whole([c])
                g = self.write("p%d_%s.rs" % (i, c.id), one)
                v, e = self.compile(g, g[:-3] + ".rmeta", edition=edition, emit="metadata", plain=plain, flags=flags)
                if v != "ok":
                    bad += 1
                    with self.lock:
                        if len(res.violations) < 12:
                            res.violation("program written as documented does not compile (edition %s; %s): %s" % (edition, ", ".join(c.features), e[:2500]),
                                          {"program": self.keep("%s-%s" % (edition, c.id), one)})
            if not bad:
                with self.lock:
                    res.violation("programs written as documented do not compile together (edition %s): %s" % (edition, err[:2500]), {"program": self.keep("p%d" % i, src)})
            return
        rc, lines, err = self.run_lines([exe])
        by = {c.id: c for c in cases}
        seen = set()
        with self.lock:
            for c in cases:
                for ft in c.features:
                    res.count(ft)
            for case, probe, got in lines:
                c = by.get(case)
                if c is None or probe not in c.expect:
                    continue
                seen.add((case, probe))
                res.eval("%s %s %s" % (c.id, probe, edition))
                res.count("observed " + probe.split(" ")[0])
                bad = c.complaint(probe, got)
                if bad:
                    res.violation("%s, %s: got %s, %s (edition %s; %s)" % (case, probe, got, bad, edition, ", ".join(c.features)),
                                  {"program": self.keep("%s-%s" % (edition, c.id), gen16.whole([c]))} if len(res.violations) < 8 else {})
                res.sample({"kind": probe.split(" ")[0], "case": c.id, "probe": probe, "got": got[:300], "features": c.features[:12]}, 6)
            missing = [(c.id, p) for c in cases for p in c.expect if (c.id, p) not in seen]
            if rc != 0 or missing:
                res.violation("program ended with status %s without reporting %s: %s" % (rc, missing[:3], err[-1500:]), {"program": self.keep("p%d" % i, src)})


class Rejected(Compiled):
    """C18"""

    def go(self):
        import gen18
        ps = gen18.programs()
        editions = ["2018", "2021", "2024"] if self.thorough else [["2021", "2018", "2024"][self.res.seed % 3 - 1]]
        wraps = [("file", "%s\n%s")]
        if self.thorough:
            wraps += [("function", "%s\nfn wrapped() { %s }"), ("macro", "%s\nmacro_rules! wrapped { () => { %s } } mod w { use super::*; wrapped!(); }"),
                      ("macro in a function", "%s\nmacro_rules! wrapped { () => { %s } } fn f() { wrapped!(); }")]
        for edition in editions:
            for wrap, form in wraps:
                self.round(gen18, ps, edition, wrap, form)

    def text(self, gen18, form, body):
        return "#![allow(warnings)]\n" + form % (gen18.PRE, body) + "\nfn main() {}\n"

    def compiles(self, name, text, edition):
        f = self.write(name + ".rs", text)
        v, err = self.compile(f, f[:-3] + ".rmeta", edition=edition, emit="metadata", names=("typetag", "serde"))
        os.unlink(f)
        return v, err

    def round(self, gen18, ps, edition, wrap, form):
        res = self.res
        if wrap != "file":
            # Only what can be written there.
            ps = [p for p in ps if "pub fn go" not in p[1] and "on " not in p[0]]
        goods = sorted({p[2] for p in ps})
        good = set()

        def some(i):
            part = goods[i::32]
            text = "#![allow(warnings)]\n" + "\n".join("mod m%d { %s }" % (j, form % (gen18.PRE, g)) for j, g in enumerate(part)) + "\nfn main() {}\n"
            v, err = self.compiles("g%d" % i, text, edition)
            for g in part:
                e = ""
                if v != "ok":
                    w, e = self.compiles("g%d_1" % i, self.text(gen18, form, g), edition)
                else:
                    w = "ok"
                with self.lock:
                    if w == "ok":
                        good.add(g)
                    elif len(res.violations) < 12:
                        res.violation("does not compile (%s, edition %s): %s\n%s" % (wrap, edition, g, e[:2000]), {"program": self.keep("good", self.text(gen18, form, g))})

        def one(i):
            id, bad, g = ps[i]
            v, err = self.compiles("b%d" % i, self.text(gen18, form, bad), edition)
            with self.lock:
                res.eval("%s %s %s" % (id, edition, wrap), True)
                res.count("compiled" if v == "ok" else "rejected")
                kind = id.split(": ")[0].split(" ")[0] + ": " + id.split(": ")[1].split("(")[0]
                res.count(kind)
                if v == "ok":
                    res.violation("compiles (%s, edition %s), but must not: %s: %s" % (wrap, edition, id, bad), {"program": self.keep("bad%d" % i, self.text(gen18, form, bad))})
                elif i % 97 == 0:
                    res.sample({"kind": id, "program": bad, "compiles when": g, "said": err[:200]})

        base.parallel([lambda i=i: some(i) for i in range(32)])
        res.count("corrected programs that compile", len(good))
        base.parallel([lambda i=i: one(i) for i in range(len(ps))])


class Linked(Compiled):
    """C19"""

    def go(self):
        import gen19
        import random
        import rustc
        res = self.res
        self.lto = rustc.Kit("lto", ("serde", "serde_json", "typetag"))
        n = 36 * (12 if self.thorough else 1)
        jobs = []
        for i in range(n):
            seed = (res.seed << 16) + i
            v = gen19.VARIANTS[i % len(gen19.VARIANTS)]
            jobs.append(lambda i=i, seed=seed, v=v: self.one(gen19, random.Random(seed), i, seed, v, None if i % 12 else 400))
        base.parallel(jobs)

    def one(self, gen19, r, i, seed, variant, size):
        res = self.res
        name, flags = variant
        p = gen19.Program("x%d" % i, seed, size)
        d = os.path.join(self.dir, "p%d" % i)
        os.makedirs(d)
        for f, text in p.files.items():
            with open(os.path.join(d, f), "w") as o:
                o.write(text)
        kit = self.lto if "@lto" in flags else self.plain if i // len(gen19.VARIANTS) % 2 else self.kit
        cdylib = "@cdylib" in flags
        flags = [f for f in flags if not f.startswith("@")]
        lto = [f for f in flags if f.startswith("lto=")]
        externs = ["-L", d]
        import rustc
        for c in p.crates:
            last = c == "prog"
            kind = "rlib" if not last else "cdylib" if cdylib else "bin"
            out = os.path.join(d, {"rlib": "lib%s.rlib" % c, "bin": "prog", "cdylib": "libprog.so"}[kind])
            own = flags if last or not lto else [f for a, f in zip(flags, flags[1:] + [""]) if False]
            if lto and not last:
                own = ["-C", "opt-level=2"]
            if not last and "panic=abort" in flags:
                own = flags
            for attempt in (0, 1):
                rc, o, err = kit.compile(os.path.join(d, c + ".rs"), out, kind=kind, crate=c, flags=own + externs, names=("typetag", "serde", "serde_json"), edition=["2021", "2018", "2024"][i % 3])
                v = rustc.verdict(rc, err)
                if v:
                    break
            if v is None:
                raise base.Broken("the compiler gave no answer: " + err[-2000:])
            if v != "ok":
                with self.lock:
                    res.violation("crate %s of program %d does not compile (%s): %s" % (c, seed, name, err[:2500]), {"program": self.keep("%d-%s" % (seed, c), p.files[c + ".rs"])})
                return
            externs += ["--extern", "%s=%s" % (c, out)]
        want = p.expected()
        ks = [str(t.k) for t in p.traits]
        for round in range(6):
            r.shuffle(ks)
            if cdylib:
                cmd = ["python3", "-c", "import ctypes, sys; b = sys.argv[2].encode(); ctypes.CDLL(sys.argv[1]).go_c(b, ctypes.c_size_t(len(b)))", out, ",".join(ks)]
            else:
                cmd = [out, ",".join(ks)]
            rc, lines, err = self.run_lines(cmd)
            got = {(k, doc): g for k, doc, g in lines}
            with self.lock:
                res.count("runs, " + name)
                if rc != 0 or any(x not in got for x in want):
                    res.violation("program %d (%s), traits in order %s: ended with status %s: %s" % (seed, name, ",".join(ks), rc, err[-1500:]), {"program": self.keep("%d" % seed, "\n".join(p.files.values()))})
                    continue
                for x in want:
                    bad = p.complaint(want[x], got[x])
                    res.eval("%d %s %s %s" % (seed, x[0], x[1], ",".join(ks)), True)
                    if bad and len(res.violations) < 20:
                        res.violation("program %d (%s), trait %s, traits first used in order %s: %s gave %s, %s" % (seed, name, x[0], ",".join(ks), x[1], got[x], bad),
                                      {"program": self.keep("%d" % seed, "\n".join("// %s\n%s" % f for f in p.files.items()))})
                res.sample({"kind": name, "crates": p.crates, "traits": len(p.traits), "order of first use": ",".join(ks), "impls": sum(len(t.impls) for t in p.traits)}, 6)
        with self.lock:
            res.count("programs")
            for t in p.traits:
                res.count("impls", len(t.impls))
            for ft, c in p.features.items():
                res.count("impls, " + ft, c)
        shutil.rmtree(d, ignore_errors=True)


FIXED16 = {
    "no_std library": ("""#![no_std]
extern crate alloc;
#[derive(serde::Serialize, serde::Deserialize)] pub struct A;
macro_rules! all { ($($n:ident $sup:ident ($($arg:tt)*);)*) => { $(pub mod $n {
    #[typetag::serde($($arg)*)] pub trait Tr: $sup {}
    #[typetag::serde] impl Tr for super::A {}
    #[typetag::serialize($($arg)*)] pub trait Sr: $sup {}
    #[typetag::serialize] impl Sr for super::A {}
    #[typetag::deserialize($($arg)*)] pub trait Dr: $sup {}
    #[typetag::deserialize] impl Dr for super::A {}
})* } }
all! { a Send (); b Sync (tag = "t"); c Send (tag = "t", content = "c"); d Sync (tag = "t", content = "c", deny_unknown_fields, default_variant = "A"); e Send (tag = "t", default_variant = "A"); }
pub fn read<T: serde::de::DeserializeOwned>() {}
pub fn f() { read::<alloc::boxed::Box<dyn a::Tr + Send>>() }
""", ("typetag", "serde"), "lib"),
    "typetag in scope by use": ("""#![allow(warnings)]
mod dependencies { pub use ::typetag as tt; }
mod m {
    use crate::dependencies::tt as typetag;
    #[derive(serde::Serialize, serde::Deserialize)] pub struct A;
    #[typetag::serde] pub trait Tr: Send {}
    #[typetag::serde] impl Tr for A {}
    mod n { use super::typetag; #[typetag::serde(tag = "t", content = "c")] trait Tr {} #[typetag::serde] impl Tr for super::A {} }
}
fn main() {}
""", ("typetag", "serde"), "bin"),
    "the documentation's example": ("""
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait WebEvent { fn inspect(&self); }
#[derive(Serialize, Deserialize)]
struct PageLoad;
#[derive(Serialize, Deserialize)]
struct Click { x: i32, y: i32 }
#[typetag::serde]
impl WebEvent for PageLoad { fn inspect(&self) {} }
#[typetag::serde(name = "mouse_button_down")]
impl WebEvent for Click { fn inspect(&self) {} }
fn send_event_to_money_factory(event: &dyn WebEvent) -> serde_json::Result<String> { serde_json::to_string(event) }
fn process_event_from_clickfarm(json: &str) -> serde_json::Result<Box<dyn WebEvent>> { let event: Box<dyn WebEvent> = serde_json::from_str(json)?; Ok(event) }
fn main() {}
""", ("typetag", "serde", "serde_json"), "bin"),
}


SERDE = "serde, serde_json and the other formats behave as their documentation says; data they do not round-trip on its own is skipped and counted"

SER = ("One case is one data-model program, under one tag of one %s trait, with or without human-readability, its every "
       "call to the recording serializer compared with the reference model. Non-trivial: data of more than one node or a tag "
       "other than the default name.")

CHECKS = {c.prop: c for c in [
    Harness("C01", SER % "externally tagged", scale=8, least=50000, also=[("ttypes", 6)]),
    Harness("C02", SER % "adjacently tagged", scale=8, least=100000, also=[("ttypes", 6)]),
    Harness("C03", SER % "internally tagged", scale=8, least=100000, also=[("ttypes", 6)]),
    Harness("C04", "One case is one object, alone or inside a larger value, written and read back in one self-describing "
            "format. Non-trivial: more than two nodes.", scale=3, least=200000, assumptions=[SERDE],
            also=[("ttypes", 3)]),
    Harness("C05", "One case is one object, alone, inside a larger value or in a stream, written and read back in one compact "
            "format. Non-trivial: more than two nodes.", scale=6, least=100000, assumptions=[SERDE], also=[("ttypes", 6)]),
    Harness("C06", "One case is one document with its entries in one order, read in one style of format or in one real format. "
            "Non-trivial: read in a real format, or more than three nodes.", scale=3, least=200000, assumptions=[SERDE], also=[("ttypes", 4)]),
    Harness("C07", "One case is one tag, registered or a near miss of a registered one, read in one trait in one format, or the "
            "tag of one object written. All count as non-trivial when distinct.", bin="ttbig", scale=3, least=10000),
    Harness("C08", "One case is one document read, or one object written, in a trait with some tags registered up to several times. "
            "Non-trivial: the tag is registered more than once, is the default, or belongs to another trait.", least=2000),
    Harness("C09", "One case is one adjacent envelope (which fields, how often, in which order, with which extra fields and values) "
            "read in one style of format, or one sequence. Non-trivial: more than one entry, or a sequence.", scale=8, least=50000),
    Harness("C10", "One case is one internal document with the tag absent, known or unknown, at one position. All count as "
            "non-trivial when distinct.", scale=6, least=20000),
    Harness("C11", "One case is one struct with a field named like the tag, serialized through one internal trait. All count as "
            "non-trivial when distinct.", scale=3, least=100000),
    Harness("C12", "One case is one operation with one failure injected at one call of the format or one node of the data; cases "
            "whose failure did not fire are counted apart.", scale=6, least=100000, level="fault_enumeration"),
    Harness("C17", "One case is one object written through every marker combination and pointer, or one document, whole or damaged, read "
            "as every marker combination and pointer its trait allows, in one style of format or one real format. Non-trivial: any "
            "write, and any read of a trait with more than the plain form.", bin="ttmark", scale=6, least=100000),
    Harness("C20", "One case is one document read through one trait with one type's requests, in one style of format, with the log "
            "of requests and of what the type was shown compared with a read of the data alone. Non-trivial: at least one request "
            "inside the data.", scale=2, least=50000, also=[("ttypes", 6)]),
    Race("C13", "One case is one operation among others on other threads. Distinct: for each first use raced for, the orders in which the "
         "threads began and ended it, and each plan of mixed operations; non-trivial where operations overlapped.", scale=4, least=50000),
    Memory("C14", "One case is one operation (with a failure or panic injected, or on a document changed, cut or claiming false lengths) repeated "
           "until it leaves nothing behind, its allocations and drops counted; or one series of growing documents. All count as "
           "non-trivial when distinct.", scale=2, least=50000),
    Harness("C15", "One case is one changed, spliced or random document given to one trait. All count as non-trivial when distinct.",
            bin="ttypes", scale=4, least=50000),
    Forms("C16", "One case is one probe (an object written, or a document read) of one generated module whose traits and impls are spelled in "
          "randomly chosen accepted forms among randomly shadowed names. Distinct: the module, probe and edition.", level="exploration", least=5000),
    Rejected("C18", "One case is one program that must not compile, whose corrected form does. Distinct: the program and edition.", least=900),
    Linked("C19", "One case is one document read by one trait of one generated program of several crates, in one order of first use. Distinct: "
           "program, trait, document and order.", least=10000),
    Harness("C21", "One case is a history of operations in a fresh process, an operation with others inside it, a document read "
            "alone and inside other objects, or an object written with its inner objects written beforehand. Non-trivial: more than "
            "one operation or object.", scale=6, least=5000),
]}

MON = "runtime monitoring: "
TECHNIQUE = {
    "C01": MON + "recording serializer as online monitor, against a reference model, over generated data",
    "C02": MON + "recording serializer as online monitor, against a reference model, over generated data",
    "C03": MON + "recording serializer as online monitor, against a reference model, over generated data",
    "C04": MON + "round-trip monitor over generated data in nine self-describing formats",
    "C05": MON + "round-trip and exact-consumption monitor over generated data in two compact formats",
    "C06": MON + "replaying deserializer and real formats over permuted documents, compared with the original order",
    "C07": MON + "lookup monitor over adversarial registries and near-miss tags",
    "C08": MON + "lookup monitor over registries with duplicates",
    "C09": MON + "envelope monitor: replaying deserializer against a reference acceptor over enumerated and generated envelopes",
    "C10": MON + "replaying deserializer and real formats over documents with the tag absent, known or unknown",
    "C11": MON + "recording serializer over structs with a field named like the tag",
    "C13": MON + "result monitor over racing threads in fresh processes; ThreadSanitizer; Miri's data-race and deadlock detector over many schedules",
    "C14": MON + "counting allocator and drop counters around every operation; AddressSanitizer; Miri",
    "C15": MON + "panic, hang and stability monitor over mutated and random documents in nine formats",
    "C16": MON + "generated programs in every accepted spelling, compiled and run, their observations against a reference model",
    "C18": MON + "the macros run by the compiler on programs that must be rejected, each beside a corrected control",
    "C19": MON + "registry monitor over generated multi-crate programs, placements, link variants and orders of first use",
    "C17": MON + "differential monitor: every marker combination and pointer against the plain trait object",
    "C20": MON + "replaying deserializer logging every request, against the log of reading the data alone",
    "C21": MON + "results of operation histories, nested and reentrant operations against fresh-process results",
    "C12": MON + "fault injection at every call into the format and every node of the data, with call-after-failure monitor",
}
COMMON = (" Explored executions only. Trusts the monitors in /verif/harness, and the serde crates.")
NOTE = {
    "C01": "Every data-model kind in isolation and tens of thousands of generated programs; the oracle is exact call-tree equality." + COMMON,
    "C02": "As C01, over eleven adjacently tagged traits with different field names and options." + COMMON,
    "C03": "As C01, over seven internally tagged traits, with the documented flattening as reference model." + COMMON,
    "C04": "Data the format does not round-trip natively, or not as the plain document, is skipped and counted." + COMMON,
    "C05": "Data the format does not round-trip natively is skipped and counted; neighbours and exact consumption are checked." + COMMON,
    "C06": "Tags moved to every or random positions at every level, in seven replay styles and the real formats." + COMMON,
    "C07": "212 types with adversarial names in each of three traits; thousands of near-miss tags; unknown-tag errors must list every name." + COMMON,
    "C08": "Registries with tags registered 1 to 5 times in every tagging style, with and without defaults." + COMMON,
    "C09": "Envelopes up to a bounded number of entries are enumerated, longer ones generated." + COMMON,
    "C10": "Both probes and real formats; the default's result is compared with the same document carrying the tag." + COMMON,
    "C11": "Known finding: a later field equal to the tag declares one entry too many." + COMMON,
    "C13": "Every process races up to 24 threads through the first use of 36 traits (18 mutually nesting pairs), with jitter; threads are also held together inside operations, down to a depth; ThreadSanitizer covers std too; Miri also explores weak memory." + COMMON,
    "C14": "Leaks, double drops, peak memory against claimed lengths and against growth; known finding: error texts in CBOR double per level." + COMMON,
    "C15": "Stability is required where the format keeps the concrete value stable on its own." + COMMON,
    "C16": "Hundreds of generated modules per run over modes, styles, options, spellings, visibilities, generics, targets, name forms, shadowed names and editions; the compiler must accept them and they must print what a Python model predicts." + COMMON,
    "C18": "Over a thousand programs; a rejection counts only beside a control that compiles and differs in the offending part. Only that a program is rejected is decided, not the wording." + COMMON,
    "C19": "Three to seven crates each, 36 places an impl may be written, traits of restricted visibility, 16 ways of compiling and linking (LTO, shared library, stripping, codegen units), six orders of first use each." + COMMON,
    "C17": "36 traits: five tagging configurations by the four supertrait combinations in different orders, and 16 more with the markers among lifetimes, other traits, parentheses and repeats; 19 ways of writing, up to 16 of reading." + COMMON,
    "C20": "Requests compared with arguments and position, and what the type is shown (calls, size hints, human-readability)." + COMMON,
    "C21": "Each operation's reference result comes from a forked process that has done nothing else." + COMMON,
    "C12": "Fault enumeration: every call index and node of each case up to a limit, spread beyond it." + COMMON,
}
