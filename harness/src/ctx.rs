//! Reporting: what was run, what was seen, what was wrong.
use serde_json::{json, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    only: Option<(String, u64)>,
    shard: (u64, u64),
    pub evaluations: u64,
    distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    sample_kinds: HashSet<String>,
    pub violations: u64,
    known: BTreeMap<String, u64>,
    crumb: Option<std::fs::File>,
    hashes: Option<String>,
    cur: (String, u64),
    started: Instant,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let at = info.location().map(|l| l.to_string()).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, at)));
    }));
}

fn panic_text(_: Box<dyn Any + Send>) -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Run, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

impl Ctx {
    pub fn new(prop: &'static str, args: &[String]) -> Ctx {
        let mut c = Ctx {
            prop,
            seed: 1,
            thorough: false,
            scale: 1.0,
            only: None,
            shard: (0, 1),
            evaluations: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            sample_kinds: HashSet::new(),
            violations: 0,
            known: BTreeMap::new(),
            crumb: None,
            hashes: None,
            cur: (String::new(), 0),
            started: Instant::now(),
        };
        let mut i = 0;
        while i < args.len() {
            let v = args.get(i + 1).cloned().unwrap_or_default();
            match args[i].as_str() {
                "--seed" => c.seed = v.parse().expect("seed"),
                "--tier" => c.thorough = v == "thorough",
                "--scale" => c.scale = v.parse().expect("scale"),
                "--only" => {
                    let (s, n) = v.rsplit_once(':').expect("--only stage:case");
                    c.only = Some((s.to_owned(), n.parse().expect("case")));
                }
                "--shard" => {
                    let (a, b) = v.split_once('/').expect("--shard i/n");
                    c.shard = (a.parse().unwrap(), b.parse().unwrap());
                }
                "--crumb" => c.crumb = Some(std::fs::File::create(&v).expect("crumb file")),
                "--hashes" => c.hashes = Some(v),
                a => panic!("unknown argument {}", a),
            }
            i += 2;
        }
        c
    }

    /// Number of random cases for a stage.
    pub fn n(&self, quick: u64) -> u64 {
        let n = quick as f64 * self.scale * if self.thorough { 12.0 } else { 1.0 };
        (n as u64).max(1)
    }

    /// Run one case; a panic in it is a violation.
    pub fn case(&mut self, stage: &str, n: u64, f: impl FnOnce(&mut Ctx)) {
        if n % self.shard.1 != self.shard.0 {
            return;
        }
        if let Some((s, k)) = &self.only {
            if s != stage || *k != n {
                return;
            }
        }
        self.cur = (stage.to_owned(), n);
        if let Some(c) = &mut self.crumb {
            use std::io::{Seek, SeekFrom};
            let _ = c.seek(SeekFrom::Start(0));
            let _ = writeln!(c, "{}:{}                                        ", stage, n);
        }
        if let Err(p) = guarded(|| f(self)) {
            self.violation(&format!("panicked: {}", p));
        }
    }

    pub fn only(&self) -> bool {
        self.only.is_some()
    }

    /// One evaluation; `key` identifies the case, `nontrivial` by the check's rule.
    pub fn eval(&mut self, key: &str, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(crate::rng::fnv(key));
        }
    }

    pub fn count(&mut self, what: &str, n: u64) {
        *self.counters.entry(what.to_owned()).or_insert(0) += n;
    }

    pub fn sample(&mut self, kind: &str, f: impl FnOnce() -> Value) {
        if self.samples.len() < 12 && self.sample_kinds.insert(kind.to_owned()) {
            let v = f();
            self.samples.push(json!({"kind": kind, "case": format!("{}:{}", self.cur.0, self.cur.1), "what": v}));
        }
    }

    pub fn violation(&mut self, detail: &str) {
        self.violations += 1;
        if self.violations <= 25 {
            let out = json!({
                "event": "violation", "property": self.prop,
                "case": format!("{}:{}", self.cur.0, self.cur.1),
                "seed": self.seed, "detail": clip(detail, 4000),
            });
            println!("{}", out);
        }
    }

    pub fn known(&mut self, id: &str) {
        *self.known.entry(id.to_owned()).or_insert(0) += 1;
    }

    pub fn finish(self) {
        if let Some(f) = &self.hashes {
            let b: Vec<u8> = self.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
            std::fs::write(f, b).expect("hash file");
        }
        let out = json!({
            "event": "summary", "property": self.prop, "evaluations": self.evaluations,
            "distinct": self.distinct.len(), "counters": self.counters, "samples": self.samples,
            "violations": self.violations, "known": self.known,
            "wall_ms": self.started.elapsed().as_millis() as u64,
        });
        println!("{}", out);
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_owned();
    }
    let (mut i, mut j) = (n / 2, s.len() - n / 2);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    while !s.is_char_boundary(j) {
        j += 1;
    }
    format!("{} … ({} bytes) … {}", &s[..i], s.len(), &s[j..])
}
