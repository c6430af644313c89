//! C13: threads racing to be the first to use each of many traits.
//!
//! ttrace race --seed S --shard I/N --threads T --rounds R --stress M --traits K
#![recursion_limit = "512"]
#![allow(clippy::all, private_interfaces)]
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};
use tt_harness::ctx::guarded;
use tt_harness::rng::{fnv, Rng};

#[derive(Serialize, Deserialize)]
pub struct P<const I: usize> {
    x: u32,
    s: String,
}
#[derive(Serialize, Deserialize)]
pub struct D<const I: usize>;
/// Holds an object of the other trait.
#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Nest<T: ?Sized>
where
    for<'a> Box<T>: Serialize + Deserialize<'a>,
{
    inner: Box<T>,
}

#[derive(Clone, Copy, PartialEq)]
enum Style {
    Ext,
    Int,
    Adj,
}

struct Kind {
    style: Style,
    name: &'static str,
    leaves: usize,
    read: fn(&str) -> Result<String, String>,
    write: fn(usize, u32) -> String,
}

macro_rules! leaves {
    ($tr:ident $($i:literal)*) => {
        $(
            #[typetag::serde(name = concat!("leaf", $i))]
            impl $tr for P<$i> {
                fn text(&self) -> String { format!("leaf{}:{}:{}", $i, self.x, self.s) }
            }
        )*
        #[typetag::serde(name = "dup")]
        impl $tr for D<0> {
            fn text(&self) -> String { "dup0".into() }
        }
        #[typetag::serde(name = "dup")]
        impl $tr for D<1> {
            fn text(&self) -> String { "dup1".into() }
        }
        pub fn make(i: usize, x: u32) -> Box<dyn $tr> {
            match i {
                $($i => Box::new(P::<$i> { x, s: "s".into() }),)*
                _ => unreachable!(),
            }
        }
        pub const LEAVES: usize = [$($i),*].len();
    };
}
macro_rules! one {
    ($tr:ident $style:expr) => {
        Kind {
            style: $style,
            name: stringify!($tr),
            leaves: LEAVES,
            read: |d| serde_json::from_str::<Box<dyn $tr>>(d).map(|b| b.text()).map_err(|e| e.to_string()),
            write: |i, x| serde_json::to_string(&*make(i, x)).unwrap(),
        }
    };
}
macro_rules! pair {
    ($m:ident $a:ident [$($aa:tt)*] $sa:ident $b:ident [$($ba:tt)*] $sb:ident $leaves:ident) => {
        pub mod $m {
            use super::*;
            #[typetag::serde $($aa)*]
            pub trait $a { fn text(&self) -> String; }
            #[typetag::serde $($ba)*]
            pub trait $b { fn text(&self) -> String; }
            #[typetag::serde(name = "nest")]
            impl $a for Nest<dyn $b> { fn text(&self) -> String { format!("nest({})", self.inner.text()) } }
            #[typetag::serde(name = "nest")]
            impl $b for Nest<dyn $a> { fn text(&self) -> String { format!("nest({})", self.inner.text()) } }
            pub const A: Kind = { mod m { use super::*; $leaves!($a); pub const KIND: Kind = one!($a Style::$sa); } m::KIND };
            pub const B: Kind = { mod m { use super::*; $leaves!($b); pub const KIND: Kind = one!($b Style::$sb); } m::KIND };
        }
    };
}
macro_rules! few { ($t:ident) => { leaves!($t 0 1 2 3 4 5 6 7); }; }
macro_rules! many { ($t:ident) => { leaves!($t
    0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39
    40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79
    80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113
    114 115 116 117 118 119); }; }

macro_rules! pairs {
    ($($m:ident $a:ident $b:ident $c:ident $leaves:ident;)*) => {
        $(
            pair! { $m $a [] Ext $b [(tag = "t")] Int $leaves }
        )*
        const PAIRS: &[(Kind, Kind)] = &[$(($m::A, $m::B)),*];
        pub mod more {
            use super::*;
            $(pair! { $m $b [(tag = "t", content = "c")] Adj $c [(tag = "t", content = "c", deny_unknown_fields)] Adj $leaves })*
            pub const PAIRS: &[(Kind, Kind)] = &[$(($m::A, $m::B)),*];
        }
        pub mod mixed {
            use super::*;
            $(pair! { $m $c [(tag = "t", default_variant = "leaf1")] Int $a [] Ext $leaves })*
            pub const PAIRS: &[(Kind, Kind)] = &[$(($m::A, $m::B)),*];
        }
    };
}

pairs! {
    p0 Ta0 Tb0 Tc0 few;
    p1 Ta1 Tb1 Tc1 few;
    p2 Ta2 Tb2 Tc2 few;
    p3 Ta3 Tb3 Tc3 few;
    p4 Ta4 Tb4 Tc4 few;
    p5 Ta5 Tb5 Tc5 many;
}

fn doc(s: Style, tag: &str, data: &str) -> String {
    match s {
        Style::Ext => format!("{{\"{}\":{}}}", tag, data),
        Style::Int => format!("{{\"t\":\"{}\",{}", tag, &data[1..]),
        Style::Adj => format!("{{\"t\":\"{}\",\"c\":{}}}", tag, data),
    }
}

struct Task {
    k: usize,
    write: Option<(usize, u32)>,
    doc: String,
    want: Result<String, Vec<String>>,
}

fn leaf(r: &mut Rng, kd: &Kind) -> (String, String) {
    let (i, x) = (r.below(kd.leaves), r.below(1000));
    (doc(kd.style, &format!("leaf{}", i), &format!("{{\"x\":{},\"s\":\"{}\"}}", x, "s".repeat(x % 7))), format!("leaf{}:{}:{}", i, x, "s".repeat(x % 7)))
}

fn task(r: &mut Rng, kinds: &[&Kind], k: usize) -> Task {
    let (kd, other) = (kinds[k], kinds[k ^ 1]);
    let mut t = Task { k, write: None, doc: String::new(), want: Err(vec![]) };
    match r.below(8) {
        0 => {
            t.doc = doc(kd.style, "nope", "{\"x\":1}");
            let mut want: Vec<String> = (0..kd.leaves).map(|i| format!("`leaf{}`", i)).collect();
            want.extend(["`nest`".into(), "`dup`".into(), "nope".into()]);
            t.want = Err(want);
        }
        1 => {
            t.doc = doc(kd.style, "dup", "{}");
            t.want = Err(vec!["unique".into(), "dup".into(), kd.name.into()]);
        }
        2 => {
            let (i, x) = (r.below(kd.leaves), r.below(1000) as u32);
            t.write = Some((i, x));
            t.want = Ok(doc(kd.style, &format!("leaf{}", i), &format!("{{\"x\":{},\"s\":\"s\"}}", x)));
        }
        3 | 4 => {
            let (d, w) = leaf(r, other);
            t.doc = doc(kd.style, "nest", &format!("{{\"inner\":{}}}", d));
            t.want = Ok(format!("nest({})", w));
        }
        5 => {
            let (d, w) = leaf(r, kd);
            let d = doc(other.style, "nest", &format!("{{\"inner\":{}}}", d));
            t.doc = doc(kd.style, "nest", &format!("{{\"inner\":{}}}", d));
            t.want = Ok(format!("nest(nest({}))", w));
        }
        _ => {
            let (d, w) = leaf(r, kd);
            t.doc = d;
            t.want = Ok(w);
        }
    }
    t
}

fn perform(kinds: &[&Kind], t: &Task) -> Option<String> {
    let got = guarded(|| match t.write {
        Some((i, x)) => Ok((kinds[t.k].write)(i, x)),
        None => (kinds[t.k].read)(&t.doc),
    });
    let ok = match (&got, &t.want) {
        (Ok(Ok(g)), Ok(w)) => g == w,
        (Ok(Err(e)), Err(ws)) => ws.iter().all(|w| e.contains(w.as_str())),
        _ => false,
    };
    if ok {
        None
    } else {
        Some(format!("{} {} {:?}: {:?}, expected {:?}", kinds[t.k].name, t.doc, t.write, got, t.want))
    }
}

/// Orders events where there is no time to speak of. Relaxed, so as to order nothing else.
static TICK: AtomicU64 = AtomicU64::new(0);
static AT: AtomicU64 = AtomicU64::new(0);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |n: &str, d: u64| -> u64 {
        let i = args.iter().position(|a| a == n);
        i.map_or(d, |i| args[i + 1].parse().expect("number"))
    };
    tt_harness::ctx::quiet_panics();
    let (seed, threads, stress, traits) = (arg("--seed", 1), arg("--threads", 8) as usize, arg("--stress", 300), arg("--traits", 1000) as usize);
    let jitter = arg("--jitter", 2000) as usize;
    let clock = arg("--clock", 1) == 1;
    let mut r = Rng::new(seed, 700, threads as u64);
    let mut all: Vec<&(Kind, Kind)> = PAIRS.iter().chain(more::PAIRS).chain(mixed::PAIRS).collect();
    r.shuffle(&mut all);
    let kinds: Vec<&Kind> = all.iter().flat_map(|p| [&p.0, &p.1]).collect();
    let first = kinds.len().min(traits) / 2;

    // Every round is the first use of a pair of traits by anyone.
    let tasks: Vec<Vec<(usize, Vec<Task>)>> = (0..threads)
        .map(|t| {
            (0..first)
                .map(|p| {
                    let mut r = Rng::new(seed, 701 + t as u64, p as u64);
                    let delay = if r.one_in(2) { 0 } else { r.below(jitter.max(1)) };
                    (delay, (0..3).map(|_| { let k = 2 * p + r.below(2); task(&mut r, &kinds, k) }).collect())
                })
                .collect()
        })
        .collect();
    let seen = first * 2;

    if clock {
        std::thread::spawn(|| {
            let mut last = (u64::MAX, 0);
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let at = AT.load(Relaxed);
                last = if at == last.0 { (at, last.1 + 1) } else { (at, 0) };
                if last.1 >= 60 {
                    println!("{{\"stuck\":{}}}", at);
                    std::process::exit(9);
                }
            }
        });
    }

    let barrier = AtomicUsize::new(0);
    let begin = Instant::now();
    let now = || if clock { begin.elapsed().as_nanos() as u64 } else { TICK.fetch_add(1, Relaxed) };
    let out: Vec<(Vec<String>, Vec<(u64, u64)>, u64)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (tasks, kinds, barrier, now) = (&tasks[t], &kinds, &barrier, &now);
                s.spawn(move || {
                    let (mut wrong, mut times, mut n) = (vec![], vec![], 0);
                    let meet = |round: usize| {
                        barrier.fetch_add(1, AcqRel);
                        let mut spins = 0;
                        while barrier.load(Acquire) < threads * (round + 1) {
                            spins += 1;
                            if spins > 200 || !clock { std::thread::yield_now() } else { std::hint::spin_loop() }
                        }
                    };
                    for (p, (delay, ts)) in tasks.iter().enumerate() {
                        meet(p);
                        for _ in 0..*delay {
                            std::hint::spin_loop();
                        }
                        for (i, t) in ts.iter().enumerate() {
                            let a = now();
                            let w = perform(kinds, t);
                            if i == 0 {
                                times.push((a, now()));
                            }
                            wrong.extend(w);
                            n += 1;
                        }
                        AT.fetch_add(1, Relaxed);
                    }
                    // Later uses.
                    let mut r = Rng::new(seed, 702, t as u64);
                    for _ in 0..stress {
                        let k = r.below(seen);
                        let t = task(&mut r, kinds, k);
                        wrong.extend(perform(kinds, &t));
                        n += 1;
                        AT.fetch_add(1, Relaxed);
                    }
                    (wrong, times, n)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });

    // What was seen: in how many rounds the first uses overlapped, and in which orders
    // they began and ended.
    let (mut overlapping, mut most, mut orders) = (0, 0, std::collections::BTreeSet::new());
    for p in 0..first {
        let mut starts: Vec<(u64, usize)> = (0..threads).map(|t| (out[t].1[p].0, t)).collect();
        starts.sort();
        let mut ends: Vec<(u64, usize)> = (0..threads).map(|t| (out[t].1[p].1, t)).collect();
        ends.sort();
        let during = starts.iter().filter(|s| s.0 < ends[0].0).count();
        overlapping += (during > 1) as u64;
        most = most.max(during);
        orders.insert(fnv(&format!("{:?}{:?}{}", starts.iter().map(|s| s.1).collect::<Vec<_>>(), ends.iter().map(|s| s.1).collect::<Vec<_>>(), during)));
    }
    let mut n = 0;
    let mut wrong = vec![];
    for o in &out {
        n += o.2;
        wrong.extend(o.0.iter().take(3).cloned());
    }
    println!(
        "{}",
        serde_json::json!({"done": true, "operations": n, "first uses": first, "overlapping": overlapping, "most": most,
            "orders": orders.iter().map(|o| o.to_string()).collect::<Vec<_>>(), "wrong": wrong.into_iter().take(5).collect::<Vec<_>>()})
    );
}
