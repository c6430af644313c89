//! C13: many threads, from the first use on, in fresh processes.
use crate::c_hist::{op, perform, Op};
use crate::ctx::{clip, Ctx};
use crate::fams::{self, FAMS};
use crate::fork::in_child;
use crate::formats::{ser, Fmt};
use crate::model;
use crate::play::{lower, STYLES};
use crate::rng::Rng;
use crate::v::V;
use serde_json::json;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub fn run(args: &[String]) {
    let mut cx = Ctx::new("C13", args);
    for n in 0..cx.n(60) {
        cx.case("mixed", n, |cx| mixed(cx, n));
    }
    for n in 0..cx.n(150) {
        if cx.violations >= 2 {
            break; // each may take long
        }
        cx.case("gathered", n, |cx| gathered(cx, n));
    }
    cx.finish();
}

/// All threads are inside an operation at once, at some depth, before any goes on. Then one
/// stays inside while the others go on to the end and do more.
fn gathered(cx: &mut Ctx, n: u64) {
    let mut r = Rng::new(cx.seed, 221, n);
    let threads = *r.pick(&[2, 3, 5, 8, 16, 24, 40]);
    let depth = if r.one_in(2) { 1 + r.below(6) } else { 6 + r.below(20) };
    let same = r.one_in(3);
    let chain = |r: &mut Rng| {
        let mut v = V::Struct("S", vec![("a", V::I32(r.below(1000) as i32)), ("b", V::Str("x".repeat(r.below(9))))]);
        for _ in 0..depth {
            let (k, which) = (r.below(FAMS.len()), r.below(2));
            let inner = V::Dyn(k, which, Box::new(v));
            v = match r.below(3) {
                0 => V::Struct("S", vec![("a", inner)]),
                1 => V::Struct("S", vec![("a", V::Some(Box::new(V::Bool(true)))), ("b", inner)]),
                _ => V::Map(true, vec![(V::Str("k".into()), inner)]),
            };
        }
        V::Dyn(r.below(FAMS.len()), 0, Box::new(v))
    };
    let make = |r: &mut Rng| loop {
        let obj = chain(r);
        if matches!(&obj, V::Dyn(k, _, x) if model::clashes(*k, x)) {
            continue;
        }
        let st = r.below(STYLES.len());
        let f = *r.pick(&[Fmt::JsonStr, Fmt::JsonReader, Fmt::Cbor, Fmt::Bincode, Fmt::Postcard]);
        return match r.below(5) {
            0 => Op::Write(obj, r.one_in(2), None),
            1 => Op::WriteTo(obj, f),
            2 => {
                let d = lower(&model::resolve(&obj, STYLES[st].hr));
                Op::Read(obj, d, st, None)
            }
            _ => match ser(f, &model::resolve(&obj, f.human())) {
                Ok(d) => Op::ReadFrom(obj, d, f),
                Err(_) => continue,
            },
        };
    };
    let first = make(&mut r);
    let ops: Vec<Op> = (0..threads).map(|_| if same { first.clone() } else { make(&mut r) }).collect();
    let at: Vec<usize> = (0..threads).map(|_| if r.one_in(3) { 1 + r.below(depth + 1) } else { depth + 1 }).collect();
    let stays = r.below(threads);
    let alone = in_child(|| {
        let out: Vec<String> = ops.iter().map(|o| in_child(|| perform(o).into_bytes()).map_or_else(|e| e, |b| String::from_utf8_lossy(&b).into_owned())).collect();
        serde_json::to_vec(&out).unwrap()
    });
    let alone: Vec<String> = match alone {
        Ok(b) => serde_json::from_slice(&b).unwrap(),
        Err(e) => return cx.violation(&format!("operations {:?}: {}", ops, e)),
    };
    let got = in_child(|| {
        let inside = Arc::new((Mutex::new((0usize, 0usize)), Condvar::new()));
        // Waits until all are inside; the one that stays, until the others are done too.
        fn meet(p: &(Mutex<(usize, usize)>, Condvar), threads: usize, others: usize) -> bool {
            let mut g = p.0.lock().unwrap();
            g.0 += 1;
            p.1.notify_all();
            let end = Instant::now() + Duration::from_secs(90);
            while g.0 < threads || g.1 < others {
                let now = Instant::now();
                if now >= end {
                    // Nobody need wait any more.
                    *g = (usize::MAX / 2, usize::MAX / 2);
                    p.1.notify_all();
                    return false;
                }
                g = p.1.wait_timeout(g, end - now).unwrap().0;
            }
            true
        }
        let out: Vec<(Vec<(usize, String)>, bool, bool)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (ops, alone, at, p) = (&ops, &alone, at[t], inside.clone());
                    std::thread::Builder::new()
                        .stack_size(24 << 20)
                        .spawn_scoped(s, move || {
                            let others = if t == stays { threads - 1 } else { 0 };
                            let met = Rc::new(Cell::new(None));
                            let mut calls = 0;
                            let (m, q) = (met.clone(), p.clone());
                            fams::set_before(Some(Box::new(move || {
                                calls += 1;
                                if calls == at {
                                    m.set(Some(meet(&q, threads, others)));
                                }
                            })));
                            let mut wrong = vec![];
                            let mut check = |i: usize| {
                                let g = perform(&ops[i]);
                                if g != alone[i] {
                                    wrong.push((i, g));
                                }
                            };
                            check(t);
                            fams::set_before(None);
                            let was_inside = met.get().is_some();
                            let fine = met.get().unwrap_or_else(|| meet(&p, threads, others));
                            if t != stays {
                                for j in 1..4 {
                                    check((t + j) % threads);
                                }
                                p.0.lock().unwrap().1 += 1;
                                p.1.notify_all();
                            }
                            wrong.truncate(3);
                            (wrong, was_inside, fine)
                        })
                        .expect("thread")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        serde_json::to_vec(&out).unwrap()
    });
    let got: Vec<(Vec<(usize, String)>, bool, bool)> = match got {
        Ok(b) => serde_json::from_slice(&b).unwrap(),
        Err(e) => return cx.violation(&format!("{} threads at once inside {:?}: {}", threads, ops, e)),
    };
    for (t, (wrong, _, fine)) in got.iter().enumerate() {
        for (i, g) in wrong {
            cx.violation(&format!(
                "{:?} gave {} with {} threads inside operations {} deep, and {} alone", ops[*i], clip(g, 800), threads, depth + 1, clip(&alone[*i], 800)));
        }
        if !fine {
            cx.violation(&format!("thread {} of {} inside {:?} waited 90 s for the others to come to or to the end of theirs", t, threads, ops[t]));
        }
    }
    let inside = got.iter().filter(|g| g.1).count();
    let total: usize = (0..threads).filter(|&t| got[t].1).map(|t| at[t]).sum();
    cx.count("threads inside operations at once, summed", inside as u64);
    cx.count("objects being read or written at once, summed", total as u64);
    cx.evaluations += threads as u64;
    cx.eval(&format!("{:?}{:?}{}", ops, at, stays), inside > 1);
    cx.sample("gathered", || json!({"threads": threads, "inside at once": inside, "objects open at once": total, "operations": ops.iter().map(|o| o.kind()).collect::<Vec<_>>()}));
}

fn mixed(cx: &mut Ctx, n: u64) {
    let mut r = Rng::new(cx.seed, 220, n);
    let few = r.one_in(3);
    let pool: Vec<Op> = (0..if few { 2 + r.below(4) } else { 12 + r.below(30) }).map(|_| op(&mut r)).collect();
    let alone = in_child(|| {
        // Each in a process of its own where few, in one process where many.
        let out: Vec<String> = pool
            .iter()
            .map(|o| {
                if few {
                    in_child(|| perform(o).into_bytes()).map_or_else(|e| e, |b| String::from_utf8_lossy(&b).into_owned())
                } else {
                    perform(o)
                }
            })
            .collect();
        serde_json::to_vec(&out).unwrap()
    });
    let alone: Vec<String> = match alone {
        Ok(b) => serde_json::from_slice(&b).unwrap(),
        Err(e) => return cx.violation(&format!("operations {:?}: {}", pool, e)),
    };
    let threads = 2 + r.below(11);
    let rounds = if few { 3 } else { 6 };
    let plans: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let mut p: Vec<usize> = (0..rounds).flat_map(|_| 0..pool.len()).collect();
            r.shuffle(&mut p);
            p
        })
        .collect();
    let delays: Vec<usize> = (0..threads).map(|_| if r.one_in(2) { 0 } else { r.below(4000) }).collect();
    let got = in_child(|| {
        let ready = AtomicUsize::new(0);
        let begin = Instant::now();
        let out: Vec<(Vec<(usize, String)>, Vec<(u64, u64)>)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (ready, pool, plan, alone, delay) = (&ready, &pool, &plans[t], &alone, delays[t]);
                    std::thread::Builder::new()
                        .stack_size(32 << 20)
                        .spawn_scoped(s, move || {
                            ready.fetch_add(1, Ordering::SeqCst);
                            while ready.load(Ordering::SeqCst) < threads {
                                std::hint::spin_loop();
                            }
                            for _ in 0..delay {
                                std::hint::spin_loop();
                            }
                            let (mut wrong, mut times) = (vec![], vec![]);
                            for &i in plan {
                                let a = begin.elapsed().as_nanos() as u64;
                                let g = perform(&pool[i]);
                                times.push((a, begin.elapsed().as_nanos() as u64));
                                if g != alone[i] && wrong.len() < 3 {
                                    wrong.push((i, g));
                                }
                            }
                            (wrong, times)
                        })
                        .expect("thread")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        serde_json::to_vec(&out).unwrap()
    });
    let got: Vec<(Vec<(usize, String)>, Vec<(u64, u64)>)> = match got {
        Ok(b) => serde_json::from_slice(&b).unwrap(),
        Err(e) => return cx.violation(&format!("{} threads doing {:?}: {}", threads, pool, e)),
    };
    let mut all = vec![];
    for (t, (wrong, times)) in got.iter().enumerate() {
        for (i, g) in wrong {
            cx.violation(&format!(
                "{:?} gave {} among {} threads and {} alone", pool[*i], clip(g, 800), threads, clip(&alone[*i], 800)));
        }
        all.extend(times.iter().map(|x| (x.0, x.1, t)));
        for i in &plans[t] {
            cx.count(pool[*i].kind(), 1);
        }
    }
    all.sort();
    let overlapping = all.windows(2).filter(|w| w[1].0 < w[0].1).count();
    cx.count("operations overlapping the one begun before", overlapping as u64);
    let order: Vec<usize> = all.iter().map(|x| x.2).collect();
    cx.evaluations += all.len() as u64;
    cx.eval(&format!("{:?}{:?}", order, plans), overlapping > 0);
    cx.sample("mixed", || json!({"threads": threads, "operations": pool.iter().map(|o| o.kind()).collect::<Vec<_>>(), "order of starts": order.iter().take(60).collect::<Vec<_>>(), "overlapping": overlapping}));
}
