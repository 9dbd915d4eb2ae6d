//! L01..L04: per-key linearizability under generated schedules.
use crate::fw::*;
use crate::lin::{self, Ev, Op};
use crate::tgt::*;
use loom::rt;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vcore::{Ctx, Gen, Prop, Res, Suite, ensure, fail, vtrace};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "L01",
            rule: "A case draws a hash distribution, a container state (empty, small, about to grow, just grown with the old table still being drained, overflowing bucket, about to shrink, just shrunk), 2-4 threads with 1-5 operations each (sync and async calls, entry operations, try_entry) on 1-3 hot keys plus fresh keys, and a schedule (planned preemptions at individual atomic operations, or a random walk); the recorded history must have a per-key linearization ending in the observed final contents. Non-trivial: two operations of different threads on the same key overlapped in time, at least one of them writing, and at least one preemption happened.",
            suites: vec![
                Suite { name: "hashmap", quick: 480_000, thorough: 6_000_000, f: |g, c| case::<Map>(g, c, false, false) },
                Suite { name: "hashset", quick: 150_000, thorough: 2_000_000, f: |g, c| case::<Set>(g, c, false, false) },
            ],
        },
        Prop {
            id: "L02",
            rule: "As for L01, with HashIndex, where half of the reads are lock-free (peek, peek_with, contains). Non-trivial: two operations of different threads on the same key overlapped in time, at least one of them writing.",
            suites: vec![Suite { name: "hashindex", quick: 480_000, thorough: 6_000_000, f: |g, c| case::<Index>(g, c, false, false) }],
        },
        Prop {
            id: "L03",
            rule: "As for L01, with HashCache of maximum capacity 64-256; an eviction reported by a call counts as a removal of that key within the call. Non-trivial: two operations of different threads on the same key overlapped in time, at least one of them writing.",
            suites: vec![Suite { name: "hashcache", quick: 480_000, thorough: 6_000_000, f: |g, c| case::<Cache>(g, c, false, false) }],
        },
        Prop {
            id: "L04",
            rule: "As for L01, with TreeIndex of 0-420 entries (around leaf/node split and merge sizes, partially thinned out) and lock-free reads. Non-trivial: two operations of different threads on the same key overlapped in time, at least one of them writing.",
            suites: vec![Suite { name: "treeindex", quick: 480_000, thorough: 6_000_000, f: |g, c| case::<Tree>(g, c, true, false) }],
        },
        Prop {
            id: "R01",
            rule: R01,
            suites: vec![
                Suite { name: "hashmap", quick: 200_000, thorough: 6_000_000, f: |g, c| case::<Map>(g, c, false, true) },
                Suite { name: "hashset", quick: 60_000, thorough: 2_000_000, f: |g, c| case::<Set>(g, c, false, true) },
                Suite { name: "hashindex", quick: 200_000, thorough: 6_000_000, f: |g, c| case::<Index>(g, c, false, true) },
                Suite { name: "hashcache", quick: 100_000, thorough: 3_000_000, f: |g, c| case::<Cache>(g, c, false, true) },
                Suite { name: "treeindex", quick: 200_000, thorough: 6_000_000, f: |g, c| case::<Tree>(g, c, true, true) },
                Suite { name: "hashmap-scan", quick: 100_000, thorough: 3_000_000, f: |g, c| crate::scan::case::<Map>(g, c, false, true) },
                Suite { name: "hashindex-scan", quick: 150_000, thorough: 4_000_000, f: |g, c| crate::scan::case::<Index>(g, c, false, true) },
                Suite { name: "hashcache-scan", quick: 60_000, thorough: 2_000_000, f: |g, c| crate::scan::case::<Cache>(g, c, false, true) },
                Suite { name: "treeindex-scan", quick: 150_000, thorough: 4_000_000, f: |g, c| crate::scan::case::<Tree>(g, c, true, true) },
            ],
        },
    ]
}

const R01: &str = "A case is drawn as for L01 to L04 (any container). While it runs, vector clocks are kept for the threads and for every atomic variable of scc, saa and sdd, following the C++20 rules for release and acquire operations, release sequences, fences and unpark; every access to a key or value by a closure, comparison, hash, clone, and, where the container does not defer it, drop or move must be ordered after the last write to it, and every write after the reads before it. Non-trivial: a thread accessed a key or value last written by another thread in the case.";

#[derive(Clone, Debug)]
pub struct Step {
    pub how: How,
    pub op: Op,
    pub var: u8,
    pub k: u32,
    pub ver: u32,
}

impl Step {
    pub fn name(&self) -> String {
        let h = match self.how {
            How::Sync => "",
            How::Async => " async",
            How::Cancel(_) => " cancelled",
        };
        format!("{:?}/{}({}){h}", self.op, self.var, self.k)
    }
}

pub fn writes(op: Op) -> bool {
    !matches!(op, Op::Read | Op::Contains)
}

pub fn gen_op<T: Tgt>(g: &mut Gen, val: u64) -> (Op, u8) {
    let all = [
        Op::Insert(val),
        Op::Read,
        Op::Remove,
        Op::RemoveQ,
        Op::Upsert(val),
        Op::Update(val),
        Op::Contains,
        Op::RemoveOdd,
        Op::RemoveOddQ,
        Op::OrInsert(val),
        Op::Add,
    ];
    let w: Vec<u32> = all
        .iter()
        .zip([8, 9, 6, 6, 4, 4, 3, 2, 2, 3, 3])
        .map(|(o, w)| if T::variants(*o) == 0 { 0 } else { w })
        .collect();
    let op = all[g.weighted(&w)];
    let n = T::variants(op).max(1);
    (op, g.below(u64::from(n)) as u8)
}

/// Keys that operations concentrate on.
pub fn hot_keys(g: &mut Gen, sh: &Shape, is_tree: bool) -> Vec<u32> {
    let n = g.range(1, 3);
    (0..n)
        .map(|_| {
            if !sh.keys.is_empty() && g.chance(2, 3) {
                sh.keys[g.usize(sh.keys.len())]
            } else if is_tree {
                let hi = sh.keys.last().copied().unwrap_or(100) + 8;
                90 + g.below(u64::from(hi - 90)) as u32
            } else {
                1 + g.below(60) as u32
            }
        })
        .collect()
}

pub fn gen_threads<T: Tgt>(g: &mut Gen, sh: &Shape, hot: &[u32], is_tree: bool, max_ops: usize, how: impl Fn(&mut Gen) -> How) -> Vec<Vec<Step>> {
    let n = 2 + g.weighted(&[6, 4, 1]);
    let mut ver = 0_u32;
    let mut fresh = sh.fresh;
    let neighbours = sh.keys.len();
    (0..n)
        .map(|_| {
            let m = g.range(1, max_ops);
            (0..m)
                .map(|_| {
                    ver += 1;
                    let val = 10 + u64::from(ver) * 7 + u64::from(ver % 2);
                    let how = how(g);
                    let (mut op, mut var) = gen_op::<T>(g, val);
                    let k = match g.weighted(&[14, 5, 3]) {
                        0 => hot[g.usize(hot.len())],
                        1 => {
                            // Structure changing: a fresh key or a neighbour.
                            op = Op::Insert(val);
                            var = 0;
                            fresh += 1;
                            if is_tree && neighbours > 0 {
                                sh.keys[g.usize(neighbours)] + 1 + g.below(3) as u32
                            } else {
                                fresh
                            }
                        }
                        _ => {
                            if neighbours > 0 {
                                let rem = if T::variants(Op::Remove) > 0 { Op::Remove } else { Op::RemoveQ };
                                op = rem;
                                var = 0;
                                sh.keys[g.usize(neighbours)]
                            } else {
                                hot[g.usize(hot.len())]
                            }
                        }
                    };
                    Step { how, op, var, k, ver }
                })
                .collect()
        })
        .collect()
}

pub fn how_plain(g: &mut Gen) -> How {
    if g.chance(1, 3) { How::Async } else { How::Sync }
}

pub struct Shared<T> {
    pub t: T,
    pub evs: Mutex<Vec<Ev>>,
    pub steps: Vec<Vec<Step>>,
}

pub fn init_map<T: Tgt>(sh: &Shape) -> BTreeMap<u32, u64> {
    sh.keys
        .iter()
        .map(|k| (*k, if T::NAME == "HashSet" { 0 } else { init_val(*k) }))
        .collect()
}

pub fn overlaps(evs: &[Ev]) -> bool {
    evs.iter().any(|a| {
        evs.iter().any(|b| {
            a.tid != b.tid && a.key == b.key && (writes(a.op) || writes(b.op)) && a.start < b.end && b.start < a.end
        })
    })
}

pub fn fix_set<T: Tgt>(steps: &mut [Vec<Step>]) {
    if T::NAME == "HashSet" {
        // A conditional removal of a set cannot look at the key.
        for s in steps.iter_mut().flatten() {
            if s.op == Op::RemoveOdd {
                s.op = Op::Remove;
            }
        }
    }
}

fn case<T: Tgt>(g: &mut Gen, ctx: &mut Ctx, is_tree: bool, race: bool) -> Res {
    vcore::track::reset();
    vcore::track::report_drops(race && !is_tree && T::NAME != "HashIndex");
    {
        let (t, sh) = prepare::<T>(g, is_tree);
        trace_shape(T::NAME, &sh, t.cap());
        let hot = hot_keys(g, &sh, is_tree);
        let mut steps = gen_threads::<T>(g, &sh, &hot, is_tree, 5, how_plain);
        fix_set::<T>(&mut steps);
        let cfg = gen_sched(g, &steps.iter().map(Vec::len).collect::<Vec<_>>(), SchedOpts { race, ..SchedOpts::default() });
        for (i, s) in steps.iter().enumerate() {
            vtrace!("T{i}: {}", s.iter().map(Step::name).collect::<Vec<_>>().join(", "));
        }
        trace_sched(&cfg);
        let init = init_map::<T>(&sh);
        let cap = t.cap();
        let shared = Arc::new(Shared { t, evs: Mutex::new(Vec::new()), steps });
        let n = shared.steps.len();
        let out = go(cfg, &shared, n, |s, tid| {
            for (i, st) in s.steps[tid].iter().enumerate() {
                rt::op_begin(i);
                let sw = rt::switches();
                let start = rt::now();
                let r = s.t.run(st.how, st.op, st.var, st.k, st.ver);
                let end = rt::now();
                if let Some(d) = r {
                    let mut evs = s.evs.lock().unwrap();
                    let n = evs.len();
                    record(&mut evs, &st.name(), st.op, st.k, d, start, end);
                    for e in &mut evs[n..] {
                        e.broken = rt::switches() != sw;
                        e.lock_free = T::lock_free(st.op, st.var);
                    }
                }
            }
        })?;
        ledger()?;
        let evs = shared.evs.lock().unwrap().clone();
        for e in &evs {
            vtrace!("T{} [{}..{}] {} -> {:?}", e.tid, e.start, e.end, e.name, e.ret);
        }
        let fin = shared.t.contents();
        ledger()?;
        if out.contended > 0 {
            ctx.label("contended");
        }
        if shared.t.cap() != cap {
            ctx.label("capacity_changed");
        }
        ctx.label(match sh.kind {
            "just grown" => "just_grown",
            "about to grow" => "about_to_grow",
            "about to shrink" => "about_to_shrink",
            "just shrunk" => "just_shrunk",
            k => k,
        });
        if race {
            ctx.nontrivial = out.handed_over > 0;
            ctx.count("handed_over", out.handed_over);
            if let Some(e) = out.race {
                fail!("race", "{e}");
            }
        } else if overlaps(&evs) {
            ctx.label("overlap");
            ctx.nontrivial = out.switches > n as u64 - 1;
        }
        if !race {
            lin::check(evs, &init, &fin)?;
        }
        if !is_tree && T::NAME != "HashSet" {
            let _ = fail_len::<T>(&shared.t, fin.len())?;
        }
        let Ok(_) = Arc::try_unwrap(shared) else {
            fail!("internal", "the shared state is still referred to");
        };
    }
    all_dropped()
}

fn fail_len<T: Tgt>(t: &T, n: usize) -> Res {
    let m = t.contents().len();
    ensure!(m == n, "lin", "contents changed without operations: {n} -> {m}");
    Ok(())
}
