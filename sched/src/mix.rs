//! X01, A01, A02: views, cancellation and progress, in mixed histories of operations and scans.
use crate::fw::*;
use crate::lin::Op;
use crate::linear::{hot_keys, how_plain, init_map};
use crate::scan::{Do, Scan, Shared, gen_steps, judge, resizes, trace_steps};
use crate::tgt::*;
use crate::{fw, watch};
use loom::rt;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vcore::types::*;
use vcore::{Ctx, Gen, Prop, Res, Suite, ensure, fail, vtrace};

#[derive(Clone, Copy, PartialEq, Eq)]
enum What {
    Views,
    Cancel,
    Progress,
}

fn how_cancel(g: &mut Gen) -> How {
    match g.weighted(&[3, 3, 5]) {
        0 => How::Sync,
        1 => How::Async,
        _ => How::Cancel(1 + g.weighted(&[8, 4, 2, 1]) as u8),
    }
}

fn how_async(g: &mut Gen) -> How {
    match g.weighted(&[4, 6, 1]) {
        0 => How::Sync,
        1 => How::Async,
        _ => How::Cancel(1 + g.weighted(&[6, 3, 1]) as u8),
    }
}

fn how_of(s: &Do) -> How {
    match s {
        Do::Op(s) => s.how,
        Do::Scan(p) => p.how,
    }
}

/// Turns most of the operations into ones that hold a view for a while.
fn more_views<T: Scan>(g: &mut Gen, steps: &mut [Vec<Do>]) {
    let m = T::variants(Op::Add);
    for s in steps.iter_mut().flatten() {
        if let Do::Op(s) = s
            && g.chance(1, 2)
        {
            if m > 0 {
                s.op = Op::Add;
                s.var = g.below(u64::from(m)) as u8;
            } else {
                s.op = Op::Read;
                s.var = 0;
            }
        }
    }
}

struct After<T> {
    sh: Arc<Shared<T>>,
    fin: Mutex<BTreeMap<u32, u64>>,
    err: ErrSlot,
    keys: Vec<u32>,
    mixed: bool,
    base: usize,
}

/// The container must be as usable as if no call had ever been waiting.
fn after<T: Scan>(sh: &Arc<Shared<T>>, init: &BTreeMap<u32, u64>, keys: Vec<u32>, mixed: bool, how: How) -> Result<BTreeMap<u32, u64>, vcore::Fail> {
    let a = Arc::new(After { sh: sh.clone(), fin: Mutex::default(), err: ErrSlot::default(), keys, mixed, base: init.len() });
    let cfg = rt::Config { mode: rt::Mode::Plan(Vec::new()), order: vec![0], spurious: 0, budget: 30_000_000, race: false };
    go(cfg, &a, 1, move |a, _| a.err.res(probe(a, how)))?;
    a.err.take()?;
    let f = a.fin.lock().unwrap().clone();
    Ok(f)
}

fn probe<T: Scan>(a: &After<T>, how: How) -> Res {
    let t = &a.sh.t;
    let is_tree = T::NAME == "TreeIndex";
    let is_cache = T::NAME == "HashCache";
    rt::op_begin(0);
    let fin = t.contents();
    let n = t.length();
    ensure!(n == fin.len(), "len", "len() is {n}, but there are {} entries", fin.len());
    *a.fin.lock().unwrap() = fin.clone();
    // Every key can be looked up, removed and inserted.
    rt::op_begin(1);
    for k in &a.keys {
        let (op, var) = (Op::Contains, 0);
        let r = t.run(how, op, var, *k, 900_000).and_then(|d| d.0);
        ensure!(r == Some(crate::lin::Ret::Bool(fin.contains_key(k))), "lookup", "contains({k}) is {r:?} after the calls were dropped");
    }
    if is_cache {
        return Ok(());
    }
    // Grow, then shrink again.
    rt::op_begin(2);
    let more = if is_tree { 60 } else { 300 };
    for i in 0..more {
        let k = 20_000 + i * 3;
        let r = t.run(how, Op::Insert(7), 0, k, 900_001).and_then(|d| d.0);
        ensure!(r == Some(crate::lin::Ret::Bool(true)), "insert", "insert({k}) returned {r:?}");
    }
    let n = fin.len() + more as usize;
    if a.mixed && !is_tree {
        ensure!(t.cap() >= n, "stuck", "the capacity is {} with {n} well-distributed entries: the table no longer grows", t.cap());
    }
    let top = t.cap();
    rt::op_begin(3);
    let now = t.contents();
    ensure!(now.len() == n, "contents", "{} entries instead of {n}", now.len());
    let rem = if T::variants(Op::Remove) > 0 { Op::Remove } else { Op::RemoveQ };
    for k in now.keys() {
        let r = t.run(how, rem, 0, *k, 900_002).and_then(|d| d.0);
        ensure!(
            matches!(r, Some(crate::lin::Ret::Bool(true) | crate::lin::Ret::Val(Some(_)))),
            "remove",
            "removing {k} returned {r:?}"
        );
    }
    ensure!(t.contents().is_empty(), "contents", "entries are left after removing all of them");
    if a.mixed && !is_tree {
        let c = t.cap();
        ensure!(c < top, "stuck", "the capacity is still {c} after {n} entries were removed one by one: the table no longer shrinks (initially {} entries)", a.base);
    }
    Ok(())
}

fn case<T: Scan>(g: &mut Gen, ctx: &mut Ctx, is_tree: bool, what: What) -> Res {
    vcore::track::reset();
    watch::start(what == What::Views);
    fw::poisoned_reset();
    {
        let (t, sh) = prepare::<T>(g, is_tree);
        trace_shape(T::NAME, &sh, t.cap());
        let mut hot = hot_keys(g, &sh, is_tree);
        if what != What::Cancel {
            hot.truncate(1 + g.usize(2));
        }
        let how = match what {
            What::Views => how_plain,
            What::Cancel => how_cancel,
            What::Progress => how_async,
        };
        let mut steps = gen_steps::<T>(g, &sh, &hot, is_tree, 4, how);
        if what != What::Cancel {
            more_views::<T>(g, &mut steps);
        }
        let cfg = gen_sched(g, &steps.iter().map(Vec::len).collect::<Vec<_>>(), SchedOpts::default());
        let fin_how = if g.chance(1, 2) { How::Async } else { How::Sync };
        trace_steps(&steps);
        trace_sched(&cfg);
        let init = init_map::<T>(&sh);
        let n = steps.len();
        let cancels = steps.iter().flatten().filter(|s| matches!(how_of(s), How::Cancel(_))).count();
        let asyncs = steps.iter().flatten().filter(|s| how_of(s) != How::Sync).count();
        let syncs = steps.iter().flatten().filter(|s| how_of(s) == How::Sync).count();
        let mut keys: Vec<u32> = init.keys().copied().collect();
        for s in steps.iter().flatten() {
            if let Do::Op(s) = s {
                keys.push(s.k);
            }
        }
        keys.sort_unstable();
        keys.dedup();
        let shared = Shared::new(t, steps);
        let out = go(cfg, &shared, n, |s, tid| {
            for i in 0..s.steps[tid].len() {
                s.step(tid, i);
            }
        })?;
        watch::start(false);
        let evs = shared.evs.lock().unwrap().clone();
        let scans = std::mem::take(&mut *shared.scans.lock().unwrap());
        for e in &evs {
            vtrace!("T{} [{}..{}] {} -> {:?}", e.tid, e.start, e.end, e.name, e.ret);
        }
        let caps = shared.caps.lock().unwrap().clone();
        if caps.len() > 1 {
            ctx.label("capacity_changed");
        }
        ctx.label(sh.kind);
        if out.contended > 0 {
            ctx.label("contended");
        }
        let dropped = evs.iter().filter(|e| e.ret == crate::lin::Ret::Unknown).count() + scans.iter().filter(|r| !r.out.returned).count();
        match what {
            What::Views => {
                ledger()?;
                let overlap = crate::linear::overlaps(&evs)
                    || scans.iter().any(|r| evs.iter().any(|e| e.tid != r.tid && crate::linear::writes(e.op) && e.start < r.end && r.start < e.end));
                if overlap {
                    ctx.label("overlap");
                }
                ctx.nontrivial = overlap && out.contended > 0;
                let fin = shared.t.contents();
                judged(judge::<T>(&init, &fin, evs, &scans, resizes(&sh, &caps)))?;
                ledger()?;
            }
            What::Cancel => {
                ledger()?;
                ctx.nontrivial = dropped > 0;
                if dropped > 0 {
                    ctx.label("dropped_pending");
                }
                if dropped > 1 {
                    ctx.label("dropped_several");
                }
                if caps.len() > 1 && dropped > 0 {
                    ctx.label("dropped_and_resized");
                }
                let _ = cancels;
                let fin = after::<T>(&shared, &init, keys, sh.dist == Dist::Mixed, fin_how)?;
                ledger()?;
                judged(judge::<T>(&init, &fin, evs, &scans, resizes(&sh, &caps)))?;
            }
            What::Progress => {
                ctx.nontrivial = out.contended > 0 && asyncs > 0 && out.switches > n as u64 - 1;
                if asyncs > 0 && syncs > 0 {
                    ctx.label("sync_and_async");
                }
                if dropped > 0 {
                    ctx.label("dropped_pending");
                }
            }
        }
        drop(scans);
        let Ok(_) = Arc::try_unwrap(shared) else {
            fail!("internal", "the shared state is still referred to");
        };
    }
    if what == What::Progress {
        fw::drain();
        return fw::poisoned_check();
    }
    fw::all_dropped()?;
    fw::poisoned_check()
}

const X01: &str = "A case draws a container state as for L01, 2-4 threads on 1-2 hot keys whose operations mostly hold a view for a while (update closures, occupied entries, conditional removals, read closures; iterate, iterate-mutably, retain, cursor), and a schedule that may preempt inside of the view; values are modified in two steps. Every view is entered in a table of views: an exclusive view must be alone, a shared one must not meet an exclusive one, a value must not change or be half-modified under a view; and all modifications (each adds a fixed amount to the value) must appear in one per-key linearization ending in the final contents. Non-trivial: two operations or scans of different threads on the same key overlapped, one of them writing, and some thread had to wait for a lock.";
const A01: &str = "A case draws a container state as for L01, 2-4 threads with 1-4 operations and at least one scan, where half of the calls are futures that are dropped when still pending after 1-4 polls, and a schedule. Afterwards, in a second scheduled run, every key is looked up, 300 (tree: 60) further entries are inserted, and everything is removed, with sync or async calls: any lock left behind shows up as a deadlock; len, contents, growing and shrinking must be right. The history must be explained with every dropped call taken as having happened completely or not at all (scans: per entry); every instance must be dropped in the end. Non-trivial: at least one pending call was dropped.";
const A02: &str = "A case draws a container state as for L01, 2-4 threads on 1-2 hot keys with sync, async and dropped-while-pending calls that hold entries for a while, scans and resizes; futures get another waker at every second poll and are polled only after having been woken; and a schedule. Every call must return: a run in which all threads wait is a deadlock, one that uses up 3 million steps is an endless retry. Non-trivial: a thread had to wait, a call was async, and at least one preemption happened.";

/// The known finding of L02 and S01 is not a matter of views or of dropped calls.
fn judged(r: Res) -> Res {
    match r {
        Err(f) if f.sig == "peek-miss-during-update" => Ok(()),
        r => r,
    }
}

macro_rules! suite {
    ($n:literal, $t:ty, $tree:literal, $w:expr, $q:expr, $th:expr) => {
        Suite { name: $n, quick: $q, thorough: $th, f: |g, c| case::<$t>(g, c, $tree, $w) }
    };
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "X01",
            rule: X01,
            suites: vec![
                suite!("hashmap", Map, false, What::Views, 120_000, 3_000_000),
                suite!("hashset", Set, false, What::Views, 50_000, 1_000_000),
                suite!("hashcache", Cache, false, What::Views, 80_000, 2_000_000),
            ],
        },
        Prop {
            id: "A01",
            rule: A01,
            suites: vec![
                suite!("hashmap", Map, false, What::Cancel, 40_000, 1_500_000),
                suite!("hashset", Set, false, What::Cancel, 15_000, 500_000),
                suite!("hashindex", Index, false, What::Cancel, 40_000, 1_500_000),
                suite!("hashcache", Cache, false, What::Cancel, 40_000, 1_500_000),
                suite!("treeindex", Tree, true, What::Cancel, 60_000, 2_000_000),
            ],
        },
        Prop {
            id: "A02",
            rule: A02,
            suites: vec![
                suite!("hashmap", Map, false, What::Progress, 100_000, 3_000_000),
                suite!("hashset", Set, false, What::Progress, 40_000, 1_000_000),
                suite!("hashindex", Index, false, What::Progress, 100_000, 3_000_000),
                suite!("hashcache", Cache, false, What::Progress, 80_000, 2_000_000),
                suite!("treeindex", Tree, true, What::Progress, 100_000, 3_000_000),
            ],
        },
    ]
}
