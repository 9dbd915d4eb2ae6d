//! B01: what may not wait for a suspended writer.
use crate::fw;
use crate::fw::*;
use crate::lin::Op;
use crate::linear::{Step, fix_set, gen_op, gen_threads, hot_keys};
use crate::scan::{Do, Kind, Plan, Scan, Shared, gen_plan, trace_steps};
use crate::tgt::*;
use loom::rt::{self, Config, Mode, Preempt, SUSPEND};
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use vcore::types::*;
use vcore::{Ctx, Fail, Gen, Prop, Res, Suite, fail};

fn how(g: &mut Gen) -> How {
    if g.chance(1, 3) { How::Async } else { How::Sync }
}

fn free_plan<T: Scan>(g: &mut Gen, sh: &Shape, hot: &[u32], is_tree: bool) -> Plan {
    let mut p = gen_plan::<T>(g, sh, hot, How::Sync);
    p.kind = if is_tree && g.chance(1, 2) { Kind::Range } else { Kind::Free };
    p.md = 0;
    p.rem = 0;
    p.bump = false;
    p
}

/// Calls that may never wait.
fn gen_reader<T: Scan>(g: &mut Gen, sh: &Shape, hot: &[u32], is_tree: bool, ver: &mut u32) -> Vec<Do> {
    let scans = matches!(T::NAME, "HashIndex" | "TreeIndex");
    let tries = T::variants(Op::Insert(0)) > 1;
    let n = g.range(1, 4);
    (0..n)
        .map(|_| {
            if scans && g.chance(1, 4) {
                return Do::Scan(free_plan::<T>(g, sh, hot, is_tree));
            }
            *ver += 1;
            let val = 10 + u64::from(*ver) * 7 + u64::from(*ver % 2);
            let k = match g.weighted(&[6, 2, 1]) {
                0 => hot[g.usize(hot.len())],
                1 if !sh.keys.is_empty() => sh.keys[g.usize(sh.keys.len())],
                _ => sh.fresh + *ver,
            };
            let (op, var) = if tries && (!scans || g.chance(1, 3)) {
                (if g.chance(1, 2) { Op::Insert(val) } else { Op::OrInsert(val) }, 1)
            } else {
                let c: Vec<(Op, u8)> = [Op::Read, Op::Contains]
                    .into_iter()
                    .flat_map(|o| (0..T::variants(o)).map(move |v| (o, v)))
                    .filter(|(o, v)| T::lock_free(*o, *v))
                    .collect();
                *g.pick(&c)
            };
            Do::Op(Step { how: How::Sync, op, var, k, ver: *ver })
        })
        .collect()
}

/// The first `w` threads may be suspended.
fn gen_suspending(g: &mut Gen, ops: &[usize], w: usize) -> Config {
    let n = ops.len() as u64;
    let mut order: Vec<u8> = (0..n as u8).collect();
    if g.chance(1, 4) {
        order.reverse();
    }
    let mut v = Vec::new();
    let s = 1 + g.weighted(&[5, 3, 1]);
    for _ in 0..s {
        let thread = g.below(w as u64) as u8;
        let op = g.below(ops[thread as usize].max(1) as u64) as u16;
        let step = 1 + g.log_uniform(2500) as u32;
        v.push(Preempt { thread, op, step, target: SUSPEND });
    }
    for _ in 0..g.weighted(&[4, 3, 2, 1]) {
        let thread = g.below(n) as u8;
        let op = g.below(ops[thread as usize].max(1) as u64) as u16;
        let step = 1 + g.log_uniform(1500) as u32;
        v.push(Preempt { thread, op, step, target: g.below(n) as u8 });
    }
    Config { mode: Mode::Plan(v), order, spurious: 0, budget: 500_000, race: false }
}

fn blocked(e: Fail) -> Fail {
    // An endless retry that waits for the suspended thread without a spin hint.
    if e.sig == "no-progress" { Fail::new("waits-for-suspended", e.msg) } else { e }
}

fn case<T: Scan>(g: &mut Gen, ctx: &mut Ctx, is_tree: bool) -> Res {
    vcore::track::reset();
    {
        let (t, sh) = prepare::<T>(g, is_tree);
        trace_shape(T::NAME, &sh, t.cap());
        let mut hot = hot_keys(g, &sh, is_tree);
        hot.truncate(1 + g.usize(2));
        let w = 1 + g.weighted(&[4, 3]);
        let mut wr = gen_threads::<T>(g, &sh, &hot, is_tree, 4, how);
        fix_set::<T>(&mut wr);
        let mut steps: Vec<Vec<Do>> = wr.into_iter().take(w).map(|s| s.into_iter().map(Do::Op).collect()).collect();
        let w = steps.len();
        for s in &mut steps {
            if g.chance(1, 4) {
                let h = how(g);
                let p = gen_plan::<T>(g, &sh, &hot, h);
                let at = g.usize(s.len() + 1);
                s.insert(at, Do::Scan(p));
            }
        }
        let mut ver = 500;
        for _ in 0..1 + g.weighted(&[5, 1]) {
            steps.push(gen_reader::<T>(g, &sh, &hot, is_tree, &mut ver));
        }
        let n = steps.len();
        let cfg = gen_suspending(g, &steps.iter().map(Vec::len).collect::<Vec<_>>(), w);
        trace_steps(&steps);
        trace_sched(&cfg);
        let shared = Shared::new(t, steps);
        let during = Arc::new(AtomicUsize::new(0));
        let d = during.clone();
        let out = go(cfg, &shared, n, move |s, tid| {
            for i in 0..s.steps[tid].len() {
                let a = rt::any_suspended();
                s.step(tid, i);
                if tid >= w && (a || rt::any_suspended()) {
                    d.fetch_add(1, Relaxed);
                }
            }
        })
        .map_err(blocked)?;
        for (tid, op) in &out.stuck_on_suspended {
            if *tid >= w {
                let what = match &shared.steps[*tid][*op as usize] {
                    Do::Op(s) => s.name(),
                    Do::Scan(p) => p.name(),
                };
                fail!("waits-for-suspended", "T{tid}: {what} waited for a suspended writer");
            }
        }
        ctx.label(sh.kind);
        if out.suspended > 0 {
            ctx.label("suspended");
        }
        if out.suspended > 1 {
            ctx.label("suspended_twice");
        }
        let caps = shared.caps.lock().unwrap().clone();
        if caps.len() > 1 {
            ctx.label("capacity_changed");
        }
        ctx.nontrivial = out.suspended > 0 && during.load(Relaxed) > 0;
        drop(shared.scans.lock().unwrap().drain(..));
        let Ok(_) = Arc::try_unwrap(shared) else {
            fail!("internal", "the shared state is still referred to");
        };
    }
    fw::all_dropped()
}

/// Single-key calls on different buckets of a table that is not resized.
fn disjoint<T: Scan>(g: &mut Gen, ctx: &mut Ctx) -> Res {
    vcore::track::reset();
    {
        let dist = *g.pick(&[Dist::Mixed, Dist::Mixed, Dist::Identity, Dist::Few]);
        let sh = Shape { dist, cap: 1024, max: 2048, keys: Vec::new(), kind: "presized", fresh: FRESH };
        let t = T::make(&sh);
        // The same hasher and capacity: the same bucket indices.
        let m = Map::make(&sh);
        let n = 2 + g.weighted(&[4, 2, 1]);
        let mut keys: Vec<u32> = Vec::new();
        for _ in 0..200 {
            let k = g.below(4000) as u32;
            if keys.iter().all(|o| m.bucket_index(o) != m.bucket_index(&k)) {
                keys.push(k);
            }
            if keys.len() == n {
                break;
            }
        }
        drop(m);
        if keys.len() < n {
            return Ok(());
        }
        for i in 0..g.usize(30) as u32 {
            t.put(i * 133, 5);
        }
        for k in &keys {
            if g.chance(1, 2) {
                t.put(*k, 8);
            }
        }
        trace_shape(T::NAME, &sh, t.cap());
        let cap = t.cap();
        let mut ver = 0;
        let mut steps: Vec<Vec<Step>> = keys
            .iter()
            .map(|k| {
                (0..g.range(1, 4))
                    .map(|_| {
                        ver += 1;
                        let (op, var) = gen_op::<T>(g, 10 + u64::from(ver) * 7);
                        Step { how: how(g), op, var, k: *k, ver }
                    })
                    .collect()
            })
            .collect();
        fix_set::<T>(&mut steps);
        let steps: Vec<Vec<Do>> = steps.into_iter().map(|s| s.into_iter().map(Do::Op).collect()).collect();
        let mut cfg = gen_suspending(g, &steps.iter().map(Vec::len).collect::<Vec<_>>(), n);
        if let Mode::Plan(v) = &mut cfg.mode {
            for p in v {
                p.step = 1 + p.step % 120;
            }
        }
        trace_steps(&steps);
        trace_sched(&cfg);
        let shared = Shared::new(t, steps);
        let out = go(cfg, &shared, n, move |s, tid| {
            for i in 0..s.steps[tid].len() {
                s.step(tid, i);
            }
        })
        .map_err(blocked)?;
        if shared.caps.lock().unwrap().iter().any(|c| *c != cap) {
            ctx.label("capacity_changed");
        } else {
            if let Some((tid, op)) = out.stuck_on_suspended.first() {
                let Do::Op(s) = &shared.steps[*tid][*op as usize] else { unreachable!() };
                fail!("waits-for-other-bucket", "T{tid}: {} waited for a thread that was suspended in a call on another bucket", s.name());
            }
            ctx.nontrivial = out.suspended > 0;
        }
        let Ok(_) = Arc::try_unwrap(shared) else {
            fail!("internal", "the shared state is still referred to");
        };
    }
    fw::all_dropped()
}

const RULE: &str = "A case draws a container state as for L01 (and, for the suites *-disjoint, a table of 1024 slots), 1-2 writer threads (operations and scans, sync or async), 1-2 threads of calls that may not wait (lock-free point reads, iterators and ranges; try_entry), and a schedule in which a writer is suspended at 1-3 drawn scheduling points, that is between two atomic operations or inside of user code, until no other thread can run. No non-waiting call may be parked, or spin more than 300 times, or retry until the step budget is used up, while only suspended threads are left. In the suites *-disjoint each thread calls single-key operations on its own bucket, and none may wait for a suspended one. Non-trivial: a writer was suspended and a non-waiting call ran meanwhile.";

macro_rules! suite {
    ($n:literal, $f:expr, $q:expr, $th:expr) => {
        Suite { name: $n, quick: $q, thorough: $th, f: $f }
    };
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "B01",
        rule: RULE,
        suites: vec![
            suite!("hashindex", |g, c| case::<Index>(g, c, false), 120_000, 3_000_000),
            suite!("treeindex", |g, c| case::<Tree>(g, c, true), 120_000, 3_000_000),
            suite!("hashmap", |g, c| case::<Map>(g, c, false), 60_000, 1_000_000),
            suite!("hashcache", |g, c| case::<Cache>(g, c, false), 50_000, 1_000_000),
            suite!("hashmap-disjoint", |g, c| disjoint::<Map>(g, c), 40_000, 500_000),
            suite!("hashset-disjoint", |g, c| disjoint::<Set>(g, c), 20_000, 300_000),
            suite!("hashindex-disjoint", |g, c| disjoint::<Index>(g, c), 40_000, 500_000),
            suite!("hashcache-disjoint", |g, c| disjoint::<Cache>(g, c), 30_000, 500_000),
        ],
    }]
}
