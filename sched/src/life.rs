//! D01, D02: lifetimes of entries, of references obtained under a guard, and of containers.
use crate::fw;
use crate::fw::*;
use crate::lin::Op;
use crate::linear::{Step, gen_op, hot_keys, how_plain};
use crate::scan::{Do, Kind, Out, Scan, gen_steps};
use crate::tgt::*;
use loom::rt;
use scc::Guard;
use std::ops::Bound;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use vcore::types::*;
use vcore::{Ctx, Gen, Prop, Res, Suite, fail, vtrace};

#[derive(Clone, Debug)]
enum Ls {
    Do(Do),
    /// Collects references: way, key, at most so many.
    Pin(u8, u32, usize),
    Check,
    Unpin,
    /// Lets the collector of this thread make progress.
    Pump(u8),
    /// Clones the container and uses the clone, then drops it (or the original).
    Dup(bool, u32),
    /// Gives up the handle; the last one drops the container.
    Leave,
    /// Churns: inserts and removes so many fresh keys.
    Churn(u8, u32),
}

/// A reference obtained under a guard.
struct Ref {
    k: Option<&'static K>,
    v: &'static V,
    key: u32,
    ver: Option<u32>,
    val: u64,
}

impl Ref {
    fn check(&self) {
        if let Some(k) = self.k {
            k.check();
            if k.k != self.key || Some(k.ver) != self.ver {
                vcore::track::set_err(format!(
                    "a reference to key {} (version {:?}) obtained under a guard denotes {} (version {}) now",
                    self.key, self.ver, k.k, k.ver
                ));
            }
        }
        let x = self.v.get();
        if x != self.val {
            vcore::track::set_err(format!("a reference to the value {} of key {} obtained under a guard denotes {x} now", self.val, self.key));
        }
    }
}

fn keep<'a>(k: Option<&'a K>, v: &'a V, key: u32) -> Ref {
    let r = unsafe { Ref { k: k.map(|k| &*std::ptr::from_ref(k)), v: &*std::ptr::from_ref(v), key, ver: k.map(|k| k.ver), val: v.get() } };
    if let Some(k) = k {
        k.check();
        if k.k != key {
            vcore::track::set_err(format!("looked up {key}, got {}", k.k));
        }
    }
    r
}

trait Pins: Scan {
    /// References may outlive the container.
    const OUTLIVE: bool;
    const PINS: bool;
    fn pin(&self, way: u8, k: u32, n: usize, g: &Guard) -> Vec<Ref>;
    /// The current value of a key.
    fn current(&self, k: u32, g: &Guard) -> Option<*const V>;
}

macro_rules! no_pins {
    ($($t:ty),*) => {$(impl Pins for $t {
        const OUTLIVE: bool = false;
        const PINS: bool = false;
        fn pin(&self, _: u8, _: u32, _: usize, _: &Guard) -> Vec<Ref> {
            Vec::new()
        }
        fn current(&self, _: u32, _: &Guard) -> Option<*const V> {
            None
        }
    })*};
}
no_pins!(Map, Set, Cache);

impl Pins for Index {
    const OUTLIVE: bool = false;
    const PINS: bool = true;
    fn pin(&self, way: u8, k: u32, n: usize, g: &Guard) -> Vec<Ref> {
        match way {
            0 | 1 => self.peek(&k, g).map(|v| keep(None, v, k)).into_iter().collect(),
            2 => self.iter(g).filter(|(x, _)| x.k == k).take(n).map(|(x, v)| keep(Some(x), v, x.k)).collect(),
            _ => self.iter(g).take(n).map(|(x, v)| keep(Some(x), v, x.k)).collect(),
        }
    }
    fn current(&self, k: u32, g: &Guard) -> Option<*const V> {
        self.peek(&k, g).map(std::ptr::from_ref)
    }
}

impl Pins for Tree {
    const OUTLIVE: bool = true;
    const PINS: bool = true;
    fn pin(&self, way: u8, k: u32, n: usize, g: &Guard) -> Vec<Ref> {
        match way {
            0 => self.peek(&k, g).map(|v| keep(None, v, k)).into_iter().collect(),
            1 => self.peek_entry(&k, g).map(|(x, v)| keep(Some(x), v, k)).into_iter().collect(),
            2 => self
                .range::<u32, _>((Bound::Included(k), Bound::Unbounded), g)
                .take(n)
                .map(|(x, v)| keep(Some(x), v, x.k))
                .collect(),
            _ => self.iter(g).take(n).map(|(x, v)| keep(Some(x), v, x.k)).collect(),
        }
    }
    fn current(&self, k: u32, g: &Guard) -> Option<*const V> {
        self.peek(&k, g).map(std::ptr::from_ref)
    }
}

#[derive(Default)]
struct Seen {
    /// References checked after the entry had been removed or replaced.
    stale: AtomicUsize,
    /// References checked after the container had been dropped.
    outlived: AtomicUsize,
    checked: AtomicUsize,
    dups: AtomicUsize,
    left: AtomicUsize,
    removed: AtomicUsize,
}

struct World<T> {
    handles: Vec<Mutex<Option<Arc<T>>>>,
    steps: Vec<Vec<Ls>>,
    seen: Seen,
    caps: Mutex<std::collections::BTreeSet<usize>>,
}

fn pump(n: u8) {
    for _ in 0..n {
        let g = Guard::new();
        g.accelerate();
        drop(g);
        rt::point();
    }
}

fn removes(d: &Do) -> bool {
    match d {
        Do::Op(s) => matches!(s.op, Op::Remove | Op::RemoveQ | Op::RemoveOdd | Op::RemoveOddQ | Op::Upsert(_) | Op::Update(_) | Op::Add),
        Do::Scan(p) => !matches!(p.kind, Kind::Iter | Kind::Free | Kind::Range),
    }
}

fn thread<T: Pins>(w: &World<T>, tid: usize) {
    let mut h = w.handles[tid].lock().unwrap().take();
    let mut refs: Vec<Ref> = Vec::new();
    let mut guard: Option<Guard> = None;
    let s = &w.seen;
    for (i, st) in w.steps[tid].iter().enumerate() {
        rt::op_begin(i);
        let t = h.as_deref();
        match (st, t) {
            (Ls::Do(Do::Op(x)), Some(t)) => {
                let r = t.run(x.how, x.op, x.var, x.k, x.ver);
                drop(r);
            }
            (Ls::Do(Do::Scan(p)), Some(t)) => {
                let mut o = Out::default();
                t.scan(p, &mut o);
            }
            (Ls::Pin(way, k, n), Some(t)) if T::PINS => {
                let g = guard.get_or_insert_with(Guard::new);
                refs.extend(t.pin(*way, *k, *n, g));
            }
            (Ls::Check, t) => {
                for r in &refs {
                    rt::point();
                    s.checked.fetch_add(1, Relaxed);
                    match t {
                        Some(t) => {
                            let stale = rt::quiet(|| t.current(r.key, guard.as_ref().unwrap()) != Some(std::ptr::from_ref(r.v)));
                            if stale {
                                s.stale.fetch_add(1, Relaxed);
                            }
                        }
                        None => {
                            s.outlived.fetch_add(1, Relaxed);
                        }
                    }
                    r.check();
                }
            }
            (Ls::Unpin, _) => {
                for r in refs.drain(..) {
                    r.check();
                }
                drop(guard.take());
            }
            (Ls::Pump(n), _) => pump(*n),
            (Ls::Dup(keep_clone, k), Some(t)) => {
                if let Some(c) = t.dup() {
                    s.dups.fetch_add(1, Relaxed);
                    c.put(*k, 77);
                    c.del(*k + 1);
                    if *keep_clone && (T::OUTLIVE || refs.is_empty()) {
                        h = Some(Arc::new(c));
                        s.left.fetch_add(1, Relaxed);
                    }
                }
            }
            (Ls::Leave, Some(_)) => {
                if !T::OUTLIVE {
                    for r in refs.drain(..) {
                        r.check();
                    }
                }
                s.left.fetch_add(1, Relaxed);
                drop(h.take());
            }
            (Ls::Churn(n, k), Some(t)) => {
                for j in 0..u32::from(*n) {
                    t.put(k + j, 5);
                }
                for j in 0..u32::from(*n) {
                    t.del(k + j);
                }
                s.removed.fetch_add(1, Relaxed);
            }
            _ => {}
        }
        if let Ls::Do(d) = st
            && removes(d)
        {
            s.removed.fetch_add(1, Relaxed);
        }
        if let Some(t) = h.as_deref() {
            let c = rt::quiet(|| t.cap());
            w.caps.lock().unwrap().insert(c);
        }
    }
    rt::op_begin(w.steps[tid].len());
    for r in refs.drain(..) {
        r.check();
        if h.is_none() {
            s.outlived.fetch_add(1, Relaxed);
        }
    }
    if !T::OUTLIVE {
        drop(guard.take());
    }
    drop(h);
    drop(guard);
}

fn name(s: &Ls) -> String {
    match s {
        Ls::Do(Do::Op(s)) => s.name(),
        Ls::Do(Do::Scan(p)) => p.name(),
        s => format!("{s:?}"),
    }
}

fn gen_life<T: Pins>(g: &mut Gen, sh: &Shape, hot: &[u32], is_tree: bool, refs: bool) -> Vec<Vec<Ls>> {
    let base: Vec<Vec<Do>> = gen_steps::<T>(g, sh, hot, is_tree, 4, how_plain);
    let key = |g: &mut Gen| {
        if sh.keys.is_empty() || g.chance(2, 3) { hot[g.usize(hot.len())] } else { sh.keys[g.usize(sh.keys.len())] }
    };
    let mut ver = 700;
    let mut fresh = 9000;
    base.into_iter()
        .enumerate()
        .map(|(t, s)| {
            let mut v: Vec<Ls> = s.into_iter().map(Ls::Do).collect();
            let pinner = T::PINS && refs && (t == 0 || g.chance(1, 3));
            let m = g.range(1, 4);
            for _ in 0..m {
                let at = g.usize(v.len() + 1);
                let x = match g.weighted(&[5, 3, if sh.keys.len() < 300 { 1 } else { 0 }, 2, 3]) {
                    0 => Ls::Pump(1 + g.below(6) as u8),
                    1 => {
                        fresh += 100;
                        let k = if is_tree { key(g) + 1 } else { fresh };
                        let most = if g.chance(1, 3) { 40 } else { 6 };
                        Ls::Churn(1 + g.below(most) as u8, k)
                    }
                    2 => Ls::Dup(g.chance(1, 2), key(g)),
                    3 if !refs => Ls::Leave,
                    _ => {
                        // A removal or an overwrite, followed by an insertion.
                        ver += 1;
                        let k = key(g);
                        let (op, var) = gen_op::<T>(g, 10 + u64::from(ver) * 7);
                        let op = if T::NAME == "HashSet" && op == Op::RemoveOdd { Op::Remove } else { op };
                        Ls::Do(Do::Op(Step { how: how_plain(g), op, var, k, ver }))
                    }
                };
                v.insert(at, x);
            }
            if pinner {
                let p = 1 + g.usize(2);
                for _ in 0..p {
                    let at = g.usize(v.len() / 2 + 1);
                    let way = g.below(4) as u8;
                    let n = 1 + g.log_uniform(60) as usize;
                    v.insert(at, Ls::Pin(way, key(g), n));
                }
                for _ in 0..g.usize(2) {
                    let at = g.usize(v.len() + 1);
                    v.insert(at, Ls::Check);
                }
                v.push(Ls::Check);
                if g.chance(1, 2) {
                    v.push(Ls::Leave);
                    v.push(Ls::Pump(1 + g.below(4) as u8));
                    v.push(Ls::Check);
                }
                if g.chance(1, 4) {
                    v.push(Ls::Unpin);
                    v.push(Ls::Pump(3));
                }
            }
            v
        })
        .collect()
}

fn case<T: Pins>(g: &mut Gen, ctx: &mut Ctx, is_tree: bool, refs: bool) -> Res {
    vcore::track::reset();
    {
        let (t, sh) = if refs { prepare_weighted::<T>(g, is_tree, &[2, 4, 3, 4, 9, 3, 3]) } else { prepare::<T>(g, is_tree) };
        trace_shape(T::NAME, &sh, t.cap());
        let mut hot = hot_keys(g, &sh, is_tree);
        if refs && !sh.keys.is_empty() {
            hot[0] = sh.keys[g.usize(sh.keys.len())];
        }
        let steps = gen_life::<T>(g, &sh, &hot, is_tree, refs);
        let cfg = gen_sched(g, &steps.iter().map(Vec::len).collect::<Vec<_>>(), SchedOpts::default());
        for (i, s) in steps.iter().enumerate() {
            vtrace!("T{i}: {}", s.iter().map(name).collect::<Vec<_>>().join(", "));
        }
        trace_sched(&cfg);
        let n = steps.len();
        let cap = t.cap();
        let t = Arc::new(t);
        let w = Arc::new(World {
            handles: (0..n).map(|_| Mutex::new(Some(t.clone()))).collect(),
            steps,
            seen: Seen::default(),
            caps: Mutex::new([cap].into()),
        });
        // The last thread to be done with it drops the container.
        drop(t);
        let out = go(cfg, &w, n, thread::<T>)?;
        ledger()?;
        let s = &w.seen;
        let resized = w.caps.lock().unwrap().len() > 1;
        let preempted = out.switches > n as u64 - 1;
        ctx.label(sh.kind);
        for (l, c) in [
            ("stale_reference_checked", s.stale.load(Relaxed) > 0),
            ("outlived_container", s.outlived.load(Relaxed) > 0),
            ("cloned", s.dups.load(Relaxed) > 0),
            ("left_early", s.left.load(Relaxed) > 0),
            ("capacity_changed", resized),
            ("preempted", preempted),
        ] {
            if c {
                ctx.label(l);
            }
        }
        ctx.nontrivial = if refs {
            s.stale.load(Relaxed) + s.outlived.load(Relaxed) > 0
        } else {
            preempted && (resized || s.removed.load(Relaxed) > 0)
        };
        let Ok(_) = Arc::try_unwrap(w) else {
            fail!("internal", "the shared state is still referred to");
        };
    }
    fw::all_dropped()
}

const D01: &str = "A case draws a container state as for L01 and 2-4 threads, each with its own handle on the container, with operations, scans, bursts of insertions and removals, cloning (going on with the clone or the original), collector activity, and giving up the handle at some point (the last one drops the container, possibly in the middle of a resize), and a schedule. Every key and value is in a ledger: dropping it twice, or using it after its drop, is an error, and after the container is gone and the collectors have run, none may be left. Non-trivial: at least one preemption happened, and there was a resize or something was removed or replaced.";
const D02: &str = "A case draws a container state as for L01 and 2-4 threads with operations, scans, bursts of insertions and removals, cloning, and collector activity; at least one thread collects references under a guard (peek, peek_entry, iter, range) and goes on using the guard while itself and others modify the container, give up their handles, and, for TreeIndex, drop the container; the references are checked (same instance, alive in the ledger, same contents) at drawn points and at the end. Non-trivial: a reference was checked after its entry had been removed or replaced, or after the thread had given up the container.";

macro_rules! suite {
    ($n:literal, $t:ty, $tree:literal, $refs:literal, $q:expr, $th:expr) => {
        Suite { name: $n, quick: $q, thorough: $th, f: |g, c| case::<$t>(g, c, $tree, $refs) }
    };
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "D01",
            rule: D01,
            suites: vec![
                suite!("hashmap", Map, false, false, 60_000, 2_000_000),
                suite!("hashset", Set, false, false, 20_000, 600_000),
                suite!("hashindex", Index, false, false, 60_000, 2_000_000),
                suite!("hashcache", Cache, false, false, 40_000, 1_500_000),
                suite!("treeindex", Tree, true, false, 60_000, 2_000_000),
            ],
        },
        Prop {
            id: "D02",
            rule: D02,
            suites: vec![
                suite!("hashindex", Index, false, true, 100_000, 3_000_000),
                suite!("treeindex", Tree, true, true, 100_000, 3_000_000),
            ],
        },
    ]
}
