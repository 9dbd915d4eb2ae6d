//! S01, S02: scans running concurrently with other operations.
use crate::fw::*;
use crate::lin::{self, Ev, Op, Ret, STEP};
use crate::linear::{Step, gen_threads, hot_keys, how_plain, init_map};
use crate::tgt::*;
use crate::watch::hold;
use crate::{call, fw};
use loom::rt;
use scc::Guard;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;
use std::sync::{Arc, Mutex};
use vcore::types::*;
use vcore::{Ctx, Gen, Prop, Res, Suite, ensure, fail, vtrace};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Iter,
    IterMut,
    Retain,
    Cursor,
    Any,
    Clear,
    /// Lock-free iterator.
    Free,
    Range,
    RemoveRange,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Keep,
    Take,
    Bump,
}

#[derive(Clone, Debug)]
pub struct Visit {
    pub k: u32,
    pub v: u64,
    pub act: Act,
    pub t: u64,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub how: How,
    pub kind: Kind,
    /// Keys with `k % md == rem` are taken.
    pub md: u32,
    pub rem: u32,
    /// Kept entries are modified where possible.
    pub bump: bool,
    /// Stop after so many visits.
    pub stop: Option<usize>,
    pub lo: Bound<u32>,
    pub hi: Bound<u32>,
}

impl Plan {
    fn act(&self, k: u32) -> Act {
        if self.md != 0 && k % self.md == self.rem {
            Act::Take
        } else if self.bump {
            Act::Bump
        } else {
            Act::Keep
        }
    }
    pub fn name(&self) -> String {
        let h = match self.how {
            How::Sync => "",
            How::Async => "async ",
            How::Cancel(_) => "cancelled ",
        };
        let take = if self.md != 0 { format!(" taking k%{}=={}", self.md, self.rem) } else { String::new() };
        let stop = self.stop.map_or(String::new(), |n| format!(" stopping after {n}"));
        let rg = if matches!(self.kind, Kind::Range | Kind::RemoveRange) { format!(" {:?}..{:?}", self.lo, self.hi) } else { String::new() };
        format!("{h}{:?}{rg}{take}{}{stop}", self.kind, if self.bump { " bumping" } else { "" })
    }
    fn has(&self, k: u32) -> bool {
        (match self.lo {
            Bound::Included(x) => k >= x,
            Bound::Excluded(x) => k > x,
            Bound::Unbounded => true,
        }) && (match self.hi {
            Bound::Included(x) => k <= x,
            Bound::Excluded(x) => k < x,
            Bound::Unbounded => true,
        })
    }
}

#[derive(Default, Debug)]
pub struct Out {
    pub visits: Vec<Visit>,
    /// Returned normally, having visited everything there was to visit.
    pub complete: bool,
    /// Returned (not cancelled).
    pub returned: bool,
}

impl Out {
    fn visit(&mut self, k: u32, v: u64, act: Act) {
        self.visits.push(Visit { k, v, act, t: rt::now() });
    }
    fn stop(&self, p: &Plan) -> bool {
        p.stop.is_some_and(|n| self.visits.len() >= n)
    }
}

pub trait Scan: Tgt {
    fn kinds() -> &'static [(Kind, u32)];
    fn scan(&self, p: &Plan, o: &mut Out);
    /// A scan that visits an entry present throughout exactly once unless there is a resize.
    fn locking(k: Kind) -> bool {
        !matches!(k, Kind::Free | Kind::Range | Kind::Clear | Kind::RemoveRange)
    }
    fn dup(&self) -> Option<Self>;
    fn length(&self) -> usize;
}

macro_rules! iter_kv {
    ($self:ident, $p:ident, $o:ident) => {{
        let mut stopped = false;
        let f = |k: &K, v: &V| {
            let _h = hold(k.k, false);
            k.check();
            let x = v.get();
            user(Site::Closure);
            if v.get() != x {
                vcore::track::set_err("a value changed under an iterator".to_string());
            }
            $o.visit(k.k, x, Act::Keep);
            stopped = $o.stop($p);
            !stopped
        };
        let r = call!($p.how, $self.iter_sync(f), $self.iter_async(f));
        if let Some(r) = r {
            $o.returned = true;
            $o.complete = r;
            if r == stopped {
                vcore::track::set_err(format!("iter returned {r} although the closure returned {}", !stopped));
            }
        }
    }};
}

macro_rules! retain_kv {
    ($self:ident, $p:ident, $o:ident) => {{
        let f = |k: &K, v: &mut V| {
            let _h = hold(k.k, true);
            k.check();
            let x = v.get();
            user(Site::Closure);
            let act = $p.act(k.k);
            $o.visit(k.k, x, act);
            if act == Act::Bump {
                v.set(x + STEP);
            }
            act != Act::Take
        };
        if call!($p.how, $self.retain_sync(f), $self.retain_async(f)).is_some() {
            $o.returned = true;
            $o.complete = true;
        }
    }};
}

macro_rules! clear {
    ($self:ident, $p:ident, $o:ident) => {{
        if call!($p.how, $self.clear_sync(), $self.clear_async()).is_some() {
            $o.returned = true;
            $o.complete = true;
        }
    }};
}

impl Scan for Map {
    fn kinds() -> &'static [(Kind, u32)] {
        &[(Kind::Iter, 4), (Kind::IterMut, 4), (Kind::Retain, 4), (Kind::Cursor, 4), (Kind::Any, 1), (Kind::Clear, 2)]
    }
    fn dup(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn length(&self) -> usize {
        self.len()
    }
    fn scan(&self, p: &Plan, o: &mut Out) {
        match p.kind {
            Kind::Iter => iter_kv!(self, p, o),
            Kind::IterMut => {
                let f = |mut e: scc::hash_map::ConsumableEntry<'_, K, V>| {
                    let h = hold(e.0.k, true);
                    e.0.check();
                    let (k, x) = (e.0.k, e.1.get());
                    let act = p.act(k);
                    o.visit(k, x, act);
                    match act {
                        Act::Keep => user(Site::Closure),
                        Act::Bump => e.1.set(x + STEP),
                        Act::Take => {
                            let (kk, v) = e.consume();
                            if (kk.k, v.get()) != (k, x) {
                                vcore::track::set_err(format!("consume of ({k}, {x}) returned ({}, {})", kk.k, v.get()));
                            }
                        }
                    }
                    drop(h);
                    !o.stop(p)
                };
                if let Some(r) = call!(p.how, self.iter_mut_sync(f), self.iter_mut_async(f)) {
                    o.returned = true;
                    o.complete = r;
                }
            }
            Kind::Retain => retain_kv!(self, p, o),
            Kind::Any => {
                let f = |k: &K, v: &V| {
                    let _h = hold(k.k, false);
                    let act = p.act(k.k);
                    o.visit(k.k, v.get(), Act::Keep);
                    act == Act::Take
                };
                if let Some(r) = call!(p.how, self.any_sync(f), self.any_async(f)) {
                    o.returned = true;
                    match r {
                        Some(e) => {
                            let h = hold(e.key().k, true);
                            let (k, x) = (e.key().k, e.get().get());
                            let last = o.visits.last().map(|v| (v.k, v.v));
                            if last != Some((k, x)) || p.act(k) != Act::Take {
                                vcore::track::set_err(format!("any returned ({k}, {x}) after having looked at {last:?}"));
                            }
                            drop(h);
                        }
                        None => o.complete = true,
                    }
                }
            }
            Kind::Cursor => {
                let Some(mut cur) = call!(p.how, self.begin_sync(), self.begin_async()) else { return };
                while let Some(mut e) = cur {
                    let h = hold(e.key().k, true);
                    let (k, x) = (e.key().k, e.get().get());
                    let act = p.act(k);
                    o.visit(k, x, act);
                    if act == Act::Bump {
                        e.get_mut().set(x + STEP);
                    }
                    drop(h);
                    if o.stop(p) {
                        if act == Act::Take {
                            let _ = e.remove_entry();
                        }
                        o.returned = true;
                        return;
                    }
                    cur = if act == Act::Take {
                        let Some(((kk, v), n)) = call!(p.how, e.remove_and_sync(), e.remove_and_async()) else { return };
                        if (kk.k, v.get()) != (k, x) {
                            vcore::track::set_err(format!("remove_and at ({k}, {x}) returned ({}, {})", kk.k, v.get()));
                        }
                        n
                    } else {
                        let Some(n) = call!(p.how, e.next_sync(), e.next_async()) else { return };
                        n
                    };
                }
                o.returned = true;
                o.complete = true;
            }
            _ => clear!(self, p, o),
        }
    }
}

impl Scan for Set {
    fn kinds() -> &'static [(Kind, u32)] {
        &[(Kind::Iter, 4), (Kind::IterMut, 4), (Kind::Retain, 4), (Kind::Clear, 1)]
    }
    fn dup(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn length(&self) -> usize {
        self.len()
    }
    fn scan(&self, p: &Plan, o: &mut Out) {
        match p.kind {
            Kind::Iter => {
                let f = |k: &K| {
                    let _h = hold(k.k, false);
                    k.check();
                    user(Site::Closure);
                    o.visit(k.k, u64::from(k.ver), Act::Keep);
                    !o.stop(p)
                };
                if let Some(r) = call!(p.how, self.iter_sync(f), self.iter_async(f)) {
                    o.returned = true;
                    o.complete = r;
                }
            }
            Kind::IterMut => {
                let f = |e: scc::hash_set::ConsumableEntry<'_, K>| {
                    let _h = hold(e.k, true);
                    e.check();
                    user(Site::Closure);
                    let act = if p.act(e.k) == Act::Take { Act::Take } else { Act::Keep };
                    o.visit(e.k, u64::from(e.ver), act);
                    if act == Act::Take {
                        let k = e.k;
                        if e.consume().k != k {
                            vcore::track::set_err(format!("consume of {k} returned another key"));
                        }
                    }
                    !o.stop(p)
                };
                if let Some(r) = call!(p.how, self.iter_mut_sync(f), self.iter_mut_async(f)) {
                    o.returned = true;
                    o.complete = r;
                }
            }
            Kind::Retain => {
                let f = |k: &K| {
                    let _h = hold(k.k, true);
                    k.check();
                    user(Site::Closure);
                    let act = if p.act(k.k) == Act::Take { Act::Take } else { Act::Keep };
                    o.visit(k.k, u64::from(k.ver), act);
                    act != Act::Take
                };
                if call!(p.how, self.retain_sync(f), self.retain_async(f)).is_some() {
                    o.returned = true;
                    o.complete = true;
                }
            }
            _ => clear!(self, p, o),
        }
    }
}

impl Scan for Index {
    fn kinds() -> &'static [(Kind, u32)] {
        &[(Kind::Iter, 3), (Kind::Retain, 4), (Kind::Cursor, 4), (Kind::Any, 1), (Kind::Clear, 2), (Kind::Free, 8)]
    }
    fn dup(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn length(&self) -> usize {
        self.len()
    }
    fn scan(&self, p: &Plan, o: &mut Out) {
        match p.kind {
            Kind::Iter => iter_kv!(self, p, o),
            Kind::Retain => {
                let f = |k: &K, v: &V| {
                    let act = if p.act(k.k) == Act::Take { Act::Take } else { Act::Keep };
                    o.visit(k.k, v.get(), act);
                    user(Site::Closure);
                    act != Act::Take
                };
                if call!(p.how, self.retain_sync(f), self.retain_async(f)).is_some() {
                    o.returned = true;
                    o.complete = true;
                }
            }
            Kind::Any => {
                let f = |k: &K, v: &V| {
                    o.visit(k.k, v.get(), Act::Keep);
                    p.act(k.k) == Act::Take
                };
                if let Some(r) = call!(p.how, self.any_sync(f), self.any_async(f)) {
                    o.returned = true;
                    match r {
                        Some(e) => {
                            let (k, x) = (e.key().k, e.get().get());
                            let last = o.visits.last().map(|v| (v.k, v.v));
                            if last != Some((k, x)) || p.act(k) != Act::Take {
                                vcore::track::set_err(format!("any returned ({k}, {x}) after having looked at {last:?}"));
                            }
                        }
                        None => o.complete = true,
                    }
                }
            }
            Kind::Cursor => {
                let Some(mut cur) = call!(p.how, self.begin_sync(), self.begin_async()) else { return };
                while let Some(mut e) = cur {
                    let (k, x) = (e.key().k, e.get().get());
                    let act = p.act(k);
                    o.visit(k, x, act);
                    if act == Act::Bump {
                        // The updated entry is somewhere else: what is "next" is not specified.
                        e.update(V::new(x + STEP));
                        o.returned = true;
                        return;
                    }
                    if o.stop(p) {
                        if act == Act::Take {
                            e.remove_entry();
                        }
                        o.returned = true;
                        return;
                    }
                    cur = if act == Act::Take {
                        let Some(n) = call!(p.how, e.remove_and_sync(), e.remove_and_async()) else { return };
                        n
                    } else {
                        let Some(n) = call!(p.how, e.next_sync(), e.next_async()) else { return };
                        n
                    };
                }
                o.returned = true;
                o.complete = true;
            }
            Kind::Free => {
                let g = Guard::new();
                for (k, v) in self.iter(&g) {
                    k.check();
                    o.visit(k.k, v.get(), Act::Keep);
                    if o.stop(p) {
                        o.returned = true;
                        return;
                    }
                    rt::point();
                }
                o.returned = true;
                o.complete = true;
            }
            _ => clear!(self, p, o),
        }
    }
}

impl Scan for Cache {
    fn kinds() -> &'static [(Kind, u32)] {
        &[(Kind::Iter, 4), (Kind::IterMut, 4), (Kind::Retain, 4), (Kind::Clear, 2)]
    }
    fn dup(&self) -> Option<Self> {
        None
    }
    fn length(&self) -> usize {
        self.len()
    }
    fn scan(&self, p: &Plan, o: &mut Out) {
        match p.kind {
            Kind::Iter => iter_kv!(self, p, o),
            Kind::IterMut => {
                let f = |mut e: scc::hash_cache::ConsumableEntry<'_, K, V>| {
                    let h = hold(e.0.k, true);
                    e.0.check();
                    let (k, x) = (e.0.k, e.1.get());
                    let act = p.act(k);
                    o.visit(k, x, act);
                    match act {
                        Act::Keep => user(Site::Closure),
                        Act::Bump => e.1.set(x + STEP),
                        Act::Take => {
                            let (kk, v) = e.consume();
                            if (kk.k, v.get()) != (k, x) {
                                vcore::track::set_err(format!("consume of ({k}, {x}) returned ({}, {})", kk.k, v.get()));
                            }
                        }
                    }
                    drop(h);
                    !o.stop(p)
                };
                if let Some(r) = call!(p.how, self.iter_mut_sync(f), self.iter_mut_async(f)) {
                    o.returned = true;
                    o.complete = r;
                }
            }
            Kind::Retain => retain_kv!(self, p, o),
            _ => clear!(self, p, o),
        }
    }
}

impl Scan for Tree {
    fn kinds() -> &'static [(Kind, u32)] {
        &[(Kind::Free, 6), (Kind::Range, 6), (Kind::RemoveRange, 5), (Kind::Clear, 1)]
    }
    fn dup(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn length(&self) -> usize {
        self.len()
    }
    fn scan(&self, p: &Plan, o: &mut Out) {
        match p.kind {
            Kind::Free => {
                let g = Guard::new();
                for (k, v) in self.iter(&g) {
                    k.check();
                    o.visit(k.k, v.get(), Act::Keep);
                    if o.stop(p) {
                        o.returned = true;
                        return;
                    }
                }
                o.returned = true;
                o.complete = true;
            }
            Kind::Range => {
                let g = Guard::new();
                for (k, v) in self.range::<u32, _>((p.lo, p.hi), &g) {
                    k.check();
                    o.visit(k.k, v.get(), Act::Keep);
                    if o.stop(p) {
                        o.returned = true;
                        return;
                    }
                }
                o.returned = true;
                o.complete = true;
            }
            Kind::RemoveRange => {
                let r = (p.lo, p.hi);
                if call!(p.how, self.remove_range_sync::<u32, _>(r), self.remove_range_async::<u32, _>(r)).is_some() {
                    o.returned = true;
                    o.complete = true;
                }
            }
            _ => {
                self.clear();
                o.returned = true;
                o.complete = true;
            }
        }
    }
}

pub fn gen_plan<T: Scan>(g: &mut Gen, sh: &Shape, hot: &[u32], how: How) -> Plan {
    let ks = T::kinds();
    let kind = ks[g.weighted(&ks.iter().map(|k| k.1).collect::<Vec<_>>())].0;
    let near = |g: &mut Gen| -> u32 {
        let b = if g.chance(1, 2) || sh.keys.is_empty() { hot[g.usize(hot.len())] } else { sh.keys[g.usize(sh.keys.len())] };
        (b + g.below(7) as u32).saturating_sub(3)
    };
    let mut lo = near(g);
    let mut hi = near(g);
    if lo > hi {
        std::mem::swap(&mut lo, &mut hi);
    }
    let bound = |g: &mut Gen, x: u32| match g.weighted(&[4, 4, 1]) {
        0 => Bound::Included(x),
        1 => Bound::Excluded(x),
        _ => Bound::Unbounded,
    };
    let (lo, hi) = (bound(g, lo), bound(g, hi));
    let md = *g.pick(&[0_u32, 2, 3, 5, 1]);
    let mut p = Plan {
        how,
        kind,
        md,
        rem: if md == 0 { 0 } else { g.below(u64::from(md)) as u32 },
        bump: g.chance(1, 3),
        stop: if g.chance(1, 6) { Some(1 + g.usize(20)) } else { None },
        lo,
        hi,
    };
    match kind {
        Kind::Iter | Kind::Free | Kind::Range => {
            p.md = 0;
            p.bump = false;
        }
        Kind::Retain => p.stop = None,
        Kind::Any => {
            p.bump = false;
            p.stop = None;
            p.md = *g.pick(&[1_u32, 3, 17, 50]);
            p.rem = g.below(u64::from(p.md)) as u32;
        }
        Kind::Clear | Kind::RemoveRange => {
            p.stop = None;
            p.md = 0;
            p.bump = false;
        }
        Kind::IterMut | Kind::Cursor => {}
    }
    p
}

/// What a thread does.
#[derive(Clone, Debug)]
pub enum Do {
    Op(Step),
    Scan(Plan),
}

pub struct Rec {
    pub plan: Plan,
    pub out: Out,
    pub tid: usize,
    pub start: u64,
    pub end: u64,
    pub broken: bool,
}

pub struct Shared<T> {
    pub t: T,
    pub evs: Mutex<Vec<Ev>>,
    pub scans: Mutex<Vec<Rec>>,
    pub steps: Vec<Vec<Do>>,
    pub caps: Mutex<BTreeSet<usize>>,
}

impl<T: Scan> Shared<T> {
    pub fn new(t: T, steps: Vec<Vec<Do>>) -> Arc<Self> {
        let c = t.cap();
        Arc::new(Self { t, evs: Mutex::default(), scans: Mutex::default(), steps, caps: Mutex::new([c].into()) })
    }
    pub fn step(&self, tid: usize, i: usize) {
        rt::op_begin(i);
        let sw = rt::switches();
        let start = rt::now();
        match &self.steps[tid][i] {
            Do::Op(st) => {
                let r = self.t.run(st.how, st.op, st.var, st.k, st.ver);
                let end = rt::now();
                if let Some(d) = r {
                    let mut evs = self.evs.lock().unwrap();
                    let n = evs.len();
                    record(&mut evs, &st.name(), st.op, st.k, d, start, end);
                    for e in &mut evs[n..] {
                        e.broken = rt::switches() != sw;
                        e.lock_free = T::lock_free(st.op, st.var);
                    }
                }
            }
            Do::Scan(p) => {
                let mut out = Out::default();
                self.t.scan(p, &mut out);
                let end = rt::now();
                let broken = rt::switches() != sw;
                self.scans.lock().unwrap().push(Rec { plan: p.clone(), out, tid, start, end, broken });
            }
        }
        let c = rt::quiet(|| self.t.cap());
        self.caps.lock().unwrap().insert(c);
    }
}

/// Turns scans into per-key events.
pub fn scan_events<T: Scan>(init: &BTreeMap<u32, u64>, fin: &BTreeMap<u32, u64>, evs: &[Ev], scans: &[Rec]) -> Vec<Ev> {
    let mut keys: BTreeSet<u32> = init.keys().chain(fin.keys()).copied().collect();
    keys.extend(evs.iter().map(|e| e.key));
    for r in scans {
        keys.extend(r.out.visits.iter().map(|v| v.k));
    }
    let vis = |v: u64| v;
    let mut new = Vec::new();
    for (n, r) in scans.iter().enumerate() {
        let free = matches!(r.plan.kind, Kind::Free | Kind::Range);
        let mut push = |key, op, ret, end, what: &str| {
            new.push(Ev { key, op, ret, start: r.start, end, tid: r.tid, name: format!("scan{n} {:?} {what}", r.plan.kind), broken: r.broken, lock_free: free });
        };
        if matches!(r.plan.kind, Kind::Clear | Kind::RemoveRange) {
            for k in &keys {
                if r.plan.kind == Kind::RemoveRange && !r.plan.has(*k) {
                    continue;
                }
                if r.out.returned {
                    push(*k, Op::Wipe, Ret::Bool(true), r.end, "removes");
                } else {
                    push(*k, Op::Wipe, Ret::Unknown, r.end, "removes");
                }
                // An entry inserted meanwhile may be removed as well.
                let ins = evs.iter().filter(|e| e.key == *k && e.end > r.start && e.start < r.end && matches!(e.op, Op::Insert(_) | Op::Upsert(_) | Op::OrInsert(_))).count();
                for _ in 0..ins.min(3) {
                    push(*k, Op::Wipe, Ret::Unknown, r.end, "removes again");
                }
            }
            continue;
        }
        let mut seen = BTreeSet::new();
        for v in &r.out.visits {
            seen.insert(v.k);
            match v.act {
                Act::Keep => push(v.k, Op::Read, Ret::Val(Some(vis(v.v))), v.t, "visits"),
                Act::Take if r.out.returned => push(v.k, Op::Remove, Ret::Val(Some(vis(v.v))), r.end, "takes"),
                Act::Take => {
                    push(v.k, Op::Read, Ret::Val(Some(vis(v.v))), v.t, "visits");
                    push(v.k, Op::RemoveIs(v.v), Ret::Unknown, r.end, "takes");
                }
                Act::Bump => push(v.k, Op::Add, Ret::Val(Some(vis(v.v))), r.end, "bumps"),
            }
        }
        if r.out.complete {
            for k in &keys {
                if !seen.contains(k) && (r.plan.kind != Kind::Range || r.plan.has(*k)) {
                    push(*k, Op::Read, Ret::Val(None), r.end, "misses");
                }
            }
        }
    }
    new
}

/// Checks that do not depend on the history.
pub fn scan_shape<T: Scan>(r: &Rec, may_resize: bool) -> Res {
    let is_tree = T::NAME == "TreeIndex";
    if is_tree {
        for w in r.out.visits.windows(2) {
            ensure!(w[0].k < w[1].k, "order", "{} yielded {} after {}", r.plan.name(), w[1].k, w[0].k);
        }
    }
    if r.plan.kind == Kind::Range {
        for v in &r.out.visits {
            ensure!(r.plan.has(v.k), "range", "{} yielded {}", r.plan.name(), v.k);
        }
    }
    if !is_tree && T::locking(r.plan.kind) && !may_resize {
        // Within the scan nothing that was kept may come again.
        let mut kept = BTreeSet::new();
        for v in &r.out.visits {
            ensure!(!kept.contains(&v.k), "twice", "{} visited {} twice without a resize", r.plan.name(), v.k);
            if v.act != Act::Take {
                kept.insert(v.k);
            }
        }
    }
    Ok(())
}

/// Replaces "nothing happened to this key but complete scans saw it" by nothing.
fn prune(evs: Vec<Ev>, init: &BTreeMap<u32, u64>, fin: &BTreeMap<u32, u64>) -> (Vec<Ev>, BTreeMap<u32, u64>, BTreeMap<u32, u64>) {
    let mut busy: BTreeSet<u32> = BTreeSet::new();
    for e in &evs {
        let s = init.get(&e.key).copied();
        if e.op != Op::Read || e.ret != Ret::Val(s) {
            busy.insert(e.key);
        }
    }
    for k in init.keys().chain(fin.keys()) {
        if init.get(k) != fin.get(k) {
            busy.insert(*k);
        }
    }
    let f = |m: &BTreeMap<u32, u64>| m.iter().filter(|(k, _)| busy.contains(k)).map(|(k, v)| (*k, *v)).collect::<BTreeMap<_, _>>();
    let (i, f) = (f(init), f(fin));
    (evs.into_iter().filter(|e| busy.contains(&e.key)).collect(), i, f)
}

pub fn judge<T: Scan>(init: &BTreeMap<u32, u64>, fin: &BTreeMap<u32, u64>, evs: Vec<Ev>, scans: &[Rec], may_resize: bool) -> Res {
    for r in scans {
        vtrace!(
            "T{} [{}..{}] {} -> {} visits{}: {:?}",
            r.tid,
            r.start,
            r.end,
            r.plan.name(),
            r.out.visits.len(),
            if r.out.complete { "" } else { " (incomplete)" },
            r.out.visits.iter().map(|v| (v.k, v.v, v.act)).take(80).collect::<Vec<_>>()
        );
        scan_shape::<T>(r, may_resize)?;
    }
    let mut all = scan_events::<T>(init, fin, &evs, scans);
    all.extend(evs);
    // Scans and lookups may disagree on entries that a range removal or clear is still removing
    // (documented for scans: "it is possible to visit removed key-value pairs momentarily").
    if T::NAME == "TreeIndex" {
        let wipes: Vec<Ev> = all.iter().filter(|e| e.op == Op::Wipe).cloned().collect();
        let put: BTreeSet<(u32, u64)> = all.iter().filter_map(|e| if let Op::Insert(v) = e.op { Some((e.key, v)) } else { None }).collect();
        all.retain(|e| {
            let by_scan = e.op == Op::Read && (e.name.starts_with("scan") || e.name.starts_with("Read/3"));
            let Ret::Val(v) = e.ret else { return true };
            let real = v.is_none_or(|v| init.get(&e.key) == Some(&v) || put.contains(&(e.key, v)));
            !(by_scan && real && wipes.iter().any(|w| w.key == e.key && w.end > e.start && w.start < e.end))
        });
    }
    // While an entry of a HashIndex is being updated the old and the new version coexist.
    if T::NAME == "HashIndex" {
        let ups: Vec<Ev> = all.iter().filter(|e| matches!(e.op, Op::Upsert(_) | Op::Update(_) | Op::Add)).cloned().collect();
        all.retain(|e| {
            let (true, Op::Read, Ret::Val(Some(v))) = (e.lock_free && e.name.starts_with("scan"), e.op, e.ret) else { return true };
            !ups.iter().any(|u| {
                u.key == e.key
                    && u.start < e.end
                    && e.start < u.end
                    && (u.ret == Ret::Val(Some(v))
                        || match u.op {
                            Op::Upsert(x) | Op::Update(x) => x == v,
                            _ => u.ret == Ret::Val(Some(v.wrapping_sub(STEP))),
                        })
            })
        });
    }
    // A lock-free scan may see an entry that is being inserted earlier than point lookups do; the
    // latter are judged by L02.
    if T::NAME == "HashIndex" {
        all.retain(|e| !e.lock_free || e.name.starts_with("scan"));
    }
    let (all, i, f) = prune(all, init, fin);
    lin::check(all, &i, &f)
}

/// Two to four threads; at least one of them scans.
pub fn gen_steps<T: Scan>(g: &mut Gen, sh: &Shape, hot: &[u32], is_tree: bool, max_ops: usize, how: impl Fn(&mut Gen) -> How + Copy) -> Vec<Vec<Do>> {
    let mut steps = gen_threads::<T>(g, sh, hot, is_tree, max_ops, how);
    crate::linear::fix_set::<T>(&mut steps);
    let mut v: Vec<Vec<Do>> = steps.into_iter().map(|s| s.into_iter().map(Do::Op).collect()).collect();
    let n = v.len();
    for (t, s) in v.iter_mut().enumerate() {
        if t == 0 {
            // The scanner.
            s.truncate(g.usize(3));
            let m = 1 + g.weighted(&[4, 1]);
            for _ in 0..m {
                let h = how(g);
                let p = gen_plan::<T>(g, sh, hot, h);
                let at = g.usize(s.len() + 1);
                s.insert(at, Do::Scan(p));
            }
        } else if n > 2 && t == 1 && g.chance(1, 4) {
            let h = how(g);
            let p = gen_plan::<T>(g, sh, hot, h);
            let at = g.usize(s.len() + 1);
            s.insert(at, Do::Scan(p));
        }
    }
    v
}

pub fn trace_steps(steps: &[Vec<Do>]) {
    for (i, s) in steps.iter().enumerate() {
        let v: Vec<String> = s
            .iter()
            .map(|d| match d {
                Do::Op(s) => s.name(),
                Do::Scan(p) => p.name(),
            })
            .collect();
        vtrace!("T{i}: {}", v.join(", "));
    }
}

/// Whether the table may be resized in a case of this kind.
pub fn resizes(sh: &Shape, caps: &BTreeSet<usize>) -> bool {
    caps.len() > 1 || !matches!(sh.kind, "small" | "overflow" | "full" | "drained")
}

pub fn case<T: Scan>(g: &mut Gen, ctx: &mut Ctx, is_tree: bool, race: bool) -> Res {
    vcore::track::reset();
    vcore::track::report_drops(race && !is_tree && T::NAME != "HashIndex");
    {
        let (t, sh) = prepare::<T>(g, is_tree);
        trace_shape(T::NAME, &sh, t.cap());
        let hot = hot_keys(g, &sh, is_tree);
        let steps = gen_steps::<T>(g, &sh, &hot, is_tree, 5, how_plain);
        let cfg = gen_sched(g, &steps.iter().map(Vec::len).collect::<Vec<_>>(), SchedOpts { race, ..SchedOpts::default() });
        trace_steps(&steps);
        trace_sched(&cfg);
        let init = init_map::<T>(&sh);
        let n = steps.len();
        let shared = Shared::new(t, steps);
        let out = go(cfg, &shared, n, |s, tid| {
            for i in 0..s.steps[tid].len() {
                s.step(tid, i);
            }
        })?;
        ledger()?;
        let evs = shared.evs.lock().unwrap().clone();
        let scans = std::mem::take(&mut *shared.scans.lock().unwrap());
        for e in &evs {
            vtrace!("T{} [{}..{}] {} -> {:?}", e.tid, e.start, e.end, e.name, e.ret);
        }
        let fin = shared.t.contents();
        ledger()?;
        let caps = shared.caps.lock().unwrap().clone();
        if caps.len() > 1 {
            ctx.label("capacity_changed");
        }
        ctx.label(sh.kind);
        // A modification by another thread within a scan.
        let overlap = scans.iter().any(|r| {
            evs.iter().any(|e| e.tid != r.tid && crate::linear::writes(e.op) && e.start < r.end && r.start < e.end)
        });
        if overlap {
            ctx.label("overlap");
            ctx.nontrivial = out.switches > n as u64 - 1;
        }
        for r in &scans {
            ctx.label(match r.plan.kind {
                Kind::Iter => "iter",
                Kind::IterMut => "iter_mut",
                Kind::Retain => "retain",
                Kind::Cursor => "cursor",
                Kind::Any => "any",
                Kind::Clear => "clear",
                Kind::Free => "lock_free_iter",
                Kind::Range => "range",
                Kind::RemoveRange => "remove_range",
            });
        }
        if race {
            ctx.nontrivial = out.handed_over > 0;
            ctx.count("handed_over", out.handed_over);
            if let Some(e) = out.race {
                fail!("race", "{e}");
            }
        } else {
            judge::<T>(&init, &fin, evs, &scans, resizes(&sh, &caps))?;
        }
        let Ok(_) = Arc::try_unwrap(shared) else {
            fail!("internal", "the shared state is still referred to");
        };
    }
    fw::all_dropped()
}

const RULE: &str = "A case draws a container state as for L01, one scanning thread with 1-2 scans (every kind the container has: iterate, iterate-mutably with consumption and modification, retain, cursor with next/remove-and-next, any, clear, lock-free iterator, range, range removal; sync and async; complete or stopped early) and 1-3 other threads with 1-5 operations (a further scan among them), and a schedule. Every visit is checked as a read (or removal, or modification) of that key within the scan and every key that was not visited as a read that found nothing, in one per-key linearizability check together with all the operations. Non-trivial: a modification by another thread overlapped a scan and at least one preemption happened.";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "S01",
            rule: RULE,
            suites: vec![
                Suite { name: "hashmap", quick: 120_000, thorough: 2_500_000, f: |g, c| case::<Map>(g, c, false, false) },
                Suite { name: "hashset", quick: 60_000, thorough: 1_000_000, f: |g, c| case::<Set>(g, c, false, false) },
                Suite { name: "hashindex", quick: 120_000, thorough: 2_500_000, f: |g, c| case::<Index>(g, c, false, false) },
                Suite { name: "hashcache", quick: 80_000, thorough: 1_500_000, f: |g, c| case::<Cache>(g, c, false, false) },
            ],
        },
        Prop {
            id: "S02",
            rule: RULE,
            suites: vec![Suite { name: "treeindex", quick: 300_000, thorough: 5_000_000, f: |g, c| case::<Tree>(g, c, true, false) }],
        },
    ]
}
