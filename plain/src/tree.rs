//! T01 / T02: `TreeIndex` against an ordered map.
use crate::map::{Model, diff};
use crate::sa;
use crate::util::*;
use scc::{Guard, TreeIndex};
use std::ops::Bound;
use vcore::types::*;
use vcore::{Ctx, Gen, Prop, Res, Suite, ensure, vtrace};

pub type Tree = TreeIndex<K, V>;

pub fn t01() -> Prop {
    Prop {
        id: "T01",
        rule: "A case draws a key domain and a sequence of TreeIndex calls (sync, async, lock-free reads; runs of insertions and removals in ascending, descending or scattered order; clear; guards kept) and compares every result and the full ordered contents with a BTreeMap. Non-trivial: the tree reached at least two levels and entries were removed from it. The suite *-types runs shorter histories on containers of unusual types (no destructor, zero-sized, over-aligned, heap-owning); non-trivial there: a resize and a removal or replacement.",
        suites: vec![Suite { name: "treeindex", quick: 800_000, thorough: 12_000_000, f: |g, c| case(g, c, false) }, crate::zoo::t01()],
    }
}
pub fn t02() -> Prop {
    Prop {
        id: "T02",
        rule: "As for T01, with half of the calls being iterations, ranges with all combinations of bound kinds (bounds biased to existing keys, their neighbours and the ends, empty and inverted ranges included) and range removals, each compared with the model range. Non-trivial: a range or range removal with at least one bound was applied to a tree of at least two leaves.",
        suites: vec![Suite { name: "ranges", quick: 800_000, thorough: 12_000_000, f: |g, c| case(g, c, true) }],
    }
}

pub fn check_tree(m: &Tree, model: &Model) -> Res {
    ensure!(m.len() == model.len(), "len", "len() = {}, model has {}", m.len(), model.len());
    ensure!(m.is_empty() == model.is_empty(), "is_empty", "is_empty() = {} with {} entries", m.is_empty(), model.len());
    let guard = Guard::new();
    let mut it = m.iter(&guard);
    let mut exp = model.iter();
    let mut n = 0;
    for (k, v) in it.by_ref() {
        let got = (k.k, (k.ver, v.get()));
        let e = exp.next().map(|(k, v)| (*k, *v));
        if e != Some(got) {
            let all: Model = m.iter(&guard).take(5000).map(|(k, v)| (k.k, (k.ver, v.get()))).collect();
            vcore::fail!("iter", "entry {n} of the iteration is {got:?}, expected {e:?}; {}", diff(&all, model));
        }
        n += 1;
    }
    ensure!(n == model.len(), "iter", "the iteration ended after {n} of {} entries", model.len());
    ensure!(it.next().is_none() && it.next().is_none(), "fused", "a finished iterator yields again");
    Ok(())
}

fn bound(g: &mut Gen, model: &Model, dom: u32) -> Bound<u32> {
    let kind = g.weighted(&[4, 4, 2]);
    if kind == 2 {
        return Bound::Unbounded;
    }
    let k = match g.weighted(&[4, 3, 2, 1]) {
        0 if !model.is_empty() => *model.keys().nth(g.usize(model.len())).unwrap(),
        1 if !model.is_empty() => {
            let x = *model.keys().nth(g.usize(model.len())).unwrap();
            if g.chance(1, 2) { x + 1 } else { x.saturating_sub(1) }
        }
        3 => *g.pick(&[0, dom, dom + 10, u32::MAX]),
        _ => g.below(u64::from(dom)) as u32,
    };
    if kind == 0 { Bound::Included(k) } else { Bound::Excluded(k) }
}

pub fn within(k: u32, b: &(Bound<u32>, Bound<u32>)) -> bool {
    (match b.0 {
        Bound::Included(x) => k >= x,
        Bound::Excluded(x) => k > x,
        Bound::Unbounded => true,
    }) && (match b.1 {
        Bound::Included(x) => k <= x,
        Bound::Excluded(x) => k < x,
        Bound::Unbounded => true,
    })
}

fn case(g: &mut Gen, ctx: &mut Ctx, ranges: bool) -> Res {
    vcore::track::reset();
    let dom = *g.pick(&[40_u32, 8, 120, 400, 1500, 4000]);
    vtrace!("TreeIndex keys=0..{dom}");
    {
        let m: Tree = TreeIndex::new();
        let mut model = Model::new();
        let mut ver = 0;
        let mut removed = 0;
        let mut max_len = 0;
        let mut ranged = false;
        let rounds = 1 + g.weighted(&[6, 3, 2]);
        for _ in 0..rounds {
            let guard = if g.chance(1, 3) { Some(Guard::new()) } else { None };
            let mut held: Vec<(&V, u64)> = Vec::new();
            let n = 1 + g.log_uniform(40) as usize;
            for _ in 0..n {
                step(&m, &mut model, g, dom, &mut ver, &mut removed, ranges, &mut ranged)?;
                if let Some(gu) = guard.as_ref()
                    && held.len() < 16
                    && g.chance(1, 3)
                {
                    let k = g.below(u64::from(dom)) as u32;
                    if let Some(v) = m.peek(&k, gu) {
                        held.push((v, v.get()));
                    }
                }
                max_len = max_len.max(model.len());
                ledger()?;
            }
            for (v, x) in &held {
                ensure!(v.get() == *x, "held", "a value held under a guard changed from {x} to {}", v.get());
            }
        }
        check_tree(&m, &model)?;
        let gu = Guard::new();
        for k in 0..dom.min(600) {
            let exp = model.get(&k).copied();
            let got = m.peek_with(&k, |k, v| (k.ver, v.get()));
            ensure!(got == exp, "peek", "peek_with({k}) = {got:?}, expected {exp:?}");
            ensure!(m.contains(&Q(k)) == exp.is_some(), "contains", "contains({k})");
            ensure!(m.peek(&Q(k), &gu).map(V::get) == exp.map(|x| x.1), "peek", "peek({k})");
        }
        if max_len > 14 {
            ctx.label("leaf_split");
        }
        if max_len > 14 * 14 {
            ctx.label("deep");
        }
        ctx.nontrivial = max_len > 14 && if ranges { ranged } else { removed > 0 };
        ledger()?;
    }
    all_dropped()
}

#[allow(clippy::too_many_arguments)]
fn step(
    m: &Tree,
    model: &mut Model,
    g: &mut Gen,
    dom: u32,
    vers: &mut u32,
    removed: &mut usize,
    ranges: bool,
    ranged: &mut bool,
) -> Res {
    let a = g.chance(1, 3);
    let t = if a { "async" } else { "sync" };
    let k = g.below(u64::from(dom)) as u32;
    *vers += 1;
    let ver = *vers;
    let val = u64::from(ver) * 10;
    let r = if ranges { 6 } else { 0 };
    match g.weighted(&[10, 8, 5, 5, 8, 8, 1, 2, r, r + 1, r, r / 2]) {
        0 => {
            vtrace!("insert_{t}({k}#{ver}, {val})");
            match sa!(a, m.insert_sync(K::new(k, ver), V::new(val)), m.insert_async(K::new(k, ver), V::new(val))) {
                Ok(()) => {
                    ensure!(!model.contains_key(&k), "insert", "insert({k}) succeeded although the key exists");
                    model.insert(k, (ver, val));
                }
                Err((rk, rv)) => {
                    ensure!(model.contains_key(&k), "insert", "insert({k}) failed although the key does not exist");
                    ensure!((rk.k, rk.ver, rv.get()) == (k, ver, val), "insert", "insert({k}) returned a different pair");
                }
            }
        }
        1 => {
            let k = near(g, model, k);
            let got = sa!(a, m.remove_sync(&k), m.remove_async(&k));
            vtrace!("remove_{t}({k}) -> {got}");
            let exp = model.remove(&k).is_some();
            ensure!(got == exp, "remove", "remove({k}) = {got}, expected {exp}");
            *removed += usize::from(exp);
        }
        2 => {
            let k = near(g, model, k);
            let yes = g.chance(1, 2);
            let mut saw = None;
            let f = |v: &V| {
                saw = Some(v.get());
                yes
            };
            let got = sa!(a, m.remove_if_sync(&Q(k), f), m.remove_if_async(&Q(k), f));
            vtrace!("remove_if_{t}({k}, cond={yes}) -> {got}");
            ensure!(saw == model.get(&k).map(|x| x.1), "remove_if", "the condition saw {saw:?}");
            let exp = yes && model.remove(&k).is_some();
            ensure!(got == exp, "remove_if", "remove_if({k}) = {got}, expected {exp}");
            *removed += usize::from(exp);
        }
        3 => {
            let k = near(g, model, k);
            let gu = Guard::new();
            let got = m.peek_entry(&Q(k), &gu).map(|(kk, v)| (kk.k, (kk.ver, v.get())));
            vtrace!("peek_entry({k}) -> {got:?}");
            let exp = model.get(&k).map(|x| (k, *x));
            ensure!(got == exp, "peek", "peek_entry({k}) = {got:?}, expected {exp:?}");
            ensure!(m.peek(&k, &gu).map(V::get) == exp.map(|x| x.1.1), "peek", "peek({k})");
            ensure!(m.contains(&k) == exp.is_some(), "contains", "contains({k})");
        }
        4 | 5 => {
            // Runs in some order.
            let insert = g.chance(3, 5);
            let cnt = 1 + g.log_uniform(u64::from(dom.min(900))) as u32;
            let order = g.usize(4);
            let stride = *g.pick(&[1_u32, 2, 3, 7, 13]);
            vtrace!("run {} {cnt} from {k} order={order} stride={stride}", if insert { "insert" } else { "remove" });
            for i in 0..cnt {
                let k = match order {
                    0 => (k + i * stride) % dom,
                    1 => (k + dom * stride - (i * stride) % dom) % dom,
                    2 => (vcore::r#gen::mix(u64::from(k), u64::from(i)) % u64::from(dom)) as u32,
                    _ => {
                        if i % 2 == 0 {
                            (k + i) % dom
                        } else {
                            (k + dom - i % dom) % dom
                        }
                    }
                };
                if insert {
                    let r = sa!(a, m.insert_sync(K::new(k, ver), V::new(val)), m.insert_async(K::new(k, ver), V::new(val)));
                    ensure!(r.is_ok() != model.contains_key(&k), "insert", "insert({k}) in a run = {}", r.is_ok());
                    if r.is_ok() {
                        model.insert(k, (ver, val));
                    }
                } else {
                    let r = sa!(a, m.remove_sync(&k), m.remove_async(&k));
                    let exp = model.remove(&k).is_some();
                    ensure!(r == exp, "remove", "remove({k}) in a run = {r}");
                    *removed += usize::from(exp);
                }
            }
        }
        6 => {
            vtrace!("clear()");
            m.clear();
            *removed += model.len();
            model.clear();
        }
        7 => check_tree(m, model)?,
        8 => {
            let b = (bound(g, model, dom), bound(g, model, dom));
            *ranged = true;
            let gu = Guard::new();
            let mut exp = model.iter().filter(|(k, _)| within(**k, &b)).map(|(k, v)| (*k, *v));
            let by_q = g.chance(1, 3);
            vtrace!("range({b:?}) by_q={by_q}");
            let mut n = 0;
            if by_q {
                let q = (b.0.map(Q), b.1.map(Q));
                let mut it = m.range::<Q, _>(q, &gu);
                for (k, v) in it.by_ref() {
                    let got = (k.k, (k.ver, v.get()));
                    let e = exp.next();
                    ensure!(e == Some(got), "range", "entry {n} of range {b:?} is {got:?}, expected {e:?}");
                    n += 1;
                }
                ensure!(it.next().is_none() && it.next().is_none(), "fused", "a finished range yields again");
            } else {
                let mut it = m.range::<u32, _>(b, &gu);
                for (k, v) in it.by_ref() {
                    let got = (k.k, (k.ver, v.get()));
                    let e = exp.next();
                    ensure!(e == Some(got), "range", "entry {n} of range {b:?} is {got:?}, expected {e:?}");
                    n += 1;
                }
                ensure!(it.next().is_none() && it.next().is_none(), "fused", "a finished range yields again");
            }
            let e = exp.next();
            ensure!(e.is_none(), "range", "range {b:?} ended after {n} entries, expected {e:?} next");
        }
        9 => {
            let b = (bound(g, model, dom), bound(g, model, dom));
            *ranged |= ranges;
            vtrace!("remove_range_{t}({b:?})");
            if g.chance(1, 3) {
                let q = (b.0.map(Q), b.1.map(Q));
                sa!(a, m.remove_range_sync::<Q, _>(q), m.remove_range_async::<Q, _>(q));
            } else {
                sa!(a, m.remove_range_sync::<u32, _>(b), m.remove_range_async::<u32, _>(b));
            }
            let n = model.len();
            model.retain(|k, _| !within(*k, &b));
            *removed += n - model.len();
            if g.chance(1, 2) {
                check_tree(m, model)?;
            }
        }
        10 => {
            // An iteration interleaved with changes at quiescent points: what is yielded is
            // ordered, and everything untouched is yielded exactly once.
            let gu = Guard::new();
            let b = (bound(g, model, dom), bound(g, model, dom));
            let all = g.chance(1, 2);
            vtrace!("scan with changes in between, range={}", if all { "all".into() } else { format!("{b:?}") });
            let start = model.clone();
            let mut gone: Vec<u32> = Vec::new();
            let mut came: Vec<(u32, (u32, u64))> = Vec::new();
            let mut it: Box<dyn Iterator<Item = (&K, &V)>> =
                if all { Box::new(m.iter(&gu)) } else { Box::new(m.range::<u32, _>(b, &gu)) };
            let mut last = None;
            let mut seen = Model::new();
            loop {
                let Some((k, v)) = it.next() else { break };
                ensure!(last < Some(k.k), "order", "the scan yields {} after {last:?}", k.k);
                ensure!(all || within(k.k, &b), "range", "the scan of {b:?} yields {}", k.k);
                last = Some(k.k);
                seen.insert(k.k, (k.ver, v.get()));
                if g.chance(1, 3) {
                    let d = g.below(40) as u32;
                    let x = if g.chance(2, 3) { (k.k + d) % dom } else { k.k.saturating_sub(d) };
                    *vers += 1;
                    match g.weighted(&[3, 3, 1]) {
                        0 => {
                            if m.insert_sync(K::new(x, *vers), V::new(val)).is_ok() {
                                vtrace!("  at {}: insert({x})", k.k);
                                model.insert(x, (*vers, val));
                                came.push((x, (*vers, val)));
                            }
                        }
                        1 => {
                            if m.remove_sync(&x) {
                                vtrace!("  at {}: remove({x})", k.k);
                                model.remove(&x);
                                gone.push(x);
                            }
                        }
                        _ => {
                            let y = x + g.below(30) as u32;
                            vtrace!("  at {}: remove_range({x}..={y})", k.k);
                            m.remove_range_sync(x..=y);
                            let r: Vec<u32> = model.range(x..=y).map(|(k, _)| *k).collect();
                            for k in r {
                                model.remove(&k);
                                gone.push(k);
                            }
                        }
                    }
                }
            }
            for (k, v) in &start {
                if (all || within(*k, &b)) && !gone.contains(k) {
                    ensure!(seen.get(k) == Some(v), "scan", "the scan missed key {k} or yielded another value");
                }
            }
            for (k, v) in &seen {
                ensure!(start.get(k) == Some(v) || came.contains(&(*k, *v)), "scan", "the scan yielded a foreign entry {k}");
            }
            *ranged = true;
        }
        _ => {
            // The first and the last entries.
            let gu = Guard::new();
            let got = m.iter(&gu).next().map(|(k, v)| (k.k, (k.ver, v.get())));
            let exp = model.iter().next().map(|(k, v)| (*k, *v));
            ensure!(got == exp, "iter", "the first entry is {got:?}, expected {exp:?}");
        }
    }
    Ok(())
}

fn near(g: &mut Gen, model: &Model, k: u32) -> u32 {
    if !model.is_empty() && g.chance(2, 3) {
        *model.keys().nth(g.usize(model.len())).unwrap()
    } else {
        k
    }
}
