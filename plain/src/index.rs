//! I01: `HashIndex` against a sequential model, with retired versions kept alive by guards.
use crate::map::{Model, diff};
use crate::sa;
use crate::util::*;
use scc::hash_index::{Entry, OccupiedEntry};
use scc::{Guard, HashIndex};
use vcore::types::*;
use vcore::{Ctx, Gen, Prop, Res, Suite, ensure, fail, vtrace};

pub type Index = HashIndex<K, V, TestHasher>;

pub fn i01() -> Prop {
    Prop {
        id: "I01",
        rule: "A case draws a hash distribution, key domain, initial capacity and a sequence of HashIndex calls (sync, async and lock-free; entry API; bulk fills and drains; guards taken and released, epoch advances) and compares every result, the lock-free iterator and the full contents with a BTreeMap model. Non-trivial: a removal or replacement succeeded and the table was resized, a bucket overflowed, or a bucket had to reuse or skip retired slots (at least 33 insertions into one hash class). The suite *-types runs shorter histories on containers of unusual types (no destructor, zero-sized, over-aligned, heap-owning); non-trivial there: a resize and a removal or replacement.",
        suites: vec![Suite { name: "hashindex", quick: 1_500_000, thorough: 20_000_000, f: case }, crate::zoo::i01()],
    }
}

pub fn check_index(m: &Index, model: &Model) -> Res {
    ensure!(m.len() == model.len(), "len", "len() = {}, model has {}", m.len(), model.len());
    ensure!(m.is_empty() == model.is_empty(), "is_empty", "is_empty() = {}", m.is_empty());
    let mut seen = Model::new();
    let mut calls = 0;
    let all = m.iter_sync(|k, v| {
        seen.insert(k.k, (k.ver, v.get()));
        calls += 1;
        true
    });
    ensure!(all && calls == model.len() && seen == *model, "contents", "iter_sync: {}", diff(&seen, model));
    let guard = Guard::new();
    let mut seen = Model::new();
    let mut it = m.iter(&guard);
    let mut calls = 0;
    for (k, v) in it.by_ref() {
        seen.insert(k.k, (k.ver, v.get()));
        calls += 1;
        ensure!(calls <= 4 * model.len() + 4, "iter", "the lock-free iterator does not end");
    }
    ensure!(calls == model.len() && seen == *model, "iter", "iter: {} visits for {} entries; {}", calls, model.len(), diff(&seen, model));
    ensure!(it.next().is_none() && it.next().is_none(), "fused", "a finished iterator yields again");
    Ok(())
}

struct Held<'g> {
    v: &'g V,
    val: u64,
}

fn case(g: &mut Gen, ctx: &mut Ctx) -> Res {
    vcore::track::reset();
    let sh = shape(g);
    vtrace!("HashIndex dist={:?} keys=0..{} capacity={}", sh.dist, sh.keys, sh.cap);
    {
        let m: Index = HashIndex::with_capacity_and_hasher(sh.cap, TestHasher(sh.dist));
        let mut model = Model::new();
        let mut ver = 0;
        let mut changed = false;
        let mut inserted = 0_usize;
        let mut resized = false;
        let rounds = 1 + g.weighted(&[6, 3, 2]);
        for _ in 0..rounds {
            // A guard may be held for a whole round of operations.
            let guard = if g.chance(1, 2) { Some(Guard::new()) } else { None };
            if guard.is_some() {
                vtrace!("guard taken");
            }
            let mut held: Vec<Held> = Vec::new();
            let n = 1 + g.log_uniform(40) as usize;
            for _ in 0..n {
                let cap = m.capacity();
                step(&m, &mut model, g, &sh, &mut ver, &mut changed, &mut inserted, guard.is_some())?;
                if let Some(gu) = guard.as_ref()
                    && held.len() < 16
                    && g.chance(1, 3)
                {
                    let k = g.below(u64::from(sh.keys)) as u32;
                    if let Some(v) = m.peek(&k, gu) {
                        held.push(Held { v, val: v.get() });
                    }
                }
                ledger()?;
                resized |= m.capacity() != cap;
                ensure!(m.len() == model.len(), "len", "len() = {}, model has {}", m.len(), model.len());
            }
            for h in &held {
                ensure!(h.v.get() == h.val, "held", "a value held under a guard changed from {} to {}", h.val, h.v.get());
            }
            drop(held);
            drop(guard);
            if g.chance(1, 3) {
                let t = g.range(1, 12);
                vtrace!("advance the epoch x{t}");
                for _ in 0..t {
                    let gu = Guard::new();
                    gu.accelerate();
                }
            }
        }
        check_index(&m, &model)?;
        let gu = Guard::new();
        for k in 0..sh.keys {
            let exp = model.get(&k).copied();
            let got = m.peek_with(&k, |k, v| (k.ver, v.get()));
            ensure!(got == exp, "peek", "peek_with({k}) = {got:?}, expected {exp:?}");
            ensure!(m.contains(&Q(k)) == exp.is_some(), "contains", "contains({k})");
            ensure!(m.peek(&Q(k), &gu).map(V::get) == exp.map(|x| x.1), "peek", "peek({k})");
        }
        if resized {
            ctx.label("resized");
        }
        if inserted > 32 {
            ctx.label("many_insertions");
        }
        ctx.nontrivial = changed && (resized || inserted > 32);
        ledger()?;
    }
    all_dropped()
}

#[allow(clippy::too_many_arguments)]
fn step(
    m: &Index,
    model: &mut Model,
    g: &mut Gen,
    sh: &Shape,
    vers: &mut u32,
    changed: &mut bool,
    inserted: &mut usize,
    guarded: bool,
) -> Res {
    let a = g.chance(1, 3);
    let t = if a { "async" } else { "sync" };
    let k = g.below(u64::from(sh.keys)) as u32;
    *vers += 1;
    let ver = *vers;
    let val = u64::from(ver) * 10;
    match g.weighted(&[10, 8, 5, 6, 8, 3, 4, 3, 3, 1, 4, 6, 5, 6, 2, 4, 1]) {
        0 => {
            vtrace!("insert_{t}({k}#{ver}, {val})");
            match sa!(a, m.insert_sync(K::new(k, ver), V::new(val)), m.insert_async(K::new(k, ver), V::new(val))) {
                Ok(()) => {
                    ensure!(!model.contains_key(&k), "insert", "insert({k}) succeeded although the key exists");
                    model.insert(k, (ver, val));
                    *inserted += 1;
                }
                Err((rk, rv)) => {
                    ensure!(model.contains_key(&k), "insert", "insert({k}) failed although the key does not exist");
                    ensure!((rk.k, rk.ver, rv.get()) == (k, ver, val), "insert", "insert({k}) returned a different pair");
                }
            }
        }
        1 => {
            let got = sa!(a, m.remove_sync(&k), m.remove_async(&k));
            vtrace!("remove_{t}({k}) -> {got}");
            let exp = model.remove(&k).is_some();
            ensure!(got == exp, "remove", "remove({k}) = {got}, expected {exp}");
            *changed |= exp;
        }
        2 => {
            let yes = g.chance(1, 2);
            let mut saw = None;
            let f = |v: &V| {
                saw = Some(v.get());
                yes
            };
            let got = sa!(a, m.remove_if_sync(&Q(k), f), m.remove_if_async(&Q(k), f));
            vtrace!("remove_if_{t}({k}, cond={yes}) -> {got}");
            ensure!(saw == model.get(&k).map(|x| x.1), "remove_if", "the condition saw {saw:?}");
            let exp = yes && model.remove(&k).is_some();
            ensure!(got == exp, "remove_if", "remove_if({k}) = {got}, expected {exp}");
            *changed |= exp;
        }
        3 => {
            let e = sa!(a, m.get_sync(&k), m.get_async(&k));
            ensure!(e.is_some() == model.contains_key(&k), "get", "get({k}).is_some() = {}", e.is_some());
            if let Some(e) = e {
                occupied(e, model, g, k, val, a, changed, inserted, guarded)?;
            }
        }
        4 | 5 => {
            let e = if g.chance(2, 3) {
                sa!(a, m.entry_sync(K::new(k, ver)), m.entry_async(K::new(k, ver)))
            } else {
                match m.try_entry(K::new(k, ver)) {
                    Some(e) => e,
                    None => fail!("try_entry", "try_entry({k}) returned None without contention"),
                }
            };
            ensure!(e.key().k == k, "entry", "entry key {} for {k}", e.key().k);
            let sub = g.usize(6);
            let had = model.get(&k).copied();
            vtrace!("entry_{t}({k}#{ver}) sub={sub}");
            let occ = match sub {
                0 => {
                    model.entry(k).or_insert((ver, val));
                    e.or_insert(V::new(val))
                }
                1 => {
                    let mut called = false;
                    let o = e.or_insert_with(|| {
                        called = true;
                        V::new(val)
                    });
                    ensure!(called == had.is_none(), "entry", "or_insert_with called={called}");
                    model.entry(k).or_insert((ver, val));
                    o
                }
                2 => {
                    model.entry(k).or_insert((ver, u64::from(k) + 5));
                    e.or_insert_with_key(|kk| V::new(u64::from(kk.k) + 5))
                }
                3 => {
                    model.entry(k).or_insert((ver, DEFAULT_V));
                    e.or_default()
                }
                _ => match e {
                    Entry::Occupied(o) => {
                        ensure!(had.is_some(), "entry", "entry({k}) is occupied but the model lacks the key");
                        return occupied(o, model, g, k, val, a, changed, inserted, guarded);
                    }
                    Entry::Vacant(v) => {
                        ensure!(had.is_none(), "entry", "entry({k}) is vacant but the model has the key");
                        if g.chance(1, 2) {
                            let kk = v.into_key();
                            ensure!((kk.k, kk.ver) == (k, ver), "entry", "into_key returned {}#{}", kk.k, kk.ver);
                            return Ok(());
                        }
                        model.insert(k, (ver, val));
                        v.insert_entry(V::new(val))
                    }
                },
            };
            *inserted += usize::from(had.is_none());
            let got = (occ.key().k, occ.key().ver, occ.get().get());
            let e = model[&k];
            ensure!(got == (k, e.0, e.1), "entry", "entry({k}) yields {got:?}, expected {e:?}");
            ensure!(m.try_entry(K::new(k, ver)).is_none(), "try_entry", "try_entry succeeded on a locked bucket");
            // Lock-free reads see the new entry at once.
            ensure!(m.peek_with(&k, |_, v| v.get()) == Some(e.1), "peek", "peek_with({k}) misses an inserted entry");
        }
        6 => {
            let got = m.peek_with(&Q(k), |kk, v| (kk.ver, v.get()));
            vtrace!("peek_with({k}) -> {got:?}");
            ensure!(got == model.get(&k).copied(), "peek", "peek_with({k}) = {got:?}");
            ensure!(m.contains(&k) == got.is_some(), "contains", "contains({k})");
        }
        7 => {
            let stop = g.chance(1, 3);
            let limit = if stop { g.usize(model.len() + 1) } else { usize::MAX };
            let mut seen = Model::new();
            let mut calls = 0;
            let f = |k: &K, v: &V| {
                calls += 1;
                seen.insert(k.k, (k.ver, v.get()));
                calls <= limit
            };
            let r = sa!(a, m.iter_sync(f), m.iter_async(f));
            vtrace!("iter_{t}(limit={limit}) -> {r}");
            if model.len() <= limit {
                ensure!(r && seen == *model && calls == model.len(), "iter", "full iteration differs: {}", diff(&seen, model));
            } else {
                ensure!(!r && calls == limit + 1, "iter", "iteration did not stop ({calls} calls, limit {limit}, returned {r})");
                ensure!(seen.iter().all(|(k, v)| model.get(k) == Some(v)), "iter", "iteration yielded a foreign entry");
            }
        }
        8 => {
            let md = g.range(1, 5) as u64;
            let rem = g.below(md);
            let mut seen = Vec::new();
            let f = |k: &K, v: &V| {
                seen.push((k.k, v.get()));
                u64::from(k.k) % md != rem
            };
            sa!(a, m.retain_sync(f), m.retain_async(f));
            vtrace!("retain_{t}(k%{md}!={rem})");
            seen.sort_unstable();
            ensure!(seen.iter().copied().eq(model.iter().map(|(k, v)| (*k, v.1))), "retain", "retain visited {} of {} entries or visited one twice", seen.len(), model.len());
            let n = model.len();
            model.retain(|k, _| u64::from(*k) % md != rem);
            *changed |= n != model.len();
        }
        9 => {
            vtrace!("clear_{t}()");
            sa!(a, m.clear_sync(), m.clear_async());
            *changed |= !model.is_empty();
            model.clear();
        }
        10 => {
            let md = g.range(1, 6) as u64;
            let rem = g.below(md);
            let f = |k: &K, _: &V| u64::from(k.k) % md == rem;
            let r = sa!(a, m.any_sync(f), m.any_async(f));
            vtrace!("any_{t}(k%{md}=={rem}) -> {}", r.is_some());
            let exp = model.keys().any(|k| u64::from(*k) % md == rem);
            ensure!(r.is_some() == exp, "any", "any() = {}, expected {exp}", r.is_some());
            if let Some(o) = r {
                let k = o.key().k;
                ensure!(u64::from(k) % md == rem && model.get(&k) == Some(&(o.key().ver, o.get().get())), "any", "any() returned a wrong entry");
                occupied(o, model, g, k, val, a, changed, inserted, guarded)?;
            }
        }
        11 => {
            let cnt = (g.range(1, 400) as u32).min(sh.keys);
            vtrace!("bulk insert_{t} {cnt} keys from {k}");
            for i in 0..cnt {
                let k = (k + i) % sh.keys;
                let r = sa!(a, m.insert_sync(K::new(k, ver), V::new(val)), m.insert_async(K::new(k, ver), V::new(val)));
                ensure!(r.is_ok() != model.contains_key(&k), "insert", "bulk insert({k}) = {}", r.is_ok());
                if r.is_ok() {
                    model.insert(k, (ver, val));
                    *inserted += 1;
                }
            }
        }
        12 => {
            let cnt = (g.range(1, 600) as u32).min(sh.keys);
            vtrace!("bulk remove_{t} {cnt} keys from {k}");
            for i in 0..cnt {
                let k = (k + i) % sh.keys;
                let r = sa!(a, m.remove_sync(&k), m.remove_async(&k));
                let exp = model.remove(&k).is_some();
                ensure!(r == exp, "remove", "bulk remove({k})");
                *changed |= exp;
            }
        }
        13 => {
            // Churn on one key: its bucket fills up with retired versions.
            let cnt = g.range(1, 80) as u32;
            let replace = g.chance(1, 2);
            vtrace!("churn({k}) x{cnt} replace={replace}");
            for i in 0..cnt {
                *inserted += 1;
                *changed = true;
                if replace && model.contains_key(&k) {
                    let Some(mut o) = m.get_sync(&k) else { fail!("get", "get({k}) misses the key") };
                    o.update(V::new(val + u64::from(i)));
                    model.get_mut(&k).unwrap().1 = val + u64::from(i);
                } else if model.remove(&k).is_some() {
                    ensure!(m.remove_sync(&k), "remove", "remove({k}) in a churn");
                } else {
                    ensure!(m.insert_sync(K::new(k, ver), V::new(val)).is_ok(), "insert", "insert({k}) in a churn");
                    model.insert(k, (ver, val));
                }
                ensure!(m.peek_with(&k, |kk, v| (kk.ver, v.get())) == model.get(&k).copied(), "peek", "peek_with({k}) in a churn");
            }
        }
        14 => {
            let add = g.range(1, 2000);
            vtrace!("reserve({add}), insert, drop");
            let r = m.reserve(add);
            let res = m.insert_sync(K::new(k, ver), V::new(val));
            ensure!(res.is_ok() != model.contains_key(&k), "insert", "insert({k}) under reserve");
            if res.is_ok() {
                model.insert(k, (ver, val));
            }
            check_index(m, model)?;
            drop(r);
        }
        15 => {
            let md = g.range(1, 5) as u64;
            let rem = g.below(md + 1);
            let mut cur = sa!(a, m.begin_sync(), m.begin_async());
            let mut seen = Vec::new();
            let initial = model.len();
            let cap = m.capacity();
            let mut resized = false;
            while let Some(mut o) = cur {
                let k = o.key().k;
                ensure!(model.get(&k) == Some(&(o.key().ver, o.get().get())), "next", "traversal yielded a wrong entry {k}");
                seen.push(k);
                resized |= m.capacity() != cap;
                ensure!(seen.len() <= initial || resized, "next", "traversal visits more entries than exist");
                ensure!(seen.len() <= initial * 40, "next", "traversal does not end");
                if u64::from(k) % md == rem {
                    model.remove(&k);
                    *changed = true;
                    cur = sa!(a, o.remove_and_sync(), o.remove_and_async());
                } else {
                    if !guarded && u64::from(k) % 7 == 3 {
                        unsafe { o.get_mut() }.set(val);
                        model.get_mut(&k).unwrap().1 = val;
                    }
                    cur = sa!(a, o.next_sync(), o.next_async());
                }
            }
            vtrace!("traverse_{t}(remove k%{md}=={rem}): {} visited", seen.len());
            let total = seen.len();
            seen.sort_unstable();
            seen.dedup();
            resized |= m.capacity() != cap;
            ensure!(total == seen.len() || resized, "next", "traversal visited an entry twice");
            ensure!(seen.len() == initial, "next", "traversal visited {} of {initial} entries", seen.len());
        }
        _ => check_index(m, model)?,
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn occupied(
    mut o: OccupiedEntry<'_, K, V, TestHasher>,
    model: &mut Model,
    g: &mut Gen,
    k: u32,
    val: u64,
    a: bool,
    changed: &mut bool,
    inserted: &mut usize,
    guarded: bool,
) -> Res {
    let e = model[&k];
    ensure!((o.key().ver, o.get().get()) == e, "occupied", "entry {k} = {}#{}, expected {e:?}", o.key().ver, o.get().get());
    let sub = g.usize(5);
    vtrace!("  occupied({k}) sub={sub}");
    match sub {
        0 | 1 => {
            let n = if sub == 1 { g.range(1, 3) } else { 1 };
            for i in 0..n as u64 {
                o.update(V::new(val + i));
                model.get_mut(&k).unwrap().1 = val + i;
                *changed = true;
                *inserted += 1;
                ensure!((o.key().ver, o.get().get()) == (e.0, val + i), "update", "entry after update = {}#{}", o.key().ver, o.get().get());
            }
        }
        2 => {
            if !guarded {
                unsafe { o.get_mut() }.set(val);
                model.get_mut(&k).unwrap().1 = val;
            }
        }
        3 => {
            o.remove_entry();
            model.remove(&k);
            *changed = true;
        }
        _ => {
            let n = if g.chance(1, 2) {
                model.remove(&k);
                *changed = true;
                sa!(a, o.remove_and_sync(), o.remove_and_async())
            } else {
                sa!(a, o.next_sync(), o.next_async())
            };
            if let Some(n) = n {
                ensure!(n.key().k != k, "occupied", "next() returned the same entry");
                ensure!(model.get(&n.key().k) == Some(&(n.key().ver, n.get().get())), "occupied", "next() moved to a wrong entry");
            }
        }
    }
    Ok(())
}
