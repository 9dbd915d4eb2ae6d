//! M01: `HashMap` / `HashSet` against a sequential model.
use crate::util::*;
use crate::sa;
use scc::hash_map::{Entry, ReplaceResult};
use scc::{HashMap, HashSet};
use std::collections::BTreeMap;
use vcore::types::*;
use vcore::{Ctx, Gen, Prop, Res, Suite, ensure, fail, vtrace};

pub type Map = HashMap<K, V, TestHasher>;
pub type Model = BTreeMap<u32, (u32, u64)>;

pub fn m01() -> Prop {
    Prop {
        id: "M01",
        rule: "A case draws a hash distribution, key domain, initial capacity and a sequence of HashMap/HashSet calls (sync and async variants, entry API, bulk fills and drains) and compares every result and the full contents with a BTreeMap model; non-trivial when the sequence performs at least one successful removal/replacement and one of: a table resize, a same-bucket overflow (>32 colliding keys) or an in-place entry operation. The suite *-types runs shorter histories on containers of unusual types (no destructor, zero-sized, over-aligned, heap-owning); non-trivial there: a resize and a removal or replacement.",
        suites: vec![
            Suite { name: "hashmap", quick: 1_500_000, thorough: 20_000_000, f: map_case },
            Suite { name: "hashset", quick: 500_000, thorough: 6_000_000, f: set_case }, crate::zoo::m01()],
    }
}

struct St {
    ver: u32,
}
impl St {
    fn next(&mut self) -> u32 {
        self.ver += 1;
        self.ver
    }
}

pub fn check_map(m: &Map, model: &Model) -> Res {
    ensure!(m.len() == model.len(), "len", "len() = {}, model has {}", m.len(), model.len());
    ensure!(m.is_empty() == model.is_empty(), "is_empty", "is_empty() = {} with {} entries", m.is_empty(), model.len());
    let mut seen = BTreeMap::new();
    let mut dup = None;
    let all = m.iter_sync(|k, v| {
        if seen.insert(k.k, (k.ver, v.get())).is_some() {
            dup = Some(k.k);
        }
        true
    });
    ensure!(all, "iter", "iter_sync returned false although the closure never did");
    ensure!(dup.is_none(), "iter", "iter_sync visited key {:?} twice", dup);
    ensure!(seen == *model, "contents", "contents differ from the model: {}", diff(&seen, model));
    Ok(())
}

pub fn diff(a: &Model, b: &Model) -> String {
    let mut s = Vec::new();
    for (k, x) in a {
        match b.get(k) {
            None => s.push(format!("unexpected {k}:{x:?}")),
            Some(y) if x != y => s.push(format!("{k}: got {x:?}, expected {y:?}")),
            _ => {}
        }
    }
    for (k, y) in b {
        if !a.contains_key(k) {
            s.push(format!("missing {k}:{y:?}"));
        }
    }
    s.truncate(6);
    s.join("; ")
}

fn map_case(g: &mut Gen, ctx: &mut Ctx) -> Res {
    vcore::track::reset();
    let sh = shape(g);
    vtrace!("HashMap dist={:?} keys=0..{} capacity={}", sh.dist, sh.keys, sh.cap);
    {
        let m: Map = HashMap::with_capacity_and_hasher(sh.cap, TestHasher(sh.dist));
        let mut model = Model::new();
        let mut st = St { ver: 0 };
        let mut changed = false;
        let mut special = false;
        let n = 1 + g.log_uniform(60) as usize;
        for _ in 0..n {
            let before_cap = m.capacity();
            map_step(&m, &mut model, g, &sh, &mut st, &mut changed, &mut special, ctx)?;
            ledger()?;
            if m.capacity() != before_cap {
                ctx.label("resized");
                special = true;
            }
            ensure!(m.len() == model.len(), "len", "len() = {}, model has {}", m.len(), model.len());
        }
        check_map(&m, &model)?;
        // Every key of the domain is looked up by every lookup method.
        for k in 0..sh.keys {
            let exp = model.get(&k).copied();
            let got = m.read_sync(&k, |k, v| (k.ver, v.get()));
            ensure!(got == exp, "read", "read_sync({k}) = {got:?}, expected {exp:?}");
            ensure!(m.contains_sync(&Q(k)) == exp.is_some(), "contains", "contains_sync({k}) disagrees with the model");
        }
        if sh.dist == Dist::Const && model.len() > 32 {
            special = true;
            ctx.label("overflow");
        }
        if changed && special {
            ctx.nontrivial = true;
        }
        ledger()?;
    }
    all_dropped()
}

#[allow(clippy::too_many_arguments)]
fn map_step(
    m: &Map,
    model: &mut Model,
    g: &mut Gen,
    sh: &Shape,
    st: &mut St,
    changed: &mut bool,
    special: &mut bool,
    ctx: &mut Ctx,
) -> Res {
    let a = g.chance(1, 3);
    let t = if a { "async" } else { "sync" };
    let k = g.below(u64::from(sh.keys)) as u32;
    let op = g.weighted(&[10, 6, 5, 4, 3, 8, 4, 6, 8, 3, 4, 3, 4, 3, 1, 3, 4, 6, 5, 1]);
    let ver = st.next();
    let val = u64::from(ver) * 10;
    match op {
        0 => {
            vtrace!("insert_{t}({k}#{ver}, {val})");
            let r = sa!(a, m.insert_sync(K::new(k, ver), V::new(val)), m.insert_async(K::new(k, ver), V::new(val)));
            match r {
                Ok(()) => {
                    ensure!(!model.contains_key(&k), "insert", "insert({k}) succeeded although the key exists");
                    model.insert(k, (ver, val));
                }
                Err((rk, rv)) => {
                    ensure!(model.contains_key(&k), "insert", "insert({k}) failed although the key does not exist");
                    ensure!((rk.k, rk.ver, rv.get()) == (k, ver, val), "insert", "insert({k}) returned a different pair");
                }
            }
        }
        1 => {
            vtrace!("upsert_{t}({k}#{ver}, {val})");
            let r = sa!(a, m.upsert_sync(K::new(k, ver), V::new(val)), m.upsert_async(K::new(k, ver), V::new(val)));
            let got = r.map(|v| v.get());
            let exp = model.get(&k).map(|x| x.1);
            ensure!(got == exp, "upsert", "upsert({k}) returned {got:?}, expected {exp:?}");
            *changed |= exp.is_some();
            let e = model.entry(k).or_insert((ver, val));
            e.1 = val;
        }
        2 => {
            vtrace!("update_{t}({k}, {val})");
            let f = |kk: &K, v: &mut V| {
                let o = (kk.ver, v.get());
                v.set(val);
                o
            };
            let got = sa!(a, m.update_sync(&k, f), m.update_async(&k, f));
            let exp = model.get(&k).copied();
            ensure!(got == exp, "update", "update({k}) saw {got:?}, expected {exp:?}");
            if let Some(e) = model.get_mut(&k) {
                e.1 = val;
            }
        }
        3 => {
            let f = |kk: &K, v: &V| (kk.ver, v.get());
            let got = sa!(a, m.read_sync(&Q(k), f), m.read_async(&Q(k), f));
            let exp = model.get(&k).copied();
            vtrace!("read_{t}({k}) -> {got:?}");
            ensure!(got == exp, "read", "read({k}) = {got:?}, expected {exp:?}");
        }
        4 => {
            let got = sa!(a, m.contains_sync(&k), m.contains_async(&k));
            vtrace!("contains_{t}({k}) -> {got}");
            ensure!(got == model.contains_key(&k), "contains", "contains({k}) = {got}");
        }
        5 => {
            let got = sa!(a, m.remove_sync(&k), m.remove_async(&k)).map(|(k, v)| (k.ver, v.get()));
            vtrace!("remove_{t}({k}) -> {got:?}");
            let exp = model.remove(&k);
            ensure!(got == exp, "remove", "remove({k}) = {got:?}, expected {exp:?}");
            *changed |= exp.is_some();
        }
        6 => {
            let yes = g.chance(1, 2);
            let mutate = g.chance(1, 2);
            let f = |v: &mut V| {
                if mutate {
                    v.set(val);
                }
                yes
            };
            let got = sa!(a, m.remove_if_sync(&Q(k), f), m.remove_if_async(&Q(k), f)).map(|(k, v)| (k.ver, v.get()));
            vtrace!("remove_if_{t}({k}, cond={yes}, mutate={mutate}) -> {got:?}");
            if let Some(e) = model.get_mut(&k) {
                if mutate {
                    e.1 = val;
                }
            }
            let exp = if yes { model.remove(&k) } else { None };
            ensure!(got == exp, "remove_if", "remove_if({k}) = {got:?}, expected {exp:?}");
            *changed |= exp.is_some();
        }
        7 => {
            let e = sa!(a, m.get_sync(&k), m.get_async(&k));
            ensure!(e.is_some() == model.contains_key(&k), "get", "get({k}).is_some() = {}", e.is_some());
            if let Some(e) = e {
                *special = true;
                occupied(m, e, model, g, k, val, a, changed)?;
            } else {
                vtrace!("get_{t}({k}) -> None");
            }
        }
        8 | 9 => {
            let e = if op == 8 {
                sa!(a, m.entry_sync(K::new(k, ver)), m.entry_async(K::new(k, ver)))
            } else {
                match m.try_entry(K::new(k, ver)) {
                    Some(e) => e,
                    None => fail!("try_entry", "try_entry({k}) returned None without contention"),
                }
            };
            *special = true;
            ensure!(e.key().k == k, "entry", "entry key {} for {k}", e.key().k);
            let sub = g.usize(7);
            vtrace!("entry_{t}({k}#{ver}) sub={sub}");
            let had = model.get(&k).copied();
            let occ = match sub {
                0 => {
                    model.entry(k).or_insert((ver, val));
                    e.or_insert(V::new(val))
                }
                1 => {
                    let mut called = false;
                    let o = e.or_insert_with(|| {
                        called = true;
                        V::new(val)
                    });
                    ensure!(called == had.is_none(), "entry", "or_insert_with called={called}");
                    model.entry(k).or_insert((ver, val));
                    o
                }
                2 => {
                    model.entry(k).or_insert((ver, u64::from(k) + 5));
                    e.or_insert_with_key(|kk| V::new(u64::from(kk.k) + 5))
                }
                3 => {
                    model.entry(k).and_modify(|x| x.1 = val).or_insert((ver, val + 1));
                    e.and_modify(|v| v.set(val)).or_insert(V::new(val + 1))
                }
                4 => {
                    model.entry(k).and_modify(|x| x.1 = val).or_insert((ver, val));
                    *changed |= had.is_some();
                    e.insert_entry(V::new(val))
                }
                5 => {
                    model.entry(k).or_insert((ver, DEFAULT_V));
                    e.or_default()
                }
                _ => match e {
                    Entry::Occupied(o) => {
                        ensure!(had.is_some(), "entry", "entry({k}) is occupied but the model lacks the key");
                        occupied(m, o, model, g, k, val, a, changed)?;
                        return Ok(());
                    }
                    Entry::Vacant(v) => {
                        ensure!(had.is_none(), "entry", "entry({k}) is vacant but the model has the key");
                        if g.chance(1, 2) {
                            let kk = v.into_key();
                            ensure!((kk.k, kk.ver) == (k, ver), "entry", "into_key returned {}#{}", kk.k, kk.ver);
                            return Ok(());
                        }
                        model.insert(k, (ver, val));
                        v.insert_entry(V::new(val))
                    }
                },
            };
            let got = (occ.key().k, occ.key().ver, occ.get().get());
            let e = model[&k];
            ensure!(got == (k, e.0, e.1), "entry", "entry({k}) yields {got:?}, expected {e:?}");
            // The bucket is exclusively owned by `occ`.
            ensure!(m.try_entry(K::new(k, ver)).is_none(), "try_entry", "try_entry succeeded on a locked bucket");
        }
        10 => {
            let r = sa!(a, m.replace_sync(K::new(k, ver)), m.replace_async(K::new(k, ver)));
            *special = true;
            match r {
                ReplaceResult::Replaced(o, prev) => {
                    vtrace!("replace_{t}({k}#{ver}) -> Replaced({}#{})", prev.k, prev.ver);
                    let Some(e) = model.get_mut(&k) else {
                        fail!("replace", "replace({k}) replaced a key that does not exist");
                    };
                    ensure!((prev.k, prev.ver) == (k, e.0), "replace", "replace({k}) returned {}#{}", prev.k, prev.ver);
                    e.0 = ver;
                    *changed = true;
                    ensure!((o.key().ver, o.get().get()) == *e, "replace", "replaced entry is wrong");
                }
                ReplaceResult::NotReplaced(v) => {
                    vtrace!("replace_{t}({k}#{ver}) -> NotReplaced");
                    ensure!(!model.contains_key(&k), "replace", "replace({k}) did not find the key");
                    ensure!(v.key().k == k, "replace", "vacant key");
                    if g.chance(1, 2) {
                        model.insert(k, (ver, val));
                        drop(v.insert_entry(V::new(val)));
                    }
                }
            }
        }
        11 => {
            let stop = g.chance(1, 3);
            let limit = if stop { g.usize(model.len() + 1) } else { usize::MAX };
            let mut seen = Model::new();
            let mut calls = 0;
            let f = |k: &K, v: &V| {
                calls += 1;
                seen.insert(k.k, (k.ver, v.get()));
                calls <= limit
            };
            let r = sa!(a, m.iter_sync(f), m.iter_async(f));
            vtrace!("iter_{t}(limit={limit}) -> {r}");
            if model.len() <= limit {
                ensure!(r && seen == *model && calls == model.len(), "iter", "full iteration differs: {}", diff(&seen, model));
            } else {
                ensure!(!r && calls == limit + 1, "iter", "iteration did not stop ({calls} calls, limit {limit}, returned {r})");
                ensure!(seen.iter().all(|(k, v)| model.get(k) == Some(v)), "iter", "iteration yielded a foreign entry");
            }
        }
        12 => {
            let md = g.range(1, 5) as u64;
            let rem = g.below(md);
            let bump = g.chance(1, 2);
            let mut seen = Vec::new();
            let mut taken = Vec::new();
            let f = |mut e: scc::hash_map::ConsumableEntry<'_, K, V>| {
                seen.push(e.0.k);
                if u64::from(e.0.k) % md == rem {
                    let (k, v) = e.consume();
                    taken.push((k.k, k.ver, v.get()));
                } else if bump {
                    let x = e.1.get();
                    e.1.set(x + 1);
                }
                true
            };
            let r = sa!(a, m.iter_mut_sync(f), m.iter_mut_async(f));
            vtrace!("iter_mut_{t}(consume k%{md}=={rem}, bump={bump}) consumed {}", taken.len());
            ensure!(r, "iter_mut", "iter_mut returned false");
            seen.sort_unstable();
            ensure!(seen.iter().copied().eq(model.keys().copied()), "iter_mut", "iter_mut visited {} of {} entries or visited one twice", seen.len(), model.len());
            for (k, ver, v) in taken {
                ensure!(model.remove(&k) == Some((ver, v)), "iter_mut", "consumed a wrong entry {k}#{ver}={v}");
                *changed = true;
            }
            if bump {
                for e in model.values_mut() {
                    e.1 += 1;
                }
            }
        }
        13 => {
            let md = g.range(1, 5) as u64;
            let rem = g.below(md);
            let mut seen = Vec::new();
            let f = |k: &K, v: &mut V| {
                seen.push(k.k);
                let x = v.get();
                v.set(x + 3);
                u64::from(k.k) % md != rem
            };
            sa!(a, m.retain_sync(f), m.retain_async(f));
            vtrace!("retain_{t}(k%{md}!={rem})");
            seen.sort_unstable();
            ensure!(seen.iter().copied().eq(model.keys().copied()), "retain", "retain visited {} of {} entries or visited one twice", seen.len(), model.len());
            let n = model.len();
            model.retain(|k, v| {
                v.1 += 3;
                u64::from(*k) % md != rem
            });
            *changed |= n != model.len();
        }
        14 => {
            vtrace!("clear_{t}()");
            sa!(a, m.clear_sync(), m.clear_async());
            *changed |= !model.is_empty();
            model.clear();
        }
        15 => {
            let md = g.range(1, 6) as u64;
            let rem = g.below(md);
            let f = |k: &K, _: &V| u64::from(k.k) % md == rem;
            let r = sa!(a, m.any_sync(f), m.any_async(f));
            vtrace!("any_{t}(k%{md}=={rem}) -> {}", r.is_some());
            let exp = model.keys().any(|k| u64::from(*k) % md == rem);
            ensure!(r.is_some() == exp, "any", "any() = {}, expected {exp}", r.is_some());
            if let Some(o) = r {
                let k = o.key().k;
                ensure!(u64::from(k) % md == rem && model.get(&k) == Some(&(o.key().ver, o.get().get())), "any", "any() returned a wrong entry");
                occupied(m, o, model, g, k, val, a, changed)?;
            }
        }
        16 => {
            // Traverse with `begin` / `next` / `remove_and`.
            *special = true;
            let md = g.range(1, 5) as u64;
            let rem = g.below(md + 1);
            let mut cur = sa!(a, m.begin_sync(), m.begin_async());
            let mut seen = Vec::new();
            let mut gone = 0;
            let initial = model.len();
            // Entries may be visited again if the table is resized in the middle.
            let cap = m.capacity();
            let mut resized = false;
            while let Some(o) = cur {
                let k = o.key().k;
                ensure!(model.get(&k) == Some(&(o.key().ver, o.get().get())), "next", "traversal yielded a wrong entry {k}");
                seen.push(k);
                resized |= m.capacity() != cap;
                ensure!(seen.len() <= initial || resized, "next", "traversal visits more entries than exist");
                ensure!(seen.len() <= initial * 40, "next", "traversal does not end");
                if u64::from(k) % md == rem {
                    let (kv, n) = sa!(a, o.remove_and_sync(), o.remove_and_async());
                    ensure!(kv.0.k == k, "next", "remove_and returned key {}", kv.0.k);
                    model.remove(&k);
                    *changed = true;
                    gone += 1;
                    cur = n;
                } else {
                    cur = sa!(a, o.next_sync(), o.next_async());
                }
            }
            vtrace!("traverse_{t}(remove k%{md}=={rem}): {} visited, {gone} removed", seen.len());
            let total = seen.len();
            seen.sort_unstable();
            seen.dedup();
            resized |= m.capacity() != cap;
            ensure!(total == seen.len() || resized, "next", "traversal visited an entry twice");
            ensure!(seen.len() == initial, "next", "traversal visited {} of {initial} entries", seen.len());
            if resized {
                ctx.label("resized_during_traversal");
            }
        }
        17 => {
            let cnt = g.range(1, 400) as u32;
            let start = k;
            vtrace!("bulk insert_{t} {cnt} keys from {start}");
            for i in 0..cnt {
                let k = (start + i) % sh.keys;
                let r = sa!(a, m.insert_sync(K::new(k, ver), V::new(val)), m.insert_async(K::new(k, ver), V::new(val)));
                ensure!(r.is_ok() != model.contains_key(&k), "insert", "bulk insert({k}) = {}", r.is_ok());
                if r.is_ok() {
                    model.insert(k, (ver, val));
                }
                if i >= sh.keys {
                    break;
                }
            }
            ctx.label("bulk_insert");
        }
        18 => {
            let cnt = g.range(1, 600) as u32;
            vtrace!("bulk remove_{t} {cnt} keys from {k}");
            for i in 0..cnt.min(sh.keys) {
                let k = (k + i) % sh.keys;
                let r = sa!(a, m.remove_sync(&k), m.remove_async(&k));
                let exp = model.remove(&k);
                ensure!(r.as_ref().map(|x| (x.0.ver, x.1.get())) == exp, "remove", "bulk remove({k})");
                *changed |= exp.is_some();
            }
            ctx.label("bulk_remove");
        }
        _ => {
            let add = g.range(1, 2000);
            vtrace!("reserve({add}), insert, drop");
            let r = m.reserve(add);
            let res = m.insert_sync(K::new(k, ver), V::new(val));
            ensure!(res.is_ok() != model.contains_key(&k), "insert", "insert({k}) under reserve");
            if res.is_ok() {
                model.insert(k, (ver, val));
            }
            check_map(m, model)?;
            drop(r);
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn occupied(
    m: &Map,
    mut o: scc::hash_map::OccupiedEntry<'_, K, V, TestHasher>,
    model: &mut Model,
    g: &mut Gen,
    k: u32,
    val: u64,
    a: bool,
    changed: &mut bool,
) -> Res {
    let e = model[&k];
    ensure!((o.key().ver, o.get().get()) == e, "occupied", "entry {k} = {}#{}, expected {e:?}", o.key().ver, o.get().get());
    let sub = g.usize(6);
    vtrace!("  occupied({k}) sub={sub}");
    match sub {
        0 => {
            o.get_mut().set(val);
            model.get_mut(&k).unwrap().1 = val;
        }
        1 => {
            let old = o.insert(V::new(val));
            ensure!(old.get() == e.1, "occupied", "insert returned {}", old.get());
            model.get_mut(&k).unwrap().1 = val;
            ensure!(o.get().get() == val, "occupied", "value after insert");
        }
        2 => {
            let old = o.remove();
            ensure!(old.get() == e.1, "occupied", "remove returned {}", old.get());
            model.remove(&k);
            *changed = true;
        }
        3 => {
            let (kk, v) = o.remove_entry();
            ensure!((kk.k, kk.ver, v.get()) == (k, e.0, e.1), "occupied", "remove_entry returned a wrong pair");
            model.remove(&k);
            *changed = true;
        }
        4 => {
            let len = model.len();
            let ((kk, v), n) = sa!(a, o.remove_and_sync(), o.remove_and_async());
            ensure!((kk.k, kk.ver, v.get()) == (k, e.0, e.1), "occupied", "remove_and returned a wrong pair");
            model.remove(&k);
            *changed = true;
            if let Some(n) = n {
                ensure!(model.get(&n.key().k) == Some(&(n.key().ver, n.get().get())), "occupied", "remove_and moved to a wrong entry");
                ensure!(len > 1, "occupied", "there is no next entry");
            }
        }
        _ => {
            let n = sa!(a, o.next_sync(), o.next_async());
            if let Some(n) = n {
                ensure!(n.key().k != k, "occupied", "next() returned the same entry");
                ensure!(model.get(&n.key().k) == Some(&(n.key().ver, n.get().get())), "occupied", "next() moved to a wrong entry");
            }
        }
    }
    let _ = m;
    Ok(())
}

fn set_case(g: &mut Gen, ctx: &mut Ctx) -> Res {
    vcore::track::reset();
    let sh = shape(g);
    vtrace!("HashSet dist={:?} keys=0..{} capacity={}", sh.dist, sh.keys, sh.cap);
    {
        let m: HashSet<K, TestHasher> = HashSet::with_capacity_and_hasher(sh.cap, TestHasher(sh.dist));
        let mut model: BTreeMap<u32, u32> = BTreeMap::new();
        let mut ver = 0;
        let mut changed = false;
        let n = 1 + g.log_uniform(50) as usize;
        for _ in 0..n {
            ver += 1;
            let a = g.chance(1, 3);
            let t = if a { "async" } else { "sync" };
            let k = g.below(u64::from(sh.keys)) as u32;
            let cap = m.capacity();
            match g.weighted(&[10, 6, 6, 4, 4, 3, 3, 4, 3, 1, 5, 4]) {
                0 => {
                    vtrace!("insert_{t}({k}#{ver})");
                    let r = sa!(a, m.insert_sync(K::new(k, ver)), m.insert_async(K::new(k, ver)));
                    match r {
                        Ok(()) => ensure!(model.insert(k, ver).is_none(), "insert", "duplicate insert({k})"),
                        Err(kk) => {
                            ensure!(model.contains_key(&k), "insert", "insert({k}) failed");
                            ensure!((kk.k, kk.ver) == (k, ver), "insert", "insert({k}) returned another key");
                        }
                    }
                }
                1 => {
                    let r = sa!(a, m.replace_sync(K::new(k, ver)), m.replace_async(K::new(k, ver))).map(|k| k.ver);
                    vtrace!("replace_{t}({k}#{ver}) -> {r:?}");
                    let exp = model.insert(k, ver);
                    ensure!(r == exp, "replace", "replace({k}) = {r:?}, expected {exp:?}");
                    changed |= exp.is_some();
                }
                2 => {
                    let r = sa!(a, m.remove_sync(&Q(k)), m.remove_async(&Q(k))).map(|k| k.ver);
                    vtrace!("remove_{t}({k}) -> {r:?}");
                    let exp = model.remove(&k);
                    ensure!(r == exp, "remove", "remove({k}) = {r:?}, expected {exp:?}");
                    changed |= exp.is_some();
                }
                3 => {
                    let c = g.chance(1, 2);
                    let r = sa!(a, m.remove_if_sync(&k, || c), m.remove_if_async(&k, || c)).map(|k| k.ver);
                    vtrace!("remove_if_{t}({k}, {c}) -> {r:?}");
                    let exp = if c { model.remove(&k) } else { None };
                    ensure!(r == exp, "remove_if", "remove_if({k}) = {r:?}, expected {exp:?}");
                    changed |= exp.is_some();
                }
                4 => {
                    let r = sa!(a, m.read_sync(&k, |k| k.ver), m.read_async(&k, |k| k.ver));
                    vtrace!("read_{t}({k}) -> {r:?}");
                    ensure!(r == model.get(&k).copied(), "read", "read({k}) = {r:?}");
                }
                5 => {
                    let r = sa!(a, m.contains_sync(&k), m.contains_async(&k));
                    vtrace!("contains_{t}({k}) -> {r:?}");
                    ensure!(r == model.contains_key(&k), "contains", "contains({k}) = {r:?}");
                }
                6 => {
                    let mut seen = BTreeMap::new();
                    let mut calls = 0;
                    let f = |k: &K| {
                        calls += 1;
                        seen.insert(k.k, k.ver);
                        true
                    };
                    let r = sa!(a, m.iter_sync(f), m.iter_async(f));
                    vtrace!("iter_{t}");
                    ensure!(r && seen == model && calls == model.len(), "iter", "iteration differs from the model");
                }
                7 => {
                    let md = g.range(1, 5) as u32;
                    let mut seen = Vec::new();
                    let mut taken = Vec::new();
                    let f = |e: scc::hash_set::ConsumableEntry<'_, K>| {
                        seen.push(e.k);
                        if e.k % md == 0 {
                            let k = e.consume();
                            taken.push((k.k, k.ver));
                        }
                        true
                    };
                    let r = sa!(a, m.iter_mut_sync(f), m.iter_mut_async(f));
                    vtrace!("iter_mut_{t}(consume k%{md}==0)");
                    seen.sort_unstable();
                    ensure!(r && seen.iter().copied().eq(model.keys().copied()), "iter_mut", "iter_mut visits differ");
                    for (k, v) in taken {
                        ensure!(model.remove(&k) == Some(v), "iter_mut", "consumed a wrong key {k}");
                        changed = true;
                    }
                }
                8 => {
                    let md = g.range(1, 5) as u32;
                    let mut seen = Vec::new();
                    let f = |k: &K| {
                        seen.push(k.k);
                        k.k % md != 0
                    };
                    sa!(a, m.retain_sync(f), m.retain_async(f));
                    vtrace!("retain_{t}(k%{md}!=0)");
                    seen.sort_unstable();
                    ensure!(seen.iter().copied().eq(model.keys().copied()), "retain", "retain visits differ");
                    model.retain(|k, _| k % md != 0);
                    changed = true;
                }
                9 => {
                    vtrace!("clear_{t}");
                    sa!(a, m.clear_sync(), m.clear_async());
                    model.clear();
                }
                10 => {
                    let cnt = (g.range(1, 400) as u32).min(sh.keys);
                    vtrace!("bulk insert {cnt} from {k}");
                    for i in 0..cnt {
                        let k = (k + i) % sh.keys;
                        let r = m.insert_sync(K::new(k, ver));
                        ensure!(r.is_ok() != model.contains_key(&k), "insert", "bulk insert({k})");
                        if r.is_ok() {
                            model.insert(k, ver);
                        }
                    }
                }
                _ => {
                    let cnt = (g.range(1, 400) as u32).min(sh.keys);
                    vtrace!("bulk remove {cnt} from {k}");
                    for i in 0..cnt {
                        let k = (k + i) % sh.keys;
                        let r = m.remove_sync(&k).map(|k| k.ver);
                        let exp = model.remove(&k);
                        ensure!(r == exp, "remove", "bulk remove({k})");
                        changed |= exp.is_some();
                    }
                }
            }
            ledger()?;
            if m.capacity() != cap {
                ctx.label("resized");
                ctx.nontrivial |= changed;
            }
            ensure!(m.len() == model.len() && m.is_empty() == model.is_empty(), "len", "len() = {}, model has {}", m.len(), model.len());
        }
        if sh.dist == Dist::Const && model.len() > 32 {
            ctx.nontrivial |= changed;
        }
        for k in 0..sh.keys {
            ensure!(m.read_sync(&Q(k), |k| k.ver) == model.get(&k).copied(), "read", "final read({k})");
        }
        ledger()?;
    }
    all_dropped()
}
