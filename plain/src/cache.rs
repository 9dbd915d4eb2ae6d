//! C01 / C02: `HashCache` against a map with reported evictions, its capacity bound and LRU order.
use crate::map::{Map, Model, diff};
use crate::sa;
use crate::util::*;
use scc::hash_cache::{Entry, OccupiedEntry, ReplaceResult};
use scc::{HashCache, HashMap};
use std::collections::BTreeMap;
use vcore::types::*;
use vcore::{Ctx, Gen, Prop, Res, Suite, ensure, fail, vtrace};

pub type Cache = HashCache<K, V, TestHasher>;

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "A case draws a hash distribution, key domain, minimum and maximum capacity and a sequence of HashCache calls (sync and async variants, entry API, bulk fills and drains) and compares every result and the full contents with a BTreeMap model from which only removed and handed-back entries disappear. Non-trivial: at least one eviction was handed back, or an entry was removed after the table was resized. The suite *-types runs shorter histories on containers of unusual types (no destructor, zero-sized, over-aligned, heap-owning); non-trivial there: a resize and a removal or replacement.",
        suites: vec![Suite { name: "hashcache", quick: 1_500_000, thorough: 20_000_000, f: |g, c| case(g, c, false) }, crate::zoo::c01()],
    }
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "As for C01 with the capacity bound checked after every call. Half of the cases fix the capacity (minimum = maximum) and predict every victim with a per-bucket recency list (the bucket of a key is taken from HashMap::bucket_index of an equally sized table); the other half let the table resize and check that an eviction only happens when the bucket of the key is full. Non-trivial: at least one eviction whose victim had been reordered by get or whose bucket had seen a removal, or any eviction in the resizing half.",
        suites: vec![
            Suite { name: "lru", quick: 800_000, thorough: 12_000_000, f: |g, c| case(g, c, true) },
            Suite { name: "bound", quick: 400_000, thorough: 6_000_000, f: bound_case },
        ],
    }
}

pub fn check_cache(m: &Cache, model: &Model) -> Res {
    ensure!(m.len() == model.len(), "len", "len() = {}, model has {}", m.len(), model.len());
    ensure!(m.is_empty() == model.is_empty(), "is_empty", "is_empty() = {} with {} entries", m.is_empty(), model.len());
    let mut seen = Model::new();
    let mut calls = 0;
    let all = m.iter_sync(|k, v| {
        calls += 1;
        seen.insert(k.k, (k.ver, v.get()));
        true
    });
    ensure!(all && calls == model.len() && seen == *model, "contents", "contents differ from the model ({calls} visits): {}", diff(&seen, model));
    Ok(())
}

struct St<'a> {
    m: &'a Cache,
    model: Model,
    ver: u32,
    /// Recency of each entry (only if the capacity is fixed).
    rec: BTreeMap<u32, u64>,
    clock: u64,
    /// Predicts buckets at the fixed capacity.
    twin: Option<&'a Map>,
    touched: bool,
    evictions: u64,
    interesting: u64,
    resized: bool,
    removed_after_resize: bool,
}

impl St<'_> {
    fn touch(&mut self, k: u32) {
        self.clock += 1;
        self.rec.insert(k, self.clock);
    }
    fn bucket(&self, k: u32) -> Option<usize> {
        self.twin.map(|t| t.bucket_index(&k))
    }
    /// Accounts for a put-like call that inserted `k`.
    fn put(&mut self, k: u32, e: (u32, u64), evicted: Option<(K, V)>, what: &str) -> Res {
        if let Some((ek, ev)) = &evicted {
            ensure!(ek.k != k, "evict", "{what}({k}) evicted the very key");
            let got = (ek.ver, ev.get());
            ensure!(self.model.get(&ek.k) == Some(&got), "evict", "{what}({k}) handed back {}#{}={}, the cache held {:?}", ek.k, got.0, got.1, self.model.get(&ek.k));
            self.evictions += 1;
        }
        if let Some(b) = self.bucket(k) {
            let mut same: Vec<u32> = Vec::new();
            for x in self.model.keys() {
                if self.bucket(*x) == Some(b) {
                    same.push(*x);
                }
            }
            let victim = if same.len() >= 32 { same.iter().min_by_key(|x| self.rec[x]).copied() } else { None };
            ensure!(
                evicted.as_ref().map(|e| e.0.k) == victim,
                "lru",
                "{what}({k}) evicted {:?}, expected {victim:?}; the bucket holds {} entries, least recent first {:?}",
                evicted.as_ref().map(|e| e.0.k),
                same.len(),
                {
                    same.sort_by_key(|x| self.rec[x]);
                    same
                }
            );
            if victim.is_some() && self.touched {
                self.interesting += 1;
            }
        }
        if let Some((ek, _)) = &evicted {
            self.model.remove(&ek.k);
            self.rec.remove(&ek.k);
        }
        ensure!(self.model.insert(k, e).is_none(), "put", "{what}({k}) inserted a key that was present");
        self.touch(k);
        Ok(())
    }
    fn gone(&mut self, k: u32) {
        self.rec.remove(&k);
        self.touched = true;
        self.removed_after_resize |= self.resized;
    }
}

fn case(g: &mut Gen, ctx: &mut Ctx, fixed: bool) -> Res {
    vcore::track::reset();
    let mut sh = shape(g);
    let (min, max) = if fixed {
        let c = *g.pick(&[64_usize, 128, 256]);
        // Enough keys to fill buckets.
        if sh.keys < 60 && g.chance(3, 4) {
            sh.keys = 80;
        }
        (c, c)
    } else {
        let max = match g.usize(4) {
            0 => 1,
            1 => g.range(1, 128),
            2 => g.range(64, 600),
            _ => 4096,
        };
        (sh.cap, max)
    };
    vtrace!("HashCache dist={:?} keys=0..{} capacity={min}..={max}", sh.dist, sh.keys);
    {
        let m: Cache = HashCache::with_capacity_and_hasher(min, max, TestHasher(sh.dist));
        let twin = if fixed { Some(Map::with_capacity_and_hasher(min, TestHasher(sh.dist))) } else { None };
        let mut st = St {
            m: &m,
            model: Model::new(),
            ver: 0,
            rec: BTreeMap::new(),
            clock: 0,
            twin: twin.as_ref(),
            touched: false,
            evictions: 0,
            interesting: 0,
            resized: false,
            removed_after_resize: false,
        };
        if fixed {
            ensure!(m.capacity() == min, "capacity", "capacity() = {} with {min}..={min}", m.capacity());
            if g.chance(2, 3) {
                // Fill a bucket first.
                let start = g.below(u64::from(sh.keys)) as u32;
                let n = g.range(20, 80) as u32;
                vtrace!("bulk put {n} from {start}");
                for i in 0..n {
                    put(&mut st, (start + i) % sh.keys, false)?;
                }
            }
        }
        let n = 1 + g.log_uniform(60) as usize;
        let top = *m.capacity_range().end();
        for _ in 0..n {
            let cap = m.capacity();
            step(&mut st, g, &sh)?;
            ledger()?;
            st.resized |= m.capacity() != cap;
            ensure!(m.len() == st.model.len(), "len", "len() = {}, model has {}", m.len(), st.model.len());
            let r = m.capacity_range();
            ensure!(r.contains(&m.capacity()) || (m.capacity() == 0 && *r.start() == 0), "capacity", "capacity() = {} outside of {r:?}", m.capacity());
            ensure!(*r.end() == top, "capacity", "the maximum capacity changed from {top} to {}", r.end());
            ensure!(m.len() <= top, "bound", "len() = {} exceeds the maximum capacity {top}", m.len());
            if fixed {
                ensure!(m.capacity() == min, "capacity", "capacity() = {} with {min}..={min}", m.capacity());
            }
        }
        check_cache(&m, &st.model)?;
        for k in 0..sh.keys {
            let exp = st.model.get(&k).copied();
            let got = m.read_sync(&k, |k, v| (k.ver, v.get()));
            ensure!(got == exp, "read", "read_sync({k}) = {got:?}, expected {exp:?}");
            ensure!(m.contains_sync(&Q(k)) == exp.is_some(), "contains", "contains_sync({k}) disagrees with the model");
        }
        if st.evictions > 0 {
            ctx.label("evicted");
        }
        if st.resized {
            ctx.label("resized");
        }
        ctx.nontrivial = if fixed { st.interesting > 0 } else { st.evictions > 0 || st.removed_after_resize };
        ledger()?;
    }
    all_dropped()
}

fn put(st: &mut St, k: u32, a: bool) -> Res {
    st.ver += 1;
    let ver = st.ver;
    let val = u64::from(ver) * 10;
    let m = st.m;
    match sa!(a, m.put_sync(K::new(k, ver), V::new(val)), m.put_async(K::new(k, ver), V::new(val))) {
        Ok(ev) => st.put(k, (ver, val), ev, "put"),
        Err((rk, rv)) => {
            ensure!(st.model.contains_key(&k), "put", "put({k}) failed although the key does not exist");
            ensure!((rk.k, rk.ver, rv.get()) == (k, ver, val), "put", "put({k}) returned a different pair");
            Ok(())
        }
    }
}

fn step(st: &mut St, g: &mut Gen, sh: &Shape) -> Res {
    let m = st.m;
    let a = g.chance(1, 3);
    let t = if a { "async" } else { "sync" };
    let mut k = g.below(u64::from(sh.keys)) as u32;
    let op = g.weighted(&[10, 8, 7, 4, 2, 1, 7, 3, 4, 3, 3, 3, 1, 5, 4]);
    if (1..=3).contains(&op) && !st.model.is_empty() && g.chance(2, 3) {
        k = *st.model.keys().nth(g.usize(st.model.len())).unwrap();
    }
    st.ver += 1;
    let ver = st.ver;
    let val = u64::from(ver) * 10;
    match op {
        0 => {
            vtrace!("put_{t}({k})");
            put(st, k, a)?;
        }
        1 => {
            let e = sa!(a, m.get_sync(&k), m.get_async(&k));
            vtrace!("get_{t}({k}) -> {}", e.is_some());
            ensure!(e.is_some() == st.model.contains_key(&k), "get", "get({k}).is_some() = {}", e.is_some());
            if let Some(o) = e {
                st.touch(k);
                st.touched = true;
                if g.chance(1, 2) {
                    occupied(st, o, g, k, val)?;
                }
            }
        }
        2 => {
            let got = sa!(a, m.remove_sync(&k), m.remove_async(&k)).map(|(k, v)| (k.ver, v.get()));
            vtrace!("remove_{t}({k}) -> {got:?}");
            let exp = st.model.remove(&k);
            ensure!(got == exp, "remove", "remove({k}) = {got:?}, expected {exp:?}");
            if exp.is_some() {
                st.gone(k);
            }
        }
        3 => {
            let yes = g.chance(1, 2);
            let f = |v: &mut V| {
                v.set(val);
                yes
            };
            let got = sa!(a, m.remove_if_sync(&Q(k), f), m.remove_if_async(&Q(k), f)).map(|(k, v)| (k.ver, v.get()));
            vtrace!("remove_if_{t}({k}, cond={yes}) -> {got:?}");
            if let Some(e) = st.model.get_mut(&k) {
                e.1 = val;
            }
            let exp = if yes { st.model.remove(&k) } else { None };
            ensure!(got == exp, "remove_if", "remove_if({k}) = {got:?}, expected {exp:?}");
            if exp.is_some() {
                st.gone(k);
            }
        }
        4 => {
            let f = |kk: &K, v: &V| (kk.ver, v.get());
            let got = sa!(a, m.read_sync(&Q(k), f), m.read_async(&Q(k), f));
            vtrace!("read_{t}({k}) -> {got:?}");
            ensure!(got == st.model.get(&k).copied(), "read", "read({k}) = {got:?}, expected {:?}", st.model.get(&k));
        }
        5 => {
            let got = sa!(a, m.contains_sync(&k), m.contains_async(&k));
            ensure!(got == st.model.contains_key(&k), "contains", "contains({k}) = {got}");
        }
        6 | 7 => {
            let e = if op == 6 {
                sa!(a, m.entry_sync(K::new(k, ver)), m.entry_async(K::new(k, ver)))
            } else {
                match m.try_entry(K::new(k, ver)) {
                    Some(e) => e,
                    None => fail!("try_entry", "try_entry({k}) returned None without contention"),
                }
            };
            ensure!(e.key().k == k, "entry", "entry key {} for {k}", e.key().k);
            let sub = g.usize(6);
            vtrace!("entry_{t}({k}#{ver}) sub={sub}");
            let had = st.model.get(&k).copied();
            let mut exp = had.unwrap_or((ver, val));
            let (ev, o) = match sub {
                0 => e.or_put(V::new(val)),
                1 => {
                    let mut called = false;
                    let r = e.or_put_with(|| {
                        called = true;
                        V::new(val)
                    });
                    ensure!(called == had.is_none(), "entry", "or_put_with called={called}");
                    r
                }
                2 => {
                    if had.is_none() {
                        exp.1 = u64::from(k) + 5;
                    }
                    e.or_put_with_key(|kk| V::new(u64::from(kk.k) + 5))
                }
                3 => {
                    exp.1 = if had.is_some() { val } else { val + 1 };
                    e.and_modify(|v| v.set(val)).or_put(V::new(val + 1))
                }
                4 => {
                    exp.1 = val;
                    e.put_entry(V::new(val))
                }
                _ => match e {
                    Entry::Occupied(o) => {
                        ensure!(had.is_some(), "entry", "entry({k}) is occupied but the model lacks the key");
                        return occupied(st, o, g, k, val);
                    }
                    Entry::Vacant(v) => {
                        ensure!(had.is_none(), "entry", "entry({k}) is vacant but the model has the key");
                        if g.chance(1, 2) {
                            let kk = v.into_key();
                            ensure!((kk.k, kk.ver) == (k, ver), "entry", "into_key returned {}#{}", kk.k, kk.ver);
                            return Ok(());
                        }
                        if g.chance(1, 2) {
                            exp.1 = DEFAULT_V;
                            Entry::Vacant(v).or_default()
                        } else {
                            v.put_entry(V::new(val))
                        }
                    }
                },
            };
            let got = (o.key().k, o.key().ver, o.get().get());
            ensure!(got == (k, exp.0, exp.1), "entry", "entry({k}) yields {got:?}, expected {exp:?}");
            ensure!(m.try_entry(K::new(k, ver)).is_none(), "try_entry", "try_entry succeeded on a locked bucket");
            drop(o);
            if had.is_some() {
                ensure!(ev.is_none(), "entry", "an entry call on a present key evicted something");
                st.model.insert(k, exp);
            } else {
                st.put(k, exp, ev, "entry put")?;
            }
        }
        8 => {
            let r = sa!(a, m.replace_sync(K::new(k, ver)), m.replace_async(K::new(k, ver)));
            match r {
                ReplaceResult::Replaced(o, prev) => {
                    vtrace!("replace_{t}({k}#{ver}) -> Replaced");
                    let Some(e) = st.model.get_mut(&k) else {
                        fail!("replace", "replace({k}) replaced a key that does not exist");
                    };
                    ensure!((prev.k, prev.ver) == (k, e.0), "replace", "replace({k}) returned {}#{}", prev.k, prev.ver);
                    e.0 = ver;
                    ensure!((o.key().ver, o.get().get()) == *e, "replace", "replaced entry is wrong");
                }
                ReplaceResult::NotReplaced(v) => {
                    vtrace!("replace_{t}({k}#{ver}) -> NotReplaced");
                    ensure!(!st.model.contains_key(&k), "replace", "replace({k}) did not find the key");
                    if g.chance(1, 2) {
                        let (ev, o) = v.put_entry(V::new(val));
                        drop(o);
                        st.put(k, (ver, val), ev, "replace put")?;
                    }
                }
            }
        }
        9 => {
            let limit = if g.chance(1, 3) { g.usize(st.model.len() + 1) } else { usize::MAX };
            let mut seen = Model::new();
            let mut calls = 0;
            let f = |k: &K, v: &V| {
                calls += 1;
                seen.insert(k.k, (k.ver, v.get()));
                calls <= limit
            };
            let r = sa!(a, m.iter_sync(f), m.iter_async(f));
            vtrace!("iter_{t}(limit={limit}) -> {r}");
            if st.model.len() <= limit {
                ensure!(r && seen == st.model && calls == st.model.len(), "iter", "full iteration differs: {}", diff(&seen, &st.model));
            } else {
                ensure!(!r && calls == limit + 1, "iter", "iteration did not stop ({calls} calls, limit {limit})");
                ensure!(seen.iter().all(|(k, v)| st.model.get(k) == Some(v)), "iter", "iteration yielded a foreign entry");
            }
        }
        10 => {
            let md = g.range(1, 5) as u64;
            let rem = g.below(md);
            let mut seen = Vec::new();
            let mut taken = Vec::new();
            let f = |mut e: scc::hash_cache::ConsumableEntry<'_, K, V>| {
                seen.push(e.0.k);
                if u64::from(e.0.k) % md == rem {
                    let (k, v) = e.consume();
                    taken.push((k.k, k.ver, v.get()));
                } else {
                    let x = e.1.get();
                    e.1.set(x + 1);
                }
                true
            };
            let r = sa!(a, m.iter_mut_sync(f), m.iter_mut_async(f));
            vtrace!("iter_mut_{t}(consume k%{md}=={rem}) consumed {}", taken.len());
            ensure!(r, "iter_mut", "iter_mut returned false");
            seen.sort_unstable();
            ensure!(seen.iter().copied().eq(st.model.keys().copied()), "iter_mut", "iter_mut visited {} of {} entries or visited one twice", seen.len(), st.model.len());
            for (k, ver, v) in taken {
                ensure!(st.model.remove(&k) == Some((ver, v)), "iter_mut", "consumed a wrong entry {k}#{ver}={v}");
                st.gone(k);
            }
            for e in st.model.values_mut() {
                e.1 += 1;
            }
        }
        11 => {
            let md = g.range(1, 5) as u64;
            let rem = g.below(md);
            let mut seen = Vec::new();
            let f = |k: &K, v: &mut V| {
                seen.push(k.k);
                let x = v.get();
                v.set(x + 3);
                u64::from(k.k) % md != rem
            };
            sa!(a, m.retain_sync(f), m.retain_async(f));
            vtrace!("retain_{t}(k%{md}!={rem})");
            seen.sort_unstable();
            ensure!(seen.iter().copied().eq(st.model.keys().copied()), "retain", "retain visited {} of {} entries or visited one twice", seen.len(), st.model.len());
            for k in seen {
                if u64::from(k) % md == rem {
                    st.model.remove(&k);
                    st.gone(k);
                } else {
                    st.model.get_mut(&k).unwrap().1 += 3;
                }
            }
        }
        12 => {
            vtrace!("clear_{t}()");
            sa!(a, m.clear_sync(), m.clear_async());
            let keys: Vec<u32> = st.model.keys().copied().collect();
            st.model.clear();
            for k in keys {
                st.gone(k);
            }
        }
        13 => {
            let cnt = g.range(1, 200) as u32;
            let stride = *g.pick(&[1_u32, 2, 5]);
            vtrace!("bulk put_{t} {cnt} from {k} stride {stride}");
            for i in 0..cnt.min(2 * sh.keys) {
                put(st, (k + i * stride) % sh.keys, a)?;
            }
        }
        _ => {
            let cnt = g.range(1, 200) as u32;
            vtrace!("bulk remove_{t} {cnt} from {k}");
            for i in 0..cnt.min(sh.keys) {
                let k = (k + i) % sh.keys;
                let r = sa!(a, m.remove_sync(&k), m.remove_async(&k));
                let exp = st.model.remove(&k);
                ensure!(r.as_ref().map(|x| (x.0.ver, x.1.get())) == exp, "remove", "bulk remove({k})");
                if exp.is_some() {
                    st.gone(k);
                }
            }
        }
    }
    Ok(())
}

fn occupied(st: &mut St, mut o: OccupiedEntry<'_, K, V, TestHasher>, g: &mut Gen, k: u32, val: u64) -> Res {
    let e = st.model[&k];
    ensure!((o.key().k, o.key().ver, o.get().get()) == (k, e.0, e.1), "occupied", "entry {k} = {}#{}, expected {e:?}", o.key().ver, o.get().get());
    let sub = g.usize(4);
    vtrace!("  occupied({k}) sub={sub}");
    match sub {
        0 => {
            o.get_mut().set(val);
            st.model.get_mut(&k).unwrap().1 = val;
        }
        1 => {
            let old = o.put(V::new(val));
            ensure!(old.get() == e.1, "occupied", "put returned {}", old.get());
            ensure!(o.get().get() == val, "occupied", "value after put");
            st.model.get_mut(&k).unwrap().1 = val;
        }
        2 => {
            let old = o.remove();
            ensure!(old.get() == e.1, "occupied", "remove returned {}", old.get());
            st.model.remove(&k);
            st.gone(k);
        }
        _ => {
            let (kk, v) = o.remove_entry();
            ensure!((kk.k, kk.ver, v.get()) == (k, e.0, e.1), "occupied", "remove_entry returned a wrong pair");
            st.model.remove(&k);
            st.gone(k);
        }
    }
    Ok(())
}

/// Puts, removals and shrinking with the table free to resize: the bound, and evictions only from
/// a full bucket.
fn bound_case(g: &mut Gen, ctx: &mut Ctx) -> Res {
    vcore::track::reset();
    let sh = shape(g);
    let min = *g.pick(&[0_usize, 1, 64, 100, 256]);
    let max = *g.pick(&[64_usize, 1, 100, 128, 256, 512, 1024]);
    vtrace!("HashCache dist={:?} keys=0..{} capacity={min}..={max}", sh.dist, sh.keys);
    {
        let m: Cache = HashCache::with_capacity_and_hasher(min, max, TestHasher(sh.dist));
        let top = *m.capacity_range().end();
        ensure!(top >= max.max(min) && top.is_power_of_two(), "capacity", "the maximum capacity is {top} for {min}..={max}");
        let mut keys: std::collections::BTreeSet<u32> = Default::default();
        let mut twins: BTreeMap<usize, HashMap<K, V, TestHasher>> = BTreeMap::new();
        let mut evictions = 0;
        let mut grew = false;
        let n = 1 + g.log_uniform(12) as usize;
        for _ in 0..n {
            let put = g.chance(3, 5);
            let cnt = 1 + g.log_uniform(1200) as u32;
            let k0 = g.below(u64::from(sh.keys)) as u32;
            let stride = *g.pick(&[1_u32, 2, 3, 7]);
            vtrace!("{} {cnt} from {k0} stride {stride}", if put { "put" } else { "remove" });
            for i in 0..cnt.min(2 * sh.keys) {
                let k = (k0 + i * stride) % sh.keys;
                if !put {
                    ensure!(m.remove_sync(&k).is_some() == keys.remove(&k), "remove", "remove({k})");
                    continue;
                }
                let before = m.capacity();
                let Ok(ev) = m.put_sync(K::new(k, 0), V::new(u64::from(k))) else {
                    ensure!(keys.contains(&k), "put", "put({k}) failed although the key does not exist");
                    continue;
                };
                let cap = m.capacity();
                grew |= cap > before;
                if let Some((ek, _)) = ev {
                    evictions += 1;
                    ensure!(ek.k != k && keys.contains(&ek.k), "evict", "put({k}) handed back {} which it did not hold", ek.k);
                    // The call may have started growing the table after it had taken its bucket.
                    let mut held = Vec::new();
                    for c in [before, cap] {
                        let twin = twins.entry(c).or_insert_with(|| HashMap::with_capacity_and_hasher(c, TestHasher(sh.dist)));
                        let b = twin.bucket_index(&k);
                        let inb = keys.iter().filter(|x| twin.bucket_index(*x) == b).count();
                        held.push((c, inb, twin.bucket_index(&ek.k) == b));
                    }
                    ensure!(
                        held.iter().any(|(_, n, same)| *n >= 32 && *same),
                        "evict",
                        "put({k}) evicted {}: (capacity, entries in the bucket of the key, victim in the same bucket) = {held:?}",
                        ek.k
                    );
                    keys.remove(&ek.k);
                }
                ensure!(keys.insert(k), "put", "put({k}) succeeded although the key exists");
                ensure!(m.len() == keys.len(), "len", "len() = {}, model has {}", m.len(), keys.len());
                ensure!(m.len() <= top, "bound", "len() = {} exceeds the maximum capacity {top}", m.len());
                ensure!(cap <= top && cap >= *m.capacity_range().start(), "capacity", "capacity() = {cap} outside of {:?}", m.capacity_range());
            }
        }
        let mut seen = Vec::new();
        m.iter_sync(|k, _| {
            seen.push(k.k);
            true
        });
        seen.sort_unstable();
        ensure!(seen.iter().eq(keys.iter()), "contents", "contents differ from the model");
        if grew {
            ctx.label("grew");
        }
        ctx.nontrivial = evictions > 0;
        ledger()?;
    }
    all_dropped()
}
