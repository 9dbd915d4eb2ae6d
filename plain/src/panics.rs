//! P01: panics in user code at generated points.
use crate::map::{Model, diff};
use crate::util::*;
use scc::{Guard, HashCache, HashIndex, HashMap, TreeIndex};
use std::collections::BTreeMap;
use std::ops::Bound;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use vcore::types::*;
use vcore::{Ctx, Gen, Prop, Res, Suite, ensure, vtrace};

pub fn p01() -> Prop {
    Prop {
        id: "P01",
        rule: "A case drives a container through a generated history in which about half of the calls have a fault armed: the n-th user-code call (key comparison or equality, clone of a key or value, closure, value construction) made by that call panics and the panic is caught. After every panic all buckets / nodes are probed for locks that stayed held (an uncontended asynchronous call must complete), the contents are compared with the model (only the entries concerned may be in the state before or after), and the history goes on; at the end the container is drained (the table must still be able to shrink) and every key and value must have been dropped exactly once. Non-trivial: at least one injected panic fired.",
        suites: vec![
            Suite { name: "hashmap", quick: 1_000_000, thorough: 8_000_000, f: map_case },
            Suite { name: "hashindex", quick: 800_000, thorough: 8_000_000, f: index_case },
            Suite { name: "hashcache", quick: 700_000, thorough: 6_000_000, f: cache_case },
            Suite { name: "treeindex", quick: 300_000, thorough: 10_000_000, f: tree_case },
        ],
    }
}

type Opt = Option<(u32, u64)>;
type Effect = Vec<(u32, Opt)>;

/// Runs `f` with the `n`-th user-code call panicking; `None` if the panic came out.
fn attempt<T>(n: u64, f: impl FnOnce() -> T) -> Option<T> {
    if n != 0 {
        arm(n);
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    disarm();
    match r {
        Ok(x) => Some(x),
        Err(p) if p.is::<vcore::runner::Injected>() => None,
        Err(p) => resume_unwind(p),
    }
}

fn apply(model: &mut Model, e: &Effect) {
    for (k, o) in e {
        match o {
            Some(x) => {
                model.insert(*k, *x);
            }
            None => {
                model.remove(k);
            }
        }
    }
}

/// After a panic: every key is in its state before the call, or in an allowed one.
fn reconcile(model: &mut Model, got: &Model, e: &Effect) -> Res {
    let keys: std::collections::BTreeSet<u32> = model.keys().chain(got.keys()).copied().collect();
    for k in keys {
        let (a, b) = (model.get(&k), got.get(&k));
        if a != b {
            ensure!(
                e.iter().any(|(x, o)| *x == k && o.as_ref() == b),
                "unaffected",
                "after the panic key {k} is {b:?}; before the call it was {a:?} and the call could make it {:?}",
                e.iter().filter(|x| x.0 == k).map(|x| x.1).collect::<Vec<_>>()
            );
        }
    }
    *model = got.clone();
    Ok(())
}

/// Closure body: a fault point before and after the change.
fn set(v: &mut V, x: u64) {
    user(Site::Closure);
    v.set_quiet(x);
    user(Site::Closure);
}
/// Value construction that may panic.
fn make(x: u64) -> V {
    user(Site::Closure);
    V::new(x)
}

macro_rules! alt {
    ($a:expr, $s:expr, $as:expr) => {
        if $a { $s } else { vcore::exec::drive($as).expect("an uncontended asynchronous call is stuck") }
    };
}

fn fault(g: &mut Gen) -> u64 {
    if g.chance(1, 2) { 1 + g.log_uniform(40) } else { 0 }
}

fn table_shape(g: &mut Gen) -> Shape {
    let mut sh = shape(g);
    sh.keys = sh.keys.min(250);
    sh.cap = sh.cap.min(300);
    sh
}

macro_rules! free_of_locks {
    ($m:expr, $sh:expr) => {
        for k in 0..$sh.keys {
            let o = vcore::exec::drive($m.get_async(&k));
            ensure!(o.is_some(), "locked", "the bucket of key {k} is still locked after the panic");
        }
    };
}

macro_rules! shrinks {
    ($m:expr, $base:expr, $ins:expr) => {{
        let goal = if $base == 0 { 0 } else { $base.max(64).next_power_of_two() };
        let mut rounds = 0;
        loop {
            ensure!($m.is_empty(), "is_empty", "is_empty() is false after everything was removed");
            if $m.capacity() == goal {
                break;
            }
            rounds += 1;
            ensure!(rounds < 60, "resize", "the capacity of the drained container stays at {}, expected {goal}", $m.capacity());
            for i in 0..8 {
                $ins(i);
            }
            for i in 0..8 {
                $m.remove_sync(&i);
            }
        }
    }};
}

fn map_contents(m: &HashMap<K, V, TestHasher>) -> Result<Model, vcore::Fail> {
    let mut c = Model::new();
    let mut n = 0;
    m.iter_sync(|k, v| {
        n += 1;
        c.insert(k.k, (k.ver, v.get()));
        true
    });
    if n != c.len() || m.len() != n {
        return Err(vcore::Fail::new("contents", format!("{n} entries visited, {} distinct keys, len() = {}", c.len(), m.len())));
    }
    Ok(c)
}

fn map_case(g: &mut Gen, ctx: &mut Ctx) -> Res {
    vcore::track::reset();
    let sh = table_shape(g);
    vtrace!("HashMap dist={:?} keys=0..{} capacity={}", sh.dist, sh.keys, sh.cap);
    let mut fired = 0;
    {
        let m: HashMap<K, V, TestHasher> = HashMap::with_capacity_and_hasher(sh.cap, TestHasher(sh.dist));
        let mut model = Model::new();
        let mut ver = 0;
        let steps = 1 + g.log_uniform(30);
        for _ in 0..steps {
            ver += 1;
            let k = g.below(u64::from(sh.keys)) as u32;
            let val = u64::from(ver) * 10;
            let s = g.chance(1, 2);
            let n = fault(g);
            let had = model.get(&k).copied();
            let op = g.weighted(&[4, 4, 3, 3, 3, 4, 4, 3, 3, 3, 2, 2, 4, 1, 1, 2]);
            vtrace!("op {op} key {k}#{ver} value {val} sync={s} fault at {n}");
            let (r, e): (Option<()>, Effect) = match op {
                0 => (
                    attempt(n, || drop(alt!(s, m.insert_sync(K::new(k, ver), V::new(val)), m.insert_async(K::new(k, ver), V::new(val))))),
                    if had.is_none() { vec![(k, Some((ver, val)))] } else { vec![] },
                ),
                1 => (
                    attempt(n, || drop(alt!(s, m.upsert_sync(K::new(k, ver), V::new(val)), m.upsert_async(K::new(k, ver), V::new(val))))),
                    vec![(k, Some((had.map_or(ver, |h| h.0), val)))],
                ),
                2 => (
                    attempt(n, || {
                        alt!(s, m.update_sync(&k, |_, v| set(v, val)), m.update_async(&k, |_, v| set(v, val)));
                    }),
                    had.map(|h| (k, Some((h.0, val)))).into_iter().collect(),
                ),
                3 => (
                    attempt(n, || {
                        let f = |k: &K, v: &V| {
                            user(Site::Closure);
                            (k.ver, v.get())
                        };
                        alt!(s, m.read_sync(&Q(k), f), m.read_async(&Q(k), f));
                    }),
                    vec![],
                ),
                4 => (attempt(n, || drop(alt!(s, m.remove_sync(&Q(k)), m.remove_async(&Q(k))))), vec![(k, None)]),
                5 => {
                    let yes = g.chance(1, 2);
                    let f = |v: &mut V| {
                        set(v, val);
                        yes
                    };
                    let r = attempt(n, || drop(alt!(s, m.remove_if_sync(&Q(k), f), m.remove_if_async(&Q(k), f))));
                    let mut e = Effect::new();
                    if let Some(h) = had {
                        if r.is_none() || !yes {
                            e.push((k, Some((h.0, val))));
                        }
                        if yes {
                            e.push((k, None));
                        }
                    }
                    (r, e)
                }
                6 => (
                    attempt(n, || {
                        let e = alt!(s, m.entry_sync(K::new(k, ver)), m.entry_async(K::new(k, ver)));
                        e.or_insert_with(|| make(val));
                    }),
                    if had.is_none() { vec![(k, Some((ver, val)))] } else { vec![] },
                ),
                7 => (
                    // The panic happens while an entry is held.
                    attempt(n, || {
                        let e = alt!(s, m.entry_sync(K::new(k, ver)), m.entry_async(K::new(k, ver)));
                        user(Site::Closure);
                        let mut o = e.insert_entry(V::new(val));
                        user(Site::Closure);
                        o.get_mut().set_quiet(val + 1);
                        user(Site::Closure);
                    }),
                    {
                        let v = had.map_or(ver, |h| h.0);
                        vec![(k, Some((v, val))), (k, Some((v, val + 1)))]
                    },
                ),
                8 => (
                    attempt(n, || {
                        let e = alt!(s, m.entry_sync(K::new(k, ver)), m.entry_async(K::new(k, ver)));
                        e.and_modify(|v| set(v, val)).or_insert_with_key(|_| make(val));
                    }),
                    vec![(k, Some((had.map_or(ver, |h| h.0), val)))],
                ),
                9 => {
                    // Keep or drop each entry.
                    let m3 = 1 + g.below(4) as u32;
                    let f = |k: &K, v: &mut V| {
                        set(v, val);
                        k.k % m3 != 0
                    };
                    let r = attempt(n, || alt!(s, m.retain_sync(f), m.retain_async(f)));
                    let mut e = Effect::new();
                    for (k, h) in &model {
                        if r.is_none() || k % m3 != 0 {
                            e.push((*k, Some((h.0, val))));
                        }
                        if k % m3 == 0 {
                            e.push((*k, None));
                        }
                    }
                    (r, e)
                }
                10 => {
                    let m3 = 1 + g.below(4) as u32;
                    let f = |e: scc::hash_map::ConsumableEntry<'_, K, V>| {
                        user(Site::Closure);
                        if e.0.k % m3 == 0 {
                            drop(e.consume());
                            user(Site::Closure);
                        }
                        true
                    };
                    let r = attempt(n, || {
                        alt!(s, m.iter_mut_sync(f), m.iter_mut_async(f));
                    });
                    (r, model.keys().filter(|k| *k % m3 == 0).map(|k| (*k, None)).collect())
                }
                11 => (
                    attempt(n, || {
                        let f = |k: &K, v: &V| {
                            user(Site::Closure);
                            k.check();
                            v.get() != 1
                        };
                        alt!(s, m.iter_sync(f), m.iter_async(f));
                    }),
                    vec![],
                ),
                12 => {
                    // Many insertions, the fault somewhere on the way.
                    let c = 1 + g.log_uniform(u64::from(sh.keys)) as u32;
                    let n = if n == 0 { 0 } else { 1 + g.log_uniform(400) };
                    let mut done = Effect::new();
                    let mut r = Some(());
                    for i in 0..c {
                        let k = (k + i) % sh.keys;
                        if i == 0 && n != 0 {
                            arm(n);
                        }
                        let x = catch_unwind(AssertUnwindSafe(|| drop(m.insert_sync(K::new(k, ver), V::new(val)))));
                        let absent = !model.contains_key(&k) && !done.iter().any(|d| d.0 == k);
                        if absent {
                            if x.is_ok() {
                                model.insert(k, (ver, val));
                            } else {
                                done.push((k, Some((ver, val))));
                            }
                        }
                        if let Err(p) = x {
                            if !p.is::<vcore::runner::Injected>() {
                                resume_unwind(p);
                            }
                            r = None;
                            break;
                        }
                    }
                    disarm();
                    (r, done)
                }
                13 => {
                    let r = attempt(n, || {
                        let c = m.clone();
                        user(Site::Closure);
                        let _ = c == m;
                    });
                    (r, vec![])
                }
                14 => (
                    attempt(n, || {
                        let r = alt!(s, m.replace_sync(K::new(k, ver)), m.replace_async(K::new(k, ver)));
                        user(Site::Closure);
                        drop(r);
                    }),
                    had.map(|h| (k, Some((ver, h.1)))).into_iter().collect(),
                ),
                _ => {
                    // Bucket-by-bucket traversal abandoned by a panic, some entries removed.
                    let m3 = 1 + g.below(3) as u32;
                    let r = attempt(n, || {
                        let mut o = alt!(s, m.begin_sync(), m.begin_async());
                        while let Some(e) = o.take() {
                            user(Site::Closure);
                            if e.key().k % m3 == 0 {
                                let ((k, _), next) = alt!(s, e.remove_and_sync(), e.remove_and_async());
                                user(Site::Closure);
                                drop(k);
                                o = next;
                            } else {
                                o = alt!(s, e.next_sync(), e.next_async());
                            }
                        }
                    });
                    (r, model.keys().filter(|k| *k % m3 == 0).map(|k| (*k, None)).collect())
                }
            };
            if r.is_some() {
                apply(&mut model, &e);
                if g.chance(1, 8) {
                    let got = map_contents(&m)?;
                    ensure!(got == model, "contents", "{}", diff(&got, &model));
                }
            } else {
                fired += 1;
                vtrace!("-> panicked");
                free_of_locks!(m, sh);
                reconcile(&mut model, &map_contents(&m)?, &e)?;
            }
            ledger()?;
        }
        let got = map_contents(&m)?;
        ensure!(got == model, "contents", "{}", diff(&got, &model));
        m.clear_sync();
        shrinks!(m, sh.cap, |i| drop(m.insert_sync(K::new(i, 0), V::new(0))));
        ledger()?;
        ctx.nontrivial = fired > 0;
    }
    all_dropped()
}

fn index_contents(m: &HashIndex<K, V, TestHasher>) -> Result<Model, vcore::Fail> {
    let mut c = Model::new();
    let mut n = 0;
    for (k, v) in m.iter(&Guard::new()) {
        n += 1;
        c.insert(k.k, (k.ver, v.get()));
    }
    if n != c.len() || m.len() != n {
        return Err(vcore::Fail::new("contents", format!("{n} entries visited, {} distinct keys, len() = {}", c.len(), m.len())));
    }
    Ok(c)
}

fn index_case(g: &mut Gen, ctx: &mut Ctx) -> Res {
    vcore::track::reset();
    let sh = table_shape(g);
    vtrace!("HashIndex dist={:?} keys=0..{} capacity={}", sh.dist, sh.keys, sh.cap);
    let mut fired = 0;
    {
        let m: HashIndex<K, V, TestHasher> = HashIndex::with_capacity_and_hasher(sh.cap, TestHasher(sh.dist));
        let mut model = Model::new();
        let mut ver = 0;
        let guard = g.chance(1, 3).then(Guard::new);
        let steps = 1 + g.log_uniform(30);
        for _ in 0..steps {
            ver += 1;
            let k = g.below(u64::from(sh.keys)) as u32;
            let val = u64::from(ver) * 10;
            let s = g.chance(1, 2);
            let n = fault(g);
            let had = model.get(&k).copied();
            let op = g.weighted(&[5, 4, 4, 4, 4, 4, 4, 3, 3, 5, 1, 2]);
            vtrace!("op {op} key {k}#{ver} value {val} sync={s} fault at {n}");
            let (r, e): (Option<()>, Effect) = match op {
                0 => (
                    attempt(n, || drop(alt!(s, m.insert_sync(K::new(k, ver), V::new(val)), m.insert_async(K::new(k, ver), V::new(val))))),
                    if had.is_none() { vec![(k, Some((ver, val)))] } else { vec![] },
                ),
                1 => (
                    attempt(n, || {
                        m.peek_with(&Q(k), |_, v| {
                            user(Site::Closure);
                            v.get()
                        });
                    }),
                    vec![],
                ),
                2 => (
                    attempt(n, || {
                        alt!(s, m.remove_sync(&Q(k)), m.remove_async(&Q(k)));
                    }),
                    vec![(k, None)],
                ),
                3 => {
                    let yes = g.chance(1, 2);
                    let f = |_: &V| {
                        user(Site::Closure);
                        yes
                    };
                    (
                        attempt(n, || {
                            alt!(s, m.remove_if_sync(&Q(k), f), m.remove_if_async(&Q(k), f));
                        }),
                        if yes { vec![(k, None)] } else { vec![] },
                    )
                }
                4 => (
                    attempt(n, || {
                        let e = alt!(s, m.entry_sync(K::new(k, ver)), m.entry_async(K::new(k, ver)));
                        e.or_insert_with(|| make(val));
                    }),
                    if had.is_none() { vec![(k, Some((ver, val)))] } else { vec![] },
                ),
                5 => (
                    attempt(n, || {
                        let Some(mut o) = alt!(s, m.get_sync(&k), m.get_async(&k)) else { return };
                        user(Site::Closure);
                        o.update(make(val));
                        user(Site::Closure);
                    }),
                    had.map(|h| (k, Some((h.0, val)))).into_iter().collect(),
                ),
                6 => (
                    attempt(n, || {
                        let e = alt!(s, m.entry_sync(K::new(k, ver)), m.entry_async(K::new(k, ver)));
                        user(Site::Closure);
                        match e {
                            scc::hash_index::Entry::Occupied(o) => {
                                o.remove_entry();
                                user(Site::Closure);
                            }
                            scc::hash_index::Entry::Vacant(v) => {
                                let o = v.insert_entry(make(val));
                                user(Site::Closure);
                                drop(o);
                            }
                        }
                    }),
                    vec![(k, if had.is_some() { None } else { Some((ver, val)) })],
                ),
                7 => {
                    let m3 = 1 + g.below(4) as u32;
                    let f = |k: &K, _: &V| {
                        user(Site::Closure);
                        k.k % m3 != 0
                    };
                    let r = attempt(n, || alt!(s, m.retain_sync(f), m.retain_async(f)));
                    (r, model.keys().filter(|k| *k % m3 == 0).map(|k| (*k, None)).collect())
                }
                8 => (
                    attempt(n, || {
                        let f = |k: &K, v: &V| {
                            user(Site::Closure);
                            k.check();
                            v.get() != 1
                        };
                        alt!(s, m.iter_sync(f), m.iter_async(f));
                    }),
                    vec![],
                ),
                9 => {
                    let c = 1 + g.log_uniform(u64::from(sh.keys)) as u32;
                    let n = if n == 0 { 0 } else { 1 + g.log_uniform(400) };
                    let del = g.chance(1, 3);
                    let mut done = Effect::new();
                    let mut r = Some(());
                    for i in 0..c {
                        let k = (k + i) % sh.keys;
                        if i == 0 && n != 0 {
                            arm(n);
                        }
                        let x = catch_unwind(AssertUnwindSafe(|| {
                            if del {
                                m.remove_sync(&Q(k));
                            } else {
                                drop(m.insert_sync(K::new(k, ver), V::new(val)));
                            }
                        }));
                        let ef = if del {
                            Some((k, None))
                        } else if !model.contains_key(&k) {
                            Some((k, Some((ver, val))))
                        } else {
                            None
                        };
                        if x.is_ok() {
                            apply(&mut model, &ef.into_iter().collect());
                        } else {
                            done.extend(ef);
                        }
                        if let Err(p) = x {
                            if !p.is::<vcore::runner::Injected>() {
                                resume_unwind(p);
                            }
                            r = None;
                            break;
                        }
                    }
                    disarm();
                    (r, done)
                }
                10 => {
                    let r = attempt(n, || {
                        let c = m.clone();
                        user(Site::Closure);
                        let _ = c == m;
                    });
                    (r, vec![])
                }
                _ => {
                    let m3 = 1 + g.below(3) as u32;
                    let r = attempt(n, || {
                        let mut o = alt!(s, m.begin_sync(), m.begin_async());
                        while let Some(e) = o.take() {
                            user(Site::Closure);
                            if e.key().k % m3 == 0 {
                                o = alt!(s, e.remove_and_sync(), e.remove_and_async());
                                user(Site::Closure);
                            } else {
                                o = alt!(s, e.next_sync(), e.next_async());
                            }
                        }
                    });
                    (r, model.keys().filter(|k| *k % m3 == 0).map(|k| (*k, None)).collect())
                }
            };
            if r.is_some() {
                apply(&mut model, &e);
                if g.chance(1, 8) {
                    let got = index_contents(&m)?;
                    ensure!(got == model, "contents", "{}", diff(&got, &model));
                }
            } else {
                fired += 1;
                vtrace!("-> panicked");
                free_of_locks!(m, sh);
                reconcile(&mut model, &index_contents(&m)?, &e)?;
            }
            ledger()?;
        }
        drop(guard);
        let got = index_contents(&m)?;
        ensure!(got == model, "contents", "{}", diff(&got, &model));
        m.clear_sync();
        shrinks!(m, sh.cap, |i| drop(m.insert_sync(K::new(i, 0), V::new(0))));
        ledger()?;
        ctx.nontrivial = fired > 0;
    }
    all_dropped()
}

fn cache_contents(m: &HashCache<K, V, TestHasher>) -> Result<Model, vcore::Fail> {
    let mut c = Model::new();
    let mut n = 0;
    m.iter_sync(|k, v| {
        n += 1;
        c.insert(k.k, (k.ver, v.get()));
        true
    });
    if n != c.len() || m.len() != n {
        return Err(vcore::Fail::new("contents", format!("{n} entries visited, {} distinct keys, len() = {}", c.len(), m.len())));
    }
    Ok(c)
}

fn cache_case(g: &mut Gen, ctx: &mut Ctx) -> Res {
    vcore::track::reset();
    let sh = table_shape(g);
    let max = *g.pick(&[64_usize, 128, 1024]);
    vtrace!("HashCache dist={:?} keys=0..{} capacity={} maximum={max}", sh.dist, sh.keys, sh.cap);
    let mut fired = 0;
    {
        let m: HashCache<K, V, TestHasher> = HashCache::with_capacity_and_hasher(sh.cap, max, TestHasher(sh.dist));
        let mut model = Model::new();
        let mut ver = 0;
        let steps = 1 + g.log_uniform(40);
        for _ in 0..steps {
            ver += 1;
            let k = g.below(u64::from(sh.keys)) as u32;
            let val = u64::from(ver) * 10;
            let s = g.chance(1, 2);
            let n = fault(g);
            let had = model.get(&k).copied();
            let op = g.weighted(&[6, 4, 4, 3, 4, 4, 3, 3, 5, 2]);
            vtrace!("op {op} key {k}#{ver} value {val} sync={s} fault at {n}");
            let mut gone: Option<u32> = None;
            let (r, e): (Option<()>, Effect) = match op {
                0 => (
                    attempt(n, || {
                        if let Ok(Some((k, _))) = alt!(s, m.put_sync(K::new(k, ver), V::new(val)), m.put_async(K::new(k, ver), V::new(val))) {
                            gone = Some(k.k);
                        }
                    }),
                    if had.is_none() { vec![(k, Some((ver, val)))] } else { vec![] },
                ),
                1 => (
                    attempt(n, || {
                        if let Some(mut o) = alt!(s, m.get_sync(&k), m.get_async(&k)) {
                            set(o.get_mut(), val);
                        }
                    }),
                    had.map(|h| (k, Some((h.0, val)))).into_iter().collect(),
                ),
                2 => (attempt(n, || drop(alt!(s, m.remove_sync(&Q(k)), m.remove_async(&Q(k))))), vec![(k, None)]),
                3 => (
                    attempt(n, || {
                        let f = |k: &K, v: &V| {
                            user(Site::Closure);
                            (k.ver, v.get())
                        };
                        alt!(s, m.read_sync(&Q(k), f), m.read_async(&Q(k), f));
                    }),
                    vec![],
                ),
                4 => {
                    let yes = g.chance(1, 2);
                    let f = |v: &mut V| {
                        set(v, val);
                        yes
                    };
                    let r = attempt(n, || drop(alt!(s, m.remove_if_sync(&Q(k), f), m.remove_if_async(&Q(k), f))));
                    let mut e = Effect::new();
                    if let Some(h) = had {
                        if r.is_none() || !yes {
                            e.push((k, Some((h.0, val))));
                        }
                        if yes {
                            e.push((k, None));
                        }
                    }
                    (r, e)
                }
                5 => (
                    attempt(n, || {
                        let e = alt!(s, m.entry_sync(K::new(k, ver)), m.entry_async(K::new(k, ver)));
                        let (e, o) = e.or_put_with(|| make(val));
                        gone = e.map(|e| e.0.k);
                        drop(o);
                    }),
                    if had.is_none() { vec![(k, Some((ver, val)))] } else { vec![] },
                ),
                6 => (
                    attempt(n, || {
                        let e = alt!(s, m.entry_sync(K::new(k, ver)), m.entry_async(K::new(k, ver)));
                        user(Site::Closure);
                        let (e, o) = e.put_entry(V::new(val));
                        gone = e.map(|e| e.0.k);
                        user(Site::Closure);
                        drop(o);
                    }),
                    vec![(k, Some((had.map_or(ver, |h| h.0), val)))],
                ),
                7 => {
                    let m3 = 1 + g.below(4) as u32;
                    let f = |k: &K, v: &mut V| {
                        set(v, val);
                        k.k % m3 != 0
                    };
                    let r = attempt(n, || alt!(s, m.retain_sync(f), m.retain_async(f)));
                    let mut e = Effect::new();
                    for (k, h) in &model {
                        if r.is_none() || k % m3 != 0 {
                            e.push((*k, Some((h.0, val))));
                        }
                        if k % m3 == 0 {
                            e.push((*k, None));
                        }
                    }
                    (r, e)
                }
                8 => {
                    let c = 1 + g.log_uniform(u64::from(sh.keys)) as u32;
                    let n = if n == 0 { 0 } else { 1 + g.log_uniform(400) };
                    let mut done = Effect::new();
                    let mut r = Some(());
                    for i in 0..c {
                        let k = (k + i) % sh.keys;
                        if i == 0 && n != 0 {
                            arm(n);
                        }
                        let x = catch_unwind(AssertUnwindSafe(|| m.put_sync(K::new(k, ver), V::new(val))));
                        match x {
                            Ok(Ok(e)) => {
                                model.insert(k, (ver, val));
                                if let Some((k, _)) = e {
                                    model.remove(&k.k);
                                }
                            }
                            Ok(Err(_)) => {}
                            Err(p) => {
                                if !p.is::<vcore::runner::Injected>() {
                                    resume_unwind(p);
                                }
                                if !model.contains_key(&k) {
                                    done.push((k, Some((ver, val))));
                                }
                                r = None;
                                break;
                            }
                        }
                    }
                    disarm();
                    (r, done)
                }
                _ => {
                    let m3 = 1 + g.below(4) as u32;
                    let f = |e: scc::hash_cache::ConsumableEntry<'_, K, V>| {
                        user(Site::Closure);
                        if e.0.k % m3 == 0 {
                            drop(e.consume());
                            user(Site::Closure);
                        }
                        true
                    };
                    let r = attempt(n, || {
                        alt!(s, m.iter_mut_sync(f), m.iter_mut_async(f));
                    });
                    (r, model.keys().filter(|k| *k % m3 == 0).map(|k| (*k, None)).collect())
                }
            };
            if let Some(k) = gone {
                model.remove(&k);
            }
            if r.is_some() {
                apply(&mut model, &e);
                if g.chance(1, 8) {
                    let got = cache_contents(&m)?;
                    ensure!(got == model, "contents", "{}", diff(&got, &model));
                }
            } else {
                fired += 1;
                vtrace!("-> panicked");
                free_of_locks!(m, sh);
                reconcile(&mut model, &cache_contents(&m)?, &e)?;
            }
            ledger()?;
        }
        let got = cache_contents(&m)?;
        ensure!(got == model, "contents", "{}", diff(&got, &model));
        m.clear_sync();
        shrinks!(m, sh.cap, |i| drop(m.put_sync(K::new(i, 0), V::new(0))));
        ledger()?;
        ctx.nontrivial = fired > 0;
    }
    all_dropped()
}

fn tree_contents(m: &TreeIndex<K, V>) -> Result<Model, vcore::Fail> {
    let mut c = Model::new();
    let mut last = None;
    let mut n = 0;
    for (k, v) in m.iter(&Guard::new()) {
        if last >= Some(k.k) {
            return Err(vcore::Fail::new("contents", format!("the iterator yields {} after {last:?}", k.k)));
        }
        last = Some(k.k);
        n += 1;
        c.insert(k.k, (k.ver, v.get()));
    }
    if m.len() != n {
        return Err(vcore::Fail::new("contents", format!("{n} entries visited, len() = {}", m.len())));
    }
    Ok(c)
}

fn tree_case(g: &mut Gen, ctx: &mut Ctx) -> Res {
    vcore::track::reset();
    let dom = *g.pick(&[8_u32, 40, 200, 600]);
    vtrace!("TreeIndex keys=0..{dom}");
    let mut fired = 0;
    let mut known = None;
    {
        let m: TreeIndex<K, V> = TreeIndex::new();
        let mut model = Model::new();
        let mut ver = 0;
        let steps = 1 + g.log_uniform(30);
        for _ in 0..steps {
            ver += 1;
            let k = g.below(u64::from(dom)) as u32;
            let val = u64::from(ver) * 10;
            let s = g.chance(1, 2);
            let n = fault(g);
            let op = g.weighted(&[5, 4, 4, 8, 3, 2, 2, 1]);
            vtrace!("op {op} key {k}#{ver} value {val} sync={s} fault at {n}");
            let had = model.get(&k).copied();
            let (r, e): (Option<()>, Effect) = match op {
                0 => (
                    attempt(n, || drop(alt!(s, m.insert_sync(K::new(k, ver), V::new(val)), m.insert_async(K::new(k, ver), V::new(val))))),
                    if had.is_none() { vec![(k, Some((ver, val)))] } else { vec![] },
                ),
                1 => (
                    attempt(n, || {
                        alt!(s, m.remove_sync(&Q(k)), m.remove_async(&Q(k)));
                    }),
                    vec![(k, None)],
                ),
                2 => {
                    let yes = g.chance(1, 2);
                    let f = |_: &V| {
                        user(Site::Closure);
                        yes
                    };
                    (
                        attempt(n, || {
                            alt!(s, m.remove_if_sync(&Q(k), f), m.remove_if_async(&Q(k), f));
                        }),
                        if yes { vec![(k, None)] } else { vec![] },
                    )
                }
                3 => {
                    let c = 1 + g.log_uniform(u64::from(dom)) as u32;
                    let n = if n == 0 { 0 } else { 1 + g.log_uniform(3000) };
                    let del = g.chance(1, 3);
                    let stride = *g.pick(&[1_u32, 2, 7]);
                    vtrace!("  {} {c} stride {stride} fault at {n}", if del { "remove" } else { "insert" });
                    let mut done = Effect::new();
                    let mut r = Some(());
                    for i in 0..c {
                        let k = (k + i * stride) % dom;
                        if i == 0 && n != 0 {
                            arm(n);
                        }
                        let x = catch_unwind(AssertUnwindSafe(|| {
                            if del {
                                alt!(s, m.remove_sync(&Q(k)), m.remove_async(&Q(k)));
                            } else {
                                drop(alt!(s, m.insert_sync(K::new(k, ver), V::new(val)), m.insert_async(K::new(k, ver), V::new(val))));
                            }
                        }));
                        let ef = if del {
                            Some((k, None))
                        } else if !model.contains_key(&k) {
                            Some((k, Some((ver, val))))
                        } else {
                            None
                        };
                        if x.is_ok() {
                            apply(&mut model, &ef.into_iter().collect());
                        } else {
                            done.extend(ef);
                        }
                        if let Err(p) = x {
                            if !p.is::<vcore::runner::Injected>() {
                                resume_unwind(p);
                            }
                            vtrace!("  panicked at key {k}");
                            r = None;
                            break;
                        }
                    }
                    disarm();
                    (r, done)
                }
                4 => (
                    attempt(n, || {
                        let gu = Guard::new();
                        m.peek_entry(&Q(k), &gu);
                        m.contains(&k);
                        m.peek_with(&k, |_, v| {
                            user(Site::Closure);
                            v.get()
                        });
                    }),
                    vec![],
                ),
                5 => (
                    attempt(n, || {
                        let gu = Guard::new();
                        for (k, v) in m.range::<u32, _>((Bound::Included(k), Bound::Excluded(k + 30)), &gu) {
                            user(Site::Closure);
                            k.check();
                            v.get();
                        }
                    }),
                    vec![],
                ),
                6 => {
                    let hi = k + g.log_uniform(200) as u32;
                    (
                        attempt(n, || alt!(s, m.remove_range_sync::<u32, _>(k..=hi), m.remove_range_async::<u32, _>(k..=hi))),
                        model.range(k..=hi).map(|(k, _)| (*k, None)).collect(),
                    )
                }
                _ => {
                    let n = if n == 0 { 0 } else { 1 + g.log_uniform(2000) };
                    let r = attempt(n, || {
                        let c = m.clone();
                        user(Site::Closure);
                        let _ = c == m;
                    });
                    (r, vec![])
                }
            };
            if r.is_some() {
                apply(&mut model, &e);
                if g.chance(1, 8) {
                    let got = tree_contents(&m)?;
                    ensure!(got == model, "contents", "{}", diff(&got, &model));
                }
            } else {
                fired += 1;
                vtrace!("-> panicked");
                if op == 6 {
                    // `remove_range` takes whole nodes out before it has looked at all the keys it
                    // needs: the tree can be left with leaves that only iterators see (listed in
                    // known_findings.jsonl). Locks and drops are still judged.
                    let good = tree_contents(&m).and_then(|c| {
                        for k in 0..dom {
                            if m.contains(&k) != c.contains_key(&k) {
                                return Err(vcore::Fail::new("", format!("after remove_range panicked, contains({k}) = {}, the iterator disagrees", m.contains(&k))));
                            }
                        }
                        reconcile(&mut model.clone(), &c, &e)
                    });
                    if let Err(f) = good {
                        known = Some(vcore::Fail::new("remove-range-panic", f.msg));
                        let r = vcore::exec::drive(m.remove_range_async::<u32, _>(0..=dom));
                        ensure!(r.is_some(), "locked", "a node is still locked after remove_range panicked");
                        for k in 0..dom {
                            let r = vcore::exec::drive(m.remove_async(&k));
                            ensure!(r.is_some(), "locked", "removing key {k} is stuck after remove_range panicked");
                        }
                        break;
                    }
                }
                reconcile(&mut model, &tree_contents(&m)?, &e)?;
                for k in 0..dom {
                    ensure!(m.contains(&k) == model.contains_key(&k), "contents", "after the panic contains({k}) disagrees with the iterator");
                }
                // Insertions and removals all over the tree must not be stuck.
                let step = (1 + g.usize(5)) * if fired > 5 { 20 } else { 1 };
                for k in (0..dom).step_by(step) {
                    ver += 1;
                    let r = vcore::exec::drive(m.insert_async(K::new(k, ver), V::new(7)));
                    ensure!(r.is_some(), "locked", "inserting key {k} is stuck after the panic");
                    let ok = matches!(r, Some(Ok(())));
                    ensure!(ok != model.contains_key(&k), "insert", "insert({k}) = {ok} after the panic");
                    if ok {
                        let r = vcore::exec::drive(m.remove_async(&k));
                        ensure!(r.is_some(), "locked", "removing key {k} is stuck after the panic");
                        ensure!(r == Some(true), "remove", "remove({k}) = false after the panic");
                    }
                }
                let got = tree_contents(&m)?;
                ensure!(got == model, "contents", "{}", diff(&got, &model));
            }
            ledger()?;
        }
        if known.is_some() {
            model.clear();
        } else {
            let got = tree_contents(&m)?;
            ensure!(got == model, "contents", "{}", diff(&got, &model));
        }
        // Everything can be removed again.
        let keys: BTreeMap<u32, ()> = model.keys().map(|k| (*k, ())).collect();
        for k in keys.keys() {
            ensure!(vcore::exec::drive(m.remove_async(k)) == Some(true), "remove", "remove({k}) fails at the end");
        }
        ensure!(known.is_some() || m.is_empty(), "contents", "the tree is not empty at the end");
        ledger()?;
        ctx.nontrivial = fired > 0;
    }
    all_dropped()?;
    known.map_or(Ok(()), Err)
}
