//! The containers behind one keyed interface.
use crate::call;
use crate::fw::How;
use crate::lin::{Ev, Op, Ret, STEP};
use crate::watch::hold;
use loom::rt;
use scc::{Guard, HashCache, HashIndex, HashMap, HashSet, TreeIndex};
use std::collections::BTreeMap;
use vcore::types::*;
use vcore::{Gen, vtrace};

pub type Map = HashMap<K, V, TestHasher>;
pub type Set = HashSet<K, TestHasher>;
pub type Index = HashIndex<K, V, TestHasher>;
pub type Cache = HashCache<K, V, TestHasher>;
pub type Tree = TreeIndex<K, V>;

/// Evicted entry, if any: recorded as a removal within the interval of the call.
pub type Done = (Option<Ret>, Option<(u32, u64)>);

pub trait Tgt: Send + Sync + 'static + Sized {
    const NAME: &'static str;
    fn make(sh: &Shape) -> Self;
    /// Inserts; returns the evicted key, if any.
    fn put(&self, k: u32, v: u64) -> Option<u32>;
    fn del(&self, k: u32);
    fn cap(&self) -> usize;
    fn contents(&self) -> BTreeMap<u32, u64>;
    /// Variants of `op`: how many ways this container can perform it (0: unsupported).
    fn variants(op: Op) -> u8;
    /// Performs the operation.  `None`: it did nothing (`try_*` failed) and is not recorded.
    /// `ver` identifies the key instance.
    fn run(&self, how: How, op: Op, var: u8, k: u32, ver: u32) -> Option<Done>;
    /// Whether the operation is performed without taking any lock.
    fn lock_free(_: Op, _: u8) -> bool {
        false
    }
    fn visible(v: u64) -> u64 {
        v
    }
}

#[derive(Clone, Debug)]
pub struct Shape {
    pub dist: Dist,
    pub cap: usize,
    pub max: usize,
    /// Filler keys present at the beginning.
    pub keys: Vec<u32>,
    pub kind: &'static str,
    pub fresh: u32,
}

const FILL: u32 = 100;
pub const FRESH: u32 = 5000;

pub fn init_val(k: u32) -> u64 {
    u64::from(k) * 2 + 1_000_000 + u64::from(k % 3 == 0)
}

fn done(r: Option<Ret>) -> Option<Done> {
    Some((Some(r.unwrap_or(Ret::Unknown)), None))
}
fn b(x: Option<bool>) -> Option<Done> {
    done(x.map(Ret::Bool))
}
fn v(x: Option<Option<u64>>) -> Option<Done> {
    done(x.map(Ret::Val))
}

impl Tgt for Map {
    const NAME: &'static str = "HashMap";
    fn make(sh: &Shape) -> Self {
        HashMap::with_capacity_and_hasher(sh.cap, TestHasher(sh.dist))
    }
    fn put(&self, k: u32, v: u64) -> Option<u32> {
        let _ = self.insert_sync(K::new(k, 0), V::new(v));
        None
    }
    fn del(&self, k: u32) {
        self.remove_sync(&k);
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn contents(&self) -> BTreeMap<u32, u64> {
        let mut m = BTreeMap::new();
        self.iter_sync(|k, v| {
            if m.insert(k.k, v.get()).is_some() {
                vcore::track::set_err(format!("key {} is present twice", k.k));
            }
            true
        });
        m
    }
    fn variants(op: Op) -> u8 {
        match op {
            Op::Insert(_) => 3,
            Op::Upsert(_) => 3,
            Op::Update(_) => 2,
            Op::Read => 2,
            Op::Contains => 3,
            Op::Remove => 2,
            Op::RemoveOdd => 2,
            Op::OrInsert(_) => 2,
            Op::Add => 2,
            _ => 0,
        }
    }
    fn run(&self, how: How, op: Op, var: u8, k: u32, ver: u32) -> Option<Done> {
        let key = || K::new(k, ver);
        match (op, var) {
            (Op::Insert(x), 0) => b(call!(how, self.insert_sync(key(), V::new(x)), self.insert_async(key(), V::new(x))).map(|r| r.is_ok())),
            (Op::Insert(x), 1) => match self.try_entry(key())? {
                scc::hash_map::Entry::Vacant(e) => {
                    e.insert_entry(V::new(x));
                    b(Some(true))
                }
                scc::hash_map::Entry::Occupied(_) => b(Some(false)),
            },
            (Op::Insert(x), _) => {
                b(call!(how, self.entry_sync(key()), self.entry_async(key())).map(|e| match e {
                    scc::hash_map::Entry::Vacant(e) => {
                        drop(e.insert_entry(V::new(x)));
                        true
                    }
                    scc::hash_map::Entry::Occupied(_) => false,
                }))
            }
            (Op::Upsert(x), 0) => v(call!(how, self.upsert_sync(key(), V::new(x)), self.upsert_async(key(), V::new(x))).map(|o| o.map(|p| p.get()))),
            (Op::Upsert(x), 1) => v(call!(how, self.entry_sync(key()), self.entry_async(key())).map(|e| match e {
                scc::hash_map::Entry::Occupied(mut o) => {
                    let _h = hold(o.key().k, true);
                    Some(o.insert(V::new(x)).get())
                }
                scc::hash_map::Entry::Vacant(e) => {
                    drop(e.insert_entry(V::new(x)));
                    None
                }
            })),
            (Op::Upsert(x), _) => v(call!(how, self.replace_sync(key()), self.replace_async(key())).map(|e| match e {
                scc::hash_map::ReplaceResult::Replaced(mut o, _) => {
                    let _h = hold(o.key().k, true);
                    let p = o.get().get();
                    o.get_mut().set(x);
                    Some(p)
                }
                scc::hash_map::ReplaceResult::NotReplaced(e) => {
                    drop(e.insert_entry(V::new(x)));
                    None
                }
            })),
            (Op::Update(x), 0) => {
                let f = |kk: &K, v: &mut V| {
                    let _h = hold(kk.k, true);
                    let p = v.get();
                    v.set(x);
                    p
                };
                v(call!(how, self.update_sync(&k, f), self.update_async(&k, f)))
            }
            (Op::Update(x), _) => v(call!(how, self.get_sync(&k), self.get_async(&k)).map(|e| e.map(|mut o| {
                let _h = hold(o.key().k, true);
                o.insert(V::new(x)).get()
            }))),
            (Op::Add, 0) => {
                let f = |kk: &K, v: &mut V| {
                    let _h = hold(kk.k, true);
                    let p = v.get();
                    user(Site::Closure);
                    v.set(p + STEP);
                    p
                };
                v(call!(how, self.update_sync(&k, f), self.update_async(&k, f)))
            }
            (Op::Add, _) => v(call!(how, self.get_sync(&k), self.get_async(&k)).map(|e| {
                e.map(|mut o| {
                    let _h = hold(o.key().k, true);
                    let p = o.get().get();
                    user(Site::Closure);
                    o.get_mut().set(p + STEP);
                    p
                })
            })),
            (Op::Read, 0) => {
                let f = |kk: &K, v: &V| {
                    let _h = hold(kk.k, false);
                    let x = v.get();
                    user(Site::Closure);
                    if v.get() != x {
                        vcore::track::set_err("a value changed under a reader".to_string());
                    }
                    x
                };
                v(call!(how, self.read_sync(&k, f), self.read_async(&k, f)))
            }
            (Op::Read, _) => v(call!(how, self.get_sync(&k), self.get_async(&k)).map(|e| e.map(|o| {
                let _h = hold(o.key().k, true);
                o.get().get()
            }))),
            (Op::Contains, 0) => b(call!(how, self.contains_sync(&k), self.contains_async(&k))),
            (Op::Contains, 1) => b(call!(how, self.entry_sync(key()), self.entry_async(key())).map(|e| matches!(e, scc::hash_map::Entry::Occupied(_)))),
            (Op::Contains, _) => b(call!(how, self.replace_sync(key()), self.replace_async(key()))
                .map(|e| matches!(e, scc::hash_map::ReplaceResult::Replaced(..)))),
            (Op::Remove, 0) => v(call!(how, self.remove_sync(&k), self.remove_async(&k)).map(|e| e.map(|x| x.1.get()))),
            (Op::Remove, _) => v(call!(how, self.get_sync(&k), self.get_async(&k)).map(|e| e.map(|o| o.remove_entry().1.get()))),
            (Op::RemoveOdd, 0) => {
                let f = |v: &mut V| {
                    let _h = hold(k, true);
                    let x = v.get();
                    user(Site::Closure);
                    x & 1 == 1
                };
                v(call!(how, self.remove_if_sync(&k, f), self.remove_if_async(&k, f)).map(|e| e.map(|x| x.1.get())))
            }
            (Op::RemoveOdd, _) => v(call!(how, self.get_sync(&k), self.get_async(&k)).map(|e| {
                e.and_then(|o| if o.get().get() & 1 == 1 { Some(o.remove().get()) } else { None })
            })),
            (Op::OrInsert(x), 0) => v(call!(how, self.entry_sync(key()), self.entry_async(key())).map(|e| Some(e.or_insert(V::new(x)).get().get()))),
            (Op::OrInsert(x), _) => v(Some(Some(self.try_entry(key())?.or_insert_with(|| V::new(x)).get().get()))),
            _ => unreachable!(),
        }
    }
}

impl Tgt for Set {
    const NAME: &'static str = "HashSet";
    fn make(sh: &Shape) -> Self {
        HashSet::with_capacity_and_hasher(sh.cap, TestHasher(sh.dist))
    }
    fn put(&self, k: u32, _: u64) -> Option<u32> {
        let _ = self.insert_sync(K::new(k, 0));
        None
    }
    fn del(&self, k: u32) {
        self.remove_sync(&k);
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn contents(&self) -> BTreeMap<u32, u64> {
        let mut m = BTreeMap::new();
        self.iter_sync(|k| {
            if m.insert(k.k, u64::from(k.ver)).is_some() {
                vcore::track::set_err(format!("key {} is present twice", k.k));
            }
            true
        });
        m
    }
    // The "value" of a set member is the version of the key instance.
    fn visible(_: u64) -> u64 {
        0
    }
    fn variants(op: Op) -> u8 {
        match op {
            Op::Insert(_) | Op::Upsert(_) | Op::Read | Op::Remove | Op::RemoveOdd => 1,
            Op::Contains => 1,
            _ => 0,
        }
    }
    fn run(&self, how: How, op: Op, _: u8, k: u32, _: u32) -> Option<Done> {
        match op {
            Op::Insert(x) => b(call!(how, self.insert_sync(K::new(k, x as u32)), self.insert_async(K::new(k, x as u32))).map(|r| r.is_ok())),
            Op::Upsert(x) => v(call!(how, self.replace_sync(K::new(k, x as u32)), self.replace_async(K::new(k, x as u32))).map(|r| r.map(|k| u64::from(k.ver)))),
            Op::Read => {
                let f = |k: &K| {
                    let _h = hold(k.k, false);
                    user(Site::Closure);
                    k.check();
                    u64::from(k.ver)
                };
                v(call!(how, self.read_sync(&k, f), self.read_async(&k, f)))
            }
            Op::Contains => b(call!(how, self.contains_sync(&k), self.contains_async(&k))),
            Op::Remove => v(call!(how, self.remove_sync(&k), self.remove_async(&k)).map(|r| r.map(|k| u64::from(k.ver)))),
            Op::RemoveOdd => {
                // The condition does not see the key: unconditional here.
                v(call!(how, self.remove_if_sync(&k, || true), self.remove_if_async(&k, || true)).map(|r| r.map(|k| u64::from(k.ver))))
            }
            _ => unreachable!(),
        }
    }
}

impl Tgt for Index {
    const NAME: &'static str = "HashIndex";
    fn make(sh: &Shape) -> Self {
        HashIndex::with_capacity_and_hasher(sh.cap, TestHasher(sh.dist))
    }
    fn put(&self, k: u32, v: u64) -> Option<u32> {
        let _ = self.insert_sync(K::new(k, 0), V::new(v));
        None
    }
    fn del(&self, k: u32) {
        self.remove_sync(&k);
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn contents(&self) -> BTreeMap<u32, u64> {
        let mut m = BTreeMap::new();
        self.iter_sync(|k, v| {
            if m.insert(k.k, v.get()).is_some() {
                vcore::track::set_err(format!("key {} is present twice", k.k));
            }
            true
        });
        m
    }
    fn lock_free(op: Op, var: u8) -> bool {
        matches!((op, var), (Op::Read, 0 | 1 | 3) | (Op::Contains, 0))
    }
    fn variants(op: Op) -> u8 {
        match op {
            Op::Insert(_) => 3,
            Op::Upsert(_) => 1,
            Op::Update(_) => 1,
            Op::Read => 4,
            Op::Contains => 2,
            Op::Remove => 1,
            Op::RemoveQ => 1,
            Op::RemoveOddQ => 1,
            Op::OrInsert(_) => 2,
            Op::Add => 1,
            _ => 0,
        }
    }
    fn run(&self, how: How, op: Op, var: u8, k: u32, ver: u32) -> Option<Done> {
        use scc::hash_index::Entry;
        let key = || K::new(k, ver);
        match (op, var) {
            (Op::Insert(x), 0) => b(call!(how, self.insert_sync(key(), V::new(x)), self.insert_async(key(), V::new(x))).map(|r| r.is_ok())),
            (Op::Insert(x), 1) => match self.try_entry(key())? {
                Entry::Vacant(e) => {
                    e.insert_entry(V::new(x));
                    b(Some(true))
                }
                Entry::Occupied(_) => b(Some(false)),
            },
            (Op::Insert(x), _) => b(call!(how, self.entry_sync(key()), self.entry_async(key())).map(|e| match e {
                Entry::Vacant(e) => {
                    drop(e.insert_entry(V::new(x)));
                    true
                }
                Entry::Occupied(_) => false,
            })),
            (Op::Upsert(x), _) => v(call!(how, self.entry_sync(key()), self.entry_async(key())).map(|e| match e {
                Entry::Occupied(mut o) => {
                    let p = o.get().get();
                    o.update(V::new(x));
                    Some(p)
                }
                Entry::Vacant(e) => {
                    drop(e.insert_entry(V::new(x)));
                    None
                }
            })),
            (Op::Update(x), _) => v(call!(how, self.get_sync(&k), self.get_async(&k)).map(|e| {
                e.map(|mut o| {
                    let p = o.get().get();
                    o.update(V::new(x));
                    p
                })
            })),
            (Op::Add, _) => v(call!(how, self.get_sync(&k), self.get_async(&k)).map(|e| {
                e.map(|mut o| {
                    let p = o.get().get();
                    o.update(V::new(p + STEP));
                    p
                })
            })),
            (Op::Read, 0) => {
                let g = Guard::new();
                v(Some(self.peek(&k, &g).map(|v| {
                    let x = v.get();
                    rt::point();
                    if v.get() != x {
                        vcore::track::set_err("a value changed under a guard".to_string());
                    }
                    x
                })))
            }
            (Op::Read, 1 | 3) => v(Some(self.peek_with(&k, |kk, v| {
                if kk.k != k {
                    vcore::track::set_err(format!("peek_with({k}) yielded key {}", kk.k));
                }
                v.get()
            }))),
            (Op::Read, _) => v(call!(how, self.get_sync(&k), self.get_async(&k)).map(|e| e.map(|o| o.get().get()))),
            (Op::Contains, 0) => b(Some(self.contains(&k))),
            (Op::Contains, _) => b(call!(how, self.entry_sync(key()), self.entry_async(key())).map(|e| matches!(e, Entry::Occupied(_)))),
            (Op::Remove, _) => v(call!(how, self.get_sync(&k), self.get_async(&k)).map(|e| {
                e.map(|o| {
                    let p = o.get().get();
                    o.remove_entry();
                    p
                })
            })),
            (Op::RemoveQ, _) => b(call!(how, self.remove_sync(&k), self.remove_async(&k))),
            (Op::RemoveOddQ, _) => {
                let f = |v: &V| v.get() & 1 == 1;
                b(call!(how, self.remove_if_sync(&k, f), self.remove_if_async(&k, f)))
            }
            (Op::OrInsert(x), 0) => v(call!(how, self.entry_sync(key()), self.entry_async(key())).map(|e| Some(e.or_insert(V::new(x)).get().get()))),
            (Op::OrInsert(x), _) => v(Some(Some(self.try_entry(key())?.or_insert_with(|| V::new(x)).get().get()))),
            _ => unreachable!(),
        }
    }
}

impl Tgt for Cache {
    const NAME: &'static str = "HashCache";
    fn make(sh: &Shape) -> Self {
        HashCache::with_capacity_and_hasher(sh.cap, sh.max, TestHasher(sh.dist))
    }
    fn put(&self, k: u32, v: u64) -> Option<u32> {
        self.put_sync(K::new(k, 0), V::new(v)).ok().flatten().map(|e| e.0.k)
    }
    fn del(&self, k: u32) {
        self.remove_sync(&k);
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn contents(&self) -> BTreeMap<u32, u64> {
        let mut m = BTreeMap::new();
        self.iter_sync(|k, v| {
            if m.insert(k.k, v.get()).is_some() {
                vcore::track::set_err(format!("key {} is present twice", k.k));
            }
            true
        });
        m
    }
    fn variants(op: Op) -> u8 {
        match op {
            Op::Insert(_) => 3,
            Op::Upsert(_) => 2,
            Op::Update(_) => 1,
            Op::Read => 2,
            Op::Contains => 2,
            Op::Remove => 2,
            Op::RemoveOdd => 1,
            Op::OrInsert(_) => 2,
            Op::Add => 1,
            _ => 0,
        }
    }
    fn run(&self, how: How, op: Op, var: u8, k: u32, ver: u32) -> Option<Done> {
        use scc::hash_cache::{Entry, ReplaceResult};
        let key = || K::new(k, ver);
        let ev = |e: Option<(K, V)>| e.map(|(k, v)| (k.k, v.get()));
        fn pack<T>(r: Option<(T, Option<(u32, u64)>)>, f: impl FnOnce(T) -> Ret) -> Option<Done> {
            match r {
                Some((x, e)) => Some((Some(f(x)), e)),
                None => Some((Some(Ret::Unknown), None)),
            }
        }
        match (op, var) {
            (Op::Insert(x), 0) => pack(
                call!(how, self.put_sync(key(), V::new(x)), self.put_async(key(), V::new(x))).map(|r| match r {
                    Ok(e) => (true, ev(e)),
                    Err(_) => (false, None),
                }),
                Ret::Bool,
            ),
            (Op::Insert(x), _) => {
                let e = if var == 1 {
                    Some(self.try_entry(key())?)
                } else {
                    call!(how, self.entry_sync(key()), self.entry_async(key()))
                };
                pack(
                    e.map(|e| match e {
                        Entry::Vacant(e) => {
                            let (e, o) = e.put_entry(V::new(x));
                            drop(o);
                            (true, ev(e))
                        }
                        Entry::Occupied(_) => (false, None),
                    }),
                    Ret::Bool,
                )
            }
            (Op::Upsert(x), 0) => pack(
                call!(how, self.entry_sync(key()), self.entry_async(key())).map(|e| match e {
                    Entry::Vacant(e) => {
                        let (e, o) = e.put_entry(V::new(x));
                        drop(o);
                        (None, ev(e))
                    }
                    Entry::Occupied(mut o) => {
                        let _h = hold(o.key().k, true);
                        (Some(o.put(V::new(x)).get()), None)
                    },
                }),
                Ret::Val,
            ),
            (Op::Upsert(x), _) => pack(
                call!(how, self.replace_sync(key()), self.replace_async(key())).map(|e| match e {
                    ReplaceResult::NotReplaced(e) => {
                        let (e, o) = e.put_entry(V::new(x));
                        drop(o);
                        (None, ev(e))
                    }
                    ReplaceResult::Replaced(mut o, _) => {
                        let _h = hold(o.key().k, true);
                        (Some(o.put(V::new(x)).get()), None)
                    },
                }),
                Ret::Val,
            ),
            (Op::Update(x), _) => v(call!(how, self.get_sync(&k), self.get_async(&k)).map(|e| e.map(|mut o| {
                let _h = hold(o.key().k, true);
                o.put(V::new(x)).get()
            }))),
            (Op::Add, _) => v(call!(how, self.get_sync(&k), self.get_async(&k)).map(|e| {
                e.map(|mut o| {
                    let _h = hold(o.key().k, true);
                    let p = o.get().get();
                    o.get_mut().set(p + STEP);
                    p
                })
            })),
            (Op::Read, 0) => {
                let f = |kk: &K, v: &V| {
                    let _h = hold(kk.k, false);
                    let x = v.get();
                    user(Site::Closure);
                    if v.get() != x {
                        vcore::track::set_err("a value changed under a reader".to_string());
                    }
                    x
                };
                v(call!(how, self.read_sync(&k, f), self.read_async(&k, f)))
            }
            (Op::Read, _) => v(call!(how, self.get_sync(&k), self.get_async(&k)).map(|e| e.map(|o| {
                let _h = hold(o.key().k, true);
                o.get().get()
            }))),
            (Op::Contains, 0) => b(call!(how, self.contains_sync(&k), self.contains_async(&k))),
            (Op::Contains, _) => b(call!(how, self.entry_sync(key()), self.entry_async(key())).map(|e| matches!(e, Entry::Occupied(_)))),
            (Op::Remove, 0) => v(call!(how, self.remove_sync(&k), self.remove_async(&k)).map(|e| e.map(|x| x.1.get()))),
            (Op::Remove, _) => v(call!(how, self.get_sync(&k), self.get_async(&k)).map(|e| e.map(|o| o.remove_entry().1.get()))),
            (Op::RemoveOdd, _) => {
                let f = |v: &mut V| {
                    let _h = hold(k, true);
                    v.get() & 1 == 1
                };
                v(call!(how, self.remove_if_sync(&k, f), self.remove_if_async(&k, f)).map(|e| e.map(|x| x.1.get())))
            }
            (Op::OrInsert(x), _) => {
                let e = if var == 1 {
                    Some(self.try_entry(key())?)
                } else {
                    call!(how, self.entry_sync(key()), self.entry_async(key()))
                };
                pack(
                    e.map(|e| {
                        let (e, o) = e.or_put(V::new(x));
                        let val = o.get().get();
                        drop(o);
                        (Some(val), ev(e))
                    }),
                    Ret::Val,
                )
            }
            _ => unreachable!(),
        }
    }
}

impl Tgt for Tree {
    const NAME: &'static str = "TreeIndex";
    fn make(_: &Shape) -> Self {
        TreeIndex::new()
    }
    fn put(&self, k: u32, v: u64) -> Option<u32> {
        let _ = self.insert_sync(K::new(k, 0), V::new(v));
        None
    }
    fn del(&self, k: u32) {
        self.remove_sync(&k);
    }
    fn cap(&self) -> usize {
        self.depth()
    }
    fn contents(&self) -> BTreeMap<u32, u64> {
        let g = Guard::new();
        let mut m = BTreeMap::new();
        let mut prev = None;
        for (k, v) in self.iter(&g) {
            if prev.is_some_and(|p| p >= k.k) {
                vcore::track::set_err(format!("keys {prev:?} and {} are out of order", k.k));
            }
            prev = Some(k.k);
            m.insert(k.k, v.get());
        }
        m
    }
    fn lock_free(op: Op, _: u8) -> bool {
        matches!(op, Op::Read | Op::Contains)
    }
    fn variants(op: Op) -> u8 {
        match op {
            Op::Insert(_) => 1,
            Op::Read => 4,
            Op::Contains => 1,
            Op::RemoveQ => 1,
            Op::RemoveOddQ => 1,
            _ => 0,
        }
    }
    fn run(&self, how: How, op: Op, var: u8, k: u32, ver: u32) -> Option<Done> {
        let key = || K::new(k, ver);
        match (op, var) {
            (Op::Insert(x), _) => b(call!(how, self.insert_sync(key(), V::new(x)), self.insert_async(key(), V::new(x))).map(|r| match r {
                Ok(()) => true,
                Err((kk, vv)) => {
                    if (kk.k, vv.get()) != (k, x) {
                        vcore::track::set_err(format!("insert({k}, {x}) returned ({}, {})", kk.k, vv.get()));
                    }
                    false
                }
            })),
            (Op::Read, 0) => {
                let g = Guard::new();
                v(Some(self.peek(&k, &g).map(|v| {
                    let x = v.get();
                    rt::point();
                    if v.get() != x {
                        vcore::track::set_err("a value changed under a guard".to_string());
                    }
                    x
                })))
            }
            (Op::Read, 1) => v(Some(self.peek_with(&k, |kk, v| {
                if kk.k != k {
                    vcore::track::set_err(format!("peek_with({k}) yielded key {}", kk.k));
                }
                v.get()
            }))),
            (Op::Read, 2) => {
                let g = Guard::new();
                v(Some(self.peek_entry(&k, &g).map(|(kk, v)| {
                    if kk.k != k {
                        vcore::track::set_err(format!("peek_entry({k}) yielded key {}", kk.k));
                    }
                    v.get()
                })))
            }
            (Op::Read, _) => {
                // A one-key range is a read.
                let g = Guard::new();
                v(Some(self.range(k..=k, &g).next().map(|(_, v)| v.get())))
            }
            (Op::Contains, _) => b(Some(self.contains(&k))),
            (Op::RemoveQ, _) => b(call!(how, self.remove_sync(&k), self.remove_async(&k))),
            (Op::RemoveOddQ, _) => {
                let f = |v: &V| v.get() & 1 == 1;
                b(call!(how, self.remove_if_sync(&k, f), self.remove_if_async(&k, f)))
            }
            _ => unreachable!(),
        }
    }
}

struct Pre<T> {
    t: T,
    keys: Vec<u32>,
}
impl<T: Tgt> Pre<T> {
    fn new(sh: &Shape) -> Self {
        Self { t: T::make(sh), keys: Vec::new() }
    }
    fn put(&mut self, k: u32) {
        if let Some(e) = self.t.put(k, init_val(k)) {
            self.keys.retain(|x| *x != e);
        }
        self.keys.push(k);
    }
    fn del(&mut self, k: u32) {
        self.t.del(k);
        self.keys.retain(|x| *x != k);
    }
    fn done(self, mut sh: Shape, kind: &'static str) -> (T, Shape) {
        sh.kind = kind;
        sh.keys = self.keys;
        (self.t, sh)
    }
}

fn fill<T: Tgt>(sh: &Shape, n: usize) -> Pre<T> {
    let mut p = Pre::new(sh);
    for i in 0..n as u32 {
        p.put(FILL + i);
    }
    p
}

/// A container in an interesting state: empty, small, about to grow, just grown (old array still
/// being drained), about to shrink, just shrunk, overflowing one bucket.
pub fn prepare<T: Tgt>(g: &mut Gen, is_tree: bool) -> (T, Shape) {
    prepare_weighted(g, is_tree, &[3, 4, 4, 6, 3, 3, 3])
}

/// The weights are those of: empty, small, about to grow, just grown, overflow, about to shrink,
/// just shrunk (hash containers).
pub fn prepare_weighted<T: Tgt>(g: &mut Gen, is_tree: bool, weights: &[u32; 7]) -> (T, Shape) {
    let mut sh = Shape { dist: Dist::Mixed, cap: 0, max: 128, keys: Vec::new(), kind: "", fresh: FRESH };
    if is_tree {
        return prepare_tree(g, sh);
    }
    sh.dist = DISTS[g.weighted(&[40, 20, 15, 10, 5, 10])];
    if g.chance(1, 4) {
        sh.cap = *g.pick(&[1_usize, 64, 128]);
    }
    sh.max = *g.pick(&[128_usize, 64, 256]);
    let kind = g.weighted(weights);
    match kind {
        0 => Pre::new(&sh).done(sh, "empty"),
        1 => {
            let n = g.range(1, 12);
            fill(&sh, n).done(sh, "small")
        }
        2 | 3 => {
            // Find where it grows.
            let level = g.weighted(&[3, 2]);
            let mut p: Pre<T> = fill(&sh, 1);
            let mut cap = p.t.cap();
            let mut at = 0;
            let mut seen = 0;
            for i in 1..260_u32 {
                p.put(FILL + i);
                if p.t.cap() > cap {
                    cap = p.t.cap();
                    at = i as usize + 1;
                    if seen == level {
                        break;
                    }
                    seen += 1;
                }
            }
            if at == 0 {
                fill(&sh, 40).done(sh, "full")
            } else if kind == 2 {
                fill(&sh, at - 1).done(sh, "about to grow")
            } else if seen == level {
                p.done(sh, "just grown")
            } else {
                fill(&sh, at).done(sh, "just grown")
            }
        }
        4 => {
            sh.dist = *g.pick(&[Dist::Const, Dist::Few, Dist::Identity]);
            let n = g.range(28, 44);
            fill(&sh, n).done(sh, "overflow")
        }
        _ => {
            // Find where it shrinks.
            let n = *g.pick(&[70_usize, 130, 240]);
            let mut p: Pre<T> = fill(&sh, n);
            let cap = p.t.cap();
            let mut left = None;
            for i in (0..n as u32).rev() {
                p.del(FILL + i);
                if p.t.cap() < cap {
                    left = Some(i);
                    break;
                }
            }
            if let Some(left) = left {
                if kind == 6 {
                    return p.done(sh, "just shrunk");
                }
                let mut p: Pre<T> = fill(&sh, n);
                for i in (left + 1..n as u32).rev() {
                    p.del(FILL + i);
                }
                p.done(sh, "about to shrink")
            } else {
                p.done(sh, "drained")
            }
        }
    }
}

/// Leaves of 14 entries: sizes around the points where leaves / nodes split and merge.
fn prepare_tree<T: Tgt>(g: &mut Gen, mut sh: Shape) -> (T, Shape) {
    let step = 4_u32;
    sh.kind = "tree";
    let n = match g.weighted(&[2, 3, 4, 4, 3, 2]) {
        0 => 0,
        1 => g.range(1, 13),
        2 => g.range(13, 16),
        3 => g.range(17, 60),
        4 => g.range(60, 230),
        _ => g.range(200, 420),
    } as u32;
    let order = g.usize(3);
    let t = T::make(&sh);
    let ks: Vec<u32> = (0..n).map(|i| FILL + i * step).collect();
    let mut ins = ks.clone();
    match order {
        0 => {}
        1 => ins.reverse(),
        _ => {
            let s = g.below(1 << 30);
            let mut r = vcore::r#gen::Rng::new(s);
            for i in (1..ins.len()).rev() {
                ins.swap(i, r.below(i as u64 + 1) as usize);
            }
        }
    }
    for k in &ins {
        t.put(*k, init_val(*k));
    }
    sh.keys = ks;
    // Thin out a part.
    if n > 0 && g.chance(1, 2) {
        let lo = g.below(u64::from(n)) as usize;
        let hi = lo + g.below(u64::from(n) - lo as u64 + 1) as usize;
        let keep = *g.pick(&[0_usize, 14, 7, 3]);
        let mut left = Vec::new();
        for (i, k) in sh.keys.iter().enumerate() {
            if i >= lo && i < hi && (keep == 0 || i % keep != 0) {
                t.del(*k);
            } else {
                left.push(*k);
            }
        }
        sh.keys = left;
    }
    (t, sh)
}

pub fn trace_shape(name: &str, sh: &Shape, cap: usize) {
    vtrace!(
        "{name}: {} ({} keys {}..={}), dist {:?}, capacity/depth {}",
        sh.kind,
        sh.keys.len(),
        sh.keys.first().copied().unwrap_or(0),
        sh.keys.last().copied().unwrap_or(0),
        sh.dist,
        cap
    );
}

/// Records an executed operation.
pub fn record(evs: &mut Vec<Ev>, name: &str, op: Op, k: u32, d: Done, start: u64, end: u64) {
    let tid = rt::tid().unwrap_or(99);
    if let Some(r) = d.0 {
        evs.push(Ev { key: k, op, ret: r, start, end, tid, name: name.to_string(), broken: false, lock_free: false });
    }
    if let Some((ek, v)) = d.1 {
        evs.push(Ev { key: ek, op: Op::Remove, ret: Ret::Val(Some(v)), start, end, tid, name: format!("evicted by {name}"), broken: false, lock_free: false });
    }
}
