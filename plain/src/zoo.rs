//! Containers of unusual types (without destructors, zero-sized, over-aligned, heap-owning) with
//! references held under guards: contents (M01, I01, C01, T01), drops (D01), references (D02).
use crate::util::*;
use scc::{Guard, HashCache, HashIndex, HashMap, TreeIndex};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use vcore::track::set_err;
use vcore::types::*;
use vcore::{Ctx, Gen, Res, Suite, ensure, vtrace};

pub trait Zk: Clone + Eq + Hash + Ord + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    fn mk(k: u32) -> Self;
    fn k(&self) -> u32;
}
pub trait Zv: Clone + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    fn mk(v: u64) -> Self;
    fn get(&self) -> u64;
    fn proj(v: u64) -> u64 {
        v
    }
}

impl Zk for K {
    const NAME: &'static str = "K(drop)";
    fn mk(k: u32) -> Self {
        K::new(k, 0)
    }
    fn k(&self) -> u32 {
        self.check();
        self.k
    }
}
/// No destructor.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ck(u32, u32);
impl Hash for Ck {
    fn hash<H: Hasher>(&self, s: &mut H) {
        s.write_u32(self.0);
    }
}
impl Zk for Ck {
    const NAME: &'static str = "Copy";
    fn mk(k: u32) -> Self {
        Ck(k, !k)
    }
    fn k(&self) -> u32 {
        let (a, b) = unsafe { (std::ptr::read_volatile(&raw const self.0), std::ptr::read_volatile(&raw const self.1)) };
        if a != !b {
            set_err(format!("a key reads {a:#x}/{b:#x}"));
        }
        a
    }
}
/// Owns heap memory.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Str(String);
impl Hash for Str {
    fn hash<H: Hasher>(&self, s: &mut H) {
        s.write_u32(self.k());
    }
}
impl Zk for Str {
    const NAME: &'static str = "String";
    fn mk(k: u32) -> Self {
        Str(format!("{k:08}"))
    }
    fn k(&self) -> u32 {
        self.0.parse().unwrap_or_else(|_| {
            set_err(format!("a key reads {:?}", self.0));
            u32::MAX
        })
    }
}
/// Over-aligned.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(128))]
pub struct Wide(K);
impl Hash for Wide {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.0.hash(s);
    }
}
impl Zk for Wide {
    const NAME: &'static str = "align(128)";
    fn mk(k: u32) -> Self {
        Wide(K::new(k, 0))
    }
    fn k(&self) -> u32 {
        if std::ptr::from_ref(self).addr() % 128 != 0 {
            set_err("a key with an alignment of 128 is misaligned".into());
        }
        self.0.check();
        self.0.k
    }
}

impl Zv for V {
    const NAME: &'static str = "V(drop)";
    fn mk(v: u64) -> Self {
        V::new(v)
    }
    fn get(&self) -> u64 {
        V::get(self)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Cv(u64, u64);
impl Zv for Cv {
    const NAME: &'static str = "Copy";
    fn mk(v: u64) -> Self {
        Cv(v, !v)
    }
    fn get(&self) -> u64 {
        let (a, b) = unsafe { (std::ptr::read_volatile(&raw const self.0), std::ptr::read_volatile(&raw const self.1)) };
        if a != !b {
            set_err(format!("a value reads {a:#x}/{b:#x}"));
        }
        a
    }
}
impl Zv for () {
    const NAME: &'static str = "()";
    fn mk(_: u64) {}
    fn get(&self) -> u64 {
        0
    }
    fn proj(_: u64) -> u64 {
        0
    }
}
impl Zv for Box<V> {
    const NAME: &'static str = "Box<V>";
    fn mk(v: u64) -> Self {
        Box::new(V::new(v))
    }
    fn get(&self) -> u64 {
        V::get(self)
    }
}
#[derive(Clone, Copy, Debug)]
#[repr(align(64))]
pub struct Big([u64; 24]);
impl Zv for Big {
    const NAME: &'static str = "align(64)";
    fn mk(v: u64) -> Self {
        Big([v; 24])
    }
    fn get(&self) -> u64 {
        if std::ptr::from_ref(self).addr() % 64 != 0 {
            set_err("a value with an alignment of 64 is misaligned".into());
        }
        let a: [u64; 24] = unsafe { std::ptr::read_volatile(&raw const self.0) };
        if a.iter().any(|x| *x != a[0]) {
            set_err(format!("a value reads {:?}", &a[..4]));
        }
        a[0]
    }
}

/// A reference obtained under a guard.
pub struct Ref<A: 'static, B: 'static> {
    k: Option<&'static A>,
    v: &'static B,
    key: u32,
    val: u64,
}

fn keep<A: Zk, B: Zv>(k: Option<&A>, v: &B, key: u32) -> Ref<A, B> {
    unsafe { Ref { k: k.map(|k| &*std::ptr::from_ref(k)), v: &*std::ptr::from_ref(v), key, val: v.get() } }
}

impl<A: Zk, B: Zv> Ref<A, B> {
    fn check(&self) -> Res {
        if let Some(k) = self.k {
            let x = k.k();
            ensure!(x == self.key, "reference", "a reference to key {} obtained under a guard denotes {x} now", self.key);
        }
        let x = self.v.get();
        ensure!(x == self.val, "reference", "a reference to the value {} of key {} obtained under a guard denotes {x} now", self.val, self.key);
        if let Some(e) = vcore::track::err() {
            vcore::fail!("reference", "a reference to key {} obtained under a guard: {e}", self.key);
        }
        Ok(())
    }
}

pub trait Zc<A: Zk, B: Zv>: Sized {
    const NAME: &'static str;
    const OUTLIVE: bool = false;
    fn make(cap: usize, dist: Dist) -> Self;
    /// `(inserted, evicted)`.
    fn put(&self, k: u32, v: u64) -> (bool, Option<u32>);
    /// Replaces the value, if there is an entry.
    fn set(&self, k: u32, v: u64) -> bool;
    fn del(&self, k: u32) -> bool;
    fn get(&self, k: u32) -> Option<u64>;
    fn len(&self) -> usize;
    fn clear(&self);
    fn retain(&self, md: u32, rem: u32);
    fn del_range(&self, _: u32, _: u32) -> bool {
        false
    }
    fn all(&self) -> Vec<(u32, u64)>;
    fn pin(&self, _: u8, _: u32, _: usize, _: &Guard) -> Vec<Ref<A, B>> {
        Vec::new()
    }
    fn dup(&self) -> Option<Self> {
        None
    }
    fn cap(&self) -> usize;
}

impl<A: Zk, B: Zv> Zc<A, B> for HashMap<A, B, TestHasher> {
    const NAME: &'static str = "HashMap";
    fn make(cap: usize, dist: Dist) -> Self {
        HashMap::with_capacity_and_hasher(cap, TestHasher(dist))
    }
    fn put(&self, k: u32, v: u64) -> (bool, Option<u32>) {
        (self.insert_sync(A::mk(k), B::mk(v)).is_ok(), None)
    }
    fn set(&self, k: u32, v: u64) -> bool {
        self.update_sync(&A::mk(k), |_, x| *x = B::mk(v)).is_some()
    }
    fn del(&self, k: u32) -> bool {
        self.remove_sync(&A::mk(k)).is_some()
    }
    fn get(&self, k: u32) -> Option<u64> {
        self.read_sync(&A::mk(k), |x, v| if x.k() == k { v.get() } else { u64::MAX })
    }
    fn len(&self) -> usize {
        HashMap::len(self)
    }
    fn clear(&self) {
        self.clear_sync();
    }
    fn retain(&self, md: u32, rem: u32) {
        self.retain_sync(|k, _| k.k() % md != rem);
    }
    fn all(&self) -> Vec<(u32, u64)> {
        let mut r = Vec::new();
        self.iter_sync(|k, v| {
            r.push((k.k(), v.get()));
            true
        });
        r
    }
    fn dup(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
}

impl<A: Zk, B: Zv> Zc<A, B> for HashCache<A, B, TestHasher> {
    const NAME: &'static str = "HashCache";
    fn make(cap: usize, dist: Dist) -> Self {
        HashCache::with_capacity_and_hasher(cap, (cap * 2).max(128), TestHasher(dist))
    }
    fn put(&self, k: u32, v: u64) -> (bool, Option<u32>) {
        match self.put_sync(A::mk(k), B::mk(v)) {
            Ok(e) => (true, e.map(|e| e.0.k())),
            Err(_) => (false, None),
        }
    }
    fn set(&self, k: u32, v: u64) -> bool {
        self.get_sync(&A::mk(k)).is_some_and(|mut e| {
            *e.get_mut() = B::mk(v);
            true
        })
    }
    fn del(&self, k: u32) -> bool {
        self.remove_sync(&A::mk(k)).is_some()
    }
    fn get(&self, k: u32) -> Option<u64> {
        self.read_sync(&A::mk(k), |x, v| if x.k() == k { v.get() } else { u64::MAX })
    }
    fn len(&self) -> usize {
        HashCache::len(self)
    }
    fn clear(&self) {
        self.clear_sync();
    }
    fn retain(&self, md: u32, rem: u32) {
        self.retain_sync(|k, _| k.k() % md != rem);
    }
    fn all(&self) -> Vec<(u32, u64)> {
        let mut r = Vec::new();
        self.iter_sync(|k, v| {
            r.push((k.k(), v.get()));
            true
        });
        r
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
}

impl<A: Zk, B: Zv> Zc<A, B> for HashIndex<A, B, TestHasher> {
    const NAME: &'static str = "HashIndex";
    fn make(cap: usize, dist: Dist) -> Self {
        HashIndex::with_capacity_and_hasher(cap, TestHasher(dist))
    }
    fn put(&self, k: u32, v: u64) -> (bool, Option<u32>) {
        (self.insert_sync(A::mk(k), B::mk(v)).is_ok(), None)
    }
    fn set(&self, k: u32, v: u64) -> bool {
        self.get_sync(&A::mk(k)).is_some_and(|mut e| {
            e.update(B::mk(v));
            true
        })
    }
    fn del(&self, k: u32) -> bool {
        self.remove_sync(&A::mk(k))
    }
    fn get(&self, k: u32) -> Option<u64> {
        self.peek_with(&A::mk(k), |x, v| if x.k() == k { v.get() } else { u64::MAX })
    }
    fn len(&self) -> usize {
        HashIndex::len(self)
    }
    fn clear(&self) {
        self.clear_sync();
    }
    fn retain(&self, md: u32, rem: u32) {
        self.retain_sync(|k, _| k.k() % md != rem);
    }
    fn all(&self) -> Vec<(u32, u64)> {
        let g = Guard::new();
        self.iter(&g).map(|(k, v)| (k.k(), v.get())).collect()
    }
    fn pin(&self, way: u8, k: u32, n: usize, g: &Guard) -> Vec<Ref<A, B>> {
        if way == 0 {
            self.peek(&A::mk(k), g).map(|v| keep(None, v, k)).into_iter().collect()
        } else {
            self.iter(g).take(n).map(|(x, v)| keep(Some(x), v, x.k())).collect()
        }
    }
    fn dup(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
}

impl<A: Zk, B: Zv> Zc<A, B> for TreeIndex<A, B> {
    const NAME: &'static str = "TreeIndex";
    const OUTLIVE: bool = true;
    fn make(_: usize, _: Dist) -> Self {
        TreeIndex::new()
    }
    fn put(&self, k: u32, v: u64) -> (bool, Option<u32>) {
        (self.insert_sync(A::mk(k), B::mk(v)).is_ok(), None)
    }
    fn set(&self, k: u32, v: u64) -> bool {
        let r = self.remove_sync(&A::mk(k));
        if r {
            let _ = self.insert_sync(A::mk(k), B::mk(v));
        }
        r
    }
    fn del(&self, k: u32) -> bool {
        self.remove_sync(&A::mk(k))
    }
    fn get(&self, k: u32) -> Option<u64> {
        let g = Guard::new();
        self.peek(&A::mk(k), &g).map(Zv::get)
    }
    fn len(&self) -> usize {
        TreeIndex::len(self)
    }
    fn clear(&self) {
        TreeIndex::clear(self);
    }
    fn retain(&self, md: u32, rem: u32) {
        let v: Vec<u32> = Zc::all(self).iter().map(|x| x.0).filter(|k| k % md == rem).collect();
        for k in v {
            self.remove_if_sync(&A::mk(k), |_| true);
        }
    }
    fn del_range(&self, lo: u32, hi: u32) -> bool {
        self.remove_range_sync::<A, _>(A::mk(lo)..A::mk(hi));
        true
    }
    fn all(&self) -> Vec<(u32, u64)> {
        let g = Guard::new();
        self.iter(&g).map(|(k, v)| (k.k(), v.get())).collect()
    }
    fn pin(&self, way: u8, k: u32, n: usize, g: &Guard) -> Vec<Ref<A, B>> {
        match way {
            0 => self.peek(&A::mk(k), g).map(|v| keep(None, v, k)).into_iter().collect(),
            1 => self.peek_entry(&A::mk(k), g).map(|(x, v)| keep(Some(x), v, k)).into_iter().collect(),
            2 => self
                .range::<A, _>((Bound::Included(A::mk(k)), Bound::Unbounded), g)
                .take(n)
                .map(|(x, v)| keep(Some(x), v, x.k()))
                .collect(),
            _ => self.iter(g).take(n).map(|(x, v)| keep(Some(x), v, x.k())).collect(),
        }
    }
    fn dup(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn cap(&self) -> usize {
        self.depth()
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum What {
    Contents,
    Drops,
    References,
}

fn case<A: Zk, B: Zv, C: Zc<A, B>>(g: &mut Gen, ctx: &mut Ctx, what: What) -> Res {
    vcore::track::reset();
    let sh = shape(g);
    vtrace!("{}<{}, {}> dist={:?} keys=0..{} capacity={}", C::NAME, A::NAME, B::NAME, sh.dist, sh.keys, sh.cap);
    let (mut resized, mut removed, mut stale, mut dropped_container) = (false, false, false, false);
    {
        let mut c = C::make(sh.cap, sh.dist);
        let mut model: BTreeMap<u32, u64> = BTreeMap::new();
        let mut ver = 1_000_u64;
        let mut guard: Option<Guard> = None;
        let mut refs: Vec<Ref<A, B>> = Vec::new();
        let n = 1 + g.log_uniform(60);
        let func = what == What::Contents;
        let del = |c: &C, model: &mut BTreeMap<u32, u64>, k: u32| -> Res {
            let exp = model.remove(&k).is_some();
            let r = c.del(k);
            ensure!(!func || r == exp, "remove", "remove({k}) returned {r}, expected {exp}");
            Ok(())
        };
        let put = |c: &C, model: &mut BTreeMap<u32, u64>, k: u32, v: u64| -> Res {
            let exp = !model.contains_key(&k);
            let (r, e) = c.put(k, v);
            ensure!(!func || r == exp, "insert", "insert({k}) returned {r}, expected {exp}");
            if r {
                model.insert(k, B::proj(v));
            }
            if let Some(e) = e {
                let was = model.remove(&e).is_some();
                ensure!(!func || was, "evict", "insert({k}) evicted {e}, which was not in the cache");
            }
            Ok(())
        };
        for _ in 0..n {
            let cap = c.cap();
            let k = g.below(u64::from(sh.keys)) as u32;
            ver += 1;
            match g.weighted(&[10, 8, 6, 4, 8, 5, 2, 1, 2, 6, 3, 2, 4, 1, 1]) {
                0 => {
                    vtrace!("insert({k}, {ver})");
                    put(&c, &mut model, k, ver)?;
                }
                1 => {
                    vtrace!("remove({k})");
                    del(&c, &mut model, k)?;
                    removed = true;
                }
                2 => {
                    vtrace!("update({k}, {ver})");
                    let exp = model.contains_key(&k);
                    let r = c.set(k, ver);
                    ensure!(!func || r == exp, "update", "update({k}) returned {r}, expected {exp}");
                    if r {
                        model.insert(k, B::proj(ver));
                    }
                    removed = true;
                }
                3 => {
                    let (r, exp) = (c.get(k), model.get(&k).copied());
                    vtrace!("get({k}) -> {r:?}");
                    ensure!(!func || r == exp, "get", "get({k}) returned {r:?}, expected {exp:?}");
                }
                4 => {
                    let m = 1 + g.log_uniform(u64::from(sh.keys)) as u32;
                    vtrace!("insert {k}..{}", k + m);
                    for j in k..k + m {
                        ver += 1;
                        put(&c, &mut model, j, ver)?;
                    }
                }
                5 => {
                    let m = 1 + g.log_uniform(u64::from(sh.keys)) as u32;
                    vtrace!("remove {k}..{}", k + m);
                    for j in k..k + m {
                        del(&c, &mut model, j)?;
                    }
                    removed = true;
                }
                6 => {
                    let md = *g.pick(&[2_u32, 3, 5, 17]);
                    let rem = g.below(u64::from(md)) as u32;
                    vtrace!("retain k % {md} != {rem}");
                    c.retain(md, rem);
                    model.retain(|k, _| k % md != rem);
                    removed = true;
                }
                7 => {
                    vtrace!("clear");
                    c.clear();
                    model.clear();
                    removed = true;
                }
                8 => {
                    let m = 1 + g.log_uniform(u64::from(sh.keys)) as u32;
                    vtrace!("remove_range {k}..{}", k + m);
                    if c.del_range(k, k + m) {
                        model.retain(|x, _| !(k..k + m).contains(x));
                        removed = true;
                    }
                }
                9 => {
                    let (way, m) = (g.below(4) as u8, 1 + g.log_uniform(80) as usize);
                    if refs.len() < 300 {
                        vtrace!("collect references, way {way}, from {k}, at most {m}");
                        refs.extend(c.pin(way, k, m, guard.get_or_insert_with(Guard::new)));
                    }
                }
                10 => {
                    vtrace!("check {} references", refs.len());
                    if what == What::References {
                        for r in &refs {
                            r.check()?;
                        }
                    }
                    let now = |k: u32, v: u64| model.get(&k) != Some(&v);
                    stale |= refs.iter().any(|r| now(r.key, r.val));
                }
                11 => {
                    vtrace!("release the guard");
                    if what == What::References {
                        for r in &refs {
                            r.check()?;
                        }
                    }
                    stale |= refs.iter().any(|r| model.get(&r.key) != Some(&r.val));
                    refs.clear();
                    guard = None;
                }
                12 => {
                    let m = g.range(1, 8);
                    vtrace!("advance the epoch x{m}");
                    for _ in 0..m {
                        Guard::new().accelerate();
                    }
                }
                13 => {
                    let swap = g.chance(1, 2) && (C::OUTLIVE || refs.is_empty());
                    vtrace!("clone, {}", if swap { "drop the original" } else { "drop the clone" });
                    if let Some(d) = c.dup() {
                        if func {
                            let mut a = d.all();
                            a.sort_unstable();
                            ensure!(a == model.iter().map(|x| (*x.0, *x.1)).collect::<Vec<_>>(), "clone", "the clone has other contents");
                        }
                        if swap {
                            c = d;
                            dropped_container = true;
                        }
                    }
                }
                _ => {
                    if !C::OUTLIVE {
                        refs.clear();
                    }
                    let cap = *g.pick(&[0_usize, 1, 100, 700]);
                    vtrace!("drop the container; a new one with capacity {cap}");
                    c = C::make(cap, sh.dist);
                    model.clear();
                    dropped_container = true;
                }
            }
            resized |= c.cap() != cap;
            ensure!(!func || c.len() == model.len(), "len", "len() = {}, the model has {}", c.len(), model.len());
        }
        if func {
            let mut a = c.all();
            a.sort_unstable();
            ensure!(a == model.iter().map(|x| (*x.0, *x.1)).collect::<Vec<_>>(), "contents", "the contents differ from the model: {} vs {} entries", a.len(), model.len());
            for k in 0..sh.keys {
                let (r, exp) = (c.get(k), model.get(&k).copied());
                ensure!(r == exp, "get", "get({k}) returned {r:?}, expected {exp:?}");
            }
        }
        if C::OUTLIVE && g.chance(1, 2) {
            drop(c);
            dropped_container = true;
            model.clear();
            for _ in 0..4 {
                Guard::new().accelerate();
            }
        }
        if what == What::References {
            for r in &refs {
                r.check()?;
            }
        }
        stale |= refs.iter().any(|r| model.get(&r.key) != Some(&r.val));
        refs.clear();
        drop(guard);
    }
    for (l, x) in [("resized", resized), ("removed", removed), ("stale_reference_checked", stale), ("container_dropped", dropped_container)] {
        if x {
            ctx.label(l);
        }
    }
    ctx.nontrivial = match what {
        What::References => stale,
        _ => resized && removed,
    };
    match what {
        What::Contents => {
            if let Some(e) = vcore::track::err() {
                vcore::fail!("corrupt", "{e}");
            }
            drain();
            Ok(())
        }
        What::References => {
            drain();
            Ok(())
        }
        What::Drops => all_dropped(),
    }
}

macro_rules! types {
    ($name:ident, $c:ident $(, $h:ty)?) => {
        fn $name(g: &mut Gen, ctx: &mut Ctx, w: What) -> Res {
            match g.weighted(&[3, 3, 4, 2, 3, 2, 1]) {
                0 => case::<K, Cv, $c<K, Cv $(, $h)?>>(g, ctx, w),
                1 => case::<Ck, V, $c<Ck, V $(, $h)?>>(g, ctx, w),
                2 => case::<Ck, Cv, $c<Ck, Cv $(, $h)?>>(g, ctx, w),
                3 => case::<Str, (), $c<Str, () $(, $h)?>>(g, ctx, w),
                4 => case::<Wide, Box<V>, $c<Wide, Box<V> $(, $h)?>>(g, ctx, w),
                5 => case::<K, Big, $c<K, Big $(, $h)?>>(g, ctx, w),
                _ => case::<Ck, (), $c<Ck, () $(, $h)?>>(g, ctx, w),
            }
        }
    };
}
types!(map, HashMap, TestHasher);
types!(index, HashIndex, TestHasher);
types!(cache, HashCache, TestHasher);
types!(tree, TreeIndex);

macro_rules! suite {
    ($n:literal, $f:ident, $w:expr, $q:expr, $t:expr) => {
        Suite { name: $n, quick: $q, thorough: $t, f: |g, c| $f(g, c, $w) }
    };
}

pub const TYPES: &str = " The suites *-types run shorter histories on containers of unusual types (no destructor, zero-sized, over-aligned, heap-owning).";

pub fn m01() -> Suite {
    suite!("hashmap-types", map, What::Contents, 150_000, 3_000_000)
}
pub fn i01() -> Suite {
    suite!("hashindex-types", index, What::Contents, 150_000, 3_000_000)
}
pub fn c01() -> Suite {
    suite!("hashcache-types", cache, What::Contents, 150_000, 3_000_000)
}
pub fn t01() -> Suite {
    suite!("treeindex-types", tree, What::Contents, 150_000, 3_000_000)
}
pub fn d01() -> Vec<Suite> {
    vec![
        suite!("hashmap-types", map, What::Drops, 800_000, 20_000_000),
        suite!("hashindex-types", index, What::Drops, 1_000_000, 20_000_000),
        suite!("hashcache-types", cache, What::Drops, 800_000, 20_000_000),
        suite!("treeindex-types", tree, What::Drops, 800_000, 20_000_000),
    ]
}
pub fn d02() -> Vec<Suite> {
    vec![
        suite!("hashindex-types", index, What::References, 1_500_000, 20_000_000),
        suite!("treeindex-types", tree, What::References, 1_500_000, 20_000_000),
    ]
}
