//! E02: Clone, equality, collecting and Debug.
use crate::util::*;
use scc::{Guard, HashCache, HashIndex, HashMap, HashSet, TreeIndex};
use std::collections::BTreeMap;
use std::fmt;
use std::hash::{Hash, Hasher};
use vcore::types::*;
use vcore::{Ctx, Gen, Prop, Res, Suite, ensure, fail, vtrace};

pub fn e02() -> Prop {
    Prop {
        id: "E02",
        rule: "histories: two containers of the same type are driven by independent generated histories (different capacities, hash distributions, resizes, pending removals under guards) towards the same contents or towards contents differing in one entry; ==, Debug and Clone are compared with the contents, then the clone and the original are changed in turn and dropped. collect: a generated list (duplicates included) with a generated, valid but arbitrarily loose size hint is collected and compared with the model of the list. Non-trivial: (histories) at least 2 entries and at least one removal on the way; (collect) duplicates or a loose hint, and at least 2 entries.",
        suites: vec![
            Suite { name: "histories", quick: 1_000_000, thorough: 30_000_000, f: histories },
            Suite { name: "collect", quick: 1_500_000, thorough: 50_000_000, f: collect },
        ],
    }
}

/// Key with a parseable Debug form.
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
struct DK(K);
#[derive(PartialEq, Eq, Clone)]
struct DV(V);
impl fmt::Debug for DK {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.check();
        write!(f, "{}#{}", self.0.k, self.0.ver)
    }
}
impl fmt::Debug for DV {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0.get())
    }
}
impl Hash for DK {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.0.hash(s);
    }
}
fn dk(k: u32, ver: u32) -> DK {
    DK(K::new(k, ver))
}
fn dv(v: u64) -> DV {
    DV(V::new(v))
}

/// key -> (key version, value)
type Model = BTreeMap<u32, (u32, u64)>;

/// What the suites need from a container type.
trait Cont: PartialEq + fmt::Debug + Sized {
    const NAME: &'static str;
    const VALUES: bool = true;
    fn create(cap: usize, h: Dist) -> Self;
    /// Makes `k` present with the value `v`; updates the model.
    fn set(&self, g: &mut Gen, m: &mut Model, k: u32, ver: u32, v: u64);
    fn del(&self, m: &mut Model, k: u32);
    fn list(&self) -> Vec<(u32, u32, u64)>;
    fn size(&self) -> usize;
    fn dup(&self) -> Option<Self>;
    fn wipe(&self);
}

fn set_entry(m: &mut Model, k: u32, ver: u32, v: u64) {
    m.entry(k).or_insert((ver, v)).1 = v;
}

impl Cont for HashMap<DK, DV, TestHasher> {
    const NAME: &'static str = "HashMap";
    fn create(cap: usize, h: Dist) -> Self {
        Self::with_capacity_and_hasher(cap, TestHasher(h))
    }
    fn set(&self, g: &mut Gen, m: &mut Model, k: u32, ver: u32, v: u64) {
        if g.chance(1, 3) {
            self.entry_sync(dk(k, ver)).and_modify(|x| x.0.set(v)).or_insert(dv(v));
        } else {
            self.upsert_sync(dk(k, ver), dv(v));
        }
        set_entry(m, k, ver, v);
    }
    fn del(&self, m: &mut Model, k: u32) {
        self.remove_sync(&dk(k, 0));
        m.remove(&k);
    }
    fn list(&self) -> Vec<(u32, u32, u64)> {
        let mut l = Vec::new();
        self.iter_sync(|k, v| {
            l.push((k.0.k, k.0.ver, v.0.get()));
            true
        });
        l
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn dup(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn wipe(&self) {
        self.clear_sync();
    }
}
impl Cont for HashSet<DK, TestHasher> {
    const NAME: &'static str = "HashSet";
    const VALUES: bool = false;
    fn create(cap: usize, h: Dist) -> Self {
        Self::with_capacity_and_hasher(cap, TestHasher(h))
    }
    fn set(&self, _: &mut Gen, m: &mut Model, k: u32, ver: u32, _: u64) {
        let _ = self.insert_sync(dk(k, ver));
        m.entry(k).or_insert((ver, 0));
    }
    fn del(&self, m: &mut Model, k: u32) {
        self.remove_sync(&dk(k, 0));
        m.remove(&k);
    }
    fn list(&self) -> Vec<(u32, u32, u64)> {
        let mut l = Vec::new();
        self.iter_sync(|k| {
            l.push((k.0.k, k.0.ver, 0));
            true
        });
        l
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn dup(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn wipe(&self) {
        self.clear_sync();
    }
}
impl Cont for HashIndex<DK, DV, TestHasher> {
    const NAME: &'static str = "HashIndex";
    fn create(cap: usize, h: Dist) -> Self {
        Self::with_capacity_and_hasher(cap, TestHasher(h))
    }
    fn set(&self, g: &mut Gen, m: &mut Model, k: u32, ver: u32, v: u64) {
        match self.entry_sync(dk(k, ver)) {
            scc::hash_index::Entry::Occupied(mut o) => {
                if g.chance(1, 2) {
                    o.update(dv(v));
                    drop(o);
                    set_entry(m, k, ver, v);
                } else {
                    o.remove_entry();
                    let _ = self.insert_sync(dk(k, ver), dv(v));
                    m.insert(k, (ver, v));
                }
            }
            scc::hash_index::Entry::Vacant(e) => {
                e.insert_entry(dv(v));
                m.insert(k, (ver, v));
            }
        }
    }
    fn del(&self, m: &mut Model, k: u32) {
        self.remove_sync(&dk(k, 0));
        m.remove(&k);
    }
    fn list(&self) -> Vec<(u32, u32, u64)> {
        self.iter(&Guard::new()).map(|(k, v)| (k.0.k, k.0.ver, v.0.get())).collect()
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn dup(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn wipe(&self) {
        self.clear_sync();
    }
}
impl Cont for HashCache<DK, DV, TestHasher> {
    const NAME: &'static str = "HashCache";
    fn create(cap: usize, h: Dist) -> Self {
        Self::with_capacity_and_hasher(cap, (cap * 2).max(256), TestHasher(h))
    }
    fn set(&self, _: &mut Gen, m: &mut Model, k: u32, ver: u32, v: u64) {
        let (e, _) = match self.entry_sync(dk(k, ver)) {
            scc::hash_cache::Entry::Occupied(mut o) => {
                o.put(dv(v));
                set_entry(m, k, ver, v);
                return;
            }
            scc::hash_cache::Entry::Vacant(e) => e.put_entry(dv(v)),
        };
        m.insert(k, (ver, v));
        if let Some((k, _)) = e {
            m.remove(&k.0.k);
        }
    }
    fn del(&self, m: &mut Model, k: u32) {
        self.remove_sync(&dk(k, 0));
        m.remove(&k);
    }
    fn list(&self) -> Vec<(u32, u32, u64)> {
        let mut l = Vec::new();
        self.iter_sync(|k, v| {
            l.push((k.0.k, k.0.ver, v.0.get()));
            true
        });
        l
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn dup(&self) -> Option<Self> {
        None
    }
    fn wipe(&self) {
        self.clear_sync();
    }
}
impl Cont for TreeIndex<DK, DV> {
    const NAME: &'static str = "TreeIndex";
    fn create(_: usize, _: Dist) -> Self {
        Self::new()
    }
    fn set(&self, _: &mut Gen, m: &mut Model, k: u32, ver: u32, v: u64) {
        if m.contains_key(&k) {
            self.remove_sync(&dk(k, 0));
        }
        let _ = self.insert_sync(dk(k, ver), dv(v));
        m.insert(k, (ver, v));
    }
    fn del(&self, m: &mut Model, k: u32) {
        self.remove_sync(&dk(k, 0));
        m.remove(&k);
    }
    fn list(&self) -> Vec<(u32, u32, u64)> {
        self.iter(&Guard::new()).map(|(k, v)| (k.0.k, k.0.ver, v.0.get())).collect()
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn dup(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn wipe(&self) {
        self.clear();
    }
}

fn holds<C: Cont>(c: &C, m: &Model, what: &str) -> Res {
    let l = c.list();
    let got: Model = l.iter().map(|(k, r, v)| (*k, (*r, *v))).collect();
    ensure!(l.len() == got.len() && got == *m, "contents", "{what}: {} visits; {}", l.len(), crate::map::diff(&got, m));
    ensure!(c.size() == m.len(), "contents", "{what}: len() = {}, expected {}", c.size(), m.len());
    Ok(())
}

fn debug_form<C: Cont>(c: &C, m: &Model) -> Res {
    let s = format!("{c:?}");
    let Some(body) = s.strip_prefix('{').and_then(|s| s.strip_suffix('}')) else {
        fail!("debug", "Debug prints {s}");
    };
    let mut got: Vec<String> = if body.is_empty() { Vec::new() } else { body.split(", ").map(str::to_string).collect() };
    let mut exp: Vec<String> = m.iter().map(|(k, (r, v))| if C::VALUES { format!("{k}#{r}: {v}") } else { format!("{k}#{r}") }).collect();
    got.sort();
    exp.sort();
    ensure!(got == exp, "debug", "Debug prints {s}, expected {exp:?}");
    Ok(())
}

/// A random history.
fn history<C: Cont>(g: &mut Gen, c: &C, m: &mut Model, keys: u32, ver: &mut u32, removed: &mut bool) {
    let n = g.log_uniform(6);
    for _ in 0..n {
        let cnt = 1 + g.log_uniform(u64::from(keys.min(300))) as u32;
        let k0 = g.below(u64::from(keys)) as u32;
        match g.weighted(&[6, 3, 1]) {
            0 => {
                vtrace!("set {cnt} keys from {k0}");
                for i in 0..cnt {
                    *ver += 1;
                    let v = g.below(3);
                    c.set(g, m, (k0 + i) % keys, *ver, v);
                }
            }
            1 => {
                vtrace!("remove {cnt} keys from {k0}");
                *removed |= !m.is_empty();
                for i in 0..cnt {
                    c.del(m, (k0 + i) % keys);
                }
            }
            _ => {
                vtrace!("clear");
                *removed |= !m.is_empty();
                c.wipe();
                m.clear();
            }
        }
    }
}

fn pair<C: Cont>(g: &mut Gen, ctx: &mut Ctx) -> Res {
    vcore::track::reset();
    {
        let sa = shape(g);
        let sb = shape(g);
        vtrace!("{} a: {:?} capacity={}, b: {:?} capacity={}, keys=0..{}", C::NAME, sa.dist, sa.cap, sb.dist, sb.cap, sa.keys);
        let a = C::create(sa.cap, sa.dist);
        let b = C::create(sb.cap, sb.dist);
        let (mut ma, mut mb) = (Model::new(), Model::new());
        let mut ver = 0;
        let mut removed = false;
        let guard = g.chance(1, 2).then(Guard::new);
        history(g, &a, &mut ma, sa.keys, &mut ver, &mut removed);
        vtrace!("b:");
        history(g, &b, &mut mb, sa.keys, &mut ver, &mut removed);
        if g.chance(9, 10) {
            vtrace!("b takes over the contents of a");
            let mut ks: Vec<u32> = mb.keys().copied().filter(|k| !ma.contains_key(k)).collect();
            if g.chance(1, 2) {
                ks.reverse();
            }
            for k in ks {
                removed = true;
                b.del(&mut mb, k);
            }
            let mut todo: Vec<(u32, u64)> = ma.iter().filter(|(k, v)| mb.get(k).map(|x| x.1) != Some(v.1)).map(|(k, v)| (*k, v.1)).collect();
            if g.chance(1, 2) {
                todo.reverse();
            }
            for (k, v) in todo {
                ver += 1;
                b.set(g, &mut mb, k, ver, v);
            }
            if g.chance(1, 2) {
                // One entry off.
                let k = g.below(u64::from(sa.keys)) as u32;
                let c = g.chance(1, 2);
                vtrace!("change key {k} of {}", if c { "a" } else { "b" });
                let (x, mx) = if c { (&a, &mut ma) } else { (&b, &mut mb) };
                match g.usize(2) {
                    0 => x.del(mx, k),
                    _ => {
                        ver += 1;
                        x.set(g, mx, k, ver, 77);
                    }
                }
            }
        }
        let early = g.chance(1, 3);
        let guard = if early { None } else { guard };
        holds(&a, &ma, "a")?;
        holds(&b, &mb, "b")?;
        let eq = ma.len() == mb.len() && ma.iter().all(|(k, v)| mb.get(k).is_some_and(|x| x.1 == v.1));
        ensure!((a == b) == eq, "eq", "a == b is {}, the contents say {eq}", a == b);
        ensure!((b == a) == eq, "eq", "b == a is {}, the contents say {eq}", b == a);
        ensure!(a == a, "eq", "a != a");
        debug_form(&a, &ma)?;
        ctx.label(if eq { "equal" } else { "different" });
        if let Some(c) = a.dup() {
            let mut mc = ma.clone();
            holds(&c, &mc, "the clone")?;
            ensure!(c == a && a == c, "clone", "the clone is not equal to the original");
            vtrace!("change the original:");
            history(g, &a, &mut ma, sa.keys, &mut ver, &mut removed);
            holds(&c, &mc, "the clone after changes to the original")?;
            vtrace!("change the clone:");
            history(g, &c, &mut mc, sa.keys, &mut ver, &mut removed);
            holds(&a, &ma, "the original after changes to the clone")?;
            drop(a);
            holds(&c, &mc, "the clone after the original was dropped")?;
            debug_form(&c, &mc)?;
        }
        drop(guard);
        ledger()?;
        ctx.nontrivial = removed && mb.len() >= 2;
    }
    all_dropped()
}

fn histories(g: &mut Gen, ctx: &mut Ctx) -> Res {
    match g.usize(5) {
        0 => pair::<HashMap<DK, DV, TestHasher>>(g, ctx),
        1 => pair::<HashSet<DK, TestHasher>>(g, ctx),
        2 => pair::<HashIndex<DK, DV, TestHasher>>(g, ctx),
        3 => pair::<HashCache<DK, DV, TestHasher>>(g, ctx),
        _ => pair::<TreeIndex<DK, DV>>(g, ctx),
    }
}

struct Hinted<X>(std::vec::IntoIter<X>, usize, Option<usize>);
impl<X> Iterator for Hinted<X> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        let r = self.0.next();
        self.1 = self.1.saturating_sub(1);
        self.2 = self.2.map(|x| if x == usize::MAX { x } else { x.saturating_sub(1) });
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, self.2)
    }
}

fn collect(g: &mut Gen, ctx: &mut Ctx) -> Res {
    vcore::track::reset();
    {
        let dist = DISTS[g.weighted(&[40, 20, 15, 10, 8, 7])];
        DEFAULT_DIST.with(|d| d.set(dist));
        let n = g.log_uniform(300) as usize;
        let dom = *g.pick(&[4_u32, 40, 400]);
        let list: Vec<(u32, u64)> = (0..n).map(|i| (g.below(u64::from(dom)) as u32, i as u64)).collect();
        let lo = match g.usize(3) {
            0 => n,
            1 => 0,
            _ => g.usize(n + 1),
        };
        let hi = match g.usize(4) {
            0 => Some(n),
            1 => None,
            2 => Some(n + g.log_uniform(2000) as usize),
            _ => Some(*g.pick(&[usize::MAX, usize::MAX / 2, 1 << 62, 1 << 48, 1 << 40])),
        };
        let kind = g.usize(4);
        vtrace!("{} from {n} pairs over 0..{dom}, {dist:?}, size hint ({lo}, {hi:?}): {list:?}", ["HashMap", "HashSet", "HashIndex", "HashCache"][kind]);
        let pairs: Vec<(DK, DV)> = list.iter().enumerate().map(|(i, (k, v))| (dk(*k, i as u32), dv(*v))).collect();
        let mut last = Model::new();
        let mut first = Model::new();
        for (i, (k, v)) in list.iter().enumerate() {
            set_entry(&mut last, *k, i as u32, *v);
            first.entry(*k).or_insert((i as u32, *v));
        }
        match kind {
            0 => {
                let c: HashMap<DK, DV, TestHasher> = Hinted(pairs.into_iter(), lo, hi).collect();
                holds(&c, &last, "collected")?;
            }
            1 => {
                let keys: Vec<DK> = pairs.into_iter().map(|x| x.0).collect();
                let c: HashSet<DK, TestHasher> = Hinted(keys.into_iter(), lo, hi).collect();
                for x in first.values_mut() {
                    x.1 = 0;
                }
                holds(&c, &first, "collected")?;
            }
            2 => {
                let c: HashIndex<DK, DV, TestHasher> = Hinted(pairs.into_iter(), lo, hi).collect();
                holds(&c, &first, "collected")?;
            }
            _ => {
                let c: HashCache<DK, DV, TestHasher> = Hinted(pairs.into_iter(), lo, hi).collect();
                let l = c.list();
                for (k, r, v) in &l {
                    ensure!(list.get(*r as usize) == Some(&(*k, *v)), "collect", "the cache holds {k}#{r}={v}");
                }
                if n <= 32 {
                    holds(&c, &first, "collected")?;
                }
            }
        }
        ledger()?;
        ctx.nontrivial = first.len() >= 2 && (first.len() < n || lo != n || hi != Some(n));
    }
    all_dropped()
}
