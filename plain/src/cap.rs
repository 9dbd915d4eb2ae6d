//! K01: capacity, reservations, buckets.
use scc::{Guard, HashCache, HashIndex, HashMap, HashSet};
use std::collections::BTreeMap;
use vcore::types::*;
use vcore::{Ctx, Gen, Prop, Res, Suite, ensure, vtrace};

pub fn k01() -> Prop {
    Prop {
        id: "K01",
        rule: "A case creates a HashMap, HashSet, HashIndex or HashCache with a generated capacity (boundaries included) and performs generated fills, drains, clears, reservations (released in any order, some too large), and probes; after every call the capacity, the capacity range and bucket indices are compared with the documented rules, buckets are identified by mutual exclusion of entries, and at the end the container is drained and must return to its configured minimum. Non-trivial: the table was resized at least twice, or a reservation was released while another was live.",
        suites: vec![Suite { name: "capacity", quick: 1_500_000, thorough: 60_000_000, f: case }],
    }
}

type M = HashMap<u32, u32, TestHasher>;
type S = HashSet<u32, TestHasher>;
type I = HashIndex<u32, u32, TestHasher>;
type C = HashCache<u32, u32, TestHasher>;

enum Any {
    M(M),
    S(S),
    I(I),
    C(C),
}
enum Resv<'a> {
    M(scc::hash_map::Reserve<'a, u32, u32, TestHasher>),
    S(scc::hash_set::Reserve<'a, u32, TestHasher>),
    I(scc::hash_index::Reserve<'a, u32, u32, TestHasher>),
}
impl Resv<'_> {
    fn n(&self) -> usize {
        match self {
            Resv::M(r) => r.additional_capacity(),
            Resv::S(r) => r.additional_capacity(),
            Resv::I(r) => r.additional_capacity(),
        }
    }
}
macro_rules! each {
    ($s:expr, $m:ident => $e:expr) => {
        match $s {
            Any::M($m) => $e,
            Any::S($m) => $e,
            Any::I($m) => $e,
            Any::C($m) => $e,
        }
    };
}
impl Any {
    fn capacity(&self) -> usize {
        each!(self, m => m.capacity())
    }
    fn range(&self) -> (usize, usize) {
        let r = each!(self, m => m.capacity_range());
        (*r.start(), *r.end())
    }
    fn bucket(&self, k: u32) -> usize {
        match self {
            Any::M(m) => m.bucket_index(&k),
            Any::S(m) => m.bucket_index(&k),
            Any::I(m) => m.bucket_index(&k),
            Any::C(_) => 0,
        }
    }
    fn insert(&self, k: u32) {
        match self {
            Any::M(m) => drop(m.insert_sync(k, 0)),
            Any::S(m) => drop(m.insert_sync(k)),
            Any::I(m) => drop(m.insert_sync(k, 0)),
            Any::C(m) => drop(m.put_sync(k, 0)),
        }
    }
    fn remove(&self, k: u32) {
        match self {
            Any::M(m) => drop(m.remove_sync(&k)),
            Any::S(m) => drop(m.remove_sync(&k)),
            Any::I(m) => drop(m.remove_sync(&k)),
            Any::C(m) => drop(m.remove_sync(&k)),
        }
    }
    fn clear(&self) {
        each!(self, m => m.clear_sync());
    }
    fn len(&self) -> usize {
        each!(self, m => m.len())
    }
    fn is_empty(&self) -> bool {
        each!(self, m => m.is_empty())
    }
    /// A full scan ends any pending relocation.
    fn settle(&self) {
        for _ in 0..20 {
            let c = self.capacity();
            self.scan();
            for _ in 0..300 {
                match self {
                    Any::M(m) => m.contains_sync(&0),
                    Any::S(m) => m.contains_sync(&0),
                    Any::I(m) => m.contains(&0),
                    Any::C(m) => m.contains_sync(&0),
                };
            }
            if self.capacity() == c {
                return;
            }
        }
    }
    fn scan(&self) {
        match self {
            Any::M(m) => drop(m.iter_mut_sync(|_| true)),
            Any::S(m) => drop(m.iter_mut_sync(|_| true)),
            Any::I(m) => m.retain_sync(|_, _| true),
            Any::C(m) => drop(m.iter_mut_sync(|_| true)),
        }
    }
    fn reserve(&self, n: usize) -> Option<Resv<'_>> {
        match self {
            Any::M(m) => m.reserve(n).map(Resv::M),
            Any::S(m) => m.reserve(n).map(Resv::S),
            Any::I(m) => m.reserve(n).map(Resv::I),
            Any::C(_) => None,
        }
    }
}

fn pow2_at_least(n: usize) -> usize {
    n.max(64).next_power_of_two()
}

fn case(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let dist = DISTS[g.weighted(&[60, 14, 10, 6, 6, 4])];
    let room: u64 = if dist == Dist::Mixed { *g.pick(&[200, 3000, 12_000]) } else { 200 };
    let cap = match g.weighted(&[4, 3, 3, 3]) {
        0 => 0,
        1 => *g.pick(&[1_usize, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025]),
        2 => g.range(1, 300),
        _ => g.range(300, 5000),
    };
    let kind = g.usize(4);
    let max = match g.usize(4) {
        0 => 0,
        1 => g.range(0, 300),
        2 => g.range(0, 10_000),
        _ => *g.pick(&[64, 65, 127, 128, 129, 1 << 20, 1 << 62, (1 << 62) + 1, usize::MAX]),
    };
    let h = TestHasher(dist);
    let any = match kind {
        0 => Any::M(M::with_capacity_and_hasher(cap, h)),
        1 => Any::S(S::with_capacity_and_hasher(cap, h)),
        2 => Any::I(I::with_capacity_and_hasher(cap, h)),
        _ => Any::C(C::with_capacity_and_hasher(cap, max, h)),
    };
    let name = ["HashMap", "HashSet", "HashIndex", "HashCache"][kind];
    vtrace!("{name} {dist:?} capacity={cap} maximum={max}");
    let base = if cap == 0 { 0 } else { pow2_at_least(cap) };
    let limit = 1_usize << 62;
    let end = if kind == 3 { max.max(base).max(64).min(limit).next_power_of_two() } else { limit };
    ensure!(any.capacity() == base, "initial", "capacity() = {} after with_capacity({cap})", any.capacity());
    ensure!(any.range() == (base, end), "initial", "capacity_range() = {:?}, expected {base}..={end}", any.range());

    let mut resv: Vec<Resv<'_>> = Vec::new();
    let mut total = base;
    let mut keys: std::collections::VecDeque<u32> = std::collections::VecDeque::new();
    let mut next = 0_u32;
    let mut resizes = 0;
    let mut overlapped = false;
    let steps = 1 + g.log_uniform(25);
    let mut last = any.capacity();
    // The capacity must not fall below a minimum that it once satisfied.
    let mut kept = base;
    for _ in 0..steps {
        match g.weighted(&[8, 6, 1, 6, 5, 3, 3, 2]) {
            0 => {
                let n = 1 + g.log_uniform(room.min(4000));
                if keys.len() as u64 + n > room {
                    continue;
                }
                let settle = g.chance(1, 2);
                if settle {
                    any.settle();
                }
                vtrace!("insert {n} keys from {next}{}", if settle { " after a scan" } else { "" });
                for _ in 0..n {
                    any.insert(next);
                    keys.push_back(next);
                    next += 1;
                    let c = any.capacity();
                    if c != last {
                        resizes += 1;
                        last = c;
                    }
                    ensure!(c >= kept, "floor", "capacity {c} fell below {kept} while inserting");
                }
                if kind != 3 && dist == Dist::Mixed && settle {
                    ensure!(any.capacity() + any.capacity() / 2 >= keys.len(), "grow", "{} well-distributed entries in a capacity of {}", keys.len(), any.capacity());
                }
            }
            1 => {
                if keys.is_empty() {
                    continue;
                }
                let n = if g.chance(1, 3) { keys.len() } else { 1 + g.log_uniform(keys.len() as u64 - 1) as usize };
                let front = g.chance(1, 2);
                vtrace!("remove the {n} {} keys", if front { "oldest" } else { "newest" });
                for _ in 0..n {
                    let k = if front { keys.pop_front() } else { keys.pop_back() };
                    any.remove(k.unwrap());
                    let c = any.capacity();
                    if c != last {
                        resizes += 1;
                        last = c;
                    }
                    ensure!(c >= kept, "floor", "capacity {c} fell below {kept} while removing");
                }
            }
            2 => {
                vtrace!("clear");
                any.clear();
                keys.clear();
            }
            3 if kind != 3 && g.chance(1, 30) => {
                // More than any address space holds.
                let n = *g.pick(&[1_usize << 56, 1 << 58, 1 << 61]);
                if any.capacity() == 0 {
                    continue;
                }
                vtrace!("reserve {n}");
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| any.reserve(n).is_some()));
                if let Ok(r) = r {
                    // The table was being resized: the room would have been allocated later.
                    vtrace!("-> {r}");
                }
            }
            3 if kind != 3 => {
                let n = match g.weighted(&[6, 3, 1, 1]) {
                    0 => 1 + g.log_uniform(4000) as usize,
                    1 => *g.pick(&[1, 31, 32, 63, 64, 65, 128, 1000, 1024]),
                    2 => 0,
                    _ => *g.pick(&[usize::MAX, usize::MAX / 2, limit + 1, limit - total + 1, 1 << 63]),
                };
                if kind != 3 && total + n.min(100_000) > 60_000 && n < 1 << 40 {
                    continue;
                }
                let settle = g.chance(1, 2);
                if settle {
                    any.settle();
                }
                vtrace!("reserve {n}{}", if settle { " after a scan" } else { "" });
                let r = any.reserve(n);
                let ok = n != 0 && n <= limit - total;
                ensure!(r.is_some() == ok, "reserve", "reserve({n}) with a minimum of {total} returned {}", if r.is_some() { "Some" } else { "None" });
                if let Some(r) = r {
                    ensure!(r.n() == n, "reserve", "additional_capacity() = {} after reserve({n})", r.n());
                    total += n;
                    resv.push(r);
                    let c = any.capacity();
                    if settle && c != 0 {
                        ensure!(c >= total, "reserve", "capacity() = {c} with a reserved minimum of {total}");
                    }
                }
            }
            4 if !resv.is_empty() => {
                let r = resv.swap_remove(g.usize(resv.len()));
                let n = r.n();
                vtrace!("release a reservation of {n}");
                overlapped |= !resv.is_empty();
                total -= n;
                kept = 0;
                drop(r);
            }
            5 => {
                vtrace!("scan, len, is_empty");
                any.settle();
                ensure!(kind == 3 || any.len() == keys.len(), "len", "len() = {}, expected {}", any.len(), keys.len());
                let e = any.is_empty();
                ensure!(e == (any.len() == 0), "is_empty", "is_empty() = {e} with {} entries", any.len());
            }
            6 => buckets(&any, g, next)?,
            _ if !keys.is_empty() => {
                let k = keys[g.usize(keys.len())];
                let (a, b) = (any.bucket(k), any.bucket(k));
                ensure!(a == b, "bucket", "bucket_index({k}) is {a}, then {b}");
            }
            _ => {}
        }
        let c = any.capacity();
        if c != last {
            resizes += 1;
            last = c;
        }
        let (lo, hi) = any.range();
        ensure!((lo, hi) == (total, end), "range", "capacity_range() = {lo}..={hi}, expected {total}..={end}");
        ensure!(c == 0 || c.is_power_of_two() && c >= 64, "power", "capacity() = {c}");
        ensure!(c <= end, "maximum", "capacity() = {c} exceeds {end}");
        ensure!(c >= kept, "floor", "capacity {c} fell below {kept}");
        ensure!(c >= base, "floor", "capacity {c} below the initial {base}");
        if c >= total {
            kept = total;
        }
        let k = g.below(u64::from(next) + 10) as u32;
        let b = any.bucket(k);
        ensure!(if c == 0 { b == 0 } else { b < c / 32 }, "bucket", "bucket_index({k}) = {b} with capacity {c}");
    }
    // Everything removed and nothing reserved: back to the configured minimum.
    let hold = !resv.is_empty() && g.chance(1, 2);
    if !hold {
        resv.clear();
        total = base;
    }
    if g.chance(1, 2) {
        vtrace!("remove the remaining {} keys, reserved: {}", keys.len(), total - base);
        for k in &keys {
            any.remove(*k);
        }
    } else {
        vtrace!("clear the remaining {} keys, reserved: {}", keys.len(), total - base);
        any.clear();
    }
    shrunk(&any, total, hold, next)?;
    if hold {
        drop(resv);
        vtrace!("release the remaining reservations");
        shrunk(&any, base, false, next)?;
    }
    ctx.nontrivial = resizes >= 2 || overlapped;
    ctx.label(name);
    Ok(())
}

/// An empty container returns to its minimum capacity while it is being used.
fn shrunk(any: &Any, total: usize, reserved: bool, next: u32) -> Res {
    let goal = if total == 0 { 0 } else { pow2_at_least(total) };
    let mut rounds = 0;
    loop {
        ensure!(any.is_empty(), "is_empty", "is_empty() is false after everything was removed");
        let c = any.capacity();
        // The room of a reservation made during a resize is only allocated when it is needed.
        if c == goal || reserved && c < goal {
            return Ok(());
        }
        rounds += 1;
        ensure!(rounds < 30, "shrink", "capacity() stays at {c} after everything was removed, expected {goal}");
        for i in 0..8 {
            any.insert(next + i);
        }
        for i in 0..8 {
            any.remove(next + i);
        }
        any.settle();
    }
}

/// Two keys exclude each other exactly if they share a bucket.
fn buckets(any: &Any, g: &mut Gen, next: u32) -> Res {
    if next < 2 {
        return Ok(());
    }
    any.settle();
    let a = g.below(u64::from(next)) as u32;
    let ks: Vec<u32> = (0..6).map(|_| g.below(u64::from(next)) as u32).collect();
    vtrace!("exclusion of {a} and {ks:?}");
    let cap = any.capacity();
    let ia = any.bucket(a);
    let mut same: BTreeMap<u32, (bool, usize)> = BTreeMap::new();
    match any {
        Any::M(m) => {
            let Some(_o) = m.get_sync(&a) else { return Ok(()) };
            for k in ks {
                same.insert(k, (m.try_entry(k).is_none(), m.bucket_index(&k)));
            }
        }
        Any::I(m) => {
            let Some(_o) = m.get_sync(&a) else { return Ok(()) };
            for k in ks {
                same.insert(k, (m.try_entry(k).is_none(), m.bucket_index(&k)));
            }
            let _ = Guard::new();
        }
        _ => return Ok(()),
    }
    if any.capacity() != cap {
        // Entry access may start a resize.
        return Ok(());
    }
    for (k, (excl, i)) in same {
        ensure!(excl == (i == ia), "bucket", "keys {a} (bucket {ia}) and {k} (bucket {i}): try_entry({k}) {} while an entry of {a} is held", if excl { "fails" } else { "succeeds" });
    }
    Ok(())
}
