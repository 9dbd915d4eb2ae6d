//! G01: long steady workloads; the number of retired entries and the memory in use stay bounded.
use crate::util::*;
use scc::{Guard, HashCache, HashIndex, HashMap, HashSet, TreeIndex};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use vcore::types::*;
use vcore::{Ctx, Gen, Prop, Res, Suite, ensure, vtrace};

thread_local! {
    static BYTES: Cell<isize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
}

/// Counts the bytes that the current thread has in use.
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size().cast_signed()));
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size().cast_signed()));
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = BYTES.try_with(|b| b.set(b.get() - l.size().cast_signed()));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + n.cast_signed() - l.size().cast_signed()));
        unsafe { System.realloc(p, l, n) }
    }
}

/// A value that counts its instances.
#[derive(Debug)]
pub struct W(u64);
impl W {
    fn new(v: u64) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        W(v)
    }
}
impl Clone for W {
    fn clone(&self) -> Self {
        W::new(self.0)
    }
}
impl Drop for W {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}

fn live() -> isize {
    LIVE.with(Cell::get)
}
fn bytes() -> isize {
    BYTES.with(Cell::get)
}

pub fn g01() -> Prop {
    Prop {
        id: "G01",
        rule: "A case draws a container, a hash distribution, a base population and a body of 1 to 14 operations (insertions, removals, replacements, bulk fills and drains, range removals, retain, clear, lookups, scans, guards held over a few operations, epoch advances), and repeats the body, with the keys shifted each time or not, for hundreds to thousands of rounds. The number of undropped values minus the length, and the bytes allocated by the thread, are sampled after every round; the maximum over a later window must not exceed that of an earlier window, and if it does, the run is prolonged up to 16 times and the growth must stop. HashMap, HashSet and HashCache: no undropped value at all. After the container is dropped and the garbage collected, nothing is left. Non-trivial: at least 500 values were retired.",
        suites: vec![
            Suite { name: "hashindex", quick: 60_000, thorough: 200_000, f: index },
            Suite { name: "treeindex", quick: 24_000, thorough: 200_000, f: tree },
            Suite { name: "locked", quick: 30_000, thorough: 150_000, f: locked },
        ],
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(u32),
    Remove(u32),
    Update(u32),
    Fill(u32, u32),
    Drain(u32, u32),
    Retain(u32, u32),
    RemoveRange(u32, u32),
    Clear,
    Read(u32),
    Scan,
    /// Takes a guard that is held for so many operations of the same round.
    Hold(u32),
    Advance(u32),
    /// Insert, then remove the same key so many times.
    Churn(u32, u32),
}

trait Cont {
    fn insert(&self, k: u32) -> bool;
    fn remove(&self, k: u32) -> bool;
    fn update(&self, k: u32) -> bool;
    fn read(&self, k: u32);
    fn scan(&self) -> usize;
    fn retain(&self, f: &mut dyn FnMut(u32) -> bool);
    fn remove_range(&self, a: u32, b: u32);
    fn clear(&self);
    fn len(&self) -> usize;
    /// Slots in which removed entries may stay until the slots are needed again.
    fn slots(&self) -> usize;
}

impl Cont for HashIndex<u32, W, TestHasher> {
    fn insert(&self, k: u32) -> bool {
        self.insert_sync(k, W::new(1)).is_ok()
    }
    fn remove(&self, k: u32) -> bool {
        self.remove_sync(&k)
    }
    fn update(&self, k: u32) -> bool {
        self.get_sync(&k).map(|mut o| o.update(W::new(2))).is_some()
    }
    fn read(&self, k: u32) {
        self.peek_with(&k, |_, v| v.0);
    }
    fn scan(&self) -> usize {
        self.iter(&Guard::new()).count()
    }
    fn retain(&self, f: &mut dyn FnMut(u32) -> bool) {
        self.retain_sync(|k, _| f(*k));
    }
    fn remove_range(&self, a: u32, b: u32) {
        self.retain_sync(|k, _| !(a..b).contains(k));
    }
    fn clear(&self) {
        self.clear_sync();
    }
    fn len(&self) -> usize {
        HashIndex::len(self)
    }
    fn slots(&self) -> usize {
        self.capacity()
    }
}
impl Cont for TreeIndex<u32, W> {
    fn insert(&self, k: u32) -> bool {
        self.insert_sync(k, W::new(1)).is_ok()
    }
    fn remove(&self, k: u32) -> bool {
        self.remove_sync(&k)
    }
    fn update(&self, k: u32) -> bool {
        self.remove_sync(&k) && self.insert_sync(k, W::new(2)).is_ok()
    }
    fn read(&self, k: u32) {
        self.peek_with(&k, |_, v| v.0);
    }
    fn scan(&self) -> usize {
        self.iter(&Guard::new()).count()
    }
    fn retain(&self, f: &mut dyn FnMut(u32) -> bool) {
        let mut v = Vec::new();
        let g = Guard::new();
        for (k, _) in self.iter(&g) {
            if !f(*k) {
                v.push(*k);
            }
        }
        for k in v {
            self.remove_sync(&k);
        }
    }
    fn remove_range(&self, a: u32, b: u32) {
        self.remove_range_sync(a..b);
    }
    fn clear(&self) {
        TreeIndex::clear(self);
    }
    fn len(&self) -> usize {
        TreeIndex::len(self)
    }
    fn slots(&self) -> usize {
        // A leaf has 14 slots.
        14 * TreeIndex::len(self)
    }
}
impl Cont for HashMap<u32, W, TestHasher> {
    fn insert(&self, k: u32) -> bool {
        self.insert_sync(k, W::new(1)).is_ok()
    }
    fn remove(&self, k: u32) -> bool {
        self.remove_sync(&k).is_some()
    }
    fn update(&self, k: u32) -> bool {
        self.update_sync(&k, |_, v| *v = W::new(2)).is_some()
    }
    fn read(&self, k: u32) {
        self.read_sync(&k, |_, v| v.0);
    }
    fn scan(&self) -> usize {
        let mut n = 0;
        self.iter_sync(|_, _| {
            n += 1;
            true
        });
        n
    }
    fn retain(&self, f: &mut dyn FnMut(u32) -> bool) {
        self.retain_sync(|k, _| f(*k));
    }
    fn remove_range(&self, a: u32, b: u32) {
        let mut e = self.begin_sync();
        while let Some(o) = e {
            if (a..b).contains(o.key()) {
                e = o.remove_and_sync().1;
            } else {
                e = o.next_sync();
            }
        }
    }
    fn clear(&self) {
        self.clear_sync();
    }
    fn len(&self) -> usize {
        HashMap::len(self)
    }
    fn slots(&self) -> usize {
        0
    }
}
#[derive(Debug, Clone)]
pub struct Wk(u32, W);
impl PartialEq for Wk {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Wk {}
impl std::hash::Hash for Wk {
    fn hash<H: std::hash::Hasher>(&self, s: &mut H) {
        s.write_u32(self.0);
    }
}
impl std::borrow::Borrow<u32> for Wk {
    fn borrow(&self) -> &u32 {
        &self.0
    }
}
impl Cont for HashSet<Wk, TestHasher> {
    fn insert(&self, k: u32) -> bool {
        self.insert_sync(Wk(k, W::new(1))).is_ok()
    }
    fn remove(&self, k: u32) -> bool {
        self.remove_sync(&k).is_some()
    }
    fn update(&self, k: u32) -> bool {
        self.contains_sync(&k) && self.replace_sync(Wk(k, W::new(2))).is_some()
    }
    fn read(&self, k: u32) {
        self.read_sync(&k, |v| v.1.0);
    }
    fn scan(&self) -> usize {
        let mut n = 0;
        self.iter_sync(|_| {
            n += 1;
            true
        });
        n
    }
    fn retain(&self, f: &mut dyn FnMut(u32) -> bool) {
        self.retain_sync(|k| f(k.0));
    }
    fn remove_range(&self, a: u32, b: u32) {
        self.iter_mut_sync(|e| {
            if (a..b).contains(&e.0) {
                let _ = e.consume();
            }
            true
        });
    }
    fn clear(&self) {
        self.clear_sync();
    }
    fn len(&self) -> usize {
        HashSet::len(self)
    }
    fn slots(&self) -> usize {
        0
    }
}
impl Cont for HashCache<u32, W, TestHasher> {
    fn insert(&self, k: u32) -> bool {
        self.put_sync(k, W::new(1)).is_ok()
    }
    fn remove(&self, k: u32) -> bool {
        self.remove_sync(&k).is_some()
    }
    fn update(&self, k: u32) -> bool {
        match self.get_sync(&k) {
            Some(mut o) => {
                *o.get_mut() = W::new(2);
                true
            }
            None => false,
        }
    }
    fn read(&self, k: u32) {
        self.read_sync(&k, |_, v| v.0);
    }
    fn scan(&self) -> usize {
        let mut n = 0;
        self.iter_sync(|_, _| {
            n += 1;
            true
        });
        n
    }
    fn retain(&self, f: &mut dyn FnMut(u32) -> bool) {
        self.retain_sync(|k, _| f(*k));
    }
    fn remove_range(&self, a: u32, b: u32) {
        self.retain_sync(|k, _| !(a..b).contains(k));
    }
    fn clear(&self) {
        self.clear_sync();
    }
    fn len(&self) -> usize {
        HashCache::len(self)
    }
    fn slots(&self) -> usize {
        0
    }
}

struct Plan {
    keys: u32,
    base: u32,
    body: Vec<Op>,
    stride: u32,
    rounds: u32,
}

fn plan(g: &mut Gen, keys: u32) -> Plan {
    let base = match g.weighted(&[3, 2, 2, 3]) {
        0 => 0,
        1 => g.below(u64::from(keys.min(8))) as u32,
        2 => keys.min(28 + g.below(8) as u32).min(keys - 1),
        _ => g.below(u64::from(keys)) as u32,
    };
    let n = 1 + g.log_uniform(14) as usize;
    let mut body = Vec::with_capacity(n);
    let mut cost = 0_u32;
    // Half of the time the body leaves the base population alone.
    let lo = if g.chance(1, 2) { base.min(keys - 1) } else { 0 };
    let key = |g: &mut Gen| lo + g.below(u64::from(keys - lo)) as u32;
    for _ in 0..n {
        let op = match g.weighted(&[6, 6, 3, 2, 2, 1, 1, 1, 1, 1, 2, 2, 4]) {
            0 => Op::Insert(key(g)),
            1 => Op::Remove(key(g)),
            2 => Op::Update(key(g)),
            3 => {
                let a = key(g);
                Op::Fill(a, (a + 1 + g.log_uniform(u64::from(keys)) as u32).min(keys))
            }
            4 => {
                let a = key(g);
                Op::Drain(a, (a + 1 + g.log_uniform(u64::from(keys)) as u32).min(keys))
            }
            5 => {
                let m = g.range(2, 9) as u32;
                Op::Retain(m, g.below(u64::from(m)) as u32)
            }
            6 => {
                let a = key(g);
                Op::RemoveRange(a, (a + 1 + g.log_uniform(u64::from(keys)) as u32).min(keys))
            }
            7 => Op::Clear,
            8 => Op::Read(key(g)),
            9 => Op::Scan,
            10 => Op::Hold(g.range(1, 6) as u32),
            11 => Op::Advance(g.range(1, 4) as u32),
            _ => Op::Churn(key(g), 1 + g.log_uniform(40) as u32),
        };
        cost += match op {
            Op::Fill(a, b) | Op::Drain(a, b) => b - a,
            Op::Retain(..) | Op::RemoveRange(..) | Op::Clear | Op::Scan => keys / 2,
            Op::Churn(_, n) => 2 * n,
            _ => 1,
        };
        body.push(op);
    }
    if body.iter().any(|o| matches!(o, Op::Hold(_))) {
        // The epoch hardly advances by itself if few guards are dropped.
        body.push(Op::Advance(g.range(1, 4) as u32));
    }
    let stride = if keys <= 64 { *g.pick(&[0_u32, 0, 1, 7]) } else { 0 };
    let rounds = (6_000 / cost.max(1)).clamp(64, 3_000);
    Plan { keys, base, body, stride, rounds }
}

#[derive(Clone, Copy, Default, Debug)]
struct Peak {
    retired: isize,
    bytes: isize,
}

fn round(c: &dyn Cont, p: &Plan, r: u32, retired: &mut u64) {
    let sh = |k: u32| if p.stride == 0 { k } else { (k + r.wrapping_mul(p.stride)) % p.keys };
    let mut hold: Option<(Guard, u32)> = None;
    let before = c.len() as u64;
    let mut gone = 0_u64;
    for op in &p.body {
        match *op {
            Op::Insert(k) => {
                c.insert(sh(k));
            }
            Op::Remove(k) => gone += u64::from(c.remove(sh(k))),
            Op::Update(k) => gone += u64::from(c.update(sh(k))),
            Op::Fill(a, b) => {
                for k in a..b {
                    c.insert(sh(k));
                }
            }
            Op::Drain(a, b) => {
                for k in a..b {
                    gone += u64::from(c.remove(sh(k)));
                }
            }
            Op::Retain(m, x) => {
                let n = c.len();
                c.retain(&mut |k| k % m != x);
                gone += (n - c.len()) as u64;
            }
            Op::RemoveRange(a, b) => {
                let n = c.len();
                c.remove_range(a, b);
                gone += (n - c.len()) as u64;
            }
            Op::Clear => {
                gone += c.len() as u64;
                c.clear();
            }
            Op::Read(k) => c.read(sh(k)),
            Op::Scan => {
                c.scan();
            }
            Op::Hold(n) => {
                hold = Some((Guard::new(), n));
                continue;
            }
            Op::Advance(n) => {
                for _ in 0..n {
                    let g = Guard::new();
                    g.accelerate();
                }
            }
            Op::Churn(k, n) => {
                for _ in 0..n {
                    c.insert(sh(k));
                    gone += u64::from(c.remove(sh(k)));
                }
            }
        }
        if let Some((_, n)) = hold.as_mut() {
            *n -= 1;
            if *n == 0 {
                hold = None;
            }
        }
    }
    let _ = before;
    *retired += gone;
}

fn stretch(c: &dyn Cont, p: &Plan, from: u32, to: u32, retired: &mut u64, bytes0: isize) -> Peak {
    let mut peak = Peak { retired: isize::MIN, bytes: isize::MIN };
    for r in from..to {
        round(c, p, r, retired);
        let x = live() - c.len().cast_signed();
        peak.retired = peak.retired.max(x);
        peak.bytes = peak.bytes.max(bytes() - bytes0);
    }
    peak
}

fn run(c: &dyn Cont, p: &Plan, immediate: bool, ctx: &mut Ctx, bytes0: isize) -> Res {
    for k in 0..p.base {
        c.insert(k);
    }
    let mut retired = 0;
    let q = p.rounds / 4;
    stretch(c, p, 0, q, &mut retired, bytes0);
    let a = stretch(c, p, q, 2 * q, &mut retired, bytes0);
    stretch(c, p, 2 * q, 3 * q, &mut retired, bytes0);
    let b = stretch(c, p, 3 * q, 4 * q, &mut retired, bytes0);
    ctx.nontrivial = retired >= 500;
    if immediate {
        ensure!(a.retired <= 0 && b.retired <= 0, "undropped", "{} values that are not in the container are not dropped", a.retired.max(b.retired));
    }
    let room = |c: &dyn Cont| (c.slots() + c.slots() / 8 + 64).cast_signed();
    let grows = |x: Peak, y: Peak, n: isize| (y.retired > x.retired + n + x.retired.max(0) / 4 && y.retired > room(c), y.bytes > x.bytes + 256 * n + x.bytes / 4);
    let (mut r, mut m) = grows(a, b, 16);
    if r || m {
        ctx.label("prolonged");
        let mut last = b;
        let mut peaks = vec![a, b];
        let mut at = 4 * q;
        for _ in 0..4 {
            let mid = at + at / 2;
            stretch(c, p, at, mid, &mut retired, bytes0);
            let next = stretch(c, p, mid, 2 * at, &mut retired, bytes0);
            at *= 2;
            let (r2, m2) = grows(last, next, 24);
            r &= r2;
            m &= m2;
            last = next;
            peaks.push(next);
            if !r && !m {
                return Ok(());
            }
        }
        ensure!(!r, "retired-grows", "after {at} rounds, {} entries in the container: the number of retired but undropped values keeps growing: {peaks:?}", c.len());
        ensure!(!m, "memory-grows", "after {at} rounds, {} entries in the container: the memory in use keeps growing: {peaks:?}", c.len());
    }
    Ok(())
}

fn settle(live0: isize, bytes0: isize) -> Res {
    drain();
    ensure!(live() == live0, "leak", "{} values are left after the container was dropped", live() - live0);
    ensure!(bytes() == bytes0, "memory-leak", "{} bytes are left after the container was dropped", bytes() - bytes0);
    Ok(())
}

fn warm(ctx: &mut Ctx) {
    // Let the collector of this thread allocate what it needs.
    let g = Guard::new();
    g.accelerate();
    drop(g);
    drain();
    ctx.count("prolonged", 0);
}

fn index(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let sh = shape(g);
    let p = plan(g, sh.keys);
    vtrace!("HashIndex {:?} capacity={} keys=0..{} base={} stride={} rounds={} body {:?}", sh.dist, sh.cap, p.keys, p.base, p.stride, p.rounds, p.body);
    warm(ctx);
    let (l0, b0) = (live(), bytes());
    let r = {
        let c: HashIndex<u32, W, TestHasher> = HashIndex::with_capacity_and_hasher(sh.cap, TestHasher(sh.dist));
        run(&c, &p, false, ctx, b0)
    };
    r?;
    settle(l0, b0)
}

fn tree(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let keys = *g.pick(&[3_u32, 14, 40, 250, 900]);
    let p = plan(g, keys);
    vtrace!("TreeIndex keys=0..{} base={} stride={} rounds={} body {:?}", p.keys, p.base, p.stride, p.rounds, p.body);
    warm(ctx);
    let (l0, b0) = (live(), bytes());
    let r = {
        let c: TreeIndex<u32, W> = TreeIndex::new();
        run(&c, &p, false, ctx, b0)
    };
    r?;
    settle(l0, b0)
}

fn locked(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let sh = shape(g);
    let mut p = plan(g, sh.keys);
    let kind = g.below(3);
    vtrace!("{} {:?} capacity={} keys=0..{} base={} stride={} rounds={} body {:?}", ["HashMap", "HashSet", "HashCache"][kind as usize], sh.dist, sh.cap, p.keys, p.base, p.stride, p.rounds, p.body);
    p.body.retain(|o| !matches!(o, Op::Hold(_)) || kind != 3);
    warm(ctx);
    let (l0, b0) = (live(), bytes());
    let h = TestHasher(sh.dist);
    let r = match kind {
        0 => run(&HashMap::<u32, W, _>::with_capacity_and_hasher(sh.cap, h), &p, true, ctx, b0),
        1 => run(&HashSet::<Wk, _>::with_capacity_and_hasher(sh.cap, h), &p, true, ctx, b0),
        _ => run(&HashCache::<u32, W, _>::with_capacity_and_hasher(sh.cap, 4096, h), &p, true, ctx, b0),
    };
    r?;
    settle(l0, b0)
}
