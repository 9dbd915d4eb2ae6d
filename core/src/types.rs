//! Key/value/hasher types used by all harnesses.
use crate::track::Token;
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::atomic::{AtomicPtr, Ordering::Relaxed};

/// Where user code is being called from.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Site {
    KeyEq,
    KeyCmp,
    KeyClone,
    ValClone,
    KeyDrop,
    ValDrop,
    Closure,
}

static HOOK: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());

/// Installs a function called whenever user code runs inside of a container.
pub fn set_hook(f: fn(Site)) {
    HOOK.store(f as *mut (), Relaxed);
}

thread_local! {
    /// Countdown of fallible user-code calls until one panics (0 = disarmed).
    static FAULT: Cell<u64> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
}

/// Makes the `n`-th (1-based) panicking-capable user-code call on this thread panic.
pub fn arm(n: u64) {
    FAULT.with(|f| f.set(n));
    FIRED.with(|f| f.set(false));
    SEEN.with(|f| f.set(0));
}
/// Disarms; returns `true` if the fault fired.
pub fn disarm() -> bool {
    FAULT.with(|f| f.set(0));
    FIRED.with(|f| f.get())
}
/// Number of fallible user-code calls since the last `arm`.
pub fn seen() -> u64 {
    SEEN.with(|f| f.get())
}

#[inline]
pub fn user(site: Site) {
    let h = HOOK.load(Relaxed);
    if !h.is_null() {
        let f: fn(Site) = unsafe { std::mem::transmute(h) };
        f(site);
    }
    if site != Site::KeyDrop && site != Site::ValDrop {
        let _ = SEEN.try_with(|s| s.set(s.get() + 1));
        let n = FAULT.try_with(Cell::get).unwrap_or(0);
        if n != 0 {
            FAULT.with(|f| f.set(n - 1));
            if n == 1 {
                FIRED.with(|f| f.set(true));
                std::panic::panic_any(crate::runner::Injected);
            }
        }
    }
}

/// Key: equality, order and hash only look at `k`; `ver` tells instances apart.
#[derive(Debug)]
pub struct K {
    pub k: u32,
    pub ver: u32,
    tok: Token,
}

impl K {
    pub fn new(k: u32, ver: u32) -> Self {
        Self {
            k,
            ver,
            tok: Token::new((u64::from(k) << 32) | u64::from(ver)),
        }
    }
    #[inline]
    pub fn check(&self) {
        self.tok.check();
    }
}
impl PartialEq for K {
    fn eq(&self, o: &Self) -> bool {
        user(Site::KeyEq);
        self.check();
        o.check();
        self.k == o.k
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &Self) -> Ordering {
        user(Site::KeyCmp);
        self.check();
        o.check();
        self.k.cmp(&o.k)
    }
}
impl Hash for K {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.check();
        s.write_u32(self.k);
    }
}
impl Clone for K {
    fn clone(&self) -> Self {
        user(Site::KeyClone);
        self.check();
        K::new(self.k, self.ver)
    }
}
impl Borrow<u32> for K {
    fn borrow(&self) -> &u32 {
        self.check();
        &self.k
    }
}
impl Drop for K {
    fn drop(&mut self) {
        user(Site::KeyDrop);
    }
}

/// Value.
#[derive(Debug)]
pub struct V {
    v: u64,
    inv: u64,
    tok: Token,
}
impl V {
    pub fn new(v: u64) -> Self {
        Self {
            v,
            inv: !v,
            tok: Token::new(v),
        }
    }
    #[inline]
    pub fn get(&self) -> u64 {
        self.tok.check();
        let v = unsafe { std::ptr::read_volatile(&raw const self.v) };
        let inv = unsafe { std::ptr::read_volatile(&raw const self.inv) };
        if v != !inv {
            crate::track::set_err(format!("torn value {v:#x}/{inv:#x}"));
        }
        v
    }
    /// Updates the value in two steps so that a concurrent reader would observe a torn value.
    #[inline]
    pub fn set(&mut self, v: u64) {
        self.tok.check();
        self.tok.wrote();
        self.v = v;
        user(Site::Closure);
        self.inv = !v;
    }
    /// Updates the value without calling user hooks.
    pub fn set_quiet(&mut self, v: u64) {
        self.tok.check();
        self.tok.wrote();
        self.v = v;
        self.inv = !v;
    }
}
impl Default for V {
    fn default() -> Self {
        V::new(DEFAULT_V)
    }
}
pub const DEFAULT_V: u64 = 999_999;
impl PartialEq for V {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl Eq for V {}
impl Clone for V {
    fn clone(&self) -> Self {
        user(Site::ValClone);
        V::new(self.get())
    }
}
impl Drop for V {
    fn drop(&mut self) {
        user(Site::ValDrop);
    }
}

/// Hasher with selectable (adversarial) distributions.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dist {
    /// Well mixed.
    Mixed,
    /// The key is the hash: all small keys share a bucket, differing in the low byte only.
    Identity,
    /// The key sits in the top bits; the low byte is constant.
    High,
    /// Every key has the same hash.
    Const,
    /// Three distinct hashes.
    Few,
    /// Top bits from a few groups, low byte shared by pairs.
    Groups,
}

pub const DISTS: [Dist; 6] = [
    Dist::Mixed,
    Dist::Groups,
    Dist::High,
    Dist::Identity,
    Dist::Few,
    Dist::Const,
];

#[derive(Clone, Debug)]
pub struct TestHasher(pub Dist);

thread_local! {
    /// Distribution used by `TestHasher::default()`.
    pub static DEFAULT_DIST: Cell<Dist> = const { Cell::new(Dist::Mixed) };
}

impl Default for TestHasher {
    fn default() -> Self {
        Self(DEFAULT_DIST.with(Cell::get))
    }
}
impl BuildHasher for TestHasher {
    type Hasher = H64;
    fn build_hasher(&self) -> H64 {
        H64(self.0, 0)
    }
}
pub struct H64(Dist, u64);
impl Hasher for H64 {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.1 = (self.1 << 8) ^ (self.1 >> 56) ^ u64::from(*x);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.1 = u64::from(x);
    }
    fn finish(&self) -> u64 {
        let k = self.1;
        match self.0 {
            Dist::Mixed => crate::r#gen::mix(k, 77),
            Dist::Identity => k,
            Dist::High => k.wrapping_shl(57).rotate_left(64 - 1) ^ (k >> 7).wrapping_shl(40),
            Dist::Const => 0x0123_4567_89AB_CDEF,
            Dist::Few => crate::r#gen::mix(k % 3, 5),
            Dist::Groups => ((k % 4) << 62) | ((k / 4 % 64) << 50) | (k / 2 & 0xff),
        }
    }
}
