//! Tracked values: every instance has a ledger entry; double drops, uses after drop and leaks
//! are observable.
use std::sync::Mutex;
use std::sync::atomic::{AtomicU8, AtomicU64, AtomicUsize, Ordering::SeqCst};

const N: usize = 1 << 17;
const UNUSED: u8 = 0;
const ALIVE: u8 = 1;
const DROPPED: u8 = 2;

static STATE: [AtomicU8; N] = [const { AtomicU8::new(UNUSED) }; N];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static EPOCH: AtomicU64 = AtomicU64::new(1);
static ALIVE_COUNT: AtomicUsize = AtomicUsize::new(0);
static ERR: Mutex<Option<String>> = Mutex::new(None);

static ACCESS: std::sync::atomic::AtomicPtr<()> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// Installs a function that is told of every access to an instance: its identifier, and whether
/// the access is a write (creation, modification, drop).
pub fn set_access_hook(f: fn(u32, usize, bool)) {
    ACCESS.store(f as *mut (), SeqCst);
}

#[inline]
fn access(id: u32, addr: usize, write: bool) {
    let h = ACCESS.load(std::sync::atomic::Ordering::Relaxed);
    if !h.is_null() {
        let f: fn(u32, usize, bool) = unsafe { std::mem::transmute(h) };
        f(id, addr, write);
    }
}

const MAGIC: u64 = 0x5CC_A11F_E5CC_A11F;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;

/// Starts a new case: earlier instances are no longer accounted for.
pub fn reset() {
    EPOCH.fetch_add(1, SeqCst);
    let n = NEXT.swap(0, SeqCst).min(N);
    for s in &STATE[..n] {
        s.store(UNUSED, SeqCst);
    }
    ALIVE_COUNT.store(0, SeqCst);
    *ERR.lock().unwrap() = None;
}

pub fn set_err(msg: String) {
    let mut e = ERR.lock().unwrap();
    if e.is_none() {
        *e = Some(msg);
    }
}

/// First recorded ledger error, if any.
pub fn err() -> Option<String> {
    ERR.lock().unwrap().clone()
}

/// Number of live instances created since the last reset.
pub fn alive() -> usize {
    ALIVE_COUNT.load(SeqCst)
}

/// Number of instances created since the last reset.
pub fn created() -> usize {
    NEXT.load(SeqCst)
}

/// Ledger token embedded in tracked types.
#[derive(Debug)]
#[repr(C)]
pub struct Token {
    magic: u64,
    epoch: u64,
    id: u32,
    /// Redundant copy of the payload tag used to detect torn or recycled memory.
    pub tag: u64,
    inv: u64,
}

impl Token {
    pub fn new(tag: u64) -> Self {
        let id = NEXT.fetch_add(1, SeqCst);
        assert!(id < N, "ledger overflow");
        STATE[id].store(ALIVE, SeqCst);
        ALIVE_COUNT.fetch_add(1, SeqCst);
        access(id as u32, 0, true);
        Self {
            magic: MAGIC,
            epoch: EPOCH.load(SeqCst),
            id: id as u32,
            tag,
            inv: !tag,
        }
    }
    pub fn id(&self) -> u32 {
        self.id
    }
    /// Checks that the instance is alive and intact.
    #[inline]
    pub fn check(&self) {
        // Volatile reads: the memory may be freed if the code under test is broken.
        let magic = unsafe { std::ptr::read_volatile(&raw const self.magic) };
        let tag = unsafe { std::ptr::read_volatile(&raw const self.tag) };
        let inv = unsafe { std::ptr::read_volatile(&raw const self.inv) };
        if magic != MAGIC || inv != !tag {
            set_err(if magic == DEAD {
                format!("access to a dropped instance (tag {tag})")
            } else {
                format!("access to memory that does not hold a valid instance (magic {magic:#x})")
            });
            return;
        }
        let id = self.id as usize;
        if self.epoch == EPOCH.load(SeqCst) && STATE[id].load(SeqCst) != ALIVE {
            set_err(format!("access to a bitwise copy of a dropped instance (tag {tag})"));
        }
        access(self.id, std::ptr::from_ref(self).addr(), false);
    }
    /// To be called by whoever writes to the instance.
    #[inline]
    pub fn wrote(&self) {
        access(self.id, std::ptr::from_ref(self).addr(), true);
    }
}

/// Finds the instances in a piece of initialised memory.
pub fn decode(addr: usize, len: usize, f: &mut dyn FnMut(u32, usize)) {
    let w = size_of::<u64>();
    let (mut a, end) = (addr.next_multiple_of(w), addr + len);
    while a + size_of::<Token>() <= end {
        let t = std::ptr::with_exposed_provenance::<Token>(a);
        // Padding may be uninitialised: only compared.
        if unsafe { std::ptr::read_volatile(&raw const (*t).magic) } == MAGIC && unsafe { (*t).epoch } == EPOCH.load(SeqCst) {
            f(unsafe { (*t).id }, a);
            a += size_of::<Token>();
        } else {
            a += w;
        }
    }
}

impl Clone for Token {
    fn clone(&self) -> Self {
        self.check();
        Token::new(self.tag)
    }
}

impl Drop for Token {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            set_err(if self.magic == DEAD {
                format!("double drop of an instance (tag {})", self.tag)
            } else {
                format!("drop of memory that does not hold an instance (magic {:#x})", self.magic)
            });
            return;
        }
        unsafe {
            std::ptr::write_volatile(&raw mut self.magic, DEAD);
        }
        if self.epoch != EPOCH.load(SeqCst) {
            return;
        }
        let id = self.id as usize;
        if STATE[id].swap(DROPPED, SeqCst) != ALIVE {
            set_err(format!("instance dropped twice (tag {})", self.tag));
            return;
        }
        ALIVE_COUNT.fetch_sub(1, SeqCst);
        if DROPS.load(SeqCst) {
            access(self.id, std::ptr::from_ref(self).addr(), true);
        }
    }
}

static DROPS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Whether the access hook is told of drops.
pub fn report_drops(yes: bool) {
    DROPS.store(yes, SeqCst);
}


/// Tags of the instances that are still alive (for messages).
pub fn alive_ids(max: usize) -> Vec<usize> {
    let n = NEXT.load(SeqCst).min(N);
    (0..n)
        .filter(|i| STATE[*i].load(SeqCst) == ALIVE)
        .take(max)
        .collect()
}
