//! Stand-in for `loom`, patched in by the `sched` harness.
//!
//! The atomics are the real ones, wrapped so that every operation is a scheduling point of
//! [`rt`]: threads that belong to a running case execute one at a time, and which one executes is
//! a generated, replayable choice.  Outside of a case the wrappers are transparent.
pub mod rt;

pub mod hint {
    #[track_caller]
    pub fn spin_loop() {
        if !crate::rt::spin() {
            std::hint::spin_loop();
        }
    }
}

pub mod thread {
    pub use crate::rt::{Thread, current, park};

    pub fn yield_now() {
        if !crate::rt::spin() {
            std::thread::yield_now();
        }
    }
}

pub mod sync {
    pub mod atomic {
        pub use std::sync::atomic::Ordering;
        use crate::rt::{hb_fence, hb_load, hb_rmw, hb_store, point, spurious};

        #[inline]
        pub fn fence(o: Ordering) {
            point();
            std::sync::atomic::fence(o);
            hb_fence(o);
        }

        macro_rules! common {
            ($n:ident, $t:ty) => {
                #[inline]
                pub fn load(&self, o: Ordering) -> $t {
                    point();
                    hb_load(std::ptr::from_ref(self).addr(), o);
                    self.0.load(o)
                }
                common!(@ $n, $t);
            };
            (@ $n:ident, $t:ty) => {
                #[inline]
                pub fn store(&self, v: $t, o: Ordering) {
                    point();
                    self.0.store(v, o);
                    hb_store(std::ptr::from_ref(self).addr(), o);
                    point();
                }
                #[inline]
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    point();
                    let r = self.0.swap(v, o);
                    hb_rmw(std::ptr::from_ref(self).addr(), o);
                    point();
                    r
                }
                #[inline]
                pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    point();
                    let r = self.0.compare_exchange(c, n, s, f);
                    if r.is_ok() {
                        hb_rmw(std::ptr::from_ref(self).addr(), s);
                    } else {
                        hb_load(std::ptr::from_ref(self).addr(), f);
                    }
                    point();
                    r
                }
                #[inline]
                pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    point();
                    if spurious() {
                        hb_load(std::ptr::from_ref(self).addr(), f);
                        return Err(self.0.load(f));
                    }
                    let r = self.0.compare_exchange(c, n, s, f);
                    if r.is_ok() {
                        hb_rmw(std::ptr::from_ref(self).addr(), s);
                    } else {
                        hb_load(std::ptr::from_ref(self).addr(), f);
                    }
                    point();
                    r
                }
                #[inline]
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                    let mut prev = self.load(f);
                    while let Some(next) = g(prev) {
                        match self.compare_exchange_weak(prev, next, s, f) {
                            x @ Ok(_) => return x,
                            Err(p) => prev = p,
                        }
                    }
                    Err(prev)
                }
                #[inline]
                pub fn with_mut<R>(&mut self, f: impl FnOnce(&mut $t) -> R) -> R {
                    f(self.0.get_mut())
                }
                #[inline]
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                #[inline]
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                /// # Safety
                /// No concurrent accesses.
                #[inline]
                pub unsafe fn unsync_load(&self) -> $t {
                    self.0.load(Ordering::Relaxed)
                }
            };
        }

        macro_rules! int {
            ($n:ident, $t:ty) => {
                #[derive(Default)]
                #[repr(transparent)]
                pub struct $n(std::sync::atomic::$n);
                impl $n {
                    #[inline]
                    pub const fn new(v: $t) -> Self {
                        Self(std::sync::atomic::$n::new(v))
                    }
                    common!($n, $t);
                    int!(@rmw $t, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min);
                }
                impl std::fmt::Debug for $n {
                    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                        self.0.fmt(f)
                    }
                }
            };
            (@rmw $t:ty, $($m:ident),*) => {
                $(
                    #[inline]
                    pub fn $m(&self, v: $t, o: Ordering) -> $t {
                        point();
                        let r = self.0.$m(v, o);
                        hb_rmw(std::ptr::from_ref(self).addr(), o);
                        point();
                        r
                    }
                )*
            };
        }
        int!(AtomicUsize, usize);
        int!(AtomicU64, u64);
        int!(AtomicU32, u32);
        int!(AtomicU16, u16);
        int!(AtomicU8, u8);

        #[derive(Default)]
        #[repr(transparent)]
        pub struct AtomicBool(std::sync::atomic::AtomicBool);
        impl AtomicBool {
            #[inline]
            pub const fn new(v: bool) -> Self {
                Self(std::sync::atomic::AtomicBool::new(v))
            }
            common!(AtomicBool, bool);
            #[inline]
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
                point();
                hb_rmw(std::ptr::from_ref(self).addr(), o);
                self.0.fetch_or(v, o)
            }
            #[inline]
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
                point();
                hb_rmw(std::ptr::from_ref(self).addr(), o);
                self.0.fetch_and(v, o)
            }
        }
        impl std::fmt::Debug for AtomicBool {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.0.fmt(f)
            }
        }

        #[repr(transparent)]
        pub struct AtomicPtr<T>(std::sync::atomic::AtomicPtr<T>);
        impl<T> AtomicPtr<T> {
            #[inline]
            pub const fn new(v: *mut T) -> Self {
                Self(std::sync::atomic::AtomicPtr::new(v))
            }
            common!(@ AtomicPtr, *mut T);
            #[inline]
            pub fn load(&self, o: Ordering) -> *mut T {
                point();
                let r = self.0.load(o);
                hb_load(std::ptr::from_ref(self).addr(), o);
                crate::rt::note_ptr(r.addr());
                r
            }
        }
        impl<T> Default for AtomicPtr<T> {
            fn default() -> Self {
                Self::new(std::ptr::null_mut())
            }
        }
        impl<T> std::fmt::Debug for AtomicPtr<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.0.fmt(f)
            }
        }
    }
}
