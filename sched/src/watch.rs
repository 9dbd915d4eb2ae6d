//! X01: who holds a view of which entry.
use std::collections::HashMap;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

static ON: AtomicBool = AtomicBool::new(false);
static MAP: Mutex<Option<HashMap<u32, (i32, i32)>>> = Mutex::new(None);
static HELD: AtomicU64 = AtomicU64::new(0);

/// Starts watching (or stops, with `false`).
pub fn start(on: bool) {
    ON.store(on, Relaxed);
    HELD.store(0, Relaxed);
    *MAP.lock().unwrap() = Some(HashMap::new());
}

/// Number of views taken since the start.
pub fn held() -> u64 {
    HELD.load(Relaxed)
}

/// A view of the entry of a key; held while the value is alive.
pub struct Hold(u32, bool, bool);

pub fn hold(k: u32, write: bool) -> Hold {
    if !ON.load(Relaxed) {
        return Hold(k, write, false);
    }
    HELD.fetch_add(1, Relaxed);
    {
        let mut m = MAP.lock().unwrap();
        let e = m.as_mut().unwrap().entry(k).or_default();
        if e.1 > 0 || (write && e.0 > 0) {
            vcore::track::set_err(format!(
                "a {} view of key {k} was handed out while {} shared and {} exclusive views of it were held",
                if write { "n exclusive" } else { " shared" },
                e.0,
                e.1
            ));
        }
        if write {
            e.1 += 1;
        } else {
            e.0 += 1;
        }
    }
    loom::rt::point();
    Hold(k, write, true)
}

impl Drop for Hold {
    fn drop(&mut self) {
        if self.2 {
            loom::rt::point();
            let mut m = MAP.lock().unwrap();
            let e = m.as_mut().unwrap().entry(self.0).or_default();
            if self.1 {
                e.1 -= 1;
            } else {
                e.0 -= 1;
            }
        }
    }
}
