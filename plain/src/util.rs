use scc::Guard;
use vcore::types::*;
use vcore::{Gen, Res, ensure};

#[macro_export]
macro_rules! sa {
    ($a:expr, $s:expr, $as:expr) => {
        if $a {
            match vcore::exec::drive($as) {
                Some(x) => x,
                None => vcore::fail!("stuck", "an uncontended asynchronous call did not complete: {}", stringify!($as)),
            }
        } else {
            $s
        }
    };
}

/// Lookup type that is `Equivalent<K>` without being borrowed from `K`.
#[derive(Debug)]
pub struct Q(pub u32);
impl std::hash::Hash for Q {
    fn hash<H: std::hash::Hasher>(&self, s: &mut H) {
        s.write_u32(self.0);
    }
}
impl scc::Equivalent<K> for Q {
    fn equivalent(&self, key: &K) -> bool {
        user(Site::KeyEq);
        key.check();
        self.0 == key.k
    }
}
impl scc::Comparable<K> for Q {
    fn compare(&self, key: &K) -> std::cmp::Ordering {
        user(Site::KeyCmp);
        key.check();
        self.0.cmp(&key.k)
    }
}

/// Reclaims everything that the current thread retired.
pub fn drain() -> bool {
    for _ in 0..1_000_000 {
        let g = Guard::new();
        if !g.has_garbage() {
            return true;
        }
        g.accelerate();
        drop(g);
    }
    false
}

pub fn ledger() -> Res {
    if let Some(e) = vcore::track::err() {
        vcore::fail!("ledger", "{e}");
    }
    Ok(())
}

/// Everything must be gone after the container is gone and garbage is drained.
pub fn all_dropped() -> Res {
    drain();
    ledger()?;
    let n = vcore::track::alive();
    ensure!(n == 0, "leak", "{n} instances were never dropped (ids {:?})", vcore::track::alive_ids(6));
    Ok(())
}

/// Key domain, hash distribution and initial capacity of a case.
pub struct Shape {
    pub dist: Dist,
    pub keys: u32,
    pub cap: usize,
}

pub fn shape(g: &mut Gen) -> Shape {
    let dist = DISTS[g.weighted(&[40, 20, 15, 10, 8, 7])];
    let keys = match dist {
        Dist::Mixed | Dist::Groups | Dist::High => *g.pick(&[3_u32, 12, 60, 250, 900]),
        _ => *g.pick(&[3_u32, 12, 45, 120]),
    };
    let cap = match g.weighted(&[5, 2, 2, 1]) {
        0 => 0,
        1 => g.range(1, 64),
        2 => g.range(65, 300),
        _ => g.range(300, 3000),
    };
    vcore::types::DEFAULT_DIST.with(|d| d.set(dist));
    Shape { dist, keys, cap }
}
