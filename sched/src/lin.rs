//! Per-key linearizability: Wing–Gong search against a single-register-with-presence model.
use std::collections::{BTreeMap, HashSet};
use vcore::{Res, fail};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// Inserts if absent.
    Insert(u64),
    /// Inserts or overwrites, returns the previous value.
    Upsert(u64),
    /// Overwrites if present, returns the previous value.
    Update(u64),
    Read,
    Contains,
    Remove,
    /// Like `Remove`, but only tells whether it removed.
    RemoveQ,
    /// Removes if the value is odd.
    RemoveOdd,
    RemoveOddQ,
    /// Inserts if absent; returns the value that is in the entry.
    OrInsert(u64),
    /// Overwrites by old value + 2^32 if present.
    Add,
    /// Removes whatever is there.
    Wipe,
    /// Removes if the value is this one.
    RemoveIs(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ret {
    Bool(bool),
    Val(Option<u64>),
    /// Cancelled: the operation may or may not have taken effect.
    Unknown,
}

pub const STEP: u64 = 1 << 32;

pub fn apply(op: Op, s: Option<u64>) -> (Ret, Option<u64>) {
    match op {
        Op::Insert(v) => match s {
            None => (Ret::Bool(true), Some(v)),
            x => (Ret::Bool(false), x),
        },
        Op::Upsert(v) => (Ret::Val(s), Some(v)),
        Op::Update(v) => (Ret::Val(s), s.map(|_| v)),
        Op::Read => (Ret::Val(s), s),
        Op::Contains => (Ret::Bool(s.is_some()), s),
        Op::Remove => (Ret::Val(s), None),
        Op::RemoveQ => (Ret::Bool(s.is_some()), None),
        Op::RemoveOdd => match s {
            Some(v) if v & 1 == 1 => (Ret::Val(s), None),
            x => (Ret::Val(None), x),
        },
        Op::RemoveOddQ => match s {
            Some(v) if v & 1 == 1 => (Ret::Bool(true), None),
            x => (Ret::Bool(false), x),
        },
        Op::OrInsert(v) => (Ret::Val(Some(s.unwrap_or(v))), Some(s.unwrap_or(v))),
        Op::Add => (Ret::Val(s), s.map(|v| v + STEP)),
        Op::Wipe => (Ret::Bool(true), None),
        Op::RemoveIs(x) => (Ret::Bool(s == Some(x)), if s == Some(x) { None } else { s }),
    }
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub key: u32,
    pub op: Op,
    pub ret: Ret,
    pub start: u64,
    pub end: u64,
    pub tid: usize,
    pub name: String,
    /// The operation was preempted while it ran.
    pub broken: bool,
    /// The operation does not lock anything.
    pub lock_free: bool,
}

fn search(evs: &[Ev], done: u64, s: Option<u64>, fin: Option<Option<u64>>, memo: &mut HashSet<(u64, Option<u64>)>) -> bool {
    let all = (1_u64 << evs.len()) - 1;
    let pending = all & !done;
    let must = (0..evs.len()).any(|i| pending & (1 << i) != 0 && evs[i].ret != Ret::Unknown);
    if !must && fin.is_none_or(|f| f == s) {
        return true;
    }
    if !memo.insert((done, s)) {
        return false;
    }
    let min_end = (0..evs.len())
        .filter(|i| pending & (1 << i) != 0 && evs[*i].ret != Ret::Unknown)
        .map(|i| evs[i].end)
        .min()
        .unwrap_or(u64::MAX);
    for i in 0..evs.len() {
        if pending & (1 << i) == 0 || evs[i].start > min_end {
            continue;
        }
        let (r, n) = apply(evs[i].op, s);
        if evs[i].ret != Ret::Unknown && r != evs[i].ret {
            continue;
        }
        // A cancelled operation cannot take effect after it was dropped.
        if evs[i].ret == Ret::Unknown
            && (0..evs.len()).any(|j| done & (1 << j) != 0 && evs[j].start > evs[i].end)
        {
            continue;
        }
        if search(evs, done | (1 << i), n, fin, memo) {
            return true;
        }
    }
    false
}

/// A lock-free read that found nothing although it was preempted in the middle while another
/// thread replaced the entry (known finding of L02): taken as if it had not been observed.
fn peek_miss(e: &Ev, evs: &[Ev]) -> bool {
    e.broken
        && e.lock_free
        && matches!(e.ret, Ret::Val(None) | Ret::Bool(false))
        && evs.iter().any(|o| {
            o.tid != e.tid
                && o.key == e.key
                && matches!(o.op, Op::Upsert(_) | Op::Update(_) | Op::Add)
                && o.start < e.end
                && e.start < o.end
        })
}

/// `init`: the state before; `fin`: the state observed afterwards.
pub fn check(evs: Vec<Ev>, init: &BTreeMap<u32, u64>, fin: &BTreeMap<u32, u64>) -> Res {
    let mut by: BTreeMap<u32, Vec<Ev>> = BTreeMap::new();
    for k in init.keys().chain(fin.keys()) {
        by.entry(*k).or_default();
    }
    for e in evs {
        by.entry(e.key).or_default().push(e);
    }
    for (k, mut v) in by {
        v.sort_by_key(|e| e.start);
        assert!(v.len() < 60);
        let i = init.get(&k).copied();
        let f = fin.get(&k).copied();
        let mut memo = HashSet::new();
        if !search(&v, 0, i, Some(f), &mut memo) {
            let h: Vec<String> = v
                .iter()
                .map(|e| format!("T{}[{}..{}] {} -> {:?}", e.tid, e.start, e.end, e.name, e.ret))
                .collect();
            let rest: Vec<Ev> = v.iter().filter(|e| !peek_miss(e, &v)).cloned().collect();
            if rest.len() != v.len() {
                memo.clear();
                if search(&rest, 0, i, Some(f), &mut memo) {
                    fail!("peek-miss-during-update", "a preempted lock-free read missed key {k} while it was being updated: initially {i:?}; {}; finally {f:?}", h.join("; "));
                }
            }
            fail!("lin", "no linearization for key {k}: initially {i:?}; {}; finally {f:?}", h.join("; "));
        }
    }
    Ok(())
}
