//! Running a concurrent case under the deterministic scheduler.
use loom::rt::{self, Config, Mode, Outcome, Preempt, SUSPEND};
use std::future::Future;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use vcore::types::Site;
use vcore::{Fail, Gen, Res, vtrace};

pub fn hook(_: Site) {
    rt::point();
}

struct RtWaker {
    t: rt::Thread,
    woken: AtomicBool,
}
impl Wake for RtWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, SeqCst);
        self.t.unpark();
    }
}

/// How an operation is called.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Sync,
    Async,
    /// Dropped when it is still pending after the n-th poll.
    Cancel(u8),
}

/// Number of pending calls whose drop would never have returned, in this case.
static POISONED: AtomicU64 = AtomicU64::new(0);

pub fn poisoned_reset() {
    POISONED.store(0, SeqCst);
}

/// Fails with the signature of the known finding; to be called when everything else was fine.
pub fn poisoned_check() -> Res {
    let n = POISONED.swap(0, SeqCst);
    vcore::ensure!(n == 0, "drop-of-poisoned-waiter", "the drop of {n} pending calls spins forever on the lock of a bucket that was killed while the call waited for it");
    Ok(())
}

/// Polls to completion, parking the thread of the case in between; `None`: cancelled.
pub fn block_on<F: Future>(how: How, f: F) -> Option<F::Output> {
    // A pending call whose bucket was killed refers to the bucket when it is dropped, also if the
    // table is gone by then (see `drop-of-poisoned-waiter` in known_findings.jsonl).
    let _guard = if matches!(how, How::Cancel(_)) { Some(sdd::Guard::new()) } else { None };
    let f = Box::into_raw(Box::new(f));
    let free = move || drop(unsafe { Box::from_raw(f.cast::<std::mem::ManuallyDrop<F>>()) });
    let mut polls = 0;
    let mut slot: Option<Arc<RtWaker>> = None;
    loop {
        // A fresh waker every second poll: the task may move between executors.
        if polls % 2 == 0 || slot.is_none() {
            slot = Some(Arc::new(RtWaker { t: rt::current(), woken: AtomicBool::new(false) }));
        }
        let w = slot.as_ref().unwrap().clone();
        w.woken.store(false, SeqCst);
        let waker = Waker::from(w.clone());
        let mut cx = Context::from_waker(&waker);
        match unsafe { Pin::new_unchecked(&mut *f) }.poll(&mut cx) {
            Poll::Ready(r) => {
                unsafe { f.drop_in_place() };
                free();
                return Some(r);
            }
            Poll::Pending => {
                polls += 1;
                if let How::Cancel(n) = how
                    && polls >= u32::from(n)
                {
                    rt::point();
                    if let Err(p) = catch_unwind(AssertUnwindSafe(|| rt::dropping(|| unsafe { f.drop_in_place() }))) {
                        if p.is::<rt::PoisonedDrop>() {
                            // The killer may not have finished with the entry of the wait queue:
                            // the memory is not freed.
                            vcore::runner::take_panic();
                            POISONED.fetch_add(1, SeqCst);
                        } else {
                            resume_unwind(p);
                        }
                    } else {
                        free();
                    }
                    return None;
                }
                while !w.woken.load(SeqCst) {
                    rt::park();
                }
            }
        }
    }
}

/// `Some(result)`, or `None` if the call was cancelled.
#[macro_export]
macro_rules! call {
    ($how:expr, $s:expr, $a:expr) => {
        match $how {
            $crate::fw::How::Sync => Some($s),
            h => $crate::fw::block_on(h, $a),
        }
    };
}

#[derive(Clone, Copy, Default)]
pub struct SchedOpts {
    /// Allow suspending a thread in the middle of an operation.
    pub suspend: bool,
    /// Only planned schedules.
    pub plan_only: bool,
    /// Keep vector clocks.
    pub race: bool,
}

pub fn gen_sched(g: &mut Gen, ops: &[usize], o: SchedOpts) -> Config {
    let n = ops.len() as u64;
    let mut order: Vec<u8> = (0..n as u8).collect();
    for i in (1..order.len()).rev() {
        let j = i - g.below(i as u64 + 1) as usize;
        order.swap(i, j);
    }
    let spurious = if g.chance(1, 10) { *g.pick(&[2_u32, 5, 20]) } else { 0 };
    let mode = if !o.plan_only && g.chance(3, 10) {
        let period = *g.pick(&[3_u32, 8, 25, 80, 250, 1000]);
        Mode::Random { seed: g.below(1 << 32), period }
    } else {
        let k = g.weighted(&[1, 3, 5, 5, 3, 2, 1]);
        let mut v = Vec::new();
        for _ in 0..k {
            let thread = g.below(n) as u8;
            let op = g.below(ops[thread as usize].max(1) as u64) as u16;
            let step = 1 + g.log_uniform(3000) as u32;
            let target = if o.suspend && g.chance(1, 3) {
                SUSPEND
            } else {
                g.below(n) as u8
            };
            v.push(Preempt { thread, op, step, target });
        }
        Mode::Plan(v)
    };
    Config { mode, order, spurious, budget: 3_000_000, race: o.race }
}

pub fn trace_sched(c: &Config) {
    match &c.mode {
        Mode::Plan(p) => {
            vtrace!("schedule: start T{}, order {:?}, spurious 1/{}", c.order.first().copied().unwrap_or(0), c.order, c.spurious);
            for x in p {
                if x.target == SUSPEND {
                    vtrace!("  preempt T{} in op {} at point {}: suspend", x.thread, x.op, x.step);
                } else {
                    vtrace!("  preempt T{} in op {} at point {} -> T{}", x.thread, x.op, x.step, x.target);
                }
            }
        }
        Mode::Random { seed, period } => {
            vtrace!("schedule: random walk seed {seed}, mean period {period}, order {:?}", c.order);
        }
    }
}

/// First failure reported by a thread of the case.
#[derive(Clone, Default)]
pub struct ErrSlot(Arc<Mutex<Option<Fail>>>);
impl ErrSlot {
    pub fn put(&self, f: Fail) {
        let mut e = self.0.lock().unwrap();
        if e.is_none() {
            *e = Some(f);
        }
    }
    pub fn res(&self, r: Res) {
        if let Err(f) = r {
            self.put(f);
        }
    }
    pub fn take(&self) -> Res {
        match self.0.lock().unwrap().take() {
            Some(f) => Err(f),
            None => Ok(()),
        }
    }
}

/// Runs `n` threads; `body(shared, tid)`.
pub fn go<S: Send + Sync + 'static>(
    cfg: Config,
    shared: &Arc<S>,
    n: usize,
    body: impl Fn(&S, usize) + Send + Sync + 'static,
) -> Result<Outcome, Fail> {
    let body = Arc::new(body);
    let err = ErrSlot::default();
    let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..n)
        .map(|t| {
            let (s, b, e) = (shared.clone(), body.clone(), err.clone());
            let f: Box<dyn FnOnce() + Send> = Box::new(move || {
                let r = catch_unwind(AssertUnwindSafe(|| b(&s, t)));
                if let Err(p) = r {
                    let m = vcore::runner::take_panic();
                    e.put(Fail::new("panic", format!("thread {t} panicked: {m}")));
                    resume_unwind(p);
                }
                drop(b);
                drop(s);
            });
            f
        })
        .collect();
    let out = rt::run(cfg, bodies);
    if let Some((sig, msg)) = &out.failed {
        // Threads may still refer to the shared state.
        std::mem::forget(shared.clone());
        err.take()?;
        return Err(Fail::new(sig, msg.clone()));
    }
    Ok(out)
}

/// Drops of retired entries may be pending in collectors of finished threads.
pub fn drain() {
    for _ in 0..4096 {
        if vcore::track::alive() == 0 {
            return;
        }
        let g = sdd::Guard::new();
        g.accelerate();
        drop(g);
    }
}

pub fn ledger() -> Res {
    if let Some(e) = vcore::track::err() {
        vcore::fail!("ledger", "{e}");
    }
    Ok(())
}

pub fn all_dropped() -> Res {
    drain();
    ledger()?;
    let n = vcore::track::alive();
    vcore::ensure!(n == 0, "leak", "{n} instances were never dropped (ids {:?})", vcore::track::alive_ids(6));
    Ok(())
}
