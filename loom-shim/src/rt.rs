//! Deterministic scheduler: the threads of a case run one at a time; switches happen only at
//! scheduling points, as told by a generated plan.
use std::cell::{Cell, UnsafeCell};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicUsize, Ordering, Ordering::*};
use std::sync::{Arc, OnceLock};

const MAIN: usize = usize::MAX;
/// Plan target: suspend the thread until nothing else can run.
pub const SUSPEND: u8 = 255;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Status {
    Runnable,
    Blocked,
    Suspended,
    Done,
}

/// One planned preemption: while thread executes its `op`-th operation, at its `step`-th
/// scheduling point, control goes to `target`.
#[derive(Clone, Copy, Debug)]
pub struct Preempt {
    pub thread: u8,
    pub op: u16,
    pub step: u32,
    pub target: u8,
}

#[derive(Clone, Debug)]
pub enum Mode {
    /// Only the planned preemptions, plus forced switches on blocking, spinning and finishing.
    Plan(Vec<Preempt>),
    /// Switch with probability `1 / period` at every scheduling point.
    Random { seed: u64, period: u32 },
}

#[derive(Clone, Debug)]
pub struct Config {
    pub mode: Mode,
    /// Order in which runnable threads are preferred when a choice is forced.
    pub order: Vec<u8>,
    /// `compare_exchange_weak` fails spuriously with probability `1 / n` (0 = never).
    pub spurious: u32,
    pub budget: u64,
    /// Keep vector clocks and report accesses to user data that are not ordered by them.
    pub race: bool,
}

/// What happened.
#[derive(Debug, Default)]
pub struct Outcome {
    /// Deadlock, step budget exhausted or a panic in a thread.
    pub failed: Option<(String, String)>,
    pub steps: u64,
    pub switches: u64,
    /// Threads that could not make progress while another one was suspended: `(thread, op)`.
    pub stuck_on_suspended: Vec<(usize, u32)>,
    /// Number of threads that were suspended by the plan.
    pub suspended: u32,
    /// Scheduling points per thread.
    pub thread_steps: Vec<u64>,
    /// Forced switches because of a lock / spin (contention).
    pub contended: u64,
    /// The first pair of conflicting accesses to user data that are not ordered.
    pub race: Option<String>,
    /// Accesses to user data by a thread other than the last one to write it.
    pub handed_over: u64,
}

/// Most threads of a case for which clocks are kept.
const THREADS: usize = 8;
type Clock = [u32; THREADS];

fn join(a: &mut Clock, b: &Clock) {
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

#[derive(Clone, Copy, Default)]
struct Shadow {
    /// Thread and time of the last write; none: before the case.
    write: Option<(u8, u32)>,
    reads: Clock,
}

/// Happens-before, as the memory orderings in use establish it.
#[derive(Default)]
struct Hb {
    /// Per thread: what happened before its next action.
    now: [Clock; THREADS],
    /// Per thread: what its relaxed stores publish (as of its last release fence).
    released: [Clock; THREADS],
    /// Per thread: what its relaxed loads have seen (for the next acquire fence).
    seen: [Clock; THREADS],
    /// Per thread: published by those that unparked it.
    unparked: [Clock; THREADS],
    locations: std::collections::HashMap<usize, Clock, std::hash::BuildHasherDefault<AddrHasher>>,
    data: Vec<Shadow>,
    /// By address: the instance moved there last, by which thread and when.
    placed: std::collections::HashMap<usize, (u32, u8, u32), std::hash::BuildHasherDefault<AddrHasher>>,
}

#[derive(Default)]
struct AddrHasher(u64);
impl std::hash::Hasher for AddrHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ u64::from(*x);
        }
    }
    fn write_usize(&mut self, x: usize) {
        self.0 = (x as u64 >> 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31);
    }
}

fn acquires(o: Ordering) -> bool {
    matches!(o, Acquire | AcqRel | SeqCst)
}
fn releases(o: Ordering) -> bool {
    matches!(o, Release | AcqRel | SeqCst)
}

impl Hb {
    fn load(&mut self, t: usize, a: usize, o: Ordering) {
        if let Some(l) = self.locations.get(&a) {
            if acquires(o) {
                join(&mut self.now[t], l);
            } else {
                join(&mut self.seen[t], l);
            }
        }
    }
    fn store(&mut self, t: usize, a: usize, o: Ordering) {
        let c = if releases(o) { self.now[t] } else { self.released[t] };
        self.locations.insert(a, c);
        self.now[t][t] += 1;
    }
    fn rmw(&mut self, t: usize, a: usize, o: Ordering) {
        self.load(t, a, o);
        let c = if releases(o) { self.now[t] } else { self.released[t] };
        // A read-modify-write operation continues the release sequence.
        join(self.locations.entry(a).or_default(), &c);
        self.now[t][t] += 1;
    }
    fn fence(&mut self, t: usize, o: Ordering) {
        if acquires(o) {
            let seen = self.seen[t];
            join(&mut self.now[t], &seen);
        }
        if releases(o) {
            self.released[t] = self.now[t];
            self.now[t][t] += 1;
        }
    }
    /// Returns the conflicting access.
    fn access(&mut self, t: usize, id: usize, addr: usize, write: bool, handed: &mut u64) -> Option<String> {
        if self.data.len() <= id {
            self.data.resize(id + 1, Shadow::default());
        }
        let s = &mut self.data[id];
        let c = &self.now[t];
        let mut r = None;
        if let Some((i, w, at)) = self.placed.get(&addr)
            && *i as usize == id
            && usize::from(*w) != t
        {
            *handed += 1;
            if c[usize::from(*w)] < *at {
                r = Some(format!("thread {t} accesses an instance where thread {w} has put it, without anything having published that to thread {t}"));
            }
        }
        if let Some((w, at)) = s.write {
            let w = usize::from(w);
            if w != t {
                *handed += 1;
                if c[w] < at {
                    r = Some(format!("thread {t} {} an instance that thread {w} wrote, without anything having published it to thread {t}", if write { "writes (modifies, moves or drops)" } else { "reads" }));
                }
            }
        }
        if write {
            for (x, at) in s.reads.iter().enumerate() {
                if x != t && *at != 0 && c[x] < *at {
                    r = Some(format!("thread {t} modifies, moves or drops an instance that thread {x} read, without that access having been completed as far as thread {t} is concerned"));
                }
            }
            s.write = Some((t as u8, c[t]));
            s.reads = Clock::default();
        } else {
            s.reads[t] = c[t];
        }
        r
    }
    fn place(&mut self, t: usize, id: u32, addr: usize) {
        self.placed.insert(addr, (id, t as u8, self.now[t][t]));
    }
}

#[inline]
fn hb(f: impl FnOnce(&mut Hb, usize)) {
    let p = CUR.try_with(Cell::get).unwrap_or(std::ptr::null());
    if !p.is_null() {
        let c = unsafe { &*p };
        if c.race {
            let i = unsafe { &mut *c.case.inner.get() };
            if let Some(h) = i.hb.as_mut() {
                f(h, c.tid);
            }
        }
    }
}

#[inline]
pub fn hb_load(a: usize, o: Ordering) {
    hb(|h, t| h.load(t, a, o));
}
#[inline]
pub fn hb_store(a: usize, o: Ordering) {
    hb(|h, t| h.store(t, a, o));
}
#[inline]
pub fn hb_rmw(a: usize, o: Ordering) {
    hb(|h, t| h.rmw(t, a, o));
}
#[inline]
pub fn hb_fence(o: Ordering) {
    hb(|h, t| h.fence(t, o));
}

static DECODER: std::sync::atomic::AtomicPtr<()> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// Installs a function that finds the instances of user data in a piece of memory.
pub fn set_decoder(f: fn(usize, usize, &mut dyn FnMut(u32, usize))) {
    DECODER.store(f as *mut (), SeqCst);
}

/// Called by the code under test (`cfg(scc_verif)`) after it has moved user data into a slot.
pub fn slot_written(addr: usize, len: usize) {
    let p = CUR.try_with(Cell::get).unwrap_or(std::ptr::null());
    if !p.is_null() && unsafe { &*p }.race {
        let d = DECODER.load(Relaxed);
        if !d.is_null() {
            let d: fn(usize, usize, &mut dyn FnMut(u32, usize)) = unsafe { std::mem::transmute(d) };
            d(addr, len, &mut |id, at| hb(|h, t| h.place(t, id, at)));
        }
    }
}

/// Reports an access to the instance of user data with the given identifier.
#[inline]
pub fn data_access(id: u32, addr: usize, write: bool) {
    let p = CUR.try_with(Cell::get).unwrap_or(std::ptr::null());
    if !p.is_null() {
        let c = unsafe { &*p };
        if c.race {
            let i = unsafe { &mut *c.case.inner.get() };
            let Inner { hb, out, .. } = i;
            if let Some(h) = hb.as_mut()
                && let Some(e) = h.access(c.tid, id as usize, addr, write, &mut out.handed_over)
                && out.race.is_none()
            {
                out.race = Some(format!("{e} (at point {} of operation {})", c.step.get(), c.op.get()));
            }
        }
    }
}

struct Inner {
    status: Vec<Status>,
    token: Vec<bool>,
    rng: u64,
    random: bool,
    period: u32,
    countdown: u32,
    plan: Vec<Vec<(u16, u32, u8)>>,
    order: Vec<usize>,
    spurious: u32,
    budget: u64,
    since_switch: u32,
    steps: u64,
    /// Spins of each thread within its current operation.
    spins: Vec<u32>,
    out: Outcome,
    ops: Vec<u32>,
    hb: Option<Box<Hb>>,
}

pub struct Case {
    turn: AtomicUsize,
    inner: UnsafeCell<Inner>,
    handles: Vec<OnceLock<std::thread::Thread>>,
    main: std::thread::Thread,
    release: AtomicUsize,
}
unsafe impl Send for Case {}
unsafe impl Sync for Case {}

struct Ctl {
    case: Arc<Case>,
    tid: usize,
    op: Cell<u16>,
    step: Cell<u32>,
    trigger: Cell<u32>,
    plan_pos: Cell<usize>,
    quiet: Cell<u32>,
    total: Cell<u64>,
    /// What the last `AtomicPtr::load` returned.
    last_ptr: Cell<usize>,
    /// The thread is dropping a pending future.
    dropping: Cell<bool>,
    race: bool,
}

thread_local! {
    static CUR: Cell<*const Ctl> = const { Cell::new(std::ptr::null()) };
}

#[inline]
fn cur<'a>() -> Option<&'a Ctl> {
    let p = CUR.try_with(Cell::get).unwrap_or(std::ptr::null());
    if p.is_null() { None } else { Some(unsafe { &*p }) }
}

fn next_rng(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// `true` if the caller belongs to a running case.
pub fn active() -> bool {
    cur().is_some()
}

/// Identifier of the thread in the running case.
pub fn tid() -> Option<usize> {
    cur().map(|c| c.tid)
}

/// Logical time.
pub fn now() -> u64 {
    cur().map_or(0, |c| {
        let i = unsafe { &mut *c.case.inner.get() };
        i.steps += 1;
        i.steps
    })
}

/// Number of context switches so far.
pub fn switches() -> u64 {
    cur().map_or(0, |c| unsafe { &*c.case.inner.get() }.out.switches)
}

/// Whether a thread is suspended at this time.
pub fn any_suspended() -> bool {
    cur().is_some_and(|c| unsafe { &*c.case.inner.get() }.status.contains(&Status::Suspended))
}

/// Marks the beginning of the thread's `op`-th operation.
pub fn op_begin(op: usize) {
    if let Some(c) = cur() {
        let i = unsafe { &mut *c.case.inner.get() };
        c.op.set(op as u16);
        c.step.set(0);
        i.ops[c.tid] = op as u32;
        i.spins[c.tid] = 0;
        set_trigger(c, i);
        point();
    }
}

fn set_trigger(c: &Ctl, i: &Inner) {
    let plan = &i.plan[c.tid];
    let mut p = c.plan_pos.get();
    while p < plan.len() && (plan[p].0, plan[p].1) < (c.op.get(), c.step.get() + 1) {
        p += 1;
    }
    c.plan_pos.set(p);
    c.trigger.set(match plan.get(p) {
        Some(x) if x.0 == c.op.get() => x.1,
        _ => u32::MAX,
    });
}

/// Runs `f` without any scheduling points.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    if let Some(c) = cur() {
        c.quiet.set(c.quiet.get() + 1);
        let r = f();
        c.quiet.set(c.quiet.get() - 1);
        r
    } else {
        f()
    }
}

/// A scheduling point.
#[inline]
pub fn point() {
    let p = CUR.try_with(Cell::get).unwrap_or(std::ptr::null());
    if !p.is_null() {
        point_slow(unsafe { &*p });
    }
}

fn point_slow(c: &Ctl) {
    if c.quiet.get() != 0 {
        return;
    }
    let i = unsafe { &mut *c.case.inner.get() };
    i.steps += 1;
    c.total.set(c.total.get() + 1);
    let step = c.step.get() + 1;
    c.step.set(step);
    if i.steps > i.budget {
        fail(c, i, "no-progress", format!("the step budget of {} is exhausted", i.budget));
    }
    i.since_switch += 1;
    if i.random {
        if i.countdown > 0 {
            i.countdown -= 1;
        } else {
            i.countdown = sample(&mut i.rng, i.period);
            if let Some(t) = random_other(i, c.tid) {
                switch(c, i, t);
                return;
            }
        }
    } else if step == c.trigger.get() {
        let t = i.plan[c.tid][c.plan_pos.get()].2;
        c.plan_pos.set(c.plan_pos.get() + 1);
        set_trigger(c, i);
        if t == SUSPEND {
            i.out.suspended += 1;
            i.status[c.tid] = Status::Suspended;
            leave(c, i);
            return;
        }
        let t = t as usize;
        if t != c.tid && t < i.status.len() && i.status[t] == Status::Runnable {
            switch(c, i, t);
            return;
        }
    }
    if i.since_switch > 40_000 {
        // Fairness.
        i.since_switch = 0;
        if let Some(t) = next_other(i, c.tid) {
            switch(c, i, t);
        }
    }
}

fn sample(rng: &mut u64, period: u32) -> u32 {
    // Roughly geometric: uniform in [0, 2 * period).
    if period <= 1 {
        0
    } else {
        (next_rng(rng) % u64::from(2 * period)) as u32
    }
}

fn random_other(i: &mut Inner, me: usize) -> Option<usize> {
    let n = i.status.len();
    let k = (next_rng(&mut i.rng) % n as u64) as usize;
    (0..n)
        .map(|d| (k + d) % n)
        .find(|t| *t != me && i.status[*t] == Status::Runnable)
}

/// Round robin.
fn next_other(i: &Inner, me: usize) -> Option<usize> {
    let n = i.status.len();
    (1..n)
        .map(|d| (me + d) % n)
        .find(|t| i.status[*t] == Status::Runnable)
}

fn pick_next(i: &mut Inner, me: usize) -> Option<usize> {
    if i.random {
        random_other(i, me)
    } else {
        i.order
            .iter()
            .copied()
            .find(|t| *t != me && i.status[*t] == Status::Runnable)
    }
}

fn switch(c: &Ctl, i: &mut Inner, to: usize) {
    i.out.switches += 1;
    i.since_switch = 0;
    c.case.turn.store(to, Release);
    if let Some(h) = c.case.handles[to].get() {
        h.unpark();
    }
    wait_turn(c);
}

fn wait_turn(c: &Ctl) {
    for _ in 0..60 {
        if c.case.turn.load(Acquire) == c.tid {
            return;
        }
        std::hint::spin_loop();
    }
    while c.case.turn.load(Acquire) != c.tid {
        std::thread::park();
    }
}

/// The current thread cannot continue; gives control to another one and returns once it can.
fn leave(c: &Ctl, i: &mut Inner) {
    if let Some(t) = pick_next(i, c.tid) {
        switch(c, i, t);
        return;
    }
    // Nothing else is runnable: resume a suspended thread.
    if let Some(t) = i.status.iter().position(|s| *s == Status::Suspended) {
        note_stuck(i);
        i.status[t] = Status::Runnable;
        if t != c.tid {
            switch(c, i, t);
        }
        return;
    }
    let who: Vec<String> = (0..i.status.len())
        .map(|t| format!("T{t}:{:?}(op {})", i.status[t], i.ops[t]))
        .collect();
    fail(c, i, "deadlock", format!("deadlock: {}", who.join(" ")));
}

/// Spins within one operation that count as waiting.
const WAITING: u32 = 300;

fn note_stuck(i: &mut Inner) {
    for t in 0..i.status.len() {
        if i.status[t] == Status::Blocked || (i.status[t] == Status::Runnable && i.spins[t] > WAITING) {
            let op = i.ops[t];
            i.out.stuck_on_suspended.push((t, op));
        }
    }
    i.spins.fill(0);
}

fn fail(c: &Ctl, i: &mut Inner, sig: &str, msg: String) -> ! {
    if let Some(f) = std::env::var_os("RT_BACKTRACE") {
        // Debugging aid: where the thread that gave up was.
        let _ = std::fs::write(f, format!("T{} {sig}: {msg}\n{}", c.tid, std::backtrace::Backtrace::force_capture()));
    }
    if i.out.failed.is_none() {
        i.out.failed = Some((sig.to_string(), msg));
    }
    c.case.turn.store(MAIN, Release);
    c.case.main.unpark();
    loop {
        std::thread::park();
    }
}

/// Notes what an `AtomicPtr::load` returned.
#[inline]
pub fn note_ptr(v: usize) {
    let p = CUR.try_with(Cell::get).unwrap_or(std::ptr::null());
    if !p.is_null() {
        unsafe { &*p }.last_ptr.set(v);
    }
}

/// Thrown out of the drop of a pending call that would otherwise spin forever on a poisoned lock.
pub struct PoisonedDrop;

/// Runs `f`, which drops a pending future.
pub fn dropping<R>(f: impl FnOnce() -> R) -> R {
    if let Some(c) = cur() {
        c.dropping.set(true);
        let r = f();
        c.dropping.set(false);
        r
    } else {
        f()
    }
}

/// State of a `saa::Lock` that has been poisoned (`WaitQueue::LOCKED_FLAG` of the `loom` build).
const POISONED: usize = 64;

/// Spin-wait hint: lets another thread run.  Returns `false` if no case is running.
pub fn spin() -> bool {
    let Some(c) = cur() else { return false };
    let i = unsafe { &mut *c.case.inner.get() };
    i.steps += 1;
    c.total.set(c.total.get() + 1);
    c.step.set(c.step.get() + 1);
    i.out.contended += 1;
    if c.dropping.get() && c.last_ptr.get() == POISONED {
        // The lock is poisoned for good, so this is never going to end.
        c.dropping.set(false);
        std::panic::panic_any(PoisonedDrop);
    }
    if i.steps > i.budget {
        fail(c, i, "no-progress", format!("the step budget of {} is exhausted while spinning", i.budget));
    }
    set_trigger(c, i);
    i.spins[c.tid] += 1;
    if i.spins[c.tid] > WAITING
        && let Some(s) = i.status.iter().position(|s| *s == Status::Suspended)
        && (0..i.status.len()).all(|t| i.status[t] != Status::Runnable || i.spins[t] > WAITING)
    {
        // Everybody is waiting.
        note_stuck(i);
        i.status[s] = Status::Runnable;
    }
    let t = if i.random { random_other(i, c.tid) } else { next_other(i, c.tid) };
    if let Some(t) = t {
        switch(c, i, t);
    }
    true
}

/// Whether `compare_exchange_weak` shall fail spuriously.
pub fn spurious() -> bool {
    let Some(c) = cur() else { return false };
    let i = unsafe { &mut *c.case.inner.get() };
    i.spurious != 0 && c.quiet.get() == 0 && next_rng(&mut i.rng) % u64::from(i.spurious) == 0
}

/// Thread handle.
#[derive(Clone)]
pub enum Thread {
    Rt(Arc<Case>, usize),
    Std(std::thread::Thread),
}

impl std::fmt::Debug for Thread {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::Rt(_, t) => write!(f, "T{t}"),
            Self::Std(t) => t.fmt(f),
        }
    }
}

impl Thread {
    pub fn unpark(&self) {
        match self {
            Self::Std(t) => t.unpark(),
            Self::Rt(case, t) => {
                // Only the thread that owns the turn, or the main thread after the case, gets here.
                hb(|h, me| {
                    let c = h.now[me];
                    join(&mut h.unparked[*t], &c);
                    h.now[me][me] += 1;
                });
                let i = unsafe { &mut *case.inner.get() };
                if i.status[*t] == Status::Blocked {
                    i.status[*t] = Status::Runnable;
                } else {
                    i.token[*t] = true;
                }
                point();
            }
        }
    }
}

pub fn current() -> Thread {
    match cur() {
        Some(c) => Thread::Rt(c.case.clone(), c.tid),
        None => Thread::Std(std::thread::current()),
    }
}

pub fn park() {
    let Some(c) = cur() else {
        std::thread::park();
        return;
    };
    point();
    let i = unsafe { &mut *c.case.inner.get() };
    if i.token[c.tid] {
        i.token[c.tid] = false;
    } else {
        i.out.contended += 1;
        i.status[c.tid] = Status::Blocked;
        leave(c, i);
    }
    hb(|h, me| {
        let c = h.unparked[me];
        join(&mut h.now[me], &c);
    });
}

/// Runs the thread bodies to completion under the given configuration.
///
/// If the outcome is a failure, the threads are left stuck and must not be waited for.
pub fn run(cfg: Config, bodies: Vec<Box<dyn FnOnce() + Send + 'static>>) -> Outcome {
    let n = bodies.len();
    let mut plan = vec![Vec::new(); n];
    let (random, seed, period) = match &cfg.mode {
        Mode::Plan(p) => {
            for x in p {
                if (x.thread as usize) < n {
                    plan[x.thread as usize].push((x.op, x.step, x.target));
                }
            }
            (false, 0x5EED, 1)
        }
        Mode::Random { seed, period } => (true, *seed, *period),
    };
    for p in &mut plan {
        p.sort_unstable();
    }
    let mut order: Vec<usize> = cfg.order.iter().map(|t| *t as usize).filter(|t| *t < n).collect();
    for t in 0..n {
        if !order.contains(&t) {
            order.push(t);
        }
    }
    let race = cfg.race && n <= THREADS;
    let first = order[0];
    let mut rng = seed;
    let countdown = sample(&mut rng, period);
    let case = Arc::new(Case {
        turn: AtomicUsize::new(MAIN),
        inner: UnsafeCell::new(Inner {
            status: vec![Status::Runnable; n],
            token: vec![false; n],
            rng,
            random,
            period,
            countdown,
            plan,
            order,
            spurious: cfg.spurious,
            budget: cfg.budget,
            since_switch: 0,
            steps: 0,
            spins: vec![0; n],
            out: Outcome::default(),
            ops: vec![0; n],
            hb: race.then(|| {
                let mut h = Box::<Hb>::default();
                for t in 0..THREADS {
                    // Time zero is before the case.
                    h.now[t][t] = 1;
                }
                h
            }),
        }),
        handles: (0..n).map(|_| OnceLock::new()).collect(),
        main: std::thread::current(),
        release: AtomicUsize::new(0),
    });
    let ready = Arc::new(AtomicUsize::new(0));
    let mut joins = Vec::new();
    for (t, body) in bodies.into_iter().enumerate() {
        let case = case.clone();
        let ready = ready.clone();
        let h = std::thread::Builder::new()
            .stack_size(512 * 1024)
            .spawn(move || {
                let _ = case.handles[t].set(std::thread::current());
                ready.fetch_add(1, SeqCst);
                case.main.unpark();
                let ctl = Ctl {
                    case,
                    tid: t,
                    op: Cell::new(u16::MAX),
                    step: Cell::new(0),
                    trigger: Cell::new(u32::MAX),
                    plan_pos: Cell::new(0),
                    quiet: Cell::new(0),
                    total: Cell::new(0),
                    last_ptr: Cell::new(0),
                    dropping: Cell::new(false),
                    race,
                };
                wait_turn(&ctl);
                CUR.with(|c| c.set(&raw const ctl));
                let r = catch_unwind(AssertUnwindSafe(body));
                CUR.with(|c| c.set(std::ptr::null()));
                let i = unsafe { &mut *ctl.case.inner.get() };
                i.out.thread_steps.resize(n, 0);
                i.out.thread_steps[t] = ctl.total.get();
                if r.is_err() {
                    fail(&ctl, i, "panic", "a thread panicked".to_string());
                }
                i.status[t] = Status::Done;
                if i.status.iter().all(|s| *s == Status::Done) {
                    ctl.case.turn.store(MAIN, Release);
                    ctl.case.main.unpark();
                } else if let Some(to) = pick_next(i, t) {
                    hand_over(&ctl, i, to);
                } else if let Some(to) = i.status.iter().position(|s| *s == Status::Suspended) {
                    note_stuck(i);
                    i.status[to] = Status::Runnable;
                    hand_over(&ctl, i, to);
                } else {
                    let who: Vec<String> = (0..n)
                        .map(|t| format!("T{t}:{:?}(op {})", i.status[t], i.ops[t]))
                        .collect();
                    fail(&ctl, i, "deadlock", format!("deadlock: {}", who.join(" ")));
                }
                // Thread-local destructors run after the case.
                while ctl.case.release.load(Acquire) <= t {
                    std::thread::park();
                }
            })
            .expect("spawn");
        joins.push(h);
    }
    while ready.load(SeqCst) != n {
        std::thread::park();
    }
    case.turn.store(first, Release);
    case.handles[first].get().unwrap().unpark();
    while case.turn.load(Acquire) != MAIN {
        std::thread::park();
    }
    let i = unsafe { &mut *case.inner.get() };
    i.out.steps = i.steps;
    let out = std::mem::take(&mut i.out);
    if out.failed.is_none() {
        for (t, j) in joins.into_iter().enumerate() {
            case.release.store(t + 1, Release);
            case.handles[t].get().unwrap().unpark();
            let _ = j.join();
        }
    } else {
        std::mem::forget(joins);
    }
    out
}

fn hand_over(c: &Ctl, i: &mut Inner, to: usize) {
    i.since_switch = 0;
    c.case.turn.store(to, Release);
    if let Some(h) = c.case.handles[to].get() {
        h.unpark();
    }
}
