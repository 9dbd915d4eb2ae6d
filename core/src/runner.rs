//! Runs the suites of a property in worker processes, shrinks a failure, writes replay files,
//! samples and (partial) evidence.
use crate::r#gen::{Gen, hash_str, mix};
use crate::json::J;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable signature of what failed.
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: &str, msg: impl Into<String>) -> Self {
        Self {
            sig: sig.to_string(),
            msg: msg.into(),
        }
    }
}

pub type Res = Result<(), Fail>;

/// `fail!("sig", "format", args...)`
#[macro_export]
macro_rules! fail {
    ($sig:expr, $($t:tt)*) => {
        return Err($crate::Fail::new($sig, format!($($t)*)))
    };
}

/// `ensure!(cond, "sig", "format", args...)`
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($t:tt)*) => {
        if !$c {
            return Err($crate::Fail::new($sig, format!($($t)*)));
        }
    };
}

static TRACE_ON: AtomicBool = AtomicBool::new(false);
static TRACE: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn tracing() -> bool {
    TRACE_ON.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn trace_line(s: String) {
    let mut t = TRACE.lock().unwrap();
    if t.len() < 400 {
        t.push(s);
    }
}

#[macro_export]
macro_rules! vtrace {
    ($($t:tt)*) => {
        if $crate::runner::tracing() {
            $crate::runner::trace_line(format!($($t)*));
        }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn count(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_insert(0) += n;
    }
}

pub struct Suite {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Gen, &mut Ctx) -> Res,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub suites: Vec<Suite>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// Payload type of panics injected by the harness.
pub struct Injected;

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Injected>() {
            return;
        }
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("VERIF_PANIC").is_some() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// The message of the last panic on this thread.
pub fn take_panic() -> String {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panic".into())
}

fn run_case(suite: &Suite, g: &mut Gen, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (suite.f)(g, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = take_panic();
            Err(Fail::new("panic", format!("unexpected panic: {m}")))
        }
    }
}

fn case_seed(seed: u64, prop: &str, suite: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_str(prop)), mix(hash_str(suite), idx))
}

fn tape_hash(t: &[u64]) -> u64 {
    let mut h = 0x1234_5678_u64;
    for x in t {
        h = mix(h, *x);
    }
    h
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0
            .iter()
            .position(|a| a == k)
            .and_then(|i| self.0.get(i + 1))
            .map(String::as_str)
    }
    fn has(&self, k: &str) -> bool {
        self.0.iter().any(|a| a == k)
    }
    fn num(&self, k: &str) -> Option<u64> {
        self.get(k).and_then(|s| s.parse().ok())
    }
}

fn known_sigs(root: &Path, prop: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.jsonl")) {
        for l in s.lines() {
            if let Some(j) = J::parse(l) {
                if j.get("property").and_then(J::str) == Some(prop)
                    && j.get("status").and_then(J::str) == Some("known")
                {
                    v.push((
                        j.get("signature").and_then(J::str).unwrap_or("").to_string(),
                        j.get("what").and_then(J::str).unwrap_or("").to_string(),
                    ));
                }
            }
        }
    }
    v
}

fn fmt_tape(t: &[u64]) -> String {
    t.iter().map(u64::to_string).collect::<Vec<_>>().join(" ")
}
fn parse_tape(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

/// Entry point of every harness binary.
pub fn main(flavor: &str, props: Vec<Prop>) -> ! {
    install_hook();
    let args = Args(std::env::args().skip(1).collect());
    let code = real_main(flavor, &props, &args);
    std::process::exit(code)
}

fn real_main(flavor: &str, props: &[Prop], args: &Args) -> i32 {
    if args.has("--list") {
        for p in props {
            println!("{}", p.id);
        }
        return 0;
    }
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let Some(pid) = args.get("--prop") else {
        eprintln!("usage: --prop ID --tier quick|thorough --part FILE");
        return 2;
    };
    let Some(prop) = props.iter().find(|p| p.id == pid) else {
        eprintln!("no suites for {pid} in {flavor}");
        return 2;
    };
    if args.has("--worker") {
        return worker(prop, args, &root);
    }
    if args.has("--one") {
        return one(prop, args);
    }
    if let Some(f) = args.get("--replay") {
        return replay(flavor, prop, Path::new(f));
    }
    parent(flavor, prop, args, &root)
}

fn worker(prop: &Prop, args: &Args, root: &Path) -> i32 {
    use std::os::unix::fs::FileExt;
    let suite = prop
        .suites
        .iter()
        .find(|s| Some(s.name) == args.get("--suite"))
        .expect("suite");
    let seed = args.num("--seed").unwrap_or(1);
    let (start, end) = (args.num("--start").unwrap(), args.num("--end").unwrap());
    let cap = Duration::from_secs(args.num("--cap").unwrap_or(100_000));
    let progress = std::fs::OpenOptions::new()
        .write(true)
        .create(true)
        .truncate(false)
        .open(args.get("--progress").unwrap())
        .unwrap();
    let known = known_sigs(root, prop.id);
    let begin = Instant::now();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut evals = 0_u64;
    let mut nontrivial = 0_u64;
    let mut capped = false;
    let mut rc = 0;
    for idx in start..end {
        let _ = progress.write_at(&(idx + 1).to_le_bytes(), 0);
        let mut g = Gen::from_seed(case_seed(seed, prop.id, suite.name, idx));
        let mut ctx = Ctx::default();
        let r = run_case(suite, &mut g, &mut ctx);
        evals += 1;
        for (k, v) in &ctx.labels {
            *labels.entry(k).or_insert(0) += v;
        }
        if ctx.nontrivial {
            nontrivial += 1;
            if hashes.len() < 4_000_000 {
                hashes.insert(tape_hash(g.used()));
            }
        }
        if let Err(f) = r {
            if known.iter().any(|(s, _)| *s == f.sig) {
                *known_hits.entry(f.sig).or_insert(0) += 1;
                continue;
            }
            let j = J::obj(vec![
                ("idx", J::i(idx)),
                ("sig", J::s(&*f.sig)),
                ("msg", J::s(&*f.msg)),
                ("tape", J::s(fmt_tape(g.used()))),
            ]);
            println!("FAIL {}", j.dump());
            rc = 10;
            break;
        }
        if begin.elapsed() > cap {
            capped = true;
            break;
        }
    }
    let mut hv: Vec<u8> = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hv.extend_from_slice(&h.to_le_bytes());
    }
    let _ = std::fs::write(args.get("--hashes").unwrap(), hv);
    let j = J::obj(vec![
        ("evals", J::i(evals)),
        ("nontrivial", J::i(nontrivial)),
        ("capped", J::Bool(capped)),
        (
            "labels",
            J::Obj(labels.iter().map(|(k, v)| ((*k).to_string(), J::i(*v))).collect()),
        ),
        (
            "known",
            J::Obj(known_hits.iter().map(|(k, v)| (k.clone(), J::i(*v))).collect()),
        ),
    ]);
    println!("DONE {}", j.dump());
    let _ = std::io::stdout().flush();
    // The process may own stuck threads; leave without running destructors.
    unsafe { libc_exit(rc) }
}

unsafe extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
}

/// Runs a single tape and reports the outcome; used for shrinking, sampling and replay.
fn one(prop: &Prop, args: &Args) -> i32 {
    let suite = prop
        .suites
        .iter()
        .find(|s| Some(s.name) == args.get("--suite"))
        .expect("suite");
    if args.has("--trace") {
        TRACE_ON.store(true, SeqCst);
    }
    let mut g = if let Some(idx) = args.num("--idx") {
        let seed = args.num("--seed").unwrap_or(1);
        // Run the preceding cases of the worker first (if asked to), for history-dependent failures.
        let from = args.num("--start").unwrap_or(idx);
        for i in from..idx {
            let mut g = Gen::from_seed(case_seed(seed, prop.id, suite.name, i));
            let _ = run_case(suite, &mut g, &mut Ctx::default());
        }
        TRACE.lock().unwrap().clear();
        Gen::from_seed(case_seed(seed, prop.id, suite.name, idx))
    } else {
        let t = std::fs::read_to_string(args.get("--tape").unwrap()).unwrap_or_default();
        Gen::from_tape(parse_tape(&t))
    };
    if let Some(f) = args.get("--dump").and_then(|p| std::fs::File::create(p).ok()) {
        g.dump_to(f);
    }
    let mut ctx = Ctx::default();
    let r = run_case(suite, &mut g, &mut ctx);
    let (sig, msg) = match &r {
        Ok(()) => (J::Null, J::Null),
        Err(f) => (J::s(&*f.sig), J::s(&*f.msg)),
    };
    let trace = TRACE.lock().unwrap().clone();
    let j = J::obj(vec![
        ("sig", sig),
        ("msg", msg),
        ("tape", J::s(fmt_tape(g.used()))),
        ("nontrivial", J::Bool(ctx.nontrivial)),
        ("trace", J::Arr(trace.into_iter().map(J::Str).collect())),
    ]);
    println!("RESULT {}", j.dump());
    let _ = std::io::stdout().flush();
    unsafe { libc_exit(if r.is_ok() { 0 } else { 10 }) }
}

struct OneResult {
    sig: Option<String>,
    msg: String,
    tape: Vec<u64>,
    trace: Vec<String>,
    nontrivial: bool,
}

fn wait_timeout(c: &mut Child, d: Duration) -> Option<std::process::ExitStatus> {
    let st = Instant::now();
    let mut pause = 1;
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if st.elapsed() > d {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause + 1).min(20);
    }
}

fn run_one(tmp: &Path, prop: &str, suite: &str, extra: &[String], tape: Option<&[u64]>) -> OneResult {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new(exe);
    cmd.args(["--prop", prop, "--one", "--suite", suite]).args(extra);
    let tf = tmp.join(format!("tape-{}", std::process::id()));
    if let Some(t) = tape {
        std::fs::write(&tf, fmt_tape(t)).unwrap();
        cmd.arg("--tape").arg(&tf);
    }
    let of = tmp.join(format!("out-{}", std::process::id()));
    let df = tmp.join(format!("dump-{}", std::process::id()));
    cmd.arg("--dump").arg(&df);
    cmd.stdout(std::fs::File::create(&of).unwrap())
        .stderr(Stdio::null())
        .stdin(Stdio::null());
    let mut c = cmd.spawn().unwrap();
    let st = wait_timeout(&mut c, Duration::from_secs(30));
    let out = std::fs::read_to_string(&of).unwrap_or_default();
    for l in out.lines() {
        if let Some(r) = l.strip_prefix("RESULT ") {
            if let Some(j) = J::parse(r) {
                return OneResult {
                    sig: j.get("sig").and_then(J::str).map(str::to_string),
                    msg: j.get("msg").and_then(J::str).unwrap_or("").to_string(),
                    tape: parse_tape(j.get("tape").and_then(J::str).unwrap_or("")),
                    trace: j
                        .get("trace")
                        .map(|t| t.arr().iter().filter_map(|x| x.str().map(str::to_string)).collect())
                        .unwrap_or_default(),
                    nontrivial: matches!(j.get("nontrivial"), Some(J::Bool(true))),
                };
            }
        }
    }
    let sig = match st {
        None => "hang".to_string(),
        Some(s) => match s.signal() {
            Some(n) => format!("crash:signal{n}"),
            None => format!("crash:exit{}", s.code().unwrap_or(-1)),
        },
    };
    OneResult {
        msg: format!("the process running the case ended abnormally ({sig})"),
        sig: Some(sig),
        tape: parse_tape(&std::fs::read_to_string(&df).unwrap_or_default()),
        trace: Vec::new(),
        nontrivial: true,
    }
}

fn shrink(tmp: &Path, prop: &str, suite: &str, tape: Vec<u64>, sig: &str, budget: Duration) -> Vec<u64> {
    let begin = Instant::now();
    let mut best = tape;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut attempts = 0;
    let mut try_tape = |t: &[u64], best: &mut Vec<u64>| -> bool {
        if begin.elapsed() > budget || !seen.insert(tape_hash(t)) {
            return false;
        }
        attempts += 1;
        let r = run_one(tmp, prop, suite, &[], Some(t));
        if r.sig.as_deref() == Some(sig) {
            let cand = if r.tape.is_empty() { t.to_vec() } else { r.tape };
            let smaller = cand.len() < best.len()
                || (cand.len() == best.len() && cand < *best);
            if smaller {
                *best = cand;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // Truncate.
        let mut n = best.len() / 2;
        while n > 0 {
            if best.len() > n {
                let t = best[..best.len() - n].to_vec();
                if try_tape(&t, &mut best) {
                    continue;
                }
            }
            n /= 2;
        }
        // Delete blocks.
        for size in [32, 16, 8, 6, 5, 4, 3, 2, 1] {
            let mut i = best.len();
            while i >= size {
                i -= 1;
                if i + size > best.len() {
                    continue;
                }
                let mut t = best.clone();
                t.drain(i..i + size);
                try_tape(&t, &mut best);
                // Also try decrementing a preceding count.
                if i > 0 && best.len() >= i + size && best[i - 1] > 0 && size <= 4 {
                    let mut t = best.clone();
                    t.drain(i..i + size);
                    t[i - 1] -= 1;
                    try_tape(&t, &mut best);
                }
                if begin.elapsed() > budget {
                    return best;
                }
            }
        }
        // Minimise values.
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut t = best.clone();
                t[i] = 0;
                if !try_tape(&t, &mut best) && i < best.len() {
                    let (mut lo, mut hi) = (0, best[i]);
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut t = best.clone();
                        t[i] = mid;
                        if try_tape(&t, &mut best) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut t = best.clone();
                        t[i] -= 1;
                        try_tape(&t, &mut best);
                    }
                }
            }
            i += 1;
            if begin.elapsed() > budget {
                return best;
            }
        }
        if best == before || begin.elapsed() > budget {
            return best;
        }
    }
}

fn replay(flavor: &str, prop: &Prop, file: &Path) -> i32 {
    let Some(j) = std::fs::read_to_string(file).ok().and_then(|s| J::parse(&s)) else {
        eprintln!("cannot read {}", file.display());
        return 2;
    };
    if j.get("flavor").and_then(J::str) != Some(flavor) {
        eprintln!("replay file is for another harness binary");
        return 2;
    }
    let tmp = std::env::temp_dir().join(format!("scc-verif-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let suite = j.get("suite").and_then(J::str).unwrap_or("");
    let n = |k: &str| j.get(k).and_then(J::int).unwrap_or(0).to_string();
    let r = if j.get("mode").and_then(J::str) == Some("history") {
        let extra: Vec<String> = ["--seed", &n("seed"), "--idx", &n("idx"), "--start", &n("start")]
            .iter()
            .map(|s| (*s).to_string())
            .chain(["--trace".to_string()])
            .collect();
        run_one(&tmp, prop.id, suite, &extra, None)
    } else {
        let tape = parse_tape(j.get("tape").and_then(J::str).unwrap_or(""));
        run_one(&tmp, prop.id, suite, &["--trace".to_string()], Some(&tape))
    };
    let _ = std::fs::remove_dir_all(&tmp);
    for l in &r.trace {
        println!("  {l}");
    }
    match r.sig {
        None => {
            println!("no failure");
            0
        }
        Some(s) => {
            println!("failure [{s}]: {}", r.msg);
            1
        }
    }
}

fn parent(flavor: &str, prop: &Prop, args: &Args, root: &Path) -> i32 {
    let begin = Instant::now();
    let tier = args.get("--tier").unwrap_or("quick").to_string();
    let seed = args
        .num("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()))
        .unwrap_or(1);
    let scale: f64 = args.get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cap: u64 = args
        .num("--cap")
        .unwrap_or(if tier == "thorough" { 1500 } else { 150 });
    let workers = std::thread::available_parallelism()
        .map_or(4, std::num::NonZeroUsize::get)
        .clamp(2, 8) as u64;
    let tmp = std::env::temp_dir().join(format!("scc-verif-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let exe = std::env::current_exe().unwrap();

    let mut suites_j: Vec<J> = Vec::new();
    let mut samples: Vec<J> = Vec::new();
    let mut evals = 0_i128;
    let mut distinct = 0_i128;
    let mut known_total: BTreeMap<String, i128> = BTreeMap::new();
    let mut violation: Option<String> = None;
    let mut error: Option<String> = None;

    'suites: for suite in &prop.suites {
        if let Some(only) = args.get("--suite") {
            if only != suite.name {
                continue;
            }
        }
        let total = if tier == "thorough" { suite.thorough } else { suite.quick };
        let total = ((total as f64 * scale) as u64).max(if total == 0 { 0 } else { 8 });
        if total == 0 {
            continue;
        }
        let suite_begin = Instant::now();
        let w = workers.min(total);
        struct Wk {
            child: Child,
            start: u64,
            progress: PathBuf,
            out: PathBuf,
            hashes: PathBuf,
            last: u64,
            since: Instant,
            done: bool,
        }
        let mut wks: Vec<Wk> = (0..w)
            .map(|i| {
                let start = total * i / w;
                let end = total * (i + 1) / w;
                let progress = tmp.join(format!("{}-{i}.progress", suite.name));
                let out = tmp.join(format!("{}-{i}.out", suite.name));
                let hashes = tmp.join(format!("{}-{i}.hashes", suite.name));
                let child = Command::new(&exe)
                    .args(["--prop", prop.id, "--worker", "--suite", suite.name])
                    .args(["--seed", &seed.to_string(), "--start", &start.to_string()])
                    .args(["--end", &end.to_string(), "--cap", &cap.to_string()])
                    .arg("--progress")
                    .arg(&progress)
                    .arg("--hashes")
                    .arg(&hashes)
                    .env("VERIF_ROOT", root)
                    .stdout(std::fs::File::create(&out).unwrap())
                    .stderr(std::fs::File::create(tmp.join(format!("{}-{i}.err", suite.name))).unwrap())
                    .stdin(Stdio::null())
                    .spawn()
                    .unwrap();
                Wk {
                    child,
                    start,
                    progress,
                    out,
                    hashes,
                    last: 0,
                    since: Instant::now(),
                    done: false,
                }
            })
            .collect();
        let read_progress = |p: &Path| -> u64 {
            std::fs::read(p)
                .ok()
                .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
                .unwrap_or(0)
        };
        // (idx, start, sig, msg, tape)
        let mut failure: Option<(u64, u64, String, String, Option<Vec<u64>>)> = None;
        let mut hung: Option<u64> = None;
        loop {
            let mut all = true;
            for k in &mut wks {
                if k.done {
                    continue;
                }
                match k.child.try_wait() {
                    Ok(Some(st)) => {
                        k.done = true;
                        let out = std::fs::read_to_string(&k.out).unwrap_or_default();
                        let fail = out
                            .lines()
                            .find_map(|l| l.strip_prefix("FAIL "))
                            .and_then(J::parse);
                        if let Some(j) = fail {
                            if failure.is_none() {
                                failure = Some((
                                    j.get("idx").and_then(J::int).unwrap_or(0) as u64,
                                    k.start,
                                    j.get("sig").and_then(J::str).unwrap_or("").to_string(),
                                    j.get("msg").and_then(J::str).unwrap_or("").to_string(),
                                    Some(parse_tape(j.get("tape").and_then(J::str).unwrap_or(""))),
                                ));
                            }
                        } else if !out.lines().any(|l| l.starts_with("DONE ")) {
                            let idx = read_progress(&k.progress);
                            if st.signal() == Some(9) {
                                error = Some(format!("worker of {} was killed", suite.name));
                            } else if idx == 0 {
                                error = Some(format!("worker of {} did not start: {st}", suite.name));
                            } else if failure.is_none() {
                                let sig = match st.signal() {
                                    Some(n) => format!("crash:signal{n}"),
                                    None => format!("crash:exit{}", st.code().unwrap_or(-1)),
                                };
                                failure = Some((
                                    idx - 1,
                                    k.start,
                                    sig.clone(),
                                    format!("the process running the case ended abnormally ({sig})"),
                                    None,
                                ));
                            }
                        }
                    }
                    Ok(None) => {
                        all = false;
                        let p = read_progress(&k.progress);
                        if p != k.last {
                            k.last = p;
                            k.since = Instant::now();
                        } else if k.since.elapsed() > Duration::from_secs(120) {
                            hung = Some(p.saturating_sub(1));
                        }
                    }
                    Err(e) => error = Some(e.to_string()),
                }
            }
            if failure.is_some() || hung.is_some() || error.is_some() {
                for k in &mut wks {
                    if !k.done {
                        let _ = k.child.kill();
                        let _ = k.child.wait();
                    }
                }
                break;
            }
            if all {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        // Aggregate.
        let mut hs: HashSet<u64> = HashSet::new();
        let mut s_evals = 0_i128;
        let mut s_nontrivial = 0_i128;
        let mut capped = false;
        let mut labels: BTreeMap<String, i128> = BTreeMap::new();
        for k in &wks {
            let out = std::fs::read_to_string(&k.out).unwrap_or_default();
            if let Some(j) = out.lines().find_map(|l| l.strip_prefix("DONE ")).and_then(J::parse) {
                s_evals += j.get("evals").and_then(J::int).unwrap_or(0);
                s_nontrivial += j.get("nontrivial").and_then(J::int).unwrap_or(0);
                capped |= matches!(j.get("capped"), Some(J::Bool(true)));
                if let Some(J::Obj(v)) = j.get("labels") {
                    for (n, c) in v {
                        *labels.entry(n.clone()).or_insert(0) += c.int().unwrap_or(0);
                    }
                }
                if let Some(J::Obj(v)) = j.get("known") {
                    for (n, c) in v {
                        *known_total.entry(n.clone()).or_insert(0) += c.int().unwrap_or(0);
                    }
                }
            } else {
                s_evals += i128::from(read_progress(&k.progress).saturating_sub(k.start));
            }
            if let Ok(b) = std::fs::read(&k.hashes) {
                for c in b.chunks_exact(8) {
                    hs.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
        evals += s_evals;
        distinct += hs.len() as i128;
        eprintln!(
            "[{} {flavor}/{}] {s_evals}/{total} cases, {} distinct non-trivial, {:.1}s{}",
            prop.id,
            suite.name,
            hs.len(),
            suite_begin.elapsed().as_secs_f64(),
            if capped { " (time cap reached)" } else { "" }
        );
        suites_j.push(J::obj(vec![
            ("suite", J::s(format!("{flavor}/{}", suite.name))),
            ("evaluations", J::Int(s_evals)),
            ("planned", J::i(total)),
            ("nontrivial", J::Int(s_nontrivial)),
            ("distinct_nontrivial", J::i(hs.len() as u64)),
            ("time_capped", J::Bool(capped)),
            ("wall_s", J::Num(suite_begin.elapsed().as_secs_f64())),
            (
                "classes",
                J::Obj(labels.into_iter().map(|(k, v)| (k, J::Int(v))).collect()),
            ),
        ]));
        if let Some((idx, start, sig, msg, tape)) = failure {
            violation = Some(report(
                flavor, prop, suite, root, &tmp, seed, idx, start, &sig, &msg, tape, args,
            ));
            break 'suites;
        }
        if let Some(h) = hung {
            error = Some(format!(
                "{}: case {h} made no progress for 120 s; inconclusive",
                suite.name
            ));
        }
        if error.is_some() {
            break 'suites;
        }
        // Samples: the first two non-trivial cases of the run.
        let mut taken = 0;
        for idx in 0..total.min(12) {
            if taken == 2 {
                break;
            }
            let extra: Vec<String> = ["--seed", &seed.to_string(), "--idx", &idx.to_string(), "--trace"]
                .iter()
                .map(|s| (*s).to_string())
                .collect();
            let r = run_one(&tmp, prop.id, suite.name, &extra, None);
            if r.nontrivial && r.sig.is_none() {
                taken += 1;
                let n = r.trace.len();
                let mut t: Vec<J> = r.trace.into_iter().take(60).map(J::Str).collect();
                if n > 60 {
                    t.push(J::s(format!("... ({} more lines)", n - 60)));
                }
                samples.push(J::obj(vec![
                    ("suite", J::s(format!("{flavor}/{}", suite.name))),
                    ("case", J::i(idx)),
                    ("trace", J::Arr(t)),
                ]));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let part = J::obj(vec![
        ("property", J::s(prop.id)),
        ("flavor", J::s(flavor)),
        ("tier", J::s(&*tier)),
        ("seed", J::i(seed)),
        ("rule", J::s(prop.rule)),
        ("evaluations", J::Int(evals)),
        ("distinct_nontrivial", J::Int(distinct)),
        ("suites", J::Arr(suites_j)),
        ("samples", J::Arr(samples)),
        (
            "known",
            J::Obj(known_total.iter().map(|(k, v)| (k.clone(), J::Int(*v))).collect()),
        ),
        ("violations", J::i(u64::from(violation.is_some()))),
        ("wall_s", J::Num(begin.elapsed().as_secs_f64())),
    ]);
    if let Some(p) = args.get("--part") {
        let _ = std::fs::write(p, part.pretty());
    }
    for (sig, what) in known_sigs(root, prop.id) {
        let n = known_total.get(&sig).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {what} [{n} cases of this run]", prop.id);
    }
    if let Some(r) = violation {
        println!("VIOLATION property={} replay={r}", prop.id);
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ERROR {e}");
        return 2;
    }
    0
}

#[allow(clippy::too_many_arguments)]
fn report(
    flavor: &str,
    prop: &Prop,
    suite: &Suite,
    root: &Path,
    tmp: &Path,
    seed: u64,
    idx: u64,
    start: u64,
    sig: &str,
    msg: &str,
    tape: Option<Vec<u64>>,
    args: &Args,
) -> String {
    let sv = |xs: &[&str]| xs.iter().map(|s| (*s).to_string()).collect::<Vec<_>>();
    let (s, i, st) = (seed.to_string(), idx.to_string(), start.to_string());
    let budget = Duration::from_secs(args.num("--shrink").unwrap_or(40));
    // Does it reproduce in a fresh process?
    let fresh = run_one(tmp, prop.id, suite.name, &sv(&["--seed", &s, "--idx", &i]), None);
    let mut fields: Vec<(&str, J)> = vec![
        ("property", J::s(prop.id)),
        ("flavor", J::s(flavor)),
        ("suite", J::s(suite.name)),
        ("seed", J::i(seed)),
        ("idx", J::i(idx)),
        ("start", J::i(start)),
        ("signature", J::s(sig)),
        ("original_message", J::s(msg)),
    ];
    let mut shown = msg.to_string();
    let mut trace = Vec::new();
    if let Some(fsig) = fresh.sig.clone() {
        let t = if fsig.starts_with("crash") || fsig == "hang" {
            tape.unwrap_or_else(|| fresh.tape.clone())
        } else {
            fresh.tape.clone()
        };
        if t.is_empty() {
            fields.push(("mode", J::s("history")));
            fields[5] = ("start", J::i(idx));
        } else {
            let best = shrink(tmp, prop.id, suite.name, t, &fsig, budget);
            let last = run_one(tmp, prop.id, suite.name, &sv(&["--trace"]), Some(&best));
            shown = last.msg;
            trace = last.trace;
            fields.push(("mode", J::s("tape")));
            fields.push(("tape", J::s(fmt_tape(&best))));
        }
    } else {
        // History-dependent: replay the worker's cases up to this one.
        let h = run_one(
            tmp,
            prop.id,
            suite.name,
            &sv(&["--seed", &s, "--idx", &i, "--start", &st, "--trace"]),
            None,
        );
        trace = h.trace;
        fields.push(("mode", J::s("history")));
    }
    fields.push(("message", J::s(&*shown)));
    fields.push(("trace", J::Arr(trace.iter().map(|l| J::s(&**l)).collect())));
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{:08x}.json", prop.id, suite.name, mix(idx, seed) as u32));
    let _ = std::fs::write(&path, J::obj(fields).pretty());
    println!("[{}/{}] failure [{sig}]: {shown}", prop.id, suite.name);
    for l in trace.iter().take(80) {
        println!("    {l}");
    }
    path.display().to_string()
}
