//! Case generation, shrinking, evidence and replay.
//!
//! A case is decoded from a *tape* (a vector of u32 choices).  proptest drives the search: `TapeStrategy` is a
//! proptest `Strategy` whose `ValueTree` shrinks the tape (cutting, deleting, zeroing, minimising), so that every
//! structured case shrinks without per-type shrinkers, and the shrunken tape is the replay file.

macro_rules! say {
    ($($a:tt)*) => {
        say(format_args!($($a)*))
    };
}

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use proptest::prelude::Rng as _;

pub type R<T = ()> = Result<T, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($r:tt)*) => {{ let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: got {:x?}, expected {:x?}", format!($($r)*), a, b)); } }};
}

/// Source of choices; exhausted tapes give zeroes, so every tape decodes to a case.
pub struct Tape<'a> {
    data: &'a [u32],
    pos: usize,
}

impl<'a> Tape<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Tape { data, pos: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    pub fn used(&self) -> &'a [u32] {
        &self.data[..self.pos.min(self.data.len())]
    }
    pub fn left(&self) -> usize {
        self.data.len().saturating_sub(self.pos)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        if n == 0 {
            return 0;
        }
        self.raw() % n
    }
    /// inclusive
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u32, hi as u32) as usize
    }
    /// true with probability n/d; shrinks to false
    pub fn chance(&mut self, n: u32, d: u32) -> bool {
        self.below(d) >= d - n
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn u8(&mut self) -> u8 {
        self.raw() as u8
    }
    pub fn u16(&mut self) -> u16 {
        self.raw() as u16
    }
    /// boundary-biased
    pub fn b8(&mut self) -> u8 {
        let v = self.raw();
        if v & 0x100 != 0 {
            [0, 1, 0x7f, 0x80, 0xff, 0x81, 0xfe, 2][(v >> 9) as usize % 8]
        } else {
            v as u8
        }
    }
    pub fn b16(&mut self) -> u16 {
        let v = self.raw();
        if v & 0x1_0000 != 0 {
            [0, 1, 0x7fff, 0x8000, 0xffff, 0x8001, 0xfffe, 0xff, 0x100, 0x80, 0x7f, 0xff00, 2, 0x10, 0xf, 0x1ff][(v >> 17) as usize % 16]
        } else {
            v as u16
        }
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len() as u32) as usize]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i as u32 + 1) as usize;
            xs.swap(i, j);
        }
    }
}

/// What one case tells about itself.
pub struct Ctx {
    pub dir: PathBuf,
    pub bin: PathBuf,
    pub tier_thorough: bool,
    pub shard: usize,
    nontrivial: bool,
    labels: Vec<String>,
    sample: Option<String>,
    extra_evals: u64,
    extra_nontrivial: u64,
    known: Vec<String>,
    listed: Arc<Vec<String>>,
    key: Option<u64>,
    want_sample: bool,
}

impl Ctx {
    fn new(dir: PathBuf, bin: PathBuf, thorough: bool, shard: usize, listed: Arc<Vec<String>>) -> Self {
        Ctx { listed, dir, bin, tier_thorough: thorough, shard, nontrivial: false, labels: vec![], sample: None, extra_evals: 0, extra_nontrivial: 0, known: vec![], key: None, want_sample: true }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    /// identity of the case for counting distinct ones (default: the used part of the tape)
    pub fn key(&mut self, k: &impl Hash) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        k.hash(&mut h);
        self.key = Some(h.finish());
    }
    /// enumerated sub-cases, all of them different
    pub fn enumerated(&mut self, evals: u64, nontrivial: u64) {
        self.extra_evals += evals;
        self.extra_nontrivial += nontrivial;
    }
    /// a failure that is recorded as a known finding: `Err` if it is not
    pub fn known(&mut self, sig: &str, failure: String) -> R {
        if !self.listed.iter().any(|l| l == sig) {
            return Err(failure);
        }
        self.known.push(sig.to_string());
        Ok(())
    }
    /// an empty scratch directory of this shard
    pub fn fresh_dir(&mut self) -> PathBuf {
        let d = self.dir.join("w");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    }
}

pub type CaseFn = fn(&mut Tape, &mut Ctx) -> R;
pub type EnumFn = fn(&mut Ctx, usize, usize) -> R;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub tape: usize,
    pub quick: u32,
    pub thorough: u32,
    pub case: CaseFn,
    /// exhaustive part: (ctx, shard, shards)
    pub enumerate: Option<EnumFn>,
}

struct TapeStrategy {
    len: usize,
}

impl std::fmt::Debug for TapeStrategy {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "tape of {}", self.len)
    }
}

impl Strategy for TapeStrategy {
    type Tree = TapeTree;
    type Value = Vec<u32>;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let rng = runner.rng();
        // vary the length, so that short histories are common too
        let len = match rng.next_u32() % 4 {
            0 => self.len / 4,
            1 => self.len / 2,
            _ => self.len,
        }
        .max(1);
        let v = (0..len).map(|_| rng.next_u32()).collect::<Vec<_>>();
        Ok(TapeTree { best: v.clone(), cand: v, stage: 0, size: 0, pos: 0, progress: false, rounds: 0, started: false })
    }
}

struct TapeTree {
    best: Vec<u32>,
    cand: Vec<u32>,
    stage: u8,
    size: usize,
    pos: usize,
    progress: bool,
    rounds: u32,
    started: bool,
}

impl TapeTree {
    fn next_candidate(&mut self) -> bool {
        loop {
            let n = self.best.len();
            match self.stage {
                // cut the tail
                0 => {
                    if !self.started {
                        // drop what the case did not use
                        self.started = true;
                        self.size = n / 2;
                    }
                    if self.size == 0 {
                        self.stage = 1;
                        self.size = (n / 2).max(1).next_power_of_two();
                        self.pos = 0;
                        continue;
                    }
                    let s = self.size;
                    self.size /= 2;
                    if s >= n {
                        continue;
                    }
                    self.cand = self.best[..n - s].to_vec();
                    return true;
                }
                // 1: delete blocks, 2: zero blocks
                1 | 2 => {
                    if self.pos >= n {
                        self.pos = 0;
                        self.size /= 2;
                        if self.size == 0 {
                            self.stage += 1;
                            self.size = if self.stage == 2 { 16 } else { 0 };
                        }
                        continue;
                    }
                    let e = (self.pos + self.size).min(n);
                    let mut c = self.best.clone();
                    if self.stage == 1 {
                        c.drain(self.pos..e);
                        self.pos += self.size;
                        if c.is_empty() {
                            continue;
                        }
                    } else {
                        let zero = c[self.pos..e].iter().all(|&x| x == 0);
                        c[self.pos..e].fill(0);
                        self.pos += self.size;
                        if zero {
                            continue;
                        }
                    }
                    self.cand = c;
                    return true;
                }
                // 3: make single values smaller
                3 => {
                    if self.pos >= n {
                        self.rounds += 1;
                        if self.progress && self.rounds < 4 {
                            self.progress = false;
                            self.stage = 0;
                            self.size = n / 2;
                            self.pos = 0;
                            continue;
                        }
                        return false;
                    }
                    let v = self.best[self.pos];
                    // size counts the attempts at this position
                    let t = match self.size {
                        0 => v % 256,
                        1 => v % 16,
                        2 => v % 4,
                        3 => v / 2,
                        4 => v.wrapping_sub(1),
                        _ => {
                            self.size = 0;
                            self.pos += 1;
                            continue;
                        }
                    };
                    self.size += 1;
                    if v == 0 || t >= v {
                        continue;
                    }
                    let mut c = self.best.clone();
                    c[self.pos] = t;
                    self.cand = c;
                    return true;
                }
                _ => return false,
            }
        }
    }
}

impl ValueTree for TapeTree {
    type Value = Vec<u32>;
    fn current(&self) -> Vec<u32> {
        self.cand.clone()
    }
    fn simplify(&mut self) -> bool {
        if self.cand != self.best {
            self.progress = true;
            if self.stage == 1 {
                // what followed the deleted block is now where it was
                self.pos = self.pos.saturating_sub(self.size);
            }
        }
        self.best = self.cand.clone();
        self.next_candidate()
    }
    fn complicate(&mut self) -> bool {
        self.cand = self.best.clone();
        self.next_candidate()
    }
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: HashSet<u64>,
    enumerated_nontrivial: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
}

impl Stats {
    fn absorb(&mut self, ctx: Ctx, tape: &[u32]) {
        self.evals += 1 + ctx.extra_evals;
        self.enumerated_nontrivial += ctx.extra_nontrivial;
        if ctx.nontrivial {
            let k = ctx.key.unwrap_or_else(|| {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                tape.hash(&mut h);
                h.finish()
            });
            let new = self.nontrivial.insert(k);
            if new && self.samples.len() < 3 {
                if let Some(s) = ctx.sample {
                    self.samples.push(s);
                }
            }
        }
        for l in ctx.labels {
            *self.labels.entry(l).or_insert(0) += 1;
        }
        for k in ctx.known {
            *self.known.entry(k).or_insert(0) += 1;
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.nontrivial.extend(o.nontrivial);
        self.enumerated_nontrivial += o.enumerated_nontrivial;
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        if self.samples.len() < 6 {
            self.samples.extend(o.samples);
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs code of the system under test; a panic in it is an `Err`
pub fn guarded<T>(f: impl FnOnce() -> T) -> R<T> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let (m, l) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        if l.starts_with("src/") && !l.starts_with("/repo") {
            // relative paths are this crate's, which expects nothing of the code that does not hold
            return format!("what the code did is not what the check could go on with: {m} at {l}");
        }
        format!("the code under test panicked at {l}: {m}")
    })
}

/// where results are printed
static OUT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

/// what the code under test prints is not for the reader of the results
pub fn silence_stdout() {
    use std::os::fd::{AsRawFd as _, FromRawFd as _};
    let null = std::fs::File::options().write(true).open("/dev/null").expect("/dev/null");
    unsafe {
        let fd = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 3);
        assert!(fd > 2, "cannot duplicate standard output");
        OUT.set(std::fs::File::from_raw_fd(fd)).expect("only once");
        libc::dup2(null.as_raw_fd(), 1);
    }
}
pub fn say(m: std::fmt::Arguments) {
    use std::io::Write as _;
    match OUT.get() {
        Some(mut f) => f.write_all(format!("{m}\n").as_bytes()).expect("standard output"),
        None => std::println!("{m}"),
    }
}
pub fn harness_error(m: &str) -> ! {
    eprintln!("CHECK-ERROR: {m}");
    say!("CHECK-ERROR: {m}");
    cleanup();
    std::process::exit(2);
}

static SCRATCH: Mutex<Option<PathBuf>> = Mutex::new(None);

fn cleanup() {
    if let Ok(mut g) = SCRATCH.lock() {
        if let Some(d) = g.take() {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}

pub fn scratch_root() -> PathBuf {
    let mut g = SCRATCH.lock().unwrap();
    g.get_or_insert_with(|| {
        let base = std::env::var_os("VP_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let d = base.join(format!("vp-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    })
    .clone()
}

fn run_case(p: &Prop, tape: &[u32], ctx: &mut Ctx) -> R {
    let mut t = Tape::new(tape);
    match guarded(|| (p.case)(&mut t, ctx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

pub struct Opts {
    pub thorough: bool,
    pub seed: u64,
    pub verif: PathBuf,
    pub bin: PathBuf,
    pub cases: Option<u32>,
}

/// signatures (first word after the property) of the findings listed for a property
fn known_findings(o: &Opts, id: &str) -> Arc<Vec<String>> {
    let text = std::fs::read_to_string(o.verif.join("known_findings.txt")).unwrap_or_default();
    let pre = format!("known: property={id} ");
    Arc::new(text.lines().filter_map(|l| l.strip_prefix(&pre)).filter_map(|l| l.split_whitespace().next()).map(|s| s.to_string()).collect())
}

fn write_replay(p: &Prop, o: &Opts, tape: &[u32], msg: &str) -> PathBuf {
    let dir = o.verif.join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    tape.hash(&mut h);
    let path = dir.join(format!("{}-{:016x}.json", p.id, h.finish()));
    let j = serde_json::json!({
        "property": p.id, "thorough": o.thorough, "seed": o.seed, "tape": tape, "failure": msg,
        "replay_with": format!("cd /verif && ./check.sh --replay {}", path.display()),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
    path
}

const SHARDS: usize = 8;

/// A single case may use this much processor time of its own thread before it counts as hanging (cases take
/// milliseconds), and this much wall clock time before the run is given up without a verdict
const HANG_SECS: u64 = 60;
const LOST_SECS: u64 = 700;

fn thread_cpu(h: &std::thread::JoinHandle<()>) -> Option<u64> {
    use std::os::unix::thread::JoinHandleExt;
    unsafe {
        let mut clk = 0;
        if libc::pthread_getcpuclockid(h.as_pthread_t(), &mut clk) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as u64)
    }
}

pub fn run(p: &'static Prop, o: &Opts) -> i32 {
    let start = Instant::now();
    // (for mutation runs: part of the cases, failures not shrunk)
    let percent: Option<u64> = std::env::var("VP_PERCENT").ok().and_then(|s| s.parse().ok());
    let total = o.cases.unwrap_or(if o.thorough { p.thorough } else { p.quick });
    let total = percent.map_or(total, |k| (total as u64 * k / 100) as u32);
    let root = scratch_root();
    let stop = Arc::new(AtomicBool::new(false));
    let results: Arc<Mutex<Vec<(usize, Vec<u32>, String)>>> = Arc::default();
    let stats: Arc<Mutex<Stats>> = Arc::default();
    // (start in ms since `start` + 1, or 0) per shard, and the tape being run
    let busy: Arc<Vec<(AtomicU64, Mutex<Vec<u32>>)>> = Arc::new((0..SHARDS).map(|_| (AtomicU64::new(0), Mutex::new(vec![]))).collect());
    let oa = Arc::new(Opts { thorough: o.thorough, seed: o.seed, verif: o.verif.clone(), bin: o.bin.clone(), cases: o.cases });

    let listed = known_findings(o, p.id);

    let mut handles = vec![];
    for shard in 0..SHARDS {
        let listed = listed.clone();
        let (stop, results, stats, busy, o, root) = (stop.clone(), results.clone(), stats.clone(), busy.clone(), oa.clone(), root.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let dir = root.join(format!("s{shard}"));
                    std::fs::create_dir_all(&dir).expect("scratch directory");
                    let mut st = Stats::default();
                    if let Some(en) = p.enumerate {
                        let mut ctx = Ctx::new(dir.clone(), o.bin.clone(), o.thorough, shard, listed.clone());
                        let r = guarded(|| en(&mut ctx, shard, SHARDS)).and_then(|r| r);
                        let nt = ctx.extra_nontrivial > 0;
                        if let Err(e) = r {
                            results.lock().unwrap().push((shard, vec![u32::MAX, shard as u32], format!("(enumerated) {e}")));
                            stop.store(true, Ordering::SeqCst);
                        }
                        if nt {
                            ctx.extra_evals = ctx.extra_evals.saturating_sub(1);
                        }
                        st.absorb(ctx, &[]);
                    }
                    let mut seed = [0u8; 32];
                    seed[..8].copy_from_slice(&o.seed.to_le_bytes());
                    seed[8..16].copy_from_slice(&(shard as u64).to_le_bytes());
                    for (i, b) in p.id.bytes().enumerate() {
                        seed[16 + i] = b;
                    }
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
                    let n = total / SHARDS as u32 + u32::from(shard < total as usize % SHARDS);
                    let config = Config {
                        cases: n,
                        max_shrink_iters: if percent.is_some() { 0 } else { 3000 },
                        max_shrink_time: 40_000,
                        failure_persistence: None,
                        source_file: None,
                        ..Config::default()
                    };
                    if n > 0 && !stop.load(Ordering::SeqCst) {
                        let mut runner = TestRunner::new_with_rng(config, rng);
                        let st_cell = RefCell::new(&mut st);
                        let failed = std::cell::Cell::new(false);
                        let r = runner.run(&TapeStrategy { len: p.tape }, |tape| {
                            if stop.load(Ordering::SeqCst) && !failed.get() {
                                return Ok(());
                            }
                            *busy[shard].1.lock().unwrap() = tape.clone();
                            busy[shard].0.store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                            let mut ctx = Ctx::new(dir.clone(), o.bin.clone(), o.thorough, shard, listed.clone());
                            ctx.want_sample = st_cell.borrow().samples.len() < 3;
                            let r = run_case(p, &tape, &mut ctx);
                            busy[shard].0.store(0, Ordering::SeqCst);
                            if !failed.get() {
                                st_cell.borrow_mut().absorb(ctx, &tape);
                            }
                            match r {
                                Ok(()) => Ok(()),
                                Err(e) => {
                                    failed.set(true);
                                    stop.store(true, Ordering::SeqCst);
                                    Err(TestCaseError::fail(e))
                                }
                            }
                        });
                        match r {
                            Ok(()) => (),
                            Err(TestError::Fail(why, tape)) => results.lock().unwrap().push((shard, tape, why.message().to_string())),
                            Err(TestError::Abort(why)) => harness_error(&format!("proptest aborted: {why}")),
                        }
                    }
                    stats.lock().unwrap().merge(st);
                })
                .unwrap(),
        );
    }
    // watchdog: per shard, the case being run and the processor time when it began
    let mut seen = vec![(0u64, 0u64); SHARDS];
    while !handles.iter().all(|h| h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        let now = start.elapsed().as_millis() as u64 + 1;
        for (k, b) in busy.iter().enumerate() {
            let s = b.0.load(Ordering::SeqCst);
            let cpu = if handles[k].is_finished() { None } else { thread_cpu(&handles[k]) };
            if s == 0 || s != seen[k].0 {
                seen[k] = (s, cpu.unwrap_or(0));
                continue;
            }
            if now > s + LOST_SECS * 1000 {
                harness_error("a case did not finish (inconclusive)");
            }
            if cpu.is_some_and(|c| c > seen[k].1 + HANG_SECS) {
                let tape = b.1.lock().unwrap().clone();
                let path = write_replay(p, o, &tape, "case did not finish (hang)");
                say!("failure: case did not finish within {HANG_SECS} s of processor time");
                say!("VIOLATION property={} replay={}", p.id, path.display());
                evidence(p, o, &stats.lock().unwrap(), start, 1);
                cleanup();
                std::process::exit(1);
            }
        }
    }
    for h in handles {
        if h.join().is_err() {
            let (m, l) = ("shard thread panicked".to_string(), String::new());
            harness_error(&format!("{m} {l}"));
        }
    }
    let mut fails = std::mem::take(&mut *results.lock().unwrap());
    fails.sort_by_key(|f| (f.1.len(), f.0));
    let st = stats.lock().unwrap();
    evidence(p, o, &st, start, fails.len());
    let mut code = 0;
    for (k, n) in &st.known {
        say!("KNOWN-FINDING: property={} {k} (seen {n} times)", p.id);
    }
    if let Some((_, tape, msg)) = fails.first() {
        let path = write_replay(p, o, tape, msg);
        say!("failure: {msg}");
        say!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    } else {
        say!(
            "{} held: {} evaluations, {} distinct non-trivial, {:.1} s",
            p.id,
            st.evals,
            st.nontrivial.len() as u64 + st.enumerated_nontrivial,
            start.elapsed().as_secs_f64()
        );
        if std::env::var_os("VP_LABELS").is_some() {
            for (l, n) in &st.labels {
                say!("  {l}: {n}");
            }
        }
    }
    cleanup();
    code
}

fn evidence(p: &Prop, o: &Opts, st: &Stats, start: Instant, violations: usize) {
    let dir = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut samples = st.samples.clone();
    samples.truncate(6);
    for s in &mut samples {
        if s.len() > 2000 {
            let mut n = 2000;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s.push_str("...");
        }
    }
    let j = serde_json::json!({
        "property": p.id,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": st.nontrivial.len() as u64 + st.enumerated_nontrivial,
            "rule": p.rule,
            "samples": samples,
            "classes": st.labels,
            "known_findings_seen": st.known,
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&j).unwrap() + "\n").expect("evidence file");
}

pub fn replay(props: &[&'static Prop], o: &Opts, file: &Path) -> i32 {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file is JSON");
    let id = j["property"].as_str().unwrap();
    let p = props.iter().find(|p| p.id == id).expect("known property");
    let tape: Vec<u32> = j["tape"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u32).collect();
    let thorough = j["thorough"].as_bool().unwrap_or(false);
    let mut ctx = Ctx::new(scratch_root().join("s0"), o.bin.clone(), thorough, 0, known_findings(o, id));
    std::fs::create_dir_all(&ctx.dir).expect("scratch directory");
    let r = if tape.first() == Some(&u32::MAX) && tape.len() == 2 {
        guarded(|| (p.enumerate.unwrap())(&mut ctx, tape[1] as usize, SHARDS)).and_then(|r| r)
    } else {
        run_case(p, &tape, &mut ctx)
    };
    if let Some(s) = &ctx.sample {
        say!("case: {s}");
    }
    if std::env::var_os("VP_KEEP").is_none() {
        cleanup();
    } else {
        say!("scratch kept in {}", ctx.dir.display());
    }
    match r {
        Ok(()) => {
            say!("{id}: replayed case passes");
            0
        }
        Err(e) => {
            say!("failure: {e}");
            say!("VIOLATION property={id} replay={}", file.display());
            1
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        write!(s, "{x:02x}").unwrap();
    }
    s
}
