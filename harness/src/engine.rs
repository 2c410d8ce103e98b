//! Enumeration engine: every check is a deterministic enumeration of cases; case `i` belongs to
//! shard `i % n`. The engine records what was covered, attributes panics of the code under test,
//! crashes and hangs to the case that caused them, and writes the result of the shard as JSON.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

thread_local! {
    static IN_IMPL: Cell<u32> = Cell::new(0);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Milliseconds since start at which the current case began (0: none running)
static CASE_START: AtomicU64 = AtomicU64::new(0);
static CASE_IDX: AtomicU64 = AtomicU64::new(0);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if IN_IMPL.with(|c| c.get()) == 0 {
            eprintln!("harness panic: {} at {}", msg, loc);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", msg, loc));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Run code under test. `Err` holds the panic message.
pub fn imp<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_IMPL.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_IMPL.with(|c| c.set(c.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    // fixed keys: the value must not depend on the process
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || (c as u32) == 127 || (c as u32) == 0x2028 || (c as u32) == 0x2029 => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Violation {
    pub idx: u64,
    pub key: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub evaluations: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub hist: BTreeMap<String, u64>,
    pub families: BTreeMap<String, u64>,
    pub samples: BTreeMap<String, Vec<String>>,
    pub nontrivial: HashSet<u64>,
}

pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    shard: u64,
    nshards: u64,
    only: Option<u64>,
    next: u64,
    slot: File,
    pub family: String,
    pub st: Stats,
    pub violations: Vec<Violation>,
    pub nviol: u64,
    /// free-form lines for another engine (type-level jobs)
    pub out_lines: Vec<String>,
}

pub struct Case<'a> {
    pub idx: u64,
    pub label: String,
    pub st: &'a mut Stats,
    pub fails: Vec<(String, String)>,
    pub family: &'a str,
    pub out_lines: &'a mut Vec<String>,
}

impl<'a> Case<'a> {
    /// Record that the property does not hold in this case. `what` identifies the failing input
    /// within the case (stable from run to run), `detail` is for the reader.
    pub fn fail(&mut self, what: impl Into<String>, detail: impl Into<String>) {
        if self.fails.len() < 5 {
            self.fails.push((what.into(), detail.into()));
        }
    }
    pub fn eval(&mut self, n: u64) {
        self.st.evaluations += n;
    }
    pub fn hist(&mut self, k: &str) {
        *self.st.hist.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn histn(&mut self, k: &str, n: u64) {
        *self.st.hist.entry(k.to_string()).or_insert(0) += n;
    }
    /// A case that is non-trivial by the rule of the check
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, t: &T) {
        // beyond this many the count is a lower bound
        if self.st.nontrivial.len() < 8_000_000 {
            self.st.nontrivial.insert(h64(t));
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        let v = self.st.samples.entry(self.family.to_string()).or_default();
        if v.len() < 2 {
            v.push(s());
        }
    }
}

impl Ctx {
    pub fn family(&mut self, name: &str) {
        if std::env::var_os("TLMC_TIMES").is_some() {
            eprintln!("{} ms: {} from case {}", now_ms(), name, self.next);
        }
        self.family = name.to_string();
    }

    /// Whether the next case belongs to this shard. Cheap path for long enumerations.
    pub fn skip(&mut self) -> bool {
        let i = self.next;
        let mine = match self.only {
            Some(o) => o == i,
            None => i % self.nshards == self.shard,
        };
        if !mine {
            self.next += 1;
        }
        !mine
    }

    pub fn case(&mut self, label: impl FnOnce() -> String, f: impl FnOnce(&mut Case)) {
        if self.skip() {
            return;
        }
        let idx = self.next;
        self.next += 1;
        self.slot.write_all_at(&(idx + 1).to_le_bytes(), 0).unwrap();
        CASE_IDX.store(idx, Ordering::SeqCst);
        CASE_START.store(now_ms(), Ordering::SeqCst);
        self.st.cases += 1;
        *self.st.families.entry(self.family.clone()).or_insert(0) += 1;
        let fam = self.family.clone();
        let mut c = Case { idx, label: label(), st: &mut self.st, fails: vec![], family: &fam, out_lines: &mut self.out_lines };
        f(&mut c);
        let label = std::mem::take(&mut c.label);
        let fails = std::mem::take(&mut c.fails);
        CASE_START.store(0, Ordering::SeqCst);
        for (what, detail) in fails {
            self.nviol += 1;
            if self.violations.len() < 200 {
                self.violations.push(Violation { idx, key: format!("{} | {}", label, what), detail });
            }
        }
    }
}

static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now_ms() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

extern "C" {
    fn open(path: *const u8, flags: i32, ...) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn _exit(code: i32) -> !;
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

/// The crate under test prints whole tables, line by line, while it parses. What it prints is
/// dropped here instead of in /dev/null: a system call per line is most of the time otherwise.
#[no_mangle]
pub extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd == 1 {
        return n as isize;
    }
    unsafe { syscall(1, fd as i64, buf, n) as isize }
}

pub struct Args {
    pub check: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub nshards: u64,
    pub only: Option<u64>,
    pub out: String,
    pub case_ms: u64,
}

pub fn run(a: Args, f: impl FnOnce(&mut Ctx) + Send + 'static) {
    install_panic_hook();
    now_ms();
    unsafe {
        let fd = open(b"/dev/null\0".as_ptr(), 1);
        dup2(fd, 1);
        // Address space cap: a runaway computation fails here and not in the sandbox
        let lim = [3u64 << 30, 3u64 << 30];
        setrlimit(9, &lim);
        let core = [0u64, 0u64];
        setrlimit(4, &core);
    }
    let slot = File::create(format!("{}.slot", a.out)).unwrap();
    slot.write_all_at(&0u64.to_le_bytes(), 0).unwrap();
    let hang = format!("{}.hang", a.out);
    let case_ms = a.case_ms;
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let s = CASE_START.load(Ordering::SeqCst);
        if s != 0 && now_ms() > s + case_ms && CASE_START.load(Ordering::SeqCst) == s {
            let _ = std::fs::write(&hang, format!("{}", CASE_IDX.load(Ordering::SeqCst)));
            unsafe { _exit(97) }
        }
    });
    let out = a.out.clone();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut ctx = Ctx {
                thorough: a.thorough,
                seed: a.seed,
                shard: a.shard,
                nshards: a.nshards,
                only: a.only,
                next: 0,
                slot,
                family: "default".into(),
                st: Stats::default(),
                violations: vec![],
                nviol: 0,
                out_lines: vec![],
            };
            f(&mut ctx);
            ctx
        })
        .unwrap();
    let ctx = match h.join() {
        Ok(c) => c,
        Err(_) => {
            eprintln!("harness error in case {}", CASE_IDX.load(Ordering::SeqCst));
            unsafe { _exit(98) }
        }
    };
    let s = &ctx.st;
    let mut j = String::from("{");
    j.push_str(&format!(
        "\"total_cases\":{},\"cases\":{},\"evaluations\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"nviol\":{},",
        ctx.next, s.cases, s.evaluations, s.states, s.transitions, s.traces, ctx.nviol
    ));
    let m = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
    j.push_str(&format!("\"hist\":{{{}}},\"families\":{{{}}},", m(&s.hist), m(&s.families)));
    j.push_str(&format!(
        "\"samples\":{{{}}},",
        s.samples
            .iter()
            .map(|(k, v)| format!("{}:[{}]", jstr(k), v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    ));
    j.push_str(&format!(
        "\"violations\":[{}]",
        ctx.violations
            .iter()
            .map(|v| format!("{{\"idx\":{},\"key\":{},\"detail\":{}}}", v.idx, jstr(&v.key), jstr(&v.detail)))
            .collect::<Vec<_>>()
            .join(",")
    ));
    j.push('}');
    std::fs::write(&out, j).unwrap();
    let mut nt: Vec<u64> = s.nontrivial.iter().copied().collect();
    nt.sort();
    let bytes: Vec<u8> = nt.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(format!("{}.nt", out), bytes).unwrap();
    if !ctx.out_lines.is_empty() {
        std::fs::write(format!("{}.jobs", out), ctx.out_lines.join("\n") + "\n").unwrap();
    }
    unsafe { _exit(0) }
}

// ----------------------------------------------------------------------------- hash seeds (C23)

/// 0: the system's randomness; otherwise what the next request for random bytes is answered from
static HASH_SEED: AtomicU64 = AtomicU64::new(0);
static HASH_ASKED: AtomicU64 = AtomicU64::new(0);

/// The standard library asks for the keys of its hash functions here, once per thread. The environment's
/// answer is chosen by the check that explores it.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    let s = HASH_SEED.load(Ordering::SeqCst);
    if s == 0 {
        return unsafe { syscall(318, buf, n, flags as i64) as isize };
    }
    HASH_ASKED.fetch_add(1, Ordering::SeqCst);
    let mut x = s;
    for i in 0..n {
        if i % 8 == 0 {
            x = x.wrapping_add(0x9e3779b97f4a7c15);
        }
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        unsafe { *buf.add(i) = (z >> (8 * (i % 8))) as u8 };
    }
    n as isize
}

/// Run `f` on a new thread whose hash functions are keyed from `seed`; the number of requests for
/// random bytes it made
pub fn with_hash_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> (T, u64) {
    HASH_SEED.store(seed, Ordering::SeqCst);
    let before = HASH_ASKED.load(Ordering::SeqCst);
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, f).unwrap().join());
    let n = HASH_ASKED.load(Ordering::SeqCst) - before;
    HASH_SEED.store(0, Ordering::SeqCst);
    match r {
        Ok(x) => (x, n),
        Err(_) => panic!("thread with seed {}", seed),
    }
}
