//! PRNG, reporting, monitors for crashes and lack of progress, guarded memory.

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E3779B97F4A7C15)
    }
    /// A generator for one case: the same whatever thread runs it.
    pub fn at(seed: u64, stream: u64, index: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0xD1342543DE82EF95) ^ stream.wrapping_mul(0xA24BAED4963EE407) ^ index.wrapping_mul(0x9FB21C651E98DF25));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, one_in: u64) -> bool {
        self.below(one_in) == 0
    }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.usize(s.len())]
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.next().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
    pub fn key(&mut self) -> [u8; 32] {
        let mut k = [0; 32];
        self.fill(&mut k);
        k
    }
}

pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_add(0x9E3779B97F4A7C15).wrapping_mul(0xBF58476D1CE4E5B9);
    z ^= z >> 29;
    z = z.wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 32)
}

pub fn sig(parts: &[u64]) -> u64 {
    parts.iter().fold(0x1234567, |h, &x| mix(h, x))
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn short_hex(b: &[u8]) -> String {
    if b.len() <= 80 {
        hex(b)
    } else {
        format!("{}...({} bytes)", hex(&b[..80]), b.len())
    }
}

// ---------------------------------------------------------------- report

pub struct Rep {
    pub evaluations: AtomicU64,
    distinct: Vec<Mutex<HashSet<u64>>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    pub violations: Mutex<Vec<String>>,
    notes: Mutex<Vec<String>>,
    stop: AtomicBool,
    fast: [AtomicU64; 8],
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Rep {
    pub fn new() -> Rep {
        Rep {
            evaluations: AtomicU64::new(0),
            distinct: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            counters: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            notes: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            fast: Default::default(),
        }
    }
    pub fn eval(&self, sig: u64) {
        self.evaluations.fetch_add(1, Relaxed);
        self.distinct[(sig >> 58) as usize].lock().unwrap().insert(sig);
    }
    pub fn evals(&self, n: u64) {
        self.evaluations.fetch_add(n, Relaxed);
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }
    /// A counter for hot paths; flush_fast names it.
    pub fn count_fast(&self, i: usize, n: u64) {
        self.fast[i].fetch_add(n, Relaxed);
    }
    pub fn flush_fast(&self, i: usize, name: &str) {
        let n = self.fast[i].swap(0, Relaxed);
        self.count(name, n);
    }
    pub fn max(&self, name: &str, n: u64) {
        let mut c = self.counters.lock().unwrap();
        let e = c.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn get(&self, name: &str) -> u64 {
        *self.counters.lock().unwrap().get(name).unwrap_or(&0)
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            let t = f();
            s.push(t);
        }
    }
    pub fn note(&self, s: String) {
        self.notes.lock().unwrap().push(s);
    }
    pub fn violation(&self, what: String) {
        self.stop.store(true, SeqCst);
        let mut v = self.violations.lock().unwrap();
        if v.len() < 10 {
            v.push(what);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    /// Runs code under test: a panic in it is a violation.
    pub fn sut<R>(&self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        match sut(f) {
            Ok(r) => Some(r),
            Err(msg) => {
                self.violation(format!("panic in {}: {} [{}]", what, msg, ctx_string()));
                None
            }
        }
    }
    pub fn json(&self) -> String {
        let list = |v: &Vec<String>| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
        let distinct: usize = self.distinct.iter().map(|d| d.lock().unwrap().len()).sum();
        format!(
            "{{\"evaluations\":{},\"distinct\":{},\"counters\":{{{}}},\"samples\":[{}],\"notes\":[{}],\"violations\":[{}]}}",
            self.evaluations.load(Relaxed),
            distinct,
            self.counters.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
            list(&self.samples.lock().unwrap()),
            list(&self.notes.lock().unwrap()),
            list(&self.violations.lock().unwrap())
        )
    }
}

// ------------------------------------------------- context of the current case

const NCTX: usize = 8;

thread_local! {
    static CTX_OP: Cell<&'static str> = const { Cell::new("") };
    static CTX_V: Cell<[u64; NCTX]> = const { Cell::new([0; NCTX]) };
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static PANIC_MSG: Cell<Option<String>> = const { Cell::new(None) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// Cheap: called before each case, read only when something goes wrong.
pub fn ctx(op: &'static str, v: &[u64]) {
    CTX_OP.with(|c| c.set(op));
    let mut a = [0; NCTX];
    let n = v.len().min(NCTX);
    a[..n].copy_from_slice(&v[..n]);
    CTX_V.with(|c| c.set(a));
}

pub fn ctx_string() -> String {
    format!("{} {:?}", CTX_OP.with(|c| c.get()), CTX_V.with(|c| c.get()))
}

const SLOTS: usize = 512;
struct Slot {
    seq: AtomicU64,  // odd while in a call
    who: AtomicU64,  // pthread_t
    limit: AtomicU64, // CPU seconds
}
static SLOT_TAB: [Slot; SLOTS] = [const { Slot { seq: AtomicU64::new(0), who: AtomicU64::new(0), limit: AtomicU64::new(0) } }; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
pub static CPU_LIMIT: AtomicU64 = AtomicU64::new(90);

/// Ok(result), or the message of a panic in the code under test.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let slot = SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT_SLOT.fetch_add(1, Relaxed));
            if s.get() < SLOTS && !cfg!(miri) {
                SLOT_TAB[s.get()].who.store(unsafe { libc::pthread_self() } as u64, Relaxed);
            }
        }
        s.get()
    });
    if slot < SLOTS {
        SLOT_TAB[slot].seq.fetch_add(1, Relaxed);
    }
    let was = IN_SUT.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|c| c.set(was));
    if slot < SLOTS {
        SLOT_TAB[slot].seq.fetch_add(1, Relaxed);
    }
    r.map_err(|_| PANIC_MSG.with(|m| m.take()).unwrap_or_else(|| "panic in another thread".into()))
}

/// For callbacks from the code under test back into the harness.
pub fn not_sut<R>(f: impl FnOnce() -> R) -> R {
    let was = IN_SUT.with(|c| c.replace(false));
    let r = f();
    IN_SUT.with(|c| c.set(was));
    r
}

pub const EXIT_CRASH: i32 = 66;
pub const EXIT_STUCK: i32 = 67;

extern "C" fn on_signal(sig: libc::c_int, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let in_sut = IN_SUT.with(|c| c.get());
    let addr = if info.is_null() { 0 } else { unsafe { (*info).si_addr() as usize } };
    eprintln!("FATAL signal {} at address {:#x} in_sut={} case: {}", sig, addr, in_sut, ctx_string());
    unsafe { libc::_exit(if in_sut { EXIT_CRASH } else { 68 }) }
}

pub fn install_handlers() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info).replace('\n', " ");
        if !IN_SUT.with(|c| c.get()) {
            eprintln!("PANIC outside of a guarded call: {} case: {}", msg, ctx_string());
        }
        PANIC_MSG.with(|m| m.set(Some(msg)));
    }));
    if cfg!(miri) || std::env::var_os("BKV_NO_SIGNALS").is_some() {
        return;
    }
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as *const () as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

/// Watches for calls that never return: one call that burns far more CPU time
/// than any correct call of these workloads, or a process in which nothing
/// runs at all although a call is outstanding (a deadlock).
pub fn start_watchdog() {
    std::thread::spawn(|| {
        let mut seen = vec![(0u64, 0u64); SLOTS];
        let mut idle = 0;
        let mut last_cpu = cpu_ns(libc::CLOCK_PROCESS_CPUTIME_ID);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let cpu = cpu_ns(libc::CLOCK_PROCESS_CPUTIME_ID);
            let mut outstanding = false;
            for i in 0..NEXT_SLOT.load(SeqCst).min(SLOTS) {
                let seq = SLOT_TAB[i].seq.load(SeqCst);
                if seq % 2 == 0 {
                    continue;
                }
                outstanding = true;
                let mut clk = 0;
                let used = unsafe {
                    if libc::pthread_getcpuclockid(SLOT_TAB[i].who.load(SeqCst) as libc::pthread_t, &mut clk) != 0 {
                        continue;
                    }
                    cpu_ns(clk)
                };
                if seen[i].0 != seq {
                    seen[i] = (seq, used);
                } else if used > seen[i].1 + CPU_LIMIT.load(SeqCst) * 1_000_000_000 {
                    eprintln!("STUCK: one call used more than {} s of CPU time without returning", CPU_LIMIT.load(SeqCst));
                    unsafe { libc::_exit(EXIT_STUCK) }
                }
            }
            if outstanding && cpu < last_cpu + 4_000_000 {
                idle += 1;
            } else {
                idle = 0;
            }
            last_cpu = cpu;
            if idle >= 45 {
                eprintln!("STUCK: a call is outstanding but no thread has run for 45 s (deadlock)");
                unsafe { libc::_exit(EXIT_STUCK) }
            }
        }
    });
}

pub fn cpu_ns(clk: libc::clockid_t) -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(clk, &mut t);
        t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
    }
}

// ---------------------------------------------------------------- parallel driver

pub fn threads() -> usize {
    std::env::var("BKV_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
    })
}

/// Runs f(0..n) on all cores, in blocks, until done or a violation was found.
pub fn par(rep: &Rep, n: u64, f: impl Fn(u64) + Sync) {
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n || rep.stopped() {
                        break;
                    }
                    f(i);
                })
                .unwrap();
        }
    });
}

// ---------------------------------------------------------------- guarded memory

/// Pages with an inaccessible page on each side.
pub struct Guarded {
    base: *mut u8,
    total: usize,
    usable: usize,
}
unsafe impl Send for Guarded {}
unsafe impl Sync for Guarded {}

pub const PAGE: usize = 4096;

impl Guarded {
    pub fn new(min: usize) -> Guarded {
        let usable = (min + PAGE - 1) / PAGE * PAGE + if min == 0 { PAGE } else { 0 };
        let total = usable + 2 * PAGE;
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(base as isize != -1, "mmap");
            assert_eq!(libc::mprotect(base.add(PAGE) as _, usable, libc::PROT_READ | libc::PROT_WRITE), 0);
            Guarded { base, total, usable }
        }
    }
    /// n bytes that end at the inaccessible page
    pub fn at_end(&self, n: usize) -> &mut [u8] {
        assert!(n <= self.usable);
        unsafe { std::slice::from_raw_parts_mut(self.base.add(PAGE + self.usable - n), n) }
    }
    /// n bytes that start right after the inaccessible page
    pub fn at_start(&self, n: usize) -> &mut [u8] {
        assert!(n <= self.usable);
        unsafe { std::slice::from_raw_parts_mut(self.base.add(PAGE), n) }
    }
    pub fn usable(&self) -> usize {
        self.usable
    }
    pub fn read_only(&self, ro: bool) {
        let p = if ro { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE };
        unsafe { assert_eq!(libc::mprotect(self.base.add(PAGE) as _, self.usable, p), 0) }
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as _, self.total);
        }
    }
}
