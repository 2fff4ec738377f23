//! C23: heap use counted by the allocator, stack use by painting the stack.

use crate::api::*;
use crate::oracle::*;
use crate::p_long::Repeat;
use crate::util::*;
use crate::Opts;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};

pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static ON: AtomicU64 = AtomicU64::new(0);

fn up(n: usize) {
    let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
    if ON.load(Relaxed) != 0 {
        let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
        PEAK.fetch_max(l, Relaxed);
    }
}
fn down(n: usize) {
    if ON.load(Relaxed) != 0 {
        LIVE.fetch_sub(n as i64, Relaxed);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        down(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        down(l.size());
        up(n);
        System.realloc(p, l, n)
    }
}

fn allocs() -> u64 {
    ALLOCS.with(|a| a.get())
}

const PAINT: u8 = 0x6d;

/// Deepest stack use of f, on a stack of its own.
pub fn stack_used(size: usize, f: impl FnOnce() + Send) -> usize {
    unsafe {
        let base = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
        assert!(base as isize != -1);
        // the lowest page is a guard: overflowing is a crash, seen by the handler
        const GUARD: usize = 4096;
        libc::mprotect(base as _, GUARD, libc::PROT_NONE);
        std::ptr::write_bytes(base.add(GUARD), PAINT, size - GUARD);
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        assert_eq!(libc::pthread_attr_setstack(&mut attr, base.add(GUARD) as _, size - GUARD), 0);
        let boxed: Box<Box<dyn FnOnce() + Send>> = Box::new(Box::new(f));
        extern "C" fn start(p: *mut libc::c_void) -> *mut libc::c_void {
            let f: Box<Box<dyn FnOnce() + Send>> = unsafe { Box::from_raw(p as *mut _) };
            let mut room = vec![0u8; 1 << 16];
            let alt = libc::stack_t { ss_sp: room.as_mut_ptr() as _, ss_flags: 0, ss_size: room.len() };
            unsafe { libc::sigaltstack(&alt, std::ptr::null_mut()) };
            f();
            let off = libc::stack_t { ss_sp: std::ptr::null_mut(), ss_flags: libc::SS_DISABLE, ss_size: 0 };
            unsafe { libc::sigaltstack(&off, std::ptr::null_mut()) };
            std::ptr::null_mut()
        }
        let mut t: libc::pthread_t = std::mem::zeroed();
        assert_eq!(libc::pthread_create(&mut t, &attr, start, Box::into_raw(boxed) as _), 0);
        libc::pthread_join(t, std::ptr::null_mut());
        let s = std::slice::from_raw_parts(base.add(GUARD), size - GUARD);
        let untouched = s.iter().position(|&b| b != PAINT).unwrap_or(s.len());
        let used = s.len() - untouched;
        libc::munmap(base as _, size);
        used
    }
}

// f must outlive the thread, which is joined: extend the lifetime.
fn used(size: usize, f: impl FnOnce() + Send) -> usize {
    let b: Box<dyn FnOnce() + Send + '_> = Box::new(f);
    let b: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(b) };
    stack_used(size, b)
}

/// Heap that is not put down to the length of the input.
const HELD: i64 = 1 << 18;

fn parts(n: usize, mut next: impl FnMut() -> usize) -> impl Iterator<Item = usize> {
    let mut left = n;
    std::iter::from_fn(move || {
        let p = next().min(left);
        left -= p;
        if p == 0 { None } else { Some(p) }
    })
}

fn feed(m: &Mode, d: &Repeat, pieces: impl Iterator<Item = usize>) {
    let mut h = hasher(m);
    let mut pos = 0;
    for p in pieces {
        h.update(d.at(pos, p));
        pos += p as u64;
    }
    let c = h.clone();
    let mut x = c.finalize_xof();
    std::hint::black_box((x.read(), h.finalize()));
}

fn copied(m: &Mode, d: &Repeat, n: usize) {
    let mut src = d.at(0, n);
    let mut h = hasher(m);
    let _ = baokeshed::copy::copy_wide(&mut src, &mut h);
    std::hint::black_box(h.finalize());
}

pub fn c23(rep: &Rep, o: &Opts) {
    let mut r = Rng::at(o.seed, 230, 0);
    let max: usize = o.size(1 << 30, 5 << 30, 1 << 22);
    let d = Repeat::new(&mut r, max);
    let m = Mode::keyed([9; 32]);
    CPU_LIMIT.store(400, SeqCst);
    // 1. the incremental hasher and copying hold a fixed amount of heap: what
    // inputs of any length need is what short ones need
    let peak = |rep: &Rep, what: &str, f: &mut dyn FnMut()| -> Option<i64> {
        let at = LIVE.load(SeqCst);
        PEAK.store(at, SeqCst);
        let made = allocs();
        rep.sut(what, || f())?;
        rep.count("allocations_incremental", allocs() - made);
        Some(PEAK.load(SeqCst) - at)
    };
    ON.store(1, SeqCst);
    let mut short = 0;
    for lvl in levels() {
        set_level(lvl);
        for i in 0..o.size(200u64, 4000, 10) {
            let mut r = Rng::at(o.seed, 231 + lvl as u64, i);
            let n = crate::gen::length(&mut r, 300_000);
            let pieces = crate::gen::pieces(&mut r, n);
            ctx("heap of hasher case/level", &[i, lvl as u64]);
            rep.eval(sig(&[1, lvl as u64, i]));
            let inc = peak(rep, "incremental hashing", &mut || feed(&m, &d, pieces.iter().cloned()));
            let cp = peak(rep, "copying", &mut || copied(&m, &d, n));
            short = short.max(inc.unwrap_or(0)).max(cp.unwrap_or(0));
        }
    }
    if short > HELD {
        rep.violation(format!("incremental hashing and copying of at most 300000 bytes held {} bytes of heap", short));
    }
    let mut held = vec![];
    for lvl in levels() {
        set_level(lvl);
        for n in [1usize << 22, 1 << 25, max / 4 + 1, max] {
            if n > max || (lvl != 0 && n > (64 << 20)) {
                continue;
            }
            for way in 0..5usize {
                ctx("heap of long hashing level/size/way", &[lvl as u64, n as u64, way as u64]);
                rep.eval(sig(&[4, lvl as u64, n as u64, way as u64]));
                let mut r = Rng::at(o.seed, 232 + lvl as u64, (n + way) as u64);
                let got = match way {
                    0 => peak(rep, "one update", &mut || feed(&m, &d, [n].iter().cloned())),
                    1 => peak(rep, "copying", &mut || copied(&m, &d, n)),
                    2 => peak(rep, "large updates", &mut || feed(&m, &d, parts(n, || 1 << 20))),
                    3 => peak(rep, "random updates", &mut || feed(&m, &d, parts(n, || 1 + r.below(100_000) as usize))),
                    _ if n <= (1 << 25) => peak(rep, "tiny updates", &mut || feed(&m, &d, parts(n, || 1 + r.below(33) as usize))),
                    _ => continue,
                };
                if let Some(p) = got {
                    held.push(p);
                    rep.max("peak_heap_incremental", p as u64);
                    if p > short + HELD {
                        rep.violation(format!("level {}: hashing {} bytes incrementally ({}) held {} bytes of heap, short inputs at most {}", lvl, n, ["in one update", "copied", "in large updates", "in random updates", "in tiny updates"][way], p, short));
                    }
                }
            }
        }
    }
    ON.store(0, SeqCst);
    rep.note(format!("peak heap bytes of incremental hashing: {} for short inputs, {:?} for long ones", short, held));
    set_level(0);
    // 2. stack: incremental constant, one-shot at most logarithmic
    let mut sizes = vec![1 << 12, 1 << 16, 1 << 20, 1 << 24, (1 << 24) + 2049, 1 << 27, max / 2 + 1, max];
    sizes.retain(|&s| s <= max);
    sizes.dedup();
    // threaded one-shot hashing may run other tasks while it waits; its stack is measured in the plain build
    let big = 8 << 20;
    let threaded = cfg!(feature = "rayon");
    for lvl in levels() {
        if !o.thorough && lvl != 0 && lvl != 1 {
            continue;
        }
        set_level(lvl);
        let mut inc = vec![];
        let mut one = vec![];
        for &n in &sizes {
            if lvl == 1 && n > (64 << 20) && !o.thorough {
                continue;
            }
            ctx("stack level/size", &[lvl as u64, n as u64]);
            rep.eval(sig(&[2, lvl as u64, n as u64]));
            inc.push((n, used(big, || {
                let _ = rep.sut("update", || {
                    let mut h = hasher(&m);
                    h.update(d.at(0, n / 3));
                    h.update(d.at(n as u64 / 3, n - n / 3));
                    std::hint::black_box(h.finalize());
                });
            })));
            if !threaded {
                one.push((n, used(big, || {
                    let _ = rep.sut("one-shot", || {
                        std::hint::black_box(digest(&m, d.at(0, n)));
                    });
                })));
            }
        }
        rep.note(format!("level {}: stack bytes incremental {:?}, one-shot {:?}", lvl, inc, one));
        let base = inc.iter().filter(|i| i.0 <= (1 << 20)).map(|i| i.1).max().unwrap();
        for &(n, s) in &inc {
            rep.max("stack_incremental", s as u64);
            if s > base + 8192 {
                rep.violation(format!("level {}: incremental hashing used {} bytes of stack for {} bytes of input, but {} for short ones", lvl, s, n, base));
            }
        }
        // one-shot: per doubling at most what one more tree level could need
        if let Some(&(n0, s0)) = one.get(1) {
            for &(n, s) in &one {
                rep.max("stack_one_shot", s as u64);
                let levels = ((n as f64 / n0 as f64).log2().ceil()).max(0.0) as usize + 1;
                if s > s0 + levels * 8192 {
                    rep.violation(format!("level {}: one-shot hashing used {} bytes of stack for {} bytes of input, but {} for {}", lvl, s, n, s0, n0));
                }
            }
        }
    }
    set_level(0);
    // 3. heap of the one-shot functions, threads included, does not grow with the input
    let mut peaks = vec![];
    digest(&m, d.at(0, 1 << 20)); // pool start-up
    ON.store(1, SeqCst);
    for &n in &sizes {
        let at = LIVE.load(SeqCst);
        PEAK.store(at, SeqCst);
        if rep.sut("one-shot", || { std::hint::black_box(digest(&m, d.at(0, n))); }).is_none() {
            return;
        }
        rep.eval(sig(&[3, n as u64]));
        peaks.push((n, PEAK.load(SeqCst) - at));
    }
    ON.store(0, SeqCst);
    rep.note(format!("peak heap bytes of one-shot hashing: {:?}", peaks));
    let &(n, top) = peaks.iter().max_by_key(|p| p.1).unwrap();
    rep.max("peak_heap_one_shot", top as u64);
    if top > (1 << 20) && n > (8 << 20) {
        rep.violation(format!("one-shot hashing of {} bytes needed {} bytes of heap: {:?}", n, top, peaks));
    }
}
