//! The C implementation, loaded from shared objects that the driver compiled
//! from /repo/c and /repo/c64 with various compilers, levels and sanitizers.

use crate::gen;
use crate::oracle::*;
use crate::p_hash::std_modes;
use crate::p_kern::*;
use crate::util::*;
use crate::Opts;
use std::ffi::{c_void, CString};
use std::sync::Arc;

#[derive(Clone, Copy)]
pub struct Lib(*mut c_void);
unsafe impl Send for Lib {}
unsafe impl Sync for Lib {}

impl Lib {
    pub fn open(path: &str) -> Lib {
        let c = CString::new(path).unwrap();
        let h = unsafe { libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL) };
        if h.is_null() {
            let e = unsafe { std::ffi::CStr::from_ptr(libc::dlerror()) };
            eprintln!("dlopen {}: {:?}", path, e);
            unsafe { libc::_exit(70) }
        }
        Lib(h)
    }
    pub fn sym(&self, name: &str) -> Option<*mut c_void> {
        let c = CString::new(name).unwrap();
        let p = unsafe { libc::dlsym(self.0, c.as_ptr()) };
        if p.is_null() { None } else { Some(p) }
    }
}

/// "label=path" arguments
pub fn libs(o: &Opts) -> Vec<(String, Lib)> {
    o.args
        .iter()
        .filter_map(|a| a.split_once('='))
        .map(|(l, p)| (l.to_string(), Lib::open(p)))
        .collect()
}

// ------------------------------------------------------ kernels

type CCompress = unsafe extern "C" fn(*mut u8, *const u8, u8, u64, u8);
type CMany = unsafe extern "C" fn(*const *const u8, usize, usize, *const u8, u64, *const u64, u8, u8, u8, *mut u8);
type CExact = unsafe extern "C" fn(*const *const u8, usize, *const u8, u64, *const u64, u8, u8, u8, *mut u8);

thread_local! {
    // the tables end at an inaccessible page
    static TABLES: (Guarded, Guarded) = (Guarded::new(PAGE), Guarded::new(PAGE));
}

/// Keys and states are word arrays, so they are aligned; inputs need not be.
#[repr(align(16))]
struct Words([u8; 32]);

fn with_tables<R>(m: &Many, f: impl FnOnce(*const *const u8, *const u8, *const u64) -> R) -> R {
    TABLES.with(|(t, p)| {
        let deltas = t.at_end(17 * 8);
        for i in 0..17 {
            deltas[8 * i..8 * i + 8].copy_from_slice(&m.delta.wrapping_mul(i as u64).to_le_bytes());
        }
        let n = m.inputs.len();
        if n > 100 {
            let key = Words(m.key);
            return f(m.inputs.as_ptr(), key.0.as_ptr(), deltas.as_ptr() as _);
        }
        let ptrs = p.at_end(8 * n.max(1));
        for i in 0..n {
            ptrs[8 * i..8 * i + 8].copy_from_slice(&(m.inputs[i] as usize).to_le_bytes());
        }
        let key = Words(m.key);
        f(ptrs.as_ptr() as _, key.0.as_ptr(), deltas.as_ptr() as _)
    })
}

pub fn c_kernels(label: &str, lib: &Lib) -> Vec<Kernel> {
    let mut v = vec![];
    for (width, prefix) in [(Width::W32, ""), (Width::W64, "baokeshed64_")] {
        for isa in ["portable", "sse41", "avx2", "avx512", "neon"] {
            if let Some(p) = lib.sym(&format!("{}compress_{}", prefix, isa)) {
                let f: CCompress = unsafe { std::mem::transmute(p) };
                v.push(Kernel {
                    name: format!("{}:{}compress_{}", label, prefix, isa),
                    width,
                    op: Op::Compress(Arc::new(move |cv, b, l, o, fl| unsafe {
                        let mut w = Words(*cv);
                        f(w.0.as_mut_ptr(), b, l, o, fl);
                        *cv = w.0;
                    })),
                });
            }
            if let Some(p) = lib.sym(&format!("{}hash_many_{}", prefix, isa)) {
                let f: CMany = unsafe { std::mem::transmute(p) };
                v.push(Kernel {
                    name: format!("{}:{}hash_many_{}", label, prefix, isa),
                    width,
                    op: Op::Many {
                        batch: (0..=41).collect(),
                        blocks: if width == Width::W32 { BLOCKS32.to_vec() } else { BLOCKS64.to_vec() },
                        any_delta: true,
                        f: Arc::new(move |m, out, _| {
                            with_tables(m, |i, k, d| unsafe { f(i, m.inputs.len(), m.blocks, k, m.offset, d, m.flags, m.start, m.end, out) })
                        }),
                    },
                });
            }
            for n in [2usize, 4, 8, 16] {
                if let Some(p) = lib.sym(&format!("{}hash{}_{}", prefix, n, isa)) {
                    let f: CExact = unsafe { std::mem::transmute(p) };
                    v.push(Kernel {
                        name: format!("{}:{}hash{}_{}", label, prefix, n, isa),
                        width,
                        op: Op::Many {
                            batch: vec![n],
                            blocks: (1..34).collect(),
                            any_delta: true,
                            f: Arc::new(move |m, out, _| with_tables(m, |i, k, d| unsafe { f(i, m.blocks, k, m.offset, d, m.flags, m.start, m.end, out) })),
                        },
                    });
                }
            }
        }
    }
    v
}

pub fn ckern(rep: &Rep, o: &Opts) {
    let want = if o.has("w64") { Width::W64 } else { Width::W32 };
    for (label, lib) in libs(o) {
        let ks: Vec<Kernel> = c_kernels(&label, &lib).into_iter().filter(|k| k.width == want || o.has("both")).collect();
        rep.count("kernels", ks.len() as u64);
        if ks.is_empty() {
            rep.note(format!("{}: no kernel symbols found", label));
        }
        rep.sample(|| ks.iter().map(|k| k.name.clone()).collect::<Vec<_>>().join(" "));
        let h = label.bytes().fold(7u64, |h, b| mix(h, b as u64)) >> 20;
        drive(rep, o, &ks, h);
    }
}

// ------------------------------------------- kernels as the crate declares them

/// What Rust code gets that calls the C kernels through the crate's
/// declarations. The casts leave every argument type to the declaration.
#[cfg(all(feature = "c_portable", feature = "kernels"))]
pub fn declared(want: Width) -> Vec<Kernel> {
    let mut v: Vec<Kernel> = vec![];
    macro_rules! compress {
        ($w:expr, $m:ident::$f:ident) => {
            v.push(Kernel {
                name: format!("{} declared in {}", stringify!($f), stringify!($m)),
                width: $w,
                op: Op::Compress(Arc::new(|cv, b, l, o, fl| unsafe {
                    let mut w = Words(*cv);
                    baokeshed::$m::ffi::$f(w.0.as_mut_ptr() as _, b as _, l as _, o as _, fl as _);
                    *cv = w.0;
                })),
            })
        };
    }
    macro_rules! many {
        ($w:expr, $m:ident::$f:ident) => {
            v.push(Kernel {
                name: format!("{} declared in {}", stringify!($f), stringify!($m)),
                width: $w,
                op: Op::Many {
                    batch: (0..=41).collect(),
                    blocks: if $w == Width::W32 { BLOCKS32.to_vec() } else { BLOCKS64.to_vec() },
                    any_delta: true,
                    f: Arc::new(|m, out, _| {
                        with_tables(m, |i, k, d| unsafe {
                            baokeshed::$m::ffi::$f(i as _, m.inputs.len() as _, m.blocks as _, k as _, m.offset as _, d as _, m.flags as _, m.start as _, m.end as _, out as _);
                        })
                    }),
                },
            })
        };
    }
    macro_rules! exact {
        ($w:expr, $n:expr, $m:ident::$f:ident) => {
            v.push(Kernel {
                name: format!("{} declared in {}", stringify!($f), stringify!($m)),
                width: $w,
                op: Op::Many {
                    batch: vec![$n],
                    blocks: (1..34).collect(),
                    any_delta: true,
                    f: Arc::new(|m, out, _| {
                        with_tables(m, |i, k, d| unsafe {
                            baokeshed::$m::ffi::$f(i as _, m.blocks as _, k as _, m.offset as _, d as _, m.flags as _, m.start as _, m.end as _, out as _);
                        })
                    }),
                },
            })
        };
    }
    use Width::*;
    compress!(W32, c::compress_portable);
    many!(W32, c::hash_many_portable);
    compress!(W64, c64::baokeshed64_compress_portable);
    many!(W64, c64::baokeshed64_hash_many_portable);
    #[cfg(feature = "c_sse41")]
    {
        compress!(W32, c::compress_sse41);
        exact!(W32, 4, c::hash4_sse41);
        many!(W32, c::hash_many_sse41);
        exact!(W64, 2, c64::baokeshed64_hash2_sse41);
        many!(W64, c64::baokeshed64_hash_many_sse41);
    }
    #[cfg(feature = "c_avx2")]
    {
        exact!(W32, 8, c::hash8_avx2);
        many!(W32, c::hash_many_avx2);
        compress!(W64, c64::baokeshed64_compress_avx2);
        exact!(W64, 4, c64::baokeshed64_hash4_avx2);
        many!(W64, c64::baokeshed64_hash_many_avx2);
    }
    #[cfg(feature = "c_avx512")]
    {
        compress!(W32, c::compress_avx512);
        exact!(W32, 4, c::hash4_avx512);
        exact!(W32, 8, c::hash8_avx512);
        exact!(W32, 16, c::hash16_avx512);
        many!(W32, c::hash_many_avx512);
        compress!(W64, c64::baokeshed64_compress_avx512);
        exact!(W64, 2, c64::baokeshed64_hash2_avx512);
        exact!(W64, 4, c64::baokeshed64_hash4_avx512);
        exact!(W64, 8, c64::baokeshed64_hash8_avx512);
        many!(W64, c64::baokeshed64_hash_many_avx512);
    }
    #[cfg(feature = "c_neon")]
    {
        exact!(W32, 4, c::hash4_neon);
        many!(W32, c::hash_many_neon);
        exact!(W64, 2, c64::baokeshed64_hash2_neon);
        many!(W64, c64::baokeshed64_hash_many_neon);
    }
    v.retain(|k| k.width == want);
    v
}

pub fn cdecl(rep: &Rep, o: &Opts) {
    #[cfg(all(feature = "c_portable", feature = "kernels"))]
    {
        let ks = declared(if o.has("w64") { Width::W64 } else { Width::W32 });
        rep.count("kernels", ks.len() as u64);
        rep.sample(|| ks.iter().map(|k| k.name.clone()).collect::<Vec<_>>().join(", "));
        drive(rep, o, &ks, 977);
        if !o.has("w64") {
            declared_chunks(rep, o);
        }
    }
    #[cfg(not(all(feature = "c_portable", feature = "kernels")))]
    {
        let _ = o;
        rep.note("the declared kernels do not fit this tree; they were not observed".into());
    }
}

/// The chunk state through the declarations: any split of a chunk, finalized
/// as the root and as a child, in the middle as well.
#[cfg(all(feature = "c_portable", feature = "kernels"))]
fn declared_chunks(rep: &Rep, o: &Opts) {
    use baokeshed::c::{ffi, ChunkState};
    let mut r = Rng::at(o.seed, 97, 0);
    let modes = std_modes(&mut r);
    let data = r.bytes(2048 + 64);
    par(rep, o.size(20_000u64, 400_000, 50), |i| {
        let mut r = Rng::at(o.seed, 98, i);
        let m = &modes[r.usize(modes.len())];
        let n = if i <= 2048 { i as usize } else { r.usize(2049) };
        let at = r.usize(64);
        let pieces = if i <= 2048 { vec![n] } else { gen::pieces(&mut r, n) };
        ctx("declared chunk state case", &[i]);
        rep.eval(sig(&[7, i]));
        let finish = |c: *const ChunkState, root: bool| unsafe {
            let mut out = [0x77u8; 48];
            ffi::chunk_state_finalize(c, root, out.as_mut_ptr().add(8) as _);
            out
        };
        let judge = |pos: usize, root: bool, got: [u8; 48]| {
            let node = chunk_node(&data[at..at + pos], &m.words(), 0, m.flags());
            let want = if root { node.root_hash() } else { cv_bytes(&node.chain()) };
            if got[8..40] != want {
                rep.violation(format!("declared chunk state, {}, {} bytes of {:?}, root {}: got {} want {}", m.name(), pos, pieces, root, hex(&got[8..40]), hex(&want)));
            }
            if got[..8] != [0x77; 8] || got[40..] != [0x77; 8] {
                rep.violation("chunk_state_finalize wrote outside its output".into());
            }
        };
        let words: Vec<u32> = m.words().to_vec();
        unsafe {
            let mut st: std::mem::MaybeUninit<ChunkState> = std::mem::MaybeUninit::uninit();
            std::ptr::write_bytes(st.as_mut_ptr() as *mut u8, 0xC3, std::mem::size_of::<ChunkState>());
            ffi::chunk_state_init(st.as_mut_ptr(), words.as_ptr() as _, m.flags() as _);
            let mut pos = 0;
            for &l in &pieces {
                ffi::chunk_state_update(st.as_mut_ptr(), data[at + pos..].as_ptr() as _, l as _);
                pos += l;
                if r.chance(4) {
                    let root = r.chance(2);
                    judge(pos, root, finish(st.as_ptr(), root));
                }
            }
            judge(pos, false, finish(st.as_ptr(), false));
            judge(pos, true, finish(st.as_ptr(), true));
        }
        rep.count("chunk_states", 1);
    });
}

// ------------------------------------------------------ the stateful hasher

type CInit = unsafe extern "C" fn(*mut u8, *const u8, u8);
type CUpdate = unsafe extern "C" fn(*mut u8, *const u8, usize);
type CFinal = unsafe extern "C" fn(*const u8, *mut u8);

#[derive(Clone)]
pub struct CApi {
    pub label: String,
    init: CInit,
    update: CUpdate,
    fin: CFinal,
}

/// The size of the state that the Rust binding allocates for the C code, or
/// the one asked for.
pub fn state_size() -> usize {
    if let Some(n) = std::env::var_os("BKV_STATE") {
        return n.to_str().unwrap().parse().unwrap();
    }
    #[cfg(feature = "c_portable")]
    {
        std::mem::size_of::<baokeshed::c::Hasher>()
    }
    #[cfg(not(feature = "c_portable"))]
    {
        8192
    }
}

impl CApi {
    pub fn get(label: &str, lib: &Lib) -> Option<CApi> {
        unsafe {
            Some(CApi {
                label: label.into(),
                init: std::mem::transmute(lib.sym("hasher_init")?),
                update: std::mem::transmute(lib.sym("hasher_update")?),
                fin: std::mem::transmute(lib.sym("hasher_finalize")?),
            })
        }
    }
}

/// A hasher whose state object ends at an inaccessible page (or lives in an
/// exactly sized heap block, for ASan's benefit).
pub struct CHasher {
    api: CApi,
    mem: Mem,
    out: Mem,
}

pub enum Mem {
    Guard(Guarded, usize),
    // exact heap allocation, 8-aligned
    Heap(*mut u8, usize),
}
unsafe impl Send for Mem {}

impl Mem {
    pub fn new(n: usize, heap: bool) -> Mem {
        if heap {
            let p = unsafe { libc::malloc(n.max(1)) } as *mut u8;
            Mem::Heap(p, n)
        } else {
            Mem::Guard(Guarded::new(n), n)
        }
    }
    pub fn ptr(&self) -> *mut u8 {
        match self {
            Mem::Guard(g, n) => g.at_end(*n).as_mut_ptr(),
            Mem::Heap(p, _) => *p,
        }
    }
    pub fn slice(&self) -> &mut [u8] {
        match self {
            Mem::Guard(g, n) => g.at_end(*n),
            Mem::Heap(p, n) => unsafe { std::slice::from_raw_parts_mut(*p, *n) },
        }
    }
}
impl Drop for Mem {
    fn drop(&mut self) {
        if let Mem::Heap(p, _) = self {
            unsafe { libc::free(*p as _) }
        }
    }
}

fn asan() -> bool {
    std::env::var_os("BKV_HEAP").is_some()
}

impl CHasher {
    pub fn new(api: &CApi, mode: &Mode) -> CHasher {
        let mem = Mem::new((state_size() + 7) / 8 * 8, asan());
        mem.slice().fill(0xC3); // never rely on zeroed memory
        let key = Mem::new(32, asan());
        key.slice().copy_from_slice(&cv_bytes(&mode.words()));
        unsafe { (api.init)(mem.ptr(), key.ptr(), mode.flags()) };
        CHasher { api: api.clone(), mem, out: Mem::new(32, asan()) }
    }
    pub fn update(&mut self, p: *const u8, n: usize) {
        unsafe { (self.api.update)(self.mem.ptr(), p, n) }
    }
    pub fn finalize(&self) -> [u8; 32] {
        self.out.slice().fill(0x99);
        unsafe { (self.api.fin)(self.mem.ptr(), self.out.ptr()) };
        let mut h = [0; 32];
        h.copy_from_slice(self.out.slice());
        h
    }
    pub fn state(&self) -> &mut [u8] {
        self.mem.slice()
    }
    pub fn duplicate(&self) -> CHasher {
        let mem = Mem::new(self.mem.slice().len(), asan());
        mem.slice().copy_from_slice(self.mem.slice());
        CHasher { api: self.api.clone(), mem, out: Mem::new(32, asan()) }
    }
}

/// Feeds a piece from memory that ends where the piece ends.
fn feed(h: &mut CHasher, g: &Guarded, piece: &[u8], r: &mut Rng) {
    if asan() {
        let m = Mem::new(piece.len(), true);
        m.slice().copy_from_slice(piece);
        h.update(m.ptr(), piece.len());
        return;
    }
    let s = if r.chance(4) { g.at_start(piece.len()) } else { g.at_end(piece.len()) };
    s.copy_from_slice(piece);
    h.update(s.as_ptr(), piece.len());
}

const GMAX: usize = 300_000;
thread_local! {
    static IN: Guarded = Guarded::new(GMAX);
}

fn c_history(rep: &Rep, api: &CApi, p: &Prefix, pieces: &[usize], how: u64, tag: u64) {
    ctx("C history mode/pieces/first/tag", &[p.mode.kind as u64, pieces.len() as u64, pieces.first().copied().unwrap_or(0) as u64, tag]);
    let mut r = Rng::new(how);
    let mut pos = 0;
    let Some(mut h) = rep.sut(&api.label, || CHasher::new(api, &p.mode)) else { return };
    let check = |h: &CHasher, pos: usize| -> bool {
        let Some(got) = rep.sut(&api.label, || h.finalize()) else { return false };
        let want = p.hash(pos);
        if got != want {
            rep.violation(format!("{}: {} of {} bytes fed as {:?} (tag {}): got {} want {}", api.label, p.mode.name(), pos, pieces, tag, hex(&got), hex(&want)));
            return false;
        }
        true
    };
    for &l in pieces {
        let ok = IN.with(|g| {
            rep.sut(&api.label, || feed(&mut h, g, &p.data[pos..pos + l], &mut r))
        });
        if ok.is_none() {
            return;
        }
        pos += l;
        if how != 0 && r.chance(4) {
            if !check(&h, pos) {
                return;
            }
        }
        if how != 0 && r.chance(6) {
            // carry on with a bitwise copy, like the Copy type of the binding
            h = h.duplicate();
        }
    }
    if check(&h, pos) && how != 0 {
        check(&h, pos);
    }
    rep.count_fast(1, pieces.len() as u64);
}

pub fn chash(rep: &Rep, o: &Opts) {
    rep.count("state_bytes", state_size() as u64);
    let mut r = Rng::at(o.seed, 90, 0);
    let modes = std_modes(&mut r);
    let top: usize = 80_000;
    let prefixes: Vec<Prefix> = modes.iter().map(|m| Prefix::new(*m, r.bytes(top + 1000))).collect();
    let big_data = crate::p_long::Repeat::new(&mut r, 18 << 20);
    let big_mode = modes[(o.seed % 5) as usize];
    let big = crate::p_long::BigOracle::new(big_mode, &big_data);
    let units = [0usize, 1, 63, 64, 65, 2047, 2048, 2049, 4096, 6145, 8192, 16384, 18432, 32768, 34817];
    for (label, lib) in libs(o) {
        let Some(api) = CApi::get(&label, &lib) else {
            rep.note(format!("{}: no hasher symbols", label));
            continue;
        };
        let h = label.bytes().fold(3u64, |h, b| mix(h, b as u64));
        let n1: u64 = o.size(4500, 40_000, 400);
        par(rep, n1, |i| {
            let (len, p) = if o.tiny {
                ((i * 37 % 9000) as usize, &prefixes[(i % 5) as usize])
            } else {
                (i as usize, &prefixes[(i % 5) as usize])
            };
            rep.eval(sig(&[h, 1, i]));
            c_history(rep, &api, p, &[len], 0, i);
        });
        par(rep, (units.len() * units.len()) as u64, |ij| {
            let (a, b) = (units[ij as usize / units.len()], units[ij as usize % units.len()]);
            rep.eval(sig(&[h, 2, ij]));
            c_history(rep, &api, &prefixes[(ij % 5) as usize], &[a, b], 0, ij);
            for &c in &units[..o.size(6, 15, 3)] {
                rep.eval(sig(&[h, 3, ij, c as u64]));
                c_history(rep, &api, &prefixes[(ij % 5) as usize], &[a, b, c, 1], 0, ij);
            }
        });
        par(rep, o.size(2500, 40_000, 200), |i| {
            let mut r = Rng::at(o.seed, h, i);
            let p = &prefixes[r.usize(5)];
            let total = gen::length(&mut r, top);
            let pieces = gen::pieces(&mut r, total);
            rep.eval(sig(&[h, 4, i]));
            c_history(rep, &api, p, &pieces, r.next() | 1, i);
        });
        par(rep, o.size(300, 5000, 40), |i| {
            let mut r = Rng::at(o.seed, h ^ 1, i);
            let m = gen::mode(&mut r);
            let total = gen::length(&mut r, 40_000);
            let p = Prefix::new(m, gen::content(&mut r, total));
            let pieces = gen::pieces(&mut r, total);
            rep.eval(sig(&[h, 5, i]));
            c_history(rep, &api, &p, &pieces, r.next() | 1, i);
        });
        // trees of many levels
        par(rep, o.size(24, 200, 8), |i| {
            let mut r = Rng::at(o.seed, h ^ 2, i);
            let bits = 3 + i as usize % (if o.tiny { 9 } else { 11 });
            let full = (1usize << bits) - 1;
            let chunks = if i & 16 == 0 { full } else { full & !(1 << r.below(20)) };
            let end = chunks * 2048 + [0, 1, 2048, r.usize(2048), r.usize(30_000)][r.usize(5)];
            let mut pos = 0;
            ctx("C deep history case/end", &[i, end as u64]);
            let Some(mut c) = rep.sut(&label, || CHasher::new(&api, &big_mode)) else { return };
            while pos < end {
                let l = match r.below(4) {
                    0 => 2048 * r.usize(1 << (bits.min(10))),
                    1 => (pos.next_power_of_two() - pos).min(1 << 22),
                    2 => r.usize(70_000),
                    _ => end / 3 + 1,
                }
                .min(end - pos);
                if rep.sut(&label, || c.update(big_data.at(pos as u64, l).as_ptr(), l)).is_none() {
                    return;
                }
                pos += l;
                if pos < end && !r.chance(5) {
                    continue;
                }
                rep.eval(sig(&[h, 6, i, pos as u64]));
                rep.max("bytes_in_a_deep_history", pos as u64);
                rep.max("subtrees_in_a_deep_history", ((pos as u64).saturating_sub(1) / 2048).count_ones() as u64);
                let Some(got) = rep.sut(&label, || c.finalize()) else { return };
                let want = big.root(&big_data, pos as u64).root_hash();
                if got != want {
                    rep.violation(format!("{}: {} of {} bytes in large pieces (case {}): got {} want {}", label, big_mode.name(), pos, i, hex(&got), hex(&want)));
                    return;
                }
            }
        });
        rep.count("hasher_builds", 1);
        rep.sample(|| label.clone());
    }
    rep.flush_fast(1, "updates_monitored");
}

/// The binding itself: baokeshed::c::Hasher, as the cargo features built it.
#[cfg(feature = "c_portable")]
pub fn cffi(rep: &Rep, o: &Opts) {
    let mut r = Rng::at(o.seed, 95, 0);
    let modes = std_modes(&mut r);
    let top = 80_000usize;
    let prefixes: Vec<Prefix> = modes.iter().map(|m| Prefix::new(*m, r.bytes(top + 1000))).collect();
    let n1: u64 = o.size(9000, 60_000, 100);
    let n2: u64 = o.size(6000, 80_000, 60);
    par(rep, n1 + n2, |i| {
        let mut r = Rng::at(o.seed, 96, i);
        let p = &prefixes[r.usize(5)];
        let pieces = if i < n1 {
            vec![i as usize]
        } else {
            let total = gen::length(&mut r, top);
            gen::pieces(&mut r, total)
        };
        ctx("c::Hasher case", &[i]);
        rep.eval(sig(&[6, i]));
        let mut pos = 0;
        let got = rep.sut("c::Hasher", || {
            let mut h = baokeshed::c::Hasher::new(&cv_bytes(&p.mode.words()), p.mode.flags());
            let mut mid = None;
            for &l in &pieces {
                h.update(&p.data[pos..pos + l]);
                pos += l;
                if mid.is_none() && r.chance(3) {
                    mid = Some((pos, h.finalize()));
                }
            }
            (h.finalize(), mid)
        });
        let Some((got, mid)) = got else { return };
        if got != p.hash(pos) {
            rep.violation(format!("c::Hasher {} pieces {:?}: got {} want {}", p.mode.name(), pieces, hex(&got), hex(&p.hash(pos))));
        }
        if let Some((q, d)) = mid {
            if d != p.hash(q) {
                rep.violation(format!("c::Hasher {} finalized after {} bytes of {:?}: got {} want {}", p.mode.name(), q, pieces, hex(&d), hex(&p.hash(q))));
            }
        }
    });
}

// ------------------------------------- the binding itself, interpreted

/// Which bytes of the state the C code writes when it initialises one: two
/// states are initialised over different contents, and agree exactly there.
#[cfg(feature = "c_portable")]
pub fn cmask() {
    let n = 8192;
    let mut at = vec![vec![]; 2];
    for (k, fill) in [0x00u8, 0xff].iter().enumerate() {
        let mut m = vec![*fill as u64 * 0x0101_0101_0101_0101; n / 8];
        let key: Vec<u8> = (0..32).map(|i| 0x35 ^ (i * 7) as u8).collect();
        unsafe {
            baokeshed::c::ffi::hasher_init(m.as_mut_ptr() as *mut _, key.as_ptr(), 0);
            at[k] = std::slice::from_raw_parts(m.as_ptr() as *const u8, n).to_vec();
        }
    }
    let mask: Vec<u8> = (0..n).map(|i| (at[0][i] == at[1][i]) as u8).collect();
    let len = mask.iter().rposition(|b| *b == 1).map_or(0, |i| i + 1);
    // runs: so many written, so many not, and so on
    let mut runs = vec![];
    let mut i = 0;
    let mut want = 1;
    while i < len {
        let j = (i..len).find(|&j| mask[j] != want).unwrap_or(len);
        runs.push((j - i).to_string());
        i = j;
        want = 1 - want;
    }
    println!("{}", runs.join(","));
}

/// In the interpreter there is no C code. These stand in for it: they write
/// what the C code was seen to write, read all the input they are given, and
/// return a digest that depends on all of it.
#[cfg(all(miri, feature = "c_portable"))]
mod stand_in {
    use std::os::raw::c_void;
    pub static mut WRITTEN: Vec<(usize, usize)> = vec![];
    pub fn absorb(h: u64, bytes: &[u8]) -> u64 {
        bytes.iter().fold(h ^ 0x9e37_79b9_7f4a_7c15, |h, b| (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(9))
    }
    #[no_mangle]
    unsafe extern "C" fn hasher_init(s: *mut u8, key: *const u8, flags: u8) {
        #[allow(static_mut_refs)]
        for (a, n) in WRITTEN.iter() {
            for i in 0..*n {
                *s.add(a + i) = 0;
            }
        }
        let h = absorb(flags as u64, std::slice::from_raw_parts(key, 32));
        (s as *mut [u8; 8]).write(h.to_le_bytes());
    }
    #[no_mangle]
    unsafe extern "C" fn hasher_update(s: *mut u8, input: *const c_void, len: usize) {
        let h = u64::from_le_bytes((s as *const [u8; 8]).read());
        let h = (0..len).fold(h, |h, i| absorb(h, &[*(input as *const u8).add(i)]));
        (s as *mut [u8; 8]).write(h.to_le_bytes());
    }
    #[no_mangle]
    unsafe extern "C" fn hasher_finalize(s: *const u8, out: *mut u8) {
        let h = (s as *const [u8; 8]).read();
        for i in 0..32 {
            *out.add(i) = h[i % 8] ^ i as u8;
        }
    }
}

#[cfg(all(miri, feature = "c_portable"))]
pub fn small_binding(rep: &Rep, o: &Opts) {
    use stand_in::*;
    let runs: Vec<usize> = o.args.iter().find_map(|a| a.strip_prefix("written=")).expect("written=").split(',').map(|n| n.parse().unwrap()).collect();
    assert!(runs.len() > 0 && runs[0] >= 8, "the C code does not begin its state with eight bytes it sets");
    let mut at = 0;
    for (k, n) in runs.iter().enumerate() {
        if k % 2 == 0 {
            unsafe {
                #[allow(static_mut_refs)]
                WRITTEN.push((at, *n));
            }
        }
        at += n;
    }
    let share: u64 = o.args.iter().find_map(|a| a.strip_prefix("shard=")).map_or(0, |a| a.split('/').next().unwrap().parse().unwrap());
    let mut r = Rng::at(o.seed, 97, share);
    for i in 0..30u64 {
        let key: [u8; 32] = r.bytes(32).try_into().unwrap();
        let flags = r.next() as u8;
        let mut h = baokeshed::c::Hasher::new(&key, flags);
        let mut want = absorb(flags as u64, &key);
        let mut kept = vec![];
        for k in 0..r.usize(6) {
            let n = r.pick(&[0, 1, 63, 64, 65, 300]);
            let piece = r.bytes(n).into_boxed_slice();
            h.update(&piece);
            want = piece.iter().fold(want, |h, b| absorb(h, &[*b]));
            if k % 2 == 0 {
                let moved = Box::new(h);
                kept.push((*moved, want));
                kept.push(((*moved).clone(), want));
            }
        }
        kept.push((h, want));
        for (h, want) in kept {
            rep.eval(sig(&[7, i, want]));
            let got = h.finalize();
            let w = want.to_le_bytes();
            if (0..32).any(|i| got[i] != w[i % 8] ^ i as u8) {
                rep.violation(format!("c::Hasher, history {}: not everything given to the binding reached the C functions", i));
            }
        }
    }
}

// ------------------------------------------------------ deep states

/// Where the C code keeps its position and its subtree stack, found by
/// watching how the state changes; no names or layouts are assumed.
#[derive(Debug, Clone, Copy)]
pub struct Layout {
    off: usize,
    len: usize,
    stack: usize,
}

pub fn discover(api: &CApi) -> Option<Layout> {
    let m = Mode::keyed([0x21; 32]);
    let data = Rng::new(99).bytes(2048 * 40 + 1);
    let p = Prefix::new(m, data);
    let size = state_size();
    let mut off: Vec<usize> = (0..size / 8).map(|i| i * 8).collect();
    let mut len: Vec<usize> = (0..size).collect();
    let mut stack: Vec<usize> = (0..size - 32).collect();
    for n in [1u64, 2, 3, 4, 5, 6, 7, 8, 11, 13, 15, 16, 21, 31, 32, 40] {
        let mut h = CHasher::new(api, &m);
        h.update(p.data.as_ptr(), n as usize * 2048 + 1);
        let s = h.state();
        off.retain(|&i| u64::from_le_bytes(s[i..i + 8].try_into().unwrap()) == n * 2048);
        len.retain(|&i| s[i] as u32 == n.count_ones());
        let top = 1usize << (63 - n.leading_zeros());
        let cv = tree(&p.data[..top * 2048], &m.words(), 0, m.flags()).chain();
        let cv = cv_bytes(&cv);
        stack.retain(|&i| s[i..i + 32] == cv);
    }
    if off.len() == 1 && len.len() == 1 && stack.len() == 1 {
        Some(Layout { off: off[0], len: len[0], stack: stack[0] })
    } else {
        None
    }
}

pub fn c_jump(h: &mut CHasher, l: &Layout, base: u64, given: &[Cv]) {
    let s = h.state();
    s[l.off..l.off + 8].copy_from_slice(&base.to_le_bytes());
    s[l.len] = given.len() as u8;
    for (i, cv) in given.iter().enumerate() {
        let at = l.stack + 32 * i;
        if at + 32 <= s.len() {
            s[at..at + 32].copy_from_slice(&cv_bytes(cv));
        }
    }
}

/// States built by hand must behave like states reached by hashing, where both
/// are possible.
fn c_jump_is_faithful(api: &CApi, l: &Layout) -> bool {
    let m = Mode::keyed([0x6b; 32]);
    let data = Rng::new(5).bytes(2048 * 75);
    (0..300u64).all(|i| {
        let mut r = Rng::new(1000 + i);
        let chunks = r.usize(64);
        let base = chunks * 2048;
        let tail = 1 + gen::length(&mut r, 20_000);
        let mut given = vec![];
        let mut s = 0;
        for bit in (0..8).rev() {
            if chunks >> bit & 1 == 1 {
                given.push(tree(&data[s..s + (2048 << bit)], &m.words(), s as u64, m.flags()).chain());
                s += 2048 << bit;
            }
        }
        sut(|| {
            let mut h = CHasher::new(api, &m);
            c_jump(&mut h, l, base as u64, &given);
            h.update(data[base..].as_ptr(), tail);
            h.finalize() == root(&m, &data[..base + tail]).root_hash()
        }) == Ok(true)
    })
}

/// A base position (multiple of the chunk length) worth testing, leaving room
/// for `tail` more bytes.
pub fn deep_base(r: &mut Rng, tail: u64) -> u64 {
    let chunks = match r.below(9) {
        0 => (1u64 << 53) - 1 - r.below(20),
        1 => (1u64 << r.range(1, 53)) - 1 - r.below(3).min(1),
        2 => 1u64 << r.range(0, 52),
        3 => (1u64 << r.range(20, 52)) + r.below(10),
        4 => ((1u64 << 32) >> 11) * r.range(1, 5) - r.below(9),
        5 => ((1u64 << 31) >> 11) * r.range(1, 5) - r.below(9),
        6 => (1u64 << 52) - 1 - r.below(9),
        7 => r.below(1 << 53),
        _ => (1u64 << 53) - (1 << r.range(1, 40)),
    };
    let top = (u64::MAX - tail) / 2048;
    chunks.min(top) * 2048
}

pub fn cdeep(rep: &Rep, o: &Opts) {
    for (label, lib) in libs(o) {
        let Some(api) = CApi::get(&label, &lib) else { continue };
        let Ok(l) = sut(|| discover(&api)) else { continue };
        let Some(l) = l else {
            rep.note(format!("{}: the layout of the C state could not be determined; deep states not reached", label));
            continue;
        };
        if !c_jump_is_faithful(&api, &l) {
            rep.note(format!("{}: states built by hand do not behave like real ones; deep states not reached", label));
            continue;
        }
        rep.count("layouts_found", 1);
        rep.note(format!("{}: {:?} of {} bytes", label, l, state_size()));
        let h = label.bytes().fold(5u64, |h, b| mix(h, b as u64));
        par(rep, o.size(1500, 30_000, 150), |i| {
            let mut r = Rng::at(o.seed, h, i);
            let m = gen::mode(&mut r);
            let tail = match r.below(4) {
                0 => 1 + r.usize(4096),
                1 => 2048 * (1 + r.usize(8)),
                _ => 1 + gen::length(&mut r, 40_000),
            };
            let mut base = deep_base(&mut r, tail as u64);
            if i < 40 {
                // the very end of the range: as many bytes as a length can count
                base = (u64::MAX - tail as u64) / 2048 * 2048;
            }
            let tail = if i < 20 { (u64::MAX - base) as usize } else { tail };
            let given: Vec<Cv> = (0..(base / 2048).count_ones()).map(|_| key_words(&r.key())).collect();
            let data = r.bytes(tail);
            let pieces = gen::pieces(&mut r, tail);
            ctx("deep C state case/base/tail", &[i, base, tail as u64]);
            rep.eval(sig(&[h, i]));
            rep.max("deepest_stack", given.len() as u64);
            rep.max("highest_position_MiB", ((base as u128 + tail as u128) >> 20) as u64);
            let want = virtual_root(&m, base, &given, &data).root_hash();
            let mut pos = 0;
            let got = rep.sut(&label, || {
                let mut c = CHasher::new(&api, &m);
                c_jump(&mut c, &l, base, &given);
                IN.with(|g| {
                    for &p in &pieces {
                        feed(&mut c, g, &data[pos..pos + p], &mut r);
                        pos += p;
                    }
                });
                (c.finalize(), c.finalize())
            });
            let Some((a, b)) = got else { return };
            if a != want || b != want {
                rep.violation(format!("{}: {} at position {:#x} with {} subtrees, {} more bytes as {:?}: got {} then {} want {}", label, m.name(), base, given.len(), tail, pieces, hex(&a), hex(&b), hex(&want)));
            }
        });
    }
}
