//! C05: Rust kernels. C09 and C11 (kernel part): C and 64-bit kernels, all
//! called through one adapter and judged by one specification.

use crate::gen;
use crate::oracle;
use crate::util::*;
use crate::Opts;
use std::sync::Arc;

// ------------------------------------------------------ specification, both widths

pub mod spec64 {
    //! The 64-bit-word variant: BLAKE2b's round function and word order.
    use crate::oracle::SIGMA;
    pub const IV: [u64; 8] = [
        0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1,
        0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179,
    ];
    fn quarter(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64) {
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
        v[d] = (v[d] ^ v[a]).rotate_right(32);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(24);
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(63);
    }
    pub fn rounds(v: &mut [u64; 16], m: &[u64; 16], n: usize) {
        for r in 0..n {
            let s = &SIGMA[r % 10];
            for (i, (a, b, c, d)) in [
                (0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
                (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14),
            ]
            .into_iter()
            .enumerate()
            {
                quarter(v, a, b, c, d, m[s[2 * i]], m[s[2 * i + 1]]);
            }
        }
    }
    pub fn words(b: &[u8]) -> [u64; 16] {
        let mut m = [0; 16];
        for i in 0..16 {
            m[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        m
    }
    /// The whole output; its first 32 bytes are the chaining value.
    pub fn compress(cv: &[u8; 32], block: &[u8], block_len: u8, offset: u64, flags: u8) -> Vec<u8> {
        let mut c = [0u64; 4];
        for i in 0..4 {
            c[i] = u64::from_le_bytes(cv[8 * i..8 * i + 8].try_into().unwrap());
        }
        let mut v = [c[0], c[1], c[2], c[3], IV[4], IV[5], IV[6], IV[7], IV[0], IV[1], IV[2], IV[3], offset, IV[5], block_len as u64, flags as u64];
        rounds(&mut v, &words(block), 8);
        let mut out = vec![];
        for i in 0..4 {
            out.extend_from_slice(&(v[i] ^ v[i + 4]).to_le_bytes());
        }
        for i in 4..8 {
            out.extend_from_slice(&(v[i] ^ c[i - 4]).to_le_bytes());
        }
        for i in 8..16 {
            out.extend_from_slice(&v[i].to_le_bytes());
        }
        out
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Width {
    W32,
    W64,
}
use Width::*;

impl Width {
    pub fn block(self) -> usize {
        if self == W32 { 64 } else { 128 }
    }
    pub fn chunk(self) -> u64 {
        if self == W32 { 2048 } else { 4096 }
    }
    pub fn compress(self, cv: &[u8; 32], block: &[u8], block_len: u8, offset: u64, flags: u8) -> Vec<u8> {
        match self {
            W32 => oracle::compress_xof(&oracle::key_words(cv), block, block_len, offset, flags).to_vec(),
            W64 => spec64::compress(cv, block, block_len, offset, flags),
        }
    }
    pub fn hash_blocks(self, input: &[u8], key: &[u8; 32], offset: u64, flags: u8, start: u8, end: u8) -> [u8; 32] {
        let b = self.block();
        let n = input.len() / b;
        let mut cv = *key;
        for i in 0..n {
            let f = flags | if i == 0 { start } else { 0 } | if i + 1 == n { end } else { 0 };
            let o = self.compress(&cv, &input[i * b..(i + 1) * b], b as u8, offset, f);
            cv.copy_from_slice(&o[..32]);
        }
        cv
    }
}

// ------------------------------------------------------ adapters

pub struct Many<'a> {
    pub inputs: &'a [*const u8],
    pub blocks: usize,
    pub key: [u8; 32],
    pub offset: u64,
    pub delta: u64,
    pub flags: u8,
    pub start: u8,
    pub end: u8,
}

pub type Compress = Arc<dyn Fn(&mut [u8; 32], *const u8, u8, u64, u8) + Send + Sync>;
pub type CompressXof = Arc<dyn Fn(&[u8; 32], *const u8, u8, u64, u8) -> Vec<u8> + Send + Sync>;
pub type HashMany = Arc<dyn Fn(&Many, *mut u8, usize) + Send + Sync>;

#[derive(Clone)]
pub enum Op {
    Compress(Compress),
    Xof(CompressXof),
    /// batch sizes it takes, block counts it takes, whether any stride is allowed
    Many { f: HashMany, batch: Vec<usize>, blocks: Vec<usize>, any_delta: bool },
}

#[derive(Clone)]
pub struct Kernel {
    pub name: String,
    pub width: Width,
    pub op: Op,
}

fn w32(b: &[u8; 32]) -> [u32; 8] {
    let mut w = [0; 8];
    for i in 0..8 {
        w[i] = u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
    }
    w
}
fn b32(w: &[u32; 8]) -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..8 {
        b[4 * i..4 * i + 4].copy_from_slice(&w[i].to_le_bytes());
    }
    b
}
fn w64(b: &[u8; 32]) -> [u64; 4] {
    let mut w = [0; 4];
    for i in 0..4 {
        w[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    w
}
fn b64(w: &[u64; 4]) -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..4 {
        b[8 * i..8 * i + 8].copy_from_slice(&w[i].to_le_bytes());
    }
    b
}

pub const BLOCKS32: [usize; 9] = [1, 2, 3, 4, 6, 8, 12, 16, 32];
pub const BLOCKS64: [usize; 8] = [1, 2, 3, 4, 6, 8, 16, 32];

#[cfg(feature = "kernels")]
macro_rules! typed_many {
    ($func:path, $width:expr, $key:expr, $m:expr, $out:expr, $outlen:expr, [$($n:literal)*]) => {{
        let m: &Many = $m;
        let key = $key(&m.key);
        let out = std::slice::from_raw_parts_mut($out, $outlen);
        match m.blocks * $width {
            $($n => {
                let inputs: Vec<&[u8; $n]> = m.inputs.iter().map(|p| &*(*p as *const [u8; $n])).collect();
                $func(&inputs[..], &key, m.offset, m.delta, m.flags, m.start, m.end, out);
            })*
            _ => unreachable!(),
        }
    }};
}

#[cfg(not(feature = "kernels"))]
pub fn rust_kernels() -> Vec<Kernel> {
    vec![]
}

#[cfg(feature = "kernels")]
pub fn rust_kernels() -> Vec<Kernel> {
    use baokeshed::{portable, portable64};
    let mut v = vec![];
    let k = |name: &str, width, op| Kernel { name: name.into(), width, op };
    let all: Vec<usize> = (0..=41).collect();
    v.push(k("portable::compress", W32, Op::Compress(Arc::new(|cv, b, l, o, f| unsafe {
        let mut w = w32(cv);
        portable::compress(&mut w, &*(b as *const [u8; 64]), l, o, f);
        *cv = b32(&w);
    }))));
    v.push(k("portable::compress_xof", W32, Op::Xof(Arc::new(|cv, b, l, o, f| unsafe {
        portable::compress_xof(&w32(cv), &*(b as *const [u8; 64]), l, o, f).to_vec()
    }))));
    v.push(k("portable::hash_many", W32, Op::Many { batch: all.clone(), blocks: BLOCKS32.to_vec(), any_delta: true, f: Arc::new(|m, out, n| unsafe {
        typed_many!(portable::hash_many, 64, w32, m, out, n, [64 128 192 256 384 512 768 1024 2048 16384 65536])
    }) }));
    v.push(k("portable64::compress", W64, Op::Compress(Arc::new(|cv, b, l, o, f| unsafe {
        let mut w = w64(cv);
        portable64::compress(&mut w, &*(b as *const [u8; 128]), l, o, f);
        *cv = b64(&w);
    }))));
    v.push(k("portable64::compress_xof", W64, Op::Xof(Arc::new(|cv, b, l, o, f| unsafe {
        portable64::compress_xof(&w64(cv), &*(b as *const [u8; 128]), l, o, f).to_vec()
    }))));
    v.push(k("portable64::hash_many", W64, Op::Many { batch: all.clone(), blocks: BLOCKS64.to_vec(), any_delta: true, f: Arc::new(|m, out, n| unsafe {
        typed_many!(portable64::hash_many, 128, w64, m, out, n, [128 256 384 512 768 1024 2048 4096 32768 65536])
    }) }));
    #[cfg(target_arch = "x86_64")]
    {
        use baokeshed::{avx2, sse41};
        if is_x86_feature_detected!("sse4.1") {
            v.push(k("sse41::compress", W32, Op::Compress(Arc::new(|cv, b, l, o, f| unsafe {
                let mut w = w32(cv);
                sse41::compress(&mut w, &*(b as *const [u8; 64]), l, o, f);
                *cv = b32(&w);
            }))));
            v.push(k("sse41::compress_xof", W32, Op::Xof(Arc::new(|cv, b, l, o, f| unsafe {
                sse41::compress_xof(&w32(cv), &*(b as *const [u8; 64]), l, o, f).to_vec()
            }))));
            v.push(k("sse41::hash_many", W32, Op::Many { batch: all.clone(), blocks: BLOCKS32.to_vec(), any_delta: true, f: Arc::new(|m, out, n| unsafe {
                typed_many!(sse41::hash_many, 64, w32, m, out, n, [64 128 192 256 384 512 768 1024 2048 16384 65536])
            }) }));
            v.push(k("sse41::hash4", W32, Op::Many { batch: vec![4], blocks: (1..40).collect(), any_delta: true, f: Arc::new(|m, out, _| unsafe {
                let p: [*const u8; 4] = m.inputs.try_into().unwrap();
                sse41::hash4(&p, m.blocks, &w32(&m.key), m.offset, m.delta, m.flags, m.start, m.end, &mut *(out as *mut [u8; 128]))
            }) }));
        }
        if is_x86_feature_detected!("avx2") {
            v.push(k("avx2::hash_many", W32, Op::Many { batch: all.clone(), blocks: BLOCKS32.to_vec(), any_delta: true, f: Arc::new(|m, out, n| unsafe {
                typed_many!(avx2::hash_many, 64, w32, m, out, n, [64 128 192 256 384 512 768 1024 2048 16384 65536])
            }) }));
            v.push(k("avx2::hash8", W32, Op::Many { batch: vec![8], blocks: (1..40).collect(), any_delta: true, f: Arc::new(|m, out, _| unsafe {
                let p: [*const u8; 8] = m.inputs.try_into().unwrap();
                avx2::hash8(&p, m.blocks, &w32(&m.key), m.offset, m.delta, m.flags, m.start, m.end, &mut *(out as *mut [u8; 256]))
            }) }));
        }
    }
    v
}

// ------------------------------------------------------ workload and monitor

fn pick_offset(r: &mut Rng, span: u64, unit: u64) -> u64 {
    let top = u64::MAX - span - 8192;
    let x = match r.below(9) {
        0 => 0,
        1 => unit * r.below(100),
        // some lane of the batch crosses a multiple of 2^32
        2 | 3 | 4 => {
            let hi = r.pick(&[1u64, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1234_5678]);
            (hi << 32).saturating_sub(if span > 0 { r.below(span + unit) / unit * unit } else { unit * r.below(3) })
        }
        5 => r.pick(&[0x7fff_f800u64, 0x8000_0000, 0xffff_f800, 0x1_0000_0000, 0x7fff_ffff_ffff_f800, 0x8000_0000_0000_0000]),
        6 => top / unit * unit,
        7 => r.next() / unit * unit,
        _ => r.next(),
    };
    x.min(top)
}

fn pick_flags(r: &mut Rng) -> (u8, u8, u8) {
    match r.below(6) {
        0 => (0, 1, 2),
        1 => (16, 1, 2),
        2 => (32, 1, 2),
        3 => (4 | r.pick(&[0u8, 16, 32, 8, 24, 40]), 0, 0),
        4 => (r.next() as u8, r.next() as u8, r.next() as u8),
        _ => (1 << r.below(8), 1 << r.below(8), 1 << r.below(8)),
    }
}

const CANARY: u8 = 0xA7;

struct Arena {
    ins: Vec<Guarded>,
    out: Guarded,
    blk: Guarded,
}

impl Arena {
    fn new() -> Arena {
        Arena { ins: (0..42).map(|_| Guarded::new(40 * 128 + PAGE)).collect(), out: Guarded::new(64 * 32), blk: Guarded::new(PAGE) }
    }
}

thread_local! {
    static ARENA: std::cell::RefCell<Option<Arena>> = const { std::cell::RefCell::new(None) };
}

fn place<'a>(r: &mut Rng, g: &'a Guarded, n: usize) -> &'a mut [u8] {
    match r.below(4) {
        0 => g.at_start(n),
        1 => {
            let pad = r.usize(65);
            &mut g.at_end(n + pad)[..n]
        }
        _ => g.at_end(n),
    }
}

fn run_compress(rep: &Rep, k: &Kernel, r: &mut Rng, a: &Arena, case: u64) {
    let bl = k.width.block();
    let cv = gen::key(r);
    let len = match r.below(4) {
        0 => bl,
        1 => 0,
        _ => r.usize(bl + 1),
    };
    let block = place(r, &a.blk, bl);
    gen::fill_content(r, block);
    // callers pad with zeros, but all of the block counts
    if !r.chance(4) {
        block[len..].fill(0);
    }
    let copy = block.to_vec();
    let offset = pick_offset(r, 0, r.clone().pick(&[1, 64, 2048]));
    let flags = if r.chance(3) { r.next() as u8 } else { pick_flags(r).0 | r.pick(&[0u8, 1, 2, 3, 8]) };
    ctx("compress case/len/offset/flags", &[case, len as u64, offset, flags as u64]);
    let want = k.width.compress(&cv, &copy, len as u8, offset, flags);
    let p = block.as_ptr();
    match &k.op {
        Op::Compress(f) => {
            let mut got = cv;
            if rep.sut(&k.name, || f(&mut got, p, len as u8, offset, flags)).is_none() {
                return;
            }
            if got[..] != want[..32] {
                rep.violation(format!("{}: cv {} block {} block_len {} offset {:#x} flags {:#x}: got {} want {}", k.name, hex(&cv), hex(&copy), len, offset, flags, hex(&got), hex(&want[..32])));
            }
        }
        Op::Xof(f) => {
            let Some(got) = rep.sut(&k.name, || f(&cv, p, len as u8, offset, flags)) else { return };
            if got != want {
                rep.violation(format!("{}: cv {} block {} block_len {} offset {:#x} flags {:#x}: got {} want {}", k.name, hex(&cv), hex(&copy), len, offset, flags, hex(&got), hex(&want)));
            }
        }
        _ => unreachable!(),
    }
    if block[..] != copy[..] {
        rep.violation(format!("{} changed its input block (case {})", k.name, case));
    }
}

fn run_many(rep: &Rep, k: &Kernel, r: &mut Rng, a: &Arena, case: u64, n: usize, blocks: usize) {
    let Op::Many { f, any_delta, .. } = &k.op else { unreachable!() };
    let bl = k.width.block();
    let unit = k.width.chunk();
    let len = blocks * bl;
    let delta = if *any_delta && r.chance(3) {
        r.pick(&[1u64, 64, 128, 2047, 1 << 16, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 1, 0xffff_ffff, 1 << 40, 1 + (r.clone().next() >> 8 >> r.clone().below(50))])
    } else {
        r.pick(&[0, unit, unit])
    };
    let offset = pick_offset(r, n as u64 * delta, if delta > 0 { delta } else { unit });
    let (flags, start, end) = pick_flags(r);
    let key = gen::key(r);
    // Contents: sometimes the same pointer several times, sometimes equal contents.
    let same = r.chance(12);
    let mut ptrs: Vec<*const u8> = vec![];
    let mut copies: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        if same && i > 0 && r.chance(2) {
            let j = r.usize(i);
            ptrs.push(ptrs[j]);
            let c = copies[j].clone();
            copies.push(c);
            continue;
        }
        let s = place(r, &a.ins[i], len);
        gen::fill_content(r, s);
        ptrs.push(s.as_ptr());
        copies.push(s.to_vec());
    }
    // the output ends at a guard page, or is followed by canaries
    let extra = r.pick(&[0usize, 0, 1, 31, 32, 64, 256, 300]);
    let exact = matches!(k.op, Op::Many { ref batch, .. } if batch.len() == 1);
    let region = a.out.at_end(n * 32 + extra);
    let before = a.out.usable() - region.len();
    a.out.at_start(before).fill(CANARY);
    region.fill(CANARY);
    let outp = region.as_mut_ptr();
    // exact-size kernels take a fixed array; the others a slice that may be longer
    let given = if exact { n * 32 } else { n * 32 + extra };
    ctx("hash_many case/n/blocks/offset/delta/flags", &[case, n as u64, blocks as u64, offset, delta, flags as u64, start as u64, end as u64]);
    let m = Many { inputs: &ptrs, blocks, key, offset, delta, flags, start, end };
    if rep.sut(&k.name, || f(&m, outp, given)).is_none() {
        return;
    }
    let region = a.out.at_end(n * 32 + extra);
    for i in 0..n {
        let want = k.width.hash_blocks(&copies[i], &key, offset.wrapping_add(i as u64 * delta), flags, start, end);
        if region[i * 32..i * 32 + 32] != want {
            rep.violation(format!(
                "{}: input {} of {}, {} blocks, offset {:#x} delta {:#x} flags {:#x}/{:#x}/{:#x} key {}: got {} want {}; input {}",
                k.name, i, n, blocks, offset, delta, flags, start, end, hex(&key), hex(&region[i * 32..i * 32 + 32]), hex(&want), short_hex(&copies[i])
            ));
            return;
        }
    }
    if region[n * 32..].iter().any(|&b| b != CANARY) || a.out.at_start(before).iter().any(|&b| b != CANARY) {
        rep.violation(format!("{}: {} inputs of {} blocks: wrote outside of its {} output bytes", k.name, n, blocks, n * 32));
    }
    for i in 0..n {
        let s = unsafe { std::slice::from_raw_parts(ptrs[i], len) };
        if s != &copies[i][..] {
            rep.violation(format!("{} changed its input {} (case {})", k.name, i, case));
        }
    }
    rep.count_fast(0, n as u64);
}

/// Batches and inputs so large that narrow counters would wrap.
fn run_big(rep: &Rep, k: &Kernel, r: &mut Rng, n: usize, blocks: usize) {
    let Op::Many { f, .. } = &k.op else { unreachable!() };
    let bl = k.width.block();
    let unit = k.width.chunk();
    let len = blocks * bl;
    let step = r.pick(&[1usize, 7, 16, 64]);
    let data = r.bytes(len + n * step);
    let ptrs: Vec<*const u8> = (0..n).map(|i| data[i * step..].as_ptr()).collect();
    let delta = r.pick(&[0, unit, unit, unit * 3, 1 << 40]);
    let offset = pick_offset(r, n as u64 * delta, if delta > 0 { delta } else { unit });
    let (flags, start, end) = pick_flags(r);
    let key = gen::key(r);
    let pad = r.usize(65);
    let mut out = vec![CANARY; n * 32 + pad + 64];
    ctx("large hash_many n/blocks/offset/delta/flags", &[n as u64, blocks as u64, offset, delta, flags as u64]);
    let m = Many { inputs: &ptrs, blocks, key, offset, delta, flags, start, end };
    let p = out[pad..].as_mut_ptr();
    if rep.sut(&k.name, || f(&m, p, n * 32)).is_none() {
        return;
    }
    for i in 0..n {
        let want = k.width.hash_blocks(&data[i * step..i * step + len], &key, offset.wrapping_add(i as u64 * delta), flags, start, end);
        let got = &out[pad + i * 32..pad + i * 32 + 32];
        if got != want {
            rep.violation(format!("{}: input {} of {}, {} blocks, offset {:#x} delta {:#x} flags {:#x}/{:#x}/{:#x}: got {} want {}", k.name, i, n, blocks, offset, delta, flags, start, end, hex(got), hex(&want)));
            return;
        }
    }
    if out[..pad].iter().chain(&out[pad + n * 32..]).any(|&b| b != CANARY) {
        rep.violation(format!("{}: {} inputs of {} blocks: wrote outside of its {} output bytes", k.name, n, blocks, n * 32));
    }
    rep.count_fast(1, (n * blocks) as u64);
}

fn r0(o: &Opts, n: usize) -> usize {
    Rng::at(o.seed, 41, n as u64).usize(3)
}

pub fn drive(rep: &Rep, o: &Opts, kernels: &[Kernel], stream: u64) {
    for (ki, k) in kernels.iter().enumerate() {
        let ks = stream * 1000 + ki as u64;
        let with = |i: u64, f: &dyn Fn(&mut Rng, &Arena)| {
            ARENA.with(|a| {
                let mut a = a.borrow_mut();
                let a = a.get_or_insert_with(Arena::new);
                f(&mut Rng::at(o.seed, ks, i), a)
            })
        };
        let before = rep.evaluations.load(std::sync::atomic::Ordering::Relaxed);
        match &k.op {
            Op::Many { batch, blocks, .. } => {
                // every batch size with every block count, several times
                let reps: u64 = if stream < 100 { o.size(60, 900, 1) } else { o.size(6, 60, 1) };
                let (nb, nk) = (batch.len() as u64, blocks.len() as u64);
                par(rep, nb * nk * reps, |i| {
                    let n = batch[(i % nb) as usize];
                    let b = blocks[(i / nb % nk) as usize];
                    if o.tiny && n * b > 80 {
                        return;
                    }
                    // single-size kernels get more variety instead
                    let inner = (24 / nb).max(1);
                    for j in 0..inner {
                        if rep.stopped() {
                            return;
                        }
                        let c = i * 64 + j;
                        rep.eval(sig(&[ks, c]));
                        with(c, &|r, a| run_many(rep, k, r, a, c, n, b));
                    }
                });
                // counters of 8 and 16 bits must not be enough
                let long: &[usize] = match (k.name.contains("::hash_many"), k.width) {
                    (true, W32) => &[256, 1024],
                    (true, W64) => &[256, 512],
                    _ if o.tiny => &[257],
                    _ => &[255, 256, 257, 1025, 65_537],
                };
                let mut big: Vec<(usize, usize)> = vec![];
                if batch.len() == 1 {
                    big.extend(long.iter().map(|&b| (batch[0], b)));
                } else {
                    big.extend(long.iter().flat_map(|&b| [(1, b), (5, b), (11, b)]).filter(|&(n, b)| n * b < 400_000));
                    big.extend([42usize, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 513, 1000].map(|n| (n, blocks[(n + r0(o, n)) % blocks.len().min(3)])));
                    if !o.tiny {
                        big.extend([(65_537, 1), (65_543, 1)]);
                    }
                }
                par(rep, big.len() as u64, |i| {
                    let (n, b) = big[i as usize];
                    rep.eval(sig(&[ks, 1 << 41, i]));
                    run_big(rep, k, &mut Rng::at(o.seed, ks, (1 << 41) + i), n, b);
                });
            }
            _ => {
                let n: u64 = if stream < 100 { o.size(300_000, 6_000_000, 60) } else { o.size(40_000, 600_000, 60) };
                par(rep, n, |i| {
                    rep.eval(sig(&[ks, i]));
                    with(i, &|r, a| run_compress(rep, k, r, a, i));
                });
                // every bit of every argument, one at a time, on a zero background
                let bits = 8 * 32 + 8 * k.width.block() as u64 + 64 + 8;
                par(rep, bits, |i| {
                    rep.eval(sig(&[ks, 1 << 40, i]));
                    with(i, &|_, a| one_bit(rep, k, a, i));
                });
            }
        }
        let done = rep.evaluations.load(std::sync::atomic::Ordering::Relaxed) - before;
        rep.count(&format!("cases {}", k.name), done);
    }
    rep.flush_fast(0, "digests_compared");
    rep.flush_fast(1, "blocks_in_large_batches_and_inputs");
}

fn one_bit(rep: &Rep, k: &Kernel, a: &Arena, i: u64) {
    let bl = k.width.block();
    let mut cv = [0u8; 32];
    let block = a.blk.at_end(bl);
    block.fill(0);
    let (mut offset, mut flags) = (0u64, 0u8);
    let mut j = i as usize;
    if j < 256 {
        cv[j / 8] = 1 << (j % 8);
    } else {
        j -= 256;
        if j < 8 * bl {
            block[j / 8] = 1 << (j % 8);
        } else {
            j -= 8 * bl;
            if j < 64 {
                offset = 1 << j;
            } else {
                flags = 1 << (j - 64);
            }
        }
    }
    ctx("one bit", &[i]);
    let want = k.width.compress(&cv, block, bl as u8, offset, flags);
    let got = rep.sut(&k.name, || match &k.op {
        Op::Compress(f) => {
            let mut c = cv;
            f(&mut c, block.as_ptr(), bl as u8, offset, flags);
            c.to_vec()
        }
        Op::Xof(f) => f(&cv, block.as_ptr(), bl as u8, offset, flags),
        _ => unreachable!(),
    });
    if let Some(got) = got {
        if got[..] != want[..got.len()] {
            rep.violation(format!("{} with only argument bit {} set: got {} want {}", k.name, i, hex(&got), hex(&want[..got.len()])));
        }
    }
}

pub fn c05(rep: &Rep, o: &Opts) {
    if cfg!(not(feature = "kernels")) {
        rep.note("the kernels cannot be called directly in this tree; observed through the public functions at every SIMD level".into());
        return crate::p_mem::c08(rep, o);
    }
    let ks: Vec<Kernel> = rust_kernels().into_iter().filter(|k| k.width == W32).collect();
    drive(rep, o, &ks, 5);
    rep.sample(|| ks.iter().map(|k| k.name.clone()).collect::<Vec<_>>().join(", "));
}

pub fn c11_rust(rep: &Rep, o: &Opts) {
    if cfg!(not(feature = "kernels")) {
        rep.note("the 64-bit Rust kernels cannot be called directly in this tree".into());
        return;
    }
    let ks: Vec<Kernel> = rust_kernels().into_iter().filter(|k| k.width == W64).collect();
    drive(rep, o, &ks, 11);
    rep.sample(|| ks.iter().map(|k| k.name.clone()).collect::<Vec<_>>().join(", "));
}
