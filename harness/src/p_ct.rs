//! C20: run under valgrind's memcheck with secrets marked undefined. Memcheck
//! then reports every branch and every address that depends on them.

use crate::api::*;
use crate::oracle::*;
use crate::util::*;
use crate::Opts;

#[cfg(target_arch = "x86_64")]
pub fn request(code: u64, a: u64, b: u64) -> u64 {
    let args = [code, a, b, 0, 0, 0];
    let mut res: u64 = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rdx") res, in("rax") args.as_ptr(), out("rdi") _,
        );
    }
    res
}
#[cfg(not(target_arch = "x86_64"))]
pub fn request(_: u64, _: u64, _: u64) -> u64 {
    0
}

const RUNNING: u64 = 0x1001;
const COUNT_ERRORS: u64 = 0x1201;
const MC: u64 = (b'M' as u64) << 24 | (b'C' as u64) << 16;

pub fn poison(b: &[u8]) {
    request(MC + 1, b.as_ptr() as u64, b.len() as u64);
}
pub fn unpoison(b: &[u8]) {
    request(MC + 2, b.as_ptr() as u64, b.len() as u64);
}
fn errors() -> u64 {
    request(COUNT_ERRORS, 0, 0)
}

fn judge(rep: &Rep, before: u64, what: String) {
    let n = errors() - before;
    rep.count("observations", 1);
    if n > 0 {
        rep.violation(format!("{}: memcheck saw {} places where control flow or an address depends on secret bytes", what, n));
    }
}

/// Each kernel with secret key and secret input.
fn kernels(rep: &Rep, o: &Opts, ks: Vec<crate::p_kern::Kernel>) {
    use crate::p_kern::*;
    for (ki, k) in ks.iter().enumerate() {
        let cases: Vec<(usize, usize)> = match &k.op {
            Op::Many { batch, .. } if batch.len() == 1 => vec![(batch[0], 1), (batch[0], 3)],
            Op::Many { .. } => vec![(1, 1), (3, 2), (4, 1), (7, 3), (8, 2), (15, 1), (17, 4)],
            _ => (0..o.size(6, 40, 3)).map(|i| (i, 0)).collect(),
        };
        for (a, b) in cases {
            let mut r = Rng::at(o.seed, 204, (ki * 1000 + a * 10 + b) as u64);
            let bl = k.width.block();
            let cv = crate::gen::key(&mut r);
            let offset = r.pick(&[0u64, 2048, (1 << 32) - 2048, 5 << 32]);
            rep.eval(sig(&[1 << 23, ki as u64, a as u64, b as u64, k.name.bytes().fold(0, |x, y| mix(x, y as u64))]));
            let (got, want, n);
            match &k.op {
                Op::Compress(_) | Op::Xof(_) => {
                    let v = crate::gen::content(&mut r, bl);
                    want = k.width.compress(&cv, &v, bl as u8, offset, 11);
                    poison(&v);
                    poison(&cv);
                    n = errors();
                    got = match &k.op {
                        Op::Compress(f) => {
                            let mut c = cv;
                            f(&mut c, v.as_ptr(), bl as u8, offset, 11);
                            c.to_vec()
                        }
                        Op::Xof(f) => f(&cv, v.as_ptr(), bl as u8, offset, 11),
                        _ => unreachable!(),
                    };
                }
                Op::Many { f, .. } => {
                    let delta = r.pick(&[0u64, k.width.chunk()]);
                    let ins: Vec<Vec<u8>> = (0..a).map(|_| crate::gen::content(&mut r, b * bl)).collect();
                    want = ins.iter().enumerate().flat_map(|(i, v)| k.width.hash_blocks(v, &cv, offset + i as u64 * delta, 16, 1, 2)).collect();
                    let ptrs: Vec<*const u8> = ins.iter().map(|v| v.as_ptr()).collect();
                    let mut out = vec![0u8; a * 32];
                    for v in &ins {
                        poison(v);
                    }
                    poison(&cv);
                    let m = Many { inputs: &ptrs, blocks: b, key: cv, offset, delta, flags: 16, start: 1, end: 2 };
                    let (p, len) = (out.as_mut_ptr(), out.len());
                    n = errors();
                    f(&m, p, len);
                    unpoison(&m.key);
                    got = out;
                }
            }
            judge(rep, n, format!("{} ({}, {})", k.name, a, b));
            unpoison(&got);
            unpoison(&cv);
            if got[..] != want[..got.len()] {
                rep.violation(format!("{} gives a wrong result under valgrind: got {} want {}", k.name, hex(&got), hex(&want)));
            }
        }
    }
}

pub fn c20(rep: &Rep, o: &Opts) {
    if request(RUNNING, 0, 0) == 0 {
        eprintln!("not running under valgrind");
        unsafe { libc::_exit(71) }
    }
    // Does the monitor see anything at all? A lookup and a branch on a secret.
    if o.has("control") {
        let table: Vec<u8> = (0..=255).collect();
        let secret = vec![7u8; 2];
        poison(&secret);
        let before = errors();
        let x = std::hint::black_box(table[std::hint::black_box(secret[0]) as usize]);
        let addr = errors() - before;
        let y = if std::hint::black_box(secret[1]) > 9 { std::hint::black_box(1) } else { std::hint::black_box(2) };
        let both = errors() - before;
        std::hint::black_box((x, y));
        rep.count("control_address", addr);
        rep.count("control_branch", both - addr);
        rep.eval(1);
        return;
    }
    let mut lens: Vec<usize> = vec![0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 1000, 1984, 2047, 2048, 2049, 2112, 4095, 4096, 4097, 6145, 8192, 8193, 12_288, 16_384, 16_385, 18_433, 20_481, 32_768, 34_817];
    if o.thorough {
        lens.extend((0..300).map(|i| i * 13 % 4300));
        lens.extend((3..24).flat_map(|c| [c * 2048, c * 2048 + 1, c * 2048 - 64, c * 2048 + 65 * c]));
        lens.push(150_000);
    }
    let only_c = o.has("conly");
    for lvl in if only_c { vec![] } else { levels() } {
        set_level(lvl);
        for (li, &l) in lens.iter().enumerate() {
            for kind in 0..3u8 {
                let mut r = Rng::at(o.seed, 200, li as u64 * 3 + kind as u64);
                let m = Mode { kind, key: r.key() };
                let data = r.bytes(l);
                let want = root(&m, &data);
                poison(&data);
                poison(&m.key);
                let name = |op: &str| format!("{} {} of {} bytes at level {}", op, m.name(), l, lvl);
                ctx("secret mode/len/level", &[kind as u64, l as u64, lvl as u64]);
                rep.eval(sig(&[lvl as u64, l as u64, kind as u64]));
                let b = errors();
                let d = digest(&m, &data);
                judge(rep, b, name("one-shot"));
                unpoison(&d);
                let b = errors();
                let mut x = xof(&m, &data);
                let out = [x.read(), x.read()];
                judge(rep, b, name("extended output"));
                unpoison(&out[0]);
                unpoison(&out[1]);
                let pieces = if li % 2 == 0 { vec![l] } else { crate::gen::pieces(&mut r, l) };
                let b = errors();
                let mut h = hasher(&m);
                let mut pos = 0;
                for &p in &pieces {
                    h.update(&data[pos..pos + p]);
                    pos += p;
                }
                let h2 = h.clone();
                let inc: [u8; 32] = h2.finalize().into();
                judge(rep, b, name("incremental"));
                unpoison(&inc);
                let b = errors();
                let mut h3 = hasher(&m);
                let n = baokeshed::copy::copy_wide(&mut &data[..], &mut h3);
                let cw: [u8; 32] = h3.finalize().into();
                judge(rep, b, name("copying"));
                unpoison(&cw);
                drop(n);
                if d != want.root_hash() || inc != d || cw != d || out[0] != want.root_block(0) {
                    rep.violation(format!("{} gives a wrong digest under valgrind", name("hashing")));
                }
                unpoison(&data);
                unpoison(&m.key);
            }
        }
    }
    set_level(0);
    if !only_c {
        if cfg!(feature = "kernels") {
            kernels(rep, o, crate::p_kern::rust_kernels());
        }
        // the reference implementation
        for (li, &l) in lens.iter().enumerate() {
            let mut r = Rng::at(o.seed, 203, li as u64);
            let m = Mode { kind: (li % 3) as u8, key: r.key() };
            let data = r.bytes(l);
            let node = root(&m, &data);
            let pieces = crate::gen::pieces(&mut r, l);
            poison(&data);
            poison(&m.key);
            rep.eval(sig(&[1 << 22, l as u64]));
            let b = errors();
            let mut h = match m.kind {
                0 => reference_impl::Hasher::new(),
                1 => reference_impl::Hasher::new_keyed(&m.key),
                _ => reference_impl::Hasher::new_derive_key(&m.key),
            };
            let mut pos = 0;
            for &p in &pieces {
                h.update(&data[pos..pos + p]);
                pos += p;
            }
            let mut out = vec![0; 77];
            h.finalize(&mut out);
            judge(rep, b, format!("reference implementation, {} of {} bytes", m.name(), l));
            unpoison(&out);
            if out[..64] != node.root_block(0) || out[64..] != node.root_block(1)[..13] {
                rep.violation("the reference implementation gives a wrong digest under valgrind".into());
            }
        }
    }
    // comparing digests
    for i in 0..if only_c { 0 } else { o.size(200u64, 3000, 10) } {
        let mut r = Rng::at(o.seed, 201, i);
        let a = r.key();
        let mut c = a;
        if i % 3 != 0 {
            c[r.usize(32)] ^= 1 << r.below(8);
        }
        let want = a == c;
        poison(&a);
        poison(&c);
        rep.eval(sig(&[1 << 20, i]));
        let b = errors();
        let (x, y) = (baokeshed::Hash::from(a), baokeshed::Hash::from(c));
        // one byte each, not a branch: only the results are made public
        let res = [std::hint::black_box((x == y) as u8), std::hint::black_box((x == c) as u8), std::hint::black_box((x != y) as u8)];
        judge(rep, b, format!("comparison {}", i));
        unpoison(&res);
        if res != [want as u8, want as u8, !want as u8] {
            rep.violation(format!("comparison {} is wrong under valgrind", i));
        }
    }
    // the C code
    for (label, lib) in crate::p_c::libs(o) {
        // memcheck does not know AVX-512
        kernels(rep, o, crate::p_c::c_kernels(&label, &lib).into_iter().filter(|k| label.ends_with("kernels") && !k.name.contains("avx512")).collect());
        if label.ends_with("kernels") {
            continue;
        }
        let Some(api) = crate::p_c::CApi::get(&label, &lib) else { continue };
        for (li, &l) in lens.iter().enumerate() {
            for kind in 0..3u8 {
                let mut r = Rng::at(o.seed, 202, li as u64 * 3 + kind as u64);
                let m = Mode { kind, key: r.key() };
                let data = r.bytes(l);
                let want = hash(&m, &data);
                let pieces = crate::gen::pieces(&mut r, l);
                poison(&data);
                poison(&m.key);
                rep.eval(sig(&[1 << 21, label.len() as u64, l as u64, kind as u64, label.bytes().fold(0, |a, b| mix(a, b as u64))]));
                let b = errors();
                let mut h = crate::p_c::CHasher::new(&api, &m);
                let mut pos = 0;
                for &p in &pieces {
                    h.update(data[pos..].as_ptr(), p);
                    pos += p;
                }
                let d = h.finalize();
                judge(rep, b, format!("{} of {} bytes, mode {}", label, l, kind));
                unpoison(&d);
                if d != want {
                    rep.violation(format!("{} gives a wrong digest under valgrind", label));
                }
                unpoison(&data);
            }
        }
    }
}
