//! C08: every public entry point, on memory that ends exactly where the input
//! ends. What watches: guard pages here, ASan and Miri in other builds.

use crate::api::*;
use crate::gen;
use crate::oracle::*;
use crate::util::*;
use crate::Opts;
use std::io::Write;

/// Input bytes placed so that any access outside of them is caught.
pub enum Place {
    #[cfg(not(miri))]
    Guard(Guarded, usize, usize, bool),
    // an allocation of exactly this size, and an offset into it
    Heap(Box<[u8]>, usize),
}

impl Place {
    pub fn new(r: &mut Rng, data: &[u8]) -> Place {
        #[cfg(not(miri))]
        if std::env::var_os("BKV_HEAP").is_none() {
            let front = r.chance(3);
            let shift = if front { r.usize(70) } else { 0 };
            let g = Guarded::new(data.len() + shift);
            if front {
                g.at_start(data.len() + shift)[shift..].copy_from_slice(data);
            } else {
                g.at_end(data.len()).copy_from_slice(data);
            }
            g.read_only(true);
            return Place::Guard(g, data.len(), shift, front);
        }
        let shift = r.usize(17);
        let mut v = vec![0; shift + data.len()];
        v[shift..].copy_from_slice(data);
        Place::Heap(v.into_boxed_slice(), shift)
    }
    pub fn get(&self) -> &[u8] {
        match self {
            #[cfg(not(miri))]
            Place::Guard(g, n, shift, true) => &g.at_start(*n + *shift)[*shift..],
            #[cfg(not(miri))]
            Place::Guard(g, n, _, false) => g.at_end(*n),
            Place::Heap(b, s) => &b[*s..],
        }
    }
}

fn walk_xof(rep: &Rep, node: &Node, m: &Mode, d: &[u8], lvl: u8, tag: u64) {
    let want = node.root_hash();
    let Some(b) = rep.sut("xof", || {
        let mut x = xof(m, d);
        let y = x.clone();
        let b0 = x.read();
        let b1 = x.read();
        (b0, b1, <[u8; 32]>::from(y.to_hash()), format!("{:?}", x).len())
    }) else { return };
    if b.0 != node.root_block(0) || b.1 != node.root_block(1) || b.2 != want {
        rep.violation(format!("{}_xof of {} bytes (level {}, tag {}): got {} want {}", m.name(), d.len(), lvl, tag, hex(&b.0), hex(&node.root_block(0))));
    }
}

fn walk(rep: &Rep, r: &mut Rng, data: &[u8], m: &Mode, lvl: u8, tag: u64) {
    let node = root(m, data);
    let want = node.root_hash();
    let p = Place::new(r, data);
    let d = p.get();
    ctx("walk tag/len/mode/level", &[tag, d.len() as u64, m.kind as u64, lvl as u64]);
    let bad = |what: &str, got: &[u8]| {
        rep.violation(format!("{} of {} bytes ({}, level {}, tag {}): got {} want {}", m.name(), d.len(), what, lvl, tag, hex(got), hex(&want)));
    };
    let Some(a) = rep.sut("one-shot", || digest(m, d)) else { return };
    if a != want {
        bad("one-shot", &a);
    }
    let lite = cfg!(miri) && d.len() > 10_000;
    if !lite {
        walk_xof(rep, &node, m, d, lvl, tag);
    }
    // interpreters see a wide update in one piece, and other splits of short inputs
    let pieces = if lite { vec![d.len()] } else { gen::pieces(r, d.len()) };
    let style = r.below(4);
    let Some(c) = rep.sut("incremental", || {
        let mut h = hasher(m);
        let mut pos = 0;
        for &l in &pieces {
            let piece = &d[pos..pos + l];
            match style {
                0 => {
                    h.update(piece);
                }
                1 => {
                    h.write_all(piece).unwrap();
                }
                2 => {
                    h = h.clone();
                    h.update(piece);
                }
                _ => {
                    let h2 = Box::new(h.clone());
                    drop(h);
                    h = *h2;
                    h.update(piece);
                }
            }
            pos += l;
        }
        h.flush().unwrap();
        (<[u8; 32]>::from(h.finalize()), h.finalize_xof().read(), format!("{:?}", h).len())
    }) else { return };
    if c.0 != want || c.1 != node.root_block(0) {
        rep.violation(format!("{} incremental {:?} style {} level {} tag {}: got {} want {}", m.name(), pieces, style, lvl, tag, hex(&c.0), hex(&want)));
    }
    if lite {
        return;
    }
    let mut src = d;
    let Some((n, h)) = rep.sut("copy_wide", || {
        let mut h = hasher(m);
        let n = baokeshed::copy::copy_wide(&mut src, &mut h).unwrap();
        (n, <[u8; 32]>::from(h.finalize()))
    }) else { return };
    if n != d.len() as u64 || h != want {
        bad("copy_wide", &h);
    }
    let hash = baokeshed::Hash::from(want);
    let Some(s) = rep.sut("digest value", || (hash.to_hex().to_string(), format!("{:?}", hash), hash == baokeshed::Hash::from(a), hash == a, *hash.as_bytes())) else { return };
    if s.0 != hex(&want) || !s.2 || !s.3 || s.4 != want {
        bad("digest value", &s.4);
    }
}

/// Readers and writers that are safe code and still break their promises:
/// numbers larger than the buffer, a look at the buffer before it is filled,
/// panics in the middle. Any outcome but undefined behaviour is fine.
pub fn hostile_copies(rep: &Rep, o: &Opts, cases: u64) {
    struct Bad<'a>(&'a mut Rng, u64, u64);
    impl std::io::Read for Bad<'_> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            if self.1 == 0 {
                return Ok(0);
            }
            self.1 -= 1;
            // whatever is in there may be looked at
            self.2 += buf.iter().step_by(if cfg!(miri) { 61 } else { 1 }).filter(|&&b| b == 0xa5).count() as u64;
            let n = self.0.usize(if cfg!(miri) { buf.len().min(5000) } else { buf.len() } + 1);
            buf[..n].fill(0xa5);
            match self.0.below(24) {
                0 => Ok(buf.len() + 1),
                1 => Ok(buf.len() + 4096),
                2 => Ok(usize::MAX),
                3 => panic!("a reader that panics"),
                4..=6 => Err(std::io::ErrorKind::Interrupted.into()),
                _ => Ok(n.max(1)),
            }
        }
    }
    struct Worse<'a>(&'a mut Rng, u64);
    impl Write for Worse<'_> {
        fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
            self.1 += buf.iter().step_by(if cfg!(miri) { 61 } else { 1 }).filter(|&&b| b == 0xa5).count() as u64;
            match self.0.below(40) {
                0 => Ok(buf.len() + 1),
                1 => Ok(usize::MAX),
                2 => panic!("a writer that panics"),
                3 => Ok(buf.len() / 2 + 1),
                _ => Ok(buf.len()),
            }
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let (ok, failed, panicked) = (std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0));
    let (me, n) = shard(o);
    par(rep, cases, |i| {
        if i as usize % n != me {
            return;
        }
        let mut r = Rng::at(o.seed, 87, i);
        let mut q = Rng::at(o.seed, 86, i);
        let calls = 1 + r.below(6);
        ctx("hostile copy case", &[i]);
        rep.eval(sig(&[5, i]));
        let into_hasher = r.chance(3);
        let m = gen::mode(&mut r);
        let res = sut(|| {
            let mut rd = Bad(&mut r, calls, 0);
            if into_hasher {
                let mut h = hasher(&m);
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| baokeshed::copy::copy_wide(&mut rd, &mut h)));
                // a hasher that lived through it is still usable
                h.update(&[1; 5000]);
                h.finalize();
                match res {
                    Ok(res) => res,
                    Err(payload) => std::panic::resume_unwind(payload),
                }
            } else {
                baokeshed::copy::copy_wide(&mut rd, &mut Worse(&mut q, 0))
            }
        });
        let which = match res {
            Ok(Ok(_)) => &ok,
            Ok(Err(_)) => &failed,
            Err(_) => &panicked,
        };
        which.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    });
    for (n, c) in [("hostile_copies_completed", ok), ("hostile_copies_failed", failed), ("hostile_copies_panicked", panicked)] {
        rep.count(n, c.into_inner());
    }
}

pub fn c08(rep: &Rep, o: &Opts) {
    hostile_copies(rep, o, o.size(4000, 100_000, 30));
    for lvl in levels() {
        set_level(lvl);
        // every length, inputs flush against inaccessible pages
        let top: u64 = o.size(9000, 40_000, 0);
        par(rep, top, |len| {
            let mut r = Rng::at(o.seed, 80 + lvl as u64, len);
            let data = r.bytes(len as usize);
            let m = gen::mode(&mut r);
            rep.eval(sig(&[1, lvl as u64, len]));
            walk(rep, &mut r, &data, &m, lvl, len);
        });
        par(rep, o.size(3000, 60_000, 200), |i| {
            let mut r = Rng::at(o.seed, 85 + lvl as u64, i);
            let len = gen::length(&mut r, o.size(150_000, 400_000, 20_000));
            let data = gen::content(&mut r, len);
            let m = gen::mode(&mut r);
            rep.eval(sig(&[2, lvl as u64, i]));
            walk(rep, &mut r, &data, &m, lvl, i);
        });
    }
    set_level(0);
}

/// "shard=i/n": this process takes the i-th of n shares of about equal size.
fn shard(o: &Opts) -> (usize, usize) {
    o.args.iter().find_map(|a| a.strip_prefix("shard=")).map_or((0, 1), |s| {
        let (a, b) = s.split_once('/').unwrap();
        (a.parse().unwrap(), b.parse().unwrap())
    })
}

/// For interpreters: a few dozen well-chosen cases.
pub fn small(rep: &Rep, o: &Opts) {
    let mut lens: Vec<usize> = vec![0, 1, 63, 64, 65, 2047, 2048, 2049, 4096, 6145, 8192, 8193];
    if o.thorough {
        lens.extend([128, 129, 2112, 4097, 6144, 10_240, 16_384, 16_385, 18_432, 20_481, 32_768, 34_817]);
    } else if o.has("simd") {
        lens = vec![0, 1, 65, 2048, 2049, 4096 + 64, 8193, 16_384, 20_481];
    } else if o.has("simd4") {
        lens = vec![1, 65, 2048, 2049, 4160, 9000];
    } else if o.has("simd8") {
        lens = vec![0, 64, 129, 4097, 6145, 18_500];
    } else if o.has("wide") {
        lens = vec![0, 65, 2049, 6145, 8193, 16_384, 18_433];
    } else if o.has("few") {
        lens = vec![0, 65, 2048, 2049, 6145];
    }
    let (me, n) = shard(o);
    let histories = o.size(2usize, 12, 1);
    let mut jobs: Vec<(usize, usize)> = lens.iter().copied().enumerate().map(|(i, l)| (l + 500, i)).collect();
    jobs.extend((0..histories).map(|i| (12_000, 1000 + i)));
    jobs.sort_by(|a, b| b.cmp(a));
    let mut load = vec![0; n];
    let mine: std::collections::HashSet<usize> = jobs
        .into_iter()
        .filter_map(|(cost, id)| {
            let k = (0..n).min_by_key(|&k| load[k]).unwrap();
            load[k] += cost;
            (k == me).then_some(id)
        })
        .collect();
    for (i, &l) in lens.iter().enumerate() {
        if !mine.contains(&i) {
            continue;
        }
        let mut r = Rng::at(o.seed, 88, i as u64);
        let data = r.bytes(l);
        let m = [Mode::plain(), Mode::keyed(r.key()), Mode::derive(r.key())][i % 3];
        rep.eval(sig(&[3, l as u64]));
        walk(rep, &mut r, &data, &m, 0, l as u64);
        rep.sample(|| format!("{} of {} bytes through every entry point", m.name(), l));
    }
    if !o.has("few") && !o.has("wide") {
        hostile_copies(rep, o, o.size(24, 120, 6));
    }
    // histories with finalization in between, and output streams
    for i in 0..histories as u64 {
        if !mine.contains(&(1000 + i as usize)) {
            continue;
        }
        let mut r = Rng::at(o.seed, 89, i);
        let m = gen::mode(&mut r);
        let total = r.usize(7000);
        let data = gen::content(&mut r, total);
        let got = rep.sut("history", || {
            let mut h = hasher(&m);
            let mut pos = 0;
            let mut ok = true;
            while pos < total {
                let l = (1 + r.usize(3000)).min(total - pos);
                h.update(&data[pos..pos + l]);
                pos += l;
                ok &= <[u8; 32]>::from(h.clone().finalize()) == root(&m, &data[..pos]).root_hash();
            }
            ok
        });
        rep.eval(sig(&[4, i]));
        if got == Some(false) {
            rep.violation(format!("small history {} differs", i));
        }
    }
}

/// For interpreters: positions beyond 32 bits, in input and output.
pub fn small_jump(rep: &Rep, o: &Opts) {
    #[cfg(baokeshed_verif)]
    {
        let (me, n) = shard(o);
        let quick = Opts { tiny: true, ..o.clone() };
        // the hooks must fit before anything is concluded from them
        if !crate::p_long::jump_is_faithful(rep, &quick) || !crate::p_hash::seek_is_faithful(rep, 10) {
            return;
        }
        for i in 0..o.size(48u64, 400, 8) {
            if i as usize % n != me {
                continue;
            }
            let mut r = Rng::at(o.seed, 84, i);
            let m = gen::mode(&mut r);
            let tail = [1, 64, 65, 2048, 2049, 4096, 300, 6300][i as usize % 8];
            let base = match i / 8 % 6 {
                0 => (1u64 << 32) - 2048 * (r.below(3)),
                1 => (1 << 32) + 2048 * r.below(9),
                2 => (1 << (33 + r.below(30))) + 2048 * r.below(70),
                3 => (1 << 43) - 2048 * (1 + r.below(4)),
                4 => (u64::MAX - tail as u64) / 2048 * 2048,
                _ => r.next() >> 1 >> r.below(30) & !2047,
            };
            let given: Vec<Cv> = (0..(base / 2048).count_ones()).map(|_| key_words(&r.key())).collect();
            let data = r.bytes(tail);
            let node = virtual_root(&m, base, &given, &data);
            let pieces = gen::pieces(&mut r, tail);
            // read over the position, not only from it
            let at = [1, 1 << 26, 1 << 26, 1 << 27, 1 << 32, (1 << 58) - 2, 1 + (r.next() >> 8)][r.usize(7)];
            rep.eval(sig(&[12, i]));
            rep.count("far_positions", 1);
            let got = rep.sut("hashing at a far position", || {
                let mut h = hasher(&m);
                let stack: Vec<[u8; 32]> = given.iter().map(cv_bytes).collect();
                baokeshed::verif::jump_hasher(&mut h, base, &stack);
                let mut pos = 0;
                for &p in &pieces {
                    h.update(&data[pos..pos + p]);
                    pos += p;
                }
                let mut x = h.finalize_xof();
                let first = x.read();
                baokeshed::verif::seek_output(&mut x, (at - 1) * 64);
                (<[u8; 32]>::from(h.finalize()), first, x.read(), x.read())
            });
            let Some(got) = got else { return };
            if got != (node.root_hash(), node.root_block(0), node.root_block(at - 1), node.root_block(at)) {
                rep.violation(format!("{} at position {:#x} with {} subtrees, {} more bytes as {:?}, output block {:#x}: got {} want {}", m.name(), base, given.len(), tail, pieces, at, hex(&got.0), hex(&node.root_hash())));
            }
        }
    }
    let _ = (rep, o);
}

/// For Miri with rayon: every interleaving the seed gives, a handful of tasks.
pub fn small_mt(rep: &Rep, o: &Opts) {
    let data = Rng::new(o.seed).bytes(5 * 2048 + 3);
    let m = Mode::keyed([4; 32]);
    // short calls of every kind at once
    let ms = [Mode::plain(), Mode::keyed([4; 32]), Mode::keyed([5; 32]), Mode::derive([4; 32])];
    let d = &data[..70 + (o.seed % 3) as usize];
    let want: Vec<_> = ms.iter().map(|m| root(m, d).root_hash()).collect();
    std::thread::scope(|s| {
        for (m, w) in ms.iter().zip(&want) {
            s.spawn(move || {
                let got = rep.sut("concurrent short calls", || {
                    let mut h = hasher(m);
                    h.update(&d[..30]);
                    let a = digest(m, d);
                    h.update(&d[30..]);
                    let mut x = h.clone().finalize_xof();
                    std::hint::black_box(x.read());
                    std::hint::black_box(format!("{:?} {:?}", h, x));
                    (a, <[u8; 32]>::from(h.finalize()))
                });
                if let Some(g) = got {
                    if g != (*w, *w) {
                        rep.violation(format!("{} of {} bytes while others hash: got {:?} want {}", m.name(), d.len(), g, hex(w)));
                    }
                }
            });
        }
    });
    rep.eval(sig(&[6, o.seed]));
    for l in [2049usize, 5000, 5 * 2048 + 3] {
        let want = root(&m, &data[..l]).root_hash();
        let got = rep.sut("parallel one-shot", || {
            std::thread::scope(|s| {
                let t = s.spawn(|| digest(&m, &data[..l]));
                let a = digest(&m, &data[..l]);
                (a, t.join().unwrap())
            })
        });
        rep.eval(sig(&[5, l as u64, o.seed]));
        if let Some((a, b)) = got {
            if a != want || b != want {
                rep.violation(format!("parallel hashing of {} bytes: got {} and {} want {}", l, hex(&a), hex(&b), hex(&want)));
            }
        }
    }
}

/// For interpreters: each Rust kernel on exactly sized heap blocks.
pub fn small_kern(rep: &Rep, o: &Opts) {
    use crate::p_kern::*;
    let (me, n) = shard(o);
    let mut id = 0;
    for (ki, k) in rust_kernels().into_iter().enumerate() {
        let cases: Vec<(usize, usize)> = match &k.op {
            Op::Many { batch, .. } if batch.len() == 1 => vec![(batch[0], 1), (batch[0], 2), (batch[0], 3)],
            Op::Many { .. } => vec![(0, 1), (1, 1), (2, 1), (3, 2), (4, 1), (5, 1), (7, 3), (8, 1), (9, 2), (11, 1), (12, 1), (15, 1), (17, 1)],
            _ => (0..o.size(8, 40, 4)).map(|i| (i, 0)).collect(),
        };
        for (a, b) in cases {
            id += 1;
            if id % n != me {
                continue;
            }
            let mut r = Rng::at(o.seed, 87, (ki * 1000 + a * 10 + b) as u64);
            let bl = k.width.block();
            let cv = gen::key(&mut r);
            let offset = r.pick(&[0u64, 2048, (1 << 32) - 2048, (1 << 32) - 4096, 5 << 32, u64::MAX / 2, 0x1234_5678_9abc_d000]);
            let flags = r.next() as u8;
            rep.eval(sig(&[8, ki as u64, a as u64, b as u64]));
            let shift = r.usize(5);
            let block = |r: &mut Rng, n: usize| {
                let mut v = vec![0; shift + n];
                r.fill(&mut v[shift..]);
                v.into_boxed_slice()
            };
            match &k.op {
                Op::Compress(_) | Op::Xof(_) => {
                    let v = block(&mut r, bl);
                    let want = k.width.compress(&cv, &v[shift..], bl as u8, offset, flags);
                    let Some(got) = rep.sut(&k.name, || match &k.op {
                        Op::Compress(f) => {
                            let mut c = cv;
                            f(&mut c, v[shift..].as_ptr(), bl as u8, offset, flags);
                            c.to_vec()
                        }
                        Op::Xof(f) => f(&cv, v[shift..].as_ptr(), bl as u8, offset, flags),
                        _ => unreachable!(),
                    }) else { return };
                    if got[..] != want[..got.len()] {
                        rep.violation(format!("{} offset {:#x} flags {:#x}: got {} want {}", k.name, offset, flags, hex(&got), hex(&want[..got.len()])));
                    }
                }
                Op::Many { f, .. } => {
                    let delta = r.pick(&[0u64, k.width.chunk()]);
                    let ins: Vec<Box<[u8]>> = (0..a).map(|_| block(&mut r, b * bl)).collect();
                    let ptrs: Vec<*const u8> = ins.iter().map(|v| v[shift..].as_ptr()).collect();
                    let mut out = vec![0u8; a * 32].into_boxed_slice();
                    let m = Many { inputs: &ptrs, blocks: b, key: cv, offset, delta, flags, start: 1, end: 2 };
                    let (p, len) = (out.as_mut_ptr(), out.len());
                    if rep.sut(&k.name, || f(&m, p, len)).is_none() {
                        return;
                    }
                    for i in 0..a {
                        let want = k.width.hash_blocks(&ins[i][shift..], &cv, offset.wrapping_add(i as u64 * delta), flags, 1, 2);
                        if out[32 * i..32 * i + 32] != want {
                            rep.violation(format!("{}: input {} of {}, {} blocks, offset {:#x} delta {}: got {} want {}", k.name, i, a, b, offset, delta, hex(&out[32 * i..32 * i + 32]), hex(&want)));
                        }
                    }
                }
            }
        }
        if me == 0 {
            rep.sample(|| k.name.clone());
        }
    }
}

/// For interpreters: the reference implementation.
pub fn small_ref(rep: &Rep, o: &Opts) {
    let (me, n) = shard(o);
    for (i, l) in [0usize, 1, 64, 65, 2048, 2049, 4097, 6145].into_iter().enumerate() {
        if i % n != me {
            continue;
        }
        let mut r = Rng::at(o.seed, 86, i as u64);
        let data = r.bytes(l);
        let m = [Mode::plain(), Mode::keyed(r.key()), Mode::derive(r.key())][i % 3];
        let node = root(&m, &data);
        rep.eval(sig(&[9, l as u64]));
        let cut = r.usize(l + 1);
        let got = rep.sut("reference", || {
            let mut h = match m.kind {
                0 => reference_impl::Hasher::new(),
                1 => reference_impl::Hasher::new_keyed(&m.key),
                _ => reference_impl::Hasher::new_derive_key(&m.key),
            };
            h.update(&data[..cut]);
            h.update(&data[cut..]);
            let mut out = vec![0; 100];
            h.finalize(&mut out);
            out
        });
        let Some(got) = got else { return };
        if got[..64] != node.root_block(0) || got[64..] != node.root_block(1)[..36] {
            rep.violation(format!("reference {} of {} bytes: got {} want {}...", m.name(), l, hex(&got), hex(&node.root_block(0))));
        }
    }
}
