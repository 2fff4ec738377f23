//! C19: inputs beyond 4 GiB, really fed; positions up to 2^64 by jumping there.

use crate::api::*;
use crate::gen;
use crate::oracle::*;
use crate::p_hash::par_root_fn;
use crate::util::*;
use crate::Opts;

pub const WIN: usize = 8 << 20; // repeated content, so that little memory is needed

/// The same WIN bytes mapped over and over: any length, little memory.
pub struct Repeat {
    base: *mut u8,
    len: usize,
    map: usize,
}
unsafe impl Sync for Repeat {}
unsafe impl Send for Repeat {}

impl Repeat {
    pub fn new(r: &mut Rng, len: usize) -> Repeat {
        unsafe {
            let fd = libc::memfd_create(c"bkv".as_ptr(), 0);
            assert!(fd >= 0 && libc::ftruncate(fd, WIN as _) == 0);
            let map = len.div_ceil(WIN) * WIN;
            let base = libc::mmap(std::ptr::null_mut(), map, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut u8;
            assert!(base as isize != -1);
            for i in 0..map / WIN {
                let p = libc::mmap(base.add(i * WIN) as _, WIN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_FIXED | libc::MAP_POPULATE, fd, 0);
                assert!(p as isize != -1);
            }
            libc::close(fd);
            let s = std::slice::from_raw_parts_mut(base, WIN);
            r.fill(s);
            Repeat { base, len, map }
        }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base, self.len) }
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, self.len) }
    }
    pub fn at(&self, off: u64, len: usize) -> &[u8] {
        &self.bytes()[off as usize..off as usize + len]
    }
}
impl Drop for Repeat {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as _, self.map);
        }
    }
}

/// Chaining values of all full chunks, so that every prefix can be answered.
pub struct BigOracle {
    mode: Mode,
    levels: Vec<Vec<Cv>>,
}

impl BigOracle {
    pub fn new(mode: Mode, d: &Repeat) -> BigOracle {
        let n = d.len / CHUNK;
        let key = mode.words();
        let mut leaves = vec![[0u32; 8]; n];
        let per = n.div_ceil(threads() * 8).max(64);
        let work = std::sync::Mutex::new(leaves.chunks_mut(per).enumerate());
        std::thread::scope(|s| {
            for _ in 0..threads() {
                s.spawn(|| loop {
                    let Some((b, out)) = work.lock().unwrap().next() else { break };
                    for (j, cv) in out.iter_mut().enumerate() {
                        let off = ((b * per + j) * CHUNK) as u64;
                        *cv = chunk_node(d.at(off, CHUNK), &key, off, mode.flags()).chain();
                    }
                });
            }
        });
        drop(work);
        BigOracle { mode, levels: build_levels(leaves, &key, mode.flags()) }
    }
    fn node(&self, d: &Repeat, start: u64, end: u64) -> Node {
        let key = self.mode.words();
        if end - start <= CHUNK as u64 {
            return chunk_node(d.at(start, (end - start) as usize), &key, start, self.mode.flags());
        }
        let n = (end - start - 1) / CHUNK as u64 + 1;
        let l = left_chunks(n);
        let mid = start + l * CHUNK as u64;
        let level = l.trailing_zeros() as usize;
        let left = self.levels[level][(start / (l * CHUNK as u64)) as usize];
        parent_node(&left, &self.node(d, mid, end).chain(), &key, self.mode.flags())
    }
    pub fn root(&self, d: &Repeat, len: u64) -> Node {
        self.node(d, 0, len)
    }
}

const G4: u64 = 1 << 32;

pub fn clong(rep: &Rep, o: &Opts) {
    // real feeding
    let mut r = Rng::at(o.seed, 190, 0);
    let max = G4 + (G4 / 8) * o.size(0, 9, 0) + (64 << 10);
    let d = Repeat::new(&mut r, max as usize);
    CPU_LIMIT.store(400, std::sync::atomic::Ordering::SeqCst);
    let modes: Vec<Mode> = if o.thorough { vec![Mode::keyed(r.key()), Mode::plain(), Mode::derive(r.key())] } else { vec![Mode::keyed(r.key())] };
    for (mi, m) in modes.iter().enumerate() {
        let big = BigOracle::new(*m, &d);
        let ends: Vec<u64> = {
            let mut v = vec![G4 - 1, G4, G4 + 1, G4 + 2048, G4 + 2049, G4 - 2048, G4 + 30_000, max];
            for _ in 0..o.size(0, 12, 0) {
                v.push(G4 - 20_000 + r.below(60_000));
            }
            v
        };
        // one call each
        par(rep, ends.len() as u64, |i| {
            let len = ends[i as usize];
            ctx("one call of length", &[len]);
            let want = big.root(&d, len);
            let Some(got) = rep.sut("one-shot", || digest(m, d.at(0, len as usize))) else { return };
            rep.eval(sig(&[1, mi as u64, len]));
            rep.count("one_shot_bytes", len);
            if got != want.root_hash() {
                rep.violation(format!("{} of {} bytes in one call: got {} want {}", m.name(), len, hex(&got), hex(&want.root_hash())));
            }
        });
        // one incremental hasher, observed all the way across 4 GiB
        let styles: u64 = 6;
        par(rep, styles, |style| {
            let mut r = Rng::at(o.seed, 191 + mi as u64, style);
            let Some(mut h) = rep.sut("new", || hasher(m)) else { return };
            let mut pos = 0u64;
            let mut obs = 0u64;
            let stop = G4 - 40_000 + r.below(2048);
            while pos < max && !rep.stopped() {
                let left = max - pos;
                let piece = if style == 0 && pos == 0 {
                    // everything in one update that crosses the boundary
                    G4 + 12_345
                } else if style == 1 {
                    r.range(1, 3 << 30)
                } else if pos < stop {
                    match style {
                        2 => (64 << 20) + r.below(5) * 2048,
                        3 => 16_384 * 64,
                        4 => r.range(1, 1 << 22),
                        _ => stop - pos,
                    }
                    .min(stop - pos)
                } else {
                    match style {
                        2 => 1 + r.below(100),
                        3 => 2048,
                        4 => gen::length(&mut r, 9000) as u64,
                        _ => 64 * r.below(50),
                    }
                }
                .min(left);
                ctx("4 GiB update style/pos/piece", &[style, pos, piece]);
                if rep.sut("update", || { h.update(d.at(pos, piece as usize)); }).is_none() {
                    return;
                }
                pos += piece;
                if pos >= stop || style <= 1 {
                    let want = big.root(&d, pos);
                    let Some((a, b)) = rep.sut("finalize", || (<[u8; 32]>::from(h.finalize()), h.finalize_xof().read())) else { return };
                    rep.eval(sig(&[2, mi as u64, style, pos]));
                    obs += 1;
                    if a != want.root_hash() || b != want.root_block(0) {
                        rep.violation(format!("{} incremental style {} at {} bytes: got {} want {}", m.name(), style, pos, hex(&a), hex(&want.root_hash())));
                        return;
                    }
                }
            }
            rep.count("observations_around_4GiB", obs);
            rep.count("incremental_bytes", pos);
        });
        // copying more than 4 GiB
        if mi == 0 {
            let mut src = d.bytes();
            let Some(res) = rep.sut("copy_wide", || {
                let mut h = hasher(m);
                let n = baokeshed::copy::copy_wide(&mut src, &mut h);
                (n.map_err(|e| e.to_string()), <[u8; 32]>::from(h.finalize()))
            }) else { return };
            rep.eval(sig(&[3]));
            if res != (Ok(max), big.root(&d, max).root_hash()) {
                rep.violation(format!("copy_wide of {} bytes: {:?} want {}", max, res, hex(&big.root(&d, max).root_hash())));
            }
        }
        // the binding of the C hasher
        #[cfg(feature = "c_portable")]
        par(rep, 2, |style| {
            let pieces = if style == 0 { vec![G4 + 7] } else { vec![2048 * 3 + 5, G4 - 1, 2048] };
            let n: u64 = pieces.iter().sum();
            ctx("c::Hasher, style/bytes", &[style, n]);
            let got = rep.sut("c::Hasher", || {
                let mut h = baokeshed::c::Hasher::new(&cv_bytes(&m.words()), m.flags());
                let mut pos = 0;
                for p in &pieces {
                    h.update(d.at(pos, *p as usize));
                    pos += p;
                }
                h.finalize()
            });
            let Some(got) = got else { return };
            rep.eval(sig(&[5, mi as u64, style]));
            rep.count("binding_bytes", n);
            if got != big.root(&d, n).root_hash() {
                rep.violation(format!("c::Hasher fed {:?} bytes: got {} want {}", pieces, hex(&got), hex(&big.root(&d, n).root_hash())));
            }
        });
        // the C hasher, every configuration
        for (label, lib) in crate::p_c::libs(o) {
            let Some(api) = crate::p_c::CApi::get(&label, &lib) else { continue };
            par(rep, 2, |style| {
                let mut c = crate::p_c::CHasher::new(&api, m);
                let mut pos = 0u64;
                let mut r = Rng::at(o.seed, 195, style);
                while pos < max && !rep.stopped() {
                    let piece = if style == 0 && pos == 0 {
                        G4 + 1_111
                    } else if pos < G4 - 30_000 {
                        G4 - 30_000 - pos
                    } else {
                        1 + gen::length(&mut r, 9000) as u64
                    }
                    .min(max - pos);
                    ctx("C 4 GiB style/pos/piece", &[style, pos, piece]);
                    if rep.sut(&label, || c.update(d.at(pos, piece as usize).as_ptr(), piece as usize)).is_none() {
                        return;
                    }
                    pos += piece;
                    let want = big.root(&d, pos).root_hash();
                    let Some(got) = rep.sut(&label, || c.finalize()) else { return };
                    rep.eval(sig(&[4, mi as u64, style, pos]));
                    rep.count_fast(0, 1);
                    if got != want {
                        rep.violation(format!("{} at {} bytes: got {} want {}", label, pos, hex(&got), hex(&want)));
                        return;
                    }
                }
                rep.count("c_bytes", pos);
            });
        }
        rep.flush_fast(0, "c_observations_around_4GiB");
    }
    let _ = par_root_fn;
}

/// Does the hook still put a hasher where it says? At positions that can also
/// be reached by hashing, both ways must give the same answers. If they differ
/// while plain hashing is right, the hook no longer fits the code: no verdict
/// is drawn from it.
#[cfg(baokeshed_verif)]
pub fn jump_is_faithful(rep: &Rep, o: &Opts) -> bool {
    let m = Mode::keyed([0x6b; 32]);
    // interpreters are slow
    let (cases, most, longest) = if cfg!(miri) { (4, 3, 2500) } else { (o.size(400u64, 400, 12), 64, 20_000) };
    let data = Rng::at(o.seed, 193, 0).bytes(2048 * most + longest + 1);
    for i in 0..cases {
        let mut r = Rng::at(o.seed, 194, i);
        let chunks = if cfg!(miri) { i as usize % most } else { r.usize(most) };
        let base = chunks * 2048;
        let tail = 1 + gen::length(&mut r, longest);
        let mut given = vec![];
        let mut s = 0;
        for bit in (0..8).rev() {
            if chunks >> bit & 1 == 1 {
                given.push(tree(&data[s..s + (2048 << bit)], &m.words(), s as u64, m.flags()).chain());
                s += 2048 << bit;
            }
        }
        let got = sut(|| {
            let mut h = hasher(&m);
            let stack: Vec<[u8; 32]> = given.iter().map(cv_bytes).collect();
            baokeshed::verif::jump_hasher(&mut h, base as u64, &stack);
            h.update(&data[base..base + tail]);
            (<[u8; 32]>::from(h.finalize()), h.finalize_xof().read())
        });
        let want = root(&m, &data[..base + tail]);
        let want = (want.root_hash(), want.root_block(0));
        if got.as_ref().ok() == Some(&want) {
            continue;
        }
        let plain = sut(|| {
            let mut h = hasher(&m);
            h.update(&data[..base]);
            h.update(&data[base..base + tail]);
            (<[u8; 32]>::from(h.finalize()), h.finalize_xof().read())
        });
        if plain.as_ref().ok() == Some(&want) {
            rep.note("the hook that jumps to deep positions does not fit this code; deep positions were not reached".into());
            return false;
        }
        rep.violation(format!("{} bytes fed as {} and {}: got {:?} want {}", base + tail, base, tail, plain.ok().map(|p| hex(&p.0)), hex(&want.0)));
        return false;
    }
    true
}

/// Positions up to the very end of the 64-bit range.
pub fn cjump(rep: &Rep, o: &Opts) {
    #[cfg(baokeshed_verif)]
    if !jump_is_faithful(rep, o) {
        return;
    }
    #[cfg(baokeshed_verif)]
    for lvl in levels() {
        set_level(lvl);
        par(rep, o.size(20_000, 300_000, 60), |i| {
            let mut r = Rng::at(o.seed, 196 + lvl as u64, i);
            let m = gen::mode(&mut r);
            let tail = match r.below(4) {
                0 => 1 + r.usize(4096),
                1 => 2048 * (1 + r.usize(8)),
                _ => 1 + gen::length(&mut r, 40_000),
            };
            let mut base = crate::p_c::deep_base(&mut r, tail as u64);
            if i < 60 {
                base = (u64::MAX - tail as u64) / 2048 * 2048;
            }
            let tail = if i < 30 { (u64::MAX - base) as usize } else { tail };
            let given: Vec<Cv> = (0..(base / 2048).count_ones()).map(|_| key_words(&r.key())).collect();
            let data = r.bytes(tail);
            let pieces = gen::pieces(&mut r, tail);
            let n = virtual_root(&m, base, &given, &data);
            ctx("deep position case/base/tail/level", &[i, base, tail as u64, lvl as u64]);
            rep.eval(sig(&[5, lvl as u64, i]));
            rep.max("deepest_stack", given.len() as u64);
            rep.max("highest_position_MiB", ((base as u128 + tail as u128) >> 20) as u64);
            let got = rep.sut("hashing at a deep position", || {
                let mut h = hasher(&m);
                let stack: Vec<[u8; 32]> = given.iter().map(cv_bytes).collect();
                baokeshed::verif::jump_hasher(&mut h, base, &stack);
                let mut pos = 0;
                for &p in &pieces {
                    h.update(&data[pos..pos + p]);
                    pos += p;
                }
                let mut x = h.finalize_xof();
                (<[u8; 32]>::from(h.finalize()), x.read(), x.read())
            });
            let Some(got) = got else { return };
            if got != (n.root_hash(), n.root_block(0), n.root_block(1)) {
                rep.violation(format!("{} at position {:#x} with {} subtrees at level {}, {} more bytes as {:?}: got {} want {}", m.name(), base, given.len(), lvl, tail, pieces, hex(&got.0), hex(&n.root_hash())));
            }
        });
    }
    set_level(0);
    let _ = (rep, o);
}
