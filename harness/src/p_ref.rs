//! C14: the reference implementation. Also the oracle as a service, for the
//! command-line tool and the Python code.

use crate::gen;
use crate::oracle::*;
use crate::p_hash::std_modes;
use crate::util::*;
use crate::Opts;
use reference_impl::Hasher;

fn new(m: &Mode) -> Hasher {
    match m.kind {
        0 => Hasher::new(),
        1 => Hasher::new_keyed(&m.key),
        _ => Hasher::new_derive_key(&m.key),
    }
}

fn stream(n: &Node, len: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..len.div_ceil(64) as u64).flat_map(|i| n.root_block(i)).collect();
    v.truncate(len);
    v
}

fn out_len(r: &mut Rng, max: usize) -> usize {
    match r.below(6) {
        0 => 32,
        1 => r.pick(&[0usize, 1, 31, 33, 63, 64, 65, 127, 128, 129, 191, 192, 1000]),
        2 => r.usize(max),
        3 => 64 * r.usize(20),
        _ => r.usize(200),
    }
}

/// One hasher, fed and finalized as drawn; every answer judged.
fn history(rep: &Rep, p: &Prefix, pieces: &[usize], r: &mut Rng, every: u64, tag: u64) {
    ctx("reference history mode/pieces/first/tag", &[p.mode.kind as u64, pieces.len() as u64, pieces.first().copied().unwrap_or(0) as u64, tag]);
    let Some(mut h) = rep.sut("new", || new(&p.mode)) else { return };
    let mut pos = 0;
    let judge = |h: &Hasher, pos: usize, r: &mut Rng| -> bool {
        let n = out_len(r, 5000);
        let node = p.root(pos);
        let want = stream(&node, n);
        // out ends where its allocation ends
        let mut out = vec![0xA5u8; n].into_boxed_slice();
        if rep.sut("finalize", || h.finalize(&mut out)).is_none() {
            return false;
        }
        rep.count_fast(0, 1);
        if out[..] != want[..] {
            rep.violation(format!(
                "reference {} of {} bytes fed as {:?} (tag {}), {} output bytes: got {} want {}",
                p.mode.name(), pos, pieces, tag, n, short_hex(&out), short_hex(&want)
            ));
            return false;
        }
        true
    };
    for &l in pieces {
        if rep.sut("update", || h.update(&p.data[pos..pos + l])).is_none() {
            return;
        }
        pos += l;
        if every > 0 && r.chance(every) && !(judge(&h, pos, r) && judge(&h, pos, r)) {
            return;
        }
    }
    if judge(&h, pos, r) {
        judge(&h, pos, r);
    }
}

pub fn c14(rep: &Rep, o: &Opts) {
    let mut r = Rng::at(o.seed, 140, 0);
    let modes = std_modes(&mut r);
    let top: usize = o.size(40_000, 300_000, 9000);
    let prefixes: Vec<Prefix> = modes.iter().map(|m| Prefix::new(*m, r.bytes(top + 1000))).collect();
    // every length at once
    par(rep, o.size(14_000u64, 70_000, 60), |i| {
        let mut r = Rng::at(o.seed, 141, i);
        let len = if o.tiny { r.usize(5000) } else { i as usize };
        rep.eval(sig(&[1, i]));
        history(rep, &prefixes[(i % 5) as usize], &[len], &mut r, 0, i);
    });
    // every output length
    par(rep, o.size(2500u64, 20_000, 70), |n| {
        let mut r = Rng::at(o.seed, 142, n);
        let m = gen::mode(&mut r);
        let len = r.pick(&[0usize, 1, 64, 65, 2048, 2049, 5000]);
        let data = gen::content(&mut r, len);
        let want = stream(&root(&m, &data), n as usize);
        rep.eval(sig(&[2, n]));
        let mut out = vec![0u8; n as usize];
        if rep.sut("finalize", || {
            let mut h = new(&m);
            h.update(&data);
            h.finalize(&mut out);
        }).is_some() && out != want {
            rep.violation(format!("reference {} of {} bytes, {} output bytes: got {} want {}", m.name(), len, n, short_hex(&out), short_hex(&want)));
        }
    });
    // all pairs and triples of boundary lengths, then random histories
    let units = [0usize, 1, 63, 64, 65, 128, 2047, 2048, 2049, 4095, 4096, 4097, 6144, 8192];
    let n = units.len() as u64;
    par(rep, if o.tiny { 30 } else { n * n * n }, |ijk| {
        let mut r = Rng::at(o.seed, 143, ijk);
        let pieces = [units[(ijk / n / n) as usize], units[(ijk / n % n) as usize], units[(ijk % n) as usize]];
        rep.eval(sig(&[3, ijk]));
        let every = if r.chance(2) { 1 } else { 0 };
        history(rep, &prefixes[(ijk % 5) as usize], &pieces[if r.chance(3) { 1 } else { 0 }..], &mut r, every, ijk);
    });
    par(rep, o.size(6000u64, 80_000, 20), |i| {
        let mut r = Rng::at(o.seed, 144, i);
        let total = gen::length(&mut r, top);
        let pieces = gen::pieces(&mut r, total);
        rep.eval(sig(&[4, i]));
        let p = &prefixes[r.usize(5)];
        let every = r.below(5);
        history(rep, p, &pieces, &mut r, every, i);
    });
    par(rep, o.size(1500u64, 30_000, 10), |i| {
        let mut r = Rng::at(o.seed, 145, i);
        let m = gen::mode(&mut r);
        let total = gen::length(&mut r, 20_000);
        let p = Prefix::new(m, gen::content(&mut r, total));
        let pieces = gen::pieces(&mut r, total);
        rep.eval(sig(&[5, i]));
        history(rep, &p, &pieces, &mut r, 3, i);
    });
    rep.flush_fast(0, "outputs_compared");
}

/// The reference implementation across 4 GiB of input and of output.
pub fn c14_long(rep: &Rep, o: &Opts) {
    use crate::p_long::*;
    const G4: u64 = 1 << 32;
    CPU_LIMIT.store(600, std::sync::atomic::Ordering::SeqCst);
    let mut r = Rng::at(o.seed, 146, 0);
    let max = G4 + 100_000;
    let d = Repeat::new(&mut r, max as usize);
    let modes = [Mode::keyed(r.key()), Mode::derive(r.key()), Mode::plain()];
    for m in &modes[..o.size(1, 3, 1)] {
        let big = BigOracle::new(*m, &d);
        par(rep, 5, |style| {
            let mut r = Rng::at(o.seed, 147, style);
            if style == 4 {
                long_output(rep, m, &mut r);
                return;
            }
            let mut h = new(m);
            let mut pos = 0;
            while pos < max && !rep.stopped() {
                let piece = match style {
                    0 if pos == 0 => G4 + 777,
                    1 if pos < G4 - 50_000 => r.range(1, 1 << 20).min(G4 - 50_000 - pos),
                    2 if pos == 0 => G4 - 2048,
                    3 if pos == 0 => G4 - 2048 - r.below(9000),
                    _ => 1 + gen::length(&mut r, 9000) as u64,
                }
                .min(max - pos);
                ctx("reference 4 GiB style/pos/piece", &[style, pos, piece]);
                if rep.sut("update", || h.update(d.at(pos, piece as usize))).is_none() {
                    return;
                }
                pos += piece;
                if pos < G4 - 50_000 {
                    continue;
                }
                let mut out = [0u8; 70];
                if rep.sut("finalize", || h.finalize(&mut out)).is_none() {
                    return;
                }
                rep.eval(sig(&[m.kind as u64, style, pos]));
                let n = big.root(&d, pos);
                if out[..] != stream(&n, 70)[..] {
                    rep.violation(format!("reference {} style {} at {} bytes: got {} want {}", m.name(), style, pos, hex(&out), hex(&stream(&n, 70))));
                    return;
                }
            }
            rep.count("bytes_fed", pos);
        });
    }
}

/// More than 4 GiB of output, into a window that is mapped again and again: at
/// the end it holds the last of what was written.
fn long_output(rep: &Rep, m: &Mode, r: &mut Rng) {
    let len = (1u64 << 32) + (1 << 20) + r.below(1 << 20);
    let win = crate::p_long::WIN as u64;
    let mut d = crate::p_long::Repeat::new(r, len as usize);
    let input = r.bytes(3000);
    let n = root(m, &input);
    ctx("reference output of length", &[len]);
    if rep.sut("finalize", || {
        let mut h = new(m);
        h.update(&input);
        h.finalize(d.bytes_mut());
    }).is_none() {
        return;
    }
    rep.eval(sig(&[9, m.kind as u64, len]));
    let mut pos = len - win + 64 - (len - win) % 64;
    while pos < len {
        let take = 64.min(len - pos) as usize;
        if d.at(pos, take) != &n.root_block(pos / 64)[..take] {
            rep.violation(format!("reference {}: output bytes {}.. of {} are {} want {}", m.name(), pos, len, hex(d.at(pos, take)), hex(&n.root_block(pos / 64)[..take])));
            return;
        }
        pos += 64;
    }
    rep.count("long_output_bytes", len);
}

fn parse_hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// stdin: one query per line, "mode key position length source"; the source is
/// hex digits, "-" for nothing, "@" and a path in hex, or "#seed/length" for
/// the generator's bytes. stdout: the specified output bytes in hex.
pub fn vectors() {
    use std::io::{BufRead, Write};
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    let rep = Rep::new();
    let outs: Vec<std::sync::Mutex<String>> = lines.iter().map(|_| Default::default()).collect();
    par(&rep, lines.len() as u64, |i| {
        let f: Vec<&str> = lines[i as usize].split(' ').collect();
        let mut m = Mode::plain();
        let subtree = f[0].starts_with('n');
        m.kind = f[0].trim_start_matches('n').parse().unwrap();
        if m.kind != 0 {
            m.key.copy_from_slice(&parse_hex(f[1]));
        }
        let (pos, len): (u64, u64) = (f[2].parse().unwrap(), f[3].parse().unwrap());
        let mut mapped = (std::ptr::null_mut(), 0);
        let held;
        let data: &[u8] = match f[4] {
            "-" => &[],
            s if s.starts_with('@') => {
                use std::os::unix::ffi::OsStringExt;
                use std::os::unix::io::AsRawFd;
                let file = std::fs::File::open(std::ffi::OsString::from_vec(parse_hex(&s[1..]))).unwrap();
                let len = file.metadata().unwrap().len() as usize;
                if len == 0 {
                    &[]
                } else {
                    unsafe {
                        let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ, libc::MAP_PRIVATE, file.as_raw_fd(), 0);
                        assert!(p != libc::MAP_FAILED);
                        mapped = (p, len);
                        std::slice::from_raw_parts(p as *const u8, len)
                    }
                }
            }
            s if s.starts_with('#') => {
                let (a, b) = s[1..].split_once('/').unwrap();
                held = Rng::new(a.parse().unwrap()).bytes(b.parse().unwrap());
                &held
            }
            s => {
                held = parse_hex(s);
                &held
            }
        };
        if subtree {
            // the chaining value of the subtree that begins at the position
            let cv = tree(data, &m.words(), pos, m.flags()).chain();
            *outs[i as usize].lock().unwrap() = hex(&cv_bytes(&cv));
            return;
        }
        let n = crate::p_hash::par_root(&m, data);
        if mapped.1 > 0 {
            unsafe { libc::munmap(mapped.0, mapped.1) };
        }
        let mut s = String::with_capacity(2 * len as usize);
        let end = pos.checked_add(len).unwrap();
        let mut blk = pos / 64;
        while blk * 64 < end {
            let b = n.root_block(blk);
            let from = pos.saturating_sub(blk * 64).min(64);
            let to = (end - blk * 64).min(64);
            s.push_str(&hex(&b[from as usize..to as usize]));
            blk += 1;
        }
        *outs[i as usize].lock().unwrap() = s;
    });
    let mut so = std::io::stdout().lock();
    for l in outs {
        writeln!(so, "{}", l.into_inner().unwrap()).unwrap();
    }
}
