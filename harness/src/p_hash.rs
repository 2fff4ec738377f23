//! C01 one-shot, C02 incremental, C03 finalize/clone, C04 extended output.

use crate::api::*;
use crate::gen;
use crate::oracle::*;
use crate::util::*;
use crate::Opts;
use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;

pub fn std_modes(r: &mut Rng) -> Vec<Mode> {
    vec![Mode::plain(), Mode::keyed(r.key()), Mode::derive(r.key()), Mode::keyed(gen::iv_key()), Mode::derive([0; 32])]
}

fn check_oneshot(rep: &Rep, mode: &Mode, input: &[u8], root: &Node, lvl: u8, nblocks: u64, tag: u64) {
    ctx("one-shot mode/len/level/tag", &[mode.kind as u64, input.len() as u64, lvl as u64, tag]);
    let want = root.root_hash();
    let Some(got) = rep.sut("one-shot digest", || digest(mode, input)) else { return };
    if got != want {
        rep.violation(format!(
            "{} of {} bytes at level {} (tag {}): got {} want {}; key {} input {}",
            mode.name(), input.len(), lvl, tag, hex(&got), hex(&want), hex(&mode.key), short_hex(input)
        ));
        return;
    }
    let Some(mut out) = rep.sut("one-shot xof", || xof(mode, input)) else { return };
    for i in 0..nblocks {
        let want = root.root_block(i);
        let Some(got) = rep.sut("xof read", || out.read()) else { return };
        if got != want {
            rep.violation(format!(
                "{}_xof of {} bytes at level {} (tag {}): output block {} is {} want {}; key {} input {}",
                mode.name(), input.len(), lvl, tag, i, hex(&got), hex(&want), hex(&mode.key), short_hex(input)
            ));
            return;
        }
    }
    let Some(h) = rep.sut("xof to_hash", || <[u8; 32]>::from(xof(mode, input).to_hash())) else { return };
    if h != want {
        rep.violation(format!("{}_xof(..).to_hash() of {} bytes at level {}: got {} want {}", mode.name(), input.len(), lvl, hex(&h), hex(&want)));
    }
}

pub fn c01(rep: &Rep, o: &Opts) {
    let mut r = Rng::at(o.seed, 1, 0);
    let modes = std_modes(&mut r);
    // exhaustive lengths, all modes up to n1, rotating modes up to n2
    let n1: usize = o.size(20_600, 70_000, 2_600);
    let n2: usize = o.size(74_000, 300_000, 9_000);
    let prefixes: Vec<Prefix> = modes
        .iter()
        .enumerate()
        .map(|(i, m)| {
            let mut d = vec![0; n2 + 64];
            if i == 0 {
                for (j, b) in d.iter_mut().enumerate() {
                    *b = (j % 251) as u8;
                }
            } else {
                r.fill(&mut d);
            }
            Prefix::new(*m, d)
        })
        .collect();
    for lvl in levels() {
        set_level(lvl);
        rep.count(&format!("level_{}", lvl), 1);
        // (a) every length
        let step = 64usize;
        par(rep, (n2 / step + 1) as u64, |blk| {
            for len in (blk as usize * step)..((blk as usize + 1) * step).min(n2 + 1) {
                for (i, p) in prefixes.iter().enumerate() {
                    if i >= 3 && len % 5 != i % 5 && len > 4200 {
                        continue;
                    }
                    if len > n1 && len % 3 != i % 3 {
                        continue;
                    }
                    rep.eval(sig(&[1, lvl as u64, i as u64, len as u64]));
                    check_oneshot(rep, &p.mode, &p.data[..len], &p.root(len), lvl, 2, i as u64);
                }
                if rep.stopped() {
                    return;
                }
            }
        });
        rep.sample(|| format!("level {}: every length 0..={} in rotating modes", lvl, n2));
        // (b) many chunk counts with all kinds of remainders
        let maxc: u64 = o.size(620, 4200, 40);
        let big = Prefix::new(modes[1], Rng::at(o.seed, 2, lvl as u64).bytes((maxc as usize + 4) * CHUNK));
        let bigp = Prefix::new(modes[0], big.data.clone());
        par(rep, maxc, |c| {
            let mut r = Rng::at(o.seed, 3, c);
            let heavy = c > 300 && !(c & (c - 1) == 0 || (c + 1) & c == 0 || c % 8 == 1);
            let rems: Vec<i64> = if heavy { vec![0, r.range(1, 2047) as i64] } else { vec![-64, -1, 0, 1, 63, 64, 65, 1024, 2047, r.range(1, 2047) as i64] };
            for d in rems {
                let len = (c as i64 * CHUNK as i64 + d).max(0) as usize;
                let p = if (c as i64 + d) % 2 == 0 { &big } else { &bigp };
                rep.eval(sig(&[2, lvl as u64, len as u64, p.mode.kind as u64]));
                check_oneshot(rep, &p.mode, &p.data[..len], &p.root(len), lvl, 1, 100);
            }
        });
        // (c) hostile contents and keys, random alignment
        let n: u64 = o.size(6000, 60_000, 300);
        par(rep, n, |i| {
            let mut r = Rng::at(o.seed, 4 + lvl as u64 * 16, i);
            let m = gen::mode(&mut r);
            let len = gen::length(&mut r, o.size(40_000, 120_000, 9000));
            let align = r.usize(64);
            let mut buf = vec![0u8; len + 64];
            gen::fill_content(&mut r, &mut buf[align..align + len]);
            let input = &buf[align..align + len];
            let root = root(&m, input);
            rep.eval(sig(&[3, lvl as u64, i, len as u64]));
            check_oneshot(rep, &m, input, &root, lvl, 1 + r.below(4), 200 + i);
        });
        // one buffer, whose content changes between calls
        par(rep, o.size(200, 2000, 4), |i| {
            let mut r = Rng::at(o.seed, 6 + lvl as u64 * 16, i);
            let m = gen::mode(&mut r);
            let len = gen::length(&mut r, o.size(20_000, 60_000, 3000));
            let mut buf = gen::content(&mut r, len);
            for k in 0..4u64 {
                let root = root(&m, &buf);
                rep.eval(sig(&[5, lvl as u64, i, k]));
                check_oneshot(rep, &m, &buf, &root, lvl, 1, 400 + i);
                if len > 0 {
                    match k {
                        0 => { let j = r.usize(len); buf[j] ^= 1 << r.below(8) }
                        1 => buf[len - 1] = buf[len - 1].wrapping_add(1),
                        _ => gen::fill_content(&mut r, &mut buf),
                    }
                }
            }
        });
        rep.sample(|| format!("level {}: {} hostile contents, e.g. chunk counts 1..{} with remainders -64..2047", lvl, n, maxc));
    }
    set_level(0);
    // (d) a few large inputs, where the parallel recursion is deep
    let sizes: &[usize] = if o.thorough { &[3 << 20, (16 << 20) + 1, (64 << 20) - 1, (200 << 20) + 12345] } else { &[3 << 20, (8 << 20) + 1, (24 << 20) - 2047] };
    for (j, &n) in sizes.iter().enumerate() {
        if o.tiny {
            break;
        }
        let mut r = Rng::at(o.seed, 5, j as u64);
        let d = r.bytes(n);
        let m = modes[j % 3];
        let want = par_root(&m, &d);
        for lvl in levels() {
            set_level(lvl);
            rep.eval(sig(&[4, lvl as u64, n as u64]));
            check_oneshot(rep, &m, &d, &want, lvl, 1, 300);
        }
        set_level(0);
    }
    if o.tiny {
        return;
    }
    // (e) around every power of two, as far as it goes: few distinct bytes in
    // memory, every prefix of them answered by the specification
    let max = (if cfg!(debug_assertions) { o.size(264usize << 20, 1028 << 20, 0) } else { o.size(1028usize << 20, 4100 << 20, 0) }) + 999_999;
    let mut r = Rng::at(o.seed, 6, 0);
    let d = crate::p_long::Repeat::new(&mut r, max);
    for m in &modes[..o.size(1, 3, 1)] {
        let big = crate::p_long::BigOracle::new(*m, &d);
        let mut ends: Vec<usize> = vec![max];
        let mut p = 16usize << 20;
        while p < max {
            ends.extend([p - 1, p, p + 1, p + 2048 * 9, p + p / 2 + 77]);
            ends.push(p + r.usize(p));
            p *= 2;
        }
        ends.retain(|&e| e <= max);
        for lvl in levels() {
            set_level(lvl);
            // the widest kernels see all of it, the others up to a quarter
            let top = lvl == *levels().last().unwrap();
            let es: Vec<usize> = ends.iter().rev().copied().filter(|&e| top || o.thorough || e <= max / 4).collect();
            par(rep, es.len() as u64, |i| {
                let len = es[i as usize];
                let want = big.root(&d, len as u64);
                rep.eval(sig(&[6, lvl as u64, m.kind as u64, len as u64]));
                rep.count("large_one_shot_MiB", len as u64 >> 20);
                check_oneshot(rep, m, d.at(0, len), &want, lvl, 1, 400);
            });
        }
        set_level(0);
    }
}

/// The specification on a large message, chunks hashed on all cores.
pub fn par_root(m: &Mode, d: &[u8]) -> Node {
    par_root_fn(m, d.len() as u64, &|off, len| &d[off as usize..(off + len as u64) as usize])
}

pub fn par_root_fn<'a>(m: &Mode, total: u64, at: &(dyn Fn(u64, usize) -> &'a [u8] + Sync)) -> Node {
    if total <= CHUNK as u64 {
        return root(m, at(0, total as usize));
    }
    let n = ((total - 1) / CHUNK as u64 + 1) as usize;
    let key = m.words();
    let mut cvs = vec![[0u32; 8]; n];
    let per = n.div_ceil(threads() * 8).max(64);
    let work = std::sync::Mutex::new(cvs.chunks_mut(per).enumerate());
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| loop {
                let Some((b, out)) = work.lock().unwrap().next() else { break };
                for (j, cv) in out.iter_mut().enumerate() {
                    let off = (b * per + j) as u64 * CHUNK as u64;
                    let len = CHUNK.min((total - off) as usize);
                    *cv = chunk_node(at(off, len), &key, off, m.flags()).chain();
                }
            });
        }
    });
    // Combine: recursive over chunk indexes.
    fn up(cvs: &[Cv], key: &Cv, flags: u8) -> Cv {
        if cvs.len() == 1 {
            return cvs[0];
        }
        let l = left_chunks(cvs.len() as u64) as usize;
        parent_node(&up(&cvs[..l], key, flags), &up(&cvs[l..], key, flags), key, flags).chain()
    }
    let l = left_chunks(n as u64) as usize;
    parent_node(&up(&cvs[..l], &key, m.flags()), &up(&cvs[l..], &key, m.flags()), &key, m.flags())
}

// ------------------------------------------------------------------- C02

fn feed(h: &mut baokeshed::Hasher, piece: &[u8], how: u64) -> Result<(), String> {
    match how {
        0 | 1 => {
            h.update(piece);
        }
        2 => {
            let n = h.write(piece).map_err(|e| format!("write failed: {}", e))?;
            if n != piece.len() {
                return Err(format!("write of {} bytes reported {}", piece.len(), n));
            }
        }
        3 => {
            h.write_all(piece).map_err(|e| format!("write_all failed: {}", e))?;
            h.flush().map_err(|e| format!("flush failed: {}", e))?;
        }
        4 => {
            let n = std::io::copy(&mut &piece[..], h).map_err(|e| format!("io::copy failed: {}", e))?;
            if n != piece.len() as u64 {
                return Err(format!("io::copy of {} bytes reported {}", piece.len(), n));
            }
        }
        6 | 7 => {
            // gather-write, with empty buffers among the others; continue
            // after what was accepted, as the trait documents
            let mut rest = piece;
            let mut idle = 0;
            loop {
                let n = rest.len();
                let (a, b) = (n / 5, n / 2);
                let empty: &[u8] = &[];
                let parts: Vec<&[u8]> = match (how, n % 3) {
                    (6, 0) => vec![empty, rest],
                    (6, 1) => vec![&rest[..a], &rest[a..b], empty, empty, &rest[b..]],
                    (6, _) => vec![&rest[..b], &rest[b..]],
                    (_, 0) => vec![rest, empty],
                    (_, 1) => vec![],
                    _ => rest.chunks(n / 1100 + 1).collect(),
                };
                let total: usize = parts.iter().map(|p| p.len()).sum();
                let slices: Vec<std::io::IoSlice> = parts.iter().map(|p| std::io::IoSlice::new(p)).collect();
                let k = h.write_vectored(&slices).map_err(|e| format!("write_vectored failed: {}", e))?;
                if k > total {
                    return Err(format!("write_vectored of {} bytes reported {}", total, k));
                }
                rest = &rest[k..];
                if rest.is_empty() {
                    break;
                }
                if k == 0 {
                    idle += 1;
                    if total > 0 || idle > 1 {
                        // nothing accepted: go on with plain writes
                        h.write_all(rest).map_err(|e| format!("write_all failed: {}", e))?;
                        break;
                    }
                }
            }
        }
        8 => {
            // through the adaptors of the standard library
            use std::io::BufWriter;
            let mut w = BufWriter::with_capacity(1 + piece.len() % 3000, &mut *h);
            for p in piece.chunks(piece.len() / 7 + 1) {
                w.write_all(p).map_err(|e| format!("buffered write failed: {}", e))?;
            }
            w.flush().map_err(|e| format!("buffered flush failed: {}", e))?;
        }
        9 => {
            // formatted, where the bytes are text
            let k = piece.iter().take_while(|b| b.is_ascii()).count();
            let t = std::str::from_utf8(&piece[..k]).unwrap();
            let d: &mut dyn Write = h;
            write!(d, "{}{}", &t[..k / 2], &t[k / 2..]).map_err(|e| format!("write! failed: {}", e))?;
            h.by_ref().write_all(&piece[k..]).map_err(|e| format!("write_all failed: {}", e))?;
        }
        _ => {
            // chained calls
            let k = piece.len() / 3;
            h.update(&piece[..k]).update(&piece[k..]);
        }
    }
    Ok(())
}

fn check_history(rep: &Rep, p: &Prefix, pieces: &[usize], hows: u64, lvl: u8, tag: u64) {
    let mut pos = 0;
    ctx("history mode/level/tag", &[p.mode.kind as u64, lvl as u64, tag]);
    let res = rep.sut("incremental hashing", || {
        let mut h = hasher(&p.mode);
        let mut hr = Rng::new(hows);
        for &l in pieces {
            feed(&mut h, &p.data[pos..pos + l], if hows == 0 { 0 } else { hr.below(11) })?;
            pos += l;
        }
        let mut out = h.finalize_xof();
        Ok::<_, String>((<[u8; 32]>::from(h.finalize()), out.read(), out.read()))
    });
    let Some(res) = res else { return };
    let node = p.root(pos);
    let want = (node.root_hash(), node.root_block(0), node.root_block(1));
    match res {
        Ok(got) if got == want => {}
        Ok(got) => rep.violation(format!(
            "{} level {} pieces {:?} (tag {} hows {:#x}): digest {} xof {} want {} {}",
            p.mode.name(), lvl, pieces, tag, hows, hex(&got.0), hex(&got.1), hex(&want.0), hex(&want.1)
        )),
        Err(e) => rep.violation(format!("{} level {} pieces {:?} (tag {}): {}", p.mode.name(), lvl, pieces, tag, e)),
    }
}

pub fn c02(rep: &Rep, o: &Opts) {
    let mut r = Rng::at(o.seed, 20, 0);
    let maxlen: usize = o.size(300_000, 3_000_000, 24_000);
    let modes = std_modes(&mut r);
    let prefixes: Vec<Prefix> = modes.iter().map(|m| Prefix::new(*m, r.bytes(maxlen))).collect();
    // lengths whose pairs and triples are enumerated completely
    let units: Vec<usize> = {
        let mut v = vec![0, 1, 63, 64, 65, 128, 1983, 1984, 2047, 2048, 2049, 2112, 4095, 4096, 4097, 6143, 6144, 6145, 8192, 8193, 14336, 16383, 16384, 16385, 18432, 32768];
        if o.thorough {
            v.extend([2, 127, 129, 2111, 2113, 10240, 12288, 12289, 20480, 24576, 32767, 32769, 34816, 65536]);
        }
        if o.tiny {
            v = vec![0, 1, 64, 65, 2047, 2048, 2049, 4096];
        }
        v
    };
    for lvl in levels() {
        set_level(lvl);
        let n = units.len() as u64;
        par(rep, n * n, |ij| {
            let (a, b) = (units[(ij / n) as usize], units[(ij % n) as usize]);
            for (mi, p) in prefixes.iter().enumerate().take(3) {
                rep.eval(sig(&[1, lvl as u64, mi as u64, ij]));
                check_history(rep, p, &[a, b], 0, lvl, ij);
            }
            for (ci, &c) in units.iter().enumerate() {
                if rep.stopped() {
                    return;
                }
                let p = &prefixes[(ij as usize + ci) % 3];
                rep.eval(sig(&[2, lvl as u64, ij, ci as u64]));
                check_history(rep, p, &[a, b, c], 0, lvl, ij);
            }
        });
        rep.count("exhaustive_pairs_and_triples_levels", 1);
        // single strides and every total around chunk boundaries, byte by byte at the seams
        let strides = [1usize, 2, 3, 7, 31, 32, 33, 63, 64, 65, 100, 128, 1000, 2047, 2048, 2049, 4096, 6144, 16384, 16383, 18432];
        par(rep, strides.len() as u64 * 3, |k| {
            let s = strides[(k / 3) as usize];
            let p = &prefixes[(k % 3) as usize];
            let limit = (s * 500).min(maxlen - s);
            ctx("stride", &[s as u64, lvl as u64]);
            let mut h = hasher(&p.mode);
            let mut pos = 0;
            while pos < limit && !rep.stopped() {
                let Some(d) = rep.sut("stride", || {
                    h.update(&p.data[pos..pos + s]);
                    <[u8; 32]>::from(h.clone().finalize())
                }) else { return };
                pos += s;
                rep.eval(sig(&[3, lvl as u64, k, pos as u64]));
                let want = p.hash(pos);
                if d != want {
                    rep.violation(format!("{} level {} stride {} at {} bytes: {} want {}", p.mode.name(), lvl, s, pos, hex(&d), hex(&want)));
                }
            }
        });
        // random histories
        let n: u64 = o.size(80_000, 600_000, 300);
        par(rep, n, |i| {
            let mut r = Rng::at(o.seed, 21 + lvl as u64, i);
            let p = &prefixes[r.usize(prefixes.len())];
            let total = if r.chance(12) { r.usize(maxlen) } else { gen::length(&mut r, maxlen.min(50_000)) };
            let pieces = gen::pieces(&mut r, total);
            rep.eval(sig(&[4, lvl as u64, i]));
            rep.count("random_history_pieces", pieces.len() as u64);
            if i < 2 {
                rep.sample(|| format!("level {} {} pieces {:?}", lvl, p.mode.name(), &pieces[..pieces.len().min(20)]));
            }
            check_history(rep, p, &pieces, r.next() | 1, lvl, i);
        });
        // hostile contents: split content with constant segments
        par(rep, n / 8, |i| {
            let mut r = Rng::at(o.seed, 29 + lvl as u64, i);
            let m = gen::mode(&mut r);
            let total = gen::length(&mut r, maxlen.min(30_000));
            let p = Prefix::new(m, gen::content(&mut r, total));
            let pieces = gen::pieces(&mut r, total);
            rep.eval(sig(&[5, lvl as u64, i]));
            check_history(rep, &p, &pieces, r.next() | 1, lvl, i);
        });
    }
    set_level(0);
    if o.tiny {
        return;
    }
    // long histories of pieces of every magnitude
    let max = (if cfg!(debug_assertions) { o.size(80usize << 20, 300 << 20, 0) } else { o.size(300usize << 20, 1100 << 20, 0) }) + 54_321;
    let d = crate::p_long::Repeat::new(&mut r, max);
    let m = modes[(o.seed % 3) as usize];
    let big = crate::p_long::BigOracle::new(m, &d);
    par(rep, o.size(24, 96, 0), |i| {
        let mut r = Rng::at(o.seed, 28, i);
        let stop = if i % 3 == 0 { max } else { (1 << 20) + r.usize(max - (1 << 20)) };
        let magnitude = 10 + r.below(19);
        let Some(mut h) = rep.sut("new", || hasher(&m)) else { return };
        let (mut pos, mut n) = (0usize, 0u64);
        while pos < stop && !rep.stopped() {
            let l = match r.below(8) {
                0 => r.usize(3000),
                1 => (2048 - pos % 2048) % 2048,
                2 => (pos.next_power_of_two() - pos).min(1 << 27),
                3 => 2048 << r.below(magnitude.min(17)),
                _ => {
                    let k = r.below(magnitude);
                    r.usize(2 << k)
                }
            };
            // as many pieces as fit a bounded effort
            let l = (if n > 3000 { l.max(1 << 23) } else { l }).min(stop - pos);
            ctx("long history case/pos/piece", &[i, pos as u64, l as u64]);
            let how = if r.chance(2) { 0 } else { [2, 3, 6, 10][r.usize(4)] };
            match rep.sut("feeding a long history", || feed(&mut h, d.at(pos as u64, l), how)) {
                None => return,
                Some(Err(e)) => return rep.violation(format!("long history {}: piece {} at {}: {}", i, n, pos, e)),
                Some(Ok(())) => (),
            }
            pos += l;
            n += 1;
            if pos == 0 || (n % 16 != 0 && l < 1 << 20 && pos < stop) {
                continue;
            }
            rep.eval(sig(&[6, i, pos as u64]));
            rep.count("long_history_observations", 1);
            let want = big.root(&d, pos as u64).root_hash();
            let Some(got) = rep.sut("finalize", || <[u8; 32]>::from(h.finalize())) else { return };
            if got != want {
                rep.violation(format!("{} long history {} (piece {} of {} bytes) at {} bytes: got {} want {}", m.name(), i, n, l, pos, hex(&got), hex(&want)));
                return;
            }
        }
        rep.count("long_history_MiB", pos as u64 >> 20);
    });
    // single writes beyond 31 and 32 bits
    if cfg!(debug_assertions) && !o.thorough {
        return;
    }
    drop(big);
    #[cfg(target_pointer_width = "64")]
    huge_writes(rep, o, &mut r, modes[(o.seed as usize + 1) % 3]);
}

#[cfg(target_pointer_width = "64")]
fn huge_writes(rep: &Rep, _o: &Opts, r: &mut Rng, m: Mode) {
    let max = (1usize << 32) + (3 << 20) + 777;
    let d = crate::p_long::Repeat::new(r, max);
    let big = crate::p_long::BigOracle::new(m, &d);
    CPU_LIMIT.store(400, std::sync::atomic::Ordering::SeqCst);
    par(rep, 6, |i| {
        let pieces = [vec![max], vec![1, (1 << 31) - 1], vec![(1 << 31) + 5], vec![4096, (1 << 32) - 1], vec![1 << 32], vec![2048 * 3 + 5, max - 9000]][i as usize].clone();
        ctx("huge writes case", &[i]);
        rep.eval(sig(&[7, i]));
        let total: usize = pieces.iter().sum();
        let res = rep.sut("huge writes", || {
            let mut h = hasher(&m);
            let mut pos = 0;
            for &l in &pieces {
                feed(&mut h, d.at(pos as u64, l), if l < 5000 { 0 } else if i == 5 { 6 } else { 2 })?;
                pos += l;
            }
            Ok::<_, String>(<[u8; 32]>::from(h.finalize()))
        });
        match res {
            None => (),
            Some(Err(e)) => rep.violation(format!("huge writes {:?}: {}", pieces, e)),
            Some(Ok(got)) => {
                let want = big.root(&d, total as u64).root_hash();
                if got != want {
                    rep.violation(format!("{} written as {:?}: got {} want {}", m.name(), pieces, hex(&got), hex(&want)));
                }
            }
        }
        rep.count("huge_write_MiB", total as u64 >> 20);
    });
}

// ------------------------------------------------------------------- C03

struct Live {
    h: baokeshed::Hasher,
    data: Vec<u8>,
    mode: Mode,
}

/// Clones of hashers that hold many subtrees: at positions really reached, and
/// (with the hooks) at any position.
fn deep_clones(rep: &Rep, o: &Opts) {
    let max: usize = if cfg!(debug_assertions) { o.size(70usize << 20, 300 << 20, 0) } else { o.size(270usize << 20, 1100 << 20, 0) };
    if max == 0 {
        return;
    }
    let mut r = Rng::at(o.seed, 37, 0);
    let d = crate::p_long::Repeat::new(&mut r, max);
    let m = std_modes(&mut r)[(o.seed % 3) as usize];
    let big = crate::p_long::BigOracle::new(m, &d);
    par(rep, 8, |w| {
        let mut r = Rng::at(o.seed, 38, w);
        let most = (max - 40_000) / 2048;
        let mut stations: Vec<usize> = vec![];
        let mut full = 1;
        while full <= most {
            stations.push(full * 2048);
            for _ in 0..3 {
                // many bits set, some not
                let chunks = full & !(1usize << r.below(20)) & !(1usize << r.below(40));
                stations.push(chunks * 2048 + [0, 1, 64, 2047, r.usize(2048)][r.usize(5)]);
            }
            full = full * 2 + 1;
        }
        for _ in 0..8 {
            stations.push(r.usize(most) * 2048 + r.usize(2048));
        }
        stations.sort();
        let (mut h, mut pos) = (hasher(&m), 0usize);
        for &s in &stations {
            if rep.stopped() {
                return;
            }
            ctx("clones at stations: walker/position", &[w, s as u64]);
            let (la, lb) = (r.usize(20_000), r.usize(20_000));
            let other = gen::mode(&mut r);
            let fill = r.usize(20_000);
            let got = rep.sut("clones at stations", || {
                h.update(d.at(pos as u64, s - pos));
                let mut a = h.clone();
                let mut b = hasher(&other);
                b.update(d.at(0, fill));
                b.clone_from(&h);
                let c = a.clone();
                a.update(d.at(s as u64, la));
                b.update(d.at(s as u64, lb));
                let mut x = b.finalize_xof();
                (<[u8; 32]>::from(a.finalize()), <[u8; 32]>::from(b.finalize()), x.read(), <[u8; 32]>::from(c.finalize()), <[u8; 32]>::from(h.finalize()))
            });
            let Some(got) = got else { return };
            pos = s;
            rep.eval(sig(&[10, w, s as u64]));
            rep.count("clones_at_stations", 3);
            rep.max("subtrees_cloned", ((s / 2048) as u64).count_ones() as u64);
            let here = big.root(&d, s as u64).root_hash();
            let (wa, wb) = (big.root(&d, (s + la) as u64).root_hash(), big.root(&d, (s + lb) as u64));
            if got != (wa, wb.root_hash(), wb.root_block(0), here, here) {
                rep.violation(format!("{} cloned at {} bytes, then fed {} and {}: got {} {} {} {} want {} {} {} twice", m.name(), s, la, lb, hex(&got.0), hex(&got.1), hex(&got.3), hex(&got.4), hex(&wa), hex(&wb.root_hash()), hex(&here)));
                return;
            }
        }
    });
    #[cfg(baokeshed_verif)]
    {
        if !crate::p_long::jump_is_faithful(rep, o) {
            return;
        }
        par(rep, o.size(3000, 60_000, 0), |i| {
            let mut r = Rng::at(o.seed, 39, i);
            let m = gen::mode(&mut r);
            let (la, lb) = (1 + r.usize(9000), 1 + r.usize(9000));
            let base = crate::p_c::deep_base(&mut r, 9000);
            let given: Vec<Cv> = (0..(base / 2048).count_ones()).map(|_| key_words(&r.key())).collect();
            let data = r.bytes(9001);
            ctx("clones at deep positions case/base", &[i, base]);
            rep.eval(sig(&[11, i]));
            rep.max("subtrees_cloned", given.len() as u64);
            let (na, nb) = (virtual_root(&m, base, &given, &data[..la]), virtual_root(&m, base, &given, &data[..lb]));
            let got = rep.sut("clones at a deep position", || {
                let mut h = hasher(&m);
                let stack: Vec<[u8; 32]> = given.iter().map(cv_bytes).collect();
                baokeshed::verif::jump_hasher(&mut h, base, &stack);
                let first = r.usize(la.min(lb) + 1);
                h.update(&data[..first]);
                let mut a = h.clone();
                let mut b = hasher(&m);
                b.clone_from(&a);
                a.update(&data[first..la]);
                b.update(&data[first..lb]);
                h.update(&data[first..lb]);
                (<[u8; 32]>::from(a.finalize()), <[u8; 32]>::from(b.finalize()), <[u8; 32]>::from(h.finalize()))
            });
            let Some(got) = got else { return };
            if got != (na.root_hash(), nb.root_hash(), nb.root_hash()) {
                rep.violation(format!("{} cloned near position {:#x} with {} subtrees, then fed up to {} and {} bytes: got {} {} {} want {} {} twice", m.name(), base, given.len(), la, lb, hex(&got.0), hex(&got.1), hex(&got.2), hex(&na.root_hash()), hex(&nb.root_hash())));
            }
        });
    }
}

pub fn c03(rep: &Rep, o: &Opts) {
    #[cfg(not(miri))]
    deep_clones(rep, o);
    for lvl in levels() {
        set_level(lvl);
        let n: u64 = o.size(20_000, 150_000, 40);
        par(rep, n, |i| {
            let mut r = Rng::at(o.seed, 30 + lvl as u64, i);
            let m = gen::mode(&mut r);
            let mut trace: Vec<String> = vec![];
            let Some(h) = rep.sut("new", || hasher(&m)) else { return };
            let mut fam = vec![Live { h, data: vec![], mode: m }];
            let steps = 6 + r.usize(o.size(26, 60, 12));
            let check = |rep: &Rep, l: &Live, reads: u64, trace: &[String]| {
                let want = root(&l.mode, &l.data);
                ctx("finalize history/len", &[i, l.data.len() as u64, lvl as u64]);
                let got = rep.sut("finalize", || {
                    let d = <[u8; 32]>::from(l.h.finalize());
                    let mut x = l.h.finalize_xof();
                    let blocks: Vec<[u8; 64]> = (0..reads).map(|_| x.read()).collect();
                    (d, blocks)
                });
                let Some((d, blocks)) = got else { return };
                rep.count("finalizations", 1);
                if d != want.root_hash() {
                    rep.violation(format!("history {} level {} {}: digest after {} bytes is {} want {}; trace {:?}", i, lvl, l.mode.name(), l.data.len(), hex(&d), hex(&want.root_hash()), trace));
                }
                for (k, b) in blocks.iter().enumerate() {
                    if *b != want.root_block(k as u64) {
                        rep.violation(format!("history {} level {} {}: xof block {} after {} bytes differs; trace {:?}", i, lvl, l.mode.name(), k, l.data.len(), trace));
                    }
                }
            };
            for _ in 0..steps {
                if rep.stopped() {
                    return;
                }
                let j = r.usize(fam.len());
                rep.count("steps", 1);
                match r.below(10) {
                    0..=3 => {
                        let l = gen::length(&mut r, o.size(20_000, 40_000, 5000));
                        // often exactly complete the chunk or block in progress
                        let l = match r.below(5) {
                            0 => (2048 - fam[j].data.len() % 2048) % 2048,
                            1 => (64 - fam[j].data.len() % 64) % 64,
                            2 => r.below(3) as usize,
                            _ => l,
                        };
                        let piece = gen::content(&mut r, l);
                        trace.push(format!("{}:update {}", j, l));
                        ctx("update history/len", &[i, l as u64, lvl as u64]);
                        let ok = rep.sut("update", || {
                            fam[j].h.update(&piece);
                        });
                        if ok.is_none() {
                            return;
                        }
                        fam[j].data.extend_from_slice(&piece);
                    }
                    4 | 5 => {
                        let times = 1 + r.below(3);
                        trace.push(format!("{}:finalize x{}", j, times));
                        for _ in 0..times {
                            check(rep, &fam[j], r.below(4), &trace);
                        }
                    }
                    6 => {
                        // an output kept across later changes of its hasher
                        let want = root(&fam[j].mode, &fam[j].data);
                        let Some(mut x) = rep.sut("finalize_xof", || fam[j].h.finalize_xof()) else { return };
                        let l = gen::length(&mut r, 5000);
                        let piece = gen::content(&mut r, l);
                        trace.push(format!("{}:xof, update {}, read", j, l));
                        let got = rep.sut("read after update", || {
                            fam[j].h.update(&piece);
                            (x.read(), x.read())
                        });
                        let Some(got) = got else { return };
                        fam[j].data.extend_from_slice(&piece);
                        if got != (want.root_block(0), want.root_block(1)) {
                            rep.violation(format!("history {} level {}: output changed when its hasher was fed; trace {:?}", i, lvl, trace));
                        }
                    }
                    7 | 8 => {
                        if fam.len() < 6 {
                            trace.push(format!("{}:clone -> {}", j, fam.len()));
                            let Some(h) = rep.sut("clone", || fam[j].h.clone()) else { return };
                            let l = Live { h, data: fam[j].data.clone(), mode: fam[j].mode };
                            fam.push(l);
                            rep.count("clones", 1);
                        } else {
                            // assign over an existing hasher
                            let k = r.usize(fam.len());
                            if k != j {
                                trace.push(format!("{}:clone_from {}", k, j));
                                let (mut a, b) = (fam[k].h.clone(), fam[j].h.clone());
                                a.clone_from(&b);
                                fam[k] = Live { h: a, data: fam[j].data.clone(), mode: fam[j].mode };
                            }
                        }
                    }
                    _ => {
                        if fam.len() > 1 {
                            trace.push(format!("{}:drop", j));
                            fam.swap_remove(j);
                        } else {
                            trace.push("0:update 0".into());
                            fam[0].h.update(&[]);
                        }
                    }
                }
            }
            for l in &fam {
                check(rep, l, 2, &trace);
            }
            rep.eval(sig(&[lvl as u64, i, trace.len() as u64]));
            if i < 2 {
                rep.sample(|| format!("level {} {}: {}", lvl, m.name(), trace.join("; ")));
            }
        });
        // one place in memory, one message after the other
        par(rep, o.size(64, 400, 2), |k| {
            let mut r = Rng::at(o.seed, 36 + lvl as u64, k);
            let m = gen::mode(&mut r);
            let len = gen::length(&mut r, 6000);
            let mut buf = vec![0u8; len];
            let Some(mut h) = rep.sut("new", || hasher(&m)) else { return };
            for round in 0..12u64 {
                gen::fill_content(&mut r, &mut buf);
                let want = root(&m, &buf);
                ctx("hasher in the place of another, case/round/len", &[k, round, len as u64, lvl as u64]);
                let got = rep.sut("hasher in the place of another", || {
                    if round % 3 == 2 {
                        h.clone_from(&hasher(&m));
                    } else {
                        h = hasher(&m);
                    }
                    h.update(&buf[..len / 2]).update(&buf[len / 2..]);
                    let a = h.finalize();
                    let mut x = h.finalize_xof();
                    (<[u8; 32]>::from(a), x.read(), <[u8; 32]>::from(h.finalize()))
                });
                let Some(got) = got else { return };
                rep.eval(sig(&[8, lvl as u64, k, round]));
                if got != (want.root_hash(), want.root_block(0), want.root_hash()) {
                    rep.violation(format!("{} of {} bytes by a hasher put in the place of another, round {}, level {}: got {} want {}", m.name(), len, round, lvl, hex(&got.0), hex(&want.root_hash())));
                    return;
                }
            }
        });
        // every length once: finalize at each step of slowly growing inputs, against a twin that is never read
        let top: usize = o.size(9000, 40_000, 4300);
        let m = Mode::keyed([7; 32]);
        let p = Prefix::new(m, Rng::at(o.seed, 35, 0).bytes(top + 4096));
        par(rep, 8, |k| {
            let step = [1usize, 1, 3, 13, 64, 65, 129, 2048][k as usize];
            let from = if k == 1 { top / 2 } else { 0 };
            let to = if k == 0 { top / 2 } else { top };
            let mut h = hasher(&m);
            h.update(&p.data[..from]);
            let mut pos = from;
            while pos + step <= to && !rep.stopped() {
                ctx("grow", &[pos as u64, step as u64, lvl as u64]);
                let got = rep.sut("update+finalize", || {
                    h.update(&p.data[pos..pos + step]);
                    let a = h.finalize();
                    let mut x = h.finalize_xof();
                    let b0 = x.read();
                    let b = h.finalize();
                    (<[u8; 32]>::from(a), <[u8; 32]>::from(b), b0)
                });
                let Some((a, b, x)) = got else { return };
                pos += step;
                rep.eval(sig(&[9, lvl as u64, k, pos as u64]));
                let want = p.root(pos);
                if a != want.root_hash() || b != a || x != want.root_block(0) {
                    rep.violation(format!("growing by {} at {} bytes, level {}, finalizing each time: got {} then {} want {}", step, pos, lvl, hex(&a), hex(&b), hex(&want.root_hash())));
                }
            }
        });
    }
    set_level(0);
}

// ------------------------------------------------------------------- C04

/// Does the hook still move a stream where it says? Compared with reading up to
/// that position; if only the jump is off, no verdict is drawn from it.
#[cfg(baokeshed_verif)]
pub fn seek_is_faithful(rep: &Rep, n: u64) -> bool {
    for i in 0..n {
        let mut r = Rng::new(4400 + i);
        let m = gen::mode(&mut r);
        let data = r.bytes(i as usize * 37 % if cfg!(miri) { 100 } else { 5000 });
        let blk = i % if cfg!(miri) { 5 } else { 40 };
        let want = root(&m, &data).root_block(blk);
        let jumped = sut(|| {
            let mut x = xof(&m, &data);
            for _ in 0..i % 3 {
                x.read();
            }
            baokeshed::verif::seek_output(&mut x, blk * 64);
            x.read()
        });
        if jumped == Ok(want) {
            continue;
        }
        let walked = sut(|| {
            let mut x = xof(&m, &data);
            for _ in 0..blk {
                x.read();
            }
            x.read()
        });
        if walked == Ok(want) {
            rep.note("the hook that moves a stream does not fit this code; far positions were reached by reading only".into());
        } else {
            rep.violation(format!("{} of {} bytes: block {} is {:?} want {}", m.name(), data.len(), blk, walked.map(|b| hex(&b)), hex(&want)));
        }
        return false;
    }
    true
}

pub fn c04(rep: &Rep, o: &Opts) {
    #[cfg(baokeshed_verif)]
    let seek_ok = seek_is_faithful(rep, 200);
    for lvl in levels() {
        set_level(lvl);
        let n: u64 = o.size(5000, 60_000, 60);
        par(rep, n, |i| {
            let mut r = Rng::at(o.seed, 40 + lvl as u64, i);
            let m = gen::mode(&mut r);
            let len = if r.chance(4) { r.pick(&[0usize, 1, 63, 64, 65, 2047, 2048, 2049, 4096]) } else { gen::length(&mut r, 20_000) };
            let data = gen::content(&mut r, len);
            let node = root(&m, &data);
            let incremental = r.chance(2);
            ctx("xof case/mode/len/level", &[i, m.kind as u64, len as u64, lvl as u64]);
            let Some(x) = rep.sut("xof", || {
                if incremental {
                    hasher(&m).update(&data).finalize_xof()
                } else {
                    xof(&m, &data)
                }
            }) else { return };
            let mut outs = vec![(x, 0u64)];
            rep.eval(sig(&[lvl as u64, i]));
            for _ in 0..8 + r.below(40) {
                let j = r.usize(outs.len());
                match r.below(8) {
                    0..=4 => {
                        let (x, pos) = &mut outs[j];
                        let Some(got) = rep.sut("read", || x.read()) else { return };
                        let want = node.root_block(*pos / 64);
                        rep.count("blocks_read", 1);
                        if got != want {
                            rep.violation(format!("case {} level {} {} of {} bytes: stream position {} gives {} want {}", i, lvl, m.name(), len, *pos, hex(&got), hex(&want)));
                            return;
                        }
                        *pos += 64;
                    }
                    5 => {
                        if outs.len() < 5 {
                            let c = (outs[j].0.clone(), outs[j].1);
                            outs.push(c);
                            rep.count("clones", 1);
                        }
                    }
                    6 => {
                        if outs[j].1 == 0 {
                            let c = outs[j].0.clone();
                            let Some(h) = rep.sut("to_hash", || <[u8; 32]>::from(c.to_hash())) else { return };
                            if h[..] != node.root_block(0)[..32] {
                                rep.violation(format!("case {} level {}: to_hash {} is not the start of the stream {}", i, lvl, hex(&h), hex(&node.root_block(0))));
                            }
                        }
                    }
                    _ => {
                        #[cfg(baokeshed_verif)]
                        if seek_ok {
                            // jump somewhere far away
                            let blk = match r.below(5) {
                                0 => (1u64 << r.range(6, 63)) / 64,
                                1 => ((1u64 << r.range(7, 63)) - 64) / 64,
                                2 => (1u64 << 32) / 64 - r.below(3),
                                3 => r.below(1 << 58) - r.below(2).min(1),
                                _ => r.below(1 << 40),
                            };
                            let blk = blk.min((1 << 58) - 70);
                            baokeshed::verif::seek_output(&mut outs[j].0, blk * 64);
                            outs[j].1 = blk * 64;
                            rep.count("far_jumps", 1);
                        }
                    }
                }
            }
        });
        // agreement of all routes to the same stream, and long consecutive reads
        par(rep, o.size(64, 512, 4), |i| {
            let mut r = Rng::at(o.seed, 45, i);
            let m = gen::mode(&mut r);
            let len = gen::length(&mut r, 9000);
            let data = gen::content(&mut r, len);
            let node = root(&m, &data);
            let mut x = xof(&m, &data);
            ctx("long stream", &[i, len as u64, lvl as u64]);
            for b in 0..o.size(3000u64, 20_000, 70) {
                let Some(got) = rep.sut("read", || x.read()) else { return };
                if got != node.root_block(b) {
                    rep.violation(format!("long stream {} level {}: block {} is {} want {}", i, lvl, b, hex(&got), hex(&node.root_block(b))));
                    return;
                }
            }
            rep.eval(sig(&[50, lvl as u64, i]));
        });
    }
    set_level(0);
    if o.tiny {
        return;
    }
    // Really read past 4 GiB of one stream: no hook needed. Every block goes
    // into a checksum that the specification side computes in parallel.
    let blocks: u64 = (1u64 << 32) / 64 + 5000;
    let m = Mode::keyed([0x5a; 32]);
    let data = Rng::at(o.seed, 48, 0).bytes(3000);
    let node = root(&m, &data);
    let fold = |b: &[u8; 64], i: u64| -> u64 {
        let mut s = 0u64;
        for k in 0..8 {
            s = s.wrapping_add(u64::from_le_bytes(b[8 * k..8 * k + 8].try_into().unwrap()).rotate_left(7 * k as u32));
        }
        s.wrapping_mul(i * 2 + 1)
    };
    const SEGS: u64 = 64;
    let sums: Vec<std::sync::atomic::AtomicU64> = (0..SEGS).map(|_| Default::default()).collect();
    let per = blocks.div_ceil(SEGS);
    let got = std::thread::scope(|s| {
        let reader = s.spawn(|| {
            let mut x = xof(&m, &data);
            rep.sut("reading past 4 GiB", || {
                let mut sums = vec![0u64; SEGS as usize];
                let mut last = vec![];
                for i in 0..blocks {
                    let b = x.read();
                    sums[(i / per) as usize] = sums[(i / per) as usize].wrapping_add(fold(&b, i));
                    if i + 6000 > blocks {
                        last.push(b);
                    }
                }
                (sums, last)
            })
        });
        par(rep, SEGS, |g| {
            let mut t = 0u64;
            for i in g * per..((g + 1) * per).min(blocks) {
                t = t.wrapping_add(fold(&node.root_block(i), i));
            }
            sums[g as usize].store(t, Relaxed);
        });
        reader.join().unwrap()
    });
    let Some((gs, last)) = got else { return };
    for (k, b) in last.iter().enumerate() {
        let i = blocks - last.len() as u64 + k as u64;
        if *b != node.root_block(i) {
            rep.violation(format!("reading {} blocks of one stream: block {} (position {:#x}) is {} want {}", blocks, i, i * 64, hex(b), hex(&node.root_block(i))));
            return;
        }
    }
    for g in 0..SEGS as usize {
        if gs[g] != sums[g].load(Relaxed) && !rep.stopped() {
            rep.violation(format!("reading {} blocks of one stream: blocks {}..{} differ from the specification", blocks, g as u64 * per, (g as u64 + 1) * per));
        }
    }
    rep.eval(sig(&[60]));
    rep.count("blocks_read_consecutively_past_4GiB", blocks);
    rep.sample(|| format!("read {} consecutive blocks ({} bytes) of one keyed stream", blocks, blocks * 64));
}
