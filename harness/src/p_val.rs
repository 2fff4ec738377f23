//! C16 copying, C17 digest values, C18 debug output.

use crate::api::*;
use crate::gen;
use crate::oracle::*;
use crate::util::*;
use crate::Opts;
use baokeshed::Hash;
use std::collections::HashMap;
use std::io::{Error, ErrorKind, Read, Write};

// ------------------------------------------------------------------- C16

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Take(usize), // give or accept at most this many
    All,
    Interrupted,
    Fail(u8),
    Zero, // end of input, or a writer that accepts nothing
}

const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::BrokenPipe,
    ErrorKind::InvalidData, ErrorKind::PermissionDenied, ErrorKind::TimedOut, ErrorKind::WriteZero,
];

fn failure(code: u8) -> Error {
    if code % 3 == 0 {
        Error::from_raw_os_error(5 + code as i32 % 30)
    } else if code % 3 == 1 {
        Error::new(KINDS[code as usize % 8], Scripted(code))
    } else {
        Error::new(KINDS[code as usize % 8], format!("scripted {}", code))
    }
}

/// An error with something in it that its text does not tell.
#[derive(Debug)]
struct Scripted(u8);

impl std::fmt::Display for Scripted {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("scripted")
    }
}

impl std::error::Error for Scripted {}

fn same(e: &Error, code: u8) -> bool {
    let f = failure(code);
    if code % 3 == 1 && e.get_ref().and_then(|e| e.downcast_ref::<Scripted>()).map(|s| s.0) != Some(code) {
        return false;
    }
    e.kind() == f.kind() && e.raw_os_error() == f.raw_os_error() && e.to_string() == f.to_string()
}

struct Reader<'a> {
    data: &'a [u8],
    pos: usize,
    script: Vec<Ev>,
    at: usize,
    ended: bool,
    calls: u64,
    interrupts: u64,
    failed: Option<u8>,
    wrong: Option<String>,
}

impl Read for Reader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.ended {
            self.wrong.get_or_insert("the reader was called again after its end or error".into());
            return Ok(0);
        }
        if buf.is_empty() {
            self.wrong.get_or_insert("the reader was called with an empty buffer".into());
            return Ok(0);
        }
        let ev = self.script.get(self.at).copied().unwrap_or(Ev::All);
        self.at += 1;
        let n = match ev {
            Ev::Take(n) => n.max(1),
            Ev::All => usize::MAX,
            Ev::Interrupted => {
                self.interrupts += 1;
                return Err(ErrorKind::Interrupted.into());
            }
            Ev::Fail(c) => {
                self.ended = true;
                self.failed = Some(c);
                return Err(failure(c));
            }
            Ev::Zero => 0,
        };
        let n = n.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if n == 0 {
            self.ended = true;
        }
        Ok(n)
    }
}

struct Writer {
    got: Vec<u8>,
    script: Vec<Ev>,
    at: usize,
    failed: Option<u8>,
    zero: bool,
    calls: u64,
    interrupts: u64,
    wrong: Option<String>,
}

impl Write for Writer {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.failed.is_some() || self.zero {
            self.wrong.get_or_insert("the writer was called again after its error".into());
        }
        let ev = self.script.get(self.at).copied().unwrap_or(Ev::All);
        self.at += 1;
        let n = match ev {
            Ev::Take(n) => n.max(1).min(buf.len()),
            Ev::All => buf.len(),
            Ev::Interrupted => {
                self.interrupts += 1;
                return Err(ErrorKind::Interrupted.into());
            }
            Ev::Fail(c) => {
                self.failed = Some(c);
                return Err(failure(c));
            }
            Ev::Zero => {
                if !buf.is_empty() {
                    self.zero = true;
                }
                0
            }
        };
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn script(r: &mut Rng, n: usize, fail: bool, wr: bool) -> Vec<Ev> {
    let style = r.below(5);
    let mut v: Vec<Ev> = (0..n)
        .map(|_| match (style, r.below(10)) {
            (0, _) => Ev::All,
            (1, _) => Ev::Take(r.range(1, 40) as usize),
            (2, 0..=4) => Ev::Interrupted,
            (_, 0 | 1) => Ev::Interrupted,
            (_, 2 | 3) => Ev::All,
            (_, 4) => Ev::Take(r.pick(&[1usize, 63, 64, 65, 2047, 2048, 2049, 4096, 8191, 8192, 16383, 16384, 16385])),
            (_, _) => Ev::Take(1 + r.usize(20_000)),
        })
        .collect();
    if fail {
        let i = r.usize(v.len() + 1);
        let e = if wr && r.chance(4) { Ev::Zero } else { Ev::Fail(r.next() as u8) };
        v.insert(i, e);
    }
    v
}

pub fn c16(rep: &Rep, o: &Opts) {
    par(rep, o.size(240_000, 1_600_000, 12), |i| {
        let mut r = Rng::at(o.seed, 160, i);
        let len = if o.tiny { r.usize(20_000) } else { match r.below(4) {
            0 => r.usize(100),
            1 => gen::length(&mut r, 100_000),
            _ => r.pick(&[0usize, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 49152]) + r.usize(3),
        } };
        let data = r.bytes(len);
        let (rf, wf) = (r.chance(3), r.chance(3));
        let (rn, wn) = (r.usize(20), r.usize(20));
        let mut rd = Reader { data: &data, pos: 0, script: script(&mut r, rn, rf, false), at: 0, ended: false, calls: 0, interrupts: 0, failed: None, wrong: None };
        if r.chance(6) {
            // an early end of input
            let k = r.usize(rd.script.len() + 1);
            rd.script.insert(k, Ev::Zero);
        }
        let mut wr = Writer { got: vec![], script: script(&mut r, wn, wf, true), at: 0, failed: None, zero: false, calls: 0, interrupts: 0, wrong: None };
        ctx("copy case/len", &[i, len as u64]);
        rep.eval(sig(&[1, i]));
        // also through trait objects, as the bounds allow
        let dynamic = r.chance(3);
        let res = rep.sut("copy_wide", || {
            if dynamic {
                let (a, b): (&mut dyn Read, &mut dyn Write) = (&mut rd, &mut wr);
                baokeshed::copy::copy_wide(a, b)
            } else {
                baokeshed::copy::copy_wide(&mut rd, &mut wr)
            }
        });
        let Some(res) = res else { return };
        rep.count_fast(0, rd.calls);
        rep.count_fast(1, wr.calls);
        rep.count_fast(2, rd.interrupts + wr.interrupts);
        let bad = |why: String| {
            rep.violation(format!("copy case {}: {}; {} bytes, result {:?}, reader {:?}, writer {:?}", i, why, len, res.as_ref().map_err(|e| e.to_string()), rd.script, wr.script));
        };
        for w in [&rd.wrong, &wr.wrong] {
            if let Some(w) = w {
                bad(w.clone());
            }
        }
        if wr.got.len() > rd.pos || wr.got[..] != data[..wr.got.len()] {
            bad(format!("the writer got {} bytes that are not what was read ({} bytes) in order and once", wr.got.len(), rd.pos));
        }
        match &res {
            Ok(n) => {
                if rd.failed.is_some() || wr.failed.is_some() || wr.zero {
                    bad("an error was swallowed".into());
                } else if !rd.ended {
                    bad("copying stopped before the end of input".into());
                } else if *n != rd.pos as u64 || wr.got.len() != rd.pos {
                    bad(format!("{} bytes reported, {} read, {} written", n, rd.pos, wr.got.len()));
                }
            }
            Err(e) => {
                if wr.zero {
                    if e.kind() != ErrorKind::WriteZero {
                        bad("a writer that accepts nothing was reported as another error".into());
                    }
                } else if let Some(c) = wr.failed {
                    if !same(e, c) {
                        bad(format!("writer error {} was changed", failure(c)));
                    }
                } else if let Some(c) = rd.failed {
                    if !same(e, c) {
                        bad(format!("reader error {} was changed", failure(c)));
                    } else if wr.got.len() != rd.pos {
                        bad(format!("{} bytes read before the error, {} delivered", rd.pos, wr.got.len()));
                    }
                } else {
                    bad("an error nobody raised".into());
                }
            }
        }
        rep.sample(|| format!("{} bytes; reader {:?}; writer {:?}; {:?}", len, &rd.script[..rd.script.len().min(6)], &wr.script[..wr.script.len().min(6)], res.as_ref().map_err(|e| e.to_string())));
    });
    // into hashers, from files, cursors, chains and empty sources
    par(rep, o.size(2000, 30_000, 6), |i| {
        let mut r = Rng::at(o.seed, 161, i);
        let m = gen::mode(&mut r);
        let len = gen::length(&mut r, o.size(70_000, 200_000, 9000));
        let data = r.bytes(len);
        let n = r.usize(12);
        let mut rd = Reader { data: &data, pos: 0, script: script(&mut r, n, false, false), at: 0, ended: false, calls: 0, interrupts: 0, failed: None, wrong: None };
        ctx("copy into hasher case/len", &[i, len as u64]);
        rep.eval(sig(&[2, i]));
        let Some((n, h)) = rep.sut("copy_wide into a hasher", || {
            let mut h = hasher(&m);
            (baokeshed::copy::copy_wide(&mut rd, &mut h).ok(), <[u8; 32]>::from(h.finalize()))
        }) else { return };
        if n != Some(len as u64) || h != hash(&m, &data) {
            rep.violation(format!("copy into hasher, case {}: {} bytes, reported {:?}, digest {} want {}", i, len, n, hex(&h), hex(&hash(&m, &data))));
        }
    });
    // totals beyond 32 bits: the reader leaves the buffer as it is, the writer only counts
    if !o.tiny {
        struct Big(u64, usize);
        impl Read for Big {
            fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                let n = (buf.len() - buf.len().min(self.1)).max(1).min(buf.len()).min(self.0.min(1 << 40) as usize);
                self.0 -= n as u64;
                Ok(n)
            }
        }
        struct Count(u64);
        impl Write for Count {
            fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
                self.0 += buf.len() as u64;
                Ok(buf.len())
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        par(rep, o.size(8, 16, 1), |i| {
            let len = [(1u64 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (3 << 32) + 77, (1 << 33) + (1 << 31), (1 << 36) + 3][i as usize % 8];
            let mut r = Rng::at(o.seed, 162, i);
            ctx("long copy case/len", &[i, len]);
            rep.eval(sig(&[3, i]));
            let (mut rd, mut wr) = (Big(len, r.usize(100)), Count(0));
            let Some(n) = rep.sut("copy_wide", || baokeshed::copy::copy_wide(&mut rd, &mut wr).ok()) else { return };
            if n != Some(len) || wr.0 != len {
                rep.violation(format!("copying {} bytes: reported {:?}, {} written", len, n, wr.0));
            }
        });
    }
    patient(rep, o);
    rep.flush_fast(0, "reads_observed");
    rep.flush_fast(1, "writes_observed");
    rep.flush_fast(2, "interrupts_injected");
}

/// A great many interruptions, in a row or in all, and a great many small
/// reads and writes.
fn patient(rep: &Rep, o: &Opts) {
    struct Slow {
        row: u64,
        left: u64,
        data: Vec<u8>,
        pos: usize,
        most: usize,
        calls: u64,
        buffered: Vec<u8>,
    }
    impl Slow {
        fn new(row: u64, data: Vec<u8>, most: usize) -> Slow {
            Slow { row, left: row, data, pos: 0, most, calls: 0, buffered: vec![] }
        }
        fn step(&mut self) -> bool {
            self.calls += 1;
            if self.left > 0 {
                self.left -= 1;
                return false;
            }
            self.left = self.row;
            true
        }
    }
    impl Read for Slow {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            if !self.step() {
                return Err(ErrorKind::Interrupted.into());
            }
            let n = (self.data.len() - self.pos).min(buf.len()).min(self.most);
            buf[..n].copy_from_slice(&self.data[self.pos..][..n]);
            self.pos += n;
            Ok(n)
        }
    }
    impl Write for Slow {
        fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
            if !self.step() {
                return Err(ErrorKind::Interrupted.into());
            }
            let n = buf.len().min(self.most);
            self.buffered.extend_from_slice(&buf[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    // interruptions before each read and each write; bytes; at most so many in one read and one write
    let cases: &[(u64, u64, usize, usize, usize)] = if o.tiny {
        &[(300, 0, 3, 2, 9), (0, 300, 3, 9, 2)]
    } else {
        &[
            (17, 0, 100, 100, 100), (0, 17, 100, 100, 100), (255, 255, 50, 7, 7), (256, 256, 50, 7, 7), (1025, 0, 3000, 5, 2), (0, 1025, 3000, 5, 2),
            (65_535, 0, 300, 100, 300), (65_536, 65_536, 300, 100, 100), (1_000_000, 1_000_000, 60_000, 30_000, 30_000), (20_000_000, 0, 10, 10, 10),
            (0, 20_000_000, 10, 10, 10), (0, 0, 300_000, 1, 1), (0, 0, 300_000, 1, 300_000), (0, 0, 2_000_000, 1 << 30, 1), (1, 1, 300_000, 1, 1), (3, 2, 200_000, 2, 3),
        ]
    };
    par(rep, cases.len() as u64, |i| {
        let (rr, wr, len, rm, wm) = cases[i as usize];
        let mut r = Rng::at(o.seed, 163, i);
        let data = r.bytes(len);
        let (mut from, mut to) = (Slow::new(rr, data.clone(), rm), Slow::new(wr, vec![], wm));
        ctx("patient copy case", &[i]);
        rep.eval(sig(&[4, i]));
        let Some(n) = rep.sut("copy_wide", || baokeshed::copy::copy_wide(&mut from, &mut to)) else { return };
        if n.as_ref().ok() != Some(&(len as u64)) || to.buffered != data {
            rep.violation(format!("copying {} bytes, {} interruptions before each read of at most {} and {} before each write of at most {}: reported {:?}, {} bytes arrived after {} reads and {} writes", len, rr, rm, wr, wm, n.map_err(|e| e.to_string()), to.buffered.len(), from.calls, to.calls));
        }
        rep.count("patient_reads", from.calls);
        rep.count("patient_writes", to.calls);
    });
}

// ------------------------------------------------------------------- C17

fn judge_pair(rep: &Rep, a: [u8; 32], b: [u8; 32]) {
    let want = a == b;
    ctx("compare", &[a[0] as u64, b[0] as u64]);
    let Some(g) = rep.sut("comparison", || {
        let (x, y) = (Hash::from(a), Hash::from(b));
        [x == y, y == x, x == b, y == a, !(x != y), !(x != b), x.clone() == y, { let z = x; z == y }]
    }) else { return };
    if g.iter().any(|&t| t != want) {
        rep.violation(format!("comparing {} with {}: answers {:?}, want {}", hex(&a), hex(&b), g, want));
    }
    rep.count_fast(if want { 0 } else { 1 }, 1);
}

fn judge_value(rep: &Rep, a: [u8; 32]) {
    let Some((b, c, h, texts, copy)) = rep.sut("conversion", || {
        let x = Hash::from(a);
        let y: Hash = a.into();
        let back: [u8; 32] = y.into();
        let z = x;
        (*x.as_bytes(), back, x.to_hex().as_str().to_string(), forms(&x), *z.as_bytes())
    }) else { return };
    let want = hex(&a);
    if b != a || c != a || copy != a {
        rep.violation(format!("{} converts to {} and {}", want, hex(&b), hex(&c)));
    }
    if h != want {
        rep.violation(format!("to_hex of {} is {:?}", want, h));
    }
    for d in texts {
        if !d.contains(&want) {
            rep.violation(format!("Debug of {} is {:?}", want, d));
        }
    }
}

pub fn c17(rep: &Rep, o: &Opts) {
    let n: u64 = o.size(64, 600, 2);
    par(rep, n, |i| {
        let mut r = Rng::at(o.seed, 170, i);
        let a = match i {
            0 => [0; 32],
            1 => [0xff; 32],
            _ => gen::key(&mut r),
        };
        judge_pair(rep, a, a);
        rep.eval(sig(&[0, i]));
        // every single-byte difference
        for p in 0..32 {
            for x in 1..=255u8 {
                let mut b = a;
                b[p] ^= x;
                judge_pair(rep, a, b);
                rep.eval(sig(&[1, i, p as u64, x as u64]));
                if o.tiny && x > 8 {
                    break;
                }
            }
        }
        // differences that cancel under xor, addition or subtraction
        for p in 0..32 {
            for q in 0..32 {
                if p == q || o.tiny && q > 3 {
                    continue;
                }
                for k in 0..4 {
                    let x = if k == 0 { 0x80 } else { 1 + r.below(255) as u8 };
                    let mut b = a;
                    b[p] ^= x;
                    b[q] ^= x;
                    judge_pair(rep, a, b);
                    let mut b = a;
                    b[p] = b[p].wrapping_add(x);
                    b[q] = b[q].wrapping_sub(x);
                    judge_pair(rep, a, b);
                    let mut b = a;
                    b[p] = b[p].wrapping_add(x);
                    b[q] = b[q].wrapping_add(x);
                    judge_pair(rep, a, b);
                    let mut b = a;
                    b.swap(p, q);
                    judge_pair(rep, a, b);
                    let mut b = a;
                    b[p] = !b[p];
                    b[q] = !b[q];
                    judge_pair(rep, a, b);
                    rep.eval(sig(&[2, i, p as u64, q as u64, k]));
                }
            }
        }
        // wide differences: words, halves, rotations, complements, many equal deltas
        for k in 0..2000u64 {
            let mut b = a;
            match r.below(6) {
                0 => b.rotate_left(1 + r.usize(31)),
                1 => b.reverse(),
                2 => b.iter_mut().for_each(|x| *x = !*x),
                3 => {
                    let c = r.key();
                    for j in 0..1 + r.usize(32) {
                        b[j] = c[j];
                    }
                }
                4 => {
                    // the same delta in an even number of places, up to all of them
                    let d = 1 + r.below(255) as u8;
                    let w = r.pick(&[2usize, 4, 8, 16, 32]);
                    for j in 0..w {
                        b[j * (32 / w)] ^= d;
                    }
                }
                _ => {
                    let c = r.usize(32);
                    b[c..].fill(0);
                }
            }
            judge_pair(rep, a, b);
            rep.eval(sig(&[3, i, k]));
            if o.tiny && k > 8 {
                break;
            }
        }
    });
    par(rep, o.size(20_000, 200_000, 20), |i| {
        let mut r = Rng::at(o.seed, 171, i);
        let mut a = gen::key(&mut r);
        if i < 8192 {
            // every byte value in every place
            a[(i / 256) as usize] = i as u8;
        }
        ctx("value", &[i]);
        judge_value(rep, a);
        judge_pair(rep, a, a);
        rep.eval(sig(&[4, i]));
    });
    // equality agrees with the bytes across hashing
    let h: Vec<(Hash, [u8; 32])> = (0..o.size(400, 1500, 10))
        .map(|i| {
            let d = Rng::at(o.seed, 172, i / 2).bytes(i as usize / 2 * 3);
            (baokeshed::hash(&d), hash(&Mode::plain(), &d))
        })
        .collect();
    for (i, x) in h.iter().enumerate() {
        for y in &h {
            if (x.0 == y.0) != (x.1 == y.1) {
                rep.violation(format!("digests {} and {} compare wrongly", hex(&x.1), hex(&y.1)));
            }
        }
        rep.eval(sig(&[5, i as u64]));
    }
    rep.flush_fast(0, "equal_pairs");
    rep.flush_fast(1, "unequal_pairs");
    rep.sample(|| "all single-byte differences, cancelling pairs at every two places, wide differences".into());
}

// ------------------------------------------------------------------- C18

#[derive(Debug)]
#[allow(dead_code)]
struct Holder<'a, T> {
    inner: &'a T,
    list: Vec<&'a T>,
}

fn forms<T: std::fmt::Debug>(x: &T) -> Vec<String> {
    vec![
        format!("{:?}", x),
        format!("{:#?}", x),
        format!("{:>40?}", x),
        format!("{:<120?}|", x),
        format!("{:*^200?}|", x),
        format!("{:.3?}", x),
        format!("{:.0?}", x),
        format!("{:90.80?}|", x),
        format!("{:+?}", x),
        format!("{:-?}", x),
        format!("{:08x?}", x),
        format!("{:X?}", x),
        format!("{:#x?}", x),
        format!("{:+#0300.2X?}|", x),
        format!("{:#010?}", x),
        format!("{:?}", Holder { inner: x, list: vec![x, x] }),
        format!("{:?}", Some(x)),
    ]
}

pub fn c18(rep: &Rep, o: &Opts) {
    // judged on a report of its own: wrong digests are not this property's business
    #[cfg(baokeshed_verif)]
    let hooks_ok = {
        let scratch = Rep::new();
        crate::p_long::jump_is_faithful(&scratch, o) && crate::p_hash::seek_is_faithful(&scratch, 200)
    };
    let seen: std::sync::Mutex<HashMap<(&'static str, u8), Vec<String>>> = Default::default();
    let judge = |what: &'static str, m: &Mode, f: Vec<String>, state: String| {
        rep.count_fast(0, f.len() as u64);
        let mut s = seen.lock().unwrap();
        let first = s.entry((what, m.kind)).or_insert_with(|| f.clone());
        if *first != f {
            let i = (0..f.len()).find(|&i| first[i] != f[i]).unwrap();
            rep.violation(format!("Debug of {} ({}) depends on its state: {:?} and {:?} ({})", what, m.name(), first[i], f[i], state));
        }
    };
    for lvl in levels() {
        set_level(lvl);
        par(rep, o.size(12_000, 60_000, 10), |i| {
            let mut r = Rng::at(o.seed, 180 + lvl as u64, i);
            let m = gen::mode(&mut r);
            let Some(mut h) = rep.sut("new", || hasher(&m)) else { return };
            let mut fed = 0;
            for step in 0..1 + r.below(5) {
                ctx("debug case/step/level", &[i, step, lvl as u64]);
                rep.eval(sig(&[lvl as u64, i, step]));
                let Some(f) = rep.sut("Debug", || forms(&h)) else { return };
                judge("Hasher", &m, f, format!("case {} after {} bytes", i, fed));
                let Some(mut x) = rep.sut("finalize_xof", || h.finalize_xof()) else { return };
                let Some(f) = rep.sut("Debug", || forms(&x)) else { return };
                judge("Output", &m, f, format!("case {} after {} bytes at the start", i, fed));
                let blocks = r.below(5);
                let Some(f) = rep.sut("Debug", || {
                    for _ in 0..blocks {
                        x.read();
                    }
                    forms(&x)
                }) else { return };
                judge("Output", &m, f, format!("case {} after {} bytes and {} reads", i, fed, blocks));
                let Some(f) = rep.sut("Debug", || (forms(&h.clone()), forms(&x.clone()))) else { return };
                judge("Hasher", &m, f.0, format!("case {} cloned", i));
                judge("Output", &m, f.1, format!("case {} cloned", i));
                #[cfg(baokeshed_verif)]
                if hooks_ok {
                    let at = r.below(1 << 57) * 64;
                    baokeshed::verif::seek_output(&mut x, at);
                    let Some(f) = rep.sut("Debug", || forms(&x)) else { return };
                    judge("Output", &m, f, format!("case {} at position {:#x}", i, at));
                    let base = r.below(1 << 52) * 2048;
                    let st: Vec<[u8; 32]> = (0..(base / 2048).count_ones()).map(|_| r.key()).collect();
                    let Some(f) = rep.sut("Debug", || {
                        let mut far = hasher(&m);
                        baokeshed::verif::jump_hasher(&mut far, base, &st);
                        forms(&far)
                    }) else { return };
                    judge("Hasher", &m, f, format!("case {} at position {:#x}", i, base));
                }
                let l = gen::length(&mut r, o.size(20_000, 50_000, 3000));
                let d = gen::content(&mut r, l);
                if rep.sut("update", || { h.update(&d); }).is_none() {
                    return;
                }
                fed += l;
            }
        });
    }
    set_level(0);
    // one-shot outputs print like incremental ones of the same mode
    for i in 0..o.size(300u64, 2000, 3) {
        let mut r = Rng::at(o.seed, 189, i);
        let m = gen::mode(&mut r);
        let l = gen::length(&mut r, 9000);
        let d = r.bytes(l);
        rep.eval(sig(&[9, i]));
        if let Some(f) = rep.sut("Debug", || forms(&xof(&m, &d))) {
            judge("Output", &m, f, format!("one-shot of {} bytes", l));
        }
    }
    rep.flush_fast(0, "texts_observed");
    for ((what, kind), f) in seen.lock().unwrap().iter() {
        rep.sample(|| format!("{} in mode {} always prints {:?}", what, kind, f[0]));
        rep.count("distinct_texts", 1);
    }
}
