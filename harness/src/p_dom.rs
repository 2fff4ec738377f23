//! C06: domain separation, watched on the compressions themselves.
//!
//! Every compression the library performs is reported by the node hook. Its
//! value is filed under the role it was computed for (mode, node kind, root or
//! not, position). One value filed under two roles, a returned value that is
//! also an internal one, or one returned value for two different requests is a
//! violation. Returned values are also compared with the specification, which
//! is what remains in builds without hooks.

use crate::api::*;
use crate::gen;
use crate::oracle::*;
use crate::util::*;
use crate::Opts;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Clone)]
pub struct Seen {
    pub cv: Cv,
    pub block: [u8; 64],
    pub len: u8,
    pub offset: u64,
    pub flags: u8,
}

thread_local! {
    static LOG: RefCell<Vec<Seen>> = const { RefCell::new(vec![]) };
}

#[cfg(baokeshed_verif)]
fn on_node(input: &[u8], key: &[u32; 8], len: u8, offset: u64, flags: [u8; 3]) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        let n = input.len() / 64;
        let mut cv = *key;
        for i in 0..n {
            let f = match (i, i + 1 == n) {
                (0, true) => flags[0] | flags[2],
                (0, _) => flags[0],
                (_, true) => flags[2],
                _ => flags[1],
            };
            let mut block = [0; 64];
            block.copy_from_slice(&input[i * 64..i * 64 + 64]);
            let bl = if i + 1 == n { len } else { 64 };
            l.push(Seen { cv, block, len: bl, offset, flags: f });
            if i + 1 < n {
                cv = compress_cv(&cv, &block, bl, offset, f);
            }
        }
    });
}

fn traced<R>(f: impl FnOnce() -> R) -> (R, Vec<Seen>) {
    LOG.with(|l| l.borrow_mut().clear());
    let r = f();
    (r, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
}

const SHARDS: usize = 64;

/// value -> what it was computed as
struct Book {
    internal: Vec<Mutex<HashMap<[u8; 32], u64>>>,
    returned: Vec<Mutex<HashMap<[u8; 32], u64>>>,
}

impl Book {
    fn new() -> Book {
        let mk = || (0..SHARDS).map(|_| Mutex::new(HashMap::new())).collect();
        Book { internal: mk(), returned: mk() }
    }
}

/// mode, root, node kind and block place; for leaves also the position
fn role(mode: &Mode, s: &Seen) -> u64 {
    let pos = if s.flags & PARENT != 0 { 0 } else { s.offset };
    sig(&[mode.kind as u64, (s.flags & (CHUNK_START | CHUNK_END | PARENT | ROOT)) as u64, pos, s.len as u64])
}

fn request(mode: &Mode, msg: &[u8], block: u64) -> u64 {
    let k = if mode.kind == 0 { 0 } else { mode.key.iter().fold(1, |h, &b| mix(h, b as u64)) };
    let m = msg.chunks(8).fold(msg.len() as u64, |h, c| {
        let mut w = [0; 8];
        w[..c.len()].copy_from_slice(c);
        mix(h, u64::from_le_bytes(w))
    });
    sig(&[mode.kind as u64, k, m, msg.len() as u64, block])
}

fn note_internal(rep: &Rep, book: &Book, mode: &Mode, log: &[Seen], what: &str) {
    for s in log {
        if s.flags & ROOT != 0 {
            continue;
        }
        let v = cv_bytes(&compress_cv(&s.cv, &s.block, s.len, s.offset, s.flags));
        let ro = role(mode, s);
        let sh = v[0] as usize % SHARDS;
        if let Some(old) = book.internal[sh].lock().unwrap().insert(v, ro) {
            if old != ro {
                rep.violation(format!("one internal value {} computed in two roles; now {} offset {:#x} flags {:#x} len {} in {}", hex(&v), mode.name(), s.offset, s.flags, s.len, what));
            }
        }
        if book.returned[sh].lock().unwrap().contains_key(&v) {
            rep.violation(format!("internal value {} of {} was also returned to a caller ({})", hex(&v), mode.name(), what));
        }
    }
    rep.count_fast(0, log.len() as u64);
}

fn note_returned(rep: &Rep, book: &Book, mode: &Mode, msg: &[u8], v: [u8; 32], index: u64, what: &str) {
    let id = request(mode, msg, index);
    let sh = v[0] as usize % SHARDS;
    if let Some(old) = book.returned[sh].lock().unwrap().insert(v, id) {
        if old != id {
            rep.violation(format!("two different requests returned {}; one is {} of {} bytes ({}), key {}, input {}", hex(&v), mode.name(), msg.len(), what, hex(&mode.key), short_hex(msg)));
        }
    }
    if book.internal[sh].lock().unwrap().contains_key(&v) {
        rep.violation(format!("{} of {} bytes ({}) returned {}, which is an internal node value", mode.name(), msg.len(), what, hex(&v)));
    }
}

fn structure(rep: &Rep, mode: &Mode, msg: &[u8], log: &[Seen], what: &str) {
    let chunks = (msg.len().max(1) - 1) / CHUNK + 1;
    let mut roots: HashMap<(Cv, [u8; 64], u8, u8), u64> = HashMap::new();
    let mut places = std::collections::HashSet::new();
    let mut ends = 0;
    for s in log {
        let bad = |why: &str| {
            rep.violation(format!("{} of {} bytes ({}): {}: offset {:#x} flags {:#x} block length {}", mode.name(), msg.len(), what, why, s.offset, s.flags, s.len));
        };
        if s.flags & (KEYED | DERIVE) != mode.flags() {
            bad("a node without its mode's marker");
        }
        if s.flags & PARENT != 0 {
            if s.flags & (CHUNK_START | CHUNK_END) != 0 || s.len != 64 || s.cv != mode.words() {
                bad("a parent that looks like a leaf");
            }
            if s.flags & ROOT == 0 && s.offset != 0 {
                bad("a parent with a position");
            }
        } else {
            if (s.flags & CHUNK_START != 0) != (s.cv == mode.words()) {
                bad("a first block without its marker, or another block with it");
            }
            if s.flags & ROOT != 0 && (s.flags & CHUNK_END == 0 || chunks != 1) {
                bad("a root marker inside the tree");
            }
            if s.flags & CHUNK_END != 0 && s.flags & ROOT == 0 {
                places.insert(s.offset);
                ends += 1;
            }
        }
        if s.flags & ROOT != 0 {
            *roots.entry((s.cv, s.block, s.len, s.flags)).or_default() += 1;
        }
    }
    if roots.len() > 1 {
        rep.violation(format!("{} of {} bytes ({}): {} different nodes were hashed as the root", mode.name(), msg.len(), what, roots.len()));
    }
    if chunks > 1 && ends >= chunks && places.len() < chunks {
        rep.violation(format!("{} of {} bytes ({}): {} chunks were hashed at {} distinct positions", mode.name(), msg.len(), what, chunks, places.len()));
    }
}

fn request_all(rep: &Rep, book: &Book, mode: &Mode, msg: &[u8], r: &mut Rng, tag: u64) -> Option<[u8; 32]> {
    ctx("mode/len/tag", &[mode.kind as u64, msg.len() as u64, tag]);
    rep.eval(sig(&[request(mode, msg, 0)]));
    let node = root(mode, msg);
    let (got, log) = traced(|| {
        rep.sut("one-shot", || {
            let mut x = xof(mode, msg);
            (x.read(), x.read())
        })
    });
    let got = got?;
    structure(rep, mode, msg, &log, "one-shot");
    note_internal(rep, book, mode, &log, "one-shot");
    let split = gen::pieces(r, msg.len());
    let (inc, log) = traced(|| {
        rep.sut("incremental", || {
            let mut h = hasher(mode);
            let mut p = 0;
            for &l in &split {
                h.update(&msg[p..p + l]);
                p += l;
            }
            h.finalize_xof().read()
        })
    });
    let inc = inc?;
    structure(rep, mode, msg, &log, "incremental");
    note_internal(rep, book, mode, &log, "incremental");
    if got != (node.root_block(0), node.root_block(1)) || inc != got.0 {
        rep.violation(format!("{} of {} bytes (tag {}): one-shot {} incremental {} want {}; input {}", mode.name(), msg.len(), tag, hex(&got.0), hex(&inc), hex(&node.root_block(0)), short_hex(msg)));
    }
    for (i, b) in [got.0, got.1].iter().enumerate() {
        for half in 0..2 {
            let v: [u8; 32] = b[half * 32..half * 32 + 32].try_into().unwrap();
            note_returned(rep, book, mode, msg, v, (i * 2 + half) as u64, "one-shot");
        }
    }
    Some(got.0[..32].try_into().unwrap())
}

/// Messages an attacker would derive from this one.
fn relatives(r: &mut Rng, mode: &Mode, m: &[u8]) -> Vec<Vec<u8>> {
    let n = m.len();
    let mut v: Vec<Vec<u8>> = vec![];
    let with = |tail: &[u8]| {
        let mut x = m.to_vec();
        x.extend_from_slice(tail);
        x
    };
    v.push(with(&[0]));
    v.push(with(&[0x80]));
    v.push(with(&vec![0; (64 - n % 64) % 64]));
    v.push(with(&vec![0; (2048 - n % 2048) % 2048]));
    v.push(with(&vec![0; 2048]));
    v.push(with(&m[..n.min(2048)]));
    v.push(with(&m[n - n.min(2048)..]));
    if n > 0 {
        v.push(m[..n - 1].to_vec());
        v.push(m[1..].to_vec());
        v.push(m[..(n - 1) / 64 * 64].to_vec());
        v.push(m[..(n - 1) / 2048 * 2048].to_vec());
        let mut x = m.to_vec();
        let i = r.usize(n);
        x[i] ^= 1 << r.below(8);
        v.push(x);
        let mut x = m.to_vec();
        x.rotate_left(64.min(n));
        v.push(x);
    }
    let chunks = n / 2048;
    if chunks >= 2 {
        let (a, b) = (r.usize(chunks), r.usize(chunks));
        let mut x = m.to_vec();
        for i in 0..2048 {
            x.swap(a * 2048 + i, b * 2048 + i);
        }
        v.push(x);
        let mut x = m.to_vec();
        x.copy_within(a * 2048..(a + 1) * 2048, b * 2048);
        v.push(x);
        let mut x = m.to_vec();
        x.drain(a * 2048..(a + 1) * 2048);
        v.push(x);
        let mut x = m.to_vec();
        x.rotate_left(2048);
        v.push(x);
    }
    // messages that spell out internal nodes
    let node = root(mode, m);
    v.push(node.block.to_vec());
    v.push(node.block[..node.block_len as usize].to_vec());
    v.push(cv_bytes(&node.chain()).to_vec());
    if n > 2048 {
        let l = left_chunks(((n - 1) / 2048 + 1) as u64) as usize * 2048;
        let left = cv_bytes(&tree(&m[..l], &mode.words(), 0, mode.flags()).chain());
        let mut x = left.to_vec();
        x.extend_from_slice(&m[l..]);
        v.push(x);
        v.push(m[l..].to_vec());
        v.push(m[..l].to_vec());
    }
    v.push(node.root_hash().to_vec());
    v
}

pub fn c06(rep: &Rep, o: &Opts) {
    #[cfg(baokeshed_verif)]
    baokeshed::verif::set_node_hook(Some(on_node));
    let lvls = levels();
    for lvl in lvls.iter().copied() {
        if lvl == 0 && lvls.len() > 1 && !o.thorough {
            continue;
        }
        set_level(lvl);
        let book = Book::new();
        par(rep, o.size(2000, 10_000, 12), |i| {
            let mut r = Rng::at(o.seed, 60 + lvl as u64, i);
            let n = match r.below(5) {
                0 => r.usize(200),
                1 => 2048 * r.usize(10),
                2 => 2048 + 64 * r.usize(100),
                _ => gen::length(&mut r, 24_000),
            };
            let msg = gen::content(&mut r, n);
            let key = gen::key(&mut r);
            // the same key words in all three modes
            let modes = [Mode::plain(), Mode::keyed(gen::iv_key()), Mode::derive(gen::iv_key()), Mode::keyed(key), Mode::derive(key)];
            let mut base = vec![];
            for m in &modes {
                match request_all(rep, &book, m, &msg, &mut r, i) {
                    Some(d) => base.push(d),
                    None => return,
                }
            }
            // keyed with the output or an internal value of another mode
            let k2 = base[r.usize(5)];
            let k3 = cv_bytes(&root(&modes[3], &msg).chain());
            let mut k4 = key;
            k4[r.usize(32)] ^= 1 << r.below(8);
            for k in [k2, k3, k4] {
                for m in [Mode::keyed(k), Mode::derive(k)] {
                    request_all(rep, &book, &m, &msg, &mut r, i);
                }
            }
            let m = modes[r.usize(5)];
            for (j, x) in relatives(&mut r, &m, &msg).into_iter().enumerate() {
                if rep.stopped() {
                    return;
                }
                let d = request_all(rep, &book, &m, &x, &mut r, i * 100 + j as u64);
                rep.count_fast(1, 1);
                if let Some(d) = d {
                    let orig = &base[modes.iter().position(|y| *y == m).unwrap()];
                    if x != msg && d == *orig {
                        rep.violation(format!("case {} relative {}: {} bytes changed into {} bytes without changing the digest", i, j, msg.len(), x.len()));
                    }
                }
            }
            rep.sample(|| format!("message of {} bytes, 5 modes/keys, 3 derived keys, its relatives under {}", n, m.name()));
        });
        let inner: usize = book.internal.iter().map(|s| s.lock().unwrap().len()).sum();
        let ret: usize = book.returned.iter().map(|s| s.lock().unwrap().len()).sum();
        rep.count("distinct_internal_values", inner as u64);
        rep.count("distinct_returned_values", ret as u64);
    }
    set_level(0);
    rep.flush_fast(0, "compressions_observed");
    rep.flush_fast(1, "related_messages");
    #[cfg(baokeshed_verif)]
    baokeshed::verif::set_node_hook(None);
}
