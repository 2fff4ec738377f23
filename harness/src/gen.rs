//! Hostile inputs: keys, message contents, lengths, piece sequences.

use crate::oracle::{Mode, IV};
use crate::util::Rng;

pub fn iv_key() -> [u8; 32] {
    let mut k = [0; 32];
    for i in 0..8 {
        k[4 * i..4 * i + 4].copy_from_slice(&IV[i].to_le_bytes());
    }
    k
}

pub fn key(r: &mut Rng) -> [u8; 32] {
    match r.below(8) {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => iv_key(),
        3 => {
            let mut k = [0; 32];
            k[r.usize(32)] = 1 << r.below(8);
            k
        }
        4 => {
            let mut k = [0; 32];
            for (i, b) in k.iter_mut().enumerate() {
                *b = i as u8;
            }
            k
        }
        _ => r.key(),
    }
}

pub fn mode(r: &mut Rng) -> Mode {
    match r.below(3) {
        0 => Mode::plain(),
        1 => Mode::keyed(key(r)),
        _ => Mode::derive(key(r)),
    }
}

pub fn content(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill_content(r, &mut v);
    v
}

pub fn fill_content(r: &mut Rng, v: &mut [u8]) {
    match r.below(9) {
        0 => v.fill(0),
        1 => v.fill(0xff),
        2 => {
            for (i, b) in v.iter_mut().enumerate() {
                *b = (i % 251) as u8;
            }
        }
        3 => {
            // the same block or chunk over and over
            let p = r.pick(&[64usize, 2048, 32, 1]);
            let pat = r.bytes(p);
            for (i, b) in v.iter_mut().enumerate() {
                *b = pat[i % p];
            }
        }
        4 | 5 => {
            // mostly random, some segments constant
            r.fill(v);
            let n = v.len();
            for _ in 0..1 + r.usize(6) {
                if n == 0 {
                    break;
                }
                let unit = r.pick(&[1usize, 64, 64, 2048, 2048]);
                let a = r.usize(n) / unit * unit;
                let l = (unit * (1 + r.usize(4))).min(n - a);
                let b = r.pick(&[0u8, 0, 0xff, 0x80, 0x01]);
                v[a..a + l].fill(b);
            }
        }
        _ => r.fill(v),
    }
}

/// Lengths around every boundary the implementation could care about.
pub fn length(r: &mut Rng, max: usize) -> usize {
    let d = r.pick(&[-65i64, -64, -63, -2, -1, 0, 0, 0, 1, 2, 63, 64, 65, 127]);
    let base = match r.below(7) {
        0 => r.below(5 * 64) as i64,
        1 => 64 * r.below(80) as i64 + d,
        2 => 2048 * r.below(40) as i64 + d,
        3 => 2048 * (1i64 << r.below(8)) + d,
        4 => 2048 * (1i64 << r.below(8)) + 2048 * r.below(5) as i64 + d,
        5 => 16384 * r.below(6) as i64 + d,
        _ => r.below(max as u64 + 1) as i64,
    };
    base.max(0).min(max as i64) as usize
}

/// Splits total into pieces, in one of many styles.
pub fn pieces(r: &mut Rng, total: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = total;
    let style = r.below(10);
    let unit = r.pick(&[64usize, 2048, 4096, 8192, 16384]);
    while left > 0 {
        if r.chance(9) {
            v.push(0);
        }
        let s = if style == 9 { r.below(9) } else { style };
        let p = match s {
            0 => r.below(4) as usize,
            1 => r.range(1, 130) as usize,
            2 => 64 * r.below(5) as usize,
            3 => (64 * r.range(1, 40)) as usize,
            4 => (2048 * r.range(1, 20)) as usize,
            5 => (2048 * r.range(0, 20)) as usize + r.pick(&[0usize, 1, 63, 64, 65, 2047]),
            6 => unit,
            7 => (unit as i64 + r.pick(&[-64i64, -1, 0, 0, 1, 64])) as usize,
            8 => r.below(left as u64 + 1) as usize,
            _ => length(r, left),
        };
        // Tiny pieces make no progress on long inputs; bound the history.
        let p = if v.len() > 400 { left } else { p.min(left) };
        v.push(p);
        left -= p;
    }
    if r.chance(4) {
        v.push(0);
    }
    v
}
