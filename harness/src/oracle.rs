//! Independent executable specification of the Baokeshed tree hash.
//!
//! Written as a plain recursive definition over compressions. It shares no
//! code with anything under test, and `selftest` pins it: its round function
//! run with BLAKE2s parameters must give the published BLAKE2s digest of
//! "abc", and its tree must give known digests recorded in `kat.rs`.

pub const BLOCK: usize = 64;
pub const CHUNK: usize = 2048;

pub const CHUNK_START: u8 = 1;
pub const CHUNK_END: u8 = 2;
pub const PARENT: u8 = 4;
pub const ROOT: u8 = 8;
pub const KEYED: u8 = 16;
pub const DERIVE: u8 = 32;

pub const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];

// BLAKE2s message word order, ten rounds. Baokeshed uses the first seven.
pub const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

pub type Cv = [u32; 8];

#[inline(always)]
fn quarter(v: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(12);
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
    v[d] = (v[d] ^ v[a]).rotate_right(8);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(7);
}

#[inline(always)]
pub fn rounds(v: &mut [u32; 16], m: &[u32; 16], n: usize) {
    for s in SIGMA[..n].iter() {
        quarter(v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        quarter(v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        quarter(v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        quarter(v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        quarter(v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        quarter(v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        quarter(v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        quarter(v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
}

pub fn words16(block: &[u8]) -> [u32; 16] {
    let mut m = [0u32; 16];
    for (i, w) in m.iter_mut().enumerate() {
        *w = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    m
}

pub fn key_words(key: &[u8; 32]) -> Cv {
    let mut k = [0u32; 8];
    for i in 0..8 {
        k[i] = u32::from_le_bytes([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]);
    }
    k
}

pub fn cv_bytes(cv: &Cv) -> [u8; 32] {
    let mut b = [0u8; 32];
    for i in 0..8 {
        b[4 * i..4 * i + 4].copy_from_slice(&cv[i].to_le_bytes());
    }
    b
}

/// The full 16-word output of one compression. The first eight words are the
/// chaining value.
pub fn compress(cv: &Cv, block: &[u8], block_len: u8, offset: u64, flags: u8) -> [u32; 16] {
    let m = words16(block);
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(cv);
    v[8..12].copy_from_slice(&IV[..4]);
    v[12] = offset as u32;
    v[13] = (offset >> 32) as u32;
    v[14] = block_len as u32;
    v[15] = flags as u32;
    rounds(&mut v, &m, 7);
    let mut out = [0u32; 16];
    for i in 0..8 {
        out[i] = v[i] ^ v[i + 8];
        out[i + 8] = v[i + 8] ^ cv[i];
    }
    out
}

pub fn compress_cv(cv: &Cv, block: &[u8], block_len: u8, offset: u64, flags: u8) -> Cv {
    let o = compress(cv, block, block_len, offset, flags);
    let mut c = [0u32; 8];
    c.copy_from_slice(&o[..8]);
    c
}

pub fn compress_xof(cv: &Cv, block: &[u8], block_len: u8, offset: u64, flags: u8) -> [u8; 64] {
    let o = compress(cv, block, block_len, offset, flags);
    let mut b = [0u8; 64];
    for i in 0..16 {
        b[4 * i..4 * i + 4].copy_from_slice(&o[i].to_le_bytes());
    }
    b
}

/// Batch input: all blocks full, the same offset for each.
pub fn hash_blocks(input: &[u8], key: &Cv, offset: u64, flags: u8, start: u8, end: u8) -> [u8; 32] {
    let n = input.len() / BLOCK;
    let mut cv = *key;
    for b in 0..n {
        let mut f = flags;
        if b == 0 {
            f |= start;
        }
        if b + 1 == n {
            f |= end;
        }
        cv = compress_cv(&cv, &input[b * BLOCK..(b + 1) * BLOCK], BLOCK as u8, offset, f);
    }
    cv_bytes(&cv)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Mode {
    pub kind: u8, // 0 plain, 1 keyed, 2 derive_key
    pub key: [u8; 32],
}

impl Mode {
    pub fn plain() -> Mode {
        Mode { kind: 0, key: [0; 32] }
    }
    pub fn keyed(key: [u8; 32]) -> Mode {
        Mode { kind: 1, key }
    }
    pub fn derive(key: [u8; 32]) -> Mode {
        Mode { kind: 2, key }
    }
    pub fn words(&self) -> Cv {
        if self.kind == 0 {
            IV
        } else {
            key_words(&self.key)
        }
    }
    pub fn flags(&self) -> u8 {
        [0, KEYED, DERIVE][self.kind as usize]
    }
    pub fn name(&self) -> &'static str {
        ["hash", "keyed_hash", "derive_key"][self.kind as usize]
    }
}

/// The last compression of a node, before it is known whether it is the root.
#[derive(Clone, Copy)]
pub struct Node {
    pub cv: Cv,
    pub block: [u8; 64],
    pub block_len: u8,
    pub offset: u64,
    pub flags: u8,
}

impl Node {
    pub fn chain(&self) -> Cv {
        compress_cv(&self.cv, &self.block, self.block_len, self.offset, self.flags)
    }
    pub fn root_block(&self, index: u64) -> [u8; 64] {
        compress_xof(&self.cv, &self.block, self.block_len, index.wrapping_mul(64), self.flags | ROOT)
    }
    pub fn root_hash(&self) -> [u8; 32] {
        let mut h = [0; 32];
        h.copy_from_slice(&self.root_block(0)[..32]);
        h
    }
    pub fn root_bytes(&self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 64);
        let mut i = 0;
        while v.len() < n {
            v.extend_from_slice(&self.root_block(i));
            i += 1;
        }
        v.truncate(n);
        v
    }
}

/// Receives every compression the specification performs.
pub type Log<'a> = &'a mut dyn FnMut(&Cv, &[u8], u8, u64, u8);

pub fn chunk_node_log(chunk: &[u8], key: &Cv, offset: u64, flags: u8, log: Log) -> Node {
    assert!(chunk.len() <= CHUNK);
    let mut cv = *key;
    let mut pos = 0;
    let mut f = flags | CHUNK_START;
    while chunk.len() - pos > BLOCK {
        log(&cv, &chunk[pos..pos + BLOCK], 64, offset, f);
        cv = compress_cv(&cv, &chunk[pos..pos + BLOCK], 64, offset, f);
        f = flags;
        pos += BLOCK;
    }
    let mut block = [0u8; 64];
    block[..chunk.len() - pos].copy_from_slice(&chunk[pos..]);
    Node { cv, block, block_len: (chunk.len() - pos) as u8, offset, flags: f | CHUNK_END }
}

pub fn chunk_node(chunk: &[u8], key: &Cv, offset: u64, flags: u8) -> Node {
    chunk_node_log(chunk, key, offset, flags, &mut |_, _, _, _, _| ())
}

pub fn parent_node(left: &Cv, right: &Cv, key: &Cv, flags: u8) -> Node {
    let mut block = [0u8; 64];
    block[..32].copy_from_slice(&cv_bytes(left));
    block[32..].copy_from_slice(&cv_bytes(right));
    Node { cv: *key, block, block_len: 64, offset: 0, flags: flags | PARENT }
}

/// Number of chunks that go to the left child of a tree of `n` >= 2 chunks.
pub fn left_chunks(n: u64) -> u64 {
    let mut p = 1u64;
    while p < n - p {
        // p*2 < n, phrased without overflow
        p *= 2;
    }
    p
}

/// The definition: recursive over the whole message.
pub fn tree_log(input: &[u8], key: &Cv, offset: u64, flags: u8, log: Log) -> Node {
    if input.len() <= CHUNK {
        return chunk_node_log(input, key, offset, flags, log);
    }
    let n = ((input.len() - 1) / CHUNK + 1) as u64;
    let l = left_chunks(n) as usize * CHUNK;
    let left = tree_log(&input[..l], key, offset, flags, log);
    log(&left.cv, &left.block, left.block_len, left.offset, left.flags);
    let right = tree_log(&input[l..], key, offset + l as u64, flags, log);
    log(&right.cv, &right.block, right.block_len, right.offset, right.flags);
    parent_node(&left.chain(), &right.chain(), key, flags)
}

pub fn tree(input: &[u8], key: &Cv, offset: u64, flags: u8) -> Node {
    tree_log(input, key, offset, flags, &mut |_, _, _, _, _| ())
}

pub fn root(mode: &Mode, input: &[u8]) -> Node {
    tree(input, &mode.words(), 0, mode.flags())
}

pub fn hash(mode: &Mode, input: &[u8]) -> [u8; 32] {
    root(mode, input).root_hash()
}

/// Answers for every prefix of one message, with complete subtrees cached.
pub struct Prefix {
    pub mode: Mode,
    pub data: Vec<u8>,
    // levels[k][i]: chaining value of the i-th complete subtree of 2^k chunks
    levels: Vec<Vec<Cv>>,
}

impl Prefix {
    pub fn new(mode: Mode, data: Vec<u8>) -> Prefix {
        let key = mode.words();
        let full = data.len() / CHUNK;
        let leaves: Vec<Cv> = (0..full)
            .map(|i| chunk_node(&data[i * CHUNK..(i + 1) * CHUNK], &key, (i * CHUNK) as u64, mode.flags()).chain())
            .collect();
        let levels = build_levels(leaves, &key, mode.flags());
        Prefix { mode, data, levels }
    }

    fn node(&self, start: u64, end: u64) -> Node {
        let key = self.mode.words();
        let flags = self.mode.flags();
        if end - start <= CHUNK as u64 {
            return chunk_node(&self.data[start as usize..end as usize], &key, start, flags);
        }
        let n = (end - start - 1) / CHUNK as u64 + 1;
        let l = left_chunks(n);
        let mid = start + l * CHUNK as u64;
        // The left side is complete by construction.
        let level = l.trailing_zeros() as usize;
        let left = self.levels[level][(start / (l * CHUNK as u64)) as usize];
        // So is the right side, if it has full size.
        let right = if end - mid == l * CHUNK as u64 {
            self.levels[level][(mid / (l * CHUNK as u64)) as usize]
        } else {
            self.node(mid, end).chain()
        };
        parent_node(&left, &right, &key, flags)
    }

    pub fn root(&self, len: usize) -> Node {
        self.node(0, len as u64)
    }
    pub fn hash(&self, len: usize) -> [u8; 32] {
        self.root(len).root_hash()
    }
}

pub fn build_levels(leaves: Vec<Cv>, key: &Cv, flags: u8) -> Vec<Vec<Cv>> {
    let mut levels = vec![leaves];
    while levels.last().unwrap().len() >= 2 {
        let next = levels
            .last()
            .unwrap()
            .chunks_exact(2)
            .map(|p| parent_node(&p[0], &p[1], key, flags).chain())
            .collect();
        levels.push(next);
    }
    levels
}

/// The root over a virtual message: complete subtrees left of `base` are given
/// as chaining values from the left (largest first, as in the binary expansion
/// of base/CHUNK); the bytes from `base` on are real. `tail` must not be empty.
pub fn virtual_root(mode: &Mode, base: u64, given: &[Cv], tail: &[u8]) -> Node {
    assert!(base % CHUNK as u64 == 0 && !tail.is_empty());
    assert_eq!((base / CHUNK as u64).count_ones() as usize, given.len());
    let end = base as u128 + tail.len() as u128;
    assert!(end <= u64::MAX as u128);
    virtual_node(mode, 0, end as u64, base, given, tail)
}

fn virtual_node(mode: &Mode, start: u64, end: u64, base: u64, given: &[Cv], tail: &[u8]) -> Node {
    let key = mode.words();
    if start >= base {
        return tree(&tail[(start - base) as usize..(end - base) as usize], &key, start, mode.flags());
    }
    let n = (end - start - 1) / CHUNK as u64 + 1;
    let mid = start + left_chunks(n) * CHUNK as u64;
    let left = virtual_chain(mode, start, mid, base, given, tail);
    let right = virtual_chain(mode, mid, end, base, given, tail);
    parent_node(&left, &right, &key, mode.flags())
}

fn virtual_chain(mode: &Mode, start: u64, end: u64, base: u64, given: &[Cv], tail: &[u8]) -> Cv {
    if start < base {
        // Is this exactly one of the given subtrees?
        let mut s = 0u64;
        let chunks = base / CHUNK as u64;
        let mut idx = 0;
        for bit in (0..53).rev() {
            if chunks >> bit & 1 == 1 {
                let e = s + (CHUNK as u64) * (1u64 << bit);
                if s == start && e == end {
                    return given[idx];
                }
                s = e;
                idx += 1;
            }
        }
    }
    virtual_node(mode, start, end, base, given, tail).chain()
}
