//! Thin adapters over the API under test.

use crate::oracle::Mode;
use baokeshed::{Hasher, Output};

pub fn xof(mode: &Mode, input: &[u8]) -> Output {
    match mode.kind {
        0 => baokeshed::hash_xof(input),
        1 => baokeshed::keyed_hash_xof(&mode.key, input),
        _ => baokeshed::derive_key_xof(&mode.key, input),
    }
}

pub fn digest(mode: &Mode, input: &[u8]) -> [u8; 32] {
    match mode.kind {
        0 => baokeshed::hash(input).into(),
        1 => baokeshed::keyed_hash(&mode.key, input).into(),
        _ => baokeshed::derive_key(&mode.key, input),
    }
}

pub fn hasher(mode: &Mode) -> Hasher {
    match mode.kind {
        0 => Hasher::new(),
        1 => Hasher::new_keyed(&mode.key),
        _ => Hasher::new_derive_key(&mode.key),
    }
}

/// SIMD levels this CPU and this build can be pinned to. 0 is "as detected".
pub fn levels() -> Vec<u8> {
    #[allow(unused_mut)]
    let mut v = vec![0];
    #[cfg(baokeshed_verif)]
    {
        v.push(1);
        #[cfg(target_arch = "x86_64")]
        {
            if is_x86_feature_detected!("sse4.1") {
                v.push(2);
            }
            if is_x86_feature_detected!("avx2") {
                v.push(3);
            }
        }
    }
    v
}

pub fn set_level(_l: u8) {
    #[cfg(baokeshed_verif)]
    baokeshed::verif::force_level(_l);
}

pub fn hooked() -> bool {
    cfg!(baokeshed_verif)
}
