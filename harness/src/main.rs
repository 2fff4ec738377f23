mod api;
mod gen;
mod kat;
mod oracle;
mod p_bound;
mod p_c;
mod p_ct;
mod p_dom;
mod p_hash;
mod p_kern;
mod p_long;
mod p_mem;
mod p_mt;
mod p_ref;
mod p_val;
mod util;

use util::*;

#[global_allocator]
static ALLOC: p_bound::Counting = p_bound::Counting;

#[derive(Clone)]
pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub tiny: bool, // very small workloads, for slow instrumented builds
    pub args: Vec<String>,
}

impl Opts {
    pub fn has(&self, flag: &str) -> bool {
        self.args.iter().any(|a| a == flag)
    }
    pub fn size<T>(&self, quick: T, thorough: T, tiny: T) -> T {
        if self.tiny {
            tiny
        } else if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.remove(0);
    let mut o = Opts { seed: 1, thorough: false, tiny: false, args: vec![] };
    let mut out = None;
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--seed" => o.seed = it.next().unwrap().parse().unwrap(),
            "--tier" => match it.next().unwrap().as_str() {
                "thorough" => o.thorough = true,
                "tiny" => o.tiny = true,
                _ => {}
            },
            "--out" => out = it.next(),
            _ => o.args.push(a),
        }
    }
    install_handlers();
    if !cfg!(miri) {
        start_watchdog();
    }
    let rep = Rep::new();
    if !cfg!(miri) {
        oracle_selftest();
    }
    match cmd.as_str() {
        "selftest" | "nothing" => {}
        "kats" => kat::print(),
        "c01" => p_hash::c01(&rep, &o),
        "c02" => p_hash::c02(&rep, &o),
        "c03" => p_hash::c03(&rep, &o),
        "c04" => p_hash::c04(&rep, &o),
        "clong" => p_long::clong(&rep, &o),
        "cjump" => p_long::cjump(&rep, &o),
        "c06" => p_dom::c06(&rep, &o),
        "c07" => p_mt::c07(&rep, &o),
        "c08" => p_mem::c08(&rep, &o),
        "small" => p_mem::small(&rep, &o),
        "small_jump" => p_mem::small_jump(&rep, &o),
        "small_kern" => p_mem::small_kern(&rep, &o),
        "small_ref" => p_mem::small_ref(&rep, &o),
        "small_all" => {
            p_mem::small(&rep, &o);
            p_mem::small_kern(&rep, &o);
            p_mem::small_ref(&rep, &o);
        }
        "small_mt" => p_mem::small_mt(&rep, &o),
        "c14" => p_ref::c14(&rep, &o),
        "c14_long" => p_ref::c14_long(&rep, &o),
        "vectors" => return p_ref::vectors(),
        "c16" => p_val::c16(&rep, &o),
        "c17" => p_val::c17(&rep, &o),
        "c18" => p_val::c18(&rep, &o),
        "c20" => p_ct::c20(&rep, &o),
        "c23" => p_bound::c23(&rep, &o),
        "c05" => p_kern::c05(&rep, &o),
        "c11_rust" => p_kern::c11_rust(&rep, &o),
        "ckern" => p_c::ckern(&rep, &o),
        "chash" => p_c::chash(&rep, &o),
        "cdeep" => p_c::cdeep(&rep, &o),
        #[cfg(feature = "c_portable")]
        "cffi" => p_c::cffi(&rep, &o),
        "cdecl" => p_c::cdecl(&rep, &o),
        #[cfg(feature = "c_portable")]
        "cmask" => return p_c::cmask(),
        #[cfg(all(miri, feature = "c_portable"))]
        "small_binding" => p_c::small_binding(&rep, &o),
        _ => panic!("unknown command {}", cmd),
    }
    rep.count("hooked_build", api::hooked() as u64);
    let j = rep.json();
    match out {
        Some(p) if p != "-" => std::fs::write(p, j).unwrap(),
        _ => println!("{}", j),
    }
    let bad = !rep.violations.lock().unwrap().is_empty();
    for v in rep.violations.lock().unwrap().iter() {
        eprintln!("VIOLATED: {}", v);
    }
    // Not via exit(): other threads may still be running.
    #[cfg(miri)]
    std::process::exit(bad as i32);
    #[cfg(not(miri))]
    unsafe { libc::_exit(if bad { 1 } else { 0 }) }
}

/// The specification itself is pinned before anything is judged by it.
fn oracle_selftest() {
    use oracle::*;
    // BLAKE2s-256("abc") with our round function.
    let mut h = IV;
    h[0] ^= 0x01010020;
    let mut block = [0u8; 64];
    block[..3].copy_from_slice(b"abc");
    let m = words16(&block);
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(&h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= 3;
    v[14] ^= !0;
    rounds(&mut v, &m, 10);
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
    assert_eq!(hex(&cv_bytes(&h)), "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982");
    // BLAKE2b-512("abc") with the 64-bit round function.
    {
        use p_kern::spec64;
        let mut h = spec64::IV;
        h[0] ^= 0x01010040;
        let mut block = [0u8; 128];
        block[..3].copy_from_slice(b"abc");
        let m = spec64::words(&block);
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&spec64::IV);
        v[12] ^= 3;
        v[14] ^= !0;
        spec64::rounds(&mut v, &m, 12);
        let out: Vec<u8> = (0..8).flat_map(|i| (h[i] ^ v[i] ^ v[i + 8]).to_le_bytes()).collect();
        assert_eq!(hex(&out[..16]), "ba80a53f981c4d0d6a2797b69f12f6e9");
    }
    kat::check();
    // The cached and the virtual forms agree with the definition.
    let m = Mode::keyed([3; 32]);
    let data: Vec<u8> = (0..9 * 2048 + 77).map(|i| (i % 253) as u8).collect();
    let p = Prefix::new(m, data.clone());
    for len in [0, 1, 64, 2048, 2049, 4096, 6144, 8192, 8193, 18432, 18433, data.len()] {
        assert_eq!(p.hash(len), hash(&m, &data[..len]));
    }
    for base in [2048usize, 4096, 6144, 8192, 14336, 16384] {
        let mut given = vec![];
        let mut s = 0;
        for bit in (0..8).rev() {
            if (base / 2048) >> bit & 1 == 1 {
                given.push(tree(&data[s..s + (2048 << bit)], &m.words(), s as u64, m.flags()).chain());
                s += 2048 << bit;
            }
        }
        let n = virtual_root(&m, base as u64, &given, &data[base..]);
        assert_eq!(n.root_hash(), hash(&m, &data));
    }
}
