//! C07: fork-join hashing under every pool size, with delays injected into the
//! tasks, and many callers at once.

use crate::api::*;
use crate::gen;
use crate::oracle::*;
use crate::p_hash::{par_root, std_modes};
use crate::util::*;
use crate::Opts;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

static EVENTS: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];
static STYLE: AtomicU64 = AtomicU64::new(0);
static OPEN: AtomicUsize = AtomicUsize::new(0);
static MAX_OPEN: AtomicUsize = AtomicUsize::new(0);
// a running signature of the order in which tasks started and ended
static ORDER: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static TR: std::cell::RefCell<Option<Rng>> = const { std::cell::RefCell::new(None) };
    static TID: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static LEFT_ON: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
static NEXT_TID: AtomicU64 = AtomicU64::new(1);

#[cfg(baokeshed_verif)]
fn on_join(e: u8) {
    // Relaxed throughout: the hook must not order the tasks it watches, or it
    // would hide their data races from ThreadSanitizer and Miri.
    EVENTS[e as usize & 3].fetch_add(1, Relaxed);
    let tid = TID.with(|t| {
        if t.get() == 0 {
            t.set(NEXT_TID.fetch_add(1, Relaxed));
        }
        t.get()
    });
    if e < 2 {
        let n = OPEN.fetch_add(1, Relaxed) + 1;
        MAX_OPEN.fetch_max(n, Relaxed);
    } else {
        OPEN.fetch_sub(1, Relaxed);
    }
    let _ = ORDER.fetch_update(Relaxed, Relaxed, |o| Some(mix(o, tid * 4 + e as u64)));
    let style = STYLE.load(Relaxed);
    if style == 0 {
        return;
    }
    let x = TR.with(|t| t.borrow_mut().get_or_insert_with(|| Rng::new(tid)).below(100));
    match style {
        1 if x < 40 => std::thread::yield_now(),
        2 if x < 10 => std::thread::sleep(std::time::Duration::from_micros(x * 20)),
        // slow down one side so that the other is stolen or finished first
        3 if e == 0 => std::thread::sleep(std::time::Duration::from_micros(60)),
        4 if e == 1 => std::thread::sleep(std::time::Duration::from_micros(60)),
        5 => {
            for _ in 0..x * 50 {
                std::hint::spin_loop();
            }
        }
        6 if e >= 2 && x < 30 => std::thread::sleep(std::time::Duration::from_micros(40)),
        _ => {}
    }
}

fn pool<R: Send>(n: usize, f: impl FnOnce() -> R + Send) -> R {
    #[cfg(feature = "rayon")]
    {
        let p = rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(4 << 20).build().unwrap();
        let r = p.install(f);
        return r;
    }
    #[cfg(not(feature = "rayon"))]
    {
        let _ = n;
        f()
    }
}

fn one(m: &Mode, d: &[u8]) -> ([u8; 32], [u8; 64]) {
    (digest(m, d), xof(m, d).read())
}

pub fn c07(rep: &Rep, o: &Opts) {
    #[cfg(baokeshed_verif)]
    baokeshed::verif::set_join_hook(Some(on_join));
    let mut r = Rng::at(o.seed, 70, 0);
    let modes = std_modes(&mut r);
    let big = o.size(3usize << 20, 24 << 20, 60_000);
    let data = r.bytes(big);
    let lens: Vec<usize> = {
        let mut v = vec![0, 1, 2048, 2049, 4097, 16384, 16385, 18432, 32768, 32769, 65536 + 1, 100_000];
        if !o.tiny {
            v.extend([300_001, 1 << 20, (1 << 20) + 1, (1 << 20) + 2048, big - 1, big]);
        }
        v.retain(|&l| l <= big);
        for _ in 0..o.size(10, 60, 2) {
            v.push(gen::length(&mut r, big.min(400_000)));
        }
        v
    };
    let prefixes: Vec<Prefix> = modes.iter().take(3).map(|m| Prefix::new(*m, data.clone())).collect();
    let want: Vec<Vec<([u8; 32], [u8; 64])>> = prefixes
        .iter()
        .map(|p| lens.iter().map(|&l| { let n = p.root(l); (n.root_hash(), n.root_block(0)) }).collect())
        .collect();
    let pools: &[usize] = if !cfg!(feature = "rayon") { &[1] } else if o.tiny { &[1, 3] } else { &[1, 2, 3, 4, 5, 7, 8, 16, 33, 129] };
    let styles: Vec<u64> = if api_hooks() && cfg!(feature = "rayon") { (0..7).collect() } else { vec![0] };
    let mut orders = std::collections::HashSet::new();
    for lvl in levels() {
        if lvl == 0 && levels().len() > 1 && o.tiny {
            continue;
        }
        set_level(lvl);
        for &n in pools {
            for &style in &styles {
                if o.tiny && style % 3 != 1 {
                    continue;
                }
                STYLE.store(style, SeqCst);
                ctx("pool/style/level", &[n as u64, style, lvl as u64]);
                // sleeping at every join: only the shorter messages
                let slow = style == 3 || style == 4;
                let bad = rep.sut("hashing in a pool", || {
                    pool(n, || {
                        let mut bad = vec![];
                        for (li, &l) in lens.iter().enumerate() {
                            if (slow || o.tiny) && l > 110_000 {
                                continue;
                            }
                            for (mi, p) in prefixes.iter().enumerate() {
                                if li % 3 != mi && l > 50_000 && !o.thorough {
                                    continue;
                                }
                                ORDER.store(0, SeqCst);
                                let got = one(&p.mode, &p.data[..l]);
                                rep.eval(sig(&[1, lvl as u64, n as u64, style, l as u64, mi as u64]));
                                let or = ORDER.load(SeqCst);
                                if or != 0 {
                                    bad.push(Err(or));
                                }
                                if got != want[mi][li] {
                                    bad.push(Ok(format!("{} of {} bytes in a pool of {} threads (delay style {}, level {}): got {} want {}", p.mode.name(), l, n, style, lvl, hex(&got.0), hex(&want[mi][li].0))));
                                }
                            }
                        }
                        bad
                    })
                });
                for b in bad.into_iter().flatten() {
                    match b {
                        Ok(s) => rep.violation(s),
                        Err(or) => {
                            orders.insert(or);
                        }
                    }
                }
                if rep.stopped() {
                    return;
                }
            }
        }
    }
    set_level(0);
    rep.count("distinct_task_orders", orders.len() as u64);
    // many threads, few keys, short messages: whatever is kept between calls and
    // shared by threads gets touched as often as possible
    STYLE.store(0, SeqCst);
    let small: Vec<usize> = vec![0, 1, 64, 65, 1000, 2048, 2049, 4096, 4097];
    let keys: Vec<Mode> = {
        let mut v = vec![Mode::plain()];
        for _ in 0..4 {
            let k = r.key();
            v.push(Mode::keyed(k));
            v.push(Mode::derive(k));
        }
        v
    };
    let known: Vec<Vec<([u8; 32], [u8; 64])>> = keys
        .iter()
        .map(|m| small.iter().map(|&l| { let n = root(m, &data[..l]); (n.root_hash(), n.root_block(0)) }).collect())
        .collect();
    for &among in &[2usize, 3, keys.len()] {
        std::thread::scope(|s| {
            for c in 0..o.size(16u64, 48, 3) {
                let (keys, known, small, data) = (&keys, &known, &small, &data);
                s.spawn(move || {
                    let mut r = Rng::at(o.seed, 77 + among as u64 * 8, c);
                    let mut prev: Option<(usize, usize, baokeshed::Hasher)> = None;
                    for k in 0..o.size(4000u64, 60_000, 3) {
                        let (mi, li) = (r.usize(among), r.usize(small.len()));
                        let (m, d) = (&keys[mi], &data[..small[li]]);
                        let how = r.below(4);
                        ctx("hammering, caller/k/len/how", &[c, k, d.len() as u64, how]);
                        let got = rep.sut("concurrent short calls", || match how {
                            0 => (digest(m, d), known[mi][li].1),
                            1 => (known[mi][li].0, xof(m, d).read()),
                            _ => {
                                // two hashers of different keys, taken in turns
                                let mut h = hasher(m);
                                h.update(&d[..d.len() / 2]);
                                let late = prev.take().map(|(pm, pl, mut ph)| {
                                    let pd = &data[..small[pl]];
                                    ph.update(&pd[pd.len() / 2..]);
                                    (pm, pl, (<[u8; 32]>::from(ph.finalize()), ph.finalize_xof().read()))
                                });
                                prev = Some((mi, li, h));
                                match late {
                                    Some((pm, pl, g)) if g != known[pm][pl] => (g.0, [0; 64]),
                                    _ => known[mi][li],
                                }
                            }
                        });
                        rep.count_fast(0, 1);
                        let Some(got) = got else { return };
                        if got != known[mi][li] {
                            rep.violation(format!("{} of {} bytes while other threads use {} keys (call {} of thread {}, way {}): got {} want {}", m.name(), d.len(), among, k, c, how, hex(&got.0), hex(&known[mi][li].0)));
                            return;
                        }
                    }
                    rep.eval(sig(&[4, among as u64, c]));
                });
            }
        });
        if rep.stopped() {
            return;
        }
    }
    // many callers at once, from outside and inside of pools, nested
    for style in styles.iter().copied() {
        if style == 3 || style == 4 || (o.tiny && style != 1) {
            continue;
        }
        STYLE.store(style, SeqCst);
        for &n in pools {
            let callers = o.size(12u64, 24, 3);
            ctx("concurrent callers pool/style", &[n as u64, style]);
            #[cfg(feature = "rayon")]
            let p = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
            std::thread::scope(|s| {
                for c in 0..callers {
                    let (prefixes, want, lens) = (&prefixes, &want, &lens);
                    #[cfg(feature = "rayon")]
                    let p = &p;
                    s.spawn(move || {
                        let mut r = Rng::at(o.seed, 75 + style, (n as u64) << 8 | c);
                        for k in 0..o.size(12, 60, 2) {
                            let mi = r.usize(3);
                            let li = r.usize(lens.len());
                            if lens[li] > 400_000 && k > 1 {
                                continue;
                            }
                            let d = &prefixes[mi].data[..lens[li]];
                            let m = &prefixes[mi].mode;
                            let how = r.below(5);
                            ctx("concurrent call pool/style/caller/k/len", &[n as u64, style, c, k, lens[li] as u64]);
                            let got = rep.sut("concurrent hashing", || match how {
                                0 => {
                                    // an incremental hasher moved between threads half way
                                    let mut h = hasher(m);
                                    h.update(&d[..d.len() / 2]);
                                    let x = std::thread::scope(|s2| s2.spawn(move || { h.update(&d[d.len() / 2..]); h.finalize_xof() }).join().unwrap());
                                    let mut y = x.clone();
                                    (<[u8; 32]>::from(x.to_hash()), y.read())
                                }
                                #[cfg(feature = "rayon")]
                                1 => p.install(|| one(m, d)),
                                #[cfg(feature = "rayon")]
                                2 => {
                                    // from inside other parallel work in the same pool
                                    let (a, b) = p.install(|| rayon::join(|| digest(m, d), || xof(m, d).read()));
                                    (a, b)
                                }
                                #[cfg(feature = "rayon")]
                                3 => {
                                    // nested: a different pool inside of this one
                                    let q = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
                                    p.install(|| q.install(|| one(m, d)))
                                }
                                _ => one(m, d),
                            });
                            rep.eval(sig(&[2, style, n as u64, c, k]));
                            rep.count_fast(0, 1);
                            let Some(got) = got else { return };
                            if got != want[mi][li] {
                                rep.violation(format!("{} of {} bytes, one of {} concurrent callers (pool {}, way {}, style {}): got {} want {}", m.name(), lens[li], callers, n, how, style, hex(&got.0), hex(&want[mi][li].0)));
                            }
                        }
                    });
                }
            });
            if rep.stopped() {
                return;
            }
        }
    }
    // one hasher observed by many threads at once (they only read)
    let p = &prefixes[1];
    for round in 0..o.size(300u64, 3000, 3) {
        let mut r = Rng::at(o.seed, 79, round);
        let l = gen::length(&mut r, big.min(60_000));
        let mut h = hasher(&p.mode);
        h.update(&p.data[..l]);
        let node = p.root(l);
        std::thread::scope(|s| {
            for _ in 0..o.size(4, 8, 2) {
                s.spawn(|| {
                    let got = rep.sut("shared hasher", || {
                        let mut x = h.finalize_xof();
                        let c = h.clone();
                        (<[u8; 32]>::from(h.finalize()), x.read(), <[u8; 32]>::from(c.finalize()))
                    });
                    if let Some(g) = got {
                        if g != (node.root_hash(), node.root_block(0), node.root_hash()) {
                            rep.violation(format!("a hasher shared by threads after {} bytes: got {} want {}", l, hex(&g.0), hex(&node.root_hash())));
                        }
                    }
                });
            }
        });
        rep.eval(sig(&[3, round]));
    }
    rep.flush_fast(0, "concurrent_calls");
    for (i, n) in ["left_started", "right_started", "left_ended", "right_ended"].iter().enumerate() {
        rep.count(n, EVENTS[i].load(SeqCst));
    }
    rep.count("most_tasks_open_at_once", MAX_OPEN.load(SeqCst) as u64);
    if EVENTS[0].load(SeqCst) + EVENTS[1].load(SeqCst) != EVENTS[2].load(SeqCst) + EVENTS[3].load(SeqCst) && !rep.stopped() {
        rep.violation("some fork-join task was started but had not ended when hashing returned".into());
    }
    #[cfg(baokeshed_verif)]
    baokeshed::verif::set_join_hook(None);
    let _ = par_root;
}

fn api_hooks() -> bool {
    cfg!(baokeshed_verif)
}
