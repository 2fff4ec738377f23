"""One function per property: which workloads run, in which builds, under which monitors."""
from lib import *


def two_builds(c, cmd, features=()):
    c.bkv(harness("release", features), cmd, tag=cmd + "/release")
    c.bkv(harness("chk", features), cmd, tag=cmd + "/checked")


def C01(c):
    c.rules.append("a case is one (mode, message length, content, SIMD level, build) whose digest and first output blocks were compared with the specification; distinct by those parameters; all cases compute a digest, none is trivial.")
    two_builds(c, "c01")


def C02(c):
    c.rules.append("a case is one sequence of piece lengths fed to an incremental hasher (by update, write, write_all, io::copy or chained calls), compared with the specification of the concatenation; distinct by sequence, mode and SIMD level.")
    two_builds(c, "c02")


def C03(c):
    c.rules.append("a case is one history of update, finalize, extended finalize, clone, clone_from and drop on a family of hashers, every finalization compared with a model that stores the bytes fed.")
    two_builds(c, "c03")


def C04(c):
    c.rules.append("a case is one output object (or family of clones) read at several stream positions, each block compared with the specification at that position.")
    two_builds(c, "c04")


def C05(c):
    c.rules.append("a case is one call of a Rust kernel (compress, extended compress, batch of blocks or of whole inputs; portable, SSE4.1, AVX2, detected) with one combination of key, input bytes, position, stride, flags, batch size and alignment; every output byte and the guard bytes around it were compared.")
    two_builds(c, "c05")


def C06(c):
    c.rules.append("a case is one set of related messages, modes and keys, whose published results were compared with each other and with every internal node value of the specification's trees; distinct by message relation, lengths and keys.")
    two_builds(c, "c06")


def C07(c):
    c.rules.append("a case is one hashing call (or a group of concurrent ones) in one thread pool, nesting and schedule, compared with the single-threaded specification; ThreadSanitizer and Miri watched the same calls for data races.")
    two_builds(c, "c07", ["rayon"])
    c.bkv(harness("release"), "c07", tag="c07/single-threaded build")
    c.bkv(sanitized("thread", ["rayon"]), "c07", tag="c07/thread sanitizer", env=SAN_ENV, tier="quick")
    # without the hooks, so that nothing but the code itself orders its tasks
    c.bkv(sanitized("thread", ["rayon"], hooked=False), "c07", tag="c07/thread sanitizer, no hooks", env=SAN_ENV, tier="quick")
    c.miri("c07/interpreted", "small_mt", features=["rayon"], miriflags="-Zmiri-ignore-leaks -Zmiri-tree-borrows", seeds=[SEED * 1000 + i for i in range(64 if THOROUGH else 8)])


# Each SIMD level in the interpreter, with exactly the CPU features it needs.
MIRI_LEVELS = [("portable", "", "few"), ("sse41", "-C target-feature=+sse4.1", "simd4"), ("avx2", "-C target-feature=+avx2", "simd8")]


def C08(c):
    c.rules.append("a case is one sequence of safe calls (hashing, splitting, cloning, finalizing, reading, formatting, comparing) on buffers that end or begin at an inaccessible page or are exactly sized heap blocks, under page guards, AddressSanitizer and Miri.")
    two_builds(c, "c08")
    c.bkv(sanitized("address"), "c08", tag="c08/address sanitizer", env=SAN_ENV)
    together(*[lambda name=name, flags=flags, lens=lens: c.miri("c08/interpreted/" + name, "small", [lens], rustflags=flags, shards=16 if THOROUGH else 8) for name, flags, lens in MIRI_LEVELS],
             *[lambda name=name, flags=flags: c.miri("c08/interpreted kernels/" + name, "small_kern", rustflags=flags, shards=8) for name, flags, lens in MIRI_LEVELS[1:]])
    # The binding of the C code is safe Rust too. The interpreter runs it over stand-ins that write what the C code is seen to write.
    try:
        exe = harness("release", ("c_portable",))
    except BuildFailed as x:
        c.notes.append("the binding was not observed: %s" % str(x)[-300:])
        return
    rc, out, err, dt = run([exe, "cmask"], 60, env=clean_env())
    if rc == 0 and re.fullmatch(rb"\d+(,\d+)*\s*", out):
        c.samples.append("the C code initialises its state as %s (bytes written, not written, ...)" % out.decode().strip())
        c.miri("c08/interpreted binding", "small_binding", ["written=" + out.decode().strip()], features=("c_portable",), shards=32 if THOROUGH else 4, optional=True)
    else:
        c.notes.append("the C code's initialisation was not observed: %s" % (out + err)[-300:])


def c_builds(c, variants, configs, tag):
    import cbuild
    out, neon_broken = cbuild.build(variants, configs, os.path.join(BUILD, "c-" + tag))
    if neon_broken:
        c.notes.append("the NEON sources do not compile against the NEON header made for x86; they were not observed")
    return out


def C09(c):
    import cbuild
    c.rules.append("a case is one call of a C kernel or one split of one input fed to the C hasher, in one build (compiler, optimisation level, instruction set), compared with the specification, with guard bytes around all outputs; through the Rust binding as well.")
    variants = cbuild.PLAIN + cbuild.MORE if THOROUGH else cbuild.PLAIN[:3] + cbuild.MORE[6:7] + cbuild.PLAIN[4:5]
    libs = c_builds(c, variants, list(cbuild.CONFIGS), "plain")
    exe = harness("release", c_features())
    c.bkv(exe, "ckern", ["%s=%s" % (l, k) for l, (k, hs) in libs.items()])
    # every configuration in one build, the widest and the portable one in the others
    hs = [("%s/%s" % (l, k), so) for i, (l, (ks, h)) in enumerate(libs.items()) for k, so in h.items() if i == 0 or THOROUGH or (k in ("avx512" if HAS["avx512"] else "avx2", "portable"))]
    c.bkv(exe, "chash", ["%s=%s" % x for x in hs])
    c.bkv(exe, "cffi", tag="cffi/" + "+".join(c_features()))
    c.bkv(exe, "cdecl", tag="declared")
    others = [("c_portable",), ("c_detect",)]
    if HAS["sse41"]:
        others.append(("c_sse41",))
    if HAS["avx2"]:
        others.append(("c_avx2", "c_sse41"))
    if not THOROUGH:
        others = [("c_portable",), others[1 + SEED % (len(others) - 1)]]
    for f in others:
        c.bkv(harness("release", f), "cffi", tag="cffi/" + "+".join(f))
    try:
        e = harness("release", ("c_neon",), env={"CFLAGS": "-I " + cbuild.SHIM})
    except BuildFailed as x:
        c.notes.append("no NEON build of the binding: %s" % str(x)[-300:])
        e = None
    if e:
        c.bkv(e, "cffi", tag="cffi/neon")
        c.bkv(e, "cdecl", tag="declared/neon")


def san_env(label):
    import cbuild
    return dict(SAN_ENV, LD_PRELOAD=cbuild.preload(label), BKV_HEAP="1")


def C10(c):
    import cbuild
    c.rules.append("a case is one call of a C kernel or one history of the C hasher, with inputs and outputs that end or begin at an inaccessible page or are exactly sized heap blocks and a state object of the size the Rust binding provides (of the size the C code declares, with AddressSanitizer), in builds with AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer and in plain ones.")
    exe = harness("release", c_features())
    libs = c_builds(c, cbuild.SAN + cbuild.PLAIN[:1], list(cbuild.CONFIGS), "san")
    declared = cbuild.declared_state_size(os.path.join(BUILD, "c10-size"))
    for label, (k, hs) in libs.items():
        env = san_env(label) if label.endswith("asan") else {}
        if env and declared:
            env["BKV_STATE"] = str(declared)
        tier = TIER if THOROUGH else "quick"
        c.bkv(exe, "ckern", ["both", "%s=%s" % (label, k)], tag="kernels/" + label, env=env, tier=tier)
        h = ["%s/%s=%s" % (label, n, so) for n, so in hs.items()]
        c.bkv(exe, "chash", h, tag="hasher/" + label, env=env, tier="quick" if THOROUGH else "tiny")
        c.bkv(exe, "cdeep", h, tag="deep trees/" + label, env=env, tier="quick" if THOROUGH else "tiny")
    # the binding as cargo builds it
    c.bkv(exe, "cffi", tag="binding")
    size = re.search(r"\d+", str(c.counters.get("hasher/" + cbuild.PLAIN[0][0] + ".state_bytes", 0)))
    for n, drv in cbuild.msan_drivers(os.path.join(BUILD, "msan")).items():
        def one(k):
            rc, out, err, dt = run([drv, str(SEED * 100 + k), "6000" if THOROUGH else "600", size.group(0)], 600, env=clean_env(MSAN_OPTIONS="exitcode=66:halt_on_error=1"))
            err = err.decode(errors="replace")
            if rc == 0:
                return json.loads(out)
            m = re.search(r"(WARNING: MemorySanitizer|uninitialised|runtime error:|ERROR:)[^\n]*", err + out.decode(errors="replace"))
            if m or rc in (66, 1) or rc < 0:
                raise Violation("memory sanitizer, %s: exit %s: %s" % (n, rc, err[-1500:] or out[-500:]), {"cmd": [drv, SEED * 100 + k], "stderr": err[-5000:]})
            raise CheckError("%s ended with %s: %s" % (drv, rc, err[-1500:]))
        res = parallel([lambda k=k: one(k) for k in range(NPROC)])
        for r in res:
            for a, b in r.items():
                c.counters["memory sanitizer/%s.%s" % (n, a)] = c.counters.get("memory sanitizer/%s.%s" % (n, a), 0) + b
            c.evaluations += sum(r.values())
            c.distinct += sum(r.values())


def C11(c):
    import cbuild
    c.rules.append("a case is one call of a kernel of the 64-bit-word variant (Rust portable, C portable, SSE4.1, AVX2, AVX-512, NEON) with one combination of arguments, every output byte and the guards around it compared with one specification, which is pinned by BLAKE2b.")
    two_builds(c, "c11_rust")
    variants = cbuild.PLAIN + cbuild.MORE if THOROUGH else cbuild.PLAIN[:3]
    libs = c_builds(c, variants + cbuild.SAN[:2], ["portable"], "w64")
    exe = harness("release", c_features())
    c.bkv(exe, "ckern", ["w64"] + ["%s=%s" % (l, k) for l, (k, hs) in libs.items() if not l.endswith("asan")], tag="ckern64")
    c.bkv(exe, "cdecl", ["w64"], tag="declared")
    for l, (k, hs) in libs.items():
        if l.endswith("asan"):
            c.bkv(exe, "ckern", ["w64", "%s=%s" % (l, k)], tag="ckern64/" + l, env=san_env(l), tier="quick" if THOROUGH else "tiny")


def C12(c):
    import cli
    c.rules.append("a case is one run of the command-line tool with one set of inputs, options and way of supplying the data (path, link, pipe, FIFO, descriptor offset, odd system-call behaviour), its whole output compared with the specification.")
    cli.c12(c)


def C13(c):
    import cli
    c.rules.append("a case is one run of the command-line tool in which something is wrong (unreadable input, bad option or key, failing read or write), judged on exit status and on everything printed.")
    cli.c13(c)


def C14(c):
    c.rules.append("a case is one history of the reference implementation (mode, split, finalizations of one output length each), every output byte compared with the specification.")
    two_builds(c, "c14")
    c.bkv(harness("release"), "c14_long")


def C15(c):
    import pyimpl
    pyimpl.c15(c)


def C16(c):
    c.rules.append("a case is one copy between a scripted reader and a scripted writer (sizes, interruptions, errors, zero-length answers), the log of every call checked against the copying contract.")
    two_builds(c, "c16")


def C17(c):
    c.rules.append("a case is one digest value or pair of values, whose comparison, conversions, hex and debug forms were compared with the bytes.")
    two_builds(c, "c17")


def C18(c):
    c.rules.append("a case is one hasher or output object at one point of one history, whose plain and pretty debug text was compared with that of every other of the same type.")
    two_builds(c, "c18")


def C19(c):
    import cbuild
    c.rules.append("a case is one digest or output block at one real or virtual position beyond 32 bits (gigabytes really fed, or a hasher placed deep into a virtual input), compared with the specification.")
    libs = c_builds(c, cbuild.PLAIN[:2], list(cbuild.CONFIGS), "long")
    hs = ["%s/%s=%s" % (l, n, so) for l, (k, h) in libs.items() for n, so in h.items() if l == "gcc-O2" or n == "portable"]
    exe, chk = harness("release", c_features()), harness("chk", c_features())
    c.bkv(exe, "clong", hs[:1] if not THOROUGH else hs, tag="clong")
    for name, e in (("release", exe), ("checked", chk)):
        c.bkv(e, "cjump", tag="cjump/" + name)
        c.bkv(e, "cdeep", hs, tag="cdeep/" + name)


VALGRIND = ["valgrind", "--tool=memcheck", "--undef-value-errors=yes", "--leak-check=no", "-q", "--error-limit=no"]


def C20(c):
    import cbuild
    c.rules.append("a case is one operation with key and message (or the digests compared) marked secret, during which memcheck reported no branch and no address that depends on them; the results were compared with the specification.")
    env = {"BKV_NO_SIGNALS": "1", "BKV_THREADS": "1"}
    exe = harness("release", extra_flags="", name_suffix="")
    r, err = c.bkv(exe, "c20", ["control"], tag="control", env=env, wrap=VALGRIND)
    if not (r["counters"]["control_address"] and r["counters"]["control_branch"]):
        raise CheckError("the monitor does not see a secret-dependent branch or address")
    # memcheck does not know AVX-512
    configs = [k for k in cbuild.CONFIGS if k != "avx512"]
    libs = c_builds(c, [v for v in cbuild.PLAIN if v[0] in (("gcc-O2", "clang-O2", "gcc-O0", "clang-O3") if THOROUGH else ("gcc-O2", "clang-O2"))], configs, "ct")
    hs = ["%s/%s=%s" % (l, n, so) for l, (k, h) in libs.items() for n, so in h.items()]
    hs += ["%s/kernels=%s" % (l, k) for l, (k, h) in libs.items()]
    n = min(4, NPROC)
    jobs = [lambda: c.bkv(exe, "c20", tag="rust/release", env=env, wrap=VALGRIND), lambda: c.bkv(harness("chk"), "c20", tag="rust/checked", env=env, wrap=VALGRIND)]
    jobs += [lambda i=i: c.bkv(exe, "c20", ["conly"] + hs[i::n], tag="c/%d" % i, env=env, wrap=VALGRIND) for i in range(n)]
    parallel(jobs)
    # MemorySanitizer sees the same, and knows AVX-512 and the NEON model; secrets are marked uninitialised.
    for level in ("-O1", "-O2") + (("-O0", "-O3") if THOROUGH else ()):
        strict = set()
        drivers = cbuild.msan_drivers(os.path.join(BUILD, "ct" + level), level=level, more=("-DSECRET", "-mllvm", "-msan-dump-strict-instructions"), strict=strict)
        # what it does not follow it reports, whether or not an address or a branch is concerned
        unknown = sorted(i for i in strict if "gather" not in i and "scatter" not in i)
        env2 = clean_env(MSAN_OPTIONS="exitcode=66:halt_on_error=1")
        for what in ("branch", "address"):
            rc, out, err, dt = run([list(drivers.values())[0], what], 60, env=env2)
            if rc != 66:
                raise CheckError("the memory sanitizer does not see a secret-dependent %s" % what)
        def one(name, k):
            cmd = [drivers[name], str(SEED * 100 + k), "8000" if THOROUGH else "1500", "4096"]
            rc, out, err, dt = run(cmd, 600, env=env2)
            err = err.decode(errors="replace")
            if rc == 0:
                return name, json.loads(out)
            if rc == 66 and "MemorySanitizer" in err:
                if unknown:
                    c.notes.append("clang %s, %s: the memory sanitizer reports something, but does not know %s, so this is not judged" % (level, name, ", ".join(unknown)))
                    return name, {}
                raise Violation("clang %s, %s: control flow or an address depends on secret bytes: %s" % (level, name, err[-1500:]), {"cmd": cmd, "stderr": err[-5000:]})
            raise CheckError("%s ended with %s: %s" % (cmd, rc, err[-1500:]))
        for name, r in parallel([lambda n=n, k=k: one(n, k) for n in drivers for k in range(8 if THOROUGH else 3)]):
            for a, b in r.items():
                key = "secret inputs under the memory sanitizer/%s %s.%s" % (level, name, a)
                c.counters[key] = c.counters.get(key, 0) + b
            c.evaluations += r.get("updates", 0) + r.get("kernel_calls", 0)
            c.distinct += r.get("updates", 0) + r.get("kernel_calls", 0)


def C21(c):
    c.rules.append("a case is one hashing, splitting, extended-output or copying history or kernel call, run by the interpreter for a big-endian 64-bit and a little-endian 32-bit target, compared with the specification; the interpreter also reports undefined behaviour.")
    jobs = [("s390x-unknown-linux-gnu", "big-endian"), ("i686-unknown-linux-gnu", "32-bit")]
    if THOROUGH:
        jobs += [("aarch64-unknown-linux-gnu", "aarch64"), ("powerpc-unknown-linux-gnu", "32-bit big-endian")]
    together(*[lambda t=t, name=name: c.miri("c21/" + name, "small_all", target=t) for t, name in jobs],
             *[lambda t=t, name=name: c.miri("c21/far positions/" + name, "small_jump", target=t, hooked=True) for t, name in jobs])


def C22(c):
    c.rules.append("a case is one hashing history run in the interpreter on a CPU with exactly one set of features, where executing an instruction the CPU lacks is an error; the results were compared with the specification.")
    # each with everything else that does not bring the next level with it
    sets = [
        ("baseline", ""),
        ("no SSE4.1", "+ssse3,+sse4a,+popcnt,+lzcnt,+bmi1,+bmi2,+fxsr,+cmpxchg16b,+movbe,+adx,+rdrand,+rdseed,+tbm"),
        ("SSE4.1", "+sse4.1"),
        ("SSE4.2", "+sse4.2,+aes,+pclmulqdq,+sha,+gfni"),
        ("no AVX2", "+avx,+fma,+f16c,+xsave,+xsavec,+xsaveopt,+vpclmulqdq,+bmi1,+bmi2,+lzcnt,+popcnt,+adx,+sse4a"),
        ("AVX2", "+avx2"),
        ("AVX-512", "+avx2,+avx512f,+avx512vl,+avx512bw"),
    ]
    if THOROUGH:
        sets += [("SSSE3", "+ssse3"), ("SSE3", "+sse3"), ("AVX", "+avx"), ("AVX-512F", "+avx512f")]
    together(*[lambda name=name, s=s: c.miri("c22/" + name, "small", ["wide" if not THOROUGH else "simd"], rustflags="-C target-feature=" + s if s else "", shards=8) for name, s in sets])


def C23(c):
    import cli
    c.rules.append("a case is one measurement of heap allocations, stack depth or peak resident memory for one input or output length, judged against the smaller lengths of the same kind.")
    c.bkv(harness("release"), "c23", tag="c23/single-threaded")
    if THOROUGH:
        c.bkv(harness("chk"), "c23", tag="c23/checked", tier="quick")
    c.bkv(harness("release", ["rayon"]), "c23", tag="c23/threads")
    cli.c23(c)
