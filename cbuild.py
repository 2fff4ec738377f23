"""Compiles the C sources in many ways."""
import hashlib
from concurrent.futures import ThreadPoolExecutor
from lib import *

SHIM = os.path.join(VERIF, "csrc", "neonshim")
CONFIGS = {"portable": [], "sse41": ["SSE41"], "avx2": ["SSE41", "AVX2"], "avx512": ["SSE41", "AVX2", "AVX512"], "neon": ["NEON"]}
ISA_FLAGS = {"portable": [], "sse41": ["-msse4.1"], "avx2": ["-mavx2"], "avx512": ["-mavx512f", "-mavx512vl"], "neon": ["-I", SHIM]}


def isas():
    return [i for i in ISA_FLAGS if HAS.get(i, True)]


def compile_variant(label, cc, flags, configs, workdir, ldflags=()):
    """All kernels plus one shared object per hasher configuration. Returns (kernel .so, {config: .so})."""
    d = os.path.join(workdir, label)
    os.makedirs(d, exist_ok=True)
    base = [cc, "-std=c11", "-fPIC", "-g1", "-w"] + flags
    jobs, kobjs, mobjs = [], {}, {}
    for isa in isas():
        for w, src in (("32", "c/baokeshed_%s.c"), ("64", "c64/baokeshed64_%s.c")):
            o = os.path.join(d, "k%s_%s.o" % (w, isa))
            kobjs[(w, isa)] = o
            jobs.append((isa, base + ISA_FLAGS[isa] + ["-c", os.path.join(REPO, src % isa), "-o", o]))
    for c in configs:
        o = os.path.join(d, "main_%s.o" % c)
        mobjs[c] = o
        jobs.append((c, base + ["-DBAOKESHED_USE_%s=1" % x for x in CONFIGS[c]] + ["-c", os.path.join(REPO, "c/baokeshed.c"), "-o", o]))
    return d, base, jobs, kobjs, mobjs


def build(variants, configs, workdir, jobs=None):
    """variants: list of (label, cc, flags, ldflags). Returns {label: (kernels so, {config: so})}."""
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    configs = [c for c in configs if HAS.get(c, True)]
    plans = {v[0]: (v, compile_variant(v[0], v[1], list(v[2]), configs, workdir)) for v in variants}
    broken = {}

    def one(a):
        label, isa, cmd = a
        rc, out, err, dt = run(cmd, 300)
        return label, isa, rc, cmd, err.decode(errors="replace")
    todo = [(l, isa, cmd) for l, (v, p) in plans.items() for isa, cmd in p[2]]
    with ThreadPoolExecutor(jobs or NPROC) as ex:
        for label, isa, rc, cmd, err in ex.map(one, todo):
            if rc != 0:
                # NEON goes through our own header: failing to compile says nothing about the code.
                if isa == "neon":
                    broken[label, "neon"] = err
                    continue
                raise BuildFailed("%s\n%s" % (" ".join(cmd), err[-3000:]))
    links, out = [], {}
    for label, (v, (d, base, jobs_, kobjs, mobjs)) in plans.items():
        ld = list(v[3]) if len(v) > 3 else []
        neon_ok = (label, "neon") not in broken
        objs = [o for (w, isa), o in kobjs.items() if (neon_ok or isa != "neon") and os.path.exists(o)]
        kso = os.path.join(d, "kernels.so")
        links.append(base + ["-shared", "-Wl,-Bsymbolic", "-o", kso] + objs + ld)
        hs = {}
        for c, mo in mobjs.items():
            if c == "neon" and not neon_ok:
                continue
            so = os.path.join(d, "hasher_%s.so" % c)
            links.append(base + ["-shared", "-Wl,-Bsymbolic", "-o", so, mo] + [o for o in objs if "/k32_" in o] + ld)
            hs[c] = so
        out[label] = (kso, hs)
    def link(cmd):
        rc, o, err, dt = run(cmd, 300)
        if rc != 0:
            raise BuildFailed("%s\n%s" % (" ".join(cmd), err.decode(errors="replace")[-3000:]))
    with ThreadPoolExecutor(jobs or NPROC) as ex:
        list(ex.map(link, links))
    for (label, _), err in broken.items():
        log("NEON sources do not compile with the shim (%s): %s" % (label, err[-500:]))
    return out, bool(broken)


def msan_drivers(workdir, configs=("portable", "sse41", "avx2", "avx512", "neon"), level="-O1", more=(), strict=None):
    """One MSan-instrumented program per hasher configuration. In strict, if given, the instructions that MSan does not
    follow (it demands that what they are given is initialised) are collected."""
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    base = ["clang", "-std=c11", level, *more, "-g1", "-w", "-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-omit-frame-pointer", "-fno-sanitize-recover=all"]
    objs, jobs = [], []
    for isa in isas():
        for w, src in (("32", "c/baokeshed_%s.c"), ("64", "c64/baokeshed64_%s.c")):
            o = os.path.join(workdir, "k%s_%s.o" % (w, isa))
            jobs.append((isa, o, base + ISA_FLAGS[isa] + ["-c", os.path.join(REPO, src % isa), "-o", o]))
    d = os.path.join(workdir, "drive.o")
    jobs.append(("drive", d, base + ["-c", os.path.join(VERIF, "csrc", "msan_drive.c"), "-o", d]))
    def cc(j):
        rc, out, err, dt = run(j[2], 300)
        return j, rc, err.decode(errors="replace")
    neon = True
    with ThreadPoolExecutor(NPROC) as ex:
        for (isa, o, cmd), rc, err in ex.map(cc, jobs):
            if rc == 0:
                objs.append(o)
                if strict is not None:
                    strict.update(re.findall(r"^ZZZ call (llvm\.(?!lifetime|assume|dbg|experimental)\S+)", err, re.M))
            elif isa == "neon":
                neon = False
            else:
                raise BuildFailed("%s\n%s" % (" ".join(cmd), err[-3000:]))
    out = {}
    for c in configs:
        if not HAS.get(c, True) or (c == "neon" and not neon):
            continue
        exe = os.path.join(workdir, "drive_" + c)
        rc, o, err, dt = run(base + ["-DBAOKESHED_USE_%s=1" % x for x in CONFIGS[c]] + [os.path.join(REPO, "c/baokeshed.c")] + objs + ["-o", exe], 300)
        if rc != 0:
            raise BuildFailed(err.decode(errors="replace")[-3000:])
        out[c] = exe
    return out


PLAIN = [
    ("gcc-O2", "gcc", ["-O2"], []),
    ("clang-O2", "clang", ["-O2"], []),
    ("gcc-O0", "gcc", ["-O0"], []),
    ("gcc-O3", "gcc", ["-O3"], []),
    ("clang-O3", "clang", ["-O3"], []),
    ("clang-O0", "clang", ["-O0"], []),
]
MORE = [
    ("gcc-O1", "gcc", ["-O1"], []),
    ("gcc-Os", "gcc", ["-Os"], []),
    ("clang-O1", "clang", ["-O1"], []),
    ("clang-Oz", "clang", ["-Oz"], []),
    ("gcc-O2-native", "gcc", ["-O2", "-march=native"], []),
    ("clang-O2-native", "clang", ["-O2", "-march=native"], []),
    ("gcc-O2-ndebug", "gcc", ["-O2", "-DNDEBUG"], []),
    ("gcc-O3-lto", "gcc", ["-O3", "-flto"], []),
    ("clang-O2-popcnt", "clang", ["-O2", "-mpopcnt", "-msse4.2"], []),
]
SAN = [
    ("clang-asan", "clang", ["-O1", "-fsanitize=address,undefined", "-fstrict-flex-arrays=3", "-fno-sanitize-recover=all", "-shared-libasan", "-fno-omit-frame-pointer"], []),
    ("gcc-asan", "gcc", ["-O2", "-fsanitize=address,undefined", "-fstrict-flex-arrays=3", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], []),
]


def declared_state_size(workdir):
    """The size of the state object as the C code declares it, or None."""
    os.makedirs(workdir, exist_ok=True)
    src, exe = os.path.join(workdir, "size.c"), os.path.join(workdir, "size")
    open(src, "w").write('#include "%s"\n#include <stdio.h>\nint main(void) { printf("%%zu", sizeof(hasher)); return 0; }\n' % os.path.join(REPO, "c/baokeshed.c"))
    if run(["gcc", "-std=c11", "-w", "-O0", src, "-Wl,--unresolved-symbols=ignore-all", "-o", exe], 60)[0] != 0:
        return None
    rc, out, err, dt = run([exe], 60)
    # something that small does not declare its storage
    return int(out) if rc == 0 and out.isdigit() and int(out) >= 512 else None


def preload(label):
    cmd = ["clang", "-print-file-name=libclang_rt.asan-x86_64.so"] if label.startswith("clang") else ["gcc", "-print-file-name=libasan.so"]
    p = run(cmd, 60, check=True)[1].decode().strip()
    if not os.path.isfile(p):
        raise CheckError("no ASan runtime for " + label)
    return os.path.realpath(p)
