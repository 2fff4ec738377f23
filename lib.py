"""Shared machinery of the checks: building, running, verdicts, evidence."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"
THOROUGH = TIER == "thorough"
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
NPROC = os.cpu_count() or 4

os.environ["PATH"] = "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")


class CheckError(Exception):
    """The check could not reach a verdict. Never a violation."""


class BuildFailed(CheckError):
    pass


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cpu_flags():
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                return set(line.split(":")[1].split())
    except OSError:
        pass
    return set()


FLAGS = cpu_flags()
HAS = {"sse41": "sse4_1" in FLAGS, "avx2": "avx2" in FLAGS, "avx512": {"avx512f", "avx512vl"} <= FLAGS}


def repo_digest():
    """Content hash of everything in /repo that a build can depend on."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "__pycache__"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(p.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


_digest = None


def digest():
    global _digest
    if _digest is None:
        _digest = repo_digest()
    return _digest


def fresh_target(tdir):
    """Cargo goes by mtimes. Go by content: forget what was built from other sources."""
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, ".repo-digest")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != digest():
        for root, dirs, _ in os.walk(tdir):
            if os.path.basename(root) == ".fingerprint":
                for d in dirs:
                    if re.match(r"(baokeshed|reference_impl|baokeshed_bin|bkv)", d):
                        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                dirs[:] = []
        with open(stamp, "w") as f:
            f.write(digest())


def clean_env(**extra):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC", "MIRI")) and k not in ("CC", "CFLAGS", "RUSTUP_TOOLCHAIN")}
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0", HOME=os.environ.get("HOME", "/root"))
    e.update({k: str(v) for k, v in extra.items()})
    return e


def run(cmd, timeout, env=None, cwd=None, stdin=None, input=None, mem_gb=None, check=False):
    """Returns (returncode, stdout, stderr, seconds). A timeout is a CheckError."""
    def pre():
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=stdin if input is None else subprocess.PIPE,
                         env=env or clean_env(), cwd=cwd, preexec_fn=pre)
    try:
        out, err = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        raise CheckError("timeout after %d s: %s" % (timeout, " ".join(cmd)[:300]))
    rc = p.returncode
    dt = time.time() - t
    if check and rc != 0:
        raise CheckError("exit %s from %s\n%s" % (rc, " ".join(cmd)[:300], err.decode(errors="replace")[-3000:]))
    return rc, out, err, dt


def cargo_build(name, cargo_args, rustflags="", toolchain=STABLE, cwd=HARNESS, env=None, timeout=600):
    tdir = os.path.join(BUILD, name)
    fresh_target(tdir)
    e = clean_env(RUSTUP_TOOLCHAIN=toolchain, RUSTFLAGS=rustflags, **(env or {}))
    rc, out, err, dt = run(["cargo", "build", "--offline", "--target-dir", tdir] + cargo_args, timeout, env=e, cwd=cwd)
    if rc != 0:
        raise BuildFailed("cargo build %s failed:\n%s" % (name, err.decode(errors="replace")[-4000:]))
    log("built %s in %.1f s" % (name, dt))
    return tdir


def c_features():
    """The widest C feature set this CPU can run."""
    if HAS["avx512"]:
        return ["c_avx512", "c_avx2", "c_sse41"]
    if HAS["avx2"]:
        return ["c_avx2", "c_sse41"]
    if HAS["sse41"]:
        return ["c_sse41"]
    return ["c_portable"]


def harness(profile="release", features=(), hooked=True, extra_flags="", name_suffix="", toolchain=STABLE, target=None, build_std=False, env=None):
    """Builds the harness against /repo. If only the hooks stand in the way, builds without them."""
    feats = ",".join(features)
    args = ["--bin", "bkv"] + (["--profile", profile] if profile != "dev" else []) + (["--features", feats] if feats else [])
    if target:
        args += ["--target", target]
    if build_std:
        args += ["-Zbuild-std"]
    def attempt(h, kernels):
        name = "h-%s-%s%s%s%s" % (profile, "hook" if h else "plain", "" if kernels else "-nok", "-" + "_".join(features) if features else "", name_suffix)
        flags = ("--cfg baokeshed_verif " if h else "") + extra_flags
        tdir = cargo_build(name, args + ([] if kernels else ["--no-default-features"]), rustflags=flags.strip(), toolchain=toolchain, env=env)
        sub = [target] if target else []
        return os.path.join(tdir, *sub, "debug" if profile == "dev" else profile, "bkv")
    # The hooks and the undocumented kernel functions may not fit a changed
    # tree. The property can still be observed without them.
    tries = [(True, True), (True, False), (False, True), (False, False)] if hooked else [(False, True), (False, False)]
    for i, t in enumerate(tries):
        try:
            return attempt(*t)
        except BuildFailed as e:
            if i == len(tries) - 1:
                raise
            FALLBACKS.append("%s did not build with hooks=%s kernels=%s: %s" % (profile, t[0], t[1], str(e)[-400:]))
            log(FALLBACKS[-1])


FALLBACKS = []
HOST = "x86_64-unknown-linux-gnu"
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=66:detect_leaks=0:abort_on_error=0:handle_segv=1:handle_sigbus=1:detect_stack_use_after_return=0:allocator_may_return_null=0:print_legend=0",
    "UBSAN_OPTIONS": "exitcode=66:print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1:print_suppressions=0:suppressions=" + os.path.join(VERIF, "tsan.supp"),
    "BKV_HEAP": "1", "BKV_NO_SIGNALS": "1",
}


def sanitized(kind, features=(), hooked=True):
    """The harness and /repo's Rust code under ASan or TSan (nightly)."""
    return harness("release", features, extra_flags="-Zsanitizer=" + kind, name_suffix="-" + kind, toolchain=NIGHTLY, target=HOST,
                   build_std=kind == "thread", hooked=hooked)


def parallel(jobs, width=None):
    """Runs thunks; all of them finish before the first error is raised. A
    violation outranks a failure to reach a verdict."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(width or NPROC) as ex:
        futs = [ex.submit(j) for j in jobs]
    errs, res = [], []
    for f in futs:
        try:
            res.append(f.result())
        except (Violation, CheckError) as e:
            errs.append(e)
    for e in errs:
        if isinstance(e, Violation):
            raise e
    if errs:
        raise errs[0]
    return res


def together(*jobs):
    """Runs several groups of interpreted processes at once; SLOTS keeps the
    number of processes to that of the CPUs."""
    return parallel(list(jobs), len(jobs))


SLOTS = threading.BoundedSemaphore(NPROC)
SETUP = threading.Lock()
TALLY = threading.Lock()


def deque_race(err):
    """Is this Miri report about the slots of crossbeam-deque (see tsan.supp)?"""
    frames = re.findall(r"inside `([^\n]*)`|^\s*\d+: ([^\n]*)$", err, re.M)
    names = [a or b for a, b in frames]
    names = [n for n in names if not re.match(r"<?(std|core|alloc)::", n)]
    where = re.findall(r"-->\s*(\S+)", err)
    if names:
        return "crossbeam_deque::" in names[0] or "crossbeam_epoch::" in names[0]
    return bool(where) and "/crossbeam-" in where[0]


class Check:
    def __init__(self, pid, level="exploration"):
        self.id, self.level = pid, level
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = 0
        self.rules, self.samples, self.assumptions, self.runs = [], [], [], []
        self.counters = {}
        self.known = []
        self.violations = []
        self.notes = []

    def add(self, name, res, summing=False):
        with TALLY:
            self.tally(name, res, summing)

    def tally(self, name, res, summing):
        self.evaluations += res.get("evaluations", 0)
        self.distinct += res.get("distinct", 0)
        for k, v in res.get("counters", {}).items():
            k = name + "." + k
            self.counters[k] = self.counters.get(k, 0) + v if summing else v
        for s in res.get("samples", [])[:1 if summing else 4]:
            self.samples.append("%s: %s" % (name, s))
        self.notes += ["%s: %s" % (name, n) for n in res.get("notes", [])]

    def bkv(self, exe, cmd, args=(), tag=None, timeout=800, env=None, tier=None, wrap=()):
        """Runs one harness workload and judges how it ended."""
        tag = tag or cmd
        outp = os.path.join(BUILD, "out-%s-%s.json" % (self.id, re.sub(r"\W", "_", tag)))
        if os.path.exists(outp):
            os.remove(outp)
        full = list(wrap) + [exe, cmd, "--seed", str(SEED), "--tier", tier or TIER, "--out", outp] + list(args)
        rc, out, err, dt = run(full, timeout, env=clean_env(**(env or {})))
        err = err.decode(errors="replace")
        self.runs.append({"run": tag, "rc": rc, "s": round(dt, 1)})
        log("%s %s: rc %s in %.1f s" % (self.id, tag, rc, dt))
        if rc in (0, 1) and os.path.exists(outp):
            res = json.load(open(outp))
            self.add(tag, res)
            if res["violations"]:
                raise Violation("%s: %s" % (tag, res["violations"][0]), {"cmd": full, "violations": res["violations"]})
            if rc == 0:
                return res, err
        m = re.search(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|runtime error:|WARNING: MemorySanitizer)[^\n]*", err)
        if m:
            raise Violation("%s: %s" % (tag, err[m.start():m.start() + 1800]), {"cmd": full, "stderr": err[-6000:]})
        if rc == 66:
            raise Violation("%s: the code under test crashed: %s" % (tag, err[-1500:]), {"cmd": full, "stderr": err[-4000:]})
        if rc == 67:
            raise Violation("%s: a call made no progress: %s" % (tag, err[-1500:]), {"cmd": full, "stderr": err[-4000:]})
        if rc == 68 and re.search(r"FATAL signal (4|7|8|11) ", err):
            raise Violation("%s: the process crashed after calls into the code under test: %s" % (tag, err[-1500:]), {"cmd": full, "stderr": err[-4000:]})
        raise CheckError("%s ended with %s:\n%s" % (tag, rc, err[-3000:]))

    def miri(self, tag, cmd, args=(), shards=8, target=None, features=(), rustflags="", miriflags="", timeout=800, tier=None, seeds=None, width=None, hooked=False, optional=False):
        """The workload under Miri, in parallel shares (or once per scheduling seed)."""
        name = "miri" + ("-" + target.split("-")[0] if target else "") + ("-" + re.sub(r"\W", "", rustflags) if rustflags else "") + ("-" + "_".join(features) if features else "")
        if hooked:
            name, rustflags = name + "-hook", (rustflags + " --cfg baokeshed_verif").strip()
        tdir = os.path.join(BUILD, name)
        fresh_target(tdir)
        base = ["cargo", "miri", "run", "--offline", "-q", "--bin", "bkv", "--target-dir", tdir]
        if target:
            base += ["--target", target]
        if features:
            base += ["--features", ",".join(features)]

        def env(seed=None):
            fl = "-Zmiri-disable-isolation " + miriflags + (" -Zmiri-seed=%d" % seed if seed is not None else "")
            return clean_env(RUSTUP_TOOLCHAIN=NIGHTLY, RUSTFLAGS=rustflags, MIRIFLAGS=fl.strip())

        # setup and the build happen once, before the shares start
        t0 = time.time()
        for extra in ([], ["--no-default-features"]):
            with SETUP:
                rc, out, err, dt = run(base + extra + ["--", "nothing", "--out", "-"], timeout, env=env(), cwd=HARNESS)
            if rc == 0:
                base = base + extra
                break
            err = err.decode(errors="replace")
            if "could not compile" not in err and "error: cannot" not in err:
                break
        if rc != 0 and (hooked or optional) and "could not compile" in err:
            self.notes.append("%s: the %s not fit this code; not observed" % (tag, "hooks do" if hooked else "names of what is bound do"))
            return
        if rc != 0 and target and re.search(r"could not compile `baokeshed`", err if isinstance(err, str) else err.decode(errors="replace")):
            # the same sources compile for the host, or no check would run on them
            raise Violation("%s: the library no longer compiles for %s: %s" % (tag, target, err[max(err.find("\nerror"), 0):][:1500]), {"cmd": base, "stderr": err[-6000:]})
        if rc != 0:
            self.judge_miri(tag, rc, out, err if isinstance(err, str) else err.decode(errors="replace"), base)
        log("%s %s: built in %.1f s" % (self.id, tag, time.time() - t0))

        def one(i):
            a = ["--", cmd, "--seed", str(SEED), "--tier", tier or TIER, "--out", "-"] + list(args)
            seed = None
            if seeds is None:
                a += ["shard=%d/%d" % (i, shards)]
            else:
                seed = seeds[i]
            with SLOTS:
                rc, out, err, dt = run(base + a, timeout, env=env(seed), cwd=HARNESS)
            return self.judge_miri("%s/%s%d" % (tag, "seed" if seeds else "share", i if seeds is None else seed), rc, out, err.decode(errors="replace"), base + a, dt)
        n = shards if seeds is None else len(seeds)
        t0 = time.time()
        res = parallel([lambda i=i: one(i) for i in range(n)], width)
        self.runs.append({"run": tag, "interpreted_processes": n, "s": round(time.time() - t0, 1)})
        log("%s %s: %d interpreted processes in %.1f s" % (self.id, tag, n, time.time() - t0))
        for r in res:
            if r:
                self.add(tag, r, summing=True)

    def judge_miri(self, tag, rc, out, err, cmd, dt=0):
        m = re.search(rb"^\{.*\}$", out, re.M)
        res = json.loads(m.group(0)) if m else None
        if res and res["violations"]:
            raise Violation("%s: %s" % (tag, res["violations"][0]), {"cmd": cmd, "violations": res["violations"]})
        if rc == 0 and res:
            return res
        if "Data race detected" in err and deque_race(err):
            self.notes.append("%s: stopped at the documented race of crossbeam-deque" % tag)
            with TALLY:
                self.counters["interpreted runs stopped early"] = self.counters.get("interpreted runs stopped early", 0) + 1
            return None
        if "Undefined Behavior" in err or "memory leaked" in err or "deadlocked" in err:
            i = max(err.find("Undefined Behavior") - 20, 0)
            raise Violation("%s: %s" % (tag, err[i:i + 1500]), {"cmd": cmd, "stderr": err[-6000:]})
        if "unsupported operation" in err:
            self.notes.append("%s: the interpreter does not support an operation: %s" % (tag, err[-600:]))
            return None
        raise CheckError("%s ended with %s:\n%s" % (tag, rc, err[-3000:]))

    def evidence(self):
        os.makedirs(EVID, exist_ok=True)
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct,
            "rule": " ".join(self.rules),
            "samples": self.samples[:40] or ["none"],
            "observed": self.counters,
            "runs": self.runs,
        }
        self.notes += ["build: " + f for f in FALLBACKS]
        if self.notes:
            cov["notes"] = self.notes[:40]
        e = {"property": self.id, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
             "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.id + ".json"), "w") as f:
            json.dump(e, f, indent=1)

    def finish(self, fn):
        os.makedirs(BUILD, exist_ok=True)
        rc = 0
        try:
            fn(self)
            if self.evaluations == 0:
                raise CheckError("nothing was observed")
        except Violation as v:
            replay = os.path.join(EVID, "replay-%s.json" % self.id)
            os.makedirs(EVID, exist_ok=True)
            with open(replay, "w") as f:
                json.dump({"property": self.id, "seed": SEED, "tier": TIER, "what": v.what, "detail": v.replay}, f, indent=1, default=str)
            self.violations.append(v.what)
            log("VIOLATED %s: %s" % (self.id, v.what[:3000]))
            self.evidence()
            print("VIOLATION property=%s replay=%s" % (self.id, replay), flush=True)
            sys.exit(1)
        except CheckError as e:
            log("ERROR %s: no verdict: %s" % (self.id, e))
            self.evidence()
            sys.exit(2)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.id, k), flush=True)
        self.evidence()
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.id, self.evaluations, self.distinct, time.time() - self.t0), flush=True)
        sys.exit(rc)
