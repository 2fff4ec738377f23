"""C12, C13: the command-line tool as a black box, watched through its exit
status and output while inputs, options and system calls misbehave."""
import errno, random, socket, stat, tempfile, termios, threading, time
from concurrent.futures import ThreadPoolExecutor
from lib import *

U64 = (1 << 64) - 1
PLAIN, KEYED, DERIVE = 0, 1, 2


def build_bins(which):
    """name -> path"""
    def one(name):
        extra, prof = {"release": (["--release"], "release"), "dev": ([], "debug"), "norayon": (["--release", "--no-default-features"], "release")}[name]
        t = cargo_build("bin-" + name, extra + ["--bin", "baokeshed"], cwd=os.path.join(REPO, "baokeshed_bin"))
        return name, os.path.join(t, prof, "baokeshed")
    return dict(parallel([lambda n=n: one(n) for n in which], 3))


def fault_shim():
    so = os.path.join(BUILD, "faultio.so")
    os.makedirs(BUILD, exist_ok=True)
    run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "csrc", "faultio.c")], 60, check=True)
    return so


class Oracle:
    """Collects queries, answers them all with one call of the harness."""
    def __init__(self, exe):
        self.exe, self.q, self.ans = exe, {}, {}

    def ask(self, mode, key, length, source, pos=0):
        if source.startswith("@"):
            source = "@" + os.fsencode(source[1:]).hex()
        k = "%s %s %d %d %s" % (mode, key or "-", pos, length, source)
        self.q[k] = None
        return k

    def solve(self):
        qs = [k for k in self.q if k not in self.ans]
        if not qs:
            return
        rc, out, err, dt = run([self.exe, "vectors"], 600, input=("\n".join(qs) + "\n").encode())
        lines = out.decode().split("\n")
        if rc != 0 or len(lines) < len(qs):
            raise CheckError("oracle failed: %s" % err.decode(errors="replace")[-1000:])
        self.ans.update(zip(qs, lines))

    def __getitem__(self, k):
        return self.ans[k]


class Dir:
    """A scratch directory that an unprivileged user may enter."""
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="bkv-cli-", dir=os.environ.get("TMPDIR", "/tmp"))
        os.chmod(self.d, 0o755)
        self.n = 0

    def path(self, name):
        return os.path.join(self.d, name)

    def file(self, data, name=None):
        self.n += 1
        p = self.path(name or "f%d" % self.n)
        with open(p, "wb") as f:
            f.write(data)
        os.chmod(p, 0o644)
        return p

    def close(self):
        for r, ds, fs in os.walk(self.d):
            for x in ds:
                try:
                    os.chmod(os.path.join(r, x), 0o755)
                except OSError:
                    pass
        shutil.rmtree(self.d, ignore_errors=True)


NOBODY = 65534
MOST = 32 << 20


def execute(exe, args, stdin=None, env=None, cwd=None, user=None, stdout=None, timeout=240, prefix=None, limits=None):
    """stdin: None (empty), ("file", path[, offset]), ("pipe", bytes, chunks, delay), ("dir", path),
    ("socket", bytes), ("gone", bytes): a file without a name any more, ("rw", path), or ("terminal", bytes):
    lines of text, then end of file.
    prefix: read only this many bytes of the output, then stop. Returns rc, out, err."""
    e = clean_env(**(env or {}))
    e["RUST_BACKTRACE"] = "0"
    opened = []

    def pre():
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limits:
            for k, v in limits.items():
                resource.setrlimit(k, (v, v))
        if user is not None:
            os.setgroups([])
            os.setgid(user)
            os.setuid(user)
    sin, feeder, mine, master = subprocess.DEVNULL, None, None, None
    if stdin:
        if stdin[0] == "pipe":
            sin = subprocess.PIPE
        elif stdin[0] == "socket":
            mine, other = socket.socketpair()
            sin = other.detach()
            opened.append(sin)
        elif stdin[0] == "terminal":
            master, sin = os.openpty()
            t = termios.tcgetattr(sin)
            t[3] &= ~termios.ECHO
            termios.tcsetattr(sin, termios.TCSANOW, t)
            opened.append(sin)
        elif stdin[0] == "gone":
            fd, name = tempfile.mkstemp(prefix="bkv-cli-")
            os.unlink(name)
            os.write(fd, stdin[1])
            os.lseek(fd, 0, os.SEEK_SET)
            opened.append(fd)
            sin = fd
        elif stdin[0] == "rw":
            sin = os.open(stdin[1], os.O_RDWR)
            opened.append(sin)
        else:
            fd = os.open(stdin[1], os.O_RDONLY)
            if len(stdin) > 2:
                os.lseek(fd, stdin[2], os.SEEK_SET)
            opened.append(fd)
            sin = fd
    p = subprocess.Popen([exe] + args, stdin=sin, stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, preexec_fn=pre)
    for fd in opened:
        os.close(fd)
    killer = threading.Timer(timeout, lambda: os.killpg(p.pid, signal.SIGKILL))
    killer.start()
    timed_out = [False]
    try:
        if stdin and stdin[0] == "pipe":
            data, chunks, delay = stdin[1:]

            def feed():
                pos, i = 0, 0
                try:
                    while pos < len(data):
                        n = chunks[i % len(chunks)]
                        i += 1
                        p.stdin.write(data[pos:pos + n])
                        p.stdin.flush()
                        pos += n
                        if delay:
                            time.sleep(delay)
                except (BrokenPipeError, OSError):
                    pass
                try:
                    p.stdin.close()
                except OSError:
                    pass
            feeder = threading.Thread(target=feed)
            feeder.start()
        if mine:
            def talk():
                try:
                    mine.sendall(stdin[1])
                    mine.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
            feeder = threading.Thread(target=talk)
            feeder.start()
        if master is not None:
            def typing():
                try:
                    for l in stdin[1].splitlines(True):
                        while l:
                            l = l[os.write(master, l):]
                    # it may be asked for more than once
                    for i in range(3):
                        os.write(master, b"\x04")
                except OSError:
                    pass
            feeder = threading.Thread(target=typing, daemon=True)
            feeder.start()
        errs = []
        et = threading.Thread(target=lambda: errs.append(p.stderr.read()))
        et.start()
        if stdout is not None:
            out = b""
        elif prefix is None:
            out, flood = b"", False
            while not flood:
                b = p.stdout.read(1 << 16)
                if not b:
                    break
                out += b
                flood = len(out) > MOST
            if flood:
                os.killpg(p.pid, signal.SIGKILL)
        else:
            out = b""
            while len(out) < prefix:
                b = p.stdout.read(min(1 << 16, prefix - len(out)))
                if not b:
                    break
                out += b
            if len(out) >= prefix:
                os.killpg(p.pid, signal.SIGKILL)
        rc = p.wait()
        if master is not None:
            feeder.join(10)
            os.close(master)
        elif feeder:
            feeder.join()
        if mine:
            mine.close()
        et.join()
        p.stderr.close()
        if p.stdout:
            p.stdout.close()
    finally:
        if killer.is_alive():
            killer.cancel()
        else:
            timed_out[0] = True
    if stdout is None and prefix is None and flood:
        raise Violation("the tool printed more than %d bytes: %s; it began with %r" % (MOST, [a[:200] for a in args], out[:200]), {"args": args})
    if timed_out[0]:
        raise Violation("the tool did not finish within %d s: %s" % (timeout, [a[:200] for a in args]), {"args": args, "seconds": timeout})
    return rc, out, errs[0]


def key_args(mode, key, r):
    if mode == PLAIN:
        return []
    name = "--key" if mode == KEYED else "--derive-key"
    return [name + "=" + key] if r.random() < 0.7 else [name, key]


def describe(case):
    return {k: (repr(v)[:300]) for k, v in case.items() if k not in ("judge",)}


class Runner:
    def __init__(self, c, tag, bins, orc):
        self.c, self.tag, self.bins, self.orc, self.cases = c, tag, bins, orc, []
        self.lock = threading.Lock()
        self.stats = {}

    def add(self, kind, args, judge, bin=None, **kw):
        self.cases.append(dict(kind=kind, args=args, judge=judge, bin=bin or list(self.bins)[len(self.cases) % len(self.bins)], kw=kw))

    def count(self, k, n=1):
        with self.lock:
            self.stats[k] = self.stats.get(k, 0) + n

    def go(self):
        self.orc.solve()

        def one(case):
            rc, out, err = execute(self.bins[case["bin"]], case["args"], **case["kw"])
            why = case["judge"](rc, out, err)
            self.count("runs")
            self.count("runs of kind " + case["kind"])
            self.count("exit status zero" if rc == 0 else "exit status not zero")
            self.count("bytes printed", len(out))
            if why:
                kw = {k: (v if not isinstance(v, (tuple, list)) else [x if not isinstance(x, bytes) else "%d bytes" % len(x) for x in v]) for k, v in case["kw"].items() if k != "stdout"}
                raise Violation("%s: %s; arguments %s, %s build, %s; exit %s, stdout %r, stderr %r" % (
                    case["kind"], why, [a if len(a) < 200 else a[:200] + "..." for a in case["args"]], case["bin"], kw, rc, out[:400], err[:300]),
                    {"args": case["args"], "kind": case["kind"], "setting": {k: str(v)[:500] for k, v in case["kw"].items()}, "rc": rc, "stdout": out[:2000].decode(errors="replace"), "stderr": err[:2000].decode(errors="replace"), "why": why})
            return True
        parallel([lambda k=k: one(k) for k in self.cases], NPROC * 2)
        n = len(self.cases)
        self.c.evaluations += n
        self.c.distinct += len({json.dumps(describe(k), default=str) + k["kind"] for k in self.cases})
        for k, v in self.stats.items():
            self.c.counters[self.tag + "." + k] = v
        for k in random.Random(SEED).sample(self.cases, min(8, n)):
            self.c.samples.append("%s: %s %s" % (self.tag, k["kind"], [a[:100] for a in k["args"]]))
        self.cases = []


def expect_lines(orc, items, extra_ok=None):
    """items: list of (query, name or None). Exactly these lines, exit 0."""
    def judge(rc, out, err):
        want = b"".join(orc[q].encode() + (b"  " + n if n is not None else b"") + b"\n" for q, n in items)
        if rc != 0:
            return "failed on good input"
        if out != want:
            return "printed the wrong thing, want %r" % want[:400]
    return judge


def lengths(r):
    x = r.random()
    if x < 0.35:
        return None
    if x < 0.7:
        return r.choice([0, 1, 2, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 1000])
    if x < 0.95:
        return r.randrange(0, 700)
    return r.randrange(1000, 200_000)


def len_args(r, n):
    if n is None:
        return []
    return ["--length=%d" % n] if r.random() < 0.7 else ["--length", str(n)]


SIZES = [0, 1, 2, 63, 64, 65, 127, 128, 129, 2047, 2048, 2049, 4095, 4096, 4097, 6144, 8191, 8192, 8193, 16383, 16384, 16385, 16384 * 2 + 1, 20480, 65535, 65536, 65537, 131072, 200_000]


def mix_args(r, groups):
    """Options may stand before, between or after the inputs."""
    groups = [g for g in groups if g]
    return groups


def c12(c):
    bins = build_bins(["release", "dev"] + (["norayon"] if THOROUGH else []))
    orc = Oracle(harness("release"))
    r = random.Random("c12-%d" % SEED)
    d = Dir()
    try:
        run_c12(c, bins, orc, r, d)
    finally:
        d.close()


def order(r, opts, inputs):
    """Options in random places around the inputs, whose order is kept."""
    res = [[i] for i in inputs]
    for o in opts:
        res.insert(r.randrange(len(res) + 1), o)
    return [a for g in res for a in g]


def run_c12(c, bins, orc, r, d):
    R = Runner(c, "cli", bins, orc)
    N = 4 if THOROUGH else 1

    def mk():
        mode = r.choice([PLAIN, PLAIN, KEYED, DERIVE])
        raw = bytes(r.randrange(256) for _ in range(32)) if r.random() < 0.8 else r.choice([bytes(32), b"\xff" * 32, bytes.fromhex("67e6096a85ae67bb72f36e3c3af54fa57f520e518c68059babd9831f19cde05b")])
        hexkey = raw.hex()
        shown = hexkey if r.random() < 0.7 else "".join(ch.upper() if r.random() < 0.5 else ch for ch in hexkey)
        return mode, hexkey, shown

    def opts(mode, shown, n):
        return [key_args(mode, shown, r), len_args(r, n)]

    def q(mode, hexkey, n, path):
        return orc.ask(mode, hexkey if mode else None, 32 if n is None else n, "@" + path)
    files = {}
    for s in SIZES + [1_000_003, 5 * (1 << 20) + 17]:
        files[s] = d.file(random.Random("f%d-%d" % (s, SEED)).randbytes(s))
    small = [s for s in files if s < 70_000]

    # one input, every way of giving it
    for rep in range(N):
        for s, p in files.items():
            for how in ("path", "relative", "stdin", "dash", "offset", "devstdin", "pipe", "fifo", "symlink", "absdot"):
                mode, hk, shown = mk()
                n = lengths(r)
                o = opts(mode, shown, n)
                env = {"RAYON_NUM_THREADS": r.choice([1, 2, 3, 8])} if r.random() < 0.4 else {}
                kw = dict(env=env)
                query = q(mode, hk, n, p)
                if how == "path":
                    args = order(r, o, [p])
                elif how == "absdot":
                    args = order(r, o, [os.path.join(d.d, ".", "..", os.path.basename(d.d), os.path.basename(p))])
                elif how == "relative":
                    args, kw["cwd"] = order(r, o, [os.path.basename(p)]), d.d
                elif how == "symlink":
                    l = d.path("link%d-%d" % (rep, s))
                    os.symlink(os.path.basename(p), l)
                    args = order(r, o, [l])
                elif how == "stdin":
                    args, kw["stdin"] = order(r, o, []), ("file", p)
                elif how == "dash":
                    args, kw["stdin"] = order(r, o, ["-"]), ("file", p)
                elif how == "devstdin":
                    args, kw["stdin"] = order(r, o, ["/dev/stdin"]), ("file", p)
                elif how == "offset":
                    off = r.randrange(s + 1)
                    rest = d.file(open(p, "rb").read()[off:])
                    query = q(mode, hk, n, rest)
                    args, kw["stdin"] = order(r, o, r.choice([[], ["-"]])), ("file", p, off)
                elif how == "pipe":
                    chunks = r.choice([[1 << 20], [2048], [2047, 2049], [4096], [1, 2, 3, 5, 1000], [r.randrange(1, 20_000) for _ in range(7)]] + ([[1], [7, 13]] if s < 5000 else []))
                    args, kw["stdin"] = order(r, o, r.choice([[], ["-"], ["/dev/stdin"], ["/proc/self/fd/0"]])), ("pipe", open(p, "rb").read(), chunks, 0.001 if s < 5000 and r.random() < 0.3 else 0)
                else:
                    ff = d.path("fifo%d-%d" % (rep, s))
                    os.mkfifo(ff)
                    data = open(p, "rb").read()

                    def feed(ff=ff, data=data, n=r.choice([1000, 2048, 1 << 16])):
                        try:
                            with open(ff, "wb", buffering=0) as f:
                                for i in range(0, len(data), n):
                                    f.write(data[i:i + n])
                        except OSError:
                            pass
                    args = order(r, o, [ff])
                    R.add("fifo", args, fifo_judge(orc, query), **kw)
                    R.cases[-1]["kw"]["stdin"] = None
                    th = threading.Thread(target=feed, daemon=True)
                    th.start()
                    continue
                R.add(how, args, expect_lines(orc, [(query, None)]), **kw)

    # several inputs: order, names, duplicates, standard input among them
    names = ["plain", "with space", " leading", "tab\there", "new\nline", "ünïcödé", "日本語.txt", "-lead".replace("-", "x-"), "quote'\"", "back\\slash", "a" * 200, "two  spaces", "%s%n", "deadbeef  x", "0" * 64, "*", "$HOME", "~", "#", "."]
    named = [d.file(random.Random(n + str(SEED)).randbytes(r.choice(small)), name="N" + n if n == "." else n) for n in names]
    for i in range(90 * N):
        mode, hk, shown = mk()
        n = lengths(r)
        k = r.choice([2, 2, 3, 4, 7, 20])
        picks = [r.choice(named + [files[s] for s in small]) for _ in range(k)]
        kw, items, args = {}, [], []
        dashes = 0
        if r.random() < 0.4:
            picks[r.randrange(k)] = "-"
            if r.random() < 0.3:
                picks[r.randrange(k)] = "-"
            src = files[r.choice(small)]
            kw["stdin"] = ("file", src) if r.random() < 0.5 else ("pipe", open(src, "rb").read(), [r.randrange(1, 5000)], 0)
        for p in picks:
            if p == "-":
                items.append((q(mode, hk, n, src if dashes == 0 else files[0]), b"-"))
                dashes += 1
                args.append("-")
            else:
                shown_name = p
                if kw.get("cwd") or r.random() < 0.0:
                    shown_name = os.path.basename(p)
                items.append((q(mode, hk, n, p), shown_name.encode()))
                args.append(shown_name)
        R.add("several inputs", order(r, opts(mode, shown, n), args), expect_lines(orc, items), **kw)
    for i in range(12 * N):
        # relative names, as typed
        picks = [r.choice(named) for _ in range(r.choice([1, 2, 5]))]
        picks = [os.path.basename(p) for p in picks]
        items = [(q(PLAIN, None, None, d.path(p)), p.encode() if len(picks) > 1 else None) for p in picks]
        R.add("relative names", picks, expect_lines(orc, items), cwd=d.d)
    dashed = ["-lead", "--key=00", "--length=5", "--", "--help", "-h"]
    for n in dashed:
        d.file(random.Random(n).randbytes(r.choice(small)), name=n)
    for i in range(12 * N):
        mode, hk, shown = mk()
        n = lengths(r)
        picks = [r.choice(dashed + names[:4]) for _ in range(r.choice([1, 2, 4]))]
        o = opts(mode, shown, n)
        r.shuffle(o)
        R.add("names after --", [a for g in o for a in g] + ["--"] + picks, expect_lines(orc, [(q(mode, hk, n, d.path(p)), p.encode() if len(picks) > 1 else None) for p in picks]), cwd=d.d)
    # standard input of other kinds
    for i in range(16 * N):
        mode, hk, shown = mk()
        n = lengths(r)
        p = files[r.choice(small)]
        data = open(p, "rb").read()
        args = r.choice([[], ["-"]])
        kind = r.choice(["socket", "gone", "rw"])
        R.add("standard input: " + kind, order(r, opts(mode, shown, n), args), expect_lines(orc, [(q(mode, hk, n, p), None)]), stdin=(kind, p if kind == "rw" else data))
    try:
        for fd in os.openpty():
            os.close(fd)
        terminals = 8 * N
    except OSError:
        terminals = 0
    for i in range(terminals):
        mode, hk, shown = mk()
        n = lengths(r)
        text = b"".join(bytes(r.randrange(32, 127) for _ in range(r.choice([0, 1, 50, 63, 700]))) + b"\n" for _ in range(r.choice([0, 1, 2, 5, 40])))
        R.add("standard input: terminal", order(r, opts(mode, shown, n), r.choice([[], ["-"]])), expect_lines(orc, [(q(mode, hk, n, d.file(text)), None)]), stdin=("terminal", text))
    # more inputs than the process may have open files
    for k in (80, 300):
        mode, hk, shown = mk()
        picks = [r.choice(named + [files[s] for s in small]) for _ in range(k)]
        R.add("few descriptors", order(r, opts(mode, shown, 33), picks), expect_lines(orc, [(q(mode, hk, 33, p), p.encode()) for p in picks]), limits={resource.RLIMIT_NOFILE: 32})
    # long names
    deep = d.d
    for k, part in enumerate(["p" * 100, "q" * 250] + ["r" * 240] * 13):
        deep = os.path.join(deep, part)
        os.mkdir(deep)
        if k in (0, 1, 4, 8, 14):
            p = os.path.join(deep, ("s" * 255)[:r.choice([255, 200, 1])])
            shutil.copy(files[r.choice(small)], p)
            mode, hk, shown = mk()
            n = lengths(r)
            R.add("long name", order(r, opts(mode, shown, n), [p]), expect_lines(orc, [(q(mode, hk, n, p), None)]))
            R.add("long name", order(r, opts(mode, shown, n), [p, files[65], p]), expect_lines(orc, [(q(mode, hk, n, x), x.encode()) for x in (p, files[65], p)]))
    # other spellings of names; only exactly "-" is standard input
    os.makedirs(d.path("sub"), exist_ok=True)
    for n in ["-", "sub/-", "sub/plain", "stdin", "sub/x"]:
        with open(d.path(n), "wb") as f:
            f.write(random.Random("spelled" + n).randbytes(r.choice(small) + 1))
    os.symlink("sub/x", d.path("link"))
    os.symlink("-", d.path("link-to-dash"))
    spelled = ["./-", "sub/-", ".//-", "sub/../-", "./plain", "sub/./plain", "sub//plain", "../" + os.path.basename(d.d) + "/-", d.path("-"), d.path("sub/-"), "link", "link-to-dash", "stdin", "./link", "/proc/self/cwd/-"]
    for i in range(3 * len(spelled) + 20 * N):
        mode, hk, shown = mk()
        n = lengths(r)
        picks = [spelled[i]] if i < len(spelled) else [r.choice(spelled + ["-"]) for _ in range(r.choice([1, 2, 3, 5]))]
        stdin = files[r.choice(small)]
        if picks.count("-") > 1:
            picks = ["-"] + [p for p in picks if p != "-"]
        items = [(q(mode, hk, n, stdin if p == "-" else d.path("-") if p == "/proc/self/cwd/-" else os.path.join(d.d, p)), p.encode() if len(picks) > 1 else None) for p in picks]
        R.add("spelled names", order(r, opts(mode, shown, n), picks), expect_lines(orc, items), cwd=d.d, stdin=("file", stdin))
    mode, hk, shown = mk()
    many = [r.choice(named + [files[s] for s in small]) for _ in range(600)]
    R.add("600 inputs", order(r, opts(mode, shown, 40), many), expect_lines(orc, [(q(mode, hk, 40, p), p.encode()) for p in many]))

    # special files whose size cannot be trusted
    for p in ["/dev/null", "/proc/version", "/proc/filesystems", "/proc/self/limits", "/sys/kernel/mm/transparent_hugepage/enabled", "/sys/devices/system/cpu/online", "/proc/cmdline"]:
        try:
            with open(p, "rb") as f:
                a = f.read()
            with open(p, "rb") as f:
                b = f.read()
        except OSError:
            continue
        if a != b:
            continue
        copy = d.file(a)
        c.counters["cli.special files"] = c.counters.get("cli.special files", 0) + 1
        for how in range(2):
            mode, hk, shown = mk()
            if p == "/proc/self/limits":
                continue
            R.add("special file", order(r, opts(mode, shown, None), [p]), special_judge(orc, q(mode, hk, None, copy), p, a))
            R.add("special file and another", order(r, opts(mode, shown, None), [p, files[2049]]), special_judge(orc, None, p, a, [(q(mode, hk, None, copy), p.encode()), (q(mode, hk, None, files[2049]), files[2049].encode())]))

    # every output length near the internal sizes, then long and enormous ones
    for n in list(range(0, 200)) + [1023, 1024, 1025, 4096, 65_535, 65_537, 300_001] + ([3_000_001] if THOROUGH else []):
        mode, hk, shown = mk()
        p = files[r.choice(small)]
        R.add("output length", order(r, [key_args(mode, shown, r), ["--length=%d" % n]], [p]), expect_lines(orc, [(q(mode, hk, n, p), None)]))
    for n in [1 << 30, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63) - 33, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, 3 << 62, U64 - 64, U64 - 1, U64]:
        for k in range(2):
            mode, hk, shown = mk()
            p = files[r.choice([0, 5 * (1 << 20) + 17, 65, 2049, 200_000]) if r.random() < 0.5 else r.choice(small)]
            pre = 300_000 if k == 0 else 3001
            qq = q(mode, hk, pre, p)
            args = order(r, [key_args(mode, shown, r), ["--length=%d" % n]], [p] if k else ["-"])
            R.add("enormous output", args, prefix_judge(orc, qq, pre), prefix=pre, **({} if k else {"stdin": ("file", p)}))
    # equivalent spellings
    for spell, n in [("007", 7), ("00000000000000000000000032", 32), ("+5", 5)]:
        R.add("spelled length", ["--length=" + spell, files[65]], either_judge(orc, q(PLAIN, None, n, files[65])))

    # system calls that behave oddly but do not fail
    shim = fault_shim()
    for i in range(150 * N):
        mode, hk, shown = mk()
        n = lengths(r)
        s = r.choice([x for x in files if x < 30_000])
        p = files[s]
        log_ = d.path("fio%d" % i)
        env = dict(LD_PRELOAD=shim, FIO_LOG=log_)
        steps = lambda: ",".join(r.choice(["i", "s1", "s2", "s7", "s63", "s64", "s65", "s2047", "s2048", "s2049", "s5000", "s16383", "n"]) for _ in range(r.randrange(1, 9)))
        env["FIO_READ"] = r.choice(["i,i,i,", "", ""]) + steps() + r.choice(["", ",!", ",s%d" % r.randrange(1, 3000)])
        if env["FIO_READ"].split(",")[-1] == "i":
            env["FIO_READ"] += ",!"
        if r.random() < 0.5:
            env["FIO_WRITE"] = ",".join(r.choice(["i", "s1", "s3", "s31", "s64", "n"]) for _ in range(r.randrange(1, 6))) + r.choice([",!", ",s%d" % r.randrange(1, 50)])
        kw = dict(env=env)
        if r.random() < 0.5:
            env["FIO_IN"] = "fd0"
            kw["stdin"] = ("file", p) if r.random() < 0.5 else ("pipe", open(p, "rb").read(), [r.randrange(1, 9000)], 0)
            args = order(r, opts(mode, shown, n), r.choice([[], ["-"]]))
        else:
            env["FIO_IN"] = p
            if r.random() < 0.85:
                env["FIO_MMAP"] = str(r.choice([errno.ENODEV, errno.ENOMEM, errno.EACCES, errno.EINVAL]))
            args = order(r, opts(mode, shown, n), [p])
        R.add("odd system calls", args, shim_ok_judge(R, orc, [(q(mode, hk, n, p), None)], log_), **kw)

    # a file and a stream beyond 4 GiB
    big = d.path("big")
    size = (1 << 32) + 70_001
    with open(big, "wb") as f:
        f.truncate(size)
        for off in (0, 1 << 20, (1 << 31) - 5, (1 << 32) - 3000, (1 << 32) + 60_000):
            f.seek(off)
            f.write(random.Random(off).randbytes(5000))
    mode, hk, shown = mk()
    mode = mode or KEYED
    R.add("beyond 4 GiB", key_args(mode, shown, r) + [big], expect_lines(orc, [(q(mode, hk, None, big), None)]), bin="release", timeout=300)
    R.add("beyond 4 GiB", key_args(mode, shown, r), expect_lines(orc, [(q(mode, hk, None, big), None)]), bin="release", stdin=("file", big), timeout=300)

    # names that are not UTF-8
    odd = os.path.join(d.d.encode(), b"caf\xe9")
    shutil.copy(files[65], odd)
    known_q = q(PLAIN, None, None, files[65])
    R.go()
    rc, out, err = execute(bins["release"], [odd])
    c.evaluations += 1
    if out == orc[known_q].encode() + b"\n" and rc == 0:
        pass
    elif rc not in (0,) and not re.search(rb"[0-9a-f]{64}", out):
        known(c, "cli-non-utf8-name", "the tool exits with %d instead of hashing a file whose name is not UTF-8" % rc)
    else:
        raise Violation("a file whose name is not UTF-8: exit %d, stdout %r" % (rc, out[:300]), {"args": [repr(odd)]})


def known(c, ident, what):
    """A recorded finding. Anything not in the file is a violation."""
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
        if l.startswith("known: property=%s id=%s " % (c.id, ident)):
            c.known.append("id=%s %s" % (ident, what))
            return
    raise Violation(what)


def fifo_judge(orc, query):
    return expect_lines(orc, [(query, None)])


def prefix_judge(orc, query, n):
    def judge(rc, out, err):
        want = orc[query].encode()
        if out[:n] != want[:n]:
            k = next((i for i in range(min(len(out), n)) if out[i:i + 1] != want[i:i + 1]), min(len(out), n))
            return "output differs from the specified stream at hex digit %d of the first %d (got %d digits)" % (k, n, len(out))
    return judge


def either_judge(orc, query):
    def judge(rc, out, err):
        if rc == 0 and out != orc[query].encode() + b"\n":
            return "accepted the length but printed the wrong thing, want %r" % orc[query]
        if rc != 0 and re.search(rb"^[0-9a-f]{8,}", out, re.M):
            return "printed a digest and failed"
    return judge


def special_judge(orc, query, path, content, items=None):
    """Files of the kernel may change under us: judge only if they did not."""
    plain = expect_lines(orc, items or [(query, None)])

    def judge(rc, out, err):
        why = plain(rc, out, err)
        if why:
            try:
                with open(path, "rb") as f:
                    if f.read() != content:
                        return None
            except OSError:
                return None
        return why
    return judge


def delivered(log_):
    try:
        return open(log_).read().split("\n")
    except OSError:
        return []


def shim_ok_judge(R, orc, items, log_):
    plain = expect_lines(orc, items)

    def judge(rc, out, err):
        ev = delivered(log_)
        for what in ("read short", "read error 4", "write short", "write error 4", "mmap error"):
            n = sum(e.startswith(what) for e in ev)
            if n:
                R.count("delivered: " + what, n)
        return plain(rc, out, err)
    return judge


# --------------------------------------------------------------------- C13

HEXLINE = re.compile(rb"^([0-9a-f]*)(  .*)?$")


def judge_mix(orc, items, length, R=None, log_=None):
    """items: (query or None, name) in order. Good ones are printed exactly and
    in order; nothing that could be a digest is printed for the others; the
    exit status is zero only if there are no bad ones."""
    def judge(rc, out, err):
        bad = [n for q, n in items if q is None]
        multi = len(items) > 1
        want = [orc[q].encode() + (b"  " + n if multi else b"") for q, n in items if q is not None]
        rest = out
        for w in want:
            # anything before the expected line must not be a digest
            i = 0 if rest.startswith(w + b"\n") else rest.find(b"\n" + w + b"\n") + 1
            if i == 0 and not rest.startswith(w + b"\n"):
                return "the line %r is missing or out of order" % w[:200]
            why = no_digest(rest[:i], length, bad)
            if why:
                return why
            rest = rest[i + len(w) + 1:]
        why = no_digest(rest, length, bad)
        if why:
            return why
        if bad and rc == 0:
            return "exit status zero although %r could not be read" % bad[0]
        if not bad and rc != 0:
            return "failed on good input"
        if rc < 0:
            return "killed by signal %d" % -rc
    return judge


def no_digest(text, length, bad):
    if length == 0:
        return None
    for l in text.split(b"\n"):
        if re.match(rb"^[0-9a-f]{%d}(  |$)" % min(2 * length, 60_000), l):
            return "a digest was printed for an input that could not be read: %r" % l[:200]
    return None


def judge_refused(length=32):
    """Nothing like a digest, and failure."""
    def judge(rc, out, err):
        if rc == 0:
            return "accepted"
        # an error message may repeat an argument; it goes on after it
        if re.search(rb"(^|\n)[0-9a-f]{%d}($|[^:0-9a-f])" % (2 * length), out):
            return "printed a digest"
        if rc < 0:
            return "killed by signal %d" % -rc
    return judge


def c13(c):
    bins = build_bins(["release", "dev"])
    orc = Oracle(harness("release"))
    r = random.Random("c13-%d" % SEED)
    d = Dir()
    try:
        run_c13(c, bins, orc, r, d)
    finally:
        d.close()


def run_c13(c, bins, orc, r, d):
    # an unprivileged user must be able to run the tools
    for k in list(bins):
        p = d.path("tool-" + k)
        shutil.copy(bins[k], p)
        os.chmod(p, 0o755)
        bins[k] = p
    R = Runner(c, "cli", bins, orc)
    N = 5 if THOROUGH else 1
    shim = d.path("faultio.so")
    shutil.copy(fault_shim(), shim)
    os.chmod(shim, 0o755)
    good = [d.file(random.Random("g%d-%d" % (s, SEED)).randbytes(s), name="good%d" % s) for s in (0, 1, 64, 65, 2048, 2049, 5000, 16385, 40_000)]
    KEY = "00112233445566778899aabbccddeeff102132435465768798a9bacbdcedfe0f"

    def q(p, n=32, mode=PLAIN):
        return orc.ask(mode, KEY if mode else None, n, "@" + p)
    # things that cannot be opened or read
    os.mkdir(d.path("adir"))
    os.mkdir(d.path("locked"))
    d.file(b"inside", name="locked/in")
    os.chmod(d.path("locked"), 0)
    d.file(b"unreadable content", name="secret")
    os.chmod(d.path("secret"), 0)
    os.symlink("nowhere", d.path("dangling"))
    os.symlink("loop", d.path("loop"))
    os.symlink("adir", d.path("dirlink"))
    s = socket.socket(socket.AF_UNIX)
    s.bind(d.path("sock"))
    bad = [d.path(x) for x in ("missing", "adir", "locked/in", "secret", "dangling", "loop", "dirlink", "sock", "good64/x", "adir/", "good64/")]
    bad += ["", "/proc/self/mem", "x" * 300, "/nonexistent/" + "y/" * 50, "/dev/nonexistent", d.path("missing") + "\n" + "a" * 64, "/proc/self/fd/999", "ab" * 32]

    def user():
        return NOBODY
    for b in bad:
        for mode in (PLAIN, KEYED):
            o = ["--key=" + KEY] if mode else []
            R.add("one bad input", o + [b], judge_mix(orc, [(None, b.encode())], 32), user=NOBODY, cwd=d.path("."))
            g = r.choice(good)
            for pair in ([(b, None), (g, q(g, 32, mode))], [(g, q(g, 32, mode)), (b, None)]):
                R.add("bad and good", o + [x for x, _ in pair], judge_mix(orc, [(qq, x.encode()) for x, qq in pair], 32), user=NOBODY, cwd=d.path("."))
    for i in range(150 * N):
        k = r.choice([2, 3, 5, 9])
        n = r.choice([32, 32, 64, 33, 200, 16])
        mode = r.choice([PLAIN, KEYED, DERIVE])
        picks = [r.choice(bad) if r.random() < 0.4 else r.choice(good) for _ in range(k)]
        items = [(q(p, n, mode) if p in good else None, p.encode()) for p in picks]
        o = [] if mode == PLAIN else [("--key=" if mode == KEYED else "--derive-key=") + KEY]
        R.add("mix of inputs", order(r, [o, ["--length=%d" % n]], picks), judge_mix(orc, items, n), user=NOBODY, cwd=d.path("."))
    # any number of failures is a failure
    for k in (2, 127, 128, 255, 256, 257, 511, 512, 513, 1024):
        for g in ([], [good[3]]):
            picks = [d.path("missing")] * k
            picks[r.randrange(k):0] = g
            R.add("many failures", picks, judge_mix(orc, [(q(p) if p in good else None, p.encode()) for p in picks], 32), user=NOBODY, cwd=d.path("."))
    # standard input that cannot be read
    R.add("directory as standard input", [], judge_mix(orc, [(None, b"-")], 32), stdin=("dir", d.path("adir")))
    R.add("directory as standard input", ["-"], judge_mix(orc, [(None, b"-")], 32), stdin=("dir", d.path("adir")))
    R.add("directory as standard input", [good[3], "-", good[4]], judge_mix(orc, [(q(good[3]), good[3].encode()), (None, b"-"), (q(good[4]), good[4].encode())], 32), stdin=("dir", d.path("adir")))

    # keys
    keys = []
    for n in list(range(0, 70)) + [96, 126, 127, 128, 129, 130, 192, 256, 1000]:
        if n != 64:
            keys.append((KEY * 20)[:n])
    for ch in ["g", "G", " ", "-", "x", "z", "_", ":", "\n", "\t", "é", "０", "/", "@", "`", "="]:
        for pos in (0, 1, 31, 32, 62, 63):
            keys.append(KEY[:pos] + ch + KEY[pos + 1:])
        keys.append(KEY + ch)
        keys.append(ch + KEY)
    keys += ["0x" + KEY, "0x" + KEY[2:], KEY + "00", "00" + KEY, KEY[:-2], KEY[:-1], KEY + "0", " " + KEY[1:], KEY[:-1] + " ", KEY + " ", "\"" + KEY + "\"", "é" * 32, "é" * 64, "key", KEY[:32], KEY + KEY, "/" + KEY[1:], "0" * 63 + "O"]
    bytewise = [KEY[i:i + 2] for i in range(0, 64, 2)]
    for sep in (":", " ", "-", "_", ",", "."):
        keys += [sep.join(bytewise), sep.join([KEY[:32], KEY[32:]]), sep.join(KEY[i:i + 8] for i in range(0, 64, 8)), sep.join(bytewise)[:64], KEY + sep]
    keys += ["0X" + KEY, "0X" + KEY[2:], "\\x" + KEY, "#" + KEY, "h" + KEY, KEY + "h", "hex:" + KEY, "x'" + KEY + "'", "+" + KEY, "+" + KEY[1:], KEY[:63] + "\u0660"]
    for k in keys:
        for opt in ("--key", "--derive-key"):
            form = r.choice(["eq", "two"]) if not k.startswith("-") else "eq"
            if "\n" in k:
                form = "two"
            a = [opt + "=" + k] if form == "eq" else [opt, k]
            how = r.randrange(3)
            if how == 0:
                R.add("bad key", a + [r.choice(good)], judge_refused())
            elif how == 1:
                R.add("bad key", a, judge_refused(), stdin=("pipe", b"some input", [4], 0))
            else:
                R.add("bad key", order(r, [a, ["--length=64"]], [r.choice(good), r.choice(good)]), judge_refused())
    # a good key is used, in every position, and the two kinds differ
    for i in range(20):
        g = r.choice(good)
        for mode, opt in ((KEYED, "--key"), (DERIVE, "--derive-key")):
            R.add("good key", order(r, [[opt + "=" + KEY]], [g]), expect_lines(orc, [(q(g, 32, mode), None)]))

    # the option parser takes an option whose value holds a newline for an input
    newline = []
    for k in (KEY + "\n", "\n" + KEY, KEY[:20] + "\n" + KEY[21:]):
        for opt in ("--key", "--derive-key"):
            a = opt + "=" + k
            for files in ([good[3]], [good[3], good[5]]):
                newline.append(([a] + files, judge_newline(orc, [(None, a.encode())] + [(q(f), f.encode()) for f in files], 32)))
            R.add("newline in a key", [a], judge_refused(), stdin=("pipe", b"some input", [4], 0))
    for v in ("5\n", "\n5", "5\n6"):
        a = "--length=" + v
        newline.append(([a, good[3]], judge_newline(orc, [(None, a.encode()), (q(good[3]), good[3].encode())], 32)))

    # options that make no sense
    g = good[4]
    for a in [["--key=" + KEY, "--derive-key=" + KEY], ["--derive-key=" + KEY, "--key=" + KEY], ["--key=" + KEY, "--derive-key=" + KEY[::-1]],
              ["--key=" + KEY, "--key=" + KEY], ["--key=" + KEY, "--key=" + KEY[::-1]], ["--derive-key=" + KEY, "--derive-key=" + KEY],
              ["--length=5", "--length=6"], ["--bogus"], ["--bogus=1"], ["-k", KEY], ["-z"], ["-l5"], ["--Length=5"], ["--keys=" + KEY], ["--derive=" + KEY + "x"],
              ["--length="], ["--length", ""], ["--length=  "], ["--length=\t"], ["--length=-1"], ["--length=abc"], ["--length=1.5"], ["--length=1e3"], ["--length=0x10"], ["--length= 5"], ["--length=5 "],
              ["--length=5x"], ["--length=18446744073709551616"], ["--length=18446744073709551648"], ["--length=36893488147419103264"], ["--length=99999999999999999999999"],
              ["--length=-18446744073709551584"], ["--length=3 2"], ["--length=32.0"], ["--length=٣٢"], ["--length=1_000"], ["--length=0b1"], ["--length=--"], ["--length=nan"], ["--length=inf"],
              ["--help=1"], ["--version=2"]]:
        R.add("bad option", a + [g], judge_refused(1))
        R.add("bad option", [g] + a, judge_refused(1))
        R.add("bad option", a, judge_refused(1), stdin=("pipe", b"data", [4], 0))
    for a in (["--key"], ["--derive-key"], ["--length"], [g, "--key"], [g, "--length"], ["--key=" + KEY, "--length"]):
        R.add("missing value", a, judge_refused(1), stdin=("pipe", b"data", [4], 0))

    # output that cannot be written
    outs = []
    if os.path.exists("/dev/full"):
        for a in ([g], [g, good[3]], ["--length=100000", g], ["--length=3000000", g], ["--key=" + KEY, g], []):
            fd = os.open("/dev/full", os.O_WRONLY)
            outs.append(fd)
            R.add("full device", a, judge_unwritten(), stdout=fd)
    for a in ([g], [g, good[3]], ["--length=200000", g], ["--length=18446744073709551615", g], []):
        rd, wr = os.pipe()
        os.close(rd)
        outs.append(wr)
        R.add("reader gone", a, judge_unwritten(), stdout=wr)
    for a, lim in (([g], 10), ([g], 64), ([g, good[3]], 70), (["--length=5000", g], 9_999), (["--length=5000", g], 10_000), (["--length=70000", g], 65_536)):
        fd = os.open(d.path("lim%d" % len(outs)), os.O_WRONLY | os.O_CREAT, 0o644)
        outs.append(fd)
        R.add("file size limit", a, judge_unwritten(), stdout=fd, limits={resource.RLIMIT_FSIZE: lim})
    for i in range(60 * N):
        n = r.choice([32, 32, 64, 1000, 20_000])
        picks = [r.choice(good) for _ in range(r.choice([1, 1, 2, 4]))]
        at = r.randrange(0, 12)
        e = r.choice([errno.ENOSPC, errno.EIO, errno.EPIPE, errno.EDQUOT, errno.EFBIG])
        log_ = d.path("w%d" % i)
        env = dict(LD_PRELOAD=shim, FIO_LOG=log_, FIO_WRITE=",".join([r.choice(["n", "n", "i", "s5"]) for _ in range(at)] + ["e%d" % e] + r.choice([[], ["!"]])))
        R.add("failing write", ["--length=%d" % n] + picks, judge_write_fault(R, orc, [(q(p, n), p.encode() if len(picks) > 1 else None) for p in picks], log_), env=env)

    # reads that fail part of the way
    for i in range(150 * N):
        n = r.choice([32, 32, 32, 64, 100])
        k = r.choice([1, 1, 2, 3])
        picks = [r.choice(good[1:]) for _ in range(k)]
        victim = r.randrange(k)
        stdin = None
        e = r.choice([errno.EIO, errno.EISDIR, errno.EINVAL, errno.EFAULT, errno.EAGAIN, errno.ECONNRESET, errno.EPERM, errno.ENXIO, errno.ESTALE, errno.EBADMSG])
        log_ = d.path("r%d" % i)
        steps = [r.choice(["n", "i", "s1", "s64", "s2048", "s1000"]) for _ in range(r.randrange(0, 6))]
        env = dict(LD_PRELOAD=shim, FIO_LOG=log_, FIO_READ=",".join(steps + ["e%d" % e] + r.choice([[], ["!"]])))
        names = list(picks)
        if r.random() < 0.4:
            names[victim] = "-"
            env["FIO_IN"] = "fd0"
            stdin = ("file", picks[victim]) if r.random() < 0.5 else ("pipe", open(picks[victim], "rb").read(), [3000], 0)
            if k == 1 and r.random() < 0.5:
                names = []
        else:
            env["FIO_IN"] = picks[victim]
            env["FIO_MMAP"] = str(errno.ENODEV)
        qs = [(q(p, n), (names[j] if names else "-").encode()) for j, p in enumerate(picks)]
        R.add("failing read", ["--length=%d" % n] + names, judge_read_fault(R, orc, qs, picks, picks[victim] if names and names[victim] != "-" else None, victim, n, log_), env=env, stdin=stdin)
    try:
        R.go()
    finally:
        for fd in outs:
            os.close(fd)
        s.close()
    hit = []
    for a, judge in newline:
        rc, out, err = execute(bins["release"], a)
        c.evaluations += 1
        c.distinct += 1
        why = judge(rc, out, err)
        if why == "taken for an input":
            hit.append(a)
        elif why:
            raise Violation("newline in an option value: %s; arguments %s; exit %s, stdout %r, stderr %r" % (why, a, rc, out[:400], err[:300]), {"args": a})
    if hit:
        known(c, "cli-newline-in-option", "an option value that contains a newline is taken for the name of an input, so that the other inputs are hashed without it (%d of %d command lines; the exit status is not zero)" % (len(hit), len(newline)))


def judge_newline(orc, items, length):
    """Refused as a whole, or exactly the recorded behaviour."""
    def judge(rc, out, err):
        if judge_refused(length)(rc, out, err) is None:
            return None
        if judge_mix(orc, items, length)(rc, out, err) is None:
            return "taken for an input"
        return "neither refused nor reported as an input"
    return judge


def judge_unwritten():
    def judge(rc, out, err):
        if rc == 0:
            return "exit status zero although the digest could not be written"
    return judge


def judge_write_fault(R, orc, items, log_):
    plain = expect_lines(orc, items)

    def judge(rc, out, err):
        ev = [e for e in delivered(log_) if e.startswith("write error") and e != "write error 4"]
        if ev:
            R.count("delivered: write failure")
            want = b"".join(orc[q].encode() + (b"  " + n if n is not None else b"") + b"\n" for q, n in items)
            if rc == 0:
                return "exit status zero although a write failed (%s)" % ev[0]
            return None
        return plain(rc, out, err)
    return judge


def judge_read_fault(R, orc, qs, picks, victim_path, victim, n, log_):
    def judge(rc, out, err):
        ev = [e for e in delivered(log_) if e.startswith("read error") and e != "read error 4"]
        if not ev:
            return judge_mix(orc, qs, n)(rc, out, err)
        R.count("delivered: read failure")
        # the same file may be among the inputs more than once; whichever of
        # them was hit, at least one input failed
        items = [(None if j == victim else qs[j][0], qs[j][1]) for j in range(len(qs))]
        same = [j for j in range(len(qs)) if victim_path is not None and picks[j] == victim_path]
        if len(same) > 1:
            if rc == 0:
                return "exit status zero although a read failed (%s)" % ev[0]
            return None
        return judge_mix(orc, items, n)(rc, out, err)
    return judge


# --------------------------------------------------------------------- C23

def c23(c):
    """Peak resident memory of the tool, as the kernel accounts for it."""
    exe = build_bins(["release"])["release"]
    orc = Oracle(harness("release"))

    def feed(args, total):
        """Returns peak KiB, the output, and the status."""
        p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=clean_env(RAYON_NUM_THREADS=4))
        blk, left = bytes(1 << 20), total
        while left:
            n = min(left, len(blk))
            p.stdin.write(blk[:n])
            left -= n
        p.stdin.close()
        out = p.stdout.read()
        _, st, ru = os.wait4(p.pid, 0)
        p.returncode = 0
        return ru.ru_maxrss, out, st

    def drain(n):
        p = subprocess.Popen([exe, "--length=%d" % n], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=clean_env())
        got, tail = 0, b""
        h = hashlib.sha256()
        while True:
            b = p.stdout.read(1 << 20)
            if not b:
                break
            got += len(b)
            h.update(b)
        _, st, ru = os.wait4(p.pid, 0)
        p.returncode = 0
        return ru.ru_maxrss, got, st
    def fifo(n):
        """The same through a named pipe."""
        f = os.path.join(BUILD, "fifo%d" % n)
        if os.path.lexists(f):
            os.remove(f)
        os.mkfifo(f)
        p = subprocess.Popen([exe, f], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=clean_env(RAYON_NUM_THREADS=4))
        gone = threading.Timer(600, p.kill)
        gone.start()
        fd = None
        while fd is None:
            try:
                fd = os.open(f, os.O_WRONLY | os.O_NONBLOCK)
            except OSError as e:
                if p.poll() is not None:
                    raise Violation("the tool ended with %s before it read the named pipe" % p.returncode)
                time.sleep(0.01)
        os.set_blocking(fd, True)
        blk, left = bytes(1 << 20), n
        try:
            while left:
                left -= os.write(fd, blk[:min(left, len(blk))])
        except BrokenPipeError:
            pass
        os.close(fd)
        out = p.stdout.read()
        _, st, ru = os.wait4(p.pid, 0)
        p.returncode = 0
        gone.cancel()
        os.remove(f)
        return ru.ru_maxrss, out, st
    G = 1 << 30
    runs = [("default", []), ("dash", ["-"]), ("device name", ["/dev/stdin"])]
    sizes = [1 << 20, 64 << 20, 6 * G if THOROUGH else G]
    base = {}
    jobs = [(k, a, n) for k, a in runs for n in (sizes if k == "default" or THOROUGH else sizes[:2])]
    jobs += [("named pipe", None, n) for n in (sizes if THOROUGH else sizes[:1] + [200 << 20])]
    sizes = sorted({n for _, _, n in jobs})
    big = os.path.join(BUILD, "zeros")
    qs = {}
    for n in sizes:
        f = big + str(n)
        with open(f, "wb") as fh:
            fh.truncate(n)
        qs[n] = orc.ask(PLAIN, None, 32, "@" + f)
    orc.solve()
    for n in sizes:
        os.remove(big + str(n))
    res = parallel([lambda j=j: (j, fifo(j[2]) if j[1] is None else feed(j[1], j[2])) for j in jobs], 4)
    for (k, a, n), (rss, out, st) in res:
        c.evaluations += 1
        c.distinct += 1
        c.counters["cli.peak KiB, %s, %d MiB piped" % (k, n >> 20)] = rss
        want = orc[qs[n]].encode() + b"\n"
        if st != 0 or out != want:
            raise Violation("the tool fed %d bytes through a pipe (%s): status %d, stdout %r, want %r" % (n, k, st, out[:200], want), {"args": a})
        if rss > 96 << 10 or n > sizes[0] and rss > 2 * c.counters["cli.peak KiB, %s, %d MiB piped" % (k, sizes[0] >> 20)] + 16384:
            raise Violation("the tool's peak memory is %d KiB for %d bytes through a pipe (%s)" % (rss, n, k), {"args": a or [k], "peaks": {x: y for x, y in c.counters.items() if "peak" in x}})
    outs = [1000, 1 << 20, 40 << 20] + ([1 << 30] if THOROUGH else [])
    res = parallel([lambda n=n: (n, drain(n)) for n in outs], 4)
    for n, (rss, got, st) in res:
        c.evaluations += 1
        c.distinct += 1
        c.counters["cli.peak KiB, %d output bytes" % n] = rss
        if st != 0 or got != 2 * n + 1:
            raise Violation("the tool printed %d characters for --length=%d, status %d" % (got, n, st), {"length": n})
        if rss > 96 << 10 or rss > 2 * c.counters["cli.peak KiB, %d output bytes" % outs[0]] + 16384:
            raise Violation("the tool's peak memory is %d KiB for --length=%d" % (rss, n), {"length": n})
