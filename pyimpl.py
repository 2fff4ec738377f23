"""C15: the Python implementation."""
import random
from cli import Oracle
from lib import *

KINDS = ["bytes", "bytes", "bytearray", "memoryview", "writable view", "inner view", "array", "subclass", "bytearray subclass", "mmap"]


def c15(c):
    r = random.Random("c15-%d" % SEED)
    orc = Oracle(harness("release"))
    cases = []

    def add(mode, length, n, dtype=None, ktype=None, content=None, turns=1):
        data = content if content is not None else r.choice([r.randbytes, r.randbytes, lambda k: bytes(k), lambda k: b"\xff" * k])(length)
        key = r.choice([r.randbytes(32), r.randbytes(32), r.randbytes(32), bytes(32), b"\xff" * 32])
        case = dict(mode=mode, key=key.hex() if mode else None, data=data.hex(), n=n, dtype=dtype or r.choice(KINDS), ktype=ktype or r.choice(KINDS[:-1]), turns=turns)
        case["q"] = orc.ask(mode, case["key"], n, data.hex() or "-")
        case["more"] = {}
        if length <= 4 * 2048 and turns > 1:
            # what the same objects are to hold later
            data2 = bytes([data[0] ^ 1]) + data[1:] if data and r.random() < .5 else r.randbytes(length)
            if data2 != data:
                case["data2"] = data2.hex()
                case["more"]["want_data2"] = orc.ask(mode, case["key"], n, data2.hex())
            if mode:
                j = r.randrange(32)
                case["key2"] = (key[:j] + bytes([key[j] ^ 0x40]) + key[j + 1:]).hex()
                case["more"]["want_key2"] = orc.ask(mode, case["key2"], n, data.hex() or "-")
        cases.append(case)
        return case
    N = 20 if THOROUGH else 3
    C = 2048
    # every length of the first chunks near block edges, every kind of object
    for l in sorted({b + d for b in range(0, 2 * C + 1, 64) for d in (-1, 0, 1)} | set(range(130)) | {C * k + d for k in range(1, 10) for d in (-1, 0, 1, 63, 64, 65)}):
        if l >= 0:
            add(r.randrange(3), l, 32)
    for kind in sorted(set(KINDS)):
        for mode in range(3):
            for l in (0, 1, 63, 64, 65, C, C + 1, 3 * C + 5, 4 * C):
                add(mode, l, r.choice([32, 32, 64, 100]), dtype=kind, ktype=kind if kind != "mmap" else "bytes", turns=2)
    # every output length
    for n in list(range(0, 300)) + [511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 20_001] + ([100_000] if THOROUGH else []):
        add(r.randrange(3), r.choice([0, 1, 64, 65, C, C + 1, 2 * C + 1]), n)
    # trees of every shape up to 40 chunks, then larger ones
    for chunks in range(1, 41):
        for d in r.sample([-1, 0, 1, -63, 64, -C + 1, 700], 2):
            add(r.randrange(3), max(0, chunks * C + d), 32)
    for l in [64 * C, 64 * C + 1, 100 * C + 17, 128 * C - 1, 129 * C + 1] * N:
        add(r.randrange(3), l, r.choice([32, 65]))
    # ten and more levels, complete and not
    for chunks in [257, 513, 1025, 1100, 2049] + ([3000, 4097, 5000, 8191, 8193] if THOROUGH else [r.randrange(1026, 2048)]):
        add(r.randrange(3), chunks * C + r.choice([0, 1, -1, 64, -700]), r.choice([32, 100]), dtype="bytes")
    # output positions beyond 16 bits
    for n in [65_536, 65_537 + r.randrange(2000), 64 * 2048 + 1, 140_000] + ([64 * 65_537] if THOROUGH else []):
        add(r.randrange(3), r.choice([0, 5, 64, C, C + 1]), n)
    for i in range(200 * N):
        add(r.randrange(3), int(2 ** r.uniform(0, 14)), r.choice([32, 32, 64, r.randrange(400)]), turns=r.choice([1, 1, 2, 3]))
    # carries: words that overflow in additions, all-ones blocks
    for i in range(60 * N):
        l = r.choice([64, 128, C, 2 * C])
        add(r.randrange(3), l, 64, content=b"".join(r.choice([b"\xff\xff\xff\xff", b"\0\0\0\x80", b"\x01\0\0\0", b"\0\0\0\0", r.randbytes(4)]) for _ in range(l // 4)))
    # subtrees at far positions
    subs = []
    for pos in [C, 2 * C, 4 * C, 64 * C] + [(1 << b) + d * C for b in (16, 31, 32, 33, 40, 48, 62, 63) for d in (-2, -1, 0, 1, 2) if (1 << b) + d * C >= 0]:
        for l in (1, 64, 65, C, C + 1, 4 * C - 3):
            if pos + l > 1 << 64:
                continue
            m = r.randrange(3)
            case = dict(mode=m, key=r.randbytes(32).hex() if m else None, data=r.randbytes(l).hex(), pos=pos)
            case["q"] = orc.ask("n%d" % m, case["key"], 0, case["data"], pos)
            subs.append(case)
    orc.solve()
    for k in cases + subs:
        k["want"] = orc[k["q"]]
        for name, q in k.get("more", {}).items():
            k[name] = orc[q]
        if "pos" in k:
            # leave only what the worker needs
            k["answer"] = k.pop("want")
    c.rules.append("a case is one call of a Python function with one mode, key, input, type of argument object and output length, whose result was compared with the specification and whose arguments were compared with their content before; distinct by all of these.")
    out = os.path.join(BUILD, "py")
    os.makedirs(out, exist_ok=True)

    def work(tag, batch, flags=(), **job):
        b = [{k: v for k, v in x.items() if k not in ("q", "answer", "more")} for x in batch]
        rc, so, se, dt = run([sys.executable, "-B", *flags, os.path.join(VERIF, "pyworker.py"), os.path.join(REPO, "python")], 700, env=clean_env(PYTHONDONTWRITEBYTECODE="1"),
                             input=json.dumps(dict(job, cases=b)).encode())
        err = se.decode(errors="replace")
        if rc != 0:
            if "Traceback" in err and "baokeshed.py" in err:
                raise Violation("python %s: importing or calling the implementation failed: %s" % (tag, err[-800:]), {"stderr": err[-3000:]})
            raise CheckError("python worker %s ended with %d: %s" % (tag, rc, err[-2000:]))
        res = json.loads(so)
        for i, why in res["bad"]:
            k = batch[i]
            raise Violation("python %s: mode %d, %d input bytes as %s, key as %s, %d output bytes: %s" % (
                tag, k["mode"], len(k["data"]) // 2, k["dtype"], k["ktype"], k["n"], why), {"case": {a: str(v)[:2000] for a, v in k.items()}, "why": why})
        return res
    r.shuffle(cases)
    # spread by work
    cases.sort(key=lambda k: -(len(k["data"]) + 64 * k["n"] // 32) * k["turns"])
    w = max(NPROC - 1, 1)
    jobs = [lambda i=i: work("batch", cases[i::w], count=True) for i in range(w)]
    small = [k for k in cases if len(k["data"]) < 6000 and k["n"] < 200]
    jobs.append(lambda: work("optimised", r.sample(small, 60), flags=("-OO",)))
    jobs.append(lambda: work("threads", r.sample(small, 100), threads=6))
    jobs.append(lambda: work("far subtrees", subs))
    res = parallel(jobs)
    c.evaluations += sum(x["done"] for x in res)
    c.distinct += len({k["q"] + k["dtype"] + k["ktype"] for k in cases})
    c.counters["python.compressions seen"] = sum(x["compressions"] for x in res)
    for k in sorted(set(KINDS)):
        c.counters["python.inputs given as " + k] = sum(x["dtype"] == k for x in cases)
    c.counters["python.output bytes compared"] = sum(x["n"] * x["turns"] for x in cases)
    c.counters["python.objects given other content"] = sum(bool(x["more"]) for x in cases)
    c.counters["python.input bytes"] = sum(len(x["data"]) // 2 * x["turns"] for x in cases)
    c.samples += ["mode %d, %d bytes as %s, output %d" % (k["mode"], len(k["data"]) // 2, k["dtype"], k["n"]) for k in r.sample(cases, 8)]
    # The far subtrees go through functions that are not documented. They are
    # judged only if those do what they seem to near the start.
    got = res[-1]["subtrees"]
    near = [i for i, k in enumerate(subs) if k["pos"] <= 64 * C]
    if all(got[str(i)] == subs[i]["answer"] for i in near):
        for i, k in enumerate(subs):
            if got[str(i)] != k["answer"]:
                raise Violation("python: the subtree of %d bytes at position %d is wrong: got %s want %s" % (len(k["data"]) // 2, k["pos"], got[str(i)], k["answer"]), {"case": k})
        c.evaluations += len(subs)
        c.distinct += len(subs)
        c.counters["python.subtrees at far positions"] = len(subs)
    else:
        c.notes.append("hash_recurse is not what it was: positions beyond 32 bits were not observed")
