"""Runs /repo's Python implementation on the cases given on stdin (JSON) and
watches what it returns and whether it touches its arguments. No judgement on
values is made here except by comparison with the answers supplied."""
import array, json, mmap, sys, threading, traceback
sys.path.insert(0, sys.argv[1])
import baokeshed

FN = {0: lambda k, d, n: baokeshed.hash(d, n), 1: lambda k, d, n: baokeshed.keyed_hash(k, d, n), 2: lambda k, d, n: baokeshed.derive_key(k, d, n)}


def make(kind, data):
    """An object of that kind with that content, and a function that reads it back."""
    if kind == "bytes":
        return data, lambda o: bytes(o)
    if kind == "bytearray":
        return bytearray(data), lambda o: bytes(o)
    if kind == "memoryview":
        return memoryview(data), lambda o: bytes(o)
    if kind == "writable view":
        return memoryview(bytearray(data)), lambda o: bytes(o)
    if kind == "inner view":
        return memoryview(bytearray(b"\xaa" * 7 + data + b"\x55" * 9))[7:7 + len(data)], lambda o: bytes(o.obj[7:-9]) if o.obj[:7] == b"\xaa" * 7 and o.obj[-9:] == b"\x55" * 9 else b"surroundings changed"
    if kind == "array":
        return array.array("B", data), lambda o: o.tobytes()
    if kind == "subclass":
        return type("Bytes", (bytes,), {})(data), lambda o: bytes(o)
    if kind == "bytearray subclass":
        return type("Bytearray", (bytearray,), {})(data), lambda o: bytes(o)
    if kind == "mmap":
        if not data:
            return data, lambda o: bytes(o)
        m = mmap.mmap(-1, len(data))
        m[:] = data
        return m, lambda o: o[:]
    raise KeyError(kind)


def overwrite(o, old, new):
    """The owner of the object puts other content into it, if it can."""
    if new is None or old == new:
        return old
    try:
        if isinstance(o, array.array):
            o[:] = array.array("B", new)
        else:
            o[:] = new
    except TypeError:
        return old
    return new


def one(case):
    mode, key, data, n = case["mode"], bytes.fromhex(case["key"] or ""), bytes.fromhex(case["data"]), case["n"]
    want = bytes.fromhex(case["want"])
    k, kread = make(case["ktype"], key)
    d, dread = make(case["dtype"], data)
    for turn in range(case.get("turns", 1)):
        try:
            got = FN[mode](k, d, n)
        except Exception:
            return "raised: " + traceback.format_exc()[-600:]
        if len(got) != n or bytes(got) != want:
            g = bytes(got)
            at = next((i for i in range(min(len(g), n)) if g[i] != want[i]), min(len(g), n))
            return "call %d returned %d bytes, wrong from byte %d: got %s want %s" % (turn + 1, len(g), at, g[at:at + 16].hex(), want[at:at + 16].hex())
        if kread(k) != key:
            return "changed the key object"
        if dread(d) != data:
            return "changed the input object"
        # what was returned belongs to the caller
        if isinstance(got, bytearray) and n:
            got[0] ^= 0xFF
            got.extend(b"zz")
    # the same objects with other content: nothing may be remembered
    for which in ("data", "key"):
        if which + "2" not in case:
            continue
        new = bytes.fromhex(case[which + "2"])
        if which == "data":
            if overwrite(d, data, new) is data:
                continue
        elif overwrite(k, key, new) is key:
            continue
        want = bytes.fromhex(case["want_" + which + "2"])
        try:
            got = bytes(FN[mode](k, d, n))
        except Exception:
            return "raised after the %s object was given other content: %s" % (which, traceback.format_exc()[-600:])
        if got != want:
            return "after the %s object was given other content: got %s want %s" % (which, got[:16].hex(), want[:16].hex())
        if which == "data":
            overwrite(d, new, data)
            data = bytes(dread(d))
    return None


def subtree(case):
    """A subtree at a far position, if the functions for it are there."""
    try:
        key = baokeshed.words_from_bytes(bytes.fromhex(case["key"])) if case["mode"] else baokeshed.IV
        out = baokeshed.hash_recurse(bytes.fromhex(case["data"]), key, case["pos"], {0: 0, 1: baokeshed.KEYED_HASH, 2: baokeshed.DERIVE_KEY}[case["mode"]])
        return bytes(out.chaining_value()).hex()
    except Exception as e:
        return "unavailable: %r" % e


def main():
    job = json.load(sys.stdin)
    res = {"bad": [], "done": 0, "compressions": 0, "subtrees": {}}
    real = getattr(baokeshed, "compress", None)
    if real and job.get("count"):
        def counted(*a, **k):
            res["compressions"] += 1
            return real(*a, **k)
        baokeshed.compress = counted
    if job.get("threads"):
        res["done"] = len(job["cases"])
        lock = threading.Lock()
        it = iter(list(enumerate(job["cases"])))
        sys.setswitchinterval(1e-5)

        def go():
            while True:
                with lock:
                    x = next(it, None)
                if x is None:
                    return
                why = one(x[1])
                if why:
                    res["bad"].append([x[0], why])
        ts = [threading.Thread(target=go) for _ in range(job["threads"])]
        [t.start() for t in ts]
        [t.join() for t in ts]
    else:
        for i, c in enumerate(job["cases"]):
            if "pos" in c:
                res["subtrees"][str(i)] = subtree(c)
                continue
            why = one(c)
            res["done"] += 1
            if why:
                res["bad"].append([i, why])
                break
    json.dump(res, sys.stdout)


main()
