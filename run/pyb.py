"""Scenarios for the Python module, executed by a separate interpreter (pydrive.py) and compared with the model."""
import copy, json, os, shutil, struct, subprocess, tempfile

RULE = ("random sequences of calls on the built Python module (all constructors, insertion and query of text and bytes, union, common entries, accessors, "
        "dumps/loads/save/load, saving over longer files, attached data up to 5 MB, dumps of several MB, long keys, any count, invalid parameters, damaged dumps), each result compared with the reference model; a case is distinct if its call sequence is new")
BEYOND = ["the PyO3 binding layer (argument conversion, exceptions as the interpreter sees them) is compared on random scenarios only (bounded)"]
HERE = os.path.dirname(os.path.abspath(__file__))


def bits(p):
    return "%x" % struct.unpack("<Q", struct.pack("<d", p))[0]


def key(r):
    k = r.randrange(12)
    if k == 0:
        return ""
    if k == 1:
        return r.choice(["é", "日本語", "a\x00b", "\x00", " ", "\n", "\U0001f600", "ÿ", "x" * 5000, "a\x00", "a", "z\x00\x00", "z", " z ", "Z", "\r\n", "x" * 70000 + str(r.randrange(3)), "é" * 33000 + str(r.randrange(3))])
    if k < 7:
        return "k%d" % r.randrange(12)
    return "".join(r.choice("abcdefgh0123") for _ in range(r.choice([1, 5, 7, 8, 9, 16, 33])))


def case(prop, r):
    steps = []
    shared = (r.choice([1, 2]), r.choice([3, 50, 400]), r.choice([0.1, 0.01, 0.001]), r.choice([0, 1, 2, 3]))
    if r.randrange(100) == 0:
        shared = (shared[0], r.choice([300000, 900000]), 0.001, r.choice([0, 3]))
    nslots = r.choice([1, 2, 3]) if shared[1] < 1000 else 1
    for s in range(nslots):
        steps.append(make(r, s, shared))
    for _ in range(r.choice([3, 8, 20, 40]) if shared[1] < 1000 else 4):
        s = r.randrange(nslots)
        k = r.randrange(26)
        if k < 8:
            steps.append(["ins", s, r.choice(["bytes", "str"]), key(r)])
        elif k < 13:
            steps.append(["qry", s, r.choice(["bytes", "str"]), key(r)])
        elif k == 13:
            steps.append(["rawins", s, bytes(r.randrange(256) for _ in range(r.choice([1, 8, 9, 20]))).hex()])
        elif k == 14:
            steps.append(["uni", s, r.randrange(nslots)])
        elif k == 15:
            steps.append(["cmn", s, r.randrange(nslots)])
        elif k == 16:
            steps.append(["dumps", s])
        elif k == 17:
            steps.append([r.choice(["reload", "refile"]), s, r.choice([0, 0, 1, 5000])])
        elif k == 18:
            steps.append(["damage", s, r.choice(["cut", "cuthead", "version", "opt", "data", "empty"]), r.randrange(10 ** 6)])
            if steps[-1][2] == "data":
                steps[-1][3] %= 250
        elif k == 19:
            steps.append(make(r, s, shared))
        elif k == 20:
            steps.append(["fill", s, r.choice([2, 5, 60]), r.randrange(1000)])
        elif k == 21:
            steps.append(["nofile", s])
        elif k == 22:
            steps.append(["count", s, r.choice([0, 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 7, 2 ** 63, 2 ** 64 - 1])])
        elif k == 23:
            steps.append(["damage", s, "data", r.choice([255, 300, 4000, 65534, 65535, 65536, 70000] if r.randrange(60) else [1 << 20, 3 << 20, 5 << 20]) + r.randrange(2)])
            if steps[-1][3] > 10 ** 6:
                # that much only once
                steps += [[r.choice(["reload", "refile"]), s, 0], ["qry", s, "str", key(r)], make(r, s, shared)]
        else:
            steps.append(["info", s])
    return steps


def make(r, s, shared):
    v, cap, p, o = shared
    k = r.randrange(10)
    if k < 2:
        return ["new", s, r.choice([0, 1, 2, 10, cap]), p]
    if k < 4:
        return ["version", s, r.choice([v, v, 1, 2]), cap, p]
    if k < 8:
        return ["params", s, v, cap, p, o]
    if k == 8:
        return ["version", s, r.choice([0, 3, 200]), cap, p]
    return r.choice([["new", s, cap, 0.0], ["new", s, cap, 1.5], ["params", s, v, cap, p, r.choice([4, 99])], ["version", s, 1, cap, -1.0], ["params", s, 2, cap, "nan", 0],
                     ["params", s, 9, cap, p, 1], ["new", s, cap, 1.0], ["version", s, r.choice([1, 2]), cap, 1.0]])


def smaller(c):
    for n in (len(c) // 2, len(c) // 4):
        if n > 1:
            for i in range(0, len(c), n):
                yield c[:i] + c[i + n:]
    for i in range(len(c) - 1, -1, -1):
        yield c[:i] + c[i + 1:]


def show(c):
    return "; ".join(" ".join(str(x)[:20] for x in s) for s in c)[:400]


class Driver:
    def __init__(self, bindir, cwd):
        shutil.copy(os.path.join(bindir, "libpoppy.so"), os.path.join(cwd, "poppy.so"))
        e = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0", "HOME": cwd, "LANG": "C.UTF-8", "PYTHONPATH": cwd, "PYTHONDONTWRITEBYTECODE": "1"}
        self.p = subprocess.Popen(["/usr/bin/python3", os.path.join(HERE, "pydrive.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                  cwd=cwd, env=e)

    def ask(self, *a):
        try:
            self.p.stdin.write(json.dumps(a) + "\n")
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except BrokenPipeError:
            l = ""
        if not l:
            return ["dead", self.p.wait()]
        return json.loads(l)

    def close(self):
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.p.kill()


def run(prop, c, m, bindir, work):
    import bounded
    cwd = tempfile.mkdtemp(dir=work)
    d = Driver(bindir, cwd)
    n = 0
    live = set()
    try:
        for i, s in enumerate(c):
            n += 1
            bad = step(s, d, m, live, bounded)
            if bad:
                return n, "step %d (%s): %s" % (i + 1, " ".join(str(x)[:40] for x in s), bad)
        for s in sorted(live):
            bad = same(s, d, m, bounded)
            if bad:
                return n, "at the end, filter %s: %s" % (s, bad)
        return n, None
    finally:
        d.close()
        shutil.rmtree(cwd, ignore_errors=True)


def verdict(a, want, what):
    """a: answer of the module; want: True for success"""
    if a[0] == "ok":
        return None if want else "%s succeeded, the library refuses it" % what
    if a[0] == "ValueError":
        return None if not want else "%s raised a value error (%s)" % (what, a[1])
    return "%s: %s %s" % (what, a[0], a[1])


def same(s, d, m, bounded):
    """all observations of the filter agree with the model"""
    a = d.ask("info", s)
    if a[0] != "ok":
        return "reading the accessors: %s" % a
    v, cap, fpp, count, size, opt, k, data = m.ask("info", s).split(" ")
    got = a[1]
    want = {"version": int(v), "capacity": int(cap), "fpp": fpp, "count_estimate": int(count), "is_full": int(count) >= int(cap), "data": bounded.dec(data).hex()}
    for x in want:
        if got[x] != want[x]:
            return "%s is %r, expected %r" % (x, got[x], want[x])
    a = d.ask("dumps", s)
    if a[0] != "ok" or a[1] != bounded.dec(m.ask("ser", s)).hex():
        return "dumped bytes differ from what the library writes"
    return None


def step(s, d, m, live, bounded):
    op = s[0]
    if op in ("new", "version", "params"):
        slot = s[1]
        v, cap, p, o = {"new": lambda: (2, s[2], s[3], 0), "version": lambda: (s[2], s[3], s[4], 0), "params": lambda: (s[2], s[3], s[4], s[5])}[op]()
        ok = o in (0, 1, 2, 3) and m.ask("new", "want", v, cap, bits(float(p)), o) == "ok"
        a = d.ask(*s)
        bad = verdict(a, ok, "construction")
        if bad:
            return bad
        if ok:
            m.ask("copy", slot, "want")
            live.add(slot)
            b = d.ask("dumps", slot)
            if b[0] != "ok" or m.ask("load", "got", b[1]) != "ok":
                return "a fresh filter cannot be dumped or its dump is invalid"
            if m.ask("sized", "want", "got", o) != "1":
                return "a fresh filter does not have the parameters asked for"
            m.ask("copy", slot, "got")
        return None
    slot = s[1]
    if slot not in live:
        return None
    if op in ("ins", "qry"):
        kb = s[3].encode()
        if op == "ins":
            w = m.ask("ins", slot, kb.hex() or "-")
            a = d.ask("ins_" + s[2], slot, s[3])
            if w == "full":
                return verdict(a, False, "insertion")
            return verdict(a, True, "insertion") or (None if a[1] == (w == "new") else "insertion answers %s, expected %s" % (a[1], w))
        w = m.ask("qry", slot, kb.hex() or "-") == "1"
        a = d.ask("qry_" + s[2], slot, s[3])
        return None if a == ["ok", w] else "query answers %s, expected %s" % (a, w)
    if op == "rawins":
        w = m.ask("ins", slot, s[2])
        a = d.ask("ins_raw", slot, s[2])
        if w == "full":
            return verdict(a, False, "insertion")
        q = d.ask("qry_raw", slot, s[2])
        return verdict(a, True, "insertion") or (None if a[1] == (w == "new") and q == ["ok", True] else "insertion answers %s, then query %s, expected %s" % (a, q, w))
    if op == "fill":
        for i in range(s[2]):
            bad = step(["ins", slot, "bytes" if i % 2 else "str", "f%d-%d" % (s[3], i)], d, m, live, bounded)
            if bad:
                return bad
        return None
    if op in ("uni", "cmn"):
        if s[2] not in live or (op == "uni" and s[2] == slot):
            return None
        w = m.ask(op, slot, s[2]).split(" ")
        a = d.ask(op, slot, s[2])
        bad = verdict(a, w[0] == "ok", op)
        if bad or w[0] != "ok":
            return bad
        lo, hi = int(w[1]), int(w[2])
        if op == "cmn":
            return None if lo <= a[1] <= hi else "estimate of common entries is %s, expected %d..%d" % (a[1], lo, hi)
        x = d.ask("info", slot)
        if x[0] != "ok" or not lo <= x[1]["count_estimate"] <= hi:
            return "estimate after the union is %s, expected %d..%d" % (x, lo, hi)
        m.ask("count", slot, x[1]["count_estimate"])
        return same(slot, d, m, bounded)
    if op in ("info", "dumps"):
        return same(slot, d, m, bounded)
    if op in ("reload", "refile"):
        a = d.ask(*s)
        return verdict(a, True, op) or a[1] or same(slot, d, m, bounded)
    if op == "damage":
        b = bounded.dec(m.ask("ser", slot))
        k, x = s[2], s[3]
        if k == "cut":
            b = b[:len(b) - 1 - x % max(1, len(b) - 1)]
        elif k == "cuthead":
            b = b[:x % 48]
        elif k == "version":
            b = bytes([x % 256]) + b[1:]
        elif k == "opt":
            b = b[:1] + bytes([x % 256]) + b[2:]
        elif k == "data":
            b = b + bytes([x % 256] * (1 + (x if x > 250 else x % 40)))
        else:
            b = b""
        if len(b) > 8 and b[0] != bounded.dec(m.ask("ser", slot))[0]:
            b = b[:200]
        ok = m.ask("load", "got", b.hex() or "-") == "ok"
        a = d.ask("loads", slot, b.hex())
        bad = verdict(a, ok, "loading")
        if bad or not ok:
            return bad
        m.ask("copy", slot, "got")
        return same(slot, d, m, bounded)
    if op == "count":
        m.ask("count", slot, s[2])
        a = d.ask("loads", slot, bounded.dec(m.ask("ser", slot)).hex())
        return verdict(a, True, "loading") or same(slot, d, m, bounded)
    if op == "nofile":
        a = d.ask("nofile", slot)
        return None if a[0] in ("FileNotFoundError", "ValueError") else "loading a missing file: %s" % a
    return "unknown step"
