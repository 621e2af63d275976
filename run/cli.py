"""Scenarios for the command-line tool: create, insert, check and show in a scratch directory."""
import copy, math, os, re, shutil, struct, subprocess, tempfile

RULE = ("random scenarios of create/insert/check/show commands of the built tool in a scratch directory (job counts 0-9 and very large, 0-12 files and now and then up to 260, "
        "files named twice, empty files and lines, missing final newline, CR, byte order marks, lines up to 3 MB, files up to 66000 lines, non-ASCII text, unreadable inputs, foreign output files), each outcome compared with the reference model; "
        "a case is distinct if its scenario is new")
BEYOND = ["the command line parser hands the program the options that were typed (clap is not verified)",
          "input files and standard input do not change while the command reads them, and File::open, lines, File::create and write behave as their assumed contracts say",
          "a thread's output reaches standard output line by line; the contracts speak about the output of each thread, in order, not about how the threads' lines interleave",
          "a panic (unwrap of an error, failed join) ends the process with an error status; what it would print is not modelled",
          "the bench command is left out of the proof; text written to standard error is dropped by the extraction",
          "the closure given to time_it_once is run exactly once",
          "the compiled tool is compared with an independent model on random scenarios in addition (bounded)"]
TIMEOUT = 60


def bits(p):
    return "%x" % struct.unpack("<Q", struct.pack("<d", p))[0]


def lines_of(b):
    """lines as a text reader delivers them, or None if not text"""
    out = []
    for l in b.split(b"\n"):
        out.append(l)
    if out and out[-1] == b"":
        out.pop()
    else:
        if out:
            last = out.pop()
            out.append(None)
            out[-1] = (last,)
    res = []
    for l in out:
        if isinstance(l, tuple):
            l = l[0]
        elif l.endswith(b"\r"):
            l = l[:-1]
        try:
            l.decode("utf-8")
        except UnicodeDecodeError:
            return None
        res.append(l)
    return res


# ---------------------------------------------------------------- generation
def word(r):
    k = r.randrange(20)
    if k == 0:
        return ""
    if k == 1:
        return r.choice([" ", "\t", " x ", "x ", " x", "x\r", "\r", "\ufeffbom", ".", "#c", "--verify", "-", "é", "日本語テキスト", "a\rb", "\x00", "x: NOK", " "])
    if k == 2:
        return "L" * r.choice([7, 8, 9, 255, 4096, 9000, 70000] if r.randrange(40) else [1 << 20, 3000000]) + str(r.randrange(5))
    if k < 8:
        return "w%d" % r.randrange(30)
    return "".join(r.choice("abcdefghij0123456789") for _ in range(r.choice([1, 3, 7, 8, 9, 12, 16, 20])))


def content(r, big=False):
    n = r.choice([0, 1, 1, 2, 3, 5, 9, 20]) if not big else r.choice([200, 1000, 3000] if r.randrange(30) else [20000, 66000])
    nl = "\r\n" if r.randrange(12) == 0 else "\n"
    ws = [word(r) if not big else "b%d-%d" % (r.randrange(10 ** 6), i) if n < 10000 else "%x" % i for i in range(n)]
    if ws and r.randrange(40) == 0:
        ws[0] = "\ufeff" + ws[0]
    t = nl.join(ws)
    if n and r.randrange(3):
        t += nl
    return t.encode()


def params(r):
    return {"version": r.choice([1, 2, 2]), "p": r.choice([0.1, 0.01, 0.001, 0.2, 0.5, 0.0001, r.choice([0.123456789, 1e-6, 0.00012345678901, 1 / 3, 0.9999])]), "opt": r.choice([0, 0, 1, 2, 3])}


def some_files(r, c, n, hi=False):
    names = []
    for i in range(n):
        name = "in%d.txt" % len(c["files"])
        c["files"][name] = content(r, r.randrange(60) == 0).hex()
        names.append(name)
    if names and r.randrange(6) == 0:
        # the same file more than once
        names.insert(r.randrange(len(names) + 1), r.choice(names))
    return names


def bad_inputs(r, c, names):
    """put an unreadable input somewhere"""
    k = r.randrange(4)
    if k == 0:
        x = "missing.txt"
    elif k == 1:
        x = "adir"
        c["dirs"] = ["adir"]
    else:
        x = "bad%d.txt" % len(c["files"])
        c["files"][x] = (content(r) + r.choice([b"", b"\n"]) + b"ok\n\xff\xfe\nok2\n").hex()
    names = list(names)
    names.insert(r.randrange(len(names) + 1), x)
    return names


def some(r, usual):
    """how many files: the usual numbers, now and then many"""
    return r.choice(usual) if r.randrange(50) else r.choice([17, 33, 40, 65, 70, 130, 260])


def jobs(r):
    return r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 9, 16, r.choice([33, 64, 200, 10 ** 6, 2 ** 63])])


def create(r, c, n=None, out="f.bloom"):
    p = params(r)
    n = some(r, [0, 1, 1, 2, 3, 4, 5, 7, 8, 11, 12]) if n is None else n
    return dict(p, op="create", jobs=jobs(r), cap=r.choice([0, 1, 5, 100, 1000, 5000]), out=out, inputs=some_files(r, c, n))


def case(prop, r):
    c = {"files": {}, "dirs": [], "steps": []}
    s = c["steps"]
    if prop == "C18":
        s.append(create(r, c))
        if r.randrange(8) == 0:
            s[0]["inputs"] = bad_inputs(r, c, s[0]["inputs"])
        for _ in range(r.randrange(3)):
            st = {"op": "insert", "jobs": jobs(r), "file": "f.bloom", "inputs": some_files(r, c, some(r, [0, 1, 2, 3, 5, 8])), "stdin": r.randrange(2) == 0,
                  "text": content(r).hex()}
            if not s[0]["inputs"] and r.randrange(3):
                s[0]["cap"] = 2000
            if r.randrange(8) == 0:
                st["inputs"] = bad_inputs(r, c, st["inputs"])
            if r.randrange(16) == 0:
                st["text"] = (b"a\n\xff\n").hex()
            s.append(st)
    elif prop == "C19":
        s.append(create(r, c, r.choice([1, 1, 2, 3])))
        known = sum((lines_of(bytes.fromhex(x)) or [] for x in c["files"].values()), [])
        for _ in range(r.choice([1, 2, 3])):
            st = {"op": "check", "jobs": jobs(r), "file": "f.bloom", "mode": r.choice(["", "", "", "verify", "verify", "silent"]), "stdin": r.randrange(2) == 0}
            st["inputs"] = some_files(r, c, some(r, [0, 1, 1, 2, 3, 4, 5, 7, 12]))
            for f in st["inputs"]:
                mix = (lines_of(bytes.fromhex(c["files"][f])) or []) + [r.choice(known) for _ in range(r.randrange(6)) if known]
                r.shuffle(mix)
                c["files"][f] = (b"\n".join(mix) + (b"\n" if r.randrange(2) or (mix and not mix[-1]) else b"")).hex()
            mix = (lines_of(content(r)) or []) + [r.choice(known) for _ in range(r.randrange(6)) if known]
            r.shuffle(mix)
            st["text"] = (b"\n".join(mix) + (b"\n" if r.randrange(2) or (mix and not mix[-1]) else b"")).hex()
            s.append(st)
    else:
        k = r.randrange(6)
        if k == 0:
            # output exists and is no filter
            x = r.choice([b"", b"text\n", b"a\nb\nc\n" * 50, b"\x01\0\0\0\0\0\0\0", b"\x02\0\0\0\0\0\0\0" + b"\0" * 30, b"\x03" + b"\0" * 99, "trunc", "bytes"])
            if x == "bytes":
                x = bytes([r.choice([0, 1, 2, 3, 97])] + [r.choice([0, 0, 10, 255]) for _ in range(r.choice([0, 1, 7, 8, 15, 31, 39, 47, 48, 63, 4095, 4096, 70000]) - 1)])
            if x == "trunc":
                s.append(create(r, c, 1))
                s.append({"op": "truncate", "file": "f.bloom", "by": r.choice([1, 7, 8, 100])})
            else:
                c["files"]["f.bloom"] = x.hex()
                if r.randrange(4) == 0:
                    # reached through a symbolic link
                    c["files"]["real.bloom"] = c["files"].pop("f.bloom")
                    c["links"] = {"f.bloom": "real.bloom"}
            s.append(create(r, c))
        elif k == 1:
            s.append(create(r, c))
            if r.randrange(4) == 0:
                c["links"] = {"f.bloom": "real.bloom"}
            s.append(create(r, c))
        elif k == 2:
            # parameters out of range over an existing filter
            s.append(create(r, c, 1))
            st = create(r, c)
            w = r.choice([("version", 0), ("version", 3), ("version", 255), ("p", 0.0), ("p", 1.5), ("p", -0.5), ("p", float("nan")), ("opt", 4), ("opt", 200)])
            st[w[0]] = "nan" if w[1] != w[1] else w[1]
            if w[0] == "p":
                st["version"] = r.choice([1, 2])
            s.append(st)
        elif k == 3:
            s.append(create(r, c, r.choice([0, 1])))
            st = create(r, c)
            st["inputs"] = bad_inputs(r, c, st["inputs"])
            s.append(st)
        elif k == 4:
            s.append(create(r, c, r.choice([0, 1, 2])))
            st = {"op": "insert", "jobs": jobs(r), "file": "f.bloom", "stdin": r.randrange(2) == 0, "text": content(r).hex()}
            st["inputs"] = some_files(r, c, some(r, [0, 1, 2, 3, 9, 12]))
            if r.randrange(2):
                st["inputs"] = bad_inputs(r, c, st["inputs"])
            elif r.randrange(3) == 0:
                st["text"] = (b"a\n\xff\n").hex()
                st["stdin"] = True
            s.append(st)
        else:
            # full filter
            s.append(create(r, c, r.choice([1, 1, 2])))
            if r.randrange(3) == 0:
                s[0]["inputs"] = []
                s[0]["cap"] = 0
            more = [b"new-%d" % r.randrange(10 ** 6) for _ in range(r.choice([1, 2, 40, 60]))]
            st = {"op": "insert", "jobs": jobs(r), "file": "f.bloom", "stdin": r.randrange(2) == 0, "text": (b"\n".join(more[:1]) + b"\n").hex(), "inputs": []}
            for i in range(r.choice([0, 1, 1, 2, 3])):
                n = "more%d.txt" % i
                c["files"][n] = (b"\n".join(more) + b"\n").hex()
                st["inputs"].append(n)
            s.append(st)
        if r.randrange(2):
            s.append({"op": "data", "file": "f.bloom", "len": r.choice([0, 1, 500, 1023, 1024, 1500, 1048575, 1048576, 3000000])})
        if r.randrange(4) == 0:
            s.append({"op": "count", "file": "f.bloom", "count": r.choice([0, 1, 2000, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 53 + 1, 2 ** 64 - 1])})
        s.append({"op": "show", "file": "f.bloom"})
    return c


def smaller(c):
    for i in range(len(c["steps"]) - 1, -1, -1):
        d = copy.deepcopy(c)
        d["steps"].pop(i)
        if d["steps"]:
            yield d
    for i, s in enumerate(c["steps"]):
        for j in range(len(s.get("inputs", []))):
            d = copy.deepcopy(c)
            d["steps"][i]["inputs"].pop(j)
            yield d
    for f in c["files"]:
        b = bytes.fromhex(c["files"][f])
        ls = b.split(b"\n")
        for cut in (ls[:len(ls) // 2], ls[len(ls) // 2:]):
            if len(cut) < len(ls):
                d = copy.deepcopy(c)
                d["files"][f] = b"\n".join(cut).hex()
                yield d


def show(c):
    return "; ".join(" ".join("%s=%s" % (k, (v if k != "text" else str(len(v) // 2) + " bytes")) for k, v in s.items()) for s in c["steps"])[:400]


# ---------------------------------------------------------------- execution
def call(bindir, cwd, args, stdin=b""):
    e = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0", "RUST_LIB_BACKTRACE": "0", "HOME": cwd, "LANG": "C.UTF-8"}
    try:
        r = subprocess.run([os.path.join(bindir, "poppy")] + args, cwd=cwd, input=stdin, capture_output=True, timeout=TIMEOUT, env=e)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return None, b"", b""


def slurp(cwd, name):
    p = os.path.join(cwd, name)
    if not os.path.isfile(p):
        return None
    with open(p, "rb") as f:
        return f.read()


def load(m, slot, b):
    return m.ask("load", slot, b.hex() if b else "-") == "ok"


def query(m, slot, keys):
    keys = list(dict.fromkeys(keys))
    res = {}
    for i in range(0, len(keys), 200):
        part = keys[i:i + 200]
        a = m.ask("qry", slot, *[k.hex() or "-" for k in part])
        for k, x in zip(part, a):
            res[k] = x == "1"
    return res


def gather(cwd, names):
    """lines of all inputs, or None if one cannot be read as text"""
    out = []
    for n in names:
        b = slurp(cwd, n)
        ls = lines_of(b) if b is not None else None
        if ls is None:
            return None
        out.append(ls)
    return out


def size_str(n):
    for u, d in (("B", 1024), ("KB", 1024 ** 2), ("MB", 1024 ** 3)):
        if n < d:
            return n / (d / 1024), u
    return n / 1024 ** 3, "GB"


def same_size(txt, n):
    mm = re.match(r"^([0-9.]+) ?([A-Z]+)$", txt)
    v, u = size_str(n)
    return bool(mm) and mm.group(2) == u and abs(float(mm.group(1)) - v) <= 0.0500001


def run(prop, c, m, bindir, work):
    """executes the scenario; returns (number of commands, None or what is wrong)"""
    cwd = tempfile.mkdtemp(dir=work)
    n = 0
    try:
        for d in c["dirs"]:
            os.mkdir(os.path.join(cwd, d))
        for f, h in c["files"].items():
            with open(os.path.join(cwd, f), "wb") as fh:
                fh.write(bytes.fromhex(h))
        for f, t in c.get("links", {}).items():
            os.symlink(t, os.path.join(cwd, f))
        for i, s in enumerate(c["steps"]):
            n += 1
            bad = STEP[s["op"]](prop, s, m, bindir, cwd)
            if bad:
                return n, "step %d (%s): %s" % (i + 1, s["op"], bad)
        return n, None
    finally:
        shutil.rmtree(cwd, ignore_errors=True)


def do_create(prop, s, m, bindir, cwd):
    before = slurp(cwd, s["out"])
    valid_before = before is not None and load(m, "old", before)
    ls = gather(cwd, s["inputs"])
    p = float(s["p"])
    total = sum(len(x) for x in ls) if ls is not None else 0
    cap = total if s["inputs"] else s["cap"]
    params_ok = s["version"] in (1, 2) and s["opt"] in (0, 1, 2, 3) and m.ask("new", "want", s["version"], cap, bits(p), s["opt"]) == "ok"
    args = ["-j", str(s["jobs"]), "create", "--version", str(s["version"]), "-c", str(s["cap"]), "--probability=%s" % s["p"], "-O", str(s["opt"]), s["out"]] + s["inputs"]
    rc, out, err = call(bindir, cwd, args)
    after = slurp(cwd, s["out"])
    if rc is None:
        return "the command does not finish within %d s" % TIMEOUT
    if before is not None and not valid_before:
        if prop == "C20":
            if rc == 0:
                return "creating over a file that is not a filter succeeded"
            if after != before:
                return "an existing file that is not a filter was changed"
        return None
    if not params_ok or ls is None:
        if prop == "C20" and before is not None and after != before:
            return "the command failed or must fail (%s), yet the existing filter changed" % ("parameters" if not params_ok else "unreadable input")
        if prop in ("C18", "C20") and ls is None and rc == 0:
            return "an input cannot be read, yet the command succeeded"
        return None
    if rc != 0:
        if prop == "C20" and before is not None and after != before:
            return "the command failed with status %s and changed the existing filter" % rc
        if prop == "C20" and before is not None:
            return "an existing valid filter was not replaced: status %s %s" % (rc, err[-200:])
        if prop in ("C18", "C19"):
            return "create failed with status %s: %s" % (rc, err.decode("utf-8", "replace")[-200:])
        return None
    if after is None or not load(m, "got", after):
        return "the created file is not a valid filter"
    v, gcap, fpp, count, size, opt, k, data = m.ask("info", "got").split(" ")
    wv, wcap, wfpp, _, wsize, wopt, wk, _ = m.ask("info", "want").split(" ")
    if prop in ("C18", "C20"):
        if (v, gcap, fpp, opt) != (wv, wcap, wfpp, wopt):
            return "created filter has version %s capacity %s probability %s level %s, expected %s %s %s %s" % (v, gcap, fpp, opt, wv, wcap, wfpp, wopt)
    if prop == "C18":
        q = query(m, "got", [l for x in ls for l in x])
        miss = [l for l, y in q.items() if not y]
        if miss:
            return "%d of %d lines are missing from the created filter, for example %r" % (len(miss), len(q), miss[0][:60])
    return None


def do_insert(prop, s, m, bindir, cwd):
    before = slurp(cwd, s["file"])
    if before is None or not load(m, "got", before):
        rc, out, err = call(bindir, cwd, ["-j", str(s["jobs"]), "insert", s["file"]] + s["inputs"], b"")
        if rc == 0:
            return "inserting into something that is not a filter succeeded"
        return "a file that is no filter was changed" if slurp(cwd, s["file"]) != before and prop == "C20" else None
    ls = gather(cwd, s["inputs"])
    use_stdin = s["stdin"] or not s["inputs"]
    text = bytes.fromhex(s["text"])
    tl = lines_of(text) if use_stdin else []
    v, cap, fpp, count, size, opt, k, data = m.ask("info", "got").split(" ")
    args = ["-j", str(s["jobs"]), "insert"] + (["--stdin"] if s["stdin"] else []) + [s["file"]] + s["inputs"]
    keys = [l for x in (ls or []) for l in x] + (tl or [])
    was = query(m, "got", keys)
    m.ask("copy", "old", "got")
    rc, out, err = call(bindir, cwd, args, text)
    after = slurp(cwd, s["file"])
    if rc is None:
        return "the command does not finish within %d s" % TIMEOUT
    if ls is None or tl is None:
        if rc == 0:
            return "an input cannot be read, yet the command succeeded"
        if prop == "C20" and after != before:
            return "the command failed because of unreadable input and changed the filter"
        return None
    if rc != 0:
        if prop == "C20" and after != before:
            return "the command failed with status %s and changed the filter" % rc
        if prop == "C18" and int(count) + len(keys) <= int(cap):
            return "insert failed with status %s although there is room: %s" % (rc, err.decode("utf-8", "replace")[-200:])
        return None
    if int(count) >= int(cap) and any(not x for x in was.values()):
        if prop in ("C18", "C20"):
            return "a new entry was stored in a full filter, or its refusal was not reported"
        return None
    if after is None or not load(m, "got", after):
        return "the updated file is not a valid filter"
    if prop in ("C18", "C20"):
        v2, cap2, fpp2, count2, size2, opt2, k2, data2 = m.ask("info", "got").split(" ")
        if (v, cap, fpp, size, opt, k, data) != (v2, cap2, fpp2, size2, opt2, k2, data2):
            return "insertion changed the parameters or attached data"
    if prop == "C18":
        q = query(m, "got", keys)
        miss = [l for l, y in q.items() if not y]
        if miss:
            return "%d of %d inserted lines are missing, for example %r" % (len(miss), len(q), miss[0][:60])
        if m.ask("uni", "old", "got") != "err":
            # every bit set before is still set: the union with the old filter changes no bit
            a, b = m.ask("ser", "old"), m.ask("ser", "got")
            if v == "1":
                x, y = body(a, 48), body(b, 48)
            else:
                x, y = body(a, 40), body(b, 40)
            if x != y:
                return "bits set before the insertion are no longer set"
    return None


def body(h, n):
    import bounded
    return bounded.dec(h)[n:]


def do_check(prop, s, m, bindir, cwd):
    before = slurp(cwd, s["file"])
    if before is None or not load(m, "got", before):
        return None
    ls = gather(cwd, s["inputs"])
    text = bytes.fromhex(s["text"])
    tl = lines_of(text) if (s["stdin"] or not s["inputs"]) else []
    if ls is None or tl is None:
        return None
    allk = tl + [l for x in ls for l in x]
    q = query(m, "got", allk)
    args = ["-j", str(s["jobs"]), "check"] + (["--stdin"] if s["stdin"] else []) + (["--" + s["mode"]] if s["mode"] else []) + [s["file"]] + s["inputs"]
    rc, out, err = call(bindir, cwd, args, text)
    if rc is None:
        return "the command does not finish within %d s" % TIMEOUT
    if rc != 0:
        return "check failed with status %s: %s" % (rc, err.decode("utf-8", "replace")[-200:])
    if slurp(cwd, s["file"]) != before:
        return "checking changed the filter file"
    if s["mode"] == "silent":
        want = []
    elif s["mode"] == "verify":
        want = [l + b": NOK" for l in allk if not q[l]]
    else:
        want = [l for l in allk if q[l]]
    got = out.split(b"\n")
    if got and got[-1] == b"":
        got.pop()
    if sorted(got) != sorted(want):
        g, w = set(got), set(want)
        extra = [x for x in got if x not in w][:1]
        miss = [x for x in want if x not in g][:1]
        return "printed %d lines, expected %d (extra %r, missing %r)" % (len(got), len(want), [x[:60] for x in extra], [x[:60] for x in miss])
    return None


def do_show(prop, s, m, bindir, cwd):
    b = slurp(cwd, s["file"])
    if b is None or not load(m, "got", b):
        return None
    rc, out, err = call(bindir, cwd, ["show", s["file"]])
    if rc != 0:
        return "show failed with status %s: %s" % (rc, err.decode("utf-8", "replace")[-200:])
    if slurp(cwd, s["file"]) != b:
        return "showing changed the filter file"
    v, cap, fpp, count, size, opt, k, data = m.ask("info", "got").split(" ")
    val = {}
    for l in out.decode("utf-8", "replace").split("\n"):
        if ":" in l:
            a, x = l.rsplit(":", 1)
            val[a.strip()] = x.strip()

    def find(start):
        for k_, x in val.items():
            if k_.lower().startswith(start):
                return x
        return None
    import bounded
    f = struct.unpack("<d", struct.pack("<Q", int(fpp, 16)))[0]
    want = [("version", lambda x: x == v), ("capacity", lambda x: x == cap), ("n (", lambda x: x == count), ("fpp", lambda x: float(x) == f),
            ("length of data", lambda x: same_size(x, len(bounded.dec(data)))), ("size of bloom filter", lambda x: same_size(x, int(size)))]
    for name, ok in want:
        x = find(name)
        try:
            good = x is not None and ok(x)
        except ValueError:
            good = False
        if not good:
            return "show prints %r for %s; the file has version %s capacity %s count %s probability %r, %d bytes of data, size %s" % (
                x, name, v, cap, count, f, len(bounded.dec(data)), size)
    return None


def do_truncate(prop, s, m, bindir, cwd):
    b = slurp(cwd, s["file"])
    if b:
        with open(os.path.join(cwd, s["file"]), "wb") as f:
            f.write(b[:max(0, len(b) - s["by"])])
    return None


def do_data(prop, s, m, bindir, cwd):
    """attached data follows the membership bits"""
    b = slurp(cwd, s["file"])
    if b and load(m, "got", b):
        with open(os.path.join(cwd, s["file"]), "ab") as f:
            f.write(b"d" * s["len"])
    return None


def do_count(prop, s, m, bindir, cwd):
    """the file as it would be after that many insertions"""
    b = slurp(cwd, s["file"])
    if b and load(m, "got", b):
        m.ask("count", "got", s["count"])
        import bounded
        with open(os.path.join(cwd, s["file"]), "wb") as f:
            f.write(bounded.dec(m.ask("ser", "got")))
    return None


STEP = {"create": do_create, "insert": do_insert, "check": do_check, "show": do_show, "truncate": do_truncate, "data": do_data, "count": do_count}
