"""Extraction of the current source of /repo and a Verus run over it."""
import fnmatch, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
# crates of the workspace besides the library, extracted as an extra module when asked for
ROOTS = {"py": os.path.join(REPO, "python", "src", "lib.rs"), "cli": os.path.join(REPO, "poppy", "src", "bin", "poppy.rs")}


class Broken(Exception):
    pass


def cargo_env(target):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, target), RUST_BACKTRACE="0", PYO3_PYTHON="/usr/bin/python3",
             RUSTUP_TOOLCHAIN="stable")
    e.pop("RUSTFLAGS", None)
    return e


def build_vx():
    r = subprocess.run(["cargo", "build", "--offline", "--release", "-q"], cwd=os.path.join(VERIF, "vx"), env=cargo_env("vx"), capture_output=True, text=True)
    if r.returncode:
        raise Broken("building the extraction tool failed:\n" + r.stderr[-2000:])
    return os.path.join(BUILD, "vx", "release", "vx")


class Proof:
    """Outcome of one verification run."""

    def __init__(self):
        self.failed = []        # (function or lemma, kind, message, line text)
        self.external = []      # functions out of reach this run, with the reason
        self.reasons = {}
        self.functions = {}     # path -> report entry
        self.missing = []
        self.obligations = {}   # path or lemma -> number of obligations
        self.verified = 0
        self.smt_ms = 0
        self.global_reason = None
        self.assumed = []
        self.rounds = 0
        self.cmd = ""
        self.log = ""
        self.wall = 0.0
        self.canary = None


def region_map(text):
    """line -> (kind, name) for functions and for proof functions of the contract text"""
    reg = {}
    cur = None
    mods = []
    depth = 0
    name = None
    lemma_depth = None
    for i, l in enumerate(text.split("\n"), 1):
        m = re.match(r"\s*// vx-fn-begin (.*)$", l)
        if m:
            cur = ("fn", m.group(1).strip())
            continue
        if re.match(r"\s*// vx-fn-end", l):
            cur = None
            continue
        if cur:
            reg[i] = cur
    # modules and lemmas by brace counting on the emitted text
    stack = []
    d = 0
    instr = False
    lemma = None
    for i, l in enumerate(text.split("\n"), 1):
        code = re.sub(r'"(\\.|[^"\\])*"', '""', l)
        code = re.sub(r"'(\\.|[^'\\])'", "' '", code)
        code = code.split("//")[0]
        m = re.match(r"\s*(?:pub(?:\([a-z]+\))? )?mod (\w+)\s*\{", code)
        if m:
            stack.append((m.group(1), d))
        m = re.match(r"\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))? )?(?:open |closed |uninterp |broadcast |tracked )*(?:proof|axiom|spec)(?:\([a-z]+\))? fn (\w+)|\s*(?:pub )?(?:broadcast )?axiom fn (\w+)", code)
        if m and i not in reg and lemma is None:
            lemma = ("::".join([s[0] for s in stack] + [m.group(1) or m.group(2)]), d, False)
        if i not in reg and lemma:
            reg[i] = ("lemma", lemma[0])
        for c in code:
            if c == "{":
                d += 1
                if lemma and not lemma[2]:
                    lemma = (lemma[0], lemma[1], True)
            elif c == "}":
                d -= 1
                while stack and d <= stack[-1][1]:
                    stack.pop()
                    break
        if lemma and d <= lemma[1] and (lemma[2] or code.rstrip().endswith(";")):
            # an inline brace in a clause does not end the item
            if not lemma[2] or code.rstrip().endswith("}"):
                lemma = None
    return reg


def diagnostics(err):
    out = []
    for l in err.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level", "").startswith("error"):
                out.append(d)
    return out


def locate(d, reg):
    """function or lemma a diagnostic belongs to, preferring primary spans"""
    spans = [s for s in d.get("spans", []) if s["file_name"].endswith("out.rs")]
    # the postcondition itself may stand in a trait: the exit tells which body failed
    exits = [s for s in spans if "at this exit" in (s.get("label") or "") or "at the end of the function body" in (s.get("label") or "")]
    for pick in (lambda s: s in exits, lambda s: s["is_primary"], lambda s: not s["is_primary"]):
        for s in spans:
            if pick(s):
                for ln in (s["line_start"], s["line_end"]):
                    if ln in reg:
                        return reg[ln], s
    return None, (spans[0] if spans else None)


def run_verus(work, extra, timeout):
    cmd = ["verus", "out.rs", "--output-json", "--time-expanded", "--multiple-errors", "4"] + extra + ["--", "--error-format=json"]
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    try:
        r = subprocess.run(cmd, cwd=work, capture_output=True, text=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return cmd, None, "", ""
    try:
        js = json.loads(r.stdout[r.stdout.index("{"):])
    except ValueError:
        js = None
    return cmd, js, r.stdout, r.stderr


def kind_of(msg):
    m = msg.lower()
    if "postcondition" in m or "post-condition" in m:
        return "postcondition"
    if "invariant" in m:
        return "invariant"
    if "resource limit" in m or "rlimit" in m:
        return "rlimit"
    if "precondition" in m or "overflow" in m or "underflow" in m or "division" in m or "bounds" in m or "recommend" in m:
        return "safety"
    if "assert" in m:
        return "assertion"
    return "other"


VERIF_ERR = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "possible arithmetic",
             "possible division", "possible bit shift", "decreases not satisfied", "resource limit", "rlimit", "loop ensures", "could not prove",
             "assert_by", "bitvector assertion", "might not be", "recommendation not met", "unwind", "not satisfied", "while loop: ", "expression simplifies to false",
             "function body check", "cannot prove", "unable to prove", "may fail to meet")


def is_verif_error(msg):
    m = msg.lower()
    return any(x in m for x in VERIF_ERR)


def prove(vx, work, root=None, timeout=600):
    t0 = time.time()
    p = Proof()
    extra = []
    if root:
        extra = ["--root", "%s=%s" % (root, ROOTS[root]), "--spec", os.path.join(SPEC, root), "--prelude", os.path.join(SPEC, "ext.rs"),
                 "--prelude", os.path.join(SPEC, root, "prelude.rs")]
    external, drop = [], []
    src = os.path.join(REPO, "poppy", "src")
    js = None
    for rnd in range(16):
        p.rounds = rnd + 1
        args = [vx, src, SPEC, os.path.join(SPEC, "prelude.rs"), os.path.join(work, "out.rs"), os.path.join(work, "rep.json")] + extra
        for f in external:
            args += ["--external", f]
        for f in drop:
            args += ["--drop", f]
        r = subprocess.run(args, capture_output=True, text=True)
        if r.returncode:
            p.global_reason = "extraction failed: " + (r.stderr.strip() or r.stdout.strip())[-600:]
            break
        rep = json.load(open(os.path.join(work, "rep.json")))
        p.functions = {f["path"]: f for f in rep["functions"]}
        p.missing = rep["missing"]
        p.dropped = rep["dropped"]
        # structural reasons that put a function out of reach
        more = False
        for f in rep["functions"]:
            if f["status"] != "contract" or f["path"] in external:
                continue
            why = None
            for n in f["notes"]:
                if n.startswith("loop-mismatch") or n.startswith("unsupported"):
                    why = n
            if f["calls_uncontracted"]:
                why = "calls functions without contract that cannot be inlined: " + ", ".join(f["calls_uncontracted"])
            if why:
                external.append(f["path"])
                p.reasons[f["path"]] = why
                more = True
        if more:
            continue
        text = open(os.path.join(work, "out.rs")).read()
        reg = region_map(text)
        logdir = os.path.join(work, "air")
        p.cmd, js, so, se = run_verus(work, ["--log-dir", logdir, "--log", "air"], timeout)
        if js is not None and any(kind_of(d["message"]) == "rlimit" for d in diagnostics(se)):
            # undecided is not refuted: ask again, each query on its own and with three times the resources
            again = run_verus(work, ["--log-dir", logdir, "--log", "air", "-V", "spinoff-all", "--rlimit", "30"], timeout)
            if again[1] is not None and again[1].get("verification-results"):
                p.cmd, js, so, se = again
        p.log = se
        if js is None and not se:
            p.global_reason = "verifier did not finish in %d s" % timeout
            break
        diags = diagnostics(se)
        vr = (js or {}).get("verification-results") or {}
        front = [d for d in diags if d.get("spans") and (d.get("code") or not is_verif_error(d["message"]))]
        if front or not vr or vr.get("encountered-vir-error") or (not diags and not vr.get("success")):
            # front-end trouble: take the functions concerned out of reach and try again
            hit = {}
            lost = None
            for d in front or diags:
                w, s = locate(d, reg)
                if w and w[0] == "fn":
                    hit.setdefault(w[1], d["message"])
                elif d.get("spans") and lost is None:
                    lost = d
            progress = False
            for f, msg in sorted(hit.items()):
                if f in external:
                    if f not in drop:
                        drop.append(f)
                        progress = True
                else:
                    external.append(f)
                    p.reasons[f] = "front end: " + msg.split("\n")[0][:200]
                    progress = True
            if progress:
                continue
            d = lost or (diags[0] if diags else None)
            p.global_reason = "front end rejects the extracted file: " + (d["message"][:300] if d else se[-300:])
            js = None
            break
        # the hints of loops that are gone may be what is missing
        gone = {f["path"]: n for f in rep["functions"] for n in f["notes"] if n.startswith("loops-gone")}
        lost = {w[1] for d in diags if d.get("spans") for w in [locate(d, reg)[0]] if w and w[1] in gone and w[1] not in external}
        if lost:
            for f in sorted(lost):
                external.append(f)
                p.reasons[f] = gone[f]
            continue
        # a field the contracts were written for is gone or has another type: hints about it may not apply
        known = json.load(open(os.path.join(SPEC, "shapes.json")))
        other = {}
        for x in rep["shapes"]:
            t, _, fields = x.partition(" ")
            if not set(known.get(t, "").split()) <= set(fields.split()):
                other[t.rpartition("::")[0] or "crate"] = t
        lost = {w[1]: other[m] for d in diags if d.get("spans") for w in [locate(d, reg)[0]] if w and w[0] == "fn" and w[1] not in external
                for m in other if w[1].startswith(m + "::") or m == "crate"}
        if lost:
            for f in sorted(lost):
                external.append(f)
                p.reasons[f] = "fields of %s are gone or have another type" % lost[f]
            continue
        # helpers that could be neither inlined nor given a contract: nothing is known about their result
        bare = {f["path"].rsplit("::", 1)[1] for f in rep["functions"] if f["status"] == "uncontracted" and not f["path"].startswith("utils::Stats::")}
        if bare:
            lines = text.split("\n")
            fs = {w[1] for d in diags if d.get("spans") for w in [locate(d, reg)[0]] if w and w[0] == "fn" and w[1] not in external}
            lost = {}
            for f in fs:
                body = "\n".join(l for i, l in enumerate(lines, 1) if reg.get(i) == ("fn", f))
                for b in bare:
                    if re.search(r"(?<!fn )\b%s(::<[^()]*>)?\(" % re.escape(b), body):
                        lost[f] = b
            if lost:
                for f in sorted(lost):
                    external.append(f)
                    p.reasons[f] = "calls %s, which has no contract and cannot be inlined" % lost[f]
                continue
        # verification ran
        for d in diags:
            if not d.get("spans"):
                continue
            w, s = locate(d, reg)
            name = w[1] if w else "?"
            spans = [x for x in d["spans"] if x["file_name"].endswith("out.rs")]
            txt = "; ".join("%s [%s]" % ((x["text"][0]["text"].strip() if x["text"] else ""), x.get("label") or "") for x in spans[:3])
            p.failed.append((name, kind_of(d["message"]), d["message"].split("\n")[0], txt))
        p.verified = vr.get("verified", 0)
        p.smt_ms = js["times-ms"]["smt"]["total"] if "smt" in js["times-ms"] else 0
        p.obligations = count_obligations(logdir, reg)
        break
    p.external = sorted(set(external))
    p.ok = js is not None
    p.assumed = assumptions(os.path.join(work, "out.rs"))
    p.wall = time.time() - t0
    return p


def canary(work, p, timeout=900):
    """assert(false) at the start of every verified body must fail: otherwise its assumptions contradict each other"""
    text = open(os.path.join(work, "out.rs")).read()
    reg = region_map(text)
    w = os.path.join(work, "canary")
    os.makedirs(w, exist_ok=True)
    out, planted = [], set()
    cur, open_lemma, at_start = None, None, False
    L = text.split("\n")
    ext = False
    for i, l in enumerate(L, 1):
        m = re.match(r"\s*// vx-fn-begin (.*)$", l)
        if m:
            cur = m.group(1).strip()
            ext = "external_body" in L[i]
        if "/*vx-body*/" in l and not ext and p.functions.get(cur, {}).get("status") == "contract":
            l = l.replace("/*vx-body*/", "/*vx-body*/ proof { assert(false); } ", 1)
            planted.add(cur)
        r = reg.get(i)
        if r and r[0] == "lemma":
            if l.strip() == "{" and r[1] != open_lemma and "axiom" not in L[i - 2]:
                open_lemma, at_start = r[1], True
            elif at_start and not l.strip().startswith("hide("):
                l = "assert(false); " + l
                planted.add(r[1])
                at_start = False
        out.append(l)
    t = "\n".join(out)
    with open(os.path.join(w, "out.rs"), "w") as f:
        f.write(t)
    reg2 = region_map(t)
    cmd, js, so, se = run_verus(w, [], timeout)
    if js is None:
        return {"ran": False}
    hit = set()
    for d in diagnostics(se):
        # giving up on a false assertion is not proving it either
        if "assertion failed" in d["message"] or "Resource limit" in d["message"]:
            for s in d.get("spans", []):
                if s["line_start"] in reg2:
                    hit.add(reg2[s["line_start"]][1])
    return {"ran": True, "planted": len(planted), "failed_as_expected": len(planted & hit), "vacuous": sorted(planted - hit)}


def count_obligations(logdir, reg):
    """labelled assertions in the verification conditions, per function or lemma"""
    n = {}
    if not os.path.isdir(logdir):
        return n
    for f in os.listdir(logdir):
        if not f.endswith(".air"):
            continue
        cur = None
        inq = False
        main = re.match(r"^[A-Za-z0-9_]+\.air$", f)
        for l in open(os.path.join(logdir, f), errors="replace"):
            if l.startswith(";; Function-Def") or l.startswith(";; Function-Expand") or l.startswith(";; Spec-Termination"):
                cur = None
                want = True
                continue
            m = re.match(r"^;; \S*out\.rs:(\d+):\d+: (\d+):", l)
            if m:
                r = reg.get(int(m.group(1)))
                cur = r[1] if r else None
                continue
            if l.startswith(";; Function-Axioms") or l.startswith(";; Function-Specs"):
                cur = None
            if l.startswith("(check-valid"):
                inq = True
            elif l.startswith(")"):
                inq = False
            if inq and cur and re.match(r"^\s*\(assert(\s|$)", l):
                n[cur] = n.get(cur, 0) + 1
    return n


def assumptions(path):
    """everything in the extracted file the verifier does not check"""
    out = []
    try:
        L = open(path).read().split("\n")
    except OSError:
        return out
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith("//"):
            continue
        if re.search(r"\b(assume|admit)\s*\(", s) and "assume_specification" not in s:
            out.append("UNCHECKED STATEMENT: " + s[:120])
        m = re.search(r"axiom fn (\w+)", s)
        if m:
            out.append("axiom " + m.group(1))
        if "assume_specification" in s:
            m = re.search(r"\[\s*(.*?)\s*\]\s*\(", s)
            out.append("assumed contract of " + (m.group(1) if m else s[:80]))
        if "external_body" in s and not s.startswith("//"):
            t = s + " " + (L[i + 1].strip() if "fn " not in s and "struct" not in s and i + 1 < len(L) else "")
            m = re.search(r"\b(fn|struct|enum) (\w+)", t)
            out.append("assumed contract (body not verified) of " + (m.group(2) if m else t[:60]))
    return sorted(set(out))


def match(path, pats):
    for p in pats:
        if path == p:
            return True
        if "*" in p:
            esc = p.replace("[", "[[]")
            if fnmatch.fnmatchcase(path, esc):
                return True
    return False


def shapes(work):
    """records the fields the contracts were written for"""
    k = {}
    for root in (None, "py", "cli"):
        prove(build_vx(), work, root)
        k.update(x.split(" ", 1) if " " in x else (x, "") for x in json.load(open(os.path.join(work, "rep.json")))["shapes"])
    with open(os.path.join(SPEC, "shapes.json"), "w") as f:
        json.dump(k, f, indent=1, sort_keys=True)
        f.write("\n")


if __name__ == "__main__":
    import tempfile, shutil
    w = tempfile.mkdtemp(prefix="pv-")
    try:
        p = prove(build_vx(), w, next((a for a in sys.argv[1:] if a in ROOTS), None))
        print("ok", p.ok, p.global_reason, "verified", p.verified, "failed", len(p.failed), "rounds", p.rounds, "%.1fs" % p.wall)
        for f in p.failed:
            print("  FAILED", f)
        for f in p.external:
            print("  OUT OF REACH", f, p.reasons.get(f))
        print("missing", p.missing)
        print("obligations", sum(p.obligations.values()), "in", len(p.obligations))
        if "-v" in sys.argv:
            for k in sorted(p.obligations):
                print("   ", k, p.obligations[k])
            for a in p.assumed:
                print("   ", a)
            print("canary", canary(w, p))
            print("contract fns with no obligations:", [f for f, r in p.functions.items() if r["status"] == "contract" and f not in p.obligations])
    finally:
        shutil.rmtree(w)
