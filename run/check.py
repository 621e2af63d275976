"""One check: python3 run/check.py PROPERTY [quick|thorough]"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, conf, facts, prove
from prove import VERIF, Broken, match

EV = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def known(prop):
    """lines of unrepaired findings for this property"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("open: property=%s " % prop):
                out.append(l.strip()[len("open: "):])
    return out


def hunt(pvh, prop, sd, cases, secs, work, tag):
    """one harness run; returns (result or None, crash case or None)"""
    out = os.path.join(work, "h-" + tag)
    try:
        r = subprocess.run([pvh, "run", prop, str(sd), str(cases), str(secs), out], capture_output=True, text=True, timeout=secs * 3 + 120)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = "no end after %d s" % (secs * 3 + 120)
    if rc == 0 and os.path.exists(out + ".json"):
        return json.load(open(out + ".json")), None
    return None, (out + ".cur", rc)


def confirm(pvh, case):
    """does the recorded case still fail when replayed on its own?"""
    try:
        r = subprocess.run([pvh, "replay", case], capture_output=True, text=True, timeout=120)
        return r.returncode != 0, (r.stdout + r.stderr).strip()[-600:]
    except subprocess.TimeoutExpired:
        return True, "the case does not finish within 120 s"


def find_crash(pvh, prop, sd, cases, secs, work):
    """the process died or hung: find the case, saving each one before it runs"""
    e = dict(os.environ)
    e["PVH_SAVE"] = "1"
    out = os.path.join(work, "crash")
    try:
        subprocess.run([pvh, "run", prop, str(sd), str(cases), str(secs), out], capture_output=True, text=True, timeout=secs * 3 + 120, env=e)
    except subprocess.TimeoutExpired:
        pass
    return out + ".cur" if os.path.exists(out + ".cur") else None


def check(prop, tier):
    t0 = time.time()
    sd = seed()
    os.makedirs(os.path.join(EV, "replays"), exist_ok=True)
    if prop in conf.BOUNDED:
        import bounded
        return bounded.check(prop, tier, sd, t0)
    work = tempfile.mkdtemp(prefix="poppy-verif-")
    try:
        return decide(prop, tier, sd, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def save_replay(prop, text, ext):
    path = os.path.join(EV, "replays", "%s.%s" % (prop, ext))
    with open(path, "w") as f:
        f.write(text)
    return path


class Verdict:
    """what the proof says about one property"""

    def __init__(self, prop, p):
        self.prop, self.p = prop, p
        contracts, self.lem = conf.PROPS[prop]
        self.mine = [f for f, r in p.functions.items() if match(f, contracts) and r["status"] in ("contract", "external")]
        self.gone = [m for m in p.missing if match(m, contracts)]
        self.out_of_reach = [f for f in p.external if match(f, contracts)]
        self.failed, self.soft, self.elsewhere = [], [], []
        for x in p.failed:
            name, kind = x[0], x[1]
            own = match(name, contracts) or name in self.lem
            if prop == "C12" and match(name, conf.PANIC_SCOPE) and kind == "safety":
                own = True
            if own and match(name, conf.FORMULA) and kind == "postcondition" and "/*formula*/" in x[3]:
                self.soft.append(x)
            elif own and kind == "rlimit" and name in self.lem:
                # lemmas speak about the contracts alone: a solver that gives up on one says nothing about the code
                self.soft.append(x)
            elif own:
                self.failed.append(x)
            else:
                self.elsewhere.append(x)
        self.proved = p.ok and not (p.failed or self.gone or p.external)
        units = self.mine + self.lem
        bad = set(x[0] for x in self.failed + self.soft)
        self.nob = sum(p.obligations.get(u, 0) for u in units)
        self.ndis = sum(p.obligations.get(u, 0) for u in units if u not in bad and u not in p.external) if p.ok else 0

    def coverage(self):
        p = self.p
        return {
            "obligations": self.nob, "discharged": self.ndis,
            "checker_cmd": " ".join(p.cmd) if p.cmd else "verus out.rs",
            "trusted_base": ["Verus (%s)" % verus_version(), "Z3 shipped with Verus", "rustc front end",
                             "extraction tool /verif/vx (rewrites listed in DESIGN.md)"] + facts.split(p.assumed)[0],
            "std_facts_discharged": facts.split(p.assumed)[1],
            "functions_under_contract": self.mine,
            "lemmas": self.lem,
            "units_verified_in_whole_file": p.verified,
            "solver_ms": p.smt_ms,
            "proof_wall_s": round(p.wall, 2),
            "extraction_rounds": p.rounds,
            "out_of_reach_this_run": [{"function": f, "reason": p.reasons.get(f, "")} for f in self.out_of_reach],
            "contracts_without_function": self.gone,
            "undischarged_elsewhere": sorted(set(x[0] for x in self.elsewhere)),
            "undischarged_formula_functions": sorted(set(x[0] for x in self.soft)),
            "proof_not_run_because": p.global_reason,
        }

    def assumptions(self):
        rest, std = facts.split(self.p.assumed)
        return rest + (["facts about std decided by %s on the std it ships hold for the std the project is built with" % std["backend"]] if std else []) + ["no stream or object reaches 2^50 bytes", "floating point operations are uninterpreted; facts used are the listed axioms, probed concretely",
                                 "machine is 64-bit (usize = u64)"]

    def report(self, searched):
        txt = ["# no failing input was found in %d extra cases; failed obligations and verifier output follow" % searched]
        for n, k, m, t in self.failed:
            txt.append("failed obligation: function=%s kind=%s message=%s at=%s" % (n, k, m, t))
        txt.append("---- verifier output ----")
        for d in prove.diagnostics(self.p.log):
            txt.append(d.get("rendered") or d.get("message", ""))
        return "\n".join(txt)

    def summary(self, concrete):
        p = self.p
        if self.proved:
            return "%s holds: %d of %d obligations discharged over %d functions and %d lemmas, solver %d ms; %s" % (
                self.prop, self.ndis, self.nob, len(self.mine), len(self.lem), p.smt_ms, concrete)
        why = p.global_reason or "; ".join(
            ["out of reach: " + f for f in self.out_of_reach] + ["contract without function: " + g for g in self.gone] +
            ["undischarged %s: " % ("lemma" if x[0] in self.lem else "formula") + x[0] for x in self.soft] + ["undischarged elsewhere: " + x[0] for x in self.elsewhere] +
            ["out of reach elsewhere: " + f for f in p.external if f not in self.out_of_reach]) or "no proof"
        return "%s held on everything explored (bounded this run): %s; %s" % (self.prop, why, concrete)


def attempt(work, root=None):
    """a verification run that never raises"""
    try:
        return prove.prove(prove.build_vx(), work, root)
    except Broken as e:
        p = prove.Proof()
        p.ok = False
        p.global_reason = str(e)[:500]
        return p


def decide(prop, tier, sd, t0, work):
    cases, secs = conf.BUDGET[tier]
    pvh = build.harness()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        hf = [ex.submit(hunt, pvh, prop, sd + 7919 * i, cases, secs, work, str(i)) for i in range(4 if tier == "quick" else 6)]
        p = attempt(work)
        res = [f.result() for f in hf]

    j = Verdict(prop, p)
    failed = j.failed

    # --- what the concrete executions say
    viol = None
    notes = []
    ev_total = {"cases": 0, "evaluations": 0, "distinct": 0, "samples": []}
    for (r, crash) in res:
        if crash:
            cur = find_crash(pvh, prop, sd, cases, secs, work)
            if cur:
                bad, txt = confirm(pvh, cur)
                if bad:
                    viol = (open(cur).read(), "the process died or did not finish (%s)" % crash[1])
            if not viol:
                notes.append("harness run ended with %s and no case reproduces it" % crash[1])
            continue
        for k in ("cases", "evaluations", "distinct"):
            ev_total[k] += r[k]
        ev_total["samples"] += r["samples"]
        if r["violation"] and not viol:
            bad, txt = confirm(pvh, r["violation"]["case"])
            if bad:
                viol = (open(r["violation"]["case"]).read(), r["violation"]["message"])
            else:
                notes.append("a disagreement was not reproducible: " + r["violation"]["message"])

    # --- a failed obligation without input: search harder
    searched = 0
    if failed and not viol:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(hunt, pvh, prop, sd * 31 + 104729 * (i + 1), 10 ** 9, 60, work, "w%d" % i) for i in range(8)]
            for f in fs:
                r, crash = f.result()
                if r:
                    searched += r["cases"]
                    ev_total["evaluations"] += r["evaluations"]
                    ev_total["cases"] += r["cases"]
                    ev_total["distinct"] += r["distinct"]
                    if r["violation"] and not viol:
                        bad, txt = confirm(pvh, r["violation"]["case"])
                        if bad:
                            viol = (open(r["violation"]["case"]).read(), r["violation"]["message"])

    canary = None
    if tier == "thorough":
        facts.run()
    if tier == "thorough" and p.ok:
        canary = prove.canary(work, p)

    # --- evidence
    ev = {
        "property": prop, "tier": tier, "seed": sd,
        "level": "proof" if j.proved else "exploration",
        "coverage": dict(j.coverage(), **{
            "evaluations": ev_total["evaluations"],
            "distinct_nontrivial": ev_total["distinct"],
            "rule": "bounded companion run on the compiled code: random operation scripts (see harness/src/gen.rs) compared with an independent model after each step; a case is non-trivial if it has at least one operation, distinct if its script text is new",
            "samples": ev_total["samples"][:4],
            "notes": notes,
        }),
        "assumptions": j.assumptions(),
        "wall_s": round(time.time() - t0, 2),
        "violations": 0,
    }
    if canary is not None:
        ev["coverage"]["vacuity"] = canary
        vac = canary.get("vacuous", [])
        if vac:
            ev["coverage"]["notes"].append("contracts with contradictory assumptions: " + ", ".join(vac))

    code = 0
    lines = []
    if viol:
        head = "".join("# failed obligation: %s: %s: %s\n" % (n, m, t) for n, k, m, t in failed[:10])
        path = save_replay(prop, head + viol[0], "case")
        lines.append("%s: %s" % (prop, viol[1]))
        for n, k, m, t in failed[:5]:
            lines.append("failed obligation in %s: %s: %s" % (n, m, t))
        lines.append("replay with: %s replay %s" % (pvh, path))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif failed:
        for n, k, m, t in failed:
            lines.append("failed obligation in %s: %s: %s" % (n, m, t))
        path = save_replay(prop, j.report(searched), "obligation.txt")
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        code = 1
    else:
        for k in known(prop):
            lines.append("KNOWN-FINDING: " + k)
        lines.append(j.summary("%d concrete steps agree" % ev_total["evaluations"]))
    ev["violations"] = 1 if code else 0
    if not p.ok and not viol and not ev_total["evaluations"]:
        raise Broken("neither proof nor executions: %s" % p.global_reason)
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("\n".join(lines))
    return code


_vv = None


def verus_version():
    global _vv
    if _vv is None:
        try:
            o = subprocess.run(["verus", "--version"], capture_output=True, text=True, timeout=30).stdout
            _vv = " ".join(x.strip() for x in o.split("\n") if "Version" in x) or "unknown"
        except Exception:
            _vv = "unknown"
    return _vv


if __name__ == "__main__":
    if len(sys.argv) < 2:
        print("usage: check.py PROPERTY [quick|thorough]")
        sys.exit(2)
    if sys.argv[1] == "setup":
        prove.build_vx()
        build.harness()
        build.workspace()
        facts.run()
        sys.exit(0)
    try:
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(sys.argv[1], tier))
    except Broken as e:
        print("check error: %s" % e)
        sys.exit(2)
