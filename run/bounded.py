"""Bounded checks (not proofs) of the command-line tool and of the Python module, on the built artefacts."""
import concurrent.futures, json, os, random, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, conf, prove
from prove import VERIF, Broken

EV = os.path.join(VERIF, "evidence")
SECS = {"quick": 25, "thorough": 240}
WORKERS = 8


class Model:
    """the reference model of the harness, behind its line protocol"""

    def __init__(self, pvh):
        self.p = subprocess.Popen([pvh, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, *a):
        self.p.stdin.write(" ".join(str(x) for x in a) + "\n")
        self.p.stdin.flush()
        r = self.p.stdout.readline()
        if not r:
            raise Broken("the reference model stopped")
        return r.strip()

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def enc(b):
    return b.hex() if b else "-"


def dec(s):
    if s == "-":
        return b""
    o = []
    for t in s.split("."):
        h, _, n = t.partition("*")
        o.append(bytes.fromhex(h) * (int(n) if n else 1))
    return b"".join(o)


def domain(prop):
    if conf.BOUNDED[prop] == "cli":
        import cli
        return cli
    import pyb
    return pyb


def worker(dom, prop, pvh, bindir, seed, wid, until, work):
    """cases until the time is over or one fails; returns (cases, commands, distinct, failure, samples)"""
    m = Model(pvh)
    cases = cmds = 0
    seen = set()
    samples = []
    try:
        while time.time() < until:
            r = random.Random("%s/%d/%d/%d" % (prop, seed, wid, cases))
            c = dom.case(prop, r)
            cases += 1
            seen.add(hash(json.dumps(c, sort_keys=True)))
            if len(samples) < 2:
                samples.append(dom.show(c))
            n, fail = dom.run(prop, c, m, bindir, work)
            cmds += n
            if fail:
                return cases, cmds, len(seen), (c, fail), samples
    finally:
        m.close()
    return cases, cmds, len(seen), None, samples


def apart(*a):
    """a worker in a process of its own, so that the workers do not wait for one another"""
    prop, pvh, bindir, seed, wid, secs, work = a
    r = subprocess.run([sys.executable, os.path.abspath(__file__), "--worker", json.dumps(a)], capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("a worker stopped: " + r.stderr[-2000:])
    return json.loads(r.stdout)


def shrink(dom, prop, c, pvh, bindir, work):
    t0 = time.time()
    m = Model(pvh)
    try:
        again = True
        while again and time.time() - t0 < 30:
            again = False
            for d in dom.smaller(c):
                if time.time() - t0 > 30:
                    break
                _, f = dom.run(prop, d, m, bindir, work)
                if f:
                    c = d
                    again = True
                    break
        _, f = dom.run(prop, c, m, bindir, work)
    finally:
        m.close()
    return c, f


def explore(dom, prop, pvh, bindir, sd, secs, work, notes):
    """all workers for the given time; returns their results and a confirmed, shrunk failure"""
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        rs = [f.result() for f in [ex.submit(apart, prop, pvh, bindir, sd, i, secs, work) for i in range(WORKERS)]]
    for r in rs:
        if not r[3]:
            continue
        # a case counts only if it fails again on its own
        m = Model(pvh)
        n, f = dom.run(prop, r[3][0], m, bindir, work)
        m.close()
        if f:
            bad = shrink(dom, prop, r[3][0], pvh, bindir, work)
            return rs, bad if bad[1] else (r[3][0], f)
        notes.append("a disagreement was not reproducible: " + r[3][1])
    return rs, None


def check(prop, tier, sd, t0):
    import check as ck
    dom = domain(prop)
    pvh = build.harness()
    bindir = build.workspace()
    work = tempfile.mkdtemp(prefix="poppy-verif-")
    notes = []
    j = canary = None
    searched = 0
    try:
        with concurrent.futures.ThreadPoolExecutor(1) as ex:
            pf = None
            if prop in conf.PROPS:
                os.makedirs(os.path.join(work, "proof"))
                pf = ex.submit(ck.attempt, os.path.join(work, "proof"), conf.BOUNDED[prop])
            rs, bad = explore(dom, prop, pvh, bindir, sd, SECS[tier], work, notes)
            if pf:
                j = ck.Verdict(prop, pf.result())
        if j and j.failed and not bad:
            # a failed obligation without a scenario: search harder
            r2, bad = explore(dom, prop, pvh, bindir, sd * 31 + 7, 120, work, notes)
            searched = sum(r[0] for r in r2)
            rs += r2
        if j and tier == "thorough" and j.p.ok:
            canary = prove.canary(os.path.join(work, "proof"), j.p)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    failed = j.failed if j else []
    ev = {
        "property": prop, "tier": tier, "seed": sd, "level": "proof" if j and j.proved else "exploration",
        "coverage": dict(j.coverage() if j else {}, evaluations=sum(r[1] for r in rs), distinct_nontrivial=sum(r[2] for r in rs), cases=sum(r[0] for r in rs),
                         rule=dom.RULE, samples=[s for r in rs for s in r[4]][:4], notes=notes),
        "assumptions": (j.assumptions() if j else []) + dom.BEYOND,
        "wall_s": round(time.time() - t0, 2), "violations": 1 if bad or failed else 0,
    }
    if canary is not None:
        ev["coverage"]["vacuity"] = canary
        if canary.get("vacuous"):
            notes.append("contracts with contradictory assumptions: " + ", ".join(canary["vacuous"]))
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n, k, m, t in failed[:5]:
        print("failed obligation in %s: %s: %s" % (n, m, t))
    if bad:
        path = os.path.join(EV, "replays", prop + ".json")
        with open(path, "w") as f:
            json.dump({"property": prop, "what": bad[1], "case": bad[0], "failed_obligations": [list(x) for x in failed[:10]]}, f, indent=1)
        print("%s: %s" % (prop, bad[1]))
        print("replay with: python3 %s %s" % (os.path.abspath(__file__), path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if failed:
        path = ck.save_replay(prop, j.report(searched), "obligation.txt")
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        return 1
    for k in ck.known(prop):
        print("KNOWN-FINDING: " + k)
    told = "%d scenarios, %d operations agree" % (ev["coverage"]["cases"], ev["coverage"]["evaluations"])
    print(j.summary(told) if j else "%s held on everything explored (bounded): %s" % (prop, told))
    return 0


if __name__ == "__main__" and sys.argv[1] == "--worker":
    prop, pvh, bindir, seed, wid, secs, work = json.loads(sys.argv[2])
    print(json.dumps(worker(domain(prop), prop, pvh, bindir, seed, wid, time.time() + secs, work)))
elif __name__ == "__main__":
    d = json.load(open(sys.argv[1]))
    work = tempfile.mkdtemp(prefix="poppy-verif-")
    m = Model(build.harness())
    try:
        n, f = domain(d["property"]).run(d["property"], d["case"], m, build.workspace(), work)
    finally:
        m.close()
        shutil.rmtree(work, ignore_errors=True)
    print("still fails: " + f if f else "held (%d operations)" % n)
    sys.exit(1 if f else 0)
