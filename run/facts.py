"""Assumed contracts of std that Kani decides for every input (crate /verif/facts).

The facts do not depend on /repo, so they are decided once per setup (and again in the
thorough tier); without a result every one of them is listed as an unchecked assumption."""
import hashlib, json, os, re, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prove import BUILD, VERIF

DIR = os.path.join(VERIF, "facts")
OUT = os.path.join(BUILD, "facts.json")


def key():
    with open(os.path.join(DIR, "src", "lib.rs"), "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def run(limit=600):
    """decides all facts; returns the record that is kept, or None"""
    t0 = time.time()
    e = dict(os.environ, CARGO_NET_OFFLINE="true")
    e.pop("RUSTUP_TOOLCHAIN", None)
    try:
        r = subprocess.run(["cargo", "kani", "--target-dir", os.path.join(BUILD, "facts"), "-j", "4", "--output-format", "terse"], cwd=DIR, env=e, capture_output=True,
                           text=True, timeout=limit)
        v = subprocess.run(["cargo", "kani", "--version"], cwd=DIR, env=e, capture_output=True, text=True, timeout=60).stdout.strip()
    except (OSError, subprocess.TimeoutExpired):
        return None
    ok, bad, at, th = [], [], {}, ""
    for l in r.stdout.split("\n"):
        # a thread's lines follow the one that names it
        m = re.match(r"Thread (\d+):", l)
        th = m.group(1) if m else th
        h = re.search(r"Checking harness (\w+)", l)
        if h:
            at[th] = h.group(1)
        if "VERIFICATION:- SUCCESSFUL" in l and th in at:
            ok.append(at[th])
        elif "VERIFICATION:- FAILED" in l and th in at:
            bad.append(at[th])
    if not ok and not bad:
        return None
    d = {"key": key(), "backend": "Kani " + (re.findall(r"\d+\.\d+\.\d+", v) or [""])[0], "proved": sorted(ok), "refuted": sorted(bad), "wall_s": round(time.time() - t0, 1)}
    os.makedirs(BUILD, exist_ok=True)
    with open(OUT + ".new", "w") as f:
        json.dump(d, f)
    os.replace(OUT + ".new", OUT)
    return d


def load():
    try:
        with open(OUT) as f:
            d = json.load(f)
    except (OSError, ValueError):
        return None
    return d if d.get("key") == key() else None


def split(assumed):
    """(assumptions nothing has decided, record of those Kani has decided)"""
    d = load()
    if not d:
        return assumed, None
    rest, done = [], []
    for a in assumed:
        m = re.match(r"(?:assumed contract (?:\(body not verified\) )?of|axiom) ([\w:]+)$", a)
        (done if m and m.group(1).replace("::", "_") in d["proved"] else rest).append(a)
    return rest, {"backend": d["backend"], "wall_s": d["wall_s"], "facts": done, "refuted": d["refuted"]}


if __name__ == "__main__":
    d = run()
    print(json.dumps(d, indent=1))
    sys.exit(0 if d and not d["refuted"] else 1)
