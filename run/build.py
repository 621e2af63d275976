"""Builds of the harness and of the /repo workspace, always from the current tree."""
import fcntl, hashlib, os, subprocess
from prove import BUILD, REPO, VERIF, Broken, cargo_env


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def fresh(target, manifest_dir, pkgs):
    """cargo decides by time stamps; when the tree differs from the one last built, forget the old result"""
    stamp = os.path.join(BUILD, target + ".tree")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now and os.path.isdir(os.path.join(BUILD, target)):
        for p in pkgs:
            subprocess.run(["cargo", "clean", "--offline", "--release", "-p", p], cwd=manifest_dir, env=cargo_env(target), capture_output=True)
            subprocess.run(["cargo", "clean", "--offline", "-p", p], cwd=manifest_dir, env=cargo_env(target), capture_output=True)
    return stamp, now


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def harness():
    d = os.path.join(VERIF, "harness")
    with Lock("harness"):
        stamp, now = fresh("harness", d, ["poppy-filters", "harness"])
        r = subprocess.run(["cargo", "build", "--offline", "--release", "-q"], cwd=d, env=cargo_env("harness"), capture_output=True, text=True)
        if r.returncode:
            raise Broken("the harness does not build against /repo:\n" + r.stderr[-3000:])
        open(stamp, "w").write(now)
    return os.path.join(BUILD, "harness", "release", "pvh")


def workspace():
    """command-line tool and Python module, built with overflow checks (dev profile)"""
    with Lock("ws"):
        stamp, now = fresh("ws", REPO, ["poppy-filters", "poppy-py"])
        r = subprocess.run(["cargo", "build", "--workspace", "--offline", "--locked", "-q"], cwd=REPO, env=cargo_env("ws"), capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(["cargo", "build", "--workspace", "--offline", "-q"], cwd=REPO, env=cargo_env("ws"), capture_output=True, text=True)
        if r.returncode:
            raise Broken("/repo does not build:\n" + r.stderr[-3000:])
        open(stamp, "w").write(now)
    return os.path.join(BUILD, "ws", "debug")
