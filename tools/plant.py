#!/usr/bin/env python3
"""Try planted bugs in private copies of /repo (a mount namespace per bug shows the copy as /repo).
  plant.py ID... [--checks P01,P02]   confirm: builds, stable tests pass, demo fails; then run the checks
Results go to stdout; nothing in /repo or /verif changes (except build/ caches)."""
import json, os, shutil, subprocess, sys, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(script, timeout=1500):
    return subprocess.run(["unshare", "-m", "bash", "-c", script], capture_output=True, text=True, timeout=timeout)


def one(bug, checks, verify):
    d = f"{V}/seeded/{bug}"
    meta = json.load(open(d + "/meta.json"))
    w = f"/tmp/plant-{bug}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    res = []
    try:
        p = subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if p.returncode:
            return f"{bug}: patch does not apply: {p.stderr}"
        ns = f"mount --bind {w} /repo; cd /repo; "
        if verify:
            p = sh(ns + f"bash /opt/vp/build.sh >/dev/null 2>{w}.log && bash /opt/vp/test.sh {w}.json >/dev/null 2>&1; echo rc $?")
            o = json.load(open(f"{w}.json"))
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            miss = sorted(base - set(o["passed"]))
            res.append("TESTS " + ("ok" if not miss else f"FAIL {len(miss)} {miss[:4]}"))
            p = sh(ns + f"bash {d}/demo.sh")
            res.append(f"demo rc {p.returncode} {(p.stdout + p.stderr)[-200:].strip()!r}")
        for c in checks or [meta["property"]]:
            p = sh(ns + f"cd {V}; python3 run.py {c}")
            v = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION")]
            res.append(f"{c} rc {p.returncode} {len(v)} violations {v[:1]}" + ("" if p.returncode in (0, 1) else p.stderr[-500:]))
    finally:
        shutil.rmtree(w, ignore_errors=True)
        for e in (".log", ".json"):
            if os.path.exists(w + e):
                os.remove(w + e)
    return f"{bug}: " + "\n    ".join(res)


if __name__ == "__main__":
    a = sys.argv[1:]
    checks, verify, bugs = None, True, []
    while a:
        x = a.pop(0)
        if x == "--checks":
            checks = a.pop(0).split(",")
        elif x == "--noverify":
            verify = False
        else:
            bugs.append(x)
    if not bugs:
        bugs = sorted(os.listdir(V + "/seeded"))
    with concurrent.futures.ThreadPoolExecutor(1) as ex:
        for r in ex.map(lambda b: one(b, checks, verify), bugs):
            print(r, flush=True)
