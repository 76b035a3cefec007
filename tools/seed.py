#!/usr/bin/env python3
"""seed.py batch.py [id...] | seed.py --check [id...]: make and confirm planted bugs in scratch copies.

batch.py defines SEEDS = [dict(id, property, edits=[(file, old, new)...], demo, needs, breaks)].
With --check only runs the checks against the seeds already kept.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
ENV.pop("PYVC_REPO", None)


def ns(repo, cmd, cwd="/repo", timeout=1500):
    """Run cmd with repo shown as /repo."""
    full = f"mount --bind {repo} /repo && cd {cwd} && {cmd}"
    return subprocess.run(["unshare", "-mn", "bash", "-c", "ip link set lo up; " + full], capture_output=True, text=True, timeout=timeout, env=ENV)


def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    return d


def tests(repo, out):
    r = ns(repo, f"bash /opt/vp/test.sh {out}")
    d = json.load(open(out))
    return r, d


def failing(res):
    base = stable()
    names = base.get("stable") or base.get("passed") or base.get("tests")
    passed = set(res.get("passed") or [k for k, v in res.items() if v == "passed"])
    return [n for n in names if n not in passed]


def check(repo, prop):
    # the check writes evidence/ and out/: give it its own copy of /verif
    tmp = tempfile.mkdtemp(prefix="seedv")
    try:
        v = os.path.join(tmp, "verif")
        shutil.copytree(V, v, ignore=shutil.ignore_patterns("seeded", ".git", "out", "evidence"))
        r = subprocess.run(["unshare", "-mn", "bash", "-c", f"ip link set lo up; mount --bind {repo} /repo && mount --bind {v} /verif && cd /verif && ./check {prop}"], capture_output=True, text=True, env=ENV, timeout=1500)
        line = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        return r.returncode, (line or [""])[0], r.stdout[-1500:]
    finally:
        shutil.rmtree(tmp)


def one(s):
    d = f"{V}/seeded/{s['id']}"
    tmp = tempfile.mkdtemp(prefix="seed")
    keep = "edits" not in s
    try:
        repo = f"{tmp}/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        if "edits" in s:
            for f, old, new in s["edits"]:
                p = f"{repo}/{f}"
                t = open(p).read()
                if t.count(old) != 1:
                    return s["id"], f"EDIT MATCHES {t.count(old)} times in {f}: {old[:60]!r}"
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
            os.makedirs(d, exist_ok=True)
            open(f"{d}/patch.diff", "w").write(diff)
            open(f"{d}/demo.py", "w").write(s["demo"])
            open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(f"{d}/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
            r0 = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", capture_output=True, text=True)
            if r0.returncode != 0:
                return s["id"], "DEMO FAILS ON UNCHANGED: " + (r0.stdout + r0.stderr)[-800:]
            b = ns(repo, "bash /opt/vp/build.sh")
            if b.returncode != 0:
                return s["id"], "BUILD FAILS " + b.stdout[-500:]
            r1 = ns(repo, f"bash {d}/demo.sh")
            if r1.returncode == 0:
                return s["id"], "DEMO PASSES WITH PATCH"
            _, res = tests(repo, f"{tmp}/o.json")
            f = failing(res)
            if f:
                _, res = tests(repo, f"{tmp}/o.json")
                f = [x for x in f if x in failing(res)]
            if f:
                return s["id"], f"TESTS FAIL {f}"
            keep = True
        else:
            r = subprocess.run(["git", "-C", repo, "apply", f"{d}/patch.diff"], capture_output=True, text=True)
            if r.returncode:
                return s["id"], "PATCH DOES NOT APPLY " + r.stderr
        if os.environ.get("NOCHECK"):
            return s["id"], "confirmed"
        rc, line, tail = check(repo, s["property"])
        return s["id"], f"{'CAUGHT' if rc == 1 and line else 'MISSED'} rc={rc} {line}" + ("" if rc == 1 and line else "\n" + tail)
    finally:
        shutil.rmtree(tmp)
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


if sys.argv[1] == "--check":
    seeds = []
    for i in sorted(os.listdir(f"{V}/seeded")):
        if len(sys.argv) > 2 and not any(i.startswith(a) for a in sys.argv[2:]):
            continue
        seeds.append({"id": i, "property": json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]})
    workers = 2
else:
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    if len(sys.argv) > 2:
        seeds = [s for s in seeds if s["id"] in sys.argv[2:]]
    workers = 3
RES = f"{V}/tools/seed_results.json"
done = json.load(open(RES)) if os.path.exists(RES) else {}
with ThreadPoolExecutor(workers) as ex:
    for i, msg in ex.map(one, seeds):
        print(i, msg, flush=True)
        if msg.startswith(("CAUGHT", "MISSED")):
            done[i] = msg.splitlines()[0].split(" rc=")[0].lower() + (", obligation only" if "no-failing-input" in msg.splitlines()[0] else "")
            with open(RES, "w") as f:
                json.dump(dict(sorted(done.items())), f, indent=1)
