#!/usr/bin/env python3
"""Developer tool (no check uses it): build, validate and run planted bugs.
 plant.py make SPECS.py [id ...]   write /verif/seeded/<id>/ from the SPECS list and validate it (demo both ways, stable tests, blame)
 plant.py catch id PROP[,PROP]     run checks against the bug in a scratch copy
 plant.py all                      run each seeded bug's own property check (quick) in scratch copies
SPECS entries: dict(id, prop, edits=[(file, old, new)], demo=python source, needs, breaks)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED, PY = os.environ.get("SEED", VERIF + "/seeded"), "/opt/venv/bin/python"
ENV = {**os.environ, "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
SH = 'cd "$PWD"\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"\n'

def copy():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
    return d

def run(cmd, cwd, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, "timeout"

def stable_failures(d):
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    rc, out = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:warnings", "--rootdir", d, "--tb=no", "-rA", "fixedIncome/tests"], d, 1500)
    ok = {l.split(" ", 1)[1].strip().replace("/", ".").replace(".py::", "::") for l in out.splitlines() if l.startswith("PASSED ")}
    return [s for s in stable if s not in ok]

def make(s):
    d = copy(); o = f"{SEED}/{s['id']}"; msg = []
    try:
        for f, old, new in s["edits"]:
            p = f"{d}/{f}"; t = open(p).read()
            if t.count(old) != 1: return s["id"], [f"{f}: {t.count(old)} matches for {old[:60]!r}"]
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        ours = 0; base = 0
        for f in {e[0] for e in s["edits"]}:
            hunks = subprocess.run(["git", "-C", d, "diff", "-U0", "--", f], capture_output=True, text=True).stdout
            for l in hunks.splitlines():
                if l.startswith("@@"):
                    a = l.split()[1][1:].split(","); n = int(a[1]) if len(a) > 1 else 1
                    if n:
                        b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L", f"{a[0]},+{n}", "HEAD", "--", f], capture_output=True, text=True).stdout
                        for x in b.splitlines():
                            if x.startswith("^61146cf"): base += 1
                            else: ours += 1
        if ours or not base: msg.append(f"changes {ours} fix lines, {base} original lines")
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff); open(o + "/demo.py", "w").write(s["demo"].lstrip()); open(o + "/demo.sh", "w").write("#!/bin/bash\n" + SH)
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        rc, out = run(["bash", o + "/demo.sh"], "/repo", 300)
        if rc: msg.append("demo fails on the unchanged tree: " + out[-600:])
        rc, out = run(["bash", o + "/demo.sh"], d, 300)
        if rc == 0: msg.append("demo passes with the patch")
        if not msg:
            bad = stable_failures(d)
            if bad: msg.append(f"stable tests fail: {bad[:4]}")
        if not msg:
            with LOCK: msg.append("OK; " + catch(s["id"], [s["prop"]], d))
        return s["id"], msg
    finally: shutil.rmtree(d)

def catch(i, props, d=None):
    own = d is None
    if own:
        d = copy(); subprocess.run(["git", "-C", d, "apply", f"{SEED}/{i}/patch.diff"], check=True)
    w = tempfile.mkdtemp(prefix="plantv-", dir="/tmp"); res = []
    try:
        for x in ("run.py", "vlib", "checks", "known_findings.txt", "props.py"): subprocess.run(["cp", "-a", f"{VERIF}/{x}", w], check=True)
        ENV["VERIF_REPO"] = d
        for p in props:
            e = {**ENV, "VERIF_REPO": d}
            try:
                r = subprocess.run([PY, w + "/run.py", p, "--tier", "quick"], cwd=w, env=e, capture_output=True, text=True, timeout=900)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                res.append(f"{p}: {'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode} {r.stdout.strip().splitlines()[0][:150] if r.stdout.strip() else r.stderr[-200:]}")
            except subprocess.TimeoutExpired: res.append(p + ": TIMEOUT")
        return " | ".join(res)
    finally:
        shutil.rmtree(w)
        if own: shutil.rmtree(d)

import threading
LOCK = threading.Lock()
if __name__ == "__main__":
    if sys.argv[1] == "make":
        ns = {}; exec(open(sys.argv[2]).read(), ns)
        todo = [s for s in ns["SPECS"] if len(sys.argv) == 3 or s["id"] in sys.argv[3:]]
        with ThreadPoolExecutor(6) as ex:
            for i, m in ex.map(make, todo): print(i, "::", " ## ".join(m), flush=True)
    elif sys.argv[1] == "catch": print(catch(sys.argv[2], sys.argv[3].split(",")))
    else:
        for i in sorted(os.listdir(SEED)): print(i, catch(i, [json.load(open(f"{SEED}/{i}/meta.json"))["property"]]), flush=True)
