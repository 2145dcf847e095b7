"""Plants bugs for testing the checks: seed.py DEFS.py [ID...]
DEFS.py defines S = {id: dict(prop, edits=[(file, old, new)], needs, breaks, demo, stubs=[...])}.
A bug is kept in /verif/seeded/<id> when it changes original lines, the stable tests pass, and the demo fails with it only."""
import json, os, re, shutil, subprocess, sys
V, R = "/verif", "/repo"
sh = lambda *a, **k: subprocess.run(a, capture_output=True, text=True, **k)
git = lambda *a: sh("git", "-C", R, *a)
ROOT = git("rev-list", "--max-parents=0", "HEAD").stdout.split()[0]
DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PYTHONDONTWRITEBYTECODE=1 REPO=$repo
export PYTHONPATH=$here:$repo/core:$repo/inference_engine:$repo/quantizer:$repo/model_converters/keras2json:$repo/model_converters/onnx2json:$repo/model_converters/tflite2json:$repo/demo/demo_lib
cd "$work"
timeout 250 /opt/venv/bin/python "$here/demo.py"
"""


def plant(i, s, checks):
    assert not git("status", "--porcelain").stdout, "repo dirty"
    d = f"{V}/seeded/{i}"
    try:
        for f, old, new in s["edits"]:
            p = f"{R}/{f}"; t = open(p).read()
            if t.count(old) != 1: return f"REJECT {f}: {t.count(old)} occurrences of {old!r}"
            open(p, "w").write(t.replace(old, new))
        diff = git("diff").stdout
        orig = 0
        for f in {e[0] for e in s["edits"]}:
            for h in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", git("diff", "-U0", "--", f).stdout, re.M):
                a, n = int(h[0]), int(h[1] or 1)
                if n:
                    b = git("blame", "-l", "-s", "-L", f"{a},{a+n-1}", "HEAD", "--", f).stdout.splitlines()
                    mine = [l for l in b if not l.lstrip("^").startswith(ROOT[:39])]
                    if mine: return "REJECT touches my lines: " + mine[0]
                    orig += len(b)
        if not orig: return "REJECT no original line changed"
        b = sh("bash", "/opt/vp/build.sh")
        if b.returncode: return "REJECT build"
        sh("bash", "/opt/vp/test.sh", "/tmp/seed_t.json")
        t = json.load(open("/tmp/seed_t.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [x for x in base if x not in t.get("passed", [])]
        if bad: return f"REJECT tests fail: {bad[:3]}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO)
        for st in s.get("stubs", []): shutil.copy(f"{V}/harness/stubs/{st}", d)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r1 = sh("bash", d + "/demo.sh", cwd=R)
        out = []
        for c in checks or [s["prop"]]:
            r = sh("/opt/venv/bin/python", V + "/check.py", c, cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"{c}:{'CAUGHT' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0 else 'rc%d' % r.returncode}" + (" " + (re.search(r"clause=?\S* ?\S*", r.stdout) or [""])[0][:80] if v else ""))
    finally:
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    r0 = sh("bash", d + "/demo.sh", cwd=R)
    if r0.returncode or not r1.returncode:
        shutil.rmtree(d)
        return f"REJECT demo: clean rc {r0.returncode}, patched rc {r1.returncode}\n{r0.stderr[-600:]}\n{r1.stdout[-300:]}"
    return "KEPT " + " ".join(out) + " | demo: " + (r1.stderr.strip().splitlines() or [""])[-1][:100]


if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    chk = [a[2:] for a in sys.argv[2:] if a.startswith("c=")]
    ids = [a for a in sys.argv[2:] if not a.startswith("c=")]
    for i, s in g["S"].items():
        if not ids or i in ids: print(i, s["prop"], plant(i, s, chk), flush=True)
