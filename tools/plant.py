#!/usr/bin/env python3
"""Development tool: make and confirm a planted bug.
  plant.py make SPEC.py   SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO, FILES={name: text}
  plant.py confirm ID...  re-confirm committed ones
Works in scratch copies of /repo only."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def script(name, wt):
    t = open("/opt/vp/" + name).read().replace("/opt/vp/build.sh", wt + ".build.sh").replace("/repo", wt)
    p = wt + "." + name; open(p, "w").write(t); return p
def confirm(d, tests=True):
    base = tempfile.mkdtemp(prefix="plant-"); ok = False
    try:
        wt = base + "/r"; shutil.copytree("/repo", wt, symlinks=True)
        b, t = script("build.sh", wt), script("test.sh", wt)
        if run(["bash", b]).returncode: return "clean build fails"
        dd = base + "/demo"; shutil.copytree(d, dd)
        for f in os.listdir(dd):
            if f == "meta.json" or f.endswith(".diff"): os.unlink(dd + "/" + f)
        def demo():
            try: return run(["bash", dd + "/demo.sh"], cwd=wt, timeout=300)
            except subprocess.TimeoutExpired: return subprocess.CompletedProcess([], 124, b"timeout")
        r = demo()
        if r.returncode: return "demo fails on the clean tree: " + r.stdout.decode(errors="replace")[-1500:]
        r = run(["git", "apply", d + "/patch.diff"], cwd=wt)
        if r.returncode: return "patch does not apply: " + r.stdout.decode()
        r = run(["bash", b])
        if r.returncode: return "mutant does not build: " + r.stdout.decode()[-800:]
        r = demo()
        if r.returncode == 0: return "demo passes on the mutant"
        print("   demo on mutant:", r.returncode, r.stdout.decode(errors="replace").strip()[-300:])
        if tests:
            r = run(["bash", t, base + "/out.json"])
            j = json.load(open(base + "/out.json")); want = json.load(open("/opt/vp/BASELINE.json"))
            want = want["stable"]
            got = set(j.get("passed", []))
            miss = [x for x in want if x not in got]
            if miss: return f"tests fail with the patch: {miss[:8]} ({len(miss)})"
        ok = True
        return None
    finally: shutil.rmtree(base, ignore_errors=True)
if sys.argv[1] == "make":
    for spec in sys.argv[2:]:
        g = {}; exec(open(spec).read(), g)
        d = os.path.abspath(os.path.join(V, "seeded", g["ID"])); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        wt = tempfile.mkdtemp(prefix="plant-")
        shutil.rmtree(wt); run(["git", "clone", "-q", "/repo", wt])
        for f, old, new in g["EDITS"]:
            s = open(wt + "/" + f).read(); assert s.count(old) == 1, (spec, f, s.count(old), old)
            open(wt + "/" + f, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "wb").write(run(["git", "diff"], cwd=wt).stdout); shutil.rmtree(wt)
        open(d + "/demo.sh", "w").write(g["DEMO"])
        for n, t in g.get("FILES", {}).items(): open(d + "/" + n, "w").write(t)
        json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        e = confirm(d); print(g["ID"], "OK" if e is None else "FAILED: " + e)
else:
    for i in sys.argv[2:]: print(i, confirm(os.path.abspath(os.path.join(V, "seeded", i))) or "OK")
