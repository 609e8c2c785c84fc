"""Runs one check: many seeded simulated runs in worker processes, gate and
minimise a violation, write the evidence file."""
import json, os, sys, time, multiprocessing as mp, subprocess, traceback, hashlib, importlib
from collections import Counter
from . import common as K

def load_known(prop):
    out = []
    try:
        with open(os.path.join(K.VERIF, "known-findings.txt")) as f:
            for l in f:
                l = l.strip()
                if l.startswith("finding: property=" + prop + " "): out.append(l)
    except FileNotFoundError: pass
    return out

def scenario(prop):
    m = importlib.import_module("dst.props." + prop.lower())
    return m.S()

_S = None
def _init(prop):
    global _S
    import signal; signal.signal(signal.SIGINT, signal.SIG_IGN)
    _S = scenario(prop)
def _task(gseed):
    try: return _S.explore(gseed)
    except K.HarnessError as e: return dict(error=str(e), gseed=gseed)
    except Exception as e: return dict(error=traceback.format_exc(), gseed=gseed)

def main(argv):
    prop = argv[0]
    if prop == "--replay": return replay(argv[1])
    seed = int(os.environ.get("VERIF_SEED", "1")); tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv: tier = "thorough"
    t0 = time.time()
    S = scenario(prop); S.prepare() if hasattr(S, "prepare") else None
    n = S.PROGRAMS; cap = float(os.environ.get("VERIF_CAP", "300" if tier == "quick" else "3300"))
    if tier == "thorough": n = n * getattr(S, "THOROUGH", 40)
    if os.environ.get("VERIF_N"): n = int(os.environ["VERIF_N"])
    seeds = [K.subseed(seed, prop, i) for i in range(n)]
    agg = dict(runs=0, nontrivial=0, steps=0); stats = Counter(); probes = Counter(); hashes = set(); samples = []; viol = None; errors = []; done = 0; truncated = False
    ctx = mp.get_context("fork")
    with ctx.Pool(K.JOBS, _init, (prop,)) as pool:
        for out in pool.imap(_task, seeds, chunksize=max(1, min(8, n // (K.JOBS * 8) or 1))):
            if "error" in out: errors.append(out); 
            else:
                done += 1
                for k in agg: agg[k] += out.get(k, 0)
                stats.update(out["stats"]); probes.update(out["probes"]); hashes.update(out["hashes"])
                if len(samples) < 3 and out.get("sample"): samples.append(out["sample"])
                if out["viol"]: viol = out["viol"]; break
            if len(errors) > 3: break
            if time.time() - t0 > cap: truncated = True; break
        pool.terminate()
    wall = time.time() - t0
    rc = 0; vpath = None
    if viol is None and errors:
        print("ERROR: the check itself failed:", errors[0]["error"][-3000:], "gseed", errors[0]["gseed"]); rc = 2
    if viol is not None:
        rc, vpath, info = report(S, prop, seed, viol)
    known = load_known(prop)
    for l in known: print("KNOWN-FINDING: " + l[len("finding: "):])
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2), violations=1 if rc == 1 else 0,
        coverage=dict(evaluations=agg["runs"], distinct_nontrivial=len(hashes), rule=S.RULE, samples=samples,
            programs=done, programs_planned=n, truncated_by_time=truncated, runs_nontrivial=agg["nontrivial"],
            runs_per_hour=int(agg["runs"] / max(wall, 0.01) * 3600), seeds_per_hour=int(done / max(wall, 0.01) * 3600),
            simulated_time=f"{agg['steps']} {getattr(S, 'STEPNAME', 'instructions executed')}",
            faults_injected={k: v for k, v in sorted(S.faultnames(stats).items())}, probes=dict(sorted(probes.items())),
            distinct_measure=S.MEASURE, real_code=S.REAL, stubs=S.STUB),
        assumptions=S.ASSUME)
    os.makedirs(os.path.join(K.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(K.VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if rc == 0:
        if agg["runs"] == 0 or not hashes: print("ERROR: nothing was explored"); return 2
        print(f"{prop}: held on {agg['runs']} simulated runs of {done} cases ({len(hashes)} distinct), {wall:.1f} s")
    return rc

def report(S, prop, seed, viol):
    """Gate: same seed twice, minimise, replay in a fresh process."""
    a, b = S.rerun(viol), S.rerun(viol)
    if not a or not b or a[2] != b[2] or a[0] != viol["cls"]:
        print("ERROR: the violation does not repeat:", viol["cls"], viol["msg"], a and a[:3], b and b[:3]); return 2, None, None
    try: m = S.minimise(viol)
    except Exception: print("note: minimising failed:", traceback.format_exc()[-600:]); m = viol
    os.makedirs(os.path.join(K.VERIF, "replays"), exist_ok=True)
    g = S.rerun(m)
    if not g or g[0] != viol["cls"]: m = viol; g = a
    path = os.path.join(K.VERIF, "replays", f"{prop}-{seed}-{viol['gseed'] & 0xffffffff:08x}.json")
    with open(path, "w") as f: json.dump(dict(property=prop, seed=seed, spec=m, cls=g[0], message=g[1], hash=g[2], readable=S.describe(m)), f, indent=1)
    r = subprocess.run([sys.executable, os.path.join(K.VERIF, "check.py"), "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 1:
        print("ERROR: a fresh process does not reproduce the violation:", r.stdout.decode()[-1500:]); return 2, path, None
    print(f"{prop}: {g[0]}: {g[1]}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1, path, g

def replay(path):
    d = json.load(open(path)); S = scenario(d["property"]); S.prepare() if hasattr(S, "prepare") else None
    g = S.rerun(d["spec"])
    if not g: print("not reproduced"); return 0
    same = g[2] == d["hash"] and g[0] == d["cls"]
    print(f"{d['property']}: {g[0]}: {g[1]}\nexecution hash {g[2]}: {'identical to' if same else 'DIFFERS from'} the recorded one")
    if not same: return 2
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1
