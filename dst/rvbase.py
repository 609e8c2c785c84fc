"""Common engine of the properties about generated code.

A scenario supplies gen() (program from a seed, made of droppable items),
plan() (scheduler parameters and faults of one run) and check() (oracle over
the recorded history).  One (gseed, run index) is one exactly repeatable
execution."""
import time
from collections import Counter
from . import common as K, rv

def char_signedness():
    """Plain char is signed or not, by the implementation's choice."""
    from . import ctypes_model as M
    p = rv.Prog(rv.build(["long f(void) { char c = -1; return c < 0; }\n"], name="cs"))
    r = p.run([("f", [])], dict(seed=1))
    M.TYPES["char"] = (8, bool(r.ret[0]))

class Program:
    def __init__(self, files, harts, flags=(), foreign=(), meta=None, nitems=0, desc="", std_inputs=None, memcfg=None):
        self.files, self.harts, self.flags, self.foreign, self.meta, self.nitems, self.desc = files, harts, list(flags), list(foreign), meta, nitems, desc
        self.runargs = {}

FAULTSTATS = dict(sc_fail_inj="spurious SC failures", signals="signals delivered", stalls="stalls", stale="stale loads", delayed="delayed loads",
                  forwards="store-buffer forwards", clobbers="hostile register clobbers", coswitch="coroutine switches", switches="context switches",
                  sc_fail_nat="contended SC failures")

class RvScenario:
    ID = None
    RUNS = 24            # runs per program
    MAXSTEPS = 4000000   # bound for undisturbed runs; disturbed ones get a multiple of the undisturbed length
    weak = False; HASH = "hash"
    MEASURE = "distinct hashes of the sequence (thread, pc) of accesses to shared memory, per program"
    REAL = ["compiler under test (built from /repo's working tree)", "GNU as and ld", "all generated code of the program", "libgcc"]
    STUB = ["RISC-V harts, memory system and scheduler (rvsim)", "thread start and signal delivery", "__tls_get_addr", "history recording calls"]
    ASSUME = ["rvsim executes RV64GC instructions as the ISA manual defines them", "GNU as, ld and libgcc are correct"]
    def prepare(self):
        K.host_toycc_cached(); rv.lib(); rv.scratch_base(); char_signedness()
    def faultnames(self, stats): return {FAULTSTATS[k]: v for k, v in stats.items() if k in FAULTSTATS and v}
    def gen(self, seed, drop=frozenset()): raise NotImplementedError
    def plan(self, P, rng, base, k): raise NotImplementedError
    def check(self, P, prog, r): raise NotImplementedError
    def nontrivial(self, P, r): return r.stats["switches"] > len(P.harts)
    # -- helpers
    def load(self, P):
        self.reference(P)
        prog = rv.Prog(rv.build(P.files, P.flags, "toycc", P.foreign)); self.solo(P, prog)
        return prog
    def reference(self, P): pass
    def solo(self, P, prog): pass
    def execute(self, P, prog, run, record=False):
        cfg = dict(run["cfg"]); cfg.setdefault("max_steps", self.MAXSTEPS)
        if record: cfg["record"] = 1
        r = prog.run(P.harts, cfg, faults=[tuple(f) for f in run.get("faults", ())], segs=run.get("segs"), decs=run.get("decs"),
                        regseed=run.get("regseed", 1), **self.runargs(P, run))
        if r.rc == 0: self.after(P, prog, r)
        return r
    def after(self, P, prog, r): pass
    def runargs(self, P, run): return {}
    def symcfg(self, P, prog, run): pass
    def judge(self, P, prog, r):
        if r.rc == 2: return ("trap", rv.trapmsg(r.trap))
        if r.rc == 1: return ("no-progress", f"not finished after {r.stats['steps']} steps, the last part of them fair and fault-free")
        return self.check(P, prog, r)
    def compile_check(self, P, e):
        """toycc failed: a violation only if gcc accepts the program."""
        try: rv.build(P.files, [f for f in P.flags], "gcc", P.foreign, name="ref")
        except rv.CompileError: raise K.HarnessError("generated program is not valid: " + str(e))
        return ("compile", f"the compiler fails on a valid program: {e}")
    def policies(self, rng, base, nh):
        """Swarm choice of scheduling policy."""
        n = max(50, sum(base.icount))
        pol = rng.choice([1, 1, 2, 2, 3, 4, 4, 4]); cfg = dict(seed=rng.getrandbits(62), policy=pol, fair_after=4 * n + 20000, max_steps=12 * n + 700000)
        if pol == 1: cfg["p_switch"] = rng.choice([8, 40, 150, 500])
        elif pol == 2: cfg["pct_points"] = rng.choice([1, 2, 3, 5, 8]); cfg["est_len"] = n
        elif pol == 3: cfg["quantum"] = rng.choice([2, 5, 12, 30, 100])
        else: cfg["p_switch"] = rng.choice([100, 300, 600, 900])
        return cfg
    # -- exploration
    def explore(self, gseed, runs=None):
        t0 = time.time()
        out = dict(runs=0, nontrivial=0, stats=Counter(), hashes=[], steps=0, viol=None, sample=None, probes=Counter())
        P = self.gen(gseed)
        try: prog = self.load(P)
        except rv.CompileError as e:
            v = self.compile_check(P, e); out["runs"] = 1
            if v is None: out["probes"]["programs the compiler does not support"] += 1; return out
            out["viol"] = dict(gseed=gseed, drop=[], run=None, cls=v[0], msg=v[1]); return out
        base = None
        for k in range(-1, runs or self.RUNS):
            if k < 0: run = self.baseplan(P)
            else: run = self.plan(P, K.sub(gseed, "run", k), base, k)
            self.symcfg(P, prog, run)
            r = self.execute(P, prog, run)
            if base is None: base = r
            out["runs"] += 1; out["steps"] += r.stats["steps"]
            for s in FAULTSTATS: out["stats"][s] += r.stats[s]
            if self.nontrivial(P, r): out["nontrivial"] += 1; out["hashes"].append(r.stats[self.HASH] ^ (gseed & 0xffffffff))
            self.probe(P, r, out["probes"])
            v = self.judge(P, prog, r)
            if v:
                out["viol"] = dict(gseed=gseed, drop=[], run=run, cls=v[0], msg=v[1]); break
        if out["sample"] is None:
            out["sample"] = dict(gseed=gseed, program=P.desc or P.files[0][:1500], last_run=self.brief(run), events=len(r.events))
        return out
    def brief(self, run):
        return {k: v for k, v in run.items() if k in ("cfg", "faults")}
    def probe(self, P, r, c): pass
    def baseplan(self, P): return dict(cfg=dict(seed=1, policy=0, hostile=1), regseed=1)
    # -- replay and minimisation
    def rerun(self, spec, record=False):
        """Execute a specification exactly; returns (cls, msg, hash, result) or None."""
        P = self.gen(spec["gseed"], frozenset(spec["drop"]))
        try: prog = self.load(P)
        except rv.CompileError as e:
            v = self.compile_check(P, e); return (v[0], v[1], "compile", None) if v else None
        if spec["run"] is None: return None
        run = dict(spec["run"]); self.symcfg(P, prog, run)
        r = self.execute(P, prog, run, record); v = self.judge(P, prog, r)
        return (v[0], v[1], f"{r.stats['fhash']:016x}", r) if v else None
    def minimise(self, spec, budget=60):
        t0 = time.time(); cls = spec["cls"]
        def left(): return time.time() - t0 < budget
        def search(drop, n=60):
            P = self.gen(spec["gseed"], frozenset(drop))
            try: prog = self.load(P)
            except rv.CompileError as e:
                return dict(gseed=spec["gseed"], drop=sorted(drop), run=None, cls="compile", msg=str(e)) if cls == "compile" else None
            if cls == "compile": return None
            base = None
            for k in range(-1, n):
                if base is not None and not left(): return None
                run = self.baseplan(P) if k < 0 else self.plan(P, K.sub(spec["gseed"], "run", k), base, k)
                self.symcfg(P, prog, run); r = self.execute(P, prog, run)
                if base is None: base = r
                v = self.judge(P, prog, r)
                if v and v[0] == cls: return dict(gseed=spec["gseed"], drop=sorted(drop), run=run, cls=v[0], msg=v[1])
            return None
        best = spec
        P = self.gen(spec["gseed"]); items = list(range(P.nitems))
        if items:
            found = {}
            def test(keep):
                if not left(): return False
                d = [i for i in items if i not in keep]
                s = search(d)
                if s: found[tuple(keep)] = s
                return bool(s)
            keep = K.ddmin(items, test)
            if tuple(keep) in found: best = found[tuple(keep)]
        if best["run"] is None: return best
        # explicit schedule
        got = self.rerun(best, record=True)
        if not got: return best
        r = got[3]; run = dict(best["run"])
        run2 = dict(run); run2["segs"] = [list(s) for s in r.segs]
        if self.weak: run2["decs"] = [list(d) for d in r.decs]
        cand = dict(best, run=run2); g = self.rerun(cand)
        P = self.gen(best["gseed"], frozenset(best["drop"])); prog = self.load(P)
        def fails(rn):
            if not left(): return False
            rr = self.execute(P, prog, rn); v = self.judge(P, prog, rr)
            return bool(v and v[0] == cls)
        self.symcfg(P, prog, run)
        if g and g[0] == cls:
            run = run2
            def tseg(s):
                m = []
                for h, n in s:
                    if m and m[-1][0] == h: m[-1][1] += n
                    else: m.append([h, n])
                return fails(dict(run, segs=m))
            if len(run["segs"]) < 20000:
                s = K.ddmin([tuple(x) for x in run["segs"]], tseg); m = []
                for h, n in s:
                    if m and m[-1][0] == h: m[-1][1] += n
                    else: m.append([h, n])
                if fails(dict(run, segs=m)): run = dict(run, segs=m)
            if run.get("decs"):
                d = K.ddmin([tuple(x) for x in run["decs"]], lambda s: fails(dict(run, decs=[list(x) for x in s])))
                if fails(dict(run, decs=[list(x) for x in d])): run = dict(run, decs=[list(x) for x in d])
        if run.get("faults"):
            f = K.ddmin([tuple(x) for x in run["faults"]], lambda s: fails(dict(run, faults=[list(x) for x in s])))
            if fails(dict(run, faults=[list(x) for x in f])): run = dict(run, faults=[list(x) for x in f])
        final = dict(best, run=run); g = self.rerun(final)
        if g and g[0] == cls: final["msg"] = g[1]; return final
        return best
    def describe(self, spec):
        P = self.gen(spec["gseed"], frozenset(spec["drop"]))
        d = dict(sources=P.files, flags=P.flags, threads=[[str(h[0]), h[1]] for h in P.harts])
        g = self.rerun(spec)
        if g and g[3]: d["history"] = [[e[0], e[1], e[2]] + [hex(x) for x in e[3][:4]] for e in g[3].events[:400]]
        return d
