"""Base of the scenarios that run the compiler as simulated processes."""
import json, copy, hashlib, time
from collections import Counter
from . import common as K, simos as SO, world as W

def asm_obj(asm): return f"\x7fOBJ\nINPUT {len(asm)}\n{asm}\nEND\n"

class OsScenario:
    STEPNAME = "simulated system calls"
    MEASURE = "distinct simulated histories: 64-bit hash over the sequence of (process, system call) of the whole run, all file-system, process and clock events, every fault that fired and the final outputs"
    RULE = "a run counts if at least one fault, short transfer, preemption or changed environment took effect in it and it was judged to the end"
    REAL = ["toycc driver (main.c) and compile step: every source file of /repo, compiled with the project's flags plus -fsanitize-coverage=trace-pc, several simulated processes of it at a time", "include/*.h of /repo"]
    STUB = ["kernel: file system, processes, pipes, signals, clock (simos)", "libc stdio, malloc, mkstemp, glob, time functions (simos, glibc's error behaviour modelled and compared with the real glibc)", "riscv64-linux-gnu-as and -ld: stand-ins whose output embeds every byte of their inputs"]
    ASSUME = ["the simulated kernel and stdio behave like Linux and glibc for the calls toycc makes", "as and ld: exit 0 only if they read all their input and wrote all their output", "sampling, not enumeration: a clean batch is evidence, not proof"]
    THOROUGH = 30
    def __init__(self): self._sim = None
    def prepare(self): SO.build()
    @property
    def sim(self):
        if self._sim is None: self._sim = SO.Sim()
        return self._sim
    def faultnames(self, stats): return {k[6:]: v for k, v in stats.items() if k.startswith("fault:")} | {k: v for k, v in stats.items() if k in ("preemption",)}

    # ---- running
    def world(self, spec, **over):
        w = dict(spec["w"]); w["files"] = W.base_files() + [["/w/sub", "", 4], ["/w/libs", "", 4]] + spec["files"]; w["invs"] = spec["invs"]; w["faults"] = spec.get("faults", [])
        w.update(over); return w
    def run(self, w):
        r = self.sim.run(w); self.nrun += 1; self.steps += r.tick; self.last = r
        for k, v in r.stats.items():
            if k.startswith("probe:") : self.probes[k[6:]] += v
            else: self.stats[k] += v
        self.hh.append(r.hash); return r
    def begin(self): self.nrun = 0; self.steps = 0; self.stats = Counter(); self.probes = Counter(); self.hh = []; self.nontriv = 0; self.distinct = set(); self.sample = None; self.cleancache = {}
    def clean(self, spec, inv=0, **over):
        """The same invocation alone, in the same directory, with nothing going wrong."""
        w = dict(seed=7, garb=1, now=spec["w"].get("now", 1700000000 * 10**9), advmin=1000); w.update(over)
        v = dict(spec["invs"][inv]); v.pop("start", None); v.pop("foreign", None); v.pop("mode", None)
        w["files"] = W.base_files() + [["/w/sub", "", 4], ["/w/libs", "", 4]] + spec["files"]; w["invs"] = [v]
        key = hashlib.sha256(json.dumps(w, sort_keys=True).encode()).hexdigest()
        if key not in self.cleancache: self.cleancache[key] = self.run(w)
        return self.cleancache[key]
    def explore(self, gseed):
        self.begin(); viol = None
        for spec in self.generate(K.sub(gseed, "os")):
            if isinstance(spec, tuple): viol = spec[1]; break
            v = self.judge(spec)
            if self.interesting(spec, self.last): self.nontriv += 1; self.distinct.add(self.last.hash)
            if self.sample is None and self.last.nfired: self.sample = self.sample_of(spec)
            if v:
                viol = dict(spec, cls=v[0], msg=v[1], gseed=gseed); break
        if self.sample is None and self.nrun: self.sample = dict(note="no planned fault in this group", hash=f"{self.last.hash:016x}")
        return dict(runs=self.nrun, nontrivial=self.nontriv, steps=self.steps, stats=self.stats, probes=self.probes, hashes=self.distinct, sample=self.sample, viol=viol)
    def sample_of(self, spec): return dict(argv=[" ".join(i["argv"]) for i in spec["invs"]], faults=[W.say_fault(f) for f in spec.get("faults", [])], status=[i["status"] for i in self.last.invs], hash=f"{self.last.hash:016x}")
    def interesting(self, spec, r): return r.nfired > 0 or any(k.startswith("fault:") or k == "preemption" for k in r.stats)
    def rerun(self, spec):
        self.begin(); v = self.judge(spec)
        if not v: return None
        h = hashlib.sha256(repr(self.hh).encode()).hexdigest()[:16]
        return v[0], v[1], h
    # ---- minimisation: fewer faults, fewer switches, tamer environment, smaller sources
    def minimise(self, spec):
        cls = spec["cls"]; t0 = time.time()
        def bad(s):
            if time.time() - t0 > 150: return False
            try: g = self.rerun(s)
            except K.HarnessError: return False
            return bool(g) and g[0] == cls
        cur = copy.deepcopy(spec)
        if cur.get("faults"):
            cur["faults"] = K.ddmin(cur["faults"], lambda x: bad(dict(cur, faults=x)))
        for k, v in (("shortr", 0), ("shortw", 0), ("reuse", 0), ("advrange", 0), ("init", 0)):
            if cur["w"].get(k):
                t = copy.deepcopy(cur); t["w"][k] = v
                if bad(t): cur = t
        for i in range(len(cur["invs"])):
            if cur["invs"][i].get("mode"):
                t = copy.deepcopy(cur); t["invs"][i]["mode"] = 0
                if bad(t): cur = t
            if cur["invs"][i].get("foreign"):
                t = copy.deepcopy(cur); t["invs"][i]["foreign"] = []
                if bad(t): cur = t
        if (cur["w"].get("preempt") or cur["w"].get("pct")) and cur["w"].get("sched") is None:
            self.rerun(cur); sched = list(self.last.sched); t = copy.deepcopy(cur); t["w"].update(preempt=0, pct=0, sched=sched)
            if bad(t):
                def with_s(x): t2 = copy.deepcopy(t); t2["w"]["sched"] = x; return t2
                t["w"]["sched"] = K.ddmin(sched, lambda x: bad(with_s(x))) if len(sched) < 400 else sched; cur = t
        for f in list(cur["files"]):
            t = copy.deepcopy(cur); t["files"] = [g for g in t["files"] if g[0] != f[0]]
            if bad(t): cur = t
        for i, f in enumerate(cur["files"]):
            lines = f[1].split("\n")
            if len(lines) < 3 or len(lines) > 400: continue
            def with_l(x): t = copy.deepcopy(cur); t["files"][i][1] = "\n".join(x); return t
            best = K.ddmin(lines, lambda x: bad(with_l(x)))
            if len(best) < len(lines): cur = with_l(best)
        g = self.rerun(cur)
        if g: cur["cls"], cur["msg"] = g[0], g[1]
        return cur
    def describe(self, spec):
        return dict(commands=[" ".join(i["argv"]) for i in spec["invs"]], sigchld_ignored=[bool(i.get("mode", 0) & 1) for i in spec["invs"]], faults=[W.say_fault(f) for f in spec.get("faults", [])], switches=spec["w"].get("sched"), files={f[0]: f[1][:2000] for f in spec["files"]},
                    environment={k: v for k, v in spec["w"].items() if k != "sched"})
    # ---- common helpers
    def params(self, rng, **kw):
        w = dict(seed=rng.randrange(1 << 48), garb=rng.randrange(1 << 48) * 8 + rng.randrange(8), advmin=1000, init=rng.choice([0, 0, 0, 1, 1, 2])); w.update(kw); return w
    def inv(self, rng, cmd, **kw):
        v = dict(argv=cmd.argv, stdin=cmd.stdin, vpid=rng.randrange(2, 30000)); v.update(kw); return v
    def procs_of(self, r, inv=0): return [p for n, p in r.procs.items() if n.startswith(f"{inv}.") and p.role != "foreign"]
    def fired_kind(self, r, pred): return any(pred(k) for k in r.stats if k.startswith("fault:"))

def ended(st): return st & 0x7f == 0
def outputs_of(r, outs):
    """Contents of the requested outputs after a run (None: absent, or not changed and not there before)."""
    return {p: (r.files[p]["data"] if p in r.files else None) for p in outs}
