"""C21: running out of memory is never silent."""
from .. import common as K, simos as SO, world as W
from ..osbase import *

class S(OsScenario):
    PROGRAMS = 1300
    def generate(self, rng):
        for rep in range(2):
            pr = W.Project(rng, bad=rng.randrange(15) == 0); cmd = W.command(rng, pr)
            spec = dict(files=pr.list(), invs=[self.inv(rng, cmd)], meta=cmd.d(), faults=[], w=self.params(rng))
            c = self.clean(spec, wantfs=2); ctx = {}
            # allocations grouped by the calls that led to them: rare ones get as many faults as frequent ones
            for p in self.procs_of(c):
                for k in range(len(p.actx) // 8): ctx.setdefault((p.name, p.actx[8 * k:8 * k + 8]), []).append(k)
            keys = sorted(ctx)
            for n in range(30):
                f = W.one_fault(rng, c, ["alloc"]); fs = [f] if f else []
                if keys and n % 3: q = rng.choice(keys); fs = [[q[0], "A", rng.choice(ctx[q]), rng.choice([SO.F_ALLOC, SO.F_ALLOC, SO.F_ALLOC, SO.F_ALLOCFROM]), 0]]
                if rng.randrange(6) == 0:
                    f = W.one_fault(rng, c, ["alloc"]); fs += [f] if f else []
                yield dict(spec, faults=fs, w=self.params(rng, garb=rng.choice([1, rng.randrange(1 << 50)])))
    def judge(self, spec):
        m = spec["meta"]; c = self.clean(spec); r = self.run(self.world(spec)); i = r.invs[0]
        if not r.nfired: return None
        self.probes["exit0" if i["status"] == 0 else "killed" if i["status"] & 127 else "exit!=0"] += 1
        if any(p.status & 127 for p in self.procs_of(r)): self.probes["abnormal-end"] += 1
        if any(e[0] in ("HANG", "DEADLOCK") for e in r.ev) or not i["done"]: return "no-end", "the invocation does not end after a failed allocation"
        if i["status"] != 0: return None
        if c.invs[0]["status"] != 0: return "success-where-clean-run-fails", "exit status 0 although memory ran out, but with enough memory the source is rejected: " + c.invs[0]["err"][-200:]
        for p in m["outputs"]:
            a = c.files[p]["data"] if p in c.files else None; b = r.files[p]["data"] if p in r.files else None
            if a != b: return "silent-wrong-output", f"exit status 0 although memory ran out, but {p} differs from what enough memory gives ({'missing' if b is None else str(len(b)) + ' bytes'} instead of {len(a or '')})"
        if i["out"] != c.invs[0]["out"]: return "silent-wrong-output", "exit status 0 although memory ran out, but standard output differs"
        return None
