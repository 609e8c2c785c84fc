"""C10: every invocation ends and leaves no child behind."""
from .. import common as K, simos as SO, world as W
from ..osbase import *

class S(OsScenario):
    PROGRAMS = 1300
    KINDS = ["O", "W", "R", "R", "w", "w", "c", "s", "m", "f", "f", "e", "e", "p", "p", "p", "g", "u", "disk", "kill", "kill", "exit", "exit", "stop", "block", "alloc"]
    def generate(self, rng):
        for rep in range(2):
            pr = W.Project(rng, bad=rng.randrange(5) == 0, nsrc=W.nsrc(rng)); cmd = W.command(rng, pr)
            spec = dict(files=pr.list(), invs=[self.inv(rng, cmd)], meta=cmd.d(), faults=[], w=self.params(rng))
            c = self.clean(spec)
            for n in range(22):
                fs, fo = [], []
                for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
                    f = W.one_fault(rng, c, self.KINDS)
                    if f: fs.append(f)
                for _ in range(rng.choice([0, 0, 1, 2, 3])): fo.append([rng.choice([0, 1, rng.randrange(60), rng.randrange(300), -1]), rng.choice([0, 0, 256, 9, 11, 0xff00])])
                yield dict(spec, faults=fs, invs=[dict(spec["invs"][0], foreign=fo, mode=int(rng.randrange(6) == 0))], w=self.params(rng, reuse=rng.randrange(2), shortr=rng.choice([0, 0, 300, 1000]), shortw=rng.choice([0, 0, 300, 1000])))
    def judge(self, spec):
        c = self.clean(spec)
        mx = max([p.steps for p in c.procs.values()] or [0]); nc = max([len(p.calls) for p in c.procs.values()] or [0])
        # twenty times what the undisturbed run takes, for faults that make it do more work
        w = self.world(spec); w["steplimit"] = 20 * mx + 3_000_000
        r = self.run(w); i = r.invs[0]; fk = "; ".join(k for k in r.stats if k.startswith("fault:")) or "no fault"
        for e in r.ev:
            if e[0] == "HANG": p = r.procs[e[1]]; return "no-progress", f"{p.role} (process {p.name}) is still running after {p.steps} basic blocks and {len(p.calls)} system calls, the undisturbed run needs at most {mx} ({fk})"
            if e[0] == "DEADLOCK": p = r.procs[e[1]]; return "waits-for-nothing", f"{p.role} (process {p.name}) waits although every child it started has ended ({fk})"
            if e[0] == "ORPHAN": return "child-left-running", f"the invocation ended while its {e[2]} (process {e[1]}) was still running ({fk})"
            if e[0] == "UNREAPED": return "child-not-reaped", f"the invocation ended without having collected its {e[2]} (process {e[1]}) ({fk})"
        if not i["done"]: return "no-end", f"the invocation did not end ({fk})"
        # it waits for its own children only: everything it does ends, although the unrelated children do not
        self.probes["killed" if i["status"] & 127 else "ended"] += 1
        return None
    def interesting(self, spec, r): return True
