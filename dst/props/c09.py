"""C09: re-running after a crash gives the clean result."""
from .. import common as K, simos as SO, world as W
from ..osbase import *

class S(OsScenario):
    PROGRAMS = 600
    def generate(self, rng):
        for rep in range(2):
            pr = W.Project(rng, bad=rng.randrange(8) == 0, nsrc=W.nsrc(rng)); cmd = W.command(rng, pr)
            files = pr.list() + ([[o, "old contents of " + o + "x" * rng.randrange(9000)] for o in cmd.outputs] if rng.randrange(3) == 0 else [])
            spec = dict(files=files, invs=[self.inv(rng, cmd)], meta=cmd.d(), faults=[], w=self.params(rng))
            c = self.clean(spec)
            for n in range(20):
                crashes = rng.choice([1, 1, 2, 3]); fs = []; samepid = rng.randrange(2)
                for k in range(crashes):
                    f = W.one_fault(rng, c, ["crash", "crash", "crashblock"])
                    if not f: continue
                    fs.append([f"{k}." + f[0].split(".", 1)[1]] + f[1:])
                    if rng.randrange(4) == 0:
                        g = W.one_fault(rng, c, ["w", "disk", "kill", "c"])
                        if g and g[3] != SO.F_DISK: fs.append([f"{k}." + g[0].split(".", 1)[1]] + g[1:])
                invs = []
                for k in range(crashes + 1): invs.append(dict(spec["invs"][0], vpid=spec["invs"][0]["vpid"] + (0 if samepid else 13 * k), start=0 if k == 0 else -k))
                yield dict(spec, faults=fs, invs=invs, w=self.params(rng, reuse=rng.randrange(2), shortr=rng.choice([0, 0, 300]), shortw=rng.choice([0, 0, 300]), advmin=rng.choice([1000, 10**9])))
    def judge(self, spec):
        m = spec["meta"]; c = self.clean(spec); r = self.run(self.world(spec)); last = len(spec["invs"]) - 1; i = r.invs[last]; a = c.invs[0]
        initial = {f[0]: f[1] for f in spec["files"]}
        if any(e[0] in ("HANG", "DEADLOCK") for e in r.ev): return None
        self.probes["crashed" if any(v["status"] & 127 for v in r.invs[:last]) else "fault-missed"] += 1
        if i["status"] != a["status"]: return "status-differs", f"the run after the crash ends with status {i['status']:#x}, a run in a fresh directory with {a['status']:#x}: {i['err'][-200:]}"
        rejected = a["status"] != 0
        for p in m["outputs"]:
            want = c.files[p]["data"] if p in c.files else None if p in c.gone else initial.get(p); got = r.files[p]["data"] if p in r.files else None if p in r.gone else initial.get(p)
            # a rejected run promises nothing about the half-written output of the crashed run before it
            if got != want and not rejected: return "output-differs", f"{p} after the crash and the new run: {'missing' if got is None else str(len(got)) + ' bytes'}, in a fresh directory {'missing' if want is None else str(len(want)) + ' bytes'}"
        if i["out"] != a["out"]: return "stdout-differs", "standard output of the run after the crash differs"
        if i["err"] != a["err"]: return "stderr-differs", f"diagnostics of the run after the crash differ: {i['err'][-200:]!r}"
        # the last run cleans up after itself: what is left was created by the crashed ones
        owner = {}
        for e in r.ev:
            if e[0] == "OW" and e[3] == "new": owner[e[2]] = int(e[1].split(".")[0])
        for p, f in r.files.items():
            if not f["old"] and p not in m["outputs"] and owner.get(p) == last: return "left-behind", f"{p}, created by the run after the crash, is left behind"
            if f["old"] and p not in m["outputs"]: return "modified-other-file", f"{p} was modified"
        return None
    def minimise(self, spec): return super().minimise(spec)
