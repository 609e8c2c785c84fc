"""C03: temporary files never outlive the invocation, and only its own are removed."""
from .. import common as K, simos as SO, world as W
from ..osbase import *

class S(OsScenario):
    PROGRAMS = 1100
    KINDS = ["O", "W", "R", "w", "c", "s", "m", "m", "f", "f", "e", "e", "g", "g", "disk", "kill", "exit", "stop", "block", "alloc", "u"]
    def generate(self, rng):
        for rep in range(2):
            pr = W.Project(rng, bad=rng.randrange(5) == 0, nsrc=W.nsrc(rng)); cmd = W.command(rng, pr, modes=["c", "c", "link", "link", "link", "S", "stdin"])
            if rng.randrange(8) == 0: cmd.argv = cmd.argv + [rng.choice(["nofile.c", "what.xyz"] + (["-lnone", "gone.o"] if cmd.mode == "link" else []))]
            stale = [["/w/toycc-tmpfile-aaa" + "".join(rng.choice("abcd") for _ in range(3)), "stale"] for _ in range(rng.choice([0, 3, 20]))] + [["/w/toycc-tmpfile-%06d" % rng.randrange(10**6), "not mine"] for _ in range(rng.randrange(3))] + [["/w/toycc-tmpfile", "a"], ["/w/toycc-tmpfile-XXXXXX", "c"], ["/tmp/toycc-tmpfile-aaaaaa", "b"]][:rng.randrange(4)]
            stale += [["/w/" + n, "unrelated " + n] for n in ("a.out", "s0.o", "s1.o", "s0.s", "s1.s", "s0.d", "s0.i", "out.s", "out.o", "prog", "prog.o", "out", "tmp.s") if rng.randrange(4) == 0 and "/w/" + n not in cmd.outputs and "/w/" + n not in pr.files]
            stale = list({s[0]: s for s in stale}.values())
            spec = dict(files=pr.list() + stale, invs=[self.inv(rng, cmd)], meta=dict(cmd.d(), stale=[s[0] for s in stale]), faults=[], w=self.params(rng))
            if rng.randrange(3) == 0: spec["files"] = spec["files"] + [[o, "old " + o] for o in cmd.outputs]
            c = self.clean(spec)
            for n in range(22):
                fs = []
                if n: 
                    for _ in range(rng.choice([1, 1, 1, 2])):
                        f = W.one_fault(rng, c, self.KINDS)
                        if f: fs.append(f)
                yield dict(spec, faults=fs, w=self.params(rng, reuse=rng.randrange(2), shortr=rng.choice([0, 0, 300]), shortw=rng.choice([0, 0, 300])))
    def judge(self, spec):
        m = spec["meta"]; r = self.run(self.world(spec)); i = r.invs[0]
        if any(e[0] in ("HANG", "DEADLOCK") for e in r.ev): return None
        inputs = {f[0] for f in spec["files"]}
        made = {}
        for e in r.ev:
            if e[0] == "OW" and e[3] == "new": made[e[2]] = e[1]
            elif e[0] in ("UN", "RN", "RD"):
                p = r.procs[e[1]]
                if p.role in ("as", "ld"): continue
                path = e[2]
                if e[0] == "RN": made[e[3]] = e[1]
                if path not in made: return "removed-foreign-file", f"{p.role} (process {p.name}) removed {path}, which this invocation did not create"
                made.pop(path, None)
        for g in r.gone:
            if not (g in m["outputs"]): return "removed-foreign-file", f"{g} existed before and is gone"
        if not i["done"]: return None
        if not ended(i["status"]): self.probes["driver-killed"] += 1; return None
        self.probes["ended-ok" if i["status"] == 0 else "ended-with-failure"] += 1
        if any(k.startswith("fault:unlink:") for k in r.stats): self.probes["unlink-failed"] += 1; return None
        left = [p for p, f in r.files.items() if not f["old"] and p not in m["outputs"]]
        if left:
            # a file created by a step under a name that was asked for is an output, anything else a temporary
            k = [n for n in r.stats if n.startswith("fault:")]
            return "temporary-left", f"{', '.join(sorted(left))} left behind after the invocation ended with status {i['status'] >> 8} ({'; '.join(k) or 'no fault'})"
        return None
