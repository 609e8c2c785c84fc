"""C05: only requested outputs are written; rejected input leaves old outputs intact."""
from .. import common as K, simos as SO, world as W
from ..osbase import *

class S(OsScenario):
    PROGRAMS = 1500
    KINDS = ["O", "W", "R", "w", "c", "s", "m", "f", "e", "g", "u", "disk", "kill", "exit", "block", "alloc", "crash"]
    def generate(self, rng):
        for rep in range(2):
            bad = rng.randrange(2) == 0
            pr = W.Project(rng, bad=bad); cmd = W.command(rng, pr)
            files = pr.list()
            old = [[o, "old contents of " + o + "\n" * rng.randrange(3) + "x" * rng.randrange(9000)] for o in cmd.outputs] if rng.randrange(4) else []
            near = [["/w/" + rng.choice(["s0.o", "s0.s", "s0.i", "s0", "s0.d", "out", "out.d", "prog.d", "prog.o", "a.out", "s1.o", "-", "deps.mk", "core", "s0.c~", "tmp.s", "out.s.tmp", "s0.s.tmp"]), "unrelated"] for _ in range(4)]
            have = {f[0] for f in files + old}; near = [n for k, n in enumerate(near) if n[0] not in have and n[0] not in [x[0] for x in near[:k]] and n[0] not in cmd.outputs]
            spec = dict(files=files + old + near, invs=[self.inv(rng, cmd)], meta=dict(cmd.d(), bad=bad, old=[o[0] for o in old]), faults=[], w=self.params(rng))
            c = self.clean(spec); yield spec
            for n in range(16):
                fs = []
                for _ in range(rng.choice([1, 1, 2])):
                    f = W.one_fault(rng, c, self.KINDS)
                    if f: fs.append(f)
                yield dict(spec, faults=fs, w=self.params(rng, reuse=rng.randrange(2)))
    def judge(self, spec):
        m = spec["meta"]; r = self.run(self.world(spec)); i = r.invs[0]; outs = set(m["outputs"])
        initial = {f[0]: f[1] for f in spec["files"]}; mine = set()
        for e in r.ev:
            if e[0] == "OW":
                path = e[2]; p = r.procs[e[1]]
                if e[3] == "new":
                    if path in initial and path not in outs and path not in mine: return "recreated", f"{p.role} recreated {path}"
                    mine.add(path)
                elif path not in outs and path not in mine: return "writes-elsewhere", f"{p.role} (process {p.name}) opened {path} for writing, which is neither a requested output nor its own temporary"
            elif e[0] == "RN":
                if e[2] not in mine and e[2] not in outs: return "moves-elsewhere", f"{e[2]} renamed to {e[3]}"
                if e[3] in initial and e[3] not in outs: return "writes-elsewhere", f"{e[3]} replaced by a rename"
                mine.discard(e[2]); mine.add(e[3])
            elif e[0] == "UN" and e[2] in initial and e[2] not in outs and e[2] not in mine: return "removes-elsewhere", f"{e[2]} removed"
            elif e[0] == "MD": mine.add(e[2])
            elif e[0] == "LN": mine.add(e[3])
        for p, f in r.files.items():
            if f["old"] and p not in outs: return "modified-other-file", f"{p} was modified"
        for g in r.gone:
            if g not in outs: return "removed-other-file", f"{g} was removed"
        if ended(i["status"]) and not any(k.startswith("fault:unlink:") for k in r.stats):
            for p, f in r.files.items():
                if not f["old"] and p not in outs: return "unrequested-file", f"{p} was created and is still there at the end (status {i['status'] >> 8})"
        # a rejected translation unit: the steps producing its outputs never write them
        rej = [p for p in self.procs_of(r) if p.role == "cc1" and p.status == 256 and not r.nfired]
        if rej and i["status"]:
            src = self.input_of(rej[0]); self.probes["rejected"] += 1
            for o in outs:
                if o in m["dep"] or (m["perout"].get(o) not in (None, src)): continue
                if o in initial:
                    self.probes["rejected-with-old-output"] += 1
                    if o in r.gone: return "old-output-removed", f"the source was rejected and the existing {o} was removed"
                    if o in r.files: return "old-output-changed", f"the source was rejected but the existing {o} was changed ({len(r.files[o]['data'])} bytes now)"
        return None
    def input_of(self, p):
        a = p.argv
        return a[a.index("-cc1-input") + 1] if "-cc1-input" in a else None
    def interesting(self, spec, r): return True
