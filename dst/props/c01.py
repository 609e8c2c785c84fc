"""C01: exit status 0 means every requested output is complete and correct."""
from .. import common as K, simos as SO, world as W
from ..osbase import *

class S(OsScenario):
    PROGRAMS = 1500
    KINDS = ["O", "W", "R", "R", "R", "w", "w", "w", "c", "c", "s", "m", "f", "e", "p", "g", "u", "disk", "disk", "kill", "exit", "stop", "block"]
    def generate(self, rng):
        for rep in range(2):
            pr = W.Project(rng, bad=rng.randrange(12) == 0); cmd = W.command(rng, pr)
            spec = dict(files=pr.list(), invs=[self.inv(rng, cmd)], meta=cmd.d(), faults=[], w=self.params(rng))
            if rng.randrange(3) == 0:   # outputs of an earlier build are there
                spec["files"] = spec["files"] + [[o, "old contents of " + o + "\n" * rng.randrange(3) + "x" * rng.randrange(9000)] for o in cmd.outputs]
            c = self.clean(spec); yield dict(spec, w=dict(spec["w"], seed=rng.randrange(1 << 40)))
            for _ in range(22):
                fs = []
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    f = W.one_fault(rng, c, self.KINDS)
                    if f: fs.append(f)
                w = self.params(rng)
                if rng.randrange(3) == 0: w["shortr"] = rng.choice([100, 500, 1000])
                if rng.randrange(3) == 0: w["shortw"] = rng.choice([100, 500, 1000])
                yield dict(spec, faults=fs, w=w)
    def judge(self, spec):
        m = spec["meta"]; c = self.clean(dict(spec, files=[f for f in spec["files"] if f[0] not in m["outputs"]])); r = self.run(self.world(spec)); i = r.invs[0]
        self.probes["exit0" if i["status"] == 0 else "exit!=0"] += 1
        if i["status"] == 0 and r.nfired: self.probes["exit0-despite-fault"] += 1
        if i["status"] != 0: return None
        if c.invs[0]["status"] != 0: return "success-where-clean-run-fails", "exit status 0, but the fault-free run is rejected: " + c.invs[0]["err"][-200:]
        for p in m["outputs"]:
            old = {f[0]: f[1] for f in spec["files"]}.get(p)
            want = c.files[p]["data"] if p in c.files else None
            got = r.files[p]["data"] if p in r.files else (old if p not in r.gone else None)
            if got is None: return "output-missing", f"exit status 0 but {p} does not exist"
            if got != want: return "output-differs", f"exit status 0 but {p} is not what the fault-free run gives: {len(got)} bytes instead of {len(want)}" + (" (a truncated version)" if want.startswith(got) else "")
        if i["out"] != c.invs[0]["out"]: return "stdout-differs", f"exit status 0 but standard output differs: {len(i['out'])} bytes instead of {len(c.invs[0]['out'])}"
        if not r.nfired and not self.composed(spec, m, r): return "not-composed", "the object is not the assembly of what -S gives for the same source"
        return None
    def composed(self, spec, m, r):
        """-c and linking must give what compiling each source on its own and putting the results together gives."""
        if m["mode"] not in ("c", "link") or m["stdin"]: return True
        argv = m["argv"]; drop = {"-c", "-static", "-shared", "-s", "-lm", "-Wl,-z,now", "extra.o", "libz.a", "liby.so", "-MD", "-MMD", "-MP", "asm1.s", "-Llib2"}; fl = []; k = 1; order = []
        while k < len(argv):
            a = argv[k]
            if a in ("-o", "-MF", "-MT", "-MQ", "-L", "-Xlinker"): k += 2; continue
            if a in m["srcs"] or a in ("extra.o", "libz.a", "liby.so", "asm1.s"): order.append(a)
            elif a in ("-include", "-D", "-U"): fl += [a, argv[k + 1]]; k += 1
            elif a not in drop and not a.startswith("-o"): fl.append(a)
            k += 1
        fd = {f[0]: f[1] for f in spec["files"]}; objs = {}
        for s in m["srcs"]:
            q = dict(spec, invs=[dict(spec["invs"][0], argv=[W.TOYCC, "-S"] + fl + [s, "-o-"])])
            t = self.clean(q)
            if t.invs[0]["status"]: return False
            objs[s] = asm_obj(t.invs[0]["out"])
        for x in ("extra.o", "libz.a", "liby.so"): objs[x] = fd.get("/w/" + x, "")
        objs["asm1.s"] = asm_obj(fd.get("/w/asm1.s", ""))
        if m["mode"] == "c" and "asm1.s" in argv and outputs_of(r, ["/w/asm1.o"])["/w/asm1.o"] not in (None, objs["asm1.s"]): return False
        if m["mode"] == "c": return all(outputs_of(r, [p])[p] in (None, objs[s]) for p, s in m["perout"].items())
        exe = outputs_of(r, [o for o in m["outputs"] if o not in m["dep"]]); (p, d), = exe.items()
        if d is None: return True
        pos = 0
        for x in order:
            t = f"INPUT {len(objs[x])}\n{objs[x]}\nEND\n"; k = d.find(t, pos)
            if k < 0: return False
            pos = k + len(t)
        return True
