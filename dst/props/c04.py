"""C04: concurrent invocations in one directory do not interfere."""
from .. import common as K, simos as SO, world as W
from ..osbase import *

class S(OsScenario):
    PROGRAMS = 600
    KINDS = ["w", "R", "c", "f", "e", "m", "W", "kill", "exit", "block", "crash", "crashblock"]
    def generate(self, rng):
        for rep in range(2):
            n = rng.choice([2, 2, 2, 3, 3, 4]); pr = W.Project(rng, bad=rng.randrange(8) == 0, nsrc=rng.choice([1, 2, 3]))
            for p in list(pr.files):
                if p.endswith(".c"): pr.files[p] += "\n#ifdef WHO\nint who_am_i = WHO;\n#endif\n"
            cmds = []
            for k in range(n):
                c = W.command(rng, pr, tag="_%d" % k, modes=["c", "c", "link", "link", "link", "S", "E", "M", "stdin"])
                c.argv = c.argv[:1] + ["-DWHO=%d" % (k * 111 + 7)] + c.argv[1:]; cmds.append(c)
            stale = [["/w/toycc-tmpfile-aaa" + "".join(rng.choice("abcd") for _ in range(3)), "stale"] for _ in range(rng.choice([0, 0, 3, 20]))]
            files = pr.list() + list({s[0]: s for s in stale}.values())
            if rng.randrange(4) == 0: files += [[o, "old " + o] for c in cmds for o in c.outputs]
            vp = rng.randrange(2, 30000); same = rng.randrange(2)
            invs = [self.inv(rng, c, vpid=vp if same else rng.randrange(2, 30000), start=rng.choice([0, 0, 0, rng.randrange(40), rng.randrange(120)])) for c in cmds]
            spec = dict(files=files, invs=invs, meta=dict(outs=[c.outputs for c in cmds]), faults=[], w=self.params(rng))
            for k in range(n): self.clean(spec, k)
            for m in range(20):
                fs = []
                if m % 3 == 2:   # one of them meets trouble of its own; the others must not notice
                    v = rng.randrange(n); c = self.clean(spec, v); f = W.one_fault(rng, c, self.KINDS)
                    if f and f[3] != SO.F_DISK: fs.append([f"{v}." + f[0].split(".", 1)[1]] + f[1:])
                w = self.params(rng, reuse=rng.randrange(2), shortr=rng.choice([0, 0, 300]), shortw=rng.choice([0, 0, 300]))
                if rng.randrange(2): w["preempt"] = rng.choice([1000, 1000, 500, 200, 50])
                else: w["pct"] = rng.choice([1, 2, 3, 4, 6])
                s = [dict(v, start=rng.choice([0, 0, 0, rng.randrange(40), rng.randrange(120)])) for v in invs]
                yield dict(spec, faults=fs, invs=s, w=w)
    def judge(self, spec):
        r = self.run(self.world(spec)); hit = {int(f[0].split(".")[0]) for f in spec["faults"]}
        alone = {f[0]: f[1] for f in spec["files"]}
        if any(e[0] in ("HANG", "DEADLOCK") for e in r.ev): return None
        for k, v in enumerate(r.invs):
            if k in hit: continue
            c = self.clean(spec, k); a = c.invs[0]; cmd = " ".join(spec["invs"][k]["argv"])
            if v["status"] != a["status"]: return "status-differs", f"'{cmd}' ends with status {v['status']:#x} next to the others, {a['status']:#x} alone: {v['err'][-150:]}"
            for p in spec["meta"]["outs"][k]:
                want = c.files[p]["data"] if p in c.files else None if p in c.gone else alone.get(p); got = r.files[p]["data"] if p in r.files else None if p in r.gone else alone.get(p)
                if got != want: return "output-differs", f"{p} of '{cmd}' is not what the same command gives alone ({'missing' if got is None else str(len(got)) + ' bytes'} instead of {'missing' if want is None else str(len(want)) + ' bytes'})"
            if v["out"] != a["out"]: return "stdout-differs", f"standard output of '{cmd}' differs from that of the same command alone"
            if v["err"] != a["err"]: return "stderr-differs", f"diagnostics of '{cmd}' differ from those of the same command alone"
        # no intermediate file is shared: whatever one invocation created, no other opens while it exists
        owner = {}; allout = {p for o in spec["meta"]["outs"] for p in o}
        for e in r.ev:
            if e[0] in ("OW", "OR"):
                me = e[1].split(".")[0]; p = e[2]
                if e[0] == "OW" and e[3] == "new": owner[p] = me
                elif p in owner and owner[p] != me and p not in allout: return "shared-intermediate", f"{p}, created by invocation {owner[p]}, is opened by {r.procs[e[1]].role} of invocation {me}"
            elif e[0] == "UN":
                me = e[1].split(".")[0]
                if owner.get(e[2], me) != me: return "removes-others-file", f"{e[2]}, created by invocation {owner[e[2]]}, is removed by invocation {me}"
                owner.pop(e[2], None)
        for p, f in r.files.items():
            if f["old"] and p not in allout: return "modified-other-file", f"{p} was modified"
            if not f["old"] and p not in allout and int(owner.get(p, -1)) not in hit: return "left-behind", f"{p} is left behind"
        for g in r.gone:
            if g not in allout: return "removed-other-file", f"{g} was removed"
        return None
