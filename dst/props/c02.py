"""C02: a failed stage stops the build and is reported."""
from .. import common as K, simos as SO, world as W
from ..osbase import *

class S(OsScenario):
    PROGRAMS = 1100
    def generate(self, rng):
        for rep in range(2):
            pr = W.Project(rng, bad=rng.randrange(6) == 0, nsrc=W.nsrc(rng)); cmd = W.command(rng, pr, modes=["S", "c", "c", "link", "link", "link", "E", "M"])
            spec = dict(files=pr.list(), invs=[self.inv(rng, cmd)], meta=cmd.d(), faults=[], w=self.params(rng))
            c = self.clean(spec)
            for n in range(22):
                fs, fo = [], []
                if n % 3 != 2:
                    for _ in range(rng.choice([1, 1, 1, 2])):
                        f = W.one_fault(rng, c, ["kill", "kill", "exit", "exit", "block", "f", "e", "m", "W", "w"])
                        if f: fs.append(f)
                for _ in range(rng.choice([0, 0, 1, 2, 4])):
                    f = W.one_fault(rng, c, ["p", "p", "stop"])
                    if f: fs.append(f)
                for _ in range(rng.choice([0, 1, 2, 3])): fo.append([rng.choice([0, 1, rng.randrange(60), rng.randrange(300), -1]), rng.choice([0, 0, 256, 9, 11, 0xff00])])
                yield dict(spec, faults=fs, invs=[dict(spec["invs"][0], foreign=fo, mode=int(rng.randrange(6) == 0))], w=self.params(rng))
    def judge(self, spec):
        c = self.clean(spec); r = self.run(self.world(spec)); i = r.invs[0]; name = lambda p: f"{p.role} (process {p.name})"
        ps = self.procs_of(r); root = r.procs["0.0"]
        pos = {}; en = {}; opened = {}; steps = [p for p in ps if p.name != "0.0"]
        for k, e in enumerate(r.ev):
            if e[0] == "EX": pos[e[1]] = k
            elif e[0] == "EN": en[e[1]] = k
        if any(e[0] in ("HANG", "DEADLOCK") for e in r.ev): return None   # C10
        failed = [p for p in steps if p.status]; nofork = any(k.startswith("fault:fork:") for k in r.stats)
        self.probes["step-failed" if failed else "fork-failed" if nofork else "all-steps-succeed"] += 1
        if failed:
            p = min(failed, key=lambda p: en[p.name]); how = f"killed by signal {p.status & 127}" if p.status & 127 else f"exit status {p.status >> 8}"
            if i["status"] == 0: return "failure-not-reported", f"{name(p)} failed ({how}) but the invocation exits 0"
            for q in steps:
                if q.name in pos and pos[q.name] > en[p.name]: return "continues-after-failure", f"{name(q)} was started after {name(p)} had failed ({how})"
        if nofork:
            if i["status"] == 0: return "failure-not-reported", "a step could not be started (fork failed) but the invocation exits 0"
            fk = [k for k, e in enumerate(r.ev) if e[0] == "F" and e[2].startswith("fork:")]
            if any(pos[q] > fk[0] for q in pos): return "continues-after-failure", "a step was started after an earlier one could not be started"
        if root.status & 127: pass
        # inputs ready
        writer = {}
        for k, e in enumerate(r.ev):
            if e[0] == "OW" and e[1] != "0.0": writer[e[2]] = e[1]
            elif e[0] == "OR" and e[2] in writer and writer[e[2]] != e[1]:
                q = r.procs[writer[e[2]]]; p = r.procs[e[1]]
                if q.role == "toycc" or p.role == "toycc": continue
                if en.get(q.name, 1 << 60) > pos.get(p.name, -1): return "started-too-early", f"{name(p)} was started before {name(q)}, which writes its input {e[2]}, had ended"
                if q.status: return "uses-failed-output", f"{name(p)} reads {e[2]}, written by {name(q)} which failed"
        # nothing went wrong: success, whatever unrelated children do
        hard = [k for k in r.stats if k.startswith("fault:") and not k.startswith("fault:stopped-") and k not in ("fault:waitpid:EINTR", "fault:foreign-child-ends", "fault:sigchld-ignored", "fault:short-read", "fault:short-write")]
        if not hard:
            if c.invs[0]["status"] == 0 and i["status"] != 0: return "spurious-failure", f"every step succeeded, yet the invocation ends with status {i['status']:#x}: {i['err'][-200:]}"
            if c.invs[0]["status"] != 0 and i["status"] == 0: return "failure-not-reported", "the compiler rejects the source, yet the invocation exits 0"
            if c.invs[0]["status"] == 0 and outputs_of(r, spec["meta"]["outputs"]) != outputs_of(c, spec["meta"]["outputs"]): return "outputs-differ", "every step succeeded but the outputs differ from those of the undisturbed run"
        if i["status"] == 0:
            # the steps really were run
            n = len([p for p in steps if p.name in pos]); m = len([p for p in self.procs_of(c) if p.name != "0.0"])
            if n < m: return "step-skipped", f"exit status 0 after {n} of {m} steps"
        return None
