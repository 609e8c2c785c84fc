"""C06: output is reproducible in every execution environment."""
from .. import common as K, simos as SO, world as W
from ..osbase import *
import os

_corpus = None
def corpus():
    """Programs of the repository's own test directory that need no system headers, as further sources."""
    global _corpus
    if _corpus is None:
        _corpus = []; d = os.path.join(K.REPO, "test")
        for f in sorted(os.listdir(d)):
            if f.endswith(".c"):
                s = open(os.path.join(d, f), encoding="latin-1").read()
                if "__DATE__" in s or "__TIME" in s: continue
                _corpus.append([f, s])
    return _corpus

class S(OsScenario):
    PROGRAMS = 1700
    def generate(self, rng):
        for rep in range(2):
            k = rng.randrange(4); hdr = [[f"/w/{n}", open(os.path.join(K.REPO, "test", n), encoding="latin-1").read()] for n in sorted(os.listdir(os.path.join(K.REPO, "test"))) if n.endswith(".h")]
            if k == 0 and corpus():
                f, src = corpus()[rng.randrange(len(corpus()))]; files = hdr + [["/w/" + f, src]]
                m = rng.choice(["-S", "-E", "-c"]); argv = [W.TOYCC, m, "-I.", f, "-o", "res"]; stdin = ""
                if rng.randrange(4) == 0: argv += ["-fpic"]
                meta = dict(outputs=["/w/res"])
            else:
                pr = W.Project(rng, bad=k == 1); cmd = W.command(rng, pr); files = pr.list(); argv = cmd.argv; stdin = cmd.stdin; meta = dict(outputs=cmd.outputs)
                if rng.randrange(6) == 0: argv = argv + [rng.choice(["-Wall", "-O2", "-g", "nosuch.c", "-std=c11"])]
            spec = dict(files=files, invs=[dict(argv=argv, stdin=stdin, vpid=77)], meta=meta, faults=[], w=self.params(rng))
            self.clean(spec)
            for n in range(14 if k else 6):
                extra = []; have = {f[0] for f in files} | set(meta["outputs"])
                for _ in range(rng.choice([0, 0, 3, 12])): extra.append(["/w/" + rng.choice(["x%d.c", "h%d.hh", "zz%d", "toycc-tmpfile-aaa%d", "stddef%d.h", "note%d.txt", "s%d.c.orig", "a%d.out"]) % rng.randrange(10), "unrelated"])
                if rng.randrange(5) == 0: extra += [["/w/stddef.h.d/x", "y"], ["/opt/toycc/include/unused.h", "#error no\n"], ["/usr/include/unused.h", "#error no\n"]]
                extra = [e for e in {e[0]: e for e in extra}.values() if e[0] not in have]
                w = self.params(rng, shortr=rng.choice([0, 0, 100, 500, 1000]), shortw=rng.choice([0, 0, 100, 500, 1000]), now=rng.choice([0, 1, 1700000000, 1709210096, 951782399, 2**31 - 1, 2**31 + 5, 4102444799, rng.randrange(4 * 10**9)]) * 10**9 + rng.randrange(10**9),
                    advmin=rng.choice([0, 1000, 10**9, 10**6]), advrange=rng.choice([0, 0, 10**9]), tz=rng.choice([0, 3600, -28800, 20700]), reuse=rng.randrange(2))
                fo = [[rng.choice([0, rng.randrange(200)]), rng.choice([0, 256, 9])] for _ in range(rng.choice([0, 0, 0, 2]))]
                env = rng.choice([[], ["PATH=/usr/bin", "LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8"], ["TMPDIR=/tmp", "HOME=/root", "TERM=xterm", "COLUMNS=20"], ["X=" + "y" * rng.randrange(3000)]])
                e = K.sub(rng.getrandbits(60), "where")   # what else a process can ask about its surroundings
                if e.randrange(2): env = env + [x for x in (f"?tty={e.randrange(8)}", f"?uid={e.choice([0, 1000, 65534])}", f"?ncpu={e.choice([1, 2, 64])}", f"?lim={e.choice([-1, 256, 4096, 1048576])}", f"?host={e.choice(['a', 'buildbot-7', 'localhost'])}", f"?any={e.getrandbits(40) + 1}", f"?fds={e.choice([1, 3, 40])}", f"?umask={e.choice([0, 63, 2])}") if e.randrange(2)]
                mt = rng.choice([None, rng.randrange(2 * 10**9)])
                fl = [[f[0], f[1], f[2] if len(f) > 2 else 0, mt] for f in files] if mt is not None else files
                yield dict(spec, files=fl + extra, extra=[e[0] for e in extra], invs=[dict(spec["invs"][0], vpid=rng.randrange(2, 30000), foreign=fo, env=env)], w=w)
    def judge(self, spec):
        m = spec["meta"]; c = self.clean(dict(spec, files=[f[:3] if len(f) > 2 and f[2] else f[:2] for f in spec["files"] if f[0] not in spec["extra"]], invs=[dict(argv=spec["invs"][0]["argv"], stdin=spec["invs"][0]["stdin"], vpid=77)], w={})); r = self.run(self.world(spec)); i = r.invs[0]; a = c.invs[0]
        self.probes["accepted" if a["status"] == 0 else "rejected" if a["status"] & 127 == 0 else "crash"] += 1
        if any(e[0] in ("HANG", "DEADLOCK") for e in c.ev + r.ev): return None
        # how the compiler dies on input that makes it crash is not output
        if a["status"] & 127 and i["status"] & 127: return None
        if i["status"] != a["status"]: return "status-differs", f"ends with status {i['status']:#x} here and {a['status']:#x} in the reference environment: {(i['err'] or a['err'])[-200:]}"
        if a["status"]:
            if i["err"] != a["err"]: return "diagnostics-differ", f"different diagnostics: {first_diff(a['err'], i['err'])}"
            return None
        for p in m["outputs"]:
            x = c.files[p]["data"] if p in c.files else None; y = r.files[p]["data"] if p in r.files else None
            if x != y: return "output-differs", f"{p} differs from the one in the reference environment: {first_diff(x or '', y or '')}"
        if i["out"] != a["out"]: return "stdout-differs", f"standard output differs: {first_diff(a['out'], i['out'])}"
        if i["err"] != a["err"]: return "diagnostics-differ", f"different diagnostics: {first_diff(a['err'], i['err'])}"
        return None
    def interesting(self, spec, r): return True
def first_diff(a, b):
    x, y = a.split("\n"), b.split("\n")
    for k in range(max(len(x), len(y))):
        p, q = x[k] if k < len(x) else "<end>", y[k] if k < len(y) else "<end>"
        if p != q: return f"line {k + 1}: {p[:120]!r} became {q[:120]!r}"
    return "?"
