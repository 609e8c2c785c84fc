"""C20: the compiler compiled by itself, on a simulated machine that interrupts it, behaves like the host-built one."""
import copy, glob, hashlib, os, time, json
from .. import common as K, simos as SO, world as W, rv
from ..osbase import *

_corpus = None
def corpus():
    """Larger inputs: the project's own test programs and the system headers they read (host paths map to themselves)."""
    global _corpus
    if _corpus is None:
        _corpus = []; t, _ = K.host_toycc_cached()
        for f in sorted(glob.glob(K.REPO + "/test/*.c")):
            r = K.sh([t, "-M", "-I" + K.REPO + "/test", f])
            if r.returncode: continue
            deps = r.stdout.decode(errors="replace").split(":", 1)[-1].replace("\\\n", " ").split()
            fs = {}
            for d in deps:
                p = os.path.normpath(d)
                try: data = open(p, encoding="latin-1").read()
                except OSError: fs = None; break
                if p.startswith(os.path.dirname(t) + "/include/"): continue
                fs["/w/" + os.path.basename(p) if p.startswith(K.REPO + "/test/") else p] = data
            if fs is None or "__TIMESTAMP__" in "".join(fs.values()) or sum(map(len, fs.values())) > 60000: continue
            _corpus.append((os.path.basename(f), sorted(fs.items())))
    return _corpus

class S(OsScenario):
    PROGRAMS = 340
    THOROUGH = 40
    STEPNAME = "simulated instructions of the self-hosted compiler"
    MEASURE = "distinct executions of the self-hosted compiler: 64-bit hash over every interruption point (pc, extent), the input, the memory layout, number of instructions and the outputs"
    RULE = "a run counts if interruptions, split transfers, memory garbage or a changed layout took effect in the self-hosted compiler and its output was compared"
    REAL = ["toycc compiled by toycc (every source file of /repo), riscv64 glibc, libgcc: machine code executed instruction by instruction", "toycc compiled by gcc (the reference), as a simulated process", "riscv64-linux-gnu-as and -ld, to build the self-hosted compiler", "include/*.h of /repo"]
    STUB = ["RV64GC hart and Linux system calls (rvsim), kernel and libc of the reference (simos)"]
    ASSUME = ["rvsim implements RV64GC and the Linux calls glibc makes", "sampling, not enumeration"]
    def prepare(self): SO.build(); rv.lib(); rv.selfhost(); corpus()
    def faultnames(self, stats): return {k[6:]: v for k, v in stats.items() if k.startswith("fault:")}
    def generate(self, rng):
        c = corpus()
        if c and rng.randrange(8) == 0:
            name, fs = c[rng.randrange(len(c))]; files = [list(f) for f in fs]; src = name; fl = ["-I."]; reps = 1
        else:
            pr = W.Project(rng, bad=rng.randrange(4) == 0, nsrc=1, big=rng.choice([0, 0, 200, 3000])); files = [[p, d.replace("0.25L", "0.25")] for p, d in pr.list()]; src = pr.srcs[0]; fl = pr.flags; reps = 4
        m = rng.choice(["S", "S", "S", "S", "E", "M"])
        a = [W.TOYCC, "-cc1"] + fl; outs = ["/w/o.s"]
        if m == "E": a += ["-E", "-o", "o.s"]
        elif m == "M": a += ["-M", "-o", "o.s"] + (["-MP"] if rng.randrange(2) else [])
        elif rng.randrange(4) == 0: a += ["-S", "-MD", "-MF", "o.d"]; outs.append("/w/o.d")
        a += ["-cc1-input", src, "-cc1-output", "o.s", src]
        inv = dict(argv=a, stdin="", vpid=4242)
        base = None
        for n in range(reps):
            g = dict(seed=rng.randrange(1, 1 << 48), short=rng.randrange(3) == 0, brk=rng.randrange(0, 1 << 20, 16), mmap=rng.randrange(0, 1 << 20, 4096), stack=rng.randrange(0, 1 << 16, 16), garbage=rng.randrange(1 << 48), perturb=rng.choice([0, 1, 0x55, 0xa5, 0xff, 0x80]), check=rng.randrange(2))
            spec = dict(files=files, invs=[inv], meta=dict(outs=outs, src=src), faults=[], g=g, w=dict(seed=7, garb=1, now=1700000000 * 10**9, advmin=0))
            if base is None:
                r = self.guest(dict(spec, g=dict(g, short=False, check=0))); base = r.icount
            k = rng.choice([0, 20, 300, 2000])
            spec["faults"] = sorted([0, rv.INTERRUPT, rng.randrange(base), rng.choice([64, 256, 1024, 2048])] for _ in range(k))
            yield spec
    def guest(self, spec):
        g = spec["g"]
        if not hasattr(self, "prog"): self.prog = rv.Prog(rv.selfhost())
        files = [f[:2] for f in W.base_files() + spec["files"] if len(f) == 2]
        env = ["PATH=/usr/bin", "PWD=/w"] + ([f"GLIBC_TUNABLES=glibc.malloc.perturb={g['perturb']}"] if g["perturb"] else [])
        r = rv.run_linux(self.prog, spec["invs"][0]["argv"], files, env=env, seed=g["seed"], short=g["short"], brk=g["brk"], mmap=g["mmap"], stack=g["stack"], garbage=g["garbage"], faults=spec["faults"], checkcalls=g["check"])
        r.files = {o: r.get(o) for o in spec["meta"]["outs"]}
        h = hashlib.sha256(repr((r.stats["hash"], r.rc, r.exit, r.icount, r.out, r.err, sorted(r.files.items()), sorted(g.items()), spec["files"])).encode()).digest()
        r.hash = int.from_bytes(h[:8], "big"); self.steps += r.icount; self.nrun += 1; self.hh.append(r.hash)
        return r
    def judge(self, spec):
        c = self.clean(spec); r = self.guest(spec); self.last = L = r; L.invs = [dict(status=r.exit << 8)]; L.nfired = r.stats["signals"]
        self.stats["fault:interruption"] += r.stats["signals"]; g = spec["g"]
        for k, n in (("short", "split-transfers(run)"), ("perturb", "heap-garbage(run)"), ("garbage", "stack-garbage(run)"), ("check", "register-checks(run)")): self.stats["fault:" + n] += bool(g[k])
        if r.rc == 1: return "hang", f"the self-hosted compiler did not end within {r.icount} instructions"
        ci = c.invs[0]
        if r.rc == 2 and ci["status"] & 127 == 11: self.probes["both-crash"] += 1; return None      # an input on which the host-built compiler faults as well: the same behaviour
        if r.rc == 2: return "crash", "the self-hosted compiler crashed: " + rv.trapmsg(r.trap)
        want = ci["status"] >> 8 if ci["status"] & 127 == 0 else 128 + (ci["status"] & 127)
        self.probes["accepted" if want == 0 else "rejected"] += 1
        if r.exit != want: return "status-differs", f"the self-hosted compiler exits {r.exit}, the host-built one {want}: {r.err[-200:]!r}"
        if r.err != ci["err"]: return "diagnostic-differs", f"self-hosted: {r.err[-200:]!r}, host-built: {ci['err'][-200:]!r}"
        if r.out != ci["out"]: return "stdout-differs", "standard output differs"
        for o in spec["meta"]["outs"]:
            w = c.files[o]["data"] if o in c.files else None
            if r.files[o] != w:
                a, b = (r.files[o] or "").split("\n"), (w or "").split("\n"); k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                return "output-differs", f"{o} line {k + 1}: self-hosted {a[k] if k < len(a) else None!r}, host-built {b[k] if k < len(b) else None!r}"
        return None
    def sample_of(self, spec): return dict(argv=spec["invs"][0]["argv"], interruptions=len(spec["faults"]), environment=spec["g"], status=self.last.exit, instructions=self.last.icount, hash=f"{self.last.hash:016x}")
    def interesting(self, spec, r): return True
    def minimise(self, spec):
        t0 = time.time(); cls = spec["cls"]
        def bad(s):
            if time.time() - t0 > 150: return False
            try: x = self.rerun(s)
            except K.HarnessError: return False
            return bool(x) and x[0] == cls
        cur = copy.deepcopy(spec)
        cur["faults"] = K.ddmin(cur["faults"], lambda x: bad(dict(cur, faults=x)))
        for k in ("short", "perturb", "garbage", "check", "brk", "mmap", "stack"):
            if cur["g"][k]:
                t = copy.deepcopy(cur); t["g"][k] = 0
                if bad(t): cur = t
        for i, f in enumerate(cur["files"]):
            lines = f[1].split("\n")
            if len(lines) < 3 or len(lines) > 300 or not f[0].startswith("/w/"): continue
            def with_l(x): t = copy.deepcopy(cur); t["files"][i][1] = "\n".join(x); return t
            best = K.ddmin(lines, lambda x: bad(with_l(x)))
            if len(best) < len(lines): cur = with_l(best)
        x = self.rerun(cur)
        if x: cur["cls"], cur["msg"] = x[0], x[1]
        return cur
    def describe(self, spec):
        return dict(command=" ".join(spec["invs"][0]["argv"]), interruptions=[f"at instruction {f[2]}: overwrites {f[3]} bytes below sp" for f in spec["faults"]], environment=spec["g"], files={f[0]: f[1][:2000] for f in spec["files"]})
