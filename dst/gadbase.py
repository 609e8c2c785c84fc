"""Scenarios whose workload is the gadget library (C15, C16, C19)."""
from . import common as K, rv, gadgets as G
from .rvbase import RvScenario, Program

def call_args(r): return r.choice([0, 1, 2, 3, 5, 7, 8, 63, 64, 100, 127, 255, 256, 500, 998, 999, r.randrange(1000)])

class GadScenario(RvScenario):
    WANT = None; AVOID = (); HARTS = (1,); CALLS = (1, 2, 3); NG = (1, 1, 2, 3)
    EXTRA = ""
    def body(self, seed, t, k, gi, a, b, idx): return f"sim_ev(1, {idx}L, g{gi}({a}, {b}));"
    def gen(self, seed, drop=frozenset()):
        r = K.sub(seed, "shape"); ng = r.choice(self.NG); nh = r.choice(self.HARTS)
        gads = [G.make(K.sub(seed, "gad", i), i, self.WANT, self.AVOID) for i in range(ng)]
        same = r.random() < .4
        calls = []; item = 0; idx = 0; bodies = []; used = set(); meta = {}
        for t in range(nh):
            b_ = []
            for k in range(r.choice(self.CALLS)):
                q = K.sub(seed, "call", t, k); gi = K.sub(seed, "which", k).randrange(ng) if same else q.randrange(ng); a, b = call_args(q), call_args(q)
                idx += 1
                if item in drop: item += 1; continue
                item += 1; used.add(gi); b_.append(self.body(seed, t, k, gi, a, b, idx)); meta[idx] = (t, gi, a, b)
            bodies.append(b_)
        P = Program(None, [(f"t{t}", []) for t in range(nh)], nitems=item, meta=dict(calls=meta, kinds=[k for _, k in gads], used=used, tags=[]))
        extra = self.extra(seed, P, gads, r)
        src = G.PRE + "".join(gads[i][0] + "\n" for i in sorted(used)) + extra + "".join(f"void t{t}(void) {{\n  " + "\n  ".join(bodies[t]) + "\n}\n" for t in range(nh))
        P.files = [src]; P.flags = K.sub(seed, "flags").choice([[], [], [], ["-fPIC"]]); P.foreign = self.foreign(seed, P)
        return P
    def extra(self, seed, P, gads, r): return ""
    def foreign(self, seed, P): return []
    def solo_cfg(self): return dict(seed=1, policy=0, hostile=0, max_steps=self.MAXSTEPS)
    def solo(self, P, prog):
        """What each thread computes alone in fresh memory."""
        P.expect = []
        for t, h in enumerate(P.harts):
            r = prog.run([h], self.solo_cfg(), regseed=1)
            P.expect.append((r.rc, r.trap, [e[3][:3] for e in r.events if e[3][0] == 1]))
    def valid(self, P): return all(x[0] == 0 for x in P.expect)
    def check(self, P, prog, r):
        for t in range(len(P.harts)):
            got = [e[3][:3] for e in r.events if e[1] == t and e[3][0] == 1]; rc, trap, want = P.expect[t]
            if rc: continue   # cannot even run alone: not for this property to decide
            if got != want:
                for g, w in zip(got, want):
                    if g != w: _, gi, a, b = P.meta["calls"][w[1]]; return ("result", f"thread {t}: g{gi}({a}, {b}) ({P.meta['kinds'][gi]}) gives {K.s64(g[2])}, undisturbed {K.s64(w[2])}")
                return ("result", f"thread {t}: {len(got)} results, undisturbed {len(want)}")
        return None
    def judge(self, P, prog, r):
        if r.rc and not self.valid(P): return None
        return super().judge(P, prog, r)
    def probe(self, P, r, c):
        for i in P.meta["used"]: c["gadget " + P.meta["kinds"][i]] += 1
