"""C16: functions are re-entrant."""
from .. import common as K, rv, gadgets as G
from ..gadbase import GadScenario

class S(GadScenario):
    ID = "C16"; PROGRAMS = 3600; RUNS = 24; HARTS = (2, 2, 3, 4); CALLS = (1, 2, 3, 4); NG = (1, 1, 1, 2, 2, 3)
    RULE = ("a case is 2-4 threads executing 1-4 calls each of the same 1-3 generated functions (structure arguments and results, variadic areas, compound literals, initialised aggregates, VLAs, alloca, "
            "statement expressions, recursion, floating point, bit-fields, switch, computed goto ...) with different arguments under one seeded schedule; non-trivial: more switches than threads; "
            "distinct by interleaving hash; oracle: what each thread computes alone in fresh memory, and for recursion gcc's result")
    MEASURE = "distinct hashes of the sequence (thread, pc) of memory accesses outside constants and of external calls, per program"
    def reference(self, P):
        """gcc's results of the recursive functions, and of their innermost activation alone."""
        P.ref = {}
        rec = [i for i in P.meta["used"] if "rec" in G.TAGS[P.meta["kinds"][i]]]
        if not rec: return
        todo = sorted({(gi, a, b) for _, gi, a, b in P.meta["calls"].values() if gi in rec} | {(gi, 0, 0) for gi in rec})
        try: prog = rv.Prog(rv.build(P.files, [], "gcc", P.foreign, name="ref"))
        except rv.CompileError as e: raise K.HarnessError("gcc rejects a generated program: " + str(e))
        for gi, a, b in todo:
            r = prog.run([(f"g{gi}", [a, b])], dict(seed=1, max_steps=self.MAXSTEPS))
            if r.rc: raise K.HarnessError("gcc's code fails on a generated program")
            P.ref[gi, a, b] = r.ret[0]
    def solo(self, P, prog):
        super().solo(P, prog); P.recbad = None
        for (gi, a, b), w in P.ref.items():
            if (a, b) == (0, 0): continue
            leaf = prog.run([(f"g{gi}", [0, 0])], self.solo_cfg())
            if leaf.rc or leaf.ret[0] != P.ref[gi, 0, 0]: continue   # wrong without recursion: not this property
            r = prog.run([(f"g{gi}", [a, b])], self.solo_cfg())
            if r.rc == 0 and r.ret[0] != w and P.recbad is None:
                P.recbad = ("recursion", f"g{gi}({a}, {b}) ({P.meta['kinds'][gi]}) gives {K.s64(r.ret[0])}, gcc gives {K.s64(w)}; without recursion the results agree")
    def check(self, P, prog, r):
        return P.recbad or super().check(P, prog, r)
    def plan(self, P, rng, base, k):
        cfg = self.policies(rng, base, len(P.harts)); cfg["hostile"] = rng.choice([0, 1]); cfg["ptmode"] = rng.choice([0, 1, 1]); cfg["hash_pcs"] = 2; cfg["calldirt"] = rng.choice([0, 4, 30, 150, 600])
        faults = []
        if rng.random() < .3:
            for _ in range(rng.choice([1, 2, 4])): h = rng.randrange(len(P.harts)); faults.append([h, rv.STALL, rng.randrange(max(1, base.icount[h])), rng.choice([50, 500, 5000])])
        return dict(cfg=cfg, faults=faults, regseed=rng.getrandbits(30) + 1)
