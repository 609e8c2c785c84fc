"""C19: register contract."""
from .. import common as K, rv, gadgets as G
from ..gadbase import GadScenario, call_args

class S(GadScenario):
    ID = "C19"; PROGRAMS = 4200; RUNS = 16; HARTS = (1, 2, 2, 3); CALLS = (1, 2, 3); NG = (1, 1, 2, 3)
    RULE = ("a case is 1-3 coroutines or preempted threads executing calls of generated functions where every external call, every run-time support routine and every coroutine switch overwrites all "
            "caller-saved registers with seeded garbage, all registers start random, and every return of every call is checked; in half the cases the caller is optimised gcc code holding live values in all "
            "callee-saved registers; non-trivial: at least one hostile overwrite or coroutine switch; distinct by hash of the switch points; oracle: results with no overwriting and no switching")
    MEASURE = "distinct hashes of the (from pc, to pc) pairs of all switches, per program"
    def solo(self, P, prog):
        super().solo(P, prog)
    def nontrivial(self, P, r): return r.stats["clobbers"] > 0 or r.stats["coswitch"] > 0
    def foreign(self, seed, P):
        q = K.sub(seed, "foreign")
        if q.random() < .5: return []
        ni, nf = q.choice([4, 11, 12]), q.choice([3, 12]); out = "long g%d(long a, long b); void sim_ev(long a, ...); extern long in_l[16]; extern double in_d[16];\nlong in_l[16] = {%s}; double in_d[16] = {%s};\n" % (
            min(P.meta["used"], default=0), ",".join(str(q.randrange(1 << 40)) for _ in range(16)), ",".join(f"{q.randrange(1000)}.5" for _ in range(16)))
        if not P.meta["used"]: return []
        g = min(P.meta["used"]); a, b = call_args(q), call_args(q)
        ld = " ".join(f"long l{i} = in_l[{i}];" for i in range(ni)) + " ".join(f"double d{i} = in_d[{i}];" for i in range(nf))
        fold = "".join(f"s = s * 31 + l{i};" for i in range(ni)) + "".join(f"s = s * 31 + (long)d{i};" for i in range(nf))
        out += f"__attribute__((optimize(\"O2\"))) void fmain(void) {{ {ld} long s = 0; for (int i = 0; i < 3; i++) {{ s += g{g}({a}, {b}) * (i + 1);" + "".join(f"l{i} += i;" for i in range(ni)) + f"}} {fold} sim_ev(1, 9000L, s); }}\n"
        P.meta["calls"][9000] = (len(P.harts), g, a, b); P.harts = P.harts + [("fmain", [])]
        return [out]
    def baseplan(self, P): return dict(cfg=dict(seed=1, policy=0, hostile=1, checkcalls=1, hash_pcs=2), regseed=7)
    def plan(self, P, rng, base, k):
        nh = len(P.harts)
        if nh > 1 and rng.random() < .35: cfg = self.policies(rng, base, nh); cfg["ptmode"] = rng.choice([0, 1])
        else: cfg = dict(seed=rng.getrandbits(62), policy=1, p_switch=0, ptmode=2)
        cfg["hostile"] = 1; cfg["checkcalls"] = 1; cfg["hash_pcs"] = 2; cfg["calldirt"] = rng.choice([0, 4, 30, 150, 600])
        return dict(cfg=cfg, faults=[], regseed=rng.getrandbits(30) + 1)
