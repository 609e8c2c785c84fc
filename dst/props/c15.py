"""C15: signals at any instruction."""
from .. import common as K, rv, gadgets as G
from ..gadbase import GadScenario, call_args

ATOM = ["_Atomic int", "_Atomic long", "_Atomic short", "_Atomic unsigned char", "_Atomic char"]
class S(GadScenario):
    ID = "C15"; PROGRAMS = 4200; RUNS = 30; HARTS = (1, 1, 1, 2); CALLS = (1, 1, 2, 3); NG = (1, 2, 2, 3)
    RULE = ("a case is a generated program of 1-2 threads computing results with 1-3 generated functions while 1-60 signals arrive at seeded instructions (nesting up to 3 deep, everything below the stack "
            "pointer overwritten, all registers random on entry); the handlers are compiled code too and run nothing, functions from the same set, or atomic updates of an object the thread also updates; "
            "non-trivial: at least one signal delivered; distinct by hash of the interrupted (thread, pc) points; oracle: undisturbed results of thread and handler, sum of all atomic updates")
    MEASURE = "distinct sequences of interrupted (thread, program counter, handler) points, per program"
    def extra(self, seed, P, gads, r):
        q = K.sub(seed, "handler"); n = q.choice([1, 2, 3]); ng = len(gads); h = []; P.meta["h"] = {}; at = q.choice(ATOM); P.meta["atom"] = at
        for s in range(2, 2 + n):
            if q.random() < .3: h.append(f"  case {s}: acc += {s}; sim_ev(3, {s}L); break;"); P.meta["h"][s] = None; continue
            gi = q.randrange(ng); P.meta["used"].add(gi); a, b = call_args(q), call_args(q); P.meta["h"][s] = (gi, a, b)
            h.append(f"  case {s}: sim_ev(2, {s}L, g{gi}({a}, {b})); break;")
        return (f"static {at} acc; volatile long seen;\nvoid handler(long sig) {{\n  switch (sig) {{\n  case 1: break;\n" + "\n".join(h) + "\n  }\n}\n"
                "long accsum(void) { return acc; }\n")
    def body(self, seed, t, k, gi, a, b, idx):
        q = K.sub(seed, "acc", t, k)
        add = f" for (int i = 0; i < {q.choice([3, 9])}; i++) acc {q.choice(['+= 1', '++', '-= -1'])}; sim_ev(5, 1L);" if q.random() < .35 else ""
        if add: n = int(add.split("i < ")[1].split(";")[0]); add = add.replace("sim_ev(5, 1L)", f"sim_ev(5, {n}L)").replace("acc ++", "acc++")
        return super().body(seed, t, k, gi, a, b, idx) + add
    def solo(self, P, prog):
        super().solo(P, prog); P.hx = {}
        for s, x in P.meta["h"].items():
            if x is None: continue
            r = prog.run([("handler", [s])], self.solo_cfg(), regseed=1)
            P.hx[s] = (r.rc, r.events[0][3][2] if r.events else None)
    def symcfg(self, P, prog, run):
        if run.get("faults"): run["cfg"]["handler"] = prog.sym("handler")
    def valid(self, P): return super().valid(P) and all(x[0] == 0 for x in P.hx.values())
    def nontrivial(self, P, r): return r.stats["signals"] > 0
    def after(self, P, prog, r):
        ev = prog.call("accsum"); r.acc = None
        r.acc = prog.L.sim_hartget(0, 0) if ev is not None else None
    def plan(self, P, rng, base, k):
        nh = len(P.harts); cfg = self.policies(rng, base, nh) if nh > 1 else dict(seed=rng.getrandbits(62), policy=0, fair_after=0)
        cfg["hostile"] = 1; cfg["hash_pcs"] = 2; cfg["calldirt"] = rng.choice([0, 0, 20, 200]); cfg["poison"] = rng.choice([16, 64, 128, 512, 2048, 5000, 20000]); cfg["checkcalls"] = rng.randrange(2); cfg.pop("fair_after", None); cfg["max_steps"] = self.MAXSTEPS
        sigs = sorted(P.meta["h"]); faults = []; n = rng.choice([1, 2, 4, 12, 30, 60])
        for _ in range(n):
            h = rng.randrange(nh); s = rng.choice([1] * (1 if n < 8 else 6) + sigs)
            faults.append([h, rv.SIGNAL, rng.randrange(max(1, base.icount[h])), s])
        if rng.random() < .3 and faults:   # a burst: nested delivery
            f = rng.choice(faults)
            for _ in range(rng.choice([1, 2, 4])): faults.append([f[0], rv.SIGNAL, f[2] + rng.randrange(60), rng.choice([1] + sigs)])
        return dict(cfg=cfg, faults=faults, regseed=rng.getrandbits(30) + 1)
    def check(self, P, prog, r):
        v = super().check(P, prog, r)
        if v: return v
        tot = 0
        for e in r.events:
            a = e[3]
            if a[0] == 2:
                rc, w = P.hx[a[1]]
                if rc == 0 and a[2] != w: gi, x, y = P.meta["h"][a[1]]; return ("handler-result", f"handler {a[1]} on thread {e[1]}: g{gi}({x}, {y}) ({P.meta['kinds'][gi]}) gives {K.s64(a[2])}, undisturbed {K.s64(w)}")
            elif a[0] in (3, 5): tot += a[1]
        bits = {"_Atomic int": 32, "_Atomic long": 64, "_Atomic short": 16}.get(P.meta["atom"], 8)
        if r.acc is None or (r.acc - tot) % (1 << bits): return ("atomic-sum", f"the object both update ends at {r.acc}, the updates add up to {tot} ({P.meta['atom']})")
        return None
