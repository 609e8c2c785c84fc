"""C22: no statement leaks stack."""
from .. import common as K, rv
from ..rvbase import RvScenario, Program

FNS = """void sim_ev(long a, ...); long sim_tick(long a); long sim_input(void); long pt(long x); double ptd(double x);
struct S4 { int a; }; struct S8 { int a, b; }; struct B24 { long v[3]; }; struct B40 { long v[5]; }; struct B100 { char c[100]; };
static struct S4 mkS4(long x) { struct S4 s = { x }; return s; }
static struct S8 mkS8(long x) { struct S8 s = { x, 2 }; return s; }
static struct B24 mkB24(long x) { struct B24 s = { { x, 1, 2 } }; return s; }
static struct B40 mkB40(long x) { struct B40 s = { { x } }; return s; }
static struct B100 mkB100(long x) { struct B100 s = { { x } }; return s; }
static long v_(int n, ...) { return n; }
"""
STR = ["S4", "S8", "B24", "B40", "B100"]
FLD = {"S4": "a", "S8": "b", "B24": "v[1]", "B40": "v[2]", "B100": "c[7]"}
class Gen:
    """Random statements; every loop is bounded by its own counter, backward gotos by fuel."""
    def __init__(s, r, seed): s.r = r; s.n = 0; s.sigs = {}; s.protos = []; s.loops = 0; s.labels = []; s.inexpr = 0
    def id(s): s.n += 1; return s.n
    def cond(s): return s.r.choice(["(sim_input() & 1)", "(sim_input() & 3) == 0", "(sim_input() & 7) != 3", "(it & 3) == 1", "sim_input() % 5 > 2", "(x & 1)"])
    def exits(s):
        e = [f"goto {l}" if s.r.random() < .75 else f"goto *&&{l}" if s.r.random() < .5 else f"goto *({s.cond()} ? &&{l} : &&{l})" for l in s.labels]
        if s.loops: e += ["break", "continue"] if s.canbreak else []
        if s.infn: e += [s.ret]
        return s.r.choice(e) if e else None
    def fn(s, types, ret):
        k = (tuple(types), ret)
        if k not in s.sigs:
            n = f"f{len(s.sigs)}"; s.sigs[k] = n; ps = ", ".join(f"{t} p{i}" for i, t in enumerate(types)) or "void"
            body = {"void": "pt(1);", "double": "return ptd(2.5);", "long double": "return (long double)pt(3);"}.get(ret, "return pt(3);" if ret in ("long", "int", "char") else f"return mk{ret.split()[-1]}(pt(1));")
            s.protos.append(f"static {ret} {n}({ps}) {{ {body} }}")
        return s.sigs[k]
    def arg(s, t, d):
        if t.startswith("struct"):
            if d > 0 and s.r.random() < .3: return f"({{ {s.inner(d - 1)} mk{t[7:]}(x); }})" if s.r.random() < .5 else f"mk{t[7:]}({s.ex(d - 1)})"
            return f"mk{t[7:]}(x & 7)"
        if t == "double": return s.r.choice(["1.5", "(double)x", "ptd(2.0)"]) if d <= 0 or s.r.random() < .6 else f"({{ {s.inner(d - 1)} (double)x; }})"
        if t == "long double": return "(long double)x" if d <= 0 or s.r.random() < .6 else f"({{ {s.inner(d - 1)} (long double)x; }})"
        return s.ex(d)
    def call(s, d, ret=None):
        r = s.r; big = r.random() < .35; n = r.choice([0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 14, 17])
        if r.random() < .15:
            n = max(1, n); return f"(int)v_({n}, " + ", ".join(s.arg(r.choice(["long", "long", "double"]), d - 1) for _ in range(n)) + ")"
        types = []
        for _ in range(n):
            q = r.random()
            types.append("long" if q < .45 else "int" if q < .55 else "char" if q < .6 else "double" if q < .72 else "struct " + r.choice(STR) if big else "float" if q < .8 else "long")
        if r.random() < .12:      # long double arguments: wholly in registers or wholly on the stack (toycc refuses one split between them)
            types = ["long double" if r.random() < .5 else r.choice(["long", "int", "double"]) for _ in range(2)] if r.random() < .3 else ["long"] * 8 + [r.choice(["long double", "long", "long double", "double"]) for _ in range(r.choice([1, 2, 3, 5]))]
        ret = ret or r.choice(["long", "long", "int", "double", "long double", "struct B24", "struct B40", "struct S8", "struct B100"])
        f = s.fn(types, ret); c = f"{f}({', '.join(s.arg('double' if t == 'float' else t, d - 1) for t in types)})"
        if ret.startswith("struct"): return f"{c}.{FLD[ret[7:]]}"
        return f"(long){c}" if ret in ("double", "long double") else c
    def inner(s, d):
        """Statements inside a statement expression, possibly leaving it."""
        r = s.r; out = []; sv = s.inexpr; s.inexpr = 1
        for _ in range(r.choice([1, 1, 2])):
            q = r.random(); e = s.exits()
            if q < .55 and e: out.append(f"if ({s.cond()}) {e};")
            elif q < .7: out.append(s.stmt(d - 1))
            else: out.append(f"x += {s.ex(d - 1)};")
        s.inexpr = sv
        return " ".join(out)
    def ex(s, d):
        r = s.r
        if d <= 0: return r.choice(["x", "it", "3", "pt(x)", "sim_input() & 15", "y"])
        q = r.random()
        if q < .35: return s.call(d)
        if q < .55: return f"({{ {s.inner(d - 1)} {s.ex(d - 1)}; }})"
        if q < .75: return f"({s.ex(d - 1)} {r.choice(['+', '-', '*', '^', '&', '|', '<', '==', '&&', '||', ','])} {s.ex(d - 1)})"
        if q < .82: return f"({s.cond()} ? {s.ex(d - 1)} : {s.ex(d - 1)})"
        if q < .88: return f"arr[({s.ex(d - 1)}) & 7]"
        if q < .92: return f"(long)((double)({s.ex(d - 1)}) * ({s.arg('double', d - 1)}))"
        if q < .95: return f"(long)((long double)x + ({s.arg('long double', d - 1)}))"
        return f"(y = {s.ex(d - 1)})"
    def block(s, d, n=None): return "{ " + " ".join(s.stmt(d) for _ in range(n or s.r.choice([1, 2, 3]))) + " }"
    def loop(s, d):
        i = f"i{s.id()}"; sv = s.loops, s.canbreak; s.loops += 1; s.canbreak = True; b = f"{{ sim_tick({100000 + 2 * s.id()}); " + s.block(d - 1)[1:-1] + (f" sim_tick({100000 + 2 * s.id()}); }}" if s.r.random() < .5 else "}"); s.loops, s.canbreak = sv
        k = s.r.choice([2, 3, 4]); q = s.r.random()
        if q < .45: return f"for (int {i} = 0; {i} < {k}; {i}++) {b}"
        if q < .6: return f"for (int {i} = 0; {i} < {k} && ({s.ex(1)}, 1); {i} += ({{ {s.ex(1)}; 1; }})) {b}" if not s.labels else f"for (int {i} = 0; {i} < {k}; {i}++) {b}"
        if q < .8: return f"{{ int {i} = 0; while ({i}++ < {k}) {b} }}"
        return f"{{ int {i} = 0; do {b} while (++{i} < {k}); }}"
    def switch(s, d):
        sv = s.loops, s.canbreak; cs = []
        for c in range(s.r.choice([2, 3, 5])):
            brk = s.r.choice(["break;", "break;", f"x += ({{ if ({s.cond()}) break; 1; }}); break;", f"{s.call2()} break;", ""])
            cs.append(f"{'default' if c == 0 and s.r.random() < .5 else f'case {c}'}: {s.stmt(d - 1)} {brk}")
        s.loops, s.canbreak = sv
        return f"switch ({s.r.choice(['sim_input() & 7', 'x & 3', s.ex(1)])}) {{ {' '.join(cs)} }}"
    def call2(s):
        n = s.r.choice([3, 8, 9, 10, 12]); k = s.r.randrange(n); f = s.fn(["long"] * n, "long")
        return f"x += {f}({', '.join(f'({{ if ({s.cond()}) break; 2; }})' if i == k else 'x' for i in range(n))});"
    def stmt(s, d):
        r = s.r; q = r.random()
        if d <= 0: return f"{s.ex(1)};" if q < .5 else f"x ^= {s.ex(1)};"
        if q < .30: return f"x += {s.ex(d)};"
        if q < .40: return s.call(d, "void" if r.random() < .3 else None) + ";"
        if q < .46: return f"arr[({s.ex(d - 1)}) & 7] {r.choice(['=', '+=', '^='])} {s.ex(d - 1)};"
        if q < .60: return s.loop(d)
        if q < .68: return s.switch(d)
        if q < .76: return f"if ({s.cond()}) {s.block(d - 1)}" + (f" else {s.block(d - 1)}" if r.random() < .5 else "")
        if q < .84:
            t = r.choice(STR); return f"{{ struct {t} s = {s.arg('struct ' + t, d)}; x += s.{FLD[t]}; }}"
        if q < .92: # local label, jumped to from inside
            l = f"L{s.id()}"; s.labels.append(l); b = s.block(d - 1); s.labels.pop(); return f"{{ {b} {l}: ; }}"
        if q < .96 and not s.inexpr:
            l = f"L{s.id()}"; return f"{{ int k{l} = {r.choice([2, 3])}; {l}: x += 1; x += {s.fn(['long'] * 9, 'long')}({', '.join(['x'] * 8)}, ({{ if (k{l}-- > 0 && {s.cond()}) goto {r.choice(["", "", "*&&"])}{l}; 5; }})); }}"
        return f"{{ struct B24 q = {{ {{ x, {s.ex(d - 1)}, ({{ {s.inner(d - 1)} x; }}) }} }}; x += q.v[1]; }}"

class S(RvScenario):
    ID = "C22"; PROGRAMS = 2600; RUNS = 8; HASH = "fhash"; MAXSTEPS = 3000000
    RULE = ("a case is a generated program of 1-2 threads whose loops run random statements (calls with up to 17 arguments of all classes, structure arguments and results, nested statement expressions left by "
            "break, continue, goto or return at seeded inputs, switches, bounded loops) for 12-60 iterations, with preemption, hostile callees and signals; non-trivial: more than one iteration of a loop whose "
            "body contains a call; distinct by hash of all recorded events; oracle: at every loop point the stack pointer is the same in every iteration of one activation")
    MEASURE = "distinct histories (hash of every loop point reached with its values, and every result)"
    def gen(self, seed, drop=frozenset()):
        r0 = K.sub(seed, "shape"); nt = r0.choice([1, 1, 2]); item = 0; src = ""; protos = []; g = None; site = 0; harts = []
        sigs = {}; fns = ""
        for t in range(nt):
            ns = r0.choice([1, 2, 3]); depth = r0.choice([2, 2, 3, 3, 4]); st = []; iters = r0.choice([12, 25, 60])
            for k in range(ns):
                g = Gen(K.sub(seed, "st", t, k), seed); g.n = 1000 * (t * 4 + k + 1); g.sigs = sigs; g.protos = protos; g.canbreak = True; g.loops = 1
                infn = K.sub(seed, "fn", t, k).random() < .3; g.infn = infn; g.ret = "return 1"
                if item in drop: item += 1; site += 2; continue
                item += 1; site += 2
                if infn:
                    g.loops = 1; b = g.stmt(depth)
                    fns += f"static long h{t}_{k}(long n) {{ long x = n, y = 1, arr[8] = {{ 0 }}; for (long it = 0; it < n; it++) {{ sim_tick({site}); {b} sim_tick({site + 1}); }} return x; }}\n"
                    st.append(f"sim_ev(7, {site}L); x += h{t}_{k}(6) & 7;")
                else:
                    b = g.stmt(depth); st.append(f"sim_tick({site}); {b} sim_tick({site + 1});")
            fns += f"void t{t}(void) {{ long x = 1, y = 2, arr[8] = {{ 0 }}; for (long it = 0; it < {iters}; it++) {{ sim_tick(1);\n  " + "\n  ".join(st) + "\n } sim_ev(9, 0L); }\n"
            harts.append((f"t{t}", []))
        return Program([FNS + "\n".join(protos) + "\nvoid handler(long s) { mkB100(s); v_(9, 1, 2, 3, 4, 5, 6, 7, s); }\n" + fns], harts, nitems=item)
    def compile_check(self, P, e):
        if "illegal operands" in str(e): return None   # frames over 2 KB with structure results: a limit of the compiler, no statement about leaks
        return super().compile_check(P, e)
    def runargs(self, P, run):
        r = K.sub(run["cfg"]["seed"], "in"); m = r.choice([1, 7, 63]); return dict(inputs={t: [r.randrange(1 << 20) & (m if r.random() < .5 else 1023) for _ in range(3000)] for t in range(len(P.harts))})
    def baseplan(self, P): return dict(cfg=dict(seed=1, policy=0, hostile=1, max_steps=self.MAXSTEPS), regseed=1)
    def plan(self, P, rng, base, k):
        nh = len(P.harts); cfg = self.policies(rng, base, nh) if nh > 1 else dict(seed=rng.getrandbits(62), policy=0)
        cfg.pop("fair_after", None); cfg["hostile"] = 1; cfg["calldirt"] = rng.choice([0, 8, 60]); cfg["max_steps"] = self.MAXSTEPS; faults = []
        if rng.random() < .4:
            cfg["handler"] = 1
            for _ in range(rng.choice([2, 10, 40])): h = rng.randrange(nh); faults.append([h, rv.SIGNAL, rng.randrange(max(1, base.icount[h])), rng.randrange(100)])
        return dict(cfg=cfg, faults=faults, regseed=rng.getrandbits(30) + 1)
    def symcfg(self, P, prog, run):
        if run["cfg"].get("handler"): run["cfg"]["handler"] = prog.sym("handler")
    def nontrivial(self, P, r): return len(r.events) > 4
    def judge(self, P, prog, r):
        v = self.check(P, prog, r)     # a leak explains a later overflow
        if v: return v
        if r.rc == 2: return ("trap", rv.trapmsg(r.trap))
        if r.rc == 1: return None      # inputs may make a loop long; the history so far was checked
        return None
    def check(self, P, prog, r):
        sp = {}; act = {}
        for step, hart, svc, a, s in r.events:
            if svc == 1:
                if a[0] == 7: act[hart, a[1]] = act.get((hart, a[1]), 0) + 1   # a new activation of a helper
                continue
            if svc != 8: continue
            k = (hart, a[0])
            b = (k, act.get((hart, a[0] & ~1), 0))
            if b not in sp: sp[b] = (s, step)
            elif sp[b][0] != s: return ("stack-leak", f"thread {hart} at loop point {a[0]}: the stack pointer moved by {sp[b][0] - s} bytes between step {sp[b][1]} and step {step}")
        return None
