"""C13: sequential consistency of atomic accesses on a weakly ordered machine."""
from .. import common as K, rv
from ..rvbase import RvScenario, Program
from ..ctypes_model import *
from .c11 import atype, HEADER

TEMPLATES = {
    "SB": [["Wx", "Ry"], ["Wy", "Rx"]], "MP": [["Wx", "Wy"], ["Ry", "Rx"]], "LB": [["Rx", "Wy"], ["Ry", "Wx"]], "S": [["Wx", "Wy"], ["Ry", "Wx"]],
    "R": [["Wx", "Wy"], ["Wy", "Rx"]], "2+2W": [["Wx", "Wy"], ["Wy", "Wx"]], "IRIW": [["Wx"], ["Wy"], ["Rx", "Ry"], ["Ry", "Rx"]], "WRC": [["Wx"], ["Rx", "Wy"], ["Ry", "Rx"]],
    "RWC": [["Wx"], ["Rx", "Ry"], ["Wy", "Rx"]], "W+RWC": [["Wx", "Wy"], ["Ry", "Rz"], ["Wz", "Rx"]], "SB3": [["Wx", "Ry"], ["Wy", "Rz"], ["Wz", "Rx"]], "ISA2": [["Wx", "Wy"], ["Ry", "Wz"], ["Rz", "Rx"]],
    "CoRR": [["Wx", "Wx"], ["Rx", "Rx"]], "SBrmw": [["Ux", "Ry"], ["Uy", "Rx"]], "MPrmw": [["Wx", "Uy"], ["Uy", "Rx"]], "Peterson": [["Wx", "Wz", "Ry"], ["Wy", "Wz", "Rx"]]}

def sc_outcomes(threads, init):
    """All outcomes (registers of all threads, final memory) of interleavings."""
    nv = len(init); start = (tuple([0] * len(threads)), tuple(init), tuple(() for _ in threads)); seen = {start}; stack = [start]; out = set()
    while stack:
        pcs, mem, regs = stack.pop(); term = True
        for t, ops in enumerate(threads):
            if pcs[t] >= len(ops): continue
            term = False; op = ops[pcs[t]]; m = mem; rg = regs[t]; k = op[0]; v = op[1]
            put = lambda x: mem[:v] + (x,) + mem[v + 1:]
            if k == "st": m = put(op[2])
            elif k == "stif": m = put(1) if rg[op[2]] == op[3] else mem
            elif k == "stif2": m = put(op[4]) if rg[op[2]] == op[3] else mem
            elif k == "ld": rg = rg + (mem[v],)
            elif k == "ldif": rg = rg + (mem[v] if rg[op[2]] == op[3] else -1,)
            elif k == "add": m = put(mem[v] + op[2]); rg = rg + (mem[v],)
            elif k == "xchg": m = put(op[2]); rg = rg + (mem[v],)
            elif k == "cas":
                if mem[v] == op[2]: m = put(op[3])
                rg = rg + (mem[v],)
            s = (pcs[:t] + (pcs[t] + 1,) + pcs[t + 1:], m, regs[:t] + (rg,) + regs[t + 1:])
            if s not in seen:
                if len(seen) > 40000: return None
                seen.add(s); stack.append(s)
        if term: out.add((tuple(r[:5] for r in regs), mem))
    return out

class S(RvScenario):
    ID = "C13"; PROGRAMS = 6000; RUNS = 90; weak = True
    RULE = ("a case is a litmus program (classic shapes with random objects, widths, access forms and extra operations, or random threads of loads, stores, read-modify-writes, fences and "
            "properly synchronised plain accesses) run once on the weak memory engine: buffered and reordered stores, early and late loads, seeded schedule; non-trivial: at least one "
            "weak effect (stale or delayed load, store drained late) occurred; distinct by the hash of the interleaving of shared accesses; oracle: exhaustive set of interleaving outcomes")
    ASSUME = RvScenario.ASSUME + ["the weak engine produces only behaviours RVWMO allows (checked against gcc's mapping and hand-written litmus tests)"]
    def gen(self, seed, drop=frozenset()):
        rng = K.sub(seed, "shape"); style = rng.choice(["template", "template", "template", "random", "random", "mp", "mp", "lock", "fence"])
        if style == "lock": return self.gen_lock(seed, drop)
        nv = rng.choice([2, 2, 3]); threads = []
        vals = iter(range(1, 100))
        if style == "template":
            name = rng.choice(sorted(TEMPLATES)); sh = TEMPLATES[name]; vs = {"x": 0, "y": 1, "z": 2}; nv = 3 if any("z" in o for t in sh for o in t) else 2
            for t in sh:
                ops = []
                for o in t:
                    v = vs[o[1]]
                    if rng.random() < .12: ops.append(("fence",))
                    if o[0] == "W": ops.append(("st", v, next(vals)))
                    elif o[0] == "R": ops.append(("ld", v))
                    else: ops.append(rng.choice([("add", v, next(vals)), ("xchg", v, next(vals))]))
                    if rng.random() < .1: ops.append(rng.choice([("ld", rng.randrange(nv)), ("st", rng.randrange(nv), next(vals)), ("cas", rng.randrange(nv), 0, next(vals))]))
                threads.append(ops)
        elif style == "random":
            for t in range(rng.choice([2, 2, 3])):
                ops = []
                for _ in range(rng.choice([2, 3, 3, 4])):
                    v = rng.randrange(nv); k = rng.choice(["st", "st", "ld", "ld", "ld", "add", "xchg", "cas", "fence"])
                    ops.append({"st": ("st", v, next(vals)), "ld": ("ld", v), "add": ("add", v, next(vals)), "xchg": ("xchg", v, next(vals)), "cas": ("cas", v, 0, next(vals)), "fence": ("fence",)}[k])
                threads.append(ops)
        elif style == "mp":
            # plain data published through an atomic flag (directly, by exchange, by CAS, through a chain)
            nv = 4; n = rng.choice([1, 2]); pub = rng.choice(["st", "add", "xchg", "cas"])
            w = [rng.choice([("st", 2, next(vals)), ("ld", 2)])] + ([("st", 3, next(vals))] if n == 2 else [])
            w.append({"st": ("st", 0, 1), "add": ("add", 0, 1), "xchg": ("xchg", 0, 1), "cas": ("cas", 0, 0, 1)}[pub])
            rd = lambda f: [rng.choice([("ld", f), ("ld", f), ("add", f, 0), ("cas", f, 77, 78), ("xchg", f, 7)]), rng.choice([("ldif", 2, 0, 1), ("ldif", 2, 0, 1), ("stif2", 2, 0, 1, 55)])] + ([("ldif", 3, 0, 1)] if n == 2 else [])
            if rng.random() < .5: threads = [w, rd(0)] + ([rd(0)] if rng.random() < .5 else [])
            else: threads = [w, [("ld", 0), ("stif", 1, 0, 1)], rd(1)]
            threads = [[("fence",) if False else o for o in t] for t in threads]
        else:
            # volatile objects with a fence between any two accesses
            name = rng.choice(["SB", "MP", "LB", "S", "R", "2+2W", "IRIW", "WRC", "SB3"]); sh = TEMPLATES[name]; vs = {"x": 0, "y": 1, "z": 2}; nv = 3 if any("z" in o for t in sh for o in t) else 2
            for t in sh:
                ops = []
                for i, o in enumerate(t):
                    if i: ops.append(("fence",))
                    ops.append(("st", vs[o[1]], next(vals)) if o[0] == "W" else ("ld", vs[o[1]]))
                threads.append(ops)
        # droppable items: operations (never a guard's load or a fence of the fence style)
        item = 0; kept = []
        for t in threads:
            k = []
            for o in t:
                d = item in drop and style in ("template", "random")
                item += 1
                if not d: k.append(o)
            kept.append(k)
        if style in ("mp", "fence"): item = 0
        threads = kept
        objs = []; inits = []; tlsp = []; heads = []; waits = []; dones = []; tails = []
        for v in range(nv):
            r = K.sub(seed, "obj", v); plain = style == "fence" or (style == "mp" and v >= 2)
            if plain:
                ty = r.choice(["unsigned char", "short", "int", "long"]); q = "volatile " if style == "fence" else ""
                f = r.choice(["g", "m", "a"]); n = f"p{v}"
                pad = "char pad%d[64];" % v
                if f == "g": objs.append((f"{pad} {q}{ty} {n};", [n, f"(*&{n})"], ty, None, None))
                elif f == "m": objs.append((f"{pad} struct {{ char a; {q}{ty} m; }} {n};", [f"{n}.m", f"(&{n})->m"], ty, None, None))
                else: objs.append((f"{pad} {q}{ty} {n}[20];", [f"{n}[9]", f"(*({n} + 9))"], ty, None, None))
            else:
                ty = r.choice(["signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long"] * 2 + list(SPECIAL) + ["_Bool"] * 2); n = f"q{v}"; at = atype(r, ty); f = r.choice(["global", "global", "static", "ptr", "m", "m", "a", "grid", "u", "nest", "lit", "param", "tls", "tlsown", "auto"]); ow = fin = None
                if f == "tlsown" and isptr(ty): f = "global"
                if f == "global": d, lv = f"{r.choice(['', '', 'static '])}{at} {n};", [n, f"*&{n}"]
                elif f == "static": d, lv = f"{at} *{n}_g(void) {{ static {at} v; return &v; }}", [f"*{n}_g()", f"{n}_g()[0]"]
                elif f == "ptr": d, lv = f"{at} {n}; {at} *{n}_p = &{n}; {at} **{n}_pp = &{n}_p;", [f"*{n}_p", f"**{n}_pp", f"{n}_p[0]"]
                elif f == "m": d, lv = f"struct {{ char a; {at} m; }} {n};", [f"{n}.m", f"(&{n})->m"]
                elif f == "a": d, lv = f"{at} {n}[9];", [f"{n}[4]", f"*({n} + 4)"]
                elif f == "grid": d, lv = f"{at} {n}[3][5];", [f"{n}[1][2]", f"*({n}[1] + 2)"]
                elif f == "u": d, lv = f"union {{ {at} m; char raw[9]; }} {n};", [f"{n}.m", f"(&{n})->m"]
                elif f == "nest": d, lv = f"struct U{n} {{ char x; struct {{ {at} m[3]; }} in[2]; }} {n}, *{n}_p = &{n};", [f"{n}.in[1].m[2]", f"{n}_p->in[1].m[2]", f"*({n}_p->in[1].m + 2)"]
                elif f == "lit": d, lv = f"struct U{n} {{ char a; {at} m; }}; struct U{n} *{n}_p = &(struct U{n}){{ 0 }};", [f"{n}_p->m", f"(*{n}_p).m"]
                elif f == "param": d, lv = f"{at} {n}; {at} *{n}_i({at} *p) {{ return p; }} {at} *{n}_j({at} p[]) {{ return &p[0]; }}", [f"*{n}_i(&{n})", f"{n}_j(&{n})[0]"]
                elif f == "tlsown": d, lv, ow = f"_Thread_local {at} {n}; {at} *{n}_p;", [f"*{n}_p", f"{n}_p[0]"], [n, n, f"*&{n}"]; tlsp.append((f"{n}_p", n))
                elif f == "auto":
                    d, lv, ow = f"typedef {at} {n}_t; _Atomic long {n}_pub; _Atomic int {n}_done; {ty} {n}_fin;", [f"*({n}_t *){n}_pub", f"(({n}_t *){n}_pub)[0]"], [n, n, f"*&{n}"]
                    heads.append(f"{n}_t {n}; {n} = {lit(0, ty)}; sim_share(&{n}, sizeof({n})); {n}_pub = (long)&{n};"); waits.append(f"while (!{n}_pub) sim_yield();"); dones.append(f"{n}_done++;"); tails.append(f"while ({n}_done != {len(threads) - 1}) sim_yield(); {n}_fin = {n};"); fin = f"{n}_fin"
                else: d, lv = f"{at} {n}; _Thread_local {at} *{n}_p = &{n};", [f"*{n}_p", f"{n}_p[0]"]
                par = lambda l: [x if x[0] != "*" else f"({x})" for x in l]
                objs.append((f"char pad{v}[64]; " + d, par(lv), ty, par(ow or lv), fin))
                if isptr(ty) and f != "auto": inits.append(f"{n if f == 'tls' else objs[-1][1][0]} = {lit(0, ty)};")
        def asbool(o):      # every value a _Bool can be given is 1
            if o[0] == "fence" or objs[o[1]][2] != "_Bool": return o
            k = o[0]
            return ("st", o[1], 1) if k == "st" else (("xchg", o[1], 1) if o[2] else ("ld", o[1])) if k == "add" else ("xchg", o[1], 1) if k == "xchg" else ("cas", o[1], min(o[2], 1), 1) if k == "cas" else o
        threads = [[asbool(o) for o in t] for t in threads]
        src = HEADER + "".join(o[0] + "\n" for o in objs)
        for t, ops in enumerate(threads):
            b = []; nr = 0
            for j, op in enumerate(ops):
                r = K.sub(seed, "acc", t, j); k = op[0]
                if k == "fence": b.append(f"atomic_thread_fence({r.choice(['memory_order_seq_cst', 'memory_order_seq_cst'])});"); continue
                o_ = objs[op[1]]; lv = r.choice((t == 0 and o_[3]) or o_[1]); ty = o_[2]; at = not (style == "fence" or (style == "mp" and op[1] >= 2))
                if k == "st": b.append(r.choice([f"{lv} = {lit(op[2], ty)};", f"atomic_store(&{lv}, {lit(op[2], ty)});", f"atomic_store_explicit(&{lv}, {lit(op[2], ty)}, memory_order_seq_cst);"]) if at else f"{lv} = {op[2]};")
                elif k == "stif2": b.append(f"if (r{op[2]} == {op[3]}) {lv} = {op[4]};")
                elif k == "stif": b.append(f"if (r{op[2]} == {op[3]}) {lv} = {lit(1, ty)};"); 
                elif k == "ldif": b.append(f"r{nr} = -1; if (r{op[2]} == {op[3]}) r{nr} = {lv};"); nr += 1
                else:
                    if k == "ld": e = r.choice([lv, f"atomic_load(&{lv})", f"atomic_load_explicit(&{lv}, memory_order_seq_cst)"]) if at else lv
                    elif k == "add": e = r.choice([f"atomic_fetch_add(&{lv}, {op[2]})", f"({lv} += {op[2]}) - {op[2]}"][isflt(ty):])
                    elif k == "xchg": e = f"atomic_exchange(&{lv}, {lit(op[2], ty)})"
                    else: e = f"({{ {objs[op[1]][2]} e{j} = {lit(op[2], ty)}; atomic_compare_exchange_strong(&{lv}, &e{j}, {lit(op[3], ty)}); e{j}; }})"
                    if ty in SPECIAL: e = rdx(e, ty)
                    b.append(f"r{nr} = {e};"); nr += 1
            decl = "".join(f" long r{i} = 0;" for i in range(nr))
            ev = "sim_ev(1" + "".join(f", r{i}" for i in range(min(nr, 5))) + ");"
            b = (waits if t else heads) + b + (dones if t else tails)
            src += f"void t{t}(void) {{{decl}\n  " + "\n  ".join(b) + f"\n  {ev}\n}}\n"
        src += "void fin(void) { sim_ev(4" + "".join(f", {rdx(o[4] or '(' + o[1][0] + ')', o[2])}" for o in objs) + "); }\n" + f"void init(void) {{ {' '.join(inits)} }}\n"
        flags = K.sub(seed, "flags").choice([[], [], ["-fpic"]])
        norm = [[("st", o[1], o[2]) if o[0] == "st" else o for o in t] for t in threads]
        return Program([src], [(f"t{t}", []) for t in range(len(threads))], flags, nitems=item, meta=dict(threads=norm, nv=nv, style=style, sc=None, init=bool(inits), tlsp=tlsp))
    def gen_lock(self, seed, drop):
        rng = K.sub(seed, "lock"); nt = rng.choice([2, 2, 3]); ty = rng.choice(["signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "_Bool"])
        form = rng.choice(["g", "m", "a"])
        d, lv = {"g": (f"_Atomic {ty} L;", "L"), "m": (f"struct {{ char a; _Atomic {ty} m; }} L;", "L.m"), "a": (f"_Atomic {ty} L[7];", "L[3]")}[form]
        kind = rng.choice(["cas", "xchg", "flag", "ticket", "fetchor", "xchgrel"][:None if ty != "_Bool" else 3])
        if kind == "cas": acq = f"for (;;) {{ {ty} e = 0; if (atomic_compare_exchange_strong(&{lv}, &e, 1)) break; }}"; rel = f"{lv} = 0;"
        elif kind == "xchg": acq = f"while (atomic_exchange(&{lv}, 1)) ;"; rel = f"atomic_store(&{lv}, 0);"
        elif kind == "xchgrel": acq = f"while (atomic_exchange(&{lv}, 1)) ;"; rel = f"(void)atomic_exchange(&{lv}, 0);"
        elif kind == "flag": d = "atomic_flag L;"; acq = "while (atomic_flag_test_and_set(&L)) ;"; rel = "atomic_flag_clear(&L);"
        elif kind == "fetchor": acq = f"while (atomic_fetch_or(&{lv}, 1)) ;"; rel = f"{lv} &= 0;"
        else: d += f" char padt[64]; _Atomic {ty} S;"; acq = f"{ty} my = {lv}++; while (S != my) ;"; rel = "S++;"
        src = HEADER + f"char pad0[64]; {d} char pad1[64]; long a; char pad2[64]; int b; char pad3[64];\n"; tot = 0; item = 0
        for t in range(nt):
            n = 0
            for _ in range(rng.choice([1, 1, 2])):
                if item not in drop: n += 1
                item += 1
            tot += n
            src += f"void t{t}(void) {{ for (int i = 0; i < {n}; i++) {{ {acq} long x = a; int y = b; b = y + 1; a = x + 1; {rel} sim_ev(1, x, (long)y); }} }}\n"
        src += "void fin(void) { sim_ev(4, a, (long)b); }\n"
        return Program([src], [(f"t{t}", []) for t in range(nt)], K.sub(seed, "flags").choice([[], [], ["-fpic"]]), nitems=item, meta=dict(style="lock", tot=tot, kind=kind))
    def load(self, P):
        prog = super().load(P)
        if P.meta.get("init"):   # pointers start at the first element
            prog.L.sim_reset()
            if prog.call("init") is None: raise rv.CompileError("init", 1, "the initialiser of the objects does not run")
            prog.L.sim_snapshot()
        return prog
    def plan(self, P, rng, base, k):
        cfg = self.policies(rng, base, len(P.harts)); cfg["hostile"] = 1; cfg["weak"] = 1
        cfg["p_stale"] = rng.choice([0, 200, 500, 900]); cfg["p_delay"] = rng.choice([0, 150, 500, 900]); cfg["p_drain"] = rng.choice([5, 20, 60, 200]); cfg["p_buffer"] = rng.choice([300, 700, 950])
        return dict(cfg=cfg, faults=[], regseed=rng.getrandbits(30) + 1)
    def nontrivial(self, P, r): return r.stats["stale"] + r.stats["delayed"] + r.stats["drains"] > 0 and r.stats["switches"] > 1
    def probe(self, P, r, c):
        c["style " + P.meta["style"]] += 1
        for k in ("stale", "delayed", "forwards"):
            if r.stats[k]: c["runs with " + k] += 1
    def runargs(self, P, run):
        tp = P.meta.get("tlsp")
        def setup(prog):
            for p, n in tp: prog.L.sim_write(prog.sym(p), prog.tlsaddr(0, n).to_bytes(8, "little"), 8)
        return dict(setup=setup) if tp else {}
    def after(self, P, prog, r): r.fin = prog.call("fin") or []
    def outcomes(self, P):
        m = P.meta
        if m["sc"] is None:
            th = []
            for t in m["threads"]:
                ops = []
                for o in t:
                    if o[0] == "fence": continue
                    ops.append(o)
                th.append(ops)
            m["sc"] = sc_outcomes(th, [0] * m["nv"])
        return m["sc"]
    def check(self, P, prog, r):
        if P.meta["style"] == "lock":
            n = P.meta["tot"]; got = sorted(e[3][1:3] for e in r.events if e[3][0] == 1); fin = r.fin[0][3][1:3] if r.fin else None
            if got != [(i, i) for i in range(n)] or fin != (n, n): return ("not-sc", f"data protected by a {P.meta['kind']} lock: critical sections saw {got}, finally {fin}")
            return None
        regs = [None] * len(P.harts)
        nr = [sum(1 for o in t if o[0] in ("ld", "ldif", "add", "xchg", "cas")) for t in P.meta["threads"]]
        for e in r.events:
            if e[3][0] == 1: regs[e[1]] = tuple(conv(x, "long") for x in e[3][1:1 + min(5, nr[e[1]])])
        if None in regs or not r.fin: return ("history", "missing events")
        mem = tuple(conv(x, "long") for x in r.fin[0][3][1:1 + P.meta["nv"]])
        sc = self.outcomes(P)
        if sc is None: return None
        if (tuple(regs), mem) not in sc: return ("not-sc", f"outcome {regs}, memory {mem}, is produced by none of the interleavings of " + " || ".join("; ".join(map(str, t)) for t in P.meta["threads"]))
        return None
