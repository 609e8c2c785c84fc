"""C11: atomic read-modify-write operators are indivisible."""
from .. import common as K, rv
from ..rvbase import RvScenario, Program
from ..ctypes_model import *

ITYPES = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "_Bool"]
TD = {"char": "atomic_char", "signed char": "atomic_schar", "unsigned char": "atomic_uchar", "short": "atomic_short", "unsigned short": "atomic_ushort", "int": "atomic_int",
      "unsigned int": "atomic_uint", "long": "atomic_long", "unsigned long": "atomic_ulong", "long long": "atomic_llong", "unsigned long long": "atomic_ullong", "_Bool": "atomic_bool"}
ATYPES = ITYPES * 3 + list(SPECIAL)
TD.update({t: "atomic_" + t for t in SPECIAL})
# every atomic type of the header
TDX = {"unsigned short": "char16_t uint_least16_t uint_fast16_t", "unsigned int": "char32_t wchar_t uint_least32_t uint_fast32_t", "signed char": "int_least8_t int_fast8_t", "unsigned char": "uint_least8_t uint_fast8_t",
       "short": "int_least16_t int_fast16_t", "int": "int_least32_t int_fast32_t", "long": "int_least64_t int_fast64_t intptr_t ptrdiff_t intmax_t", "unsigned long": "uint_least64_t uint_fast64_t uintptr_t size_t uintmax_t", "_Bool": "flag"}
TDX = {t: ["atomic_" + x for x in n.split()] for t, n in TDX.items()}
TN = {t: "t%d" % i for i, t in enumerate(ITYPES + list(SPECIAL))}
HEADER = """#include <stdatomic.h>
void sim_ev(long a, ...);
long sim_input(void);
void sim_yield(void);
void sim_share(void *p, long n);
""" + SPECHEAD + "".join(f"typedef {t} p_{n}; typedef _Atomic p_{n} a_{n}; typedef a_{n} aa_{n}; typedef _Atomic {t} *ap_{n};\n" for t, n in TN.items())
PLAIN = ["char", "short", "int", "long"]

def atype(rng, t):
    k = rng.randrange(4); n = TN[t]
    if rng.random() < .3: return rng.choice([f"volatile _Atomic {t}", f"_Atomic volatile {t}", f"{t} volatile _Atomic", f"a_{n}", f"aa_{n}", f"volatile aa_{n}", f"_Atomic p_{n}", f"p_{n} _Atomic", f"_Atomic(p_{n})", f"typeof(_Atomic {t})", f"_Atomic typeof(p_{n})", f"typeof(*(ap_{n})0)"])
    return f"_Atomic {t}" if k == 0 else f"_Atomic({t})" if k == 1 else f"{t} _Atomic" if k == 2 else rng.choice(TDX[t]) if t in TDX and rng.random() < .4 else TD[t]

class Obj:
    """An atomic object: declaration, lvalues, address expression, neighbours."""
    def __init__(self, rng, i, t, form=None):
        self.i, self.t = i, t; a = atype(rng, t); n = f"o{i}"
        self.form = form or rng.choice(["global", "global", "array", "member", "member", "nested", "union", "static", "ptr", "param", "grid", "lit", "tls", "auto"])
        self.neigh = []  # (lvalue, type, init)
        self.own = None; self.head = self.tail = self.wait = self.done = ""; self.tlsp = None; self.fin = None
        iv = rng.choice([0, 1, 5, 100]) if t != "_Bool" else rng.randrange(2)
        if TYPES[t][0] <= 16 and rng.random() < .4: iv = rng.choice([conv(-1, t), conv(127, t), conv(-128, t), conv(0x7fff, t), conv(0x8000, t)])
        if not TYPES[t][1] and t != "_Bool" and rng.random() < .3: iv = conv(-2, t)
        self.init = iv; L = lit(iv, t); w = f"({t})"
        if self.form == "global":
            self.decl = f"char {n}_a = 17; {rng.choice(['', '', 'static '])}{a} {n} = {L}; char {n}_b = 33;"
            self.lvs = [n, f"*&{n}", f"(*{n}_p)"]; self.decl += f" {a} *{n}_p = &{n};"
            self.neigh = [(f"{n}_a", "char", 17), (f"{n}_b", "char", 33)]
        elif self.form == "array":
            self.decl = f"{a} {n}[4] = {{ {lit(1, t)}, {L}, {lit(0, t)}, {lit(1, t)} }};"
            self.lvs = [f"{n}[1]", f"*({n} + 1)", f"1[{n}]", f"(&{n}[3])[-2]", f"{n}[(cnt++, 1)]"]
            self.neigh = [(f"{n}[0]", t, 1), (f"{n}[2]", t, 0)]
        elif self.form == "member":
            n1, n2 = rng.choice(PLAIN), rng.choice(PLAIN)
            self.decl = f"struct T{n} {{ {n1} a; {a} m; {n2} b; }} {n} = {{ 17, {L}, 33 }}; struct T{n} *{n}_p = &{n}; struct T{n} *{n}_f(void) {{ return &{n}; }}"
            self.lvs = [f"{n}.m", f"{n}_p->m", f"(*{n}_p).m", f"{n}_f()->m", f"(cnt++, {n}_p)->m"]
            self.neigh = [(f"{n}.a", n1, 17), (f"{n}.b", n2, 33)]
        elif self.form == "nested":
            n1 = rng.choice(PLAIN)
            self.decl = f"struct T{n} {{ {n1} x; struct {{ char c; {a} m[3]; char d; }} in[2]; }} {n} = {{ 5, {{ {{ 7, {{ {lit(1, t)}, {lit(1, t)}, {lit(1, t)} }}, 9 }}, {{ 17, {{ {lit(1, t)}, {L}, {lit(1, t)} }}, 33 }} }} }}; struct T{n} *{n}_p = &{n};"
            self.lvs = [f"{n}.in[1].m[1]", f"{n}_p->in[1].m[1]", f"*({n}.in[1].m + 1)", f"{n}_p->in[(cnt++, 1)].m[1]"]
            self.neigh = [(f"{n}.in[1].m[0]", t, 1), (f"{n}.in[1].d", "char", 33)]
        elif self.form == "union":
            self.decl = f"struct {{ char a; union {{ {a} m; char raw; }} u; char b; }} {n} = {{ 17, {{ {L} }}, 33 }};"
            self.lvs = [f"{n}.u.m"]; self.neigh = [(f"{n}.a", "char", 17), (f"{n}.b", "char", 33)]
        elif self.form == "static":
            self.decl = f"{a} *{n}_g(void) {{ static {a} v = {L}; return &v; }}"
            self.lvs = [f"*{n}_g()", f"{n}_g()[0]", f"(cnt++, {n}_g())[0]"]
        elif self.form == "param":
            self.decl = f"{a} {n} = {L}; {a} *{n}_i({a} *p) {{ return p; }} {a} *{n}_j({a} p[]) {{ return &p[0]; }} {a} *{n}_k(int q, ...) {{ return &{n}; }}"
            self.lvs = [f"*{n}_i(&{n})", f"{n}_j(&{n})[0]", f"*(cnt++, {n}_i)(&{n})", f"*{n}_k(1, 2, 3.0)"]
        elif self.form == "grid":
            o_ = lit(1, t); self.decl = f"{a} {n}[2][3] = {{ {{ {o_}, {o_}, {o_} }}, {{ {o_}, {L}, {lit(0, t)} }} }}; typedef {a} {n}_t[3]; {n}_t *{n}_r = {n}; {a} *{n}_e(void) {{ return &{n}[1][2]; }}"
            self.lvs = [f"{n}[1][1]", f"{n}_r[1][1]", f"*({n}[1] + 1)", f"(*({n}_r + 1))[1]", f"{n}_e()[-1]", f"*({n}_e() - 1)"]; self.neigh = [(f"{n}[1][0]", t, 1), (f"{n}[1][2]", t, 0)]
        elif self.form == "lit":
            self.decl = f"struct T{n} {{ char a; {a} m; char b; }}; struct T{n} *{n}_p = &(struct T{n}){{ 17, {L}, 33 }};"
            self.lvs = [f"{n}_p->m", f"(*{n}_p).m", f"{n}_p[0].m"]; self.neigh = [(f"{n}_p->a", "char", 17), (f"{n}_p->b", "char", 33)]
        elif self.form == "tls":   # thread 0's copy; the others know its address (set up by the harness)
            self.decl = f"_Thread_local {a} {n} = {L}; {a} *{n}_p;"; self.tlsp = (f"{n}_p", n)
            self.own = [n, n, f"*&{n}"]; self.lvs = [f"*{n}_p", f"{n}_p[0]"]
        elif self.form == "auto":  # an automatic object (or parameter) of thread 0, published at run time
            self.decl = f"_Atomic long {n}_pub; _Atomic int {n}_done; {t} {n}_fin; typedef {a} {n}_t;"; self.fin = f"{n}_fin"
            k = rng.randrange(3); self.parm = (f"{n}_t {n}", L) if k == 2 else None
            self.head = ["", f"{n}_t {n} = {L}; ", f"struct {{ char a; {n}_t m; char b; }} {n} = {{ 17, {L}, 33 }}; "][(1, 2, 0)[k]]
            m = f"{n}.m" if k == 1 else n; self.own = [m, m, f"*&{m}"]; self.lvs = [f"*({n}_t *){n}_pub", f"(({n}_t *){n}_pub)[0]"]
            self.head += f"sim_share(&{m}, sizeof({m})); {n}_pub = (long)&{m}; "; self.wait = f"while (!{n}_pub) sim_yield(); "; self.done = f" {n}_done++;"; self.tail = f" while ({n}_done != NT1) sim_yield(); {n}_fin = {m};"
            if k == 1: self.tail += f" if ({n}.a != 17 || {n}.b != 33) sim_ev(3, 0L, (long){n}.a << 8 | (long){n}.b);"
        else:
            self.decl = f"{a} {n} = {L}; {a} *{n}_p = &{n}; {a} **{n}_pp = &{n}_p;"
            self.lvs = [f"**{n}_pp", f"(*{n}_pp)[0]", f"*{n}_p"]
    def lv(self, rng, owner=False):
        s = rng.choice(self.own if owner and self.own else self.lvs)
        return "(" + s + ")" if s[0] == "*" else s

def threads(seed, objs, bodies, nt):
    """The thread functions around their bodies."""
    src = ""
    for t in range(nt):
        pad = K.sub(seed, 'pad', t).choice(['', '', 'char pad0[3000]; pad0[5] = 1; ']) + "int cnt = 0, cn2 = 0; "
        ps = [o.parm for o in objs if t == 0 and o.form == "auto" and o.parm]
        pre = "".join(o.wait if t else o.head for o in objs); post = "".join(o.done if t else o.tail.replace("NT1", str(nt - 1)) for o in objs)
        f = f"t{t}_" if ps else f"t{t}"
        src += f"void {f}({', '.join(p[0] for p in ps) or 'void'}) {{ {pad}{pre}\n  " + "\n  ".join(bodies[t]) + f"\n {post}}}\n"
        if ps: src += f"void t{t}(void) {{ {f}({', '.join(p[1] for p in ps)}); }}\n"
    return src
def tlssetup(objs):
    """Publishes the addresses of thread 0's copies."""
    def setup(prog):
        for o in objs:
            if o.tlsp: prog.L.sim_write(prog.sym(o.tlsp[0]), prog.tlsaddr(0, o.tlsp[1]).to_bytes(8, "little"), 8)
    return setup

def rmw(rng, t, fetch=True):
    """(expression template with LV/ADDR, fn(state) -> (new, result)), operand text decided here."""
    k = rng.random()
    if k < .2:
        op = rng.choice(["++", "--"]); pre = rng.random() < .5; d = 1 if op == "++" else -1
        def f(s): n = conv(binop("+" if d > 0 else "-", s, t, 1, "int")[0], t); return n, (n if pre else s)
        return ("{op}{lv}" if pre else "{lv}{op}").replace("{op}", op), f, None
    b, sgn = TYPES[t]
    if isptr(t) or isflt(t):
        v = rng.choice([1, 2, 3, 7, 13]); tv = rng.choice(["int", "long", "short", "char"]) if isptr(t) else rng.choice([t, t, "int", "long"]); op = rng.choice(["+", "-"])
        if isptr(t) and fetch and k < .45:
            ex = rng.random() < .3
            return f"atomic_fetch_{'add' if op == '+' else 'sub'}{'_explicit' if ex else ''}(&{{lv}}, {{v}}{', memory_order_seq_cst' if ex else ''})", (lambda s: (s + v if op == "+" else s - v, s)), (v, tv)
        if isflt(t) and rng.random() < .2: op = "*"; v = 2
        def f(s): n = s + v if op == "+" else s - v if op == "-" else s * v; return n, n
        return "({lv} %s= {v})" % op, f, (v, tv)
    if fetch and k < .45 and t != "_Bool":
        name, op = rng.choice([("add", "+"), ("sub", "-"), ("or", "|"), ("xor", "^"), ("and", "&")])
        tv = rng.choice([t if t != "tenum" else "int", "int", "int"]); v = rng.choice([1, 2, 3, 7, 15, 100]); ex = rng.random() < .3
        def f(s): return conv(binop(op, s, t, v, tv)[0], t), s
        order = rng.choice(["memory_order_relaxed", "memory_order_seq_cst", "memory_order_acq_rel"])
        return f"atomic_fetch_{name}{'_explicit' if ex else ''}(&{{lv}}, {{v}}{', ' + order if ex else ''})", f, (v, tv)
    ops = ["+", "-", "&", "|", "^", ">>", "%", "/", "*"] + (["<<"] if not sgn else [])
    if t == "_Bool": ops = ["+", "-", "&", "|", "^", "*"]
    op = rng.choice(ops); tv = rng.choice(["int", "int", t if t != "tenum" else "int", "long", "unsigned int", "char"])
    if tv == "_Bool": tv = "int"
    v = rng.choice([1, 2, 3, 5, 7, 13])
    if op in ("+", "-") and rng.random() < .3 and TYPES[tv][1]: v = -v
    if op in ("<<", ">>"): v = rng.choice([1, 1, 2, 3])
    if op == "*": v = rng.choice([2, 3])
    if op in ("/", "%") and b == 64 and sgn: tv = rng.choice(["int", "long"])
    def f(s): n = conv(binop(op, s, t, v, tv)[0], t); return n, n
    return "({lv} %s= {v})" % op, f, (v, tv)

class S(RvScenario):
    ID = "C11"; PROGRAMS = 4000; RUNS = 60
    RULE = ("a case is a generated multi-threaded program (1-3 atomic integer objects of random type, placement and access form; 2-4 threads of compound assignments, "
            "++/--, atomic_fetch_*, plus plain stores to the bytes next to the objects) under one seeded schedule with spurious SC failures and stalls; "
            "non-trivial: more context switches than threads; distinct by the hash of the interleaving of shared accesses")
    def gen(self, seed, drop=frozenset()):
        rng = K.sub(seed, "shape"); nobj = rng.choice([1, 1, 2, 2, 3]); nt = rng.choice([2, 2, 3, 3, 4])
        objs = [Obj(K.sub(seed, "obj", i), i, K.sub(seed, "ty", i).choice(ATYPES)) for i in range(nobj)]
        nops = [rng.choice([1, 2, 2, 3, 3, 4]) for _ in range(nt)]
        r = K.sub(seed, "shared"); nsh = r.choice([0, 0, 1, 1, 2])
        while sum(nops) > (11, 8, 6)[nsh]: nops[nops.index(max(nops))] -= 1
        bodies = [[] for _ in range(nt)]; helpers = []; ops = {}; item = 0; neighw = {}; opid = 0; th = 0
        def emit(rng, o, depth):
            nonlocal opid
            tmpl, f, opd = rmw(rng, o.t); opid += 1; me = opid; e = tmpl.replace("{lv}", o.lv(rng, th == 0 and (not depth or o.form == "tls"))); pre = ""
            if opd:
                v, tv = opd; k = rng.randrange(8)
                if k == 5: helpers.append(f"static _Thread_local {tv} w{me} = {lit(v, tv)};"); vt = f"w{me}"
                elif k == 0 and depth == 0 and rng.random() < .6:
                    o2 = rng.choice(objs); _, inner = emit(rng, o2, 1)
                    helpers.append(f"static {tv} h{me}(void) {{ int cnt = 0, cn2 = 0; {inner} return ({tv}){lit(v, tv)}; }}"); vt = f"h{me}()"
                elif k >= 6: vt = rng.choice([f"(cn2++, ({tv}){lit(v, tv)})", f"({tv})({lit(v, tv)} + (cn2++ ? 1 : 0))", f"({tv})(++cn2 ? {lit(v, tv)} : 0)"])
                elif k == 1: vt = f"w{me}"; pre = f"{tv} w{me} = {lit(v, tv)}; "
                elif k == 2: vt = f"({tv})(({lit(v, tv)} + z) * one)"
                else: vt = f"({tv}){lit(v, tv)}"
                e = e.replace("{v}", vt)
            ops[me] = (o.i, f, ("cnt++" in e) + 100 * ("cn2" in e), e)
            # the value itself, not what is left of it after another conversion
            rt = o.t if o.t in SPECIAL or tmpl.endswith(("}++", "}--")) or rng.random() < .4 else "long"
            return me, f"{{ {pre}cnt = cn2 = 0; sim_ev(1, {me}L); {rt} r{me} = ({e}); sim_ev(2, {me}L, {rdx(f'r{me}', o.t)}, (long)(cnt + 100 * cn2)); }}"
        for t in range(nt):
            for k in range(nops[t]):
                r = K.sub(seed, "op", t, k); save = (opid, len(helpers)); o = r.choice(objs); opid = (t * 8 + k) * 4; th = t
                me, txt = emit(r, o, 0)
                if item in drop:
                    del helpers[save[1]:]
                    for q in list(ops):
                        if (t * 8 + k) * 4 < q <= (t * 8 + k) * 4 + 4: del ops[q]
                else: bodies[t].append(txt)
                item += 1
        # one piece of code that several threads execute
        for j in range(nsh):
            r = K.sub(seed, "shop", j); opid = 900 + 4 * j; th = 1; me, txt = emit(r, r.choice(objs), 1); e = ops.pop(me)
            helpers.append(f"static void sh{j}(long id) {{ int cnt = 0, cn2 = 0; " + txt.replace(f"sim_ev(1, {me}L)", "sim_ev(1, id)").replace(f"sim_ev(2, {me}L,", "sim_ev(2, id,") + " }")
            for t in r.sample(range(nt), r.choice([2, 2, nt])):
                p = r.random()
                if item not in drop: ops[2000 + 10 * j + t] = e; bodies[t].insert(int(p * (len(bodies[t]) + 1)), f"sh{j}({2000 + 10 * j + t}L);")
                item += 1
        # plain stores to neighbours, one writer each
        for o in objs:
            for j, (lv, ty, iv) in enumerate(o.neigh):
                r = K.sub(seed, "ngh", o.i, j)
                if r.random() < .5: continue
                t = r.randrange(nt); vals = [r.randrange(2) if ty == "_Bool" else r.randrange(1, 120) for _ in range(r.choice([1, 2]))]
                if item in drop: item += 1; continue
                item += 1; key = 1000 + len(neighw)
                txt = " ".join(f"{lv} = {lit(v, ty)}; if ({lv} != {lit(v, ty)}) sim_ev(3, {key}L, {rdx(lv, ty)});" for v in vals)
                bodies[t].insert(r.randrange(len(bodies[t]) + 1), f"{{ {txt} }}"); neighw[(o.i, j)] = vals[-1]
        src = HEADER + "int z = 0; int one = 1;\n" + "\n".join(o.decl for o in objs) + "\n"
        src += "\n".join(helpers) + "\n"
        src += threads(seed, objs, bodies, nt)
        fin = "".join(f" sim_ev(4, {o.i}L, {rdx(o.fin or '(' + o.lvs[0] + ')', o.t)});" for o in objs)
        fin += "".join(f" sim_ev(5, {o.i}L, {j}L, {rdx('(' + lv + ')', ty)});" for o in objs for j, (lv, ty, iv) in enumerate(o.neigh))
        src += f"void fin(void) {{ int cnt = 0;{fin} }}\n"
        flags = K.sub(seed, "flags").choice([[], [], ["-fpic"]])
        P = Program([src], [(f"t{t}", []) for t in range(nt)], flags, nitems=item, meta=(objs, ops, neighw))
        return P
    def plan(self, P, rng, base, k):
        cfg = self.policies(rng, base, len(P.harts)); cfg["hostile"] = 1; faults = []
        nsc = max(base.scount + [1])
        if rng.random() < .6:
            for _ in range(rng.choice([1, 2, 4, 8])): faults.append([rng.randrange(len(P.harts)), rv.SC_FAIL, rng.randrange(nsc * 2 + 2), 0])
        if rng.random() < .3: h = rng.randrange(len(P.harts)); faults.append([h, rv.STALL, rng.randrange(max(1, base.icount[h])), rng.choice([20, 200, 2000])])
        return dict(cfg=cfg, faults=faults, regseed=rng.getrandbits(30) + 1)
    def runargs(self, P, run): return dict(setup=tlssetup(P.meta[0]))
    def after(self, P, prog, r):
        ev = prog.call("fin"); r.fin = {}
        for e in ev or []:
            if e[3][0] == 4: r.fin[("v", e[3][1])] = conv(e[3][2], P.meta[0][e[3][1]].t)
            if e[3][0] == 5: r.fin[("n", e[3][1], e[3][2])] = conv(e[3][3], P.meta[0][e[3][1]].neigh[e[3][2]][1])
    def check(self, P, prog, r):
        objs, ops, neighw = P.meta
        hist = {o.i: [] for o in objs}; inv = {}
        for seq, (step, hart, svc, a, sp) in enumerate(r.events):
            if a[0] == 1: inv[a[1]] = seq
            elif a[0] == 2:
                i, f, once, txt = ops.get(a[1], (None,) * 4)
                if i is None or a[1] not in inv: return ("history", f"unexpected event {a[:3]}")
                if a[3] != once: return ("evaluated-twice", f"{txt}: the lvalue was evaluated {a[3] % 100} times, the operand {a[3] // 100} times")
                hist[i].append((inv[a[1]], seq, f, a[2], txt))
            elif a[0] == 3: return ("neighbour", f"a thread does not read back its own store next to the object: {a[2]}")
        if len(inv) != len(ops): return ("history", "operations missing")
        fin = r.fin
        if not fin: return ("final", "the objects cannot be read at the end")
        for o in objs:
            lo = []
            for (i, rt, f, res, txt) in hist[o.i]:
                def fn(s, f=f, res=res):
                    n, v = f(s); return [n] if (conv(v, "long") & (2**64 - 1)) == res else []
                lo.append((i, rt, fn))
            why = linearizable(lo, conv(o.init, o.t), fin[("v", o.i)])
            if why: return ("not-linearizable", f"{o.t} object '{o.lvs[0]}' (initially {o.init}, finally {fin[('v', o.i)]}): {why}: " + "; ".join(f"{h[4]} -> {conv(h[3], 'long')}" for h in hist[o.i]))
            for j, (lv, ty, iv) in enumerate(o.neigh):
                w = conv(neighw.get((o.i, j), iv), ty)
                if fin[("n", o.i, j)] != w: return ("neighbour", f"'{lv}' next to the atomic object is {fin[('n', o.i, j)]}, expected {w}")
        return None
