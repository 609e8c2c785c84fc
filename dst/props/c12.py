"""C12: compare-exchange, exchange, flags, load and store; locks made of them."""
from .. import common as K, rv
from ..rvbase import RvScenario, Program
from ..ctypes_model import *
from .c11 import Obj, threads, tlssetup, ITYPES, ATYPES, HEADER, PLAIN, TD

def dom(rng, t):
    if t == "_Bool": return [0, 1]
    if t in SPECIAL: d = [0, 1, 2, 5, 77, -1]; rng.shuffle(d); return d[:rng.choice([2, 3, 4])]
    b, s = TYPES[t]
    d = [0, 1, 2, conv(-1, t), conv(1 << (b - 1), t), conv((1 << (b - 1)) - 1, t), conv(0x5a5a5a5a5a5a5a5a, t)]
    rng.shuffle(d); return d[:rng.choice([2, 3, 4])]

class S(RvScenario):
    ID = "C12"; PROGRAMS = 5000; RUNS = 50
    RULE = ("a case is a generated program under one seeded schedule with spurious SC failures and stalls: either 2-4 threads of compare-exchange (weak and strong), exchange, "
            "flag, load and store operations with random operand expressions on 1-2 integer objects, or 2-4 threads contending for a lock built from these operations; "
            "non-trivial: more context switches than threads; distinct by the hash of the interleaving of shared accesses")
    def gen(self, seed, drop=frozenset()):
        return self.gen_lock(seed, drop) if K.sub(seed, "kind").random() < .25 else self.gen_ops(seed, drop)
    # -- random operations
    def gen_ops(self, seed, drop):
        rng = K.sub(seed, "shape"); nobj = rng.choice([1, 1, 2]); nt = rng.choice([2, 2, 3, 3, 4])
        objs = []; flagobj = set()
        for i in range(nobj):
            r = K.sub(seed, "obj", i)
            if r.random() < .15: flagobj.add(i); o = Obj(r, i, "_Bool", r.choice(["global", "array", "member"]))
            else: o = Obj(r, i, r.choice(ATYPES))
            o.dom = dom(r, o.t); objs.append(o)
        nops = [rng.choice([1, 2, 3, 3, 4]) for _ in range(nt)]
        while sum(nops) > 11: nops[nops.index(max(nops))] -= 1
        bodies = [[] for _ in range(nt)]; helpers = []; ops = {}; item = 0; opid = 0; neighw = {}; th = 0
        def value(r, v, t, me, depth):
            """An expression of value v for an object of type t."""
            k = r.randrange(12)
            tv = t if t != "_Bool" else "int"
            if isptr(t) and k in (1, 2, 5): k = r.choice([4, 6, 7, 8])
            if isflt(t) and k in (2, 5): return r.choice([f"{v}", f"({v}L)", lit(v, t) if t == "tdouble" else f"{v}.0f", f"ident_64({v})"])
            if t == "tenum" and k == 3: k = 4
            if k == 0 and depth == 0:
                o2 = r.choice(objs); inner = emit(r, o2, 1, me)
                helpers.append(f"static {tv} h{me}(void) {{ int cnt = 0, cn2 = 0; {inner} return ({tv}){lit(v, tv)}; }}"); return f"h{me}()"
            if k == 1: return f"({tv})(({lit(v, tv)} + z) * one)"
            if k == 2: return f"(tl = {lit(v, tv)}, ({tv})tl)" if tv not in ("unsigned long", "unsigned long long") else f"({tv}){lit(v, tv)}"
            if k == 3 and t != "_Bool" and TYPES[t][0] <= 32 and v >= 0: return f"((double){v} + dz)"
            if k == 4: return f"(one ? {lit(v, tv)} : {lit(0, tv)})"
            if k == 5: return f"ident_{TYPES[tv][0]}({lit(v, tv)})" if TYPES[tv][0] >= 32 else f"ident_32({lit(v, tv)})"
            if k == 7: helpers.append(f"static _Thread_local {tv} w{me} = {lit(v, tv)};"); return r.choice([f"w{me}", f"*&w{me}", f"({tv})w{me}"])
            if k == 8: helpers.append(f"static {tv} w{me}[3] = {{ 1, {lit(v, tv)}, 2 }};"); return f"w{me}[one]"
            if k >= 10: return r.choice([f"(cn2++, ({tv}){lit(v, tv)})", f"(++cn2 ? ({tv}){lit(v, tv)} : ({tv}){lit(v, tv)})"])
            if k == 6: return f"({{ {tv} q = {lit(v, tv)}; q; }})"
            return f"({tv}){lit(v, tv)}"
        def emit(r, o, depth, base):
            nonlocal opid
            opid += 1; me = opid; lv = o.lv(r, th == 0 and (not depth or o.form == 'tls')); adr = f"&{lv}"; t = o.t
            if r.random() < .2: adr = f"(one ? {adr} : ({'_Atomic ' + t + ' *'})0)"
            if o.i in flagobj: k = r.choice(["tas", "tas", "clear", "load"])
            else: k = r.choice(["cas", "cas", "casw", "cas2", "xchg", "load", "store"])
            ex = r.random() < .3; o_ = ", memory_order_seq_cst" if ex else ""; x_ = "_explicit" if ex else ""
            v = r.choice(o.dom)
            if k in ("cas", "casw", "cas2"):
                e = r.choice(o.dom); strong = k != "casw"; nm = "strong" if strong else "weak"
                side = r.choice([17, 33, 90]); sd = lit(side & 1 if t == "_Bool" else side, t)
                decl = f"struct {{ {t} a; {t} e; {t} b; }} x{me} = {{ {sd}, {lit(e, t)}, {sd} }}; "
                pre = decl; ep = f"&x{me}.e"
                if r.random() < .3: ep = f"(&x{me}.a + 1)"
                if k == "cas2": pre += f"x{me}.e = {lv}; sim_ev(1, {me + 2}L); x{me}.e = atomic_load({adr}); sim_ev(2, {me + 2}L, {rdx(f'x{me}.e', t)}, 1L); "; opid += 2
                if k == "cas2": ops[me + 2] = (o.i, lambda s: [(s, s, None)], None, f"load {lv}", 1)
                nv = value(r, v, t, me, depth)
                val = f"_Bool r{me} = atomic_compare_exchange_{nm}({adr}, {ep}, {nv}); "
                post = f"sim_ev(2, {me}L, (long)r{me} | (long)(cnt + 100 * cn2) << 8, {rdx(f'x{me}.e', t)}, {rdx(f'x{me}.a', t)}, {rdx(f'x{me}.b', t)}); "
                exp = e if k != "cas2" else None
                def f(s, exp=exp, v=v, strong=strong, me=me):
                    # list of (new state, returned, expected afterwards); exp None: taken from the preceding load
                    return ("cas", exp, v, strong)
                ops[me] = (o.i, f, ("cnt++" in lv) + 100 * ("cn2" in nv), f"cas_{nm}({lv}, {e if exp is not None else '=load'}, {v})", side & 1 if t == "_Bool" else side)
                body = pre + f"cnt = cn2 = 0; sim_ev(1, {me}L); " + val + post
                return "{ " + body + "}"
            if k == "xchg": val = f"atomic_exchange{x_}({adr}, {value(r, v, t, me, depth)}{o_})"; f = lambda s, v=v: [(v, s, None)]; txt = f"xchg({lv}, {v})"
            elif k == "tas": val = f"atomic_flag_test_and_set{x_}({adr}{o_})"; f = lambda s: [(1, s, None)]; txt = f"tas({lv})"
            elif k == "clear": val = f"(atomic_flag_clear{x_}({adr}{o_}), 0)"; f = lambda s: [(0, 0, None)]; txt = f"clear({lv})"
            elif k == "load": val = r.choice([f"atomic_load{x_}({adr}{o_})", lv]); f = lambda s: [(s, s, None)]; txt = f"load({lv})"
            else:
                vv = value(r, v, t, me, depth); val = r.choice([f"(atomic_store{x_}({adr}, {vv}{o_}), {lit(v, t)})", f"({lv} = {vv})"]); f = lambda s, v=v: [(v, v, None)]; txt = f"store({lv}, {v})"
            ops[me] = (o.i, f, ("cnt++" in lv) + 100 * ("cn2" in val), txt, None)
            rt = "long" if k in ("xchg", "tas", "load") and t not in SPECIAL and r.random() < .6 else t
            return f"{{ cnt = cn2 = 0; sim_ev(1, {me}L); {rt} r{me} = {val}; sim_ev(2, {me}L, {rdx(f'r{me}', t)}, (long)(cnt + 100 * cn2)); }}"
        for t in range(nt):
            for k in range(nops[t]):
                r = K.sub(seed, "op", t, k); nh = len(helpers); o = r.choice(objs); opid = b0 = (t * 8 + k) * 10; th = t
                txt = emit(r, o, 0, 0)
                if item in drop:
                    del helpers[nh:]
                    for q in list(ops):
                        if b0 < q <= b0 + 10: del ops[q]
                else: bodies[t].append(txt)
                item += 1
        for o in objs:
            for j, (lv, ty, iv) in enumerate(o.neigh):
                r = K.sub(seed, "ngh", o.i, j)
                if r.random() < .6: continue
                t = r.randrange(nt); v = r.randrange(2) if ty == "_Bool" else r.randrange(1, 120)
                if item in drop: item += 1; continue
                item += 1; bodies[t].insert(r.randrange(len(bodies[t]) + 1), f"{{ {lv} = {lit(v, ty)}; if ({lv} != {lit(v, ty)}) sim_ev(3, 0L, {rdx(lv, ty)}); }}"); neighw[(o.i, j)] = v
        src = HEADER + "int z = 0; int one = 1; double dz = 0.25; _Thread_local long tl = 5;\nint ident_32(int x) { return x; }\nlong ident_64(long x) { long a[4]; a[x & 3] = x; return a[x & 3]; }\n"
        src += "\n".join(o.decl for o in objs) + "\n" + "\n".join(helpers) + "\n"
        src += threads(seed, objs, bodies, nt)
        fin = "".join(f" sim_ev(4, {o.i}L, {rdx(o.fin or '(' + o.lvs[0] + ')', o.t)});" for o in objs) + "".join(f" sim_ev(5, {o.i}L, {j}L, {rdx('(' + lv + ')', ty)});" for o in objs for j, (lv, ty, iv) in enumerate(o.neigh))
        src += f"void fin(void) {{ int cnt = 0;{fin} }}\n"
        return Program([src], [(f"t{t}", []) for t in range(nt)], K.sub(seed, "flags").choice([[], [], ["-fpic"]]), nitems=item, meta=("ops", objs, ops, neighw))
    # -- locks
    def gen_lock(self, seed, drop):
        rng = K.sub(seed, "shape"); nt = rng.choice([2, 3, 4]); t = rng.choice([x for x in ITYPES if x != "_Bool"])
        o = Obj(K.sub(seed, "obj"), 0, t, rng.choice(["global", "array", "member", "nested", "static"])); lv = o.lvs[0]; z = lit(0, t); o1 = lit(1, t)
        kind = rng.choice(["cas", "casw", "xchg", "flag", "ticket", "fetchor"])
        decl = o.decl.replace("{ " + lit(o.init, t), "{ " + lit(o.init, t)); init = f"void init(void) {{ int cnt = 0; {lv} = {z}; }}"
        A = "(" + lv + ")"
        if kind in ("cas", "casw"):
            nm = "strong" if kind == "cas" else "weak"
            acq = f"for (;;) {{ {t} e = {z}; if (atomic_compare_exchange_{nm}(&{A}, &e, {lit(1, t)} + (({t})me & 1))) break; }}"; rel = f"atomic_store(&{A}, {z});"
            if rng.random() < .4: rel = f"{{ {t} e = {o1} + (({t})me & 1); while (!atomic_compare_exchange_{nm}(&{A}, &e, {z})) e = {o1} + (({t})me & 1); }}"
        elif kind == "xchg": acq = f"while (atomic_exchange(&{A}, {o1})) ;"; rel = rng.choice([f"atomic_store(&{A}, {z});", f"(void)atomic_exchange(&{A}, {z});", f"{A} = 0;"])
        elif kind == "flag": decl += " atomic_flag fl = ATOMIC_FLAG_INIT(0);"; acq = "while (atomic_flag_test_and_set(&fl)) ;"; rel = "atomic_flag_clear(&fl);"
        elif kind == "fetchor": acq = f"while (atomic_fetch_or(&{A}, {o1}) & 1) ;"; rel = f"{A} &= ~{o1};"
        else:
            decl += f" {TD[t]} serving = {z};"; acq = f"{t} my = {A}++; while (serving != my) ;"; rel = rng.choice(["serving++;", f"serving += {o1};", f"atomic_fetch_add(&serving, 1);"])
        it = [rng.choice([1, 2, 3]) for _ in range(nt)]; item = 0
        src = HEADER + decl + "\n" + init + "\nlong plain; struct { short a; int b; char c[9]; } data;\n"
        tot = 0
        for k in range(nt):
            n = 0
            for j in range(it[k]):
                if item not in drop: n += 1
                item += 1
            tot += n
            src += f"""void t{k}(void) {{ int cnt = 0; long me = {k}; for (int i = 0; i < {n}; i++) {{
  {acq}
  sim_ev(10, me); long v = plain; data.a++; data.c[8] = me; data.b += 2; if (data.c[8] != me) sim_ev(3, 1L, (long)data.c[8]); plain = v + 1; sim_ev(11, me);
  {rel}
}} }}\n"""
        src += "void fin(void) { sim_ev(6, plain, (long)data.a, (long)data.b); }\n"
        return Program([src], [(f"t{k}", []) for k in range(nt)], K.sub(seed, "flags").choice([[], [], ["-fpic"]]), nitems=item, meta=("lock", tot, kind), desc=None)
    def runargs(self, P, run): return dict(setup=tlssetup(P.meta[1]) if P.meta[0] == 'ops' else None)
    def load(self, P):
        prog = super().load(P)
        if P.meta[0] == "lock":
            # the lock starts free: run init once and make the result the initial image
            prog.L.sim_reset()
            if prog.call("init") is None: raise rv.CompileError("init", 1, "the initialiser of the lock does not run")
            prog.L.sim_snapshot()
        return prog
    def plan(self, P, rng, base, k):
        cfg = self.policies(rng, base, len(P.harts)); cfg["hostile"] = 1; faults = []
        nsc = max(base.scount + [1])
        if rng.random() < .6:
            for _ in range(rng.choice([1, 2, 4, 8])): faults.append([rng.randrange(len(P.harts)), rv.SC_FAIL, rng.randrange(nsc * 2 + 2), 0])
        if rng.random() < .3: h = rng.randrange(len(P.harts)); faults.append([h, rv.STALL, rng.randrange(max(1, base.icount[h])), rng.choice([20, 200, 2000])])
        return dict(cfg=cfg, faults=faults, regseed=rng.getrandbits(30) + 1)
    def after(self, P, prog, r): r.fin = prog.call("fin") or []
    def check(self, P, prog, r):
        if P.meta[0] == "lock":
            owner = None
            for e in r.events:
                a = e[3]
                if a[0] == 10:
                    if owner is not None: return ("mutual-exclusion", f"threads {owner} and {a[1]} are both in the critical section of a {P.meta[2]} lock")
                    owner = a[1]
                elif a[0] == 11: owner = None
                elif a[0] == 3: return ("mutual-exclusion", "data written inside the critical section changed")
            f = [e[3] for e in r.fin if e[3][0] == 6]
            n = P.meta[1]
            if not f or f[0][1:4] != (n, n, 2 * n): return ("mutual-exclusion", f"protected data: {f and f[0][1:4]}, expected {(n, n, 2 * n)}")
            return None
        _, objs, ops, neighw = P.meta
        hist = {o.i: [] for o in objs}; inv = {}; lastload = {}
        for seq, (step, hart, svc, a, sp) in enumerate(r.events):
            if a[0] == 1: inv[a[1]] = seq
            elif a[0] == 2:
                if a[1] not in ops or a[1] not in inv: return ("history", f"unexpected event {a[:3]}")
                i, f, once, txt, side = ops[a[1]]; o = objs[i]; t = o.t
                sp_ = f(0)
                if isinstance(sp_, tuple):
                    _, exp, v, strong = sp_
                    if exp is None: exp = conv(lastload[a[1] + 2], t)
                    res = a[2] & 0xff; n = a[2] >> 8; ea = conv(a[3], t)
                    if res not in (0, 1): return ("result", f"{txt} returns {res}")
                    if n != once: return ("evaluated-twice", f"{txt}: the object evaluated {n % 100} times, the operand {n // 100} times")
                    if (conv(a[4], t), conv(a[5], t)) != (side, side): return ("expected-neighbour", f"{txt}: the objects next to the expected value became {conv(a[4], t)}, {conv(a[5], t)}, were {side}")
                    def fn(s, exp=exp, v=v, strong=strong, res=res, ea=ea):
                        if res: return [v] if s == exp and ea == exp else []
                        if ea != s: return []
                        if s == exp and strong: return []
                        return [s]
                    hist[i].append((inv[a[1]], seq, fn, f"{txt} -> {bool(res)}, observed {ea}"))
                else:
                    if once is not None and a[3] != once: return ("evaluated-twice", f"{txt}: the object evaluated {a[3] % 100} times, the operand {a[3] // 100} times")
                    res = conv(a[2], t); lastload[a[1]] = a[2]
                    hist[i].append((inv[a[1]], seq, (lambda s, f=f, x=a[2]: [n for n, v, _ in f(s) if (v - x) % 2**64 == 0]), f"{txt} -> {K.s64(a[2])}"))
            elif a[0] == 3: return ("neighbour", f"a thread does not read back its own store next to the object: {a[2]}")
        if len(inv) != len(ops): return ("history", "operations missing")
        fin = {}
        for e in r.fin:
            a = e[3]
            if a[0] == 4: fin[a[1]] = conv(a[2], objs[a[1]].t)
            if a[0] == 5:
                lv, ty, iv = objs[a[1]].neigh[a[2]]; w = conv(neighw.get((a[1], a[2]), iv), ty)
                if conv(a[3], ty) != w: return ("neighbour", f"'{lv}' next to the atomic object is {conv(a[3], ty)}, expected {w}")
        for o in objs:
            if o.i not in fin: return ("final", "the objects cannot be read at the end")
            why = linearizable([h[:3] for h in hist[o.i]], conv(o.init, o.t), fin[o.i])
            if why: return ("not-linearizable", f"{o.t} object '{o.lvs[0]}' (initially {o.init}, finally {fin[o.i]}): {why}: " + "; ".join(h[3] for h in hist[o.i]))
        return None
