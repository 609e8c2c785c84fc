"""C17: a store changes only the object it assigns."""
from .. import common as K, rv
from ..rvbase import RvScenario, Program
from ..ctypes_model import *

INTS = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "enum E"]
TYPES.setdefault("enum E", TYPES["int"])
SIZES = [1, 2, 3, 5, 6, 7, 9, 11, 12, 15, 16, 17, 20, 23, 24, 31, 33, 40]
class El:
    """One C11 memory location (or an object made of several, all of one owner)."""
    def __init__(s, lv, kind, t=None, fields=None): s.lv, s.kind, s.t, s.fields = lv, kind, t, fields; s.owner = None; s.init = 0
def s_decl(n, form):
    """A structure of n bytes, by form: all char, or longs/ints first."""
    if form == 0 or n < 4: return f"struct C{n} {{ unsigned char c[{n}]; }};"
    if form == 1 and n % 8 == 0: return f"struct C{n} {{ long l; unsigned char c[{n - 8}]; }};" if n > 8 else f"struct C{n} {{ unsigned char c[{n}]; }};"
    if form == 2 and n % 4 == 0 and n > 4: return f"struct C{n} {{ unsigned char c[{n - 4}]; int l; }};"
    return f"struct C{n} {{ unsigned char c[{n}]; }};"
BIG = [2049, 2051, 2056, 2060, 2064, 2100]
def idx(n): return list(range(n)) if n < 2000 else list(range(5)) + list(range(n - 6, n))
def nchars(d): return int(d.split("c[")[1].split("]")[0])

class S(RvScenario):
    ID = "C17"; PROGRAMS = 4000; RUNS = 30
    RULE = ("a case is 2-4 threads each storing (=, op=, ++, structure assignment from a call, a literal or another object, bit-field stores, through pointers) to its own elements of objects whose neighbouring elements "
            "belong to other threads: scalar arrays, structures and unions (also packed) with plain members next to bit-fields, arrays of odd-sized structures, consecutive variables, parameters of one call, static or in another thread's frame, under one "
            "seeded schedule; non-trivial: more switches than threads; distinct by interleaving hash; oracle: per-element last value, at every read-back and at the end")
    def gen(self, seed, drop=frozenset()):
        r = K.sub(seed, "shape"); nt = r.choice([2, 2, 3, 4]); els = []; decl = []; defs = []; sizes = {}; place = r.choice(["global", "global", "stack"])
        def struct(n):
            if n not in sizes: sizes[n] = s_decl(n, r.choice([0, 0, 1, 2]))
            return f"struct C{n}"
        stackdecl = []; ptr = []; fq = K.sub(seed, "far"); far = fq.random() < .12   # beyond the reach of an instruction's offset
        def obj(name, declr, els_):  # declr has %s for the name
            if place == "global":
                defs.append(r.choice(["", "static "]) + (declr % name) + ";"); 
                for e in els_: e.lv = name + e.lv; els.append(e)
            else:
                stackdecl.append(r.choice(["", "", "", "", "static _Thread_local ", "static "]) + (declr % name) + ";"); defs.append(f"{declr % ('(*volatile p_' + name + ')')};"); ptr.append(name)
                for e in els_: e.lv = f"(*p_{name}){e.lv}"; els.append(e)
        for c in range(r.choice([1, 1, 2, 3])):
            k = r.choice(["array", "array", "struct", "struct", "struct", "structs", "structs", "vars"]); nm = f"o{c}"
            if k == "array":
                t = r.choice(INTS + ["_Bool", "float", "double"]); n = r.choice([3, 5, 8, 12])
                obj(nm, f"{t} %s[{n}]", [El(f"[{i}]", "scalar", t) for i in range(n)])
            elif k == "structs":
                n = r.choice(SIZES); m = r.choice([2, 3, 5])
                if far and place == "global" and fq.random() < .6: n = fq.choice(BIG); m = 3
                s = struct(n); obj(nm, f"{s} %s[{m}]", [El(f"[{i}]", "struct", n) for i in range(m)])
            elif k == "vars":
                for i in range(r.choice([2, 4])):
                    t = r.choice(INTS if place == "global" or r.random() < .3 else INTS[:3]); obj(f"{nm}v{i}", f"{t} %s", [El("", "scalar", t)])
            else:
                mem = []; tmp = []; packed = r.random() < .3; bits = 0; run = None; ctr = 0
                for i in range(r.choice([2, 3, 5, 7])):
                    q = r.choice(["scalar", "scalar", "bits", "bits", "struct", "arr", "ptr"])
                    if packed and q in ("bits",): q = "scalar"
                    if q == "scalar": t = r.choice(INTS + ["_Bool", "float", "double"]); mem.append(f"{t} m{i};"); tmp.append(El(f".m{i}", "scalar", t)); run = None
                    elif q == "arr": t = r.choice(INTS[:7]); n = r.choice([1, 2, 3]); mem.append(f"{t} m{i}[{n}];"); tmp += [El(f".m{i}[{j}]", "scalar", t) for j in range(n)]; run = None
                    elif q == "ptr": mem.append(f"long *m{i};"); tmp.append(El(f".m{i}", "ptr")); run = None
                    elif q == "struct": n = r.choice(SIZES); mem.append(f"{struct(n)} m{i};"); tmp.append(El(f".m{i}", "struct", n)); run = None
                    else:
                        if run is not None and r.random() < .3: mem.append(f"{r.choice(['int', 'char', 'long'])} : 0;"); run = None
                        fs = []
                        for j in range(r.choice([1, 1, 2, 3])):
                            bt = r.choice(["unsigned int", "int", "unsigned char", "unsigned short", "unsigned long", "long"]); w = r.randrange(1, min(TYPES[bt][0], 62) + 1) if r.random() < .3 else r.choice([1, 2, 3, 5, 7, 8][: 6 if TYPES[bt][0] >= 8 else 5])
                            mem.append(f"{bt} m{i}_{j} : {w};"); fs.append((f".m{i}_{j}", bt, w))
                        if run is None: run = El("", "bits", fields=fs); tmp.append(run)
                        else: run.fields += fs
                if far and place == "global" and fq.random() < .6: mem.insert(0, f"char gap[{fq.choice([2040, 2047, 2050])}];")
                decl.append(f"struct T{c} {{ {' '.join(mem)} }}" + (" __attribute__((packed))" if packed else "") + ";")
                cnt = r.choice([0, 0, 2, 3])
                if cnt:
                    allm = []
                    for x in range(cnt):
                        for e in tmp: allm.append(El(f"[{x}]" + e.lv, e.kind, e.t, [(f"[{x}]" + a, b, w) for a, b, w in e.fields] if e.fields else None))
                    obj(nm, f"struct T{c} %s[{cnt}]", allm)
                else: obj(nm, f"struct T{c} %s", tmp)
                if place == "global" or True:
                    for e in els:
                        if e.kind == "bits" and not getattr(e, "pfx", None) : e.pfx = nm if place == "global" else f"(*p_{nm})"
        scr = self.scratch(K.sub(seed, "scratch"), len(stackdecl), struct, drop) if place == "stack" else []
        # owners: neighbours differ
        last = None
        for e in els:
            e.owner = r.choice([t for t in range(nt) if t != last] or [0]) if r.random() < .85 else r.randrange(nt); last = e.owner
        # functions whose parameters are neighbours in the frame: a parameter is an object its caller stores to
        pars = []
        for k in range(r.choice([0, 1, 2])):
            q = K.sub(seed, "par", k); ps = []; regs = fr = 0
            for _ in range(q.choice([2, 3, 4, 6])):
                if q.random() < .4 and not far: n = q.choice([1, 2, 3, 5, 6, 7, 9, 11, 12, 15, 16]); struct(n); g = 1 if n <= 8 else 2; t = n
                else: t = q.choice(INTS + ["_Bool", "float", "double"]); g = 0 if t in ("float", "double") else 1
                if regs + g > 8: continue
                regs += g; ps.append(t)
            re = [(q.randrange(len(ps)), q.randrange(1, 100)) for _ in range(q.choice([0, 1, 2]))]
            pars.append((ps, re, [q.randrange(1, 100) for _ in ps], q.randrange(nt), q.choice([1, 2]), q.random()))
        el = {n: nchars(d) for n, d in sizes.items()}
        src = "void sim_ev(long a, ...); void sim_yield(void); long pt(long x); enum E { E0, E1 = 200 };\n" + "\n".join(sizes.values()) + "\n" + "\n".join(decl) + "\nlong dummy[64];\n"
        for n, d in sizes.items():
            hasl = " l;" in d; k = el[n]; nx = f"i += i < 4 || i >= {k - 6} ? 1 : {k - 10}" if n > 2000 else "i++"
            src += f"static struct C{n} mk{n}(int v) {{ struct C{n} s; for (int i = 0; i < {k}; {nx}) s.c[i] = v + i; {'s.l = v;' if hasl else ''} return s; }}\nstatic long chk{n}(struct C{n} *p) {{ long t = {'p->l' if hasl else '0'}; for (int i = 0; i < {k}; {nx}) t += p->c[i] * (i + 1); return t; }}\n"
            if n > 2000: src = src[:src.rindex("static struct")] + f"static void fill{n}(struct C{n} *p, int v) {{ for (int i = 0; i < {k}; {nx}) p->c[i] = v + i; {'p->l = v;' if hasl else ''} }}\n" + src[src.rindex("static long chk"):]
        for k, (ps, re, vs, t, n, at) in enumerate(pars):
            tot = " + ".join(f"{i + 1} * " + (f"chk{x}(&p{i})" if isinstance(x, int) else f"(long)p{i}") for i, x in enumerate(ps)) or "0"
            src += f"static void par{k}({', '.join(f'struct C{x} p{i}' if isinstance(x, int) else f'{x} p{i}' for i, x in enumerate(ps)) or 'void'}) {{ {'char far[2100]; far[pt(9)] = 1; ' if far else ''}sim_ev(9, {k}L, 0L, {tot}); " + " ".join(f"p{i} = {f'mk{ps[i]}({c})' if isinstance(ps[i], int) else c}; sim_ev(9, {k}L, {j + 1}L, {tot});" for j, (i, c) in enumerate(re)) + " }\n"
        src += "\n".join(defs) + "\n" + "volatile long ready, fin[8];\n"
        self_sz = sizes
        def rd(e):
            if e.kind == "struct": return [f"chk{e.t}(&{e.lv})"]
            if e.kind == "ptr": return [f"({e.lv} ? (long)({e.lv} - dummy) : 0L)"]
            if e.kind == "bits": return [f"(long){e.pfx}{a}" for a, b, w in e.fields]
            return [f"(long){e.lv}"]
        ops = {}; opid = 0; item = len(scr); bodies = [[] for _ in range(nt)]
        for t in range(nt):
            mine = [i for i, e in enumerate(els) if e.owner == t]
            if not mine: continue
            loops = r.choice([1, 1, 3])
            for k in range(r.choice([3, 6, 10])):
                q = K.sub(seed, "op", t, k); i = q.choice(mine); e = els[i]; opid += 1; c = q.choice([1, 2, 5, 17, 77, 100, 127])
                if item in drop: item += 1; continue
                item += 1; fi = None
                if e.kind == "scalar":
                    how = q.choice(["set", "set", "add", "inc", "ptr", "xor", "dec"])
                    if e.t == "_Bool": how = "set"; c &= 1
                    if e.t in ("float", "double") and how == "xor": how = "add"
                    b = {"set": f"{e.lv} = {c};", "add": f"{e.lv} += {c};", "inc": q.choice([f"{e.lv}++;", f"++{e.lv};"]), "dec": q.choice([f"{e.lv}--;", f"--{e.lv};"]), "ptr": f"{{ {e.t} *p = &{e.lv}; *p = {c}; }}", "xor": f"{e.lv} ^= {c};"}[how]
                elif e.kind == "ptr":
                    c %= 60; how = q.choice(["set", "inc"]) ; how = "set"; b = f"{e.lv} = &dummy[{c}];"
                elif e.kind == "struct":
                    how = q.choice(["set", "loc", "set", "ptr", "cpy"]); src_ = [j for j in mine if els[j].kind == "struct" and els[j].t == e.t and j != i]
                    if how == "cpy" and not src_: how = "set"
                    if e.t > 2000 and how != "cpy": b = f"fill{e.t}(&{e.lv}, {c});"
                    elif how == "set": b = f"{e.lv} = mk{e.t}({c});"
                    elif how == "loc": b = f"{{ struct C{e.t} s = mk{e.t}({c}); pt(1); {e.lv} = s; }}"
                    elif how == "ptr": b = f"{{ struct C{e.t} *p = &{e.lv}; *p = mk{e.t}({c}); }}"
                    else: fi = q.choice(src_); b = f"{e.lv} = {els[fi].lv};"
                else:
                    fi = q.randrange(len(e.fields)); f, bt, w = e.fields[fi]; how = q.choice(["set", "set", "add", "xor"])
                    b = {"set": f"{e.pfx}{f} = {c};", "add": f"{e.pfx}{f} += {c};", "xor": f"{e.pfx}{f} ^= {c};"}[how]
                b += f" {'sim_yield(); ' if q.random() < .3 else ''}sim_ev(1, {opid}L, {', '.join(rd(e)[:4])});"
                ops[opid] = (t, i, how, c, fi, b); bodies[t].append(b)
        for k, (ps, re, vs, t, n, at) in enumerate(pars):
            if item not in drop: b = f"par{k}({', '.join(f'mk{x}({c})' if isinstance(x, int) else str(c) for x, c in zip(ps, vs))});"; bodies[t].insert(int(at * (len(bodies[t]) + 1)), b if n == 1 else f"for (int i = 0; i < {n}; i++) {b}")
            item += 1
        for t in range(nt):
            b = "\n  ".join(bodies[t])
            if place == "stack":
                if t == 0:
                  pre = self.weave(stackdecl, scr); rerun = self.again(K.sub(seed, "rerun"), bodies[0], scr)
                  b = pre + "\n  " + " ".join(f"{{ unsigned char *z = (unsigned char *)&{n}; for (int i = 0; i < (int)sizeof({n}); i++) z[i] = 0; p_{n} = &{n}; }}" for n in ptr) + "\n  ready = 1;\n  " + "\n  ".join(rerun) + f"\n  for (int i = 1; i < {nt}; i++) while (!fin[i]) sim_yield();\n  dump();"
                else: b = f"while (!ready) sim_yield();\n  {b}\n  fin[{t}] = 1;"
            bodies[t] = b
        src += "void dump(void) {\n" + "".join(f"  sim_ev(3, {i}L, {', '.join(rd(e)[:4])});\n" for i, e in enumerate(els)) + "}\n"
        import re as _re; us = K.sub(seed, "unions")
        for n, d in sizes.items():
            if " l;" not in d and us.randrange(3) == 0: fix = lambda x: _re.sub(rf"(union C{n} (?:\w+, )?(\w+)) = mk", r"\1; \2 = mk", _re.sub(rf"struct C{n}\b", f"union C{n}", x)); src = fix(src); bodies = list(map(fix, bodies))
        src += "".join(f"void t{t}(void) {{\n  {bodies[t]}\n}}\n" for t in range(nt))
        return Program([src], [(f"t{t}", []) for t in range(nt)], nitems=item, meta=(els, ops, place, {n: (el[n], " l;" in d) for n, d in sizes.items()}, scr, pars))
    @staticmethod
    def scratch(r, n, struct, drop):
        """Objects of thread 0 laid between the shared ones in its frame and initialised again and again: (item kept, text, value)."""
        out = []; nbig = 0
        for j in range(n + 1):
            k = r.randrange(11); m = r.choice([1, 2, 3, 5, 6, 7, 7, 9, 11, 13, 15, 17, 23]); big = r.randrange(8) == 0 and nbig < 2; nbig += big; m = r.choice([61, 63, 65, 66, 69, 71, 77, 100, 127, 129]) if big else m; c, c2 = r.randrange(1, 100), r.randrange(1, 100); z = f"z{j}"
            su = f"({{ long s = 0; for (int i = 0; i < {m}; i++) s += {z}[i] * (i + 1); s; }})"; v2 = c + (2 * c2 if m > 1 else 0); in2 = f"{c}, {c2}" if m > 1 else f"{c}"
            S = struct(m) if k in (1, 2, 6, 9) else None
            full = lambda sz, m=m, c=c: sum(((c + i) & 255) * (i + 1) for i in idx(sz[m][0])) + (c if sz[m][1] else 0)
            t, v = [(f"unsigned char {z}[{m}] = {{ {in2} }};", v2), (f"{S} {z} = mk{m}({c});", full), (f"long {z} = mk{m}({c}).c[0];", c), (f"char {z}[{m}] = {{ 0 }};", 0), (f"short {z}[{m}] = {{ {in2} }};", v2),
                    (f"unsigned char *{z} = (unsigned char[{m}]){{ {in2} }};", v2), (f"{S} {z} = {{ 0 }};", 0), (f"struct {{ char a; short b; char c; }} {z} = {{ {c}, {c2} }};", c + c2 * 2), (f"{r.choice(['unsigned char', 'unsigned short', 'int', 'char'])} {z} = {c};", c),
                    (f"{S} {z}, y{j} = mk{m}({c}); {z} = y{j};", full), (f"union {{ unsigned char c[{m}]; }} {z} = {{ {{ {in2} }} }};", v2)][k]
            rd = {1: f"chk{m}(&{z})", 2: z, 6: f"chk{m}(&{z})", 7: f"{z}.a + {z}.b * 2 + {z}.c * 3", 8: z, 9: f"chk{m}(&{z})", 10: su.replace(f"{z}[i]", f"{z}.c[i]")}.get(k, su)
            out.append((j not in drop and r.random() < .75, f"{t} sim_ev(8, {j}L, (long)({rd}));", v))
        return out
    @staticmethod
    def weave(decls, scr):
        blk = lambda j: f"if (0) {{ S{j}: {{ {scr[j][1]} }} goto R{j}; }}" if scr[j][0] else ""
        return " ".join(x for j, d in enumerate(decls) for x in (blk(j), d)) + " " + blk(len(decls))
    @staticmethod
    def again(r, body, scr):
        b = list(body)
        for j, x in enumerate(scr):
            if x[0]: b.insert(r.randrange(len(b) + 1), f"{{ volatile int n{j} = {r.choice([1, 3, 8])}; L{j}: goto S{j}; R{j}: if (--n{j}) goto L{j}; }}")
        return b
    def plan(self, P, rng, base, k):
        cfg = self.policies(rng, base, len(P.harts)); cfg["hostile"] = 1
        return dict(cfg=cfg, faults=[], regseed=rng.getrandbits(30) + 1)
    def baseplan(self, P): return dict(cfg=dict(seed=1, policy=3, quantum=60, hostile=1, fair_after=20000), regseed=1)
    def after(self, P, prog, r):
        if P.meta[2] == "global": r.final = prog.call("dump")
    @staticmethod
    def value(e, st, sz):
        """Model value of an element as the list rd() reports."""
        if e.kind == "struct":
            v = st; n, hasl = sz[e.t]
            if v is None: return [0]
            return [sum(((v + i) & 255) * (i + 1) for i in idx(n)) + (v if hasl else 0)]
        if e.kind == "bits": return [x for x in (st or [0] * len(e.fields))][:4]
        return [st or 0]
    def apply(self, e, how, c, fi, els, state, i, sz):
        cur = state.get(i)
        if e.kind == "scalar":
            if e.t in ("float", "double"):
                x = cur or 0; state[i] = {"set": c, "ptr": c, "add": x + c, "inc": x + 1, "dec": x - 1}[how]; return
            x = cur or 0; v = {"set": c, "ptr": c, "add": x + c, "inc": x + 1, "dec": x - 1, "xor": x ^ c}[how]; state[i] = conv(v, e.t)
        elif e.kind == "ptr": state[i] = c
        elif e.kind == "struct": state[i] = state.get(fi) if how == "cpy" else c
        else:
            x = list(cur or [0] * len(e.fields)); f, bt, w = e.fields[fi]; v = {"set": c, "add": x[fi] + c, "xor": x[fi] ^ c}[how] & ((1 << w) - 1)
            if TYPES[bt][1] and v >> (w - 1): v -= 1 << w
            x[fi] = v; state[i] = x
    def check(self, P, prog, r):
        els, ops, place, sz, scr, pars = P.meta; state = {}; seen = 0
        def cmp(a, e, i):
            w = [conv(x, "long") for x in self.value(e, state.get(i), sz)]; g = [conv(x, "long") for x in a[:len(w)]]
            if g != w: return g, w
        for step, hart, svc, a, sp in r.events + (r.final if place == "global" and r.final else []):
            if a[0] == 1:
                t, i, how, c, fi, b = ops[a[1]]; e = els[i]; self.apply(e, how, c, fi, els, state, i, sz); x = cmp(a[2:], e, i)
                if x: return ("disturbed", f"thread {t} after \"{b.split(' sim_')[0]}\" reads back {x[0]}, its own last value is {x[1]}")
            elif a[0] == 8:
                txt, want = scr[a[1]][1:3]; want = want(sz) if callable(want) else want
                if K.s64(a[2]) != want: return ("disturbed", f"thread 0's own \"{txt}\" reads back {K.s64(a[2])}, should be {want}")
            elif a[0] == 9:
                ps, re, vs = pars[a[1]][:3]; v = list(vs)
                for i, c in re[:a[2]]: v[i] = c
                one = lambda t, c: sum(((c + i) & 255) * (i + 1) for i in idx(sz[t][0])) + (c if sz[t][1] else 0) if isinstance(t, int) else 1 if t == "_Bool" else c if t in ("float", "double") else conv(c, t)
                want = sum((i + 1) * one(t, c) for i, (t, c) in enumerate(zip(ps, v)))
                if K.s64(a[3]) != want: return ("disturbed", f"the parameters {', '.join(f'struct C{t}' if isinstance(t, int) else t for t in ps)} of par{a[1]} add up to {K.s64(a[3])} after {a[2]} assignments, should be {want}")
            elif a[0] == 3:
                e = els[a[1]]; seen += 1; x = cmp(a[2:], e, a[1])
                if x: return ("disturbed", f"at the end {e.lv or e.pfx} of thread {e.owner} holds {x[0]}, the last value stored is {x[1]}")
        if seen != len(els): return ("history", "missing events")
        return None
