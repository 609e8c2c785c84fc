"""C14: thread-local variables are private to each thread."""
from .. import common as K, rv
from ..rvbase import RvScenario, Program
from ..ctypes_model import *

TY = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "_Bool", "float", "double", "ptr"]
OTHER = ("float", "double", "ptr")
def cty(t): return "char *" if t == "ptr" else t
def tlit(v, t): return lit(v, t) if t not in OTHER else f"{v}.0" + ("f" if t == "float" else "") if t != "ptr" else "0" if v == NULLP else f"tgt + {v}"
NULLP = -1000000
def tconv(v, t): return conv(v, t) if t not in OTHER else conv(v, "long")
def rd(lv, t): return f"(long){lv}" if t != "ptr" else f"tg({lv})"
def val_(c, t): return f"{c}" if t != "ptr" else f"tgt + {c}"
def pfn(t): return t.replace(" ", "_")
class Var:
    def __init__(self, r, i):
        self.i = i; self.t = r.choice(TY); n = f"v{i}"; self.n = n; T = cty(self.t)
        self.place = r.choice(["static", "global", "global", "extern", "extern", "local", "local"])
        self.shape = r.choice(["scalar", "scalar", "array", "array", "big", "struct", "struct", "union", "string"])
        if self.shape == "string": self.t = T = r.choice(["char", "unsigned char", "signed char"])
        self.cnt = {"scalar": 1, "array": r.choice([2, 3, 5, 9]), "big": r.choice([300, 700, 1500]), "struct": 3, "union": 1, "string": r.choice([4, 6, 11])}[self.shape]
        self.hasinit = r.random() < .6
        self.init = {}
        def val(): return r.randrange(2) if self.t == "_Bool" else r.choice([0, 3, 77, 1000]) if self.t in OTHER else conv(r.choice([1, 7, 100, 127, -1, 0x1234, 0x7fffffff, -2**31]), self.t)
        kw = r.choice(["_Thread_local", "_Thread_local", "__thread"]); st = "static " if self.place in ("static", "local") else ""
        al = r.choice(["", "", "", "_Alignas(32) "]) if self.place != "extern" else ""
        if self.shape == "struct":
            self.el = [".a", ".m", ".z[2]"]; tt = f"struct S{i}"; self.pre = f"struct S{i} {{ char a; {T} m; short z[3]; }};\n"
            self.et = ["char", self.t, "short"]; vals = [r.choice([5, 9]), val(), r.choice([3, -3])]
            ini = f" = {{ {vals[0]}, {tlit(vals[1], self.t)}, {{ 1, 2, {vals[2]} }} }}"
            if self.hasinit: self.init = dict(enumerate(vals))
            dv = f"{tt} {n}"
        elif self.shape == "union":
            self.el = [".m"]; self.pre = f"union S{i} {{ {T} m; char c[{r.choice([1, 9, 17])}]; }};\n"; self.et = [self.t]; v = val(); ini = f" = {{ {tlit(v, self.t)} }}"; dv = f"union S{i} {n}"
            if self.hasinit: self.init = {0: v}
        elif self.shape == "string":
            self.pre = ""; k = r.choice([0, 1, self.cnt - 1, self.cnt]); st_ = "".join(r.choice("abcXYZ019") for _ in range(k)); dv = f"{T} {n}[{self.cnt}]"; ini = f' = "{st_}"'; self.et = [self.t] * self.cnt
            self.el = [f"[{j}]" for j in range(self.cnt)]; self.init = {j: ord(c) for j, c in enumerate(st_)} if self.hasinit else {}
        else:
            self.pre = ""
            if self.shape == "scalar": self.el = [""]; dv = f"{T} {n}"; v = val(); ini = f" = {tlit(v, self.t)}"; self.init = {0: v} if self.hasinit else {}
            else:
                k = min(self.cnt, r.choice([1, 2, 4])); vs = [val() for _ in range(k)]; dv = f"{T} {n}[{self.cnt}]"; ini = f" = {{ {', '.join(tlit(x, self.t) for x in vs)} }}"
                self.el = [f"[{j}]" for j in range(self.cnt)]; self.init = dict(enumerate(vs)) if self.hasinit else {}
            self.et = [self.t] * self.cnt
        self.init = {k: tconv(v, self.et[k]) for k, v in self.init.items()}
        self.defn = f"{st}{kw} {al}{dv}{ini if self.hasinit else ''};"
        self.decl = f"extern {kw} {dv};"
        if self.place in ("global", "extern") and r.random() < .3: self.defn = self.decl + " " + self.defn
        if self.place in ("global", "extern") and r.random() < .2: self.defn = self.defn + " " + self.decl
        self.blockext = self.place in ("global", "extern") and self.shape != "struct" and self.shape != "union" and r.random() < .4
        # function-scope objects are reached through an accessor
        self.base = n if self.place != "local" else f"(*{n}_f())"
        if self.place == "local":
            ptr = f"{self.shape} S{i} *" if self.shape in ("struct", "union") else f"{T} *"; other = r.choice(["char", "long", "int"])
            # an inner or an earlier block may have an object of the same name
            body = r.choice([f"{self.defn} return &{n};", f"{self.defn} if (zero) {{ static {kw} {other} {n} = 3; {n}++; }} return &{n};", f"if (!zero) {{ static {kw} {other} {n} = 9; {n}++; }} {self.defn} return &{n};",
                             f"{{ static {kw} {other} {n}; {n} = 4; }} {{ {self.defn} return &{n}; }}"])
            if self.shape in ("scalar", "struct", "union"): self.acc = f"{ptr}{n}_f(void) {{ {body} }}"
            else: self.acc = f"{T} (*{n}_f(void))[{self.cnt}] {{ {body} }}"

class S(RvScenario):
    ID = "C14"; PROGRAMS = 5000; RUNS = 24
    RULE = ("a case is a generated program of 1-3 source files with 1-6 thread-local objects (scalars, arrays of up to 12 KB, structures; static, external, function-scope; initialised or zero; "
            "PIC or not) whose 2-4 threads write, update and read them, under one seeded schedule; non-trivial: more context switches than threads; distinct by interleaving hash; "
            "oracle: per-thread map from object to value")
    def gen(self, seed, drop=frozenset()):
        rng = K.sub(seed, "shape"); nv = rng.choice([1, 2, 3, 4, 6]); nt = rng.choice([2, 3, 3, 4]); vs = [Var(K.sub(seed, "var", i), i) for i in range(nv)]
        ops = {}; item = 0; bodies = [[] for _ in range(nt)]; opid = 0
        same = rng.random() < .5  # all threads run the same code on their own data
        for t in range(nt):
            for k in range(rng.choice([3, 6, 10])):
                r = K.sub(seed, "op", 0 if same else t, k); opid += 1
                v = r.choice(vs); e = r.randrange(len(v.el)); 
                if v.shape == "big": e = r.choice([0, 1, v.cnt - 1, r.randrange(v.cnt)])
                et = v.et[e]; lv = v.base + v.el[e]; kind = r.choice(["set", "set", "add", "read", "ptr", "ind", "addr", "fn"])
                if v.shape in ("big", "array", "string"): ix = r.random() < .4
                else: ix = False
                if ix: lv = f"{v.base}[(int)zero + {e}]"
                c = K.sub(seed, "val", t, k).randrange(1, 120); c = c & 1 if et == "_Bool" else c
                if kind in ("fn",) and v.place not in ("extern", "global"): kind = "set"
                if item in drop: item += 1; continue
                item += 1
                R = rd(lv, et); C = val_(c, et)
                if kind == "add" and et == "_Bool": kind = "set"
                if kind == "add" and et == "ptr": kind = "set"; b = f"{lv} = tgt; {lv} += {c}; sim_ev(1, {opid}L, {R});"
                elif kind == "set": b = f"{lv} = {C}; sim_yield(); sim_ev(1, {opid}L, {R});"
                elif kind == "add": b = f"{lv} += {c}; sim_ev(1, {opid}L, {R});"
                elif kind == "read": b = f"sim_ev(1, {opid}L, {R});"
                elif kind == "ptr": b = f"{{ {cty(et)} *p = &{lv}; *p = {C}; sim_yield(); sim_ev(1, {opid}L, {R}); }}"
                elif kind == "ind": b = f"put_{pfn(et)}(&{lv}, {C}); sim_ev(1, {opid}L, {rd('*&' + lv, et)});"
                elif kind == "addr": b = f"sim_ev(2, {opid}L, (long)&{lv}); sim_ev(1, {opid}L, {R});"
                else: b = f"set_v{v.i}({e}, {c}); sim_ev(1, {opid}L, get_v{v.i}({e}));"
                ops[opid] = (t, v.i, e, kind, c, lv); bodies[t].append(b)
        ext = [v for v in vs if v.place == "extern"]; nfile = 1 + (rng.choice([1, 2]) if ext else 0)
        head = "void sim_ev(long a, ...); void sim_yield(void);\nextern long zero; extern char tgt[5000]; long tg(char *p);\n" + "".join(f"void put_{pfn(t)}({cty(t)} *p, {cty(t)} v);\n" for t in TY) + "".join(v.pre for v in vs)
        files = []
        glob = [v for v in vs if v.place in ("extern", "global")]
        main = head + "long zero = 0; char tgt[5000]; long tg(char *p) { return p ? p - tgt : -1000000; }\n" + "".join(f"void put_{pfn(t)}({cty(t)} *p, {cty(t)} v) {{ *p = v; }}\n" for t in TY)
        for v in vs: main += (v.decl if v.place == "extern" else v.acc if v.place == "local" else v.defn) + "\n"
        def accessors(v):
            x_ = v.decl + " " if v.blockext else ""
            def sw(f): return " ".join(f"case {j}: {f(v.base + v.el[j], v.et[j])}" for j in (range(len(v.el)) if len(v.el) < 12 else []))
            if len(v.el) < 12 and v.shape != "scalar":
                return f"void set_v{v.i}(int e, long c) {{ {x_}switch (e) {{ {sw(lambda x, t: f'{x} = ' + val_('c', t) + '; break;')} }} }}\nlong get_v{v.i}(int e) {{ {x_}switch (e) {{ {sw(lambda x, t: 'return ' + rd(x, t) + ';')} }} return 0; }}\n"
            b = f"{v.base}[e]" if v.shape != "scalar" else v.base
            return f"void set_v{v.i}(int e, long c) {{ {x_}{b} = {val_('c', v.t)}; }}\nlong get_v{v.i}(int e) {{ {x_}return {rd(b, v.t)}; }}\n"
        for v in glob:
            main += f"void set_v{v.i}(int e, long c); long get_v{v.i}(int e);\n"
        for v in glob:
            if v.place == "global": main += accessors(v)
        # the threads' final dump of everything they own
        main += "void dump(void) {\n"
        dumpl = []
        for v in vs:
            idx = range(len(v.el)) if len(v.el) <= 9 else sorted({0, 1, 2, 3, 4, len(v.el) // 2, len(v.el) - 1})
            for e in idx: main += f"  sim_ev(3, {v.i}L, {e}L, {rd(v.base + v.el[e], v.et[e])});\n"; dumpl.append((v.i, e))
        main += "}\n"
        if same:
            pass
        for t in range(nt): main += f"void t{t}(void) {{\n  " + "\n  ".join(bodies[t]) + "\n  dump();\n}\n"
        files.append(main)
        parts = [[] for _ in range(nfile - 1)]
        for j, v in enumerate(ext): parts[j % len(parts)].append(v)
        for p in parts:
            if p: files.append(head + "".join(v.defn + "\n" for v in p) + "".join(accessors(v) for v in p))
        flags = K.sub(seed, "flags").choice([[], [], ["-fpic"], ["-fPIC"], ["-fno-common"], ["-fcommon", "-fPIC"]])
        return Program(files, [(f"t{t}", []) for t in range(nt)], flags, nitems=item, meta=(vs, ops, dumpl))
    def plan(self, P, rng, base, k):
        cfg = self.policies(rng, base, len(P.harts)); cfg["hostile"] = 1
        return dict(cfg=cfg, faults=[], regseed=rng.getrandbits(30) + 1)
    def check(self, P, prog, r):
        vs, ops, dumpl = P.meta; st = [{} for _ in P.harts]; addrs = {}; dumped = [0] * len(P.harts)
        def get(t, i, e): return st[t].get((i, e), vs[i].init.get(e, NULLP if vs[i].et[e] == "ptr" else 0))
        for step, hart, svc, a, sp in r.events:
            if a[0] == 1:
                t, i, e, kind, c, lv = ops[a[1]]; et = vs[i].et[e]
                if t != hart: return ("history", "event of a wrong thread")
                if kind in ("set", "ptr", "ind", "fn"): st[t][(i, e)] = tconv(c, et)
                elif kind == "add": st[t][(i, e)] = tconv(get(t, i, e) + c, et)
                w = get(t, i, e)
                if tconv(a[2], et) != w: return ("wrong-value", f"thread {t} reads {tconv(a[2], et)} from its thread-local {vs[i].defn.strip()} at {lv}, its own last value is {w}")
            elif a[0] == 2:
                t, i, e = ops[a[1]][:3]; o = addrs.setdefault((a[2]), (t, i, e))
                if o != (t, i, e): return ("shared-address", f"threads {o[0]} and {t} have the same address for thread-local objects {(i, e)} and {o[1:]}")
            elif a[0] == 3:
                i, e = a[1], a[2]; et = vs[i].et[e]; w = get(hart, i, e); dumped[hart] += 1
                if tconv(a[3], et) != w: return ("wrong-value", f"thread {hart} finally has {tconv(a[3], et)} in thread-local {vs[i].defn.strip()} element {e}, expected {w}")
        if any(d != len(dumpl) for d in dumped): return ("history", "missing events")
        return None
