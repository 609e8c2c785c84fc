"""C18: volatile device accesses."""
import struct
from .. import common as K, rv
from ..rvbase import RvScenario, Program
from ..ctypes_model import *

BASE = 0x60000000
ITY = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long"]
TYPES["enum ev"] = (32, True); RANK["enum ev"] = 3
ITX = ITY * 2 + ["enum ev", "long long", "unsigned long long"]
class Mismatch(Exception): pass
class Model:
    """Executes the source statements; every access must be the next one in the recorded trace."""
    def __init__(s, log): s.mem = {}; s.log = log; s.i = 0; s.v = [0, 1, 2, 3]; s.f = 0.0; s.where = ""
    def nxt(s, what):
        if s.i >= len(s.log): raise Mismatch(f"{s.where}: {what} is missing")
        e = s.log[s.i]; s.i += 1; return e
    def rd(s, R):
        h, w, wr, a, v = s.nxt(f"the read of {R.name}")
        if wr or a != R.addr or w != R.size: raise Mismatch(f"{s.where}: expected a read of {R.size} byte(s) at {R.addr:#x} ({R.name}), got {'write' if wr else 'read'} of {w} at {a:#x}")
        if R.mem is not None:
            want = s.mem.get(R.addr, R.mem) & ((1 << 8 * R.size) - 1)
            if v != want: raise Mismatch(f"{s.where}: reads {v:#x} from {R.name}, which holds {want:#x}")
        return v if R.t in ("double", "float") else conv(v, R.t) if R.t != "_Bool" else v & 1
    def rd2(s, A, B):
        """Two reads in an order the language leaves open."""
        e = s.log[s.i] if s.i < len(s.log) else None
        if e and not e[2] and e[3] == B.addr and A.addr != B.addr: b = s.rd(B); return s.rd(A), b
        a = s.rd(A); return a, s.rd(B)
    def wr(s, R, x, exact=True):
        h, w, wr, a, v = s.nxt(f"the write of {R.name}")
        if not wr or a != R.addr or w != R.size: raise Mismatch(f"{s.where}: expected a write of {R.size} byte(s) at {R.addr:#x} ({R.name}), got {'write' if wr else 'read'} of {w} at {a:#x}")
        if R.mem is not None: s.mem[R.addr] = v
        if exact:
            want = x if R.t in ("double", "float") else conv(x, R.t) & ((1 << 8 * R.size) - 1)
            if v != want: raise Mismatch(f"{s.where}: writes {v:#x} to {R.name}, should write {want:#x}")
class Reg:
    def __init__(s, name, t, addr, mem=None): s.mem = mem; s.name, s.t, s.addr = name, t, addr; s.size = {"double": 8, "float": 4}.get(t) or size(t)
    def __str__(s): return s.name
def bits(x, t): return struct.unpack("<Q", struct.pack("<d", x))[0] if t == "double" else struct.unpack("<I", struct.pack("<f", x))[0]

class Ctx:
    def __init__(s, r, t):
        s.r = r; s.t = t; base = BASE + t * 0x1000; s.regs = []; s.ext = []; s.pre = ""; s.n = 0
        # macro registers, structure overlay, extern objects, array
        a = base
        for i in range(5):
            ty = r.choice(ITX); a = (a + 7) & ~7; k = f"{t}_{i}"; s.pre += f"typedef volatile {ty} vt{k}; volatile {ty} *vp{k} = (volatile {ty} *){a:#x}; volatile {ty} *const *vq{k} = &vp{k}; struct {{ int x; vt{k} *p; }} vs{k} = {{ 1, (vt{k} *){a:#x} }}; static vt{k} *vf{k}(void) {{ return vp{k}; }}\n"
            form = r.choice([f"(*(vt{k} *){a:#x})", f"(*vp{k})", f"vp{k}[0]", f"(**vq{k})", f"(*vs{k}.p)", f"vs{k}.p[0]", f"(*vf{k}())",f"(*(volatile {ty} *){a:#x})", f"(*({ty} volatile *){a:#x}UL)", f"(((volatile {ty} *){base:#x})[{(a - base) // size(ty)}])"])
            s.regs.append(Reg(form, ty, a)); a += 8
        a = base + 0x100; mem = []; s.sregs = []
        for i in range(r.choice([3, 5, 7])):
            ty = r.choice(ITY[:7]); al = size(ty); a = (a + al - 1) & ~(al - 1)
            arr = r.choice([0, 0, 3])
            if arr: mem.append(f"volatile {ty} m{i}[{arr}];"); s.sregs += [(f"m{i}[{j}]", ty, a + j * al) for j in range(arr)]; a += al * arr
            else: mem.append(f"volatile {ty} m{i};"); s.sregs.append((f"m{i}", ty, a)); a += al
        s.pre += f"struct dev{t} {{ {' '.join(mem)} }};\n#define D{t} ((struct dev{t} *){base + 0x100:#x})\n"
        for n, ty, ad in s.sregs: s.regs.append(Reg(r.choice([f"D{t}->{n}", f"d->{n}", f"(*d).{n}"]), ty, ad))
        for i in range(2):
            ty = r.choice(ITY); ad = base + 0x200 + i * 16; s.pre += f"extern volatile {ty} E{t}_{i};\n"; s.ext.append((f"E{t}_{i}", ad)); s.regs.append(Reg(f"E{t}_{i}", ty, ad))
        ty = r.choice(ITY); s.bt = ty; s.buf = base + 0x400; s.pre += f"#define B{t} ((volatile {ty} *){s.buf:#x})\n"
        s.breg = [Reg(f"B{t}[{i}]", ty, s.buf + i * size(ty)) for i in range(8)]
        s.dreg = Reg(f"(*(volatile double *){base + 0x600:#x})", "double", base + 0x600); s.freg = Reg(f"(*(volatile float *){base + 0x610:#x})", "float", base + 0x610); s.boolr = Reg(f"(*(volatile _Bool *){base + 0x620:#x})", "_Bool", base + 0x620)
        s.preg = Reg(f"(*(char *volatile *){base + 0x630:#x})", "long", base + 0x630); s.tbl = f"tb{t}"; s.pre += f"static long tb{t}[8] = {{ 3, 1, 4, 1, 5, 9, 2, 6 }};\n"
        s.locals = s.watch = ""; s.parm = []
        for i in range(5):   # volatile objects in ordinary memory
            ty = r.choice(ITX); v = r.choice([0, 1, 5, 100]); n = f"m{t}_{i}"; ad = base + 0x900 + i * 16; q = r.choice([f"volatile {ty}", f"{ty} volatile"]); f = r.choice(["global", "static", "tls", "auto", "auto", "sauto", "member", "array", "parm", "slocal", "vstruct", "tlss"])
            L = lit(v, ty) if ty != "enum ev" else f"(enum ev){v}"; nm = n
            if f == "global": s.pre += f"{q} {n} = {L};\n"
            elif f == "static": s.pre += f"static {q} {n} = {L};\n"
            elif f == "tls": s.pre += f"_Thread_local {q} {n} = {L};\n"
            elif f == "tlss": s.pre += f"static _Thread_local struct {{ char a; {q} m; }} {n} = {{ 3, {L} }};\n"; nm = f"{n}.m"
            elif f == "auto": s.locals += f"{q} {n} = {L}; "
            elif f == "slocal": s.locals += f"static {q} {n} = {L}; "
            elif f == "sauto": s.locals += f"struct {{ char a; {q} m[2]; }} {n} = {{ 3, {{ 1, {L} }} }}; "; nm = f"{n}.m[1]"
            elif f == "member": s.pre += f"struct {{ char a; {q} m; }} {n} = {{ 3, {L} }}, *{n}_p = &{n};\n"; nm = r.choice([f"{n}.m", f"{n}_p->m"])
            elif f == "vstruct": s.pre += f"struct V{n} {{ char a; {ty} m; }}; volatile struct V{n} {n} = {{ 3, {L} }};\n"; nm = f"{n}.m"
            elif f == "array": s.pre += f"{q} {n}[3] = {{ 1, {L}, 2 }};\n"; nm = r.choice([f"{n}[1]", f"(*({n} + 1))"])
            else: s.parm.append((f"{q} {n}", L))
            s.watch += f"sim_watch({ad:#x}L, (void *)&{nm}, (long)sizeof({nm})); "; s.regs.append(Reg(nm, ty, ad, conv(v, ty)))
        s.fns = ""; s.helpers(t)
    def helpers(s, t):
        for ty in ITY + ["enum ev", "long long", "unsigned long long"]:
            n = ty.replace(" ", "_"); s.fns += f"static long get{t}_{n}(volatile {ty} *p) {{ return *p; }}\nstatic void put{t}_{n}(volatile {ty} *p, {ty} x) {{ *p = x; }}\nstatic void inc{t}_{n}(volatile {ty} *p) {{ (*p)++; }}\n"
    def reg(s): return s.r.choice(s.regs)
    def cond(s):
        """(text, model) of a condition with at most one access."""
        R = s.reg(); k = s.r.choice([1, 3, 8, 0x10, 7]); c = s.r.choice([0, 1, 5, 100]); q = s.r.randrange(6)
        if q == 0: return f"{R} & {k}", lambda m: m.rd(R) & k
        if q == 1: return f"!({R} & {k})", lambda m: not m.rd(R) & k
        if q == 2: return f"{R} == {c}", lambda m: m.rd(R) == c
        if q == 3: return f"{R}", lambda m: m.rd(R) != 0
        if q == 4: return f"!{R}", lambda m: m.rd(R) == 0
        return f"({R} & {k}) != {c & k}", lambda m: (m.rd(R) & k) != (c & k)
    def val(s):
        """A value without device access."""
        i = s.r.randrange(4); k = s.r.choice([0, 1, 5, 100, 255, 0x1234]); q = s.r.randrange(3)
        if q == 0: return str(k), lambda m: k
        if q == 1: return f"v{i}", lambda m: m.v[i]
        return f"(v{i} & 255) + {k}", lambda m: (m.v[i] & 255) + k
    def rval(s, d=1):
        """A value with device accesses in a fixed order; as long."""
        r = s.r; q = r.randrange(21 if d else 4); R = s.reg()
        if q <= 1: return f"(long){R}", lambda m: conv(m.rd(R), "long")
        if q == 2: n = R.t.replace(" ", "_"); return f"get{s.t}_{n}(&{R})", lambda m: conv(m.rd(R), "long")
        if q == 3:
            # GNU x ?: y, and statement expressions
            k = r.choice([7, 99]); z = r.randrange(4)
            if z == 0 and R.t != "unsigned int": return f"(long)({R} ?: {k})", lambda m: conv(m.rd(R), "long") or k
            if z == 1: n = R.t.replace(" ", "_"); return f"(get{s.t}_{n}(&{R}) ?: {k}L)", lambda m: conv(m.rd(R), "long") or k
            if z == 2: return f"({{ long z = {R}; z ?: {k}; }})", lambda m: conv(m.rd(R), "long") or k
            R2 = s.reg(); return f"((long){R} ?: (long){R2})", lambda m: conv(m.rd(R), "long") or conv(m.rd(R2), "long")
        if q == 9: return f"(long)({R} == 0) + ({{ 4; }})", lambda m: int(m.rd(R) == 0) + 4
        if q == 10: t = r.choice(["unsigned char", "unsigned short"]); return f"(long)({t}){R}", lambda m: conv(m.rd(R), t)
        if q == 11: return f"({{ {R}; (long){R}; }})", lambda m: (m.rd(R), conv(m.rd(R), "long"))[1]
        if q == 12: return f"idl((long){R})", lambda m: conv(m.rd(R), "long")
        if q == 13: R2 = s.reg(); op = r.choice(["|", "&", "^", "+"]); return f"((long){R} {op} (long){R2})", lambda m: (lambda a, b: conv(binop(op, conv(a, "long"), "long", conv(b, "long"), "long")[0], "long"))(*m.rd2(R, R2))
        if q == 14: R2 = s.reg(); return f"orl((long){R}, (long){R2})", lambda m: (lambda a, b: conv(conv(a, "long") | conv(b, "long"), "long"))(*m.rd2(R, R2))
        if q == 15: k = r.choice([1, 100]); return f"({R} ? {k} : {k + 1}L)", lambda m: k if m.rd(R) else k + 1
        if q == 16: return f"(long)_Generic({R}, default: 5) + sizeof(typeof({R}))", lambda m: 5 + R.size
        if q == 17: return f"({{ typeof({R}) z = 3; char y[1 + ({R} & 3)]; (long)sizeof(y); }})", lambda m: 1 + (m.rd(R) & 3)
        if q == 18: return f"((struct pair){{ {R}, 2 }}).a", lambda m: conv(m.rd(R), "long")
        if q == 19: a, fa = s.cond(); b, fb = s.cond(); x, fx = s.rval(0); return f"((({a}) && ({b})) ? {x} : 0L)", lambda m: fx(m) if fa(m) and fb(m) else 0
        if q == 20: a, fa = s.cond(); b, fb = s.cond(); return f"(long)(({a}) && ({b}))", lambda m: int(bool(fa(m)) and bool(fb(m)))
        if q == 4: a, fa = s.cond(); b, fb = s.cond(); return f"(long)(({a}) || ({b}))", lambda m: int(bool(fa(m)) or bool(fb(m)))
        if q == 5:
            a, fa = s.cond(); x, fx = s.rval(0); y, fy = s.rval(0); return f"(({a}) ? {x} : {y})", lambda m: fx(m) if fa(m) else fy(m)
        if q == 6: x, fx = s.rval(0); l = r.choice(["{}", "{}", "(void){}", "(long){}", "(char){}", "!{}", "{} == 0", "(short){} + 1", "sizeof(int) + {}"]).format(R); return f"({l}, {x})", lambda m: (m.rd(R), fx(m))[1]
        if q == 7: return f"(long)B{s.t}[{R} & 7]", lambda m: conv(m.rd(s.breg[m.rd(R) & 7]), "long")
        c, fc = s.cond(); return f"(long)!({c})", lambda m: int(not fc(m))
    def stmt(s, d=2):
        r = s.r; R = s.reg(); i = r.randrange(4); n = R.t.replace(" ", "_"); q = r.randrange(52)
        def setv(i, x):
            def f(m): m.v[i] = conv(x(m), "long")
            return f
        if q == 0: return f"v{i} = {R};", setv(i, lambda m: m.rd(R))
        if q == 1: x, fx = s.val(); return f"{R} = {x};", lambda m: m.wr(R, fx(m))
        if q == 2: return r.choice([f"{R};", f"(void){R};"]), lambda m: m.rd(R)
        if q == 3:
            op = r.choice(["+", "-", "|", "^", "&"]); k = r.choice([1, 2, 7, 64])
            if r.random() < .35: op, k = r.choice([("+", 0), ("-", 0), ("|", 0), ("^", 0), ("&", -1), ("*", 1), ("<<", 0), (">>", 0), ("/", 1), ("&", 0), ("*", 0)])
            return f"{R} {op}= {k};", lambda m: m.wr(R, binop(op, m.rd(R), R.t, k, "int")[0])
        if q == 4: o, dl = r.choice([("++", 1), ("--", -1)]); return r.choice([f"{R}{o};", f"{o}{R};", f"({R}){o};"]), lambda m: m.wr(R, m.rd(R) + dl)
        if q == 5: x, fx = s.rval(); return f"v{i} = {x};", setv(i, fx)
        if q == 6: x, fx = s.rval(); return f"v{i} += {x};", setv(i, lambda m: (lambda x: m.v[i] + x)(fx(m)))
        if q == 7: x, fx = s.rval(); return f"{R} = {x};", lambda m: m.wr(R, fx(m))
        if q == 8 and d:
            c, fc = s.cond(); a, fa = s.stmt(d - 1); b, fb = s.stmt(d - 1); return f"if ({c}) {{ {a} }} else {{ {b} }}", lambda m: fa(m) if fc(m) else fb(m)
        if q == 9:
            c, fc = s.cond(); k = r.choice([3, 8, 20])
            def f(m):
                j = 0
                while j < k and not fc(m): j += 1
                m.v[i] = j
            return f"for (v{i} = 0; v{i} < {k} && !({c}); v{i}++) ;", f
        if q == 10:
            c, fc = s.cond(); k = r.choice([2, 5, 12]); b, fb = s.stmt(0)
            def f(m):
                j = 0
                while True:
                    fb(m); j += 1
                    if not (j < k and fc(m)): break
            s.n += 1; w = f"w{s.t}_{s.n}"
            return f"{{ int {w} = 0; do {{ {b} {w}++; }} while ({w} < {k} && ({c})); }}", f
        if q == 11:
            c, fc = s.cond(); k = r.choice([2, 5, 12]); b, fb = s.stmt(0); s.n += 1; w = f"w{s.t}_{s.n}"
            def f(m):
                j = 0
                while True:
                    a = j; j += 1
                    if not (a < k and fc(m)): break
                    fb(m)
            return f"{{ int {w} = 0; while ({w}++ < {k} && ({c})) {{ {b} }} }}", f
        if q == 12: return r.choice([f"v{i} = sizeof({R});", f"v{i} = (long)sizeof {R};"]), setv(i, lambda m: R.size)
        if q == 13 and R.mem is None: return f"v{i} = (long)&{R} & 255;", setv(i, lambda m: R.addr & 255)
        if q == 14: c = r.choice([f"1 ? 7 : {R}", f"0 ? {R} : 7", f"(0 && {R}) + 7", f"(1 || {R}) + 6"]); return f"v{i} = {c};", setv(i, lambda m: 7)
        if q == 15:
            k = r.choice([2, 3, 5]); x, fx = s.val(); s.n += 1; p = f"p{s.t}_{s.n}"
            def f(m):
                for j in range(k): m.wr(s.breg[j], fx(m))
            form = r.choice([f"*{p}++ = {x};", f"{p}[j] = {x};", f"*({p} + j) = {x};"])
            return f"{{ volatile {s.bt} *{p} = B{s.t}; for (int j = 0; j < {k}; j++) {form} }}", f
        if q == 16:
            k = r.choice([2, 3, 5]); s.n += 1; p = f"p{s.t}_{s.n}"
            def f(m):
                for j in range(k): m.v[i] = conv(m.v[i] + m.rd(s.breg[j]), "long")
            form = r.choice([f"v{i} += *{p}++;", f"v{i} += {p}[j];", f"v{i} += *({p} + j);"])
            return f"{{ volatile {s.bt} *{p} = B{s.t}; for (int j = 0; j < {k}; j++) {form} }}", f
        if q == 17: x, fx = s.val(); return f"put{s.t}_{n}(&{R}, {x});", lambda m: m.wr(R, conv(fx(m), R.t))
        if q == 18: return f"inc{s.t}_{n}(&{R});", lambda m: m.wr(R, m.rd(R) + 1)
        if q == 19:
            a, fa = s.stmt(0); b, fb = s.stmt(0); c, fc = s.stmt(0)
            def f(m):
                x = m.rd(R) & 3
                if x == 0: fa(m)
                elif x == 1: fb(m); fc(m)
                elif x == 2: fc(m)
            return f"switch ({R} & 3) {{ case 0: {a} break; case 1: {b} case 2: {c} break; }}", f
        if q == 20:
            k = r.choice([0.5, 1.5, 3.0, 100.25]); D = r.choice([s.dreg, s.freg]); return f"{D} = {k};", lambda m: m.wr(D, bits(k, D.t))
        if q == 21:
            D = r.choice([s.dreg, s.freg]); return f"f0 = {D};", lambda m: m.rd(D)
        if q == 22: Bq = s.boolr; x, fx = s.val(); return f"{Bq} = {x};", lambda m: m.wr(Bq, int(fx(m) != 0))
        if q == 23: R2 = s.reg(); return f"{R} = {R2};", lambda m: m.wr(R, m.rd(R2))
        if q == 24: x, fx = s.rval(); return f"if ({x}) v{i}++;", lambda m: (setv(i, lambda m: m.v[i] + 1)(m) if fx(m) else None)
        if q == 26 and R.t != "unsigned int": o, dl = r.choice([("++", 1), ("--", -1)]); return f"v{i} = {R}{o};", setv(i, lambda m: (lambda x: (m.wr(R, x + dl), x)[1])(m.rd(R)))
        if q == 27:
            op = r.choice(["*", "<<", ">>"]); k = r.choice([1, 2, 3])
            return f"{R} {op}= {k};", lambda m: m.wr(R, binop(op, m.rd(R), R.t, k, "int")[0])
        if q == 28:
            R2 = s.reg(); op = r.choice(["|", "&", "^", "+"])
            if R2.addr == R.addr: return f"{R} = 5;", lambda m: m.wr(R, 5)
            def f(m):
                a, b = m.rd2(R, R2); m.wr(R, binop(op, a, R.t, b, R2.t)[0])
            return f"{R} {op}= {R2};", f
        if q == 29: x, fx = s.rval(); return f"{{ long z = {x}; v{i} = z; }}", setv(i, fx)
        if q == 30: k = r.choice([1, 3]); return f"{{ long z[3] = {{ {R}, {k} }}; v{i} = z[0] + z[1] + z[2]; }}", setv(i, lambda m: conv(m.rd(R), "long") + k)
        if q == 31:
            k = r.choice([2, 4]); c, fc = s.cond(); b, fb = s.stmt(0); s.n += 1; w = f"w{s.t}_{s.n}"
            def f(m):
                j = 0
                while True:
                    if not fc(m):
                        j += 1
                        if j >= k: break
                        continue
                    fb(m); j += 1
                    if j >= k: break
            return f"{{ int {w} = 0; L{w}: if (!({c})) {{ if (++{w} >= {k}) goto E{w}; goto L{w}; }} {b} if (++{w} < {k}) goto L{w}; E{w}: ; }}", f
        if q == 32:
            k = r.choice([2, 4]); c, fc = s.cond(); b, fb = s.stmt(0); s.n += 1; w = f"w{s.t}_{s.n}"
            def f(m):
                for j in range(k):
                    if fc(m): continue
                    fb(m)
                    if fc(m): break
            return f"for (int {w} = 0; {w} < {k}; {w}++) {{ if ({c}) continue; {b} if ({c}) break; }}", f
        if q == 33: x, fx = s.rval(); return f"switch ({x}) {{ case 0: v{i} = 1; break; case 1 ... 9: v{i} = 2; break; default: v{i} = 3; }}", setv(i, lambda m: (lambda x: 1 if x == 0 else 2 if 1 <= x <= 9 else 3)(fx(m)))
        if q == 34: n_ = s.n = s.n + 1; return f"{{ volatile {R.t} *z{n_} = &{R}; v{i} = *z{n_}; *z{n_} = 9; }}", lambda m: (setv(i, lambda m: m.rd(R))(m), m.wr(R, 9))
        if q in (36, 37):   # the register itself selects
            a, fa = s.stmt(0); b, fb = s.stmt(0); z = r.randrange(4); e = r.choice([f"{R}", f"{R}", f"({R})", f"(long){R}"])
            if z == 0: return f"switch ({e}) {{ case 0: {a} break; case 1: {b} break; case 2: v{i} = 4; break; case 5: case 3: v{i} = 6; }}", lambda m: (lambda x: fa(m) if x == 0 else fb(m) if x == 1 else setv(i, lambda m: 4 if x == 2 else 6)(m) if x in (2, 3, 5) else None)(m.rd(R))
            if z == 1: return f"switch ({e}) {{ default: {a} break; case 3 ... 100: {b} break; case 1: ; }}", lambda m: (lambda x: fb(m) if 3 <= x <= 100 else None if x == 1 else fa(m))(m.rd(R))
            if z == 2: return f"switch ({e}) {{ }}", lambda m: m.rd(R)
            return f"switch ({e}) {{ default: {a} }}", lambda m: (m.rd(R), fa(m))
        if q == 38:   # the value is not used, the access is
            c, fc = s.cond(); z = r.choice([f"if ({c}) ;", f"if ({c}) {{ }} else {{ }}", f"(void)({c});", f"{c};", f"({c}) ? 1 : 2;", f"(void)(({c}), 0);", f"v{i} = v{i} + 0 * ({c});"]); return z, lambda m: fc(m)
        if q == 39:
            z = r.choice([f"{R} + 1;", f"-{R};", f"~{R};", f"(char){R};", f"({R}, 0);", f"{R} == 3;", f"(void)(long){R};", f"*&{R};", f"({{ {R}; }});", f"({{ {R}; 1; }});", f"{R} && 1;", f"{R} || 0;", f"{R} * 0;"]); return z, lambda m: m.rd(R)
        if q == 40:
            R2 = s.reg(); b, fb = s.stmt(0); k = r.choice([1, 2, 4]); s.n += 1; w = f"w{s.t}_{s.n}"
            def f(m):
                m.rd(R)
                for j in range(k): fb(m); m.rd(R2)
            return f"{{ int {w} = 0; for ({R}; {w} < {k}; {w}++, {R2}) {{ {b} }} }}", f
        if q == 41:
            R2 = s.reg(); c = r.choice(["==", "!="])
            if "unsigned int" in (R.t, R2.t): return f"v{i} = {R};", setv(i, lambda m: m.rd(R))
            return f"v{i} = (long){R} {c} (long){R2};", setv(i, lambda m: (lambda a, b: int((conv(a, "long") == conv(b, "long")) == (c == "==")))(*m.rd2(R, R2)))
        if q == 42:   # the same register several times, in a fixed order
            z = r.randrange(4)
            if z == 0: return f"v{i} = {R}; v{i} = {R}; {R} = 2; {R} = 2;", lambda m: (m.rd(R), setv(i, lambda m: m.rd(R))(m), m.wr(R, 2), m.wr(R, 2))
            if z == 1: return f"{R} = 0; {R} = 0;", lambda m: (m.wr(R, 0), m.wr(R, 0))
            if z == 2: return f"{R} = {R};", lambda m: m.wr(R, m.rd(R))
            return f"if ({R} || {R} || {R}) v{i} = 9;", lambda m: (setv(i, lambda m: 9)(m) if m.rd(R) or m.rd(R) or m.rd(R) else None)
        if q == 44:   # a pointer register
            z = r.randrange(7); A = s.preg
            if z == 0: return f"v{i} = (long){A};", setv(i, lambda m: m.rd(A))
            if z == 1: x, fx = s.val(); return f"{A} = (char *)({x});", lambda m: m.wr(A, fx(m))
            if z == 2: o, dl = r.choice([("++", 1), ("--", -1), (" += 5", 5)]); return f"{A}{o};", lambda m: m.wr(A, m.rd(A) + dl)
            if z == 3: return f"if ({A}) v{i} = 8;", lambda m: setv(i, lambda m: 8)(m) if m.rd(A) else None
            if z == 4: return f"v{i} = {A} == (char *)0;", setv(i, lambda m: int(m.rd(A) == 0))
            if z == 5: return r.choice([f"{A};", f"(void){A};", f"!{A};", f"{A} + 1;"]), lambda m: m.rd(A)
            return f"v{i} = (long)({A} + 4);", setv(i, lambda m: m.rd(A) + 4)
        if q == 45:   # floating and _Bool registers whose value is not used or only compared
            D = r.choice([s.dreg, s.freg]); z = r.choice([f"{D};", f"(void){D};", f"-{D};", f"{D} + 1.0;", f"{D} == 2.0;", f"if ({D} != 1.5) ;", f"(float){D};", f"(double){D};", f"({D}, 1);", f"{{ double u = {D}; }}", f"{{ float u = {D}; u = 1; }}"]); return z, lambda m: m.rd(D)
        if q == 46:
            A = s.boolr; z = r.choice([f"v{i} = {A} ? 4 : 4;", f"if ({A}) v{i} = 4; else v{i} = 4;", f"!{A}; v{i} = 4;", f"v{i} = ({A}, 4);", f"{A}; v{i} = 4;"]); return z, setv(i, lambda m: (m.rd(A), 4)[1])   # a device value that is no _Bool has no defined meaning
        if q == 47:   # selected parts of the value
            z = r.randrange(10)
            if z == 6: return f"v{i} = ({R} % 1) + 5;", setv(i, lambda m: (m.rd(R), 5)[1])
            if z == 7: l = r.choice(["{} / 1", "{} + 0", "{} | 0", "{} ^ 0", "{} - 0", "{} & -1", "0 + {}", "0 | {}", "1 * {}", "{} << 0", "{} >> 0"]).format(R); return f"v{i} = ({l}) & 0x7fff;", setv(i, lambda m: m.rd(R) & 0x7fff)
            if z == 8: l = r.choice(["({} * 0)", "(0 * {})", "(0 & {})", "({} & 0)", "({} % 1)", "({} && 0)", "({} == 0 && 0)", "((char){} * 0)", "((unsigned char){} >> 30)"]).format(R); return f"v{i} = {l} ? 7 : 8;", setv(i, lambda m: (m.rd(R), 8)[1])
            if z == 9: l = r.choice(["({} || 1)", "({} | 1)", "(({} | 4) != 0)", "(({}, 1))", "((unsigned char){} < 256)", "((unsigned char){} >= 0)", "(({} & 7) < 8)"]).format(R); return f"v{i} = {l} ? 7 : 8;", setv(i, lambda m: (m.rd(R), 7)[1])
            if z == 0: return f"v{i} = {R} & 0xff;", setv(i, lambda m: m.rd(R) & 255)
            if z == 1: return f"v{i} = (unsigned char)({R} >> 3);", setv(i, lambda m: conv(binop(">>", m.rd(R), R.t, 3, "int")[0], "unsigned char"))
            if z == 2: return f"v{i} = ({R} & 0) + 3;", setv(i, lambda m: (m.rd(R), 3)[1])
            if z == 3: return f"v{i} = {R} ? 4 : 4;", setv(i, lambda m: (m.rd(R), 4)[1])
            if z == 4: return f"v{i} = ({R} && 0) + ({R} || 1);", setv(i, lambda m: (m.rd2(R, R), 1)[1])
            return f"v{i} = ({R} * 0) | 6;", setv(i, lambda m: (m.rd(R), 6)[1])
        if q == 48: return f"v{i} = {s.tbl}[{R} & 7];", setv(i, lambda m: [3, 1, 4, 1, 5, 9, 2, 6][m.rd(R) & 7])
        if q == 49: x, fx = s.val(); return f"{s.tbl}[{R} & 0] = ({x}) & 0; {s.tbl}[0] = 3;", lambda m: (m.rd(R), fx(m))
        if q == 50: s.n += 1; w = f"a{s.t}_{s.n}"; return f"{{ long {w}[4] = {{ 1, 2, [3] = {R} }}; v{i} = {w}[3] + {w}[2]; }}", setv(i, lambda m: conv(m.rd(R), "long"))
        if q == 51: k = r.choice([2, 5]); s.n += 1; w = f"w{s.t}_{s.n}"; return f"{{ int {w} = {k}; while ({w}--) {R}; }}", lambda m: [m.rd(R) for _ in range(k)]
        if q == 43:   # an unused initialiser, a dead store to a local
            s.n += 1; w = f"u{s.t}_{s.n}"; z = r.choice([f"{{ long {w} = {R}; }}", f"{{ char {w}[2] = {{ {R} }}; }}", f"{{ long {w}; {w} = {R}; {w} = 3; }}", f"{{ struct pair {w} = {{ .b = {R} }}; }}", f"{{ {R.t} {w} = {R}; }}"]); return z, lambda m: m.rd(R)
        R2 = s.reg(); return f"{R} = 1, v{i} = {R2}, {R2} = 3;", lambda m: (m.wr(R, 1), setv(i, lambda m: m.rd(R2))(m), m.wr(R2, 3))

class S(RvScenario):
    ID = "C18"; PROGRAMS = 5000; RUNS = 12
    MEASURE = "distinct sequences of device accesses with their values (hash of the whole run)"; HASH = "fhash"
    RULE = ("a case is a driver program of 1-2 threads with 4-14 generated statements on device registers of all scalar types (macro, structure overlay, array, extern object, pointer parameter; polling loops, "
            "read-modify-write, discarded reads, &&, ||, ?:, comma, switch, sizeof, buffers) against a device returning seeded values, with preemption and signals whose handler drives a register too; non-trivial: "
            "at least 3 accesses; distinct by hash of the access trace; oracle: an interpreter of the statements that predicts the exact sequence of (read or write, address, width, value)")
    REAL = RvScenario.REAL; STUB = RvScenario.STUB + ["the device"]
    def gen(self, seed, drop=frozenset()):
        r = K.sub(seed, "shape"); nt = r.choice([1, 1, 2]); src = "void sim_yield(void); void sim_ev(long a, ...); void sim_watch(long log, void *p, long n);\nstruct pair { long a, b; }; enum ev { EVM = -1, EVA, EVB };\nstatic long idl(long x) { return x; }\nstatic long orl(long x, long y) { return x | y; }\n"; item = 0; progs = []; ext = []
        for t in range(nt):
            c = Ctx(K.sub(seed, "ctx", t), t); ext += c.ext; sts = []
            for k in range(r.choice([4, 8, 14])):
                c.r = K.sub(seed, "st", t, k); a, f = c.stmt()
                if item in drop: item += 1; continue
                item += 1; sts.append((a, f))
            src += c.pre + c.fns + f"void t{t}{'_' if c.parm else ''}({', '.join(p[0] for p in c.parm) or 'void'}) {{ {c.locals}long v0 = 0, v1 = 1, v2 = 2, v3 = 3; double f0 = 0; struct dev{t} *d = D{t}; {c.watch}\n  " + "\n  ".join(a for a, f in sts) + f"\n  sim_watch(0, (void *)0, 0L); sim_ev(1, v0, v1, v2, v3);\n}}\n" + (f"void t{t}(void) {{ t{t}_({', '.join(p[1] for p in c.parm)}); }}\n" if c.parm else "")
            progs.append(sts)
        src += "#define H (*(volatile unsigned int *)0x60008000)\nvoid handler(long s) { unsigned int x = H; H = x + 1; H; }\n"
        if ext: foreign = ["".join(f'asm(".globl {n}\\n.set {n}, {a:#x}\\n");\n' for n, a in ext)]
        return Program([src], [(f"t{t}", []) for t in range(nt)], r.choice([[], [], ["-fPIC"]]), foreign, meta=progs, nitems=item)
    def runargs(self, P, run):
        r = K.sub(run["cfg"]["seed"], "dev"); m = r.choice([1, 3, 0xff, 2**64 - 1]); return dict(devin=[r.choice([0, 1, 2, 3, 5, 8, 100, 127, 128, 255, 0x7fff, 0x8000, 0xffff, 2**31, 2**32 - 1, 2**63, r.getrandbits(64)]) & (m if r.random() < .6 else 2**64 - 1) for _ in range(600)])
    def plan(self, P, rng, base, k):
        nh = len(P.harts); cfg = self.policies(rng, base, nh) if nh > 1 else dict(seed=rng.getrandbits(62), policy=0); cfg["hostile"] = 1; cfg.pop("fair_after", None); faults = []
        if rng.random() < .5:
            cfg["handler"] = 1; cfg["poison"] = 64
            for _ in range(rng.choice([1, 3, 10])): h = rng.randrange(nh); faults.append([h, rv.SIGNAL, rng.randrange(max(1, base.icount[h])), 1])
        return dict(cfg=cfg, faults=faults, regseed=rng.getrandbits(30) + 1)
    def symcfg(self, P, prog, run):
        if run["cfg"].get("handler"): run["cfg"]["handler"] = prog.sym("handler")
    def nontrivial(self, P, r): return len(r.dev) >= 3
    def check(self, P, prog, r):
        hs = [x for x in r.dev if x[3] == BASE + 0x8000]; i = 0
        # the handler's accesses: read, write, read per delivery (nested deliveries interleave: count only)
        nr, nw = sum(not x[2] for x in hs), sum(x[2] for x in hs)
        if nr != 2 * r.stats["signals"] or nw != r.stats["signals"] or any(x[1] != 4 for x in hs): return ("trace", f"the handler's register was read {nr} and written {nw} times in {r.stats['signals']} deliveries")
        for t, sts in enumerate(P.meta):
            m = Model([x for x in r.dev if x[0] == t and x[3] != BASE + 0x8000])
            try:
                for a, f in sts: m.where = f"thread {t}, \"{a}\""; f(m)
            except Mismatch as e: return ("trace", str(e))
            if m.i != len(m.log): h, w, wr, a, v = m.log[m.i]; return ("trace", f"thread {t}: {'write' if wr else 'read'} of {w} byte(s) at {a:#x} that the source does not call for")
            ev = [e for e in r.events if e[1] == t]
            if len(ev) != 1 or [conv(x, "long") for x in ev[0][3][1:5]] != m.v: return ("values", f"thread {t} ends with {[K.s64(x) for x in ev[0][3][1:5]] if ev else None}, should be {m.v}")
        return None
