"""Workloads for the simulated operating system: projects, command lines, and
what each command line is expected to produce (an independent driver model)."""
import os
from . import common as K
from . import simos as SO

TOYCC = "/opt/toycc/toycc"
_inc = None
def base_files():
    """The installed part of the simulated machine."""
    global _inc
    if _inc is None:
        _inc = []
        d = os.path.join(K.REPO, "include")
        for f in sorted(os.listdir(d)):
            if f.endswith(".h"): _inc.append(["/opt/toycc/include/" + f, open(os.path.join(d, f), encoding="latin-1").read()])
    f = [[TOYCC, "\x7fPRG toycc"], ["/usr/bin/riscv64-linux-gnu-as", "\x7fPRG as"], ["/usr/bin/riscv64-linux-gnu-ld", "\x7fPRG ld"]]
    f += [["/usr/riscv64-linux-gnu/lib/" + n, n] for n in ("crt1.o", "crti.o", "crtn.o", "ld-linux-riscv64-lp64d.so.1")]
    f += [["/usr/lib/gcc-cross/riscv64-linux-gnu/13/" + n, n] for n in ("crtbegin.o", "crtbeginS.o", "crtbeginT.o", "crtend.o", "crtendS.o")]
    f += [["/usr/include/sysa.h", "#ifndef SYSA\n#define SYSA 11\nextern int sysa_fn(int);\n#endif\n"], ["/usr/include/sys/sysb.h", "#pragma once\n#include <sysa.h>\n#define SYSB (SYSA+1)\n"],
          ["/usr/riscv64-linux-gnu/include/archc.h", "typedef unsigned long archc_t;\n"], ["/usr/local/include/loc.h", "#define LOC 5\n"]]
    f += _inc
    return f + [["/tmp", "", 4]]

# Self-contained top-level snippets; @ is replaced by a unique suffix. Each
# must compile; together they visit most of the parser and code generator.
SNIP = r"""
int add@(int a, int b) { return a + b; }
--
static long tab@[8] = { 1, 2, 3, [5] = 9, -1 }; long get@(int i) { return tab@[i & 7]; }
--
struct P@ { char c; short s; int i; long l; }; struct P@ mk@(int x) { struct P@ p = { 1, 2, x, 4 }; p.l += p.i; return p; }
--
union U@ { int i; float f; char b[4]; }; int un@(float f) { union U@ u; u.f = f; return u.i; }
--
int sw@(int x) { switch (x) { case 0: return 5; case 1 ... 4: x++; case 7: x += 2; break; default: x = -1; } return x; }
--
int lp@(int n) { int s = 0; for (int i = 0; i < n; i++) { if (i == 3) continue; if (i > 50) break; s += i; } while (s > 100) s -= 7; do s++; while (s < 0); return s; }
--
double fl@(double a, float b) { return a * 2.5 + b / 3.0f - (int)a; }
--
const char *str@(void) { return "a string @ with \t escapes \x41 \101 \n" " joined"; }
--
int va@(int n, ...) { return n + va@(2, 3L, 1.5, "s"); }
--
int gt@(int x) { if (x) goto out; x = 7; out: return x; }
--
int lv@(int x) { static void *t[] = { &&a, &&b }; goto *t[x & 1]; a: return 1; b: return 2; }
--
int se@(int x) { return ({ int y = x * 2; y + 1; }); }
--
int vla@(int n) { int a[n]; for (int i = 0; i < n; i++) a[i] = i; return a[n - 1] + sizeof(a); }
--
void *alloca(unsigned long); int al@(int n) { char *p = alloca(n); *p = 3; return *p; }
--
struct B@ { int a : 3; unsigned b : 5; int : 2; long c : 20; }; int bf@(void) { struct B@ x = { 1, 2, 3 }; x.b++; x.c -= 2; return x.a + x.b + x.c; }
--
int ge@(int x) { return _Generic(x, long: 1, int: 2, default: 3) + _Generic("s", char *: 4, default: 5); }
--
typedef int (*fp@)(int, int); static int sub@(int a, int b) { return a - b; } int call@(fp@ f) { fp@ g = f ? f : sub@; return g(3, 2) + (*g)(1, 1); }
--
_Thread_local int tl@ = 4; int gtl@(void) { return ++tl@; }
--
_Atomic int at@; int ato@(void) { at@ += 3; at@++; return at@ -= 1; }
--
int ex@(int *p) { int o = 1; return __builtin_compare_and_swap(p, &o, 4) + __builtin_atomic_exchange(p, 5); }
--
int cl@(void) { int *p = (int[]){ 1, 2, 3 }; struct { int a, b; } *q = (void *)p; return q->b + *p; }
--
unsigned short us@[] = u"wide @"; unsigned ui@[] = U"x\U0001F600"; char u8@[] = u8"\u3042";
--
int ptr@(int *p, long n) { int *q = p + n; return q - p + (q > p) + !q + *q++ + --*q; }
--
int bits@(unsigned a, long b) { return (a << 3 | a >> 2) ^ (~a & 0xff) + (b >> 3) % 5 - (b & 1 ? b : -b); }
--
_Bool bo@(int a, int b) { return (a && b) || !(a <= b) || a != b; }
--
enum E@ { A@, B2@ = 5, C@ }; int en@(enum E@ e) { return e == C@ ? A@ : B2@; }
--
extern int ext@; int *pe@ = &ext@; int tent@; static int st@; int se2@(void) { st@++; return st@ + tent@; }
--
char msg@[] = "array init"; char *ps@[] = { "one", "two", [3] = "four" }; char two@[2][3] = { "ab", "cd" };
--
struct N@ { struct { int x; union { char c; long l; }; } in; int arr[3]; } n@ = { { 1, { 'a' } }, { 4, 5, 6 } }; int nn@(struct N@ *p) { return p->in.x + p->l@x; }
--
static inline int inl@(int x) { return x + 1; } int use@(void) { return inl@(3); }
--
static inline int unused@(int x) { return x + 2; }
--
long ty@(void) { typeof(int *) p = 0; int a[3][4]; return sizeof(p) + sizeof(a[0]) + _Alignof(long) + sizeof(struct { char a; long b; }); }
--
_Alignas(64) char big@[3]; struct A@ { char a; _Alignas(16) char b; } aa@;
--
int as@(void) { asm("nop"); asm volatile("li a0, 3"); return 0; }
--
void v@(void) { ; { } if (0) ; for (;;) break; return; }
--
long cs@(long x) { return (char)x + (unsigned char)x + (short)x + (unsigned)x + (long)(float)x + (int)(double)x; }
--
int fn@(void) { return sizeof(__func__) + __LINE__ + sizeof(__FILE__); }
--
struct S2@ { long a, b; }; long sv@(struct S2@ s) { struct S2@ t = s; t.a++; s = t; return s.a + t.b; } long sc@(void) { struct S2@ s = { 3, 4 }; return sv@(s); }
--
int many@(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j) { return a + b + c + d + e + f + g + h + i + j; } int cm@(void) { return many@(1, 2, 3, 4, 5, 6, 7, 8, 9, 10); }
--
double fm@(double a, float b, double c, int d) { return a + b + c + d; } double cf@(void) { return fm@(1.5, 2.5f, 3, 4); }
--
int ca@(int x) { x += 1; x -= 2; x *= 3; x /= 2; x %= 7; x <<= 2; x >>= 1; x |= 8; x &= 0xff; x ^= 3; return x; }
--
int cm2@(int x) { int y = (x++, ++x, x--); return y, x; }
--
struct L@ { struct L@ *next; int v; }; int ll@(struct L@ *l) { int s = 0; for (; l; l = l->next) s += l->v; return s; }
--
struct F@ { int n; char d[]; } f@ = { 2, "xy" }; int (*arr@[2])(int); int (*(*pf@)(void))[3];
--
float fa@[] = { 1.5f, -2.25, 3e10f }; double da@ = 1.0 / 3; long dl@ = (long)1e10; unsigned char uc@ = 300;
--
int tern@(int a) { return a ? a : 4; } int elv@(int a) { return a ?: 9; }
--
int k@(void) { int x[2] = {}; int y[] = { 1, 2 }; char s[10] = "hey"; return x[0] + y[1] + s[2]; }
--
#define SQ@(x) ((x) * (x))
int mac@(int a) { return SQ@(a + 1); }
--
#define CAT@(a, b) a##b
#define STR@(x) #x
int CAT@(ca, t@)(void) { return sizeof(STR@(hello world)); }
--
#define VA@(f, ...) f(__VA_ARGS__)
#define OPT@(x, ...) x __VA_OPT__(+ 2)
int vaf@(int a, int b) { return OPT@(a) + OPT@(b, 2); } int vam@(int a) { return VA@(vaf@, a, 3); }
--
#if defined(NOPE@) || (1 + 2 == 4)
int no@(void) { return 1; }
#elif !defined(ZED@) && 3 > 2
int yes@(void) { return 2; }
#else
int never@;
#endif
--
int cnt@[] = { __COUNTER__, __COUNTER__ };
--
#line 100 "other.c"
int ln@(void) { return __LINE__; }
--
int d@(a, b) int a; int b; { return a; }
--
int emp@(void) { return sizeof(struct { }) + 'a' + '\n' + L'b' + 0x1F + 0b101 + 017 + 10UL + 1'000; }
""".strip().split("\n--\n")
# forms that this compiler does not take are left out
SNIP = [s for s in SNIP if "l@x" not in s and "int d@(a, b)" not in s and "1'000" not in s]
SNIP += open(os.path.join(os.path.dirname(__file__), "snippets.txt"), encoding="utf-8").read().encode().decode("latin-1").strip("\n").split("\n--\n")

BAD = r"""
int bad@(void) { return undeclared@; }
--
int bad@(void) { return 1 }
--
int bad@(void) { char *s = "unterminated; }
--
#error stop here @
--
#include "no_such_file_@.h"
--
#if 1
int open@;
--
int bad@(void) { 3 = 4; }
--
int bad@(void) { struct Nope@ x; return 0; }
--
int bad@(void) { int x; return x.y; }
--
int bad@(void) { return f(1, ; }
--
int bad@(void) { @ }
--
int bad@(void) { goto nowhere@; }
--
int bad@(void) { break; }
--
int bad@; } }
--
/* never closed
--
int a@[] = { 1, 2, 
--
#define F@(a, b) a+b
int x@ = F@(1);
--
_Static_assert(0, "no");
--
int bad@(int x) { switch (x) { case x: return 1; } }
--
void bad@(void) { int *p; *p(3); }
--
typedef int T@; int bad@(void) { return T@ + 1; }
--
typedef struct { int a; } T@; int bad@ = T@;
--
int bad@(int n) { static int k = n; return k; }
--
int g@; int bad@ = g@ + 1;
--
int g@; int *bad@ = &g@ * 2;
--
int bad@[] = { [3 ... 1] = 2 };
--
int bad@[2] = { [5] = 2 };
--
struct S@ { int a; } bad@ = { .nope = 1 };
--
struct S@ { int a; } bad@ = { [1] = 1 };
--
int bad@[3] = { .x = 1 };
--
enum Nope@ bad@;
--
struct E@ { int a; }; enum E@ bad@;
--
int bad@(void) { sizeof(static int); return 0; }
--
int bad@(_Alignas(8) int x) { return x; }
--
int char short bad@;
--
int bad@(void) { void v; return 0; }
--
int bad@(int n) { int a[n] = { 1 }; return 0; }
--
struct I@; int bad@(void) { struct I@ x; return 0; }
--
int bad@(void) { int x; return x(1); }
--
int f@(int); int bad@(void) { return f@(1, 2); }
--
int f@(int, int); int bad@(void) { return f@(1); }
--
int bad@(void) { return _Generic("x", int: 1, long: 2); }
--
int bad@(void) { return undefined_function_@(1); }
--
int bad@(void) { return 1 + ; }
--
struct S@ { int a; }; int bad@(struct S@ *p) { return p->b; }
--
struct S@ { int a; }; int bad@(struct S@ s) { return s + 1; }
--
int *p@; int *q@; int bad@(void) { return (long)(p@ + q@); }
--
struct S@ { int a : 3; }; int *bad@(struct S@ *p) { return &p->a; }
--
int bad@(void) { goto 3; }
--
int bad@(void) { asm(3); return 0; }
--
int bad@(void) { case 3: return 1; }
--
int bad@(void) { default: return 1; }
--
int bad@(int x) { switch (x) { case 5 ... 2: return 1; } return 0; }
--
int bad@(void) { continue; }
--
int bad@(int) { return 1; }
--
int bad@(void) { return 1; } int bad@(void) { return 2; }
--
int bad@(void); static int bad@(void) { return 1; }
--
#define 3 bad@
--
#define P@(a) #b
int bad@ = 1;
char *s@ = P@(1);
--
#define P@(a) ## a
int bad@ = P@(1);
--
#define P@(a) a ##
int bad@ = P@(1);
--
#define P@(a, b) a ## b
int bad@ = P@(+, *);
--
#define P@(a) a
int bad@ = P@(1, 2);
--
#define P@(a) a
int bad@ = P@(1;
--
#if
int bad@;
#endif
--
#if 1 +
int bad@;
#endif
--
#if defined
int bad@;
#endif
--
#elif 1
int bad@;
--
#else
int bad@;
--
#endif
int bad@;
--
#if 0
#else
#elif 1
#endif
int bad@;
--
#if 0
#else
#else
#endif
int bad@;
--
#include <no_end_@.h
int bad@;
--
#include 3
int bad@;
--
#line x
int bad@;
--
#line 3 4
int bad@;
--
#undef 3
int bad@;
--
#nonsense @
int bad@;
--
int bad@[] = L"a" u"b";
--
char bad@ = 'ab;
--
char *bad@ = "\x";
--
int bad@ = 12abc;
--
int bad@ = 1 ` 2;
--
int bad@(void) { int x; return *x; }
--
int bad@(void *p) { return *p; }
--
int bad@(int *p) { int a[3], b[3]; a = b; return 0; }
--
int bad@(int x) { return __builtin_compare_and_swap(x, &x, 1); }
--
int bad@(int x) { &(x + 1); return 0; }
--
struct S@ { char a; float f; }; int f@(struct S@); int bad@(struct S@ s) { return f@(s); }
--
struct S@ { long a; }; int bad@(struct S@ s, ...) { return 0; }
--
int __attribute__((nonsense@)) bad@;
--
int bad@ = sizeof(int;
--
int bad@(void) { do { } while (1) return 1; }
--
struct S@ { int a; int b }; int bad@;
--
int bad@(void) { int a[3] = { 1, 2, 3; return 0; }
--
int bad@(void) { for (int i = 0; i < 3) ; return 0; }
--
_Static_assert(1 + x@, "no");
--
int bad@[-1 + n@];
--
int bad@ = (1, 2;
--
char *bad@ = u8"abc;
--
int bad@ = 'a' 'b';
--
int bad@(void) { return ({ }); }
--
int bad@(int a, int b, { return 1; }
--
extern int bad@ = ;
--
int bad@(void) { long double a = 1; a = a + (a * (a + (a * (a + (a * (a + (a * (a + (a * a))))))))); return 0; }
""".strip().split("\n--\n")

def pick(rng, xs): return xs[rng.randrange(len(xs))]

def pad(rng, n):
    """Something long and harmless, to make files span several reads."""
    out = []
    while n > 0:
        k = rng.randrange(3); l = min(n, rng.randrange(20, 120)); n -= l
        out.append("// " + "x" * l if k == 0 else "/* " + "y " * (l // 2) + "*/" if k == 1 else " " * l)
    return "\n".join(out) + "\n"

def source(rng, tag, nsn, includes=(), bad=None, long=0):
    t = "".join(f"#include {i}\n" for i in includes)
    parts = []
    for i in range(nsn): parts.append(pick(rng, SNIP).replace("@", f"_{tag}{i}"))
    if long: parts.insert(rng.randrange(len(parts) + 1), pad(rng, long))
    if bad is not None: parts.insert(rng.randrange(len(parts) + 1), bad.replace("@", f"_{tag}x"))
    s = t + "\n".join(parts) + "\n"
    r = rng.randrange(12)
    if r == 0: s = s.rstrip("\n")
    elif r == 1: s = s.replace("\n", "\r\n")
    elif r == 2: s = "\xef\xbb\xbf" + s
    elif r == 3: s = s.replace("{ return", "{ \\\n return", 1)
    return s

def nsrc(rng): return rng.choice([1, 2, 2, 3]) if rng.randrange(16) else rng.choice([5, 6, 10])
def at(s): return s if s.startswith("/") else "/w/" + (s[2:] if s.startswith("./") else s)

class Project:
    """Sources, headers and the include options they need."""
    def __init__(self, rng, bad=False, nsrc=None, big=None):
        n = nsrc or (rng.choice([1, 1, 2, 2, 3]) if rng.randrange(30) else 7); self.files = {}; self.flags = []; self.srcs = []
        nh = rng.randrange(4); hs = []
        incdir = rng.choice([None, "inc", "/w/inc"])
        for i in range(nh):
            k = rng.randrange(3)
            name = f"h{i}.h"; path = "/w/" + name
            if k == 1 and incdir: path = "/w/inc/" + name
            body = f"#ifndef H{i}\n#define H{i} {i}\n" if rng.randrange(2) else "#pragma once\n"; g = body.startswith("#ifndef")
            if hs and rng.randrange(2): body += f'#include {pick(rng, hs)}\n'
            body += f"extern int hv{i};\n#define HM{i}(x) ((x)+{i})\n" + (pad(rng, rng.choice([0, 0, 300, 5000])) if rng.randrange(3) == 0 else "") + ("#endif\n" if g else "")
            self.files[path] = body; hs.append(f'"{name}"' if path != "/w/inc/" + name or rng.randrange(2) else f"<{name}>")
        if incdir and any(p.startswith("/w/inc/") for p in self.files): self.flags.append("-I" + incdir)
        std = ["<stddef.h>", "<stdarg.h>", "<stdbool.h>", "<sysa.h>", "<sys/sysb.h>", "<archc.h>", "<loc.h>", "<stdatomic.h>"]
        self.badsrc = rng.randrange(n) if bad else None
        for i in range(n):
            inc = [h for h in hs if rng.randrange(3)] + [pick(rng, std)] * rng.randrange(2)
            rng.shuffle(inc)
            name = f"s{i}.c"
            if rng.randrange(12) == 0: name = f"sub/s{i}.c"; inc = [x for x in inc if x.startswith("<") and not x.startswith("<h")]
            k = rng.randrange(24)
            if k == 0: name = f"s{i}.x.c"
            elif k == 1: name = "/w/" + name
            elif k == 2: name = "./" + name
            elif k == 3: name = f"s {i}.c"
            self.files[at(name)] = source(rng, f"{i}", rng.randrange(1, 5) if n < 5 else 1, inc, pick(rng, BAD) if self.badsrc == i else None, rng.choice([0, 0, 0, 1500, 6000, 20000] if n < 5 else [0, 0, 300]) if big is None else big)
            self.srcs.append(name)
        if rng.randrange(4) == 0: self.flags.append("-DCFG=%d" % rng.randrange(9))
        if rng.randrange(8) == 0: self.files["/w/pre.h"] = "#define PRE 1\nextern int prefix;\n"; self.flags += ["-include", "pre.h"]
        if rng.randrange(8) == 0: self.flags.append("-fpic")
        if rng.randrange(10) == 0: self.flags.append(rng.choice(["-fno-common", "-fcommon"]))
        if rng.randrange(6) == 0: self.flags += rng.choice([["-D", "CFG2"], ["-D", "CFG3=f(x)"], ["-UCFG"], ["-U", "CFG"], ["-DF(x)=x"], ["-O2"], ["-Wall"], ["-std=c11"], ["-g"], ["-w"], ["-fno-builtin"], ["-UNOTHING"], ["-fPIC"], ["-ffreestanding"]])
        # several toolchains installed side by side
        if rng.randrange(4) == 0:
            if rng.randrange(2): self.files.update({"/usr/lib/riscv64-linux-gnu/" + n: "other " + n for n in ("crt1.o", "crti.o", "crtn.o", "ld-linux-riscv64-lp64d.so.1")})
            for v in rng.choice([["gcc/riscv64-linux-gnu/13"], ["gcc-cross/riscv64-linux-gnu/12"], ["gcc-cross/riscv64-linux-gnu/9", "gcc/riscv64-linux-gnu/9", "gcc/riscv64-linux-gnu/11"], []]):
                self.files.update({f"/usr/lib/{v}/{n}": v + " " + n for n in ("crtbegin.o", "crtbeginS.o", "crtbeginT.o", "crtend.o", "crtendS.o")})
    def list(self): return [[p, d] for p, d in sorted(self.files.items())]

def base(p): return p.rsplit("/", 1)[-1]
def extn(p, e):
    b = base(p); k = b.rfind(".")
    return (b[:k] if k >= 0 else b) + e

class Command:
    """A command line and the independent model of what it asks for."""
    def __init__(self, argv, outputs, mode, srcs, stdin="", stdout=False, dep=None, perout=None):
        self.argv = argv; self.outputs = outputs; self.mode = mode; self.srcs = srcs; self.stdin = stdin; self.stdout = stdout; self.dep = dep; self.perout = perout or {}
    def d(self): return dict(self.__dict__)

def command(rng, pr, tag="", modes=None, dep=True):
    """tag makes output names distinct."""
    srcs = list(pr.srcs); fl = list(pr.flags); mode = rng.choice(modes or ["S", "S", "c", "c", "c", "E", "E", "link", "link", "link", "M", "stdin"])
    outs, dp, so, stdin, per = [], [], False, "", {}
    a = [TOYCC]
    def unused():
        """Inputs for the linker are ignored if there is no link."""
        x = []
        if rng.randrange(4): return x
        if rng.randrange(2): pr.files["/w/extra.o"] = "\x7fOBJ extra object\n"; x.append("extra.o")
        if rng.randrange(2): x.append("-lm")
        if rng.randrange(3) == 0: x.append("-Wl,-z,now")
        return x
    def oname(o):
        """The same output by another spelling, or in another directory."""
        k = rng.randrange(12)
        return "./" + o if k == 0 else "/w/" + o if k == 1 else "sub/" + o if k == 2 else o
    def depopts(o, *each):
        nonlocal dp
        if not dep or rng.randrange(3): return []
        r = rng.choice(["-MD", "-MMD"]); x = [r]
        fs = [extn(o if o else one, ".d") for one in each]; f = fs[0]
        if len(each) > 1: dp += ["/w/" + f for f in sorted(set(fs))]; outs.extend(dp); return x
        if rng.randrange(3) == 0: f = f"deps{tag}.mk"; x += ["-MF", f]
        if rng.randrange(5) == 0 and "-include" not in fl: x.append("-MP")
        if rng.randrange(4) == 0: x += ["-MT", "tgt"] if rng.randrange(2) else ["-MQ", "t$1", "-MT", "tgt2", "-MQ", "t 3"]
        dp.append("/w/" + f); outs.extend(dp); return x
    if mode in ("S", "c"):
        multi = len(srcs) > 1 and rng.randrange(2) and not tag
        if not multi: srcs = [pick(rng, srcs)]
        e = {"S": ".s", "c": ".o"}[mode]; o = None
        if not multi and (tag or rng.randrange(3)): o = oname(f"out{tag}{e}")
        if o and mode == "S" and rng.randrange(5) == 0 and not tag: o = "-"
        dd = depopts(o, *srcs) if o != "-" else []
        ins = list(srcs)
        if not o: ins += unused()
        if not o and not tag and rng.randrange(4) == 0:
            pr.files["/w/asm1.s"] = "\t.text\n\tnop\n"; ins.append("asm1.s")
            if mode == "c": outs.append("/w/asm1.o"); per["/w/asm1.o"] = "asm1.s"
        rng.shuffle(ins)
        a += ["-" + mode] + fl + ins + (([f"-o{o}"] if rng.randrange(2) else ["-o", o]) if o else []) + dd
        if o == "-": so = True
        else:
            for s in srcs: p = at(o or extn(s, e)); outs.append(p); per[p] = s
    elif mode == "E":
        multi = len(srcs) > 1 and rng.randrange(3) == 0
        if not multi: srcs = [pick(rng, srcs)]
        o = oname(f"out{tag}.i") if not multi and (tag or rng.randrange(2)) else None
        a += ["-E"] + fl + srcs + (["-o", o] if o else unused()) + (depopts(o, *srcs) if rng.randrange(3) == 0 else [])
        if o: outs.append(at(o)); per[at(o)] = srcs[0]
        else: so = True
    elif mode == "M":
        srcs = [pick(rng, srcs)]; o = f"dep{tag}.d" if tag or rng.randrange(2) else None
        a += ["-M"] + fl + srcs + ((["-MF", o] if rng.randrange(2) else ["-o", o]) if o else []) + (["-MP"] if rng.randrange(3) == 0 and "-include" not in fl else []) + unused()
        if o: outs.append("/w/" + o); dp.append("/w/" + o)
        else: so = True
    elif mode == "stdin":
        stdin = pr.files[at(pick(rng, srcs))]; k = rng.randrange(3)
        srcs = ["-"]
        if k == 0: o = f"out{tag}.s"; a += ["-S", "-xc"] + fl + ["-", "-o", o]; outs.append("/w/" + o)
        elif k == 1: o = f"out{tag}.o"; a += ["-c", "-x", "c"] + fl + ["-", "-o", o]; outs.append("/w/" + o)
        else:
            a += ["-E"] + fl + ["-"]; so = True
    else:
        o = oname(f"prog{tag}") if tag or rng.randrange(3) else None
        ex = []
        if rng.randrange(3) == 0: pr.files["/w/extra.o"] = "\x7fOBJ extra object\n"; ex.append("extra.o")
        if rng.randrange(6) == 0: pr.files["/w/libz.a"] = "!<arch> z\n"; ex.append("libz.a")
        if rng.randrange(8) == 0: pr.files["/w/liby.so"] = "\x7fELF y\n"; ex.append("liby.so")
        if rng.randrange(5) == 0: pr.files["/w/asm1.s"] = "\t.text\n\tnop\n"; ex.append("asm1.s")
        if rng.randrange(4) == 0: ex.append("-lm")
        if rng.randrange(6) == 0: ex.append("-Wl,-z,now")
        lf = rng.choice([[], [], ["-static"], ["-shared"], ["-s"], ["-L", "libs"], ["-Llib2"], ["-Xlinker", "-v"]])
        ins = srcs + ex; rng.shuffle(ins)
        dd = depopts(o, *srcs) if not o or len(srcs) == 1 else depopts(o, srcs[0])
        a += fl + lf + ins + (["-o", o] if o else []) + dd
        outs.append(at(o or "a.out"))
    return Command(a, sorted(set(outs)), mode, srcs, stdin, so, dp, per)

ERR = {"O": ["EACCES", "EMFILE", "EIO", "ENFILE", "ENOMEM", "EINTR", "EPERM", "ELOOP", "EOVERFLOW"], "W": ["EACCES", "ENOSPC", "EROFS", "EMFILE", "EDQUOT", "EIO", "EISDIR", "ETXTBSY", "EPERM", "EINTR"], "R": ["EIO", "EINTR", "ESTALE", "EAGAIN", "EISDIR", "ENOMEM", "EBADF", "EOVERFLOW"],
       "w": ["EIO", "ENOSPC", "EDQUOT", "EFBIG", "EINTR", "EPIPE", "EAGAIN", "EPERM", "ENOMEM"], "c": ["EIO", "ENOSPC", "EDQUOT", "EINTR"], "s": ["EIO", "EACCES", "ENOMEM", "ELOOP", "EOVERFLOW", "ENAMETOOLONG", "EPERM"], "u": ["EACCES", "EBUSY", "EIO", "EROFS"],
       "m": ["EACCES", "ENOSPC", "EMFILE", "EROFS", "EEXIST"], "f": ["EAGAIN", "ENOMEM"], "e": ["ENOENT", "EACCES", "ENOMEM", "E2BIG", "ETXTBSY", "EAGAIN", "EIO", "ENOEXEC"], "p": ["EINTR"], "n": ["EACCES", "EIO", "ENOSPC"], "d": ["EACCES"], "y": ["EIO"], "k": ["EIO"]}
import errno as _e

def one_fault(rng, r, kinds, procs=None, roles=None):
    """A random fault at a random kernel call of the recorded run r. kinds is
    a set of call letters, or process-level faults 'kill', 'exit', 'block'."""
    ps = [p for p in r.procs.values() if p.role != "foreign" and p.calls and (roles is None or p.role in roles)]
    if not ps: return None
    for _ in range(60):
        k = pick(rng, kinds)
        if k in ("kill", "exit", "block", "crash", "crashblock", "stop"):
            cs = [p for p in ps if (k in ("crash", "crashblock") or p.parent >= 0)]
            if not cs: continue
            p = pick(rng, cs)
            if k == "kill": return [p.name, "C", rng.randrange(len(p.calls)), SO.F_KILL, rng.choice([9, 11, 15, 6, 8])]
            if k == "exit": return [p.name, "C", rng.randrange(len(p.calls)), SO.F_EXIT, rng.choice([1, 1, 2, 127, 255])]
            if k == "stop": return [p.name, "C", rng.randrange(len(p.calls)), SO.F_STOP, rng.choice([1, 4, 30, 200])]
            if k == "crash": return [p.name, "C", rng.randrange(len(p.calls)), SO.F_CRASH, 0]
            return [p.name, "S", rng.randrange(1, max(2, p.steps)), SO.F_CRASH if k == "crashblock" else SO.F_KILL, rng.choice([9, 11])]
        if k == "disk":
            c = [(p, i) for p in ps for i, ch in enumerate(p.calls) if ch in "Ww"]
            if not c: continue
            p, i = pick(rng, c); return [p.name, "C", i, SO.F_DISK, rng.choice([0, 0, 1, rng.randrange(5000)])]
        if k == "alloc":
            c = [p for p in ps if p.allocs]
            if not c: continue
            p = pick(rng, c); return [p.name, "A", rng.randrange(p.allocs), rng.choice([SO.F_ALLOC, SO.F_ALLOC, SO.F_ALLOCFROM]), 0]
        if k == "t":
            p = pick(rng, ps); return [p.name, "C", rng.randrange(len(p.calls)), SO.F_JUMP, rng.choice([1, 3600, 86400, -1, -3600, 40])]
        c = [(p, i) for p in ps for i, ch in enumerate(p.calls) if ch == k]
        if not c: continue
        p, i = pick(rng, c)
        if k == "g": return [p.name, "C", i, SO.F_GLOBNONE, 0]
        if k == "c" and rng.randrange(3) == 0: return [p.name, "C", i, SO.F_CLOSELOSE, rng.randrange(1 << 20)]
        if k in "Rw" and rng.randrange(4) == 0: return [p.name, "C", i, SO.F_SHORT, rng.randrange(1 << 20)]
        e = pick(rng, ERR[k])
        # some conditions pass, others stay
        return [p.name, "C", i, SO.F_STICK if k == "f" and rng.randrange(3) == 0 or k not in "pf" and e not in ("EINTR", "EAGAIN", "EPIPE") and rng.randrange(4) == 0 else SO.F_ERRNO, getattr(_e, e)]
    return None

def say_fault(f):
    k = {SO.F_ERRNO: "fails with " + _e.errorcode.get(f[4], "?"), SO.F_SHORT: "transfers less than asked", SO.F_KILL: f"process killed by signal {f[4]}", SO.F_EXIT: f"process exits {f[4]}", SO.F_STOP: "process is stopped and continued later", SO.F_CRASH: "whole invocation killed", SO.F_JUMP: f"clock jumps {f[4]} s", SO.F_DISK: f"disk full after {f[4]} more bytes", SO.F_CLOSELOSE: "close fails, data lost", SO.F_ALLOC: "allocation fails", SO.F_ALLOCFROM: "all allocations fail from here", SO.F_GLOBNONE: "glob fails", SO.F_STICK: "fails with " + _e.errorcode.get(f[4], "?") + " from here on"}[f[3]]
    return f"process {f[0]}, {dict(C='system call', A='allocation', S='basic block')[f[1]]} {f[2]}: {k}"
