"""A library of small deterministic computations in C, each covering features
of the code generator.  A gadget is  long gN(long a, long b)  for 0 <= a, b < 1000
with no undefined behaviour and no static modifiable data; pt()/ptd() are
external identity functions at which the simulator may switch, interrupt or
overwrite every caller-saved register."""
PRE = """#include <stdarg.h>
#include <stddef.h>
long pt(long x); double ptd(double x); void sim_ev(long a, ...); void sim_yield(void); long sim_tick(long a); 
#ifdef __GNUC__
#define alloca __builtin_alloca
#else
void *alloca(unsigned long n);
#endif

typedef unsigned long ul; typedef unsigned int ui; typedef unsigned char uc;
"""
REG = []
def gadget(*tags):
    def d(f): REG.append((f.__name__, set(tags), f)); return f
    return d
def c(r, lo=1, hi=97): return r.randrange(lo, hi)

@gadget("call", "struct")
def struct_ret_small(r, n):
    t = r.choice(["int", "short", "char", "long"]); k = c(r)
    return f"""struct s{n} {{ {t} x; {t} y; }};
static struct s{n} mk{n}(long a, long b) {{ struct s{n} s; s.x = pt(a & 63); s.y = (b & 31) + {k % 20}; return s; }}
long g{n}(long a, long b) {{ struct s{n} p = mk{n}(a, b), q = mk{n}(b, pt(a)); return p.x * 3 + q.y * 5 + mk{n}(p.y, q.x).y + mk{n}(pt(q.x), p.x).x * {k}; }}"""
@gadget("call", "struct")
def struct_ret_big(r, n):
    m = r.choice([3, 5, 9, 17]); k = c(r)
    return f"""struct s{n} {{ long v[{m}]; char t; }};
static struct s{n} mk{n}(long a, long b) {{ struct s{n} s; for (int i = 0; i < {m}; i++) s.v[i] = a * i + pt(b) + {k}; s.t = a & 63; return s; }}
static long sum{n}(struct s{n} p, struct s{n} q) {{ long t = p.t * 7 + q.t; for (int i = 0; i < {m}; i++) t += p.v[i] * (i + 1) - q.v[{m - 1} - i]; return t; }}
long g{n}(long a, long b) {{ struct s{n} x = mk{n}(a, b); long t = sum{n}(mk{n}(b, a), x); x.v[1] += pt(t & 255); return sum{n}(x, mk{n}(mk{n}(a, 3).v[2] & 1023, sum{n}(x, x) & 1023)) + t; }}"""
@gadget("call", "struct")
def struct_args(r, n):
    m1, m2 = r.choice([1, 3, 4]), r.choice([1, 5]); k = c(r)
    return f"""struct p{n} {{ long v[{m1}]; }}; struct q{n} {{ int w[{m2}]; short h; }};
static long f{n}(long a, struct p{n} p, int b, struct q{n} q, struct p{n} p2, long c, struct q{n} q2, char d) {{ pt(1); return a + p.v[0] * 3 + b * 5 + q.w[{m2 - 1}] * 7 + q.h + p2.v[{m1 - 1}] * 11 + c * 13 + q2.w[0] * 17 + d; }}
static struct p{n} mp{n}(long x) {{ struct p{n} p; for (int i = 0; i < {m1}; i++) p.v[i] = x + i; return p; }}
long g{n}(long a, long b) {{ struct p{n} p = mp{n}(a); struct q{n} q = {{ {{ 1 }}, 4 }}; q.w[{m2 - 1}] = b; long t = f{n}(pt(a), p, b, q, mp{n}(pt(b)), {k}, q, a & 63);
  return t + f{n}(f{n}(1, mp{n}(2), 3, q, p, 4, q, 5) & 1023, p, pt(b), q, mp{n}(f{n}(a, p, b, q, p, 1, q, 2) & 511), t & 511, q, pt(7)); }}"""
@gadget("call", "struct")
def struct_args_small(r, n):
    k = c(r)
    return f"""struct a{n} {{ int x; int y; }}; struct b{n} {{ long x; char y; }}; struct c{n} {{ char z[3]; }};
static long f{n}(struct a{n} p, struct b{n} q, struct c{n} w, struct a{n} p2, struct b{n} q2, struct c{n} w2) {{ long t = pt(p.x) * 3 + p.y; t += q.x * 5 + q.y; t += w.z[0] + w.z[2] * 7; return t + p2.y * 11 + pt(q2.x) * 13 + q2.y + w2.z[1] * 17; }}
static struct a{n} ma{n}(long x) {{ struct a{n} s = {{ x, x * 2 }}; pt(3); return s; }}
static struct b{n} mb{n}(long x) {{ struct b{n} s = {{ x * {k}, x & 31 }}; return s; }}
static struct c{n} mc{n}(long x) {{ struct c{n} s = {{ {{ x & 31, x & 15, x & 7 }} }}; pt(x); return s; }}
long g{n}(long a, long b) {{ return f{n}(ma{n}(a), mb{n}(b), mc{n}(a), ma{n}(pt(b)), mb{n}(ma{n}(a).y), mc{n}(mb{n}(b).y)) + f{n}(ma{n}(mc{n}(a).z[1]), mb{n}(a), mc{n}(pt(b)), ma{n}(b), mb{n}(pt(a)), mc{n}(3)); }}"""
@gadget("va")
def varargs(r, n):
    k = c(r)
    return f"""static long f{n}(int cnt, ...) {{ va_list ap; va_start(ap, cnt); long t = 0; for (int i = 0; i < cnt; i++) {{ if (i % 3 == 2) t += va_arg(ap, long) * (i + 1); else t = t * 3 + va_arg(ap, int); pt(i); }} va_end(ap); return t; }}
long g{n}(long a, long b) {{ return f{n}(3, (int)a, (int)b, a * {k}) + f{n}(11, 1, 2, pt(a), 4, 5, b, 7, 8, 9L, (int)b, 11) + f{n}(1, (int)f{n}(2, (int)a, (int)pt(b)) & 1023); }}"""
@gadget("va", "fp")
def varargs_fp(r, n):
    return f"""static long f{n}(int cnt, ...) {{ va_list ap; va_start(ap, cnt); double t = 0; for (int i = 0; i < cnt; i++) {{ t += va_arg(ap, double) * (i + 1); t += va_arg(ap, int); ptd(t); }} va_end(ap); return (long)t; }}
long g{n}(long a, long b) {{ double x = a, y = b; return f{n}(2, x, 3, y, (int)pt(5)) + f{n}(5, x, 1, ptd(y), 2, x + y, 3, y - x, (int)b, ptd(2.5), 6); }}"""
@gadget("va")
def va_forward(r, n):
    return f"""static long v{n}(int cnt, va_list ap) {{ long t = 0; for (int i = 0; i < cnt; i++) t = t * 5 + va_arg(ap, long) + pt(i); return t; }}
static long f{n}(int cnt, ...) {{ va_list ap; va_start(ap, cnt); long t = v{n}(cnt, ap); va_end(ap); return t; }}
long g{n}(long a, long b) {{ return f{n}(3, a, pt(b), 5L) + f{n}(9, 1L, a, 3L, b, 5L, 6L, pt(7), a, b) * {c(r)}; }}"""
@gadget("lit")
def comp_literal(r, n):
    k = c(r)
    return f"""struct s{n} {{ int x; long y; char z[5]; }};
static long f{n}(struct s{n} *p, int *q) {{ p->x += pt(q[1]); return p->x + p->y * 2 + p->z[3] + q[0] * 3 + q[2]; }}
long g{n}(long a, long b) {{ long t = 0; for (int i = 0; i < {c(r, 2, 5)}; i++) {{ struct s{n} *p = &(struct s{n}){{ i, pt(a), {{ 1, 2, 3, i }} }}; t = t * 3 + f{n}(p, (int[]){{ i, (int)pt(b), {k} }}); t += p->x; p->x = 77; }}
  return t + ((struct s{n}){{ (int)a, pt(b) }}).y + *&(long){{ a * 3 }}; }}"""
@gadget("init")
def local_init(r, n):
    m = r.choice([7, 20, 40]); k = c(r)
    return f"""struct s{n} {{ char a; struct {{ int q[3]; short w; }} in[2]; long e; }};
long g{n}(long a, long b) {{ int v[{m}] = {{ 1, (int)pt(a), [4] = (int)b }}; struct s{n} s = {{ 3, {{ {{ {{ (int)a, 2 }} }}, {{ {{ 5 }}, (short)pt(b) }} }}, pt(a) * {k} }}; char str[11] = "hello"; long t = 0;
  for (int i = 0; i < {m}; i++) {{ t = t * 3 + v[i]; v[i] = 9; }} for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) t += s.in[i].q[j] * (i + j + 1); for (int i = 0; i < 11; i++) t += str[i] * i;
  return t + s.a + s.in[1].w * 3 + s.in[0].w + s.e; }}"""
@gadget("vla")
def vla(r, n):
    k = c(r)
    return f"""long g{n}(long a, long b) {{ int m = a % 7 + 1, w = b % 5 + 2; long v[m]; int q[m][w]; long t = sizeof(v) + sizeof(q[0]); for (int i = 0; i < m; i++) {{ v[i] = pt(a + i); for (int j = 0; j < w; j++) q[i][j] = i * w + j + b; }}
  for (int i = 0; i < m; i++) {{ t = t * 3 + v[i]; for (int j = 0; j < w; j++) t += q[i][j] * {k}; }} pt(t); return t + q[m - 1][w - 1] + v[0]; }}"""
@gadget("vla")
def alloca_(r, n):
    return f"""static void fill{n}(uc *p, int m, int x) {{ for (int i = 0; i < m; i++) p[i] = x + i; pt(x); }}
long g{n}(long a, long b) {{ int m = a % 40 + 1; uc *p = alloca(m); fill{n}(p, m, b & 127); uc *q = alloca(m * 2); fill{n}(q, m * 2, 5); long t = 0; long *z = alloca(8 * 4); for (int i = 0; i < 4; i++) z[i] = pt(a + i); for (int i = 0; i < m; i++) t = t * 7 + p[i] - q[i]; for (int i = 0; i < 4; i++) t += z[i] * (i + 1); return t; }}"""
@gadget("stmtexpr")
def stmt_expr(r, n):
    k = c(r)
    return f"""static long f{n}(long a, long b, long c) {{ return a * 3 + b * 5 + c * 7; }}
long g{n}(long a, long b) {{ long t = ({{ long x = pt(a); long y = ({{ long x = b; x * 2 + pt(x); }}); x * {k} + y; }}); return t + f{n}(({{ int i = 0; while (i < (a & 7)) i++; i; }}), ({{ pt(b); }}), ({{ long s = 0; for (int i = 0; i < 3; i++) s += pt(i * a); s; }})) + ({{ struct {{ long p, q; }} s = {{ a, b }}; s.p - s.q; }}); }}"""
@gadget("fp")
def fp_expr(r, n):
    return f"""static double f{n}(double a, float b, double c) {{ double l = a * 2; l += ptd(c); return l + b * 0.5f + a; }}
long g{n}(long a, long b) {{ double x = a, y = b * 0.25; float z = a; double t = x * 1.5 + ptd(y) - f{n}(x + 1, z * 2, ptd(x - y)); t = t / 3 + (x + ptd(1.5)) * (ptd(y) - 2.0); if (x < ptd(y)) t += 100; float w = z / 4 + f{n}(1, 2, 3); return (long)(t * 8) + (long)w + (int)(x * ptd(0.5)) + (a > 500 ? (long)ptd(t) : (long)z); }}"""
@gadget("fp")
def fp_args(r, n):
    return f"""static double f{n}(double a, long b, float c, double d, int e, double f, float g, double h, double i, double j, float k, long l, double m) {{ pt(e); return a + b * 2 + c * 3 + d * 4 + e * 5 + f * 6 + g * 7 + h * 8 + i * 9 + j * 10 + k * 11 + l * 12 + m * 13; }}
long g{n}(long a, long b) {{ double x = a, y = b; return (long)f{n}(x, pt(a), 1, ptd(y), 2, 3, x, 4, y, ptd(5), 6, b, x) + (long)f{n}(f{n}(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13), 2, y, 4, pt(b), x, 7, 8, 9, 10, ptd(x), 12, 13); }}"""
@gadget("fp")
def fp_loop(r, n):
    return f"""long g{n}(long a, long b) {{ double v[6]; float w[5]; for (int i = 0; i < 6; i++) v[i] = a + i * 0.5; for (int i = 0; i < 5; i++) w[i] = b - i; double s = 0; for (int i = 0; i < 5; i++) {{ s += v[i] * w[i]; s -= ptd(v[i + 1]) / 4; w[i] += s; v[i]++; w[i]--; }} return (long)s + (long)v[2] + (long)w[3]; }}"""
@gadget("ld", "fp")
def long_double(r, n):
    return f"""static long double f{n}(long double a, long double b, int c) {{ pt(c); return a * b + c; }}
long g{n}(long a, long b) {{ long double x = a, y = b, z = 3; long double t = x * y + z; t = t - x / (y + z); t += f{n}(x, y, 3); if (t > x) t = t + pt(a); x = f{n}(t, z, 1) - (x + y) * (x - f{n}(z, y, 2)); return (long)x + (long)t + (x < y) * 5 + (int)(y * z); }}"""
@gadget("ctl")
def switch_goto(r, n):
    k = c(r)
    return f"""long g{n}(long a, long b) {{ long t = 0; for (int i = 0; i < 12; i++) {{ switch (pt((a + i * b) % 9)) {{ case 0: t += 1; case 1: t = t * 3; break; case 2 : if (i & 1) continue; t += pt(b); break; case 3: case 4: {{ long q = t; t = q * 2 + 1; break; }} case 7: goto out; default: t ^= {k}; }} t += i; }} out:
  for (int i = 0;;) {{ if (++i > 5) break; do {{ t += i; if (t & 1) continue; i++; }} while (i < 3); }} return t; }}"""
@gadget("ctl")
def computed_goto(r, n):
    return f"""long g{n}(long a, long b) {{ void *tab[] = {{ &&l0, &&l1, &&l2, &&l3 }}; long t = b; int i = 0; goto *tab[a & 3]; l0: t += pt(3); l1: t *= 2; if (++i > 6) goto l3; goto *tab[(t + i) % 3]; l2: t -= pt(i); if (++i > 9) goto l3; goto *tab[t & 1]; l3: return t * {c(r)} + i; }}"""
@gadget("bits")
def bitfields(r, n):
    a, b2, d = r.choice([3, 5, 7]), r.choice([4, 9, 11]), r.choice([1, 2, 13])
    return f"""struct s{n} {{ unsigned a : {a}; unsigned b : {b2}; int d : {d + 2}; char e; unsigned long f : 33; unsigned g : 5; }};
static struct s{n} mk{n}(long x) {{ struct s{n} s = {{ x & 7, x & 15, 1, x & 63, x * 3, 2 }}; pt(x); return s; }}
long g{n}(long a, long b) {{ struct s{n} s = mk{n}(a), q = {{ 1 }}; s.a = pt(b) & 3; s.b += 1; s.d = -1; s.e = a & 31; s.f = s.f + pt(b); q.g = s.a; q.f++; s.g ^= 3; long t = s.a + s.b * 3 + s.d * 5 + s.e * 7 + (long)s.f * 11 + s.g * 13; return t + q.a + q.g * 3 + (long)q.f; }}"""
@gadget("rec")
def recursion(r, n):
    k = c(r)
    return f"""struct s{n} {{ long x; int y[3]; }};
static struct s{n} f{n}(long d, struct s{n} p, int q) {{ int loc[4] = {{ 1, (int)d, q }}; struct s{n} l = p; if (d <= 0) return p; l.x += d * {k}; l.y[d % 3] += q; struct s{n} m = f{n}(d - 1, l, pt(q + 1)); m.x += l.x + loc[1] * 3 + loc[2] - loc[3]; m.y[1] += f{n}(d - 2, p, q).y[0] + loc[0]; return m; }}
long g{n}(long a, long b) {{ struct s{n} s = {{ b, {{ 1, 2, 3 }} }}; struct s{n} t = f{n}(a % 6, s, b & 63); return t.x + t.y[0] * 3 + t.y[1] * 5 + t.y[2] * 7; }}"""
@gadget("rec")
def fib_mutual(r, n):
    return f"""static long od{n}(long x, int *acc); static long ev{n}(long x, int *acc) {{ int loc = x; *acc += loc; if (x <= 1) return 1; long q = od{n}(x - 1, &loc); return q + od{n}(x - 2, acc) + loc; }}
static long od{n}(long x, int *acc) {{ char buf[9]; for (int i = 0; i < 9; i++) buf[i] = x + i; int l2 = pt(x); if (x <= 1) return 2; long q = ev{n}(x - 1, &l2) * 2; *acc ^= l2; return q + buf[x % 9]; }}
long g{n}(long a, long b) {{ int z = b; long q = od{n}(a % 9 + 1, &z) * 3; return q + z; }}"""
@gadget("rec", "vla")
def rec_vla(r, n):
    return f"""static long f{n}(int d, long x) {{ int v[d + 2]; int *w = alloca(4 * (d + 1)); for (int i = 0; i < d + 2; i++) v[i] = x + i; for (int i = 0; i <= d; i++) w[i] = v[i] * 2; if (d == 0) return v[1] + w[0]; long t = f{n}(d - 1, pt(x + 1)); for (int i = 0; i <= d; i++) t += v[i] * 3 - w[i]; return t + v[d + 1]; }}
long g{n}(long a, long b) {{ return f{n}(a % 5, b) + f{n}(b % 4, a); }}"""
@gadget("rec", "lit")
def rec_lit(r, n):
    return f"""struct s{n} {{ int v; struct s{n} *up; }};
static long f{n}(int d, struct s{n} *up) {{ struct s{n} *me = &(struct s{n}){{ d * {c(r)}, up }}; char str[6] = "ab"; str[3] = d; if (d) {{ long t = f{n}(d - 1, me); return t * 3 + me->v + str[0] + str[3]; }} pt(d); long t = 0; for (struct s{n} *p = me; p; p = p->up) t = t * 5 + p->v; return t + str[4]; }}
long g{n}(long a, long b) {{ return f{n}(a % 7, 0) + f{n}(b % 5, &(struct s{n}){{ 3, 0 }}); }}"""
@gadget("rec", "va")
def rec_va(r, n):
    return f"""static long f{n}(int d, ...) {{ va_list ap; va_start(ap, d); long x = va_arg(ap, long); int y = va_arg(ap, int); if (d > 0) x += f{n}(d - 1, x + 1, y + 2, 5L, 6L, 7L, 8L, pt(x), y * 2); long z = va_arg(ap, long); va_arg(ap, long); va_arg(ap, long); va_arg(ap, long); long w = va_arg(ap, long); int v = va_arg(ap, int); va_end(ap); return x * 3 + y + z + w + v; }}
long g{n}(long a, long b) {{ return f{n}((int)(a % 4), b, (int)a, 1L, 2L, 3L, 4L, b * 2, (int)pt(3)); }}"""
@gadget("call")
def many_args(r, n):
    k = c(r); m = r.choice([9, 10, 13, 16]); ps = ", ".join(f"{r.choice(['int', 'long', 'char', 'short', 'unsigned char', 'long'])} p{i}" for i in range(m)); body = " + ".join(f"p{i} * {i + 1}" for i in range(m))
    args = ", ".join(r.choice(["a & 63", "b & 31", "pt(a) & 15", "pt(b & 7)", str(c(r, 1, 60))]) for i in range(m)); args2 = ", ".join(r.choice([f"f{n}({', '.join(['a & 7'] * m)}) & 31", "b & 31", "pt(9)", "3"]) if i % 4 == 1 else "1" for i in range(m))
    return f"""static long f{n}({ps}) {{ pt(p3); return {body}; }}
long g{n}(long a, long b) {{ return f{n}({args}) * {k} + f{n}({args2}); }}"""
@gadget("call")
def fnptr(r, n):
    return f"""static long a{n}(long x) {{ return x * 3 + 1; }} static long b{n}(long x) {{ long l = pt(x); return l + x; }} static long c{n}(long x) {{ return b{n}(a{n}(x)) - x; }}
long g{n}(long a, long b) {{ long (*tab[3])(long) = {{ a{n}, b{n}, c{n} }}; struct {{ int k; long (*f)(long); }} s = {{ 2, c{n} }}; long t = 0; for (int i = 0; i < 5; i++) t += tab[(a + i) % 3](pt(b + i)) * (i + 1); return t + s.f(tab[pt(1)](tab[0](a))) + (t & 1 ? a{n} : b{n})(s.k); }}"""
@gadget("frame")
def big_frame(r, n):
    m = r.choice([600, 1200, 3000])
    return f"""static long f{n}(long *p, long x) {{ p[1] += x; return p[0] + pt(x); }}
long g{n}(long a, long b) {{ char z1 = a & 63; int big[{m}]; long t = 3, u[4] = {{ 1, 2, a, b }}; char buf[{m}]; for (int i = 0; i < {m}; i += 97) {{ big[i] = i + b; buf[i] = i & 63; }} t += f{n}(u, pt(b)); for (int i = 0; i < {m}; i += 97) t = t * 3 + big[i] - buf[i]; t += u[1] + z1; double d = a; d += ptd(t & 255); return t + (long)d; }}"""
@gadget("mem")
def sort_(r, n):
    t = r.choice(["int", "short", "long", "unsigned char"])
    return f"""static int cmp{n}({t} *a, {t} *b) {{ pt(1); return *a < *b ? -1 : *a > *b; }}
long g{n}(long a, long b) {{ {t} v[9]; long t = 0; for (int i = 0; i < 9; i++) v[i] = (a * (i + 3) + b * i * i) % 251; for (int i = 1; i < 9; i++) {{ {t} x = v[i]; int j = i - 1; while (j >= 0 && cmp{n}(&v[j], &x) > 0) {{ v[j + 1] = v[j]; j--; }} v[j + 1] = x; }} for (int i = 0; i < 9; i++) t = t * 5 + v[i]; return t; }}"""
@gadget("mem")
def matrix(r, n):
    return f"""struct m{n} {{ int v[3][3]; }};
static struct m{n} mul{n}(struct m{n} a, struct m{n} *b) {{ struct m{n} c; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {{ c.v[i][j] = 0; for (int k = 0; k < 3; k++) c.v[i][j] += a.v[i][k] * b->v[k][j] % 1000; }} pt(1); return c; }}
long g{n}(long a, long b) {{ struct m{n} x, y; for (int i = 0; i < 9; i++) {{ (&x.v[0][0])[i] = (a + i) % 50; (&y.v[0][0])[i] = (b * i) % 50; }} struct m{n} z = mul{n}(mul{n}(x, &y), &x); long t = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t = t * 3 + z.v[i][j]; return t + mul{n}(y, &x).v[pt(1)][2]; }}"""
@gadget("expr")
def int_ops(r, n):
    return f"""long g{n}(long a, long b) {{ ul x = a * 0x9e3779b97f4a7c15ul + pt(b); ui y = a * 77 + 5; int s = (int)a - 500; short h = a * 131; uc q = b; x ^= x >> {c(r, 1, 60)}; x = x * 31 + (x << {c(r, 1, 60)}); y ^= pt(b) << 3; y = y % 1000 + y / 7; s = s / 7 + s % 5 + (s >> 2) + pt(s); h += q * 3; q -= h; return (long)(x >> 7) + y + s * 3 + h + q + (a > b) + (s < h) * 2 + ((ul)a < x) * 4 + !s + ~s; }}"""
@gadget("expr")
def logic(r, n):
    return f"""long g{n}(long a, long b) {{ long t = 0; if (pt(a) > 10 && (pt(b) < 500 || a & 1) && !(a == b)) t += 3; t += a > b ? pt(a) : b > 7 ? pt(b) * 2 : 9; t += (pt(a) && b) + (a || pt(b)) * 2; long u = (t++, pt(t), t + 1); t = (a & 1) ? (b & 1 ? 1 : pt(2)) : (u, 4); return t * {c(r)} + u + (a ?: 5); }}"""
@gadget("expr", "mem")
def lvalues(r, n):
    return f"""struct s{n} {{ int a[4]; struct {{ short x; char y; }} in[3]; long *p; }};
static long *fp{n}(long *p, long k) {{ pt(k); return p + k; }} static struct s{n} *fs{n}(struct s{n} *s) {{ pt(0); return s; }}
long g{n}(long a, long b) {{ long v[5] = {{ 1, 2, 3, 4, 5 }}; struct s{n} s = {{ {{ 1 }}, {{ {{ 1, 2 }} }}, v }}; *fp{n}(v, pt(2)) = pt(a) + v[1]; fs{n}(&s)->in[pt(1)].x += pt(b) & 255; s.a[pt(3)] = s.a[pt(0)]++ + pt(a); *fp{n}(s.p, 1) *= 3; long *q = v; *q++ += pt(7); *++q -= pt(b); (fs{n}(&s)->a)[a & 3] ^= 5; fs{n}(&s)->in[b % 3].y = pt(b) & 63; (pt(1) ? &v[3] : &v[4])[0] += a; long t = q - v; for (int i = 0; i < 5; i++) t = t * 3 + v[i]; for (int i = 0; i < 3; i++) t += s.in[i].x + s.in[i].y * 3; for (int i = 0; i < 4; i++) t += s.a[i] * i; return t; }}"""
@gadget("expr")
def deep_expr(r, n):
    def e(d):
        if d == 0: return r.choice(["a", "b", "pt(a)", "pt(b)", str(c(r)), "t", "pt(t & 7)"])
        return f"({e(d - 1)} {r.choice(['+', '-', '*', '^', '&', '|', '+'])} {e(d - 1)})" if r.random() < .8 else f"pt({e(d - 1)} & 1023)"
    return f"""long g{n}(long a, long b) {{ ul t = 3; t += {e(r.choice([4, 5, 6]))}; t ^= {e(4)}; return t; }}"""
@gadget("expr", "fp")
def deep_fp(r, n):
    def e(d):
        if d == 0: return r.choice(["x", "y", "ptd(x)", "ptd(y)", "1.5", "(double)pt(a)", "z"])
        return f"({e(d - 1)} {r.choice(['+', '-', '+', '*'])} {e(d - 1)})" if r.random() < .85 else f"ptd({e(d - 1)})"
    return f"""long g{n}(long a, long b) {{ double x = (a & 7) * 0.5, y = (b & 7) * 0.25; float z = 2; double t = {e(3)}; t += {e(4)} / 4096; return (long)(t * 16) + (t > {e(2)}); }}"""
@gadget("struct", "mem")
def struct_copy(r, n):
    sz = r.choice([1, 3, 7, 12, 31, 64]); k = c(r)
    return f"""struct s{n} {{ char c[{sz}]; }}; union u{n} {{ struct s{n} s; char raw[{sz}]; }};
static void put{n}(struct s{n} *d, struct s{n} v) {{ pt(1); *d = v; }}
long g{n}(long a, long b) {{ struct s{n} v[3], w; for (int i = 0; i < {sz}; i++) {{ w.c[i] = (a + i * {k}) & 63; v[0].c[i] = 1; v[2].c[i] = 2; }} v[1] = w; put{n}(&v[pt(2)], v[1]); struct s{n} x = *(&v[1] + 1), y; y = x = v[0]; union u{n} u; u.s = v[2]; long t = 0; for (int i = 0; i < {sz}; i++) t = t * 3 + v[0].c[i] + v[1].c[i] * 5 - v[2].c[i] + y.c[i] + u.raw[i]; return t + (x = w).c[{sz - 1}]; }}"""
@gadget("conv")
def conversions(r, n):
    return f"""static signed char fc{n}(short x) {{ return x; }} static unsigned short fs{n}(int x) {{ return x * 3; }} static _Bool fb{n}(long x) {{ return x; }} static float ff{n}(int x) {{ return x * 0.5f; }} static uc fu{n}(long x) {{ return pt(x); }}
long g{n}(long a, long b) {{ long t = fc{n}(a) + fs{n}(b * 9) * 3 + fb{n}(a & 4) * 5 + (long)ff{n}(b) + fu{n}(a * 5); signed char k = pt(a); short h = pt(a * 100); ui w = pt(b) * 100000; int i = ff{n}(a) * 3; w %= 1000; t += w; t += k + h * 3 + i; double d = w; return t + (long)d % 1009 + (int)(float)a + (uc)(b * 7) + (signed char)(a * 3); }}"""
@gadget("locals")
def long_lived(r, n):
    m = r.choice([8, 14, 22]); d = " ".join(f"long l{i} = pt(a + {i}) * {c(r)};" for i in range(m)); f = " ".join(f"double f{i} = ptd(b + {i}.5);" for i in range(4)); s = " + ".join(f"l{i} * {i + 1}" for i in range(m))
    return f"""long g{n}(long a, long b) {{ {d} {f} for (int i = 0; i < 3; i++) {{ l{m - 1} += pt(l0 & 255); f1 += ptd(f0); l1 ^= l2 + i; }} return {s} + (long)(f0 + f1 * 2 + f2 * 3 + f3); }}"""
@gadget("str")
def strings(r, n):
    w = "".join(r.choice("abcdefgh") for _ in range(r.choice([3, 8, 15])))
    return f"""static int len{n}(const char *s) {{ int k = 0; while (*s++) k++; return k; }}
long g{n}(long a, long b) {{ char buf[40]; const char *s = "{w}"; char *d = buf; while ((*d++ = *s++)) pt(1); d = buf + len{n}(buf); long v = a * 1000 + b; do {{ *d++ = '0' + v % 10; v /= 10; }} while (v); *d = 0; for (char *p = buf, *q = d - 1; p < q; p++, q--) {{ char x = *p; *p = *q; *q = x; }} ul h = 5381; for (char *p = buf; *p; p++) h = h * 33 + *p; return h % 1000003 + len{n}(buf) + sizeof("{w}"); }}"""
@gadget("call", "frame")
def big_struct_nested(r, n):
    m = r.choice([20, 60, 130])
    return f"""struct s{n} {{ char c[{m}]; int k; }};
static struct s{n} f{n}(struct s{n} a, long x, struct s{n} b) {{ for (int i = 0; i < {m}; i += 3) a.c[i] += b.c[i] & 15; a.k += b.k + pt(x); return a; }}
long g{n}(long a, long b) {{ struct s{n} s, q; for (int i = 0; i < {m}; i++) {{ s.c[i] = i & 7; q.c[i] = a & 7; }} s.k = a; q.k = b; struct s{n} t = f{n}(f{n}(s, 1, q), f{n}(q, 2, s).k & 255, f{n}(s, pt(3), f{n}(q, 4, q))); long z = t.k; for (int i = 0; i < {m}; i++) z = z * 3 + t.c[i]; return z; }}"""
@gadget("call", "stmtexpr")
def call_stmtexpr(r, n):
    return f"""struct s{n} {{ long v[4]; }};
static struct s{n} mk{n}(long x) {{ struct s{n} s = {{ {{ x, x + 1, x + 2, x + 3 }} }}; return s; }}
static long f{n}(struct s{n} a, long b, struct s{n} c, long d, long e, long f, long h, long i) {{ return a.v[0] + b * 2 + c.v[3] * 3 + d + e + f + h * 5 + i * 7; }}
long g{n}(long a, long b) {{ long t = 0; for (int i = 0; i < 4; i++) {{ t += f{n}(mk{n}(i), ({{ if (i == (a & 3)) continue; pt(i); }}), mk{n}(b), 1, 2, 3, ({{ struct s{n} q = mk{n}(a); q.v[2]; }}), ({{ if (t > 100000) break; pt(t & 255); }})); }} return t; }}"""

@gadget("lit")
def lit_forms(r, n):
    k = c(r); m = r.choice([3, 7, 8, 12])
    return f"""union u{n} {{ int i; char c[6]; }}; struct s{n} {{ char t[{m}]; short h; }};
static long f{n}(char *p, int m) {{ long t = 0; for (int i = 0; i < m; i++) {{ t = t * 3 + p[i]; p[i] += i + 1; }} pt(t & 7); for (int i = 0; i < m; i++) t += p[i]; return t; }}
long g{n}(long a, long b) {{ long t = 0; for (int i = 0; i < 3; i++) {{ char *p = (char[]){{ 'a', 'b', 'c', (char)(a & 15), 'e', 7 }}; char *q = (char[{m}]){{ a & 31, (char)i }}; t += f{n}(p, 6) + f{n}(q, {m}); p[2] = i; t = t * 3 + p[2] + q[0]; union u{n} *u = &(union u{n}){{ .c = {{ 1, i, 3 }} }}; u->c[1] += pt(b & 15); t += u->c[1] + u->c[2];
  short *h = &(short){{ i }}; *h += pt(a & 63); struct s{n} *s = (struct s{n}[2]){{ {{ "ab", 4 }}, {{ {{ 5, i }} }} }}; s[1].t[0] += pt(s[0].t[1] & 7); s->h++; t += *h + s[1].t[0] * {k} + s->h + s[1].t[1]; }} return t + f{n}((char[9]){{ 1, 2, b & 31 }}, 9); }}"""
@gadget("tls")
def tls_read(r, n):
    v = [c(r) for _ in range(6)]
    return f"""static _Thread_local long tl{n} = {v[0]}; _Thread_local int ti{n}[4] = {{ {v[1]}, {v[2]}, 3, {v[3]} }}; static _Thread_local double td{n} = {v[4]}.5; _Thread_local struct {{ char c; short h; }} ts{n} = {{ 3, {v[5]} }}; static _Thread_local long tz{n}[3]; static const long ro{n}[5] = {{ 3, 1, 4, 1, 5 }}; static _Thread_local const long *tq{n} = ro{n} + 1;
static long f{n}(long a, long b, long c) {{ return a * 3 + b * 5 + c + tl{n}; }}
long g{n}(long a, long b) {{ long t = tl{n} + a * tl{n} - (b + ti{n}[a & 3]) * (tl{n} - pt(a)); t += f{n}(tl{n}, ti{n}[pt(1)] + a, b - tl{n}) * (a + ti{n}[2]); double d = td{n} + a, e = a - td{n}; d = d * td{n} + (e + ptd(2.5)) / (td{n} + b + 1); t += (a < tl{n}) + (tl{n} <= b) * 2 + (a & tl{n}) + (tl{n} ^ b) + (ts{n}.h << (a & 3)) + (a | ts{n}.c); t += (tl{n} << (a & 3)) + (tl{n} >> pt(2)) + *(tq{n} + (a & 1)) + tq{n}[pt(2)] * (tq{n} + (b & 3) > tq{n}) + (tq{n} + 2 - (ro{n} + (a & 1))); int *p = &ti{n}[1]; t += p[pt(1)] + *(p + (a & 1)) - tz{n}[b % 3]; return t + (long)(d * 8) + (long)(e < td{n}) + (tl{n} ? a + tl{n} : b); }}"""
@gadget("cas", "stmtexpr")
def atomics(r, n):
    ts = [r.choice(["char", "unsigned char", "short", "unsigned short", "int", "long", "unsigned long"]) for _ in range(3)]; k = [c(r) & 31 for _ in range(4)]
    o = [r.choice(["+=", "-=", "^=", "|=", "&=", "*="]) for _ in range(3)]; m = lambda x: f"(long)({x} & 63)"
    return f"""#ifndef ATM
#ifdef __GNUC__
#define ATM
#define xchg_(p, v) ({{ typeof(*(p)) o_ = *(p); *(p) = (v); o_; }})
#define cas_(p, e, v) (*(p) == *(e) ? (*(p) = (v), 1) : (*(e) = *(p), 0))
#define fadd_(p, v) ({{ typeof(*(p)) o_ = *(p); *(p) += (v); o_; }})
#else
#include <stdatomic.h>
#define ATM _Atomic
#define xchg_(p, v) atomic_exchange(p, v)
#define cas_(p, e, v) atomic_compare_exchange_strong(p, e, v)
#define fadd_(p, v) atomic_fetch_add(p, v)
#endif
#endif
struct at{n} {{ char c; ATM {ts[0]} x; char d; ATM {ts[1]} y[3]; }};
static long up{n}(ATM {ts[2]} *p, struct at{n} *s, long v) {{ *p {o[0]} pt(v & 15); s->x {o[1]} (v & 7) + {k[0]}; s->y[1]++; --s->y[2]; return {m("s->x")} * 3 + {m("*p")} + {m("s->y[1]++")} - {m("++s->y[0]")}; }}
long g{n}(long a, long b) {{ ATM {ts[2]} z; struct at{n} s; z = a & 31; s.c = 3; s.d = 4; s.x = b & 31; s.y[0] = {k[1]}; s.y[1] = a & 15; s.y[2] = 9; {ts[1]} e = b & 15, f = 9; {ts[0]} h; long t = up{n}(&z, &s, a); for (int i = 0; i < 3; i++) {{ t = t * 3 + cas_(&s.y[1], &e, {k[2]}); t += {m("e")}; t += cas_(&s.y[2], &f, pt(i)); h = xchg_(&s.x, pt(b & 15) + i); t ^= {m("h")}; t += {m(f"fadd_(&z, {k[3]})")}; t += up{n}(&z, &s, t & 255); z {o[2]} 3 + (pt(i) & 1); }} return t + {m("z")} + s.c + s.d + {m("s.x")} + {m("s.y[2]")}; }}"""
@gadget("cond")
def elvis(r, n):
    t = r.choice(["long", "int", "short", "double", "float"]); k = c(r)
    return f"""static {t} f{n}(long x) {{ return pt(x & 3) ? ({t})((x & 3) + {k}) : ({t})0; }}
static long *p{n}(long *p, long c) {{ return pt(c) ? p : (long *)0; }}
long g{n}(long a, long b) {{ long u = a + 1, v = b + 2; {t} x = f{n}(a) ?: f{n}(b + 1), y = f{n}(b & 2) ?: (f{n}(a + b) ?: ({t})7); double d = ptd(a & 1) ?: ptd(2.5); float e = (float)(b & 1) ?: (float)ptd(3.5); long *q = p{n}(&u, a & 1) ?: &v; int w = (int)(pt(a & 7) ?: 20) + (pt(b & 1) ?: 5 + f{n}(1)); unsigned char z = (unsigned char)(a & 3) ?: 9; return (long)x * 5 + (long)y * 3 + (long)(d * 2) + (long)(e * 2) + *q * 7 + w + z; }}"""
@gadget("vla")
def alloca_in_expr(r, n):
    k = [c(r) & 31 for _ in range(4)]
    return f"""static long f{n}(long *p, long v) {{ p[0] = v; p[1] = pt(v) + 1; return p[0] + p[1]; }}
long g{n}(long a, long b) {{ long *p, *q, t = a + (p = alloca(16 + (a & 31)), f{n}(p, b)); t += (p = alloca(24), p[0] = b, p[0] + 1) - a; f{n}((long *)alloca(16), (q = alloca({16 + k[0]}), q[0] = t & 15, q[1] = 2, q[0]) * 3 - b); t = (((q = alloca(40), q[0] = 5, q[1] = t & 63, q[1]) + a) ^ b) - ((q = alloca(16), f{n}(q, 3)) + (a ^ (p = alloca(16), p[0] = 7, b))); t += b * 3 - (a + (q = alloca({16 + k[0]}), q[1] = a, q[0] = t & 255, q[0] + q[1])); t = t * 5 + (a - (b + (t ^ (q = alloca(32), f{n}(q, {k[1]}))))) + p[0]; double d = a * 0.5 + (p = alloca(24), p[2] = b, p[2] + p[2]); for (int i = 0; i < 3; i++) t = (t & 1023) + (i - (long)(b + ({{ long *z = alloca(16 + i * 8); z[0] = i; z[1] = {k[2]}; q[1] += z[0]; z[1] + pt(i); }}))); return t + (long)d + q[1] + p[2]; }}"""
@gadget("ld", "fp", "conv")
def ld_mixed(r, n):
    return f"""static long double f{n}(int c, long double a) {{ return a + c; }}
long g{n}(long a, long b) {{ long double l = a, m = b; double x = a * 0.5, y = b; float z = 3; int i = (int)a; long t = i + (int)l; t += (long)m * 3 + (a - (long)l) * (b + (long)m); x = x + (double)l; y = (double)m - y * (double)l; x += (double)f{n}(i, l) * (x - (double)m); z = z + (float)l; z = (float)m - z; t += i - (int)f{n}(2, m) + (l < m) * i + (i + (l > m)) * 3 + (b + (l == m)) + (a ^ (m != l)); l = l + i; m = i - m; l = l * (double)m + y; m += z; t += (i + (int)x) * (i - (int)z) + (int)(l / (m * m + 1)); if (i + (l <= m)) t += (uc)l + (short)(m - l); return t + (long)(x + y * 2) + (long)z; }}"""
@gadget("expr", "conv")
def mixed_assign(r, n):
    return f"""struct s{n} {{ short h; double d; char c; float f; long l[3]; unsigned bf : 7; }};
static struct s{n} *id{n}(struct s{n} *p) {{ pt(2); return p; }}
long g{n}(long a, long b) {{ struct s{n} s = {{ 1, 2.5, 3, 4.5f, {{ 5, 6, 7 }}, 8 }}, *p = &s; p->h = p->d = p->l[1] = pt(a); p->d += p->h++ * ptd(1.5); p->f = p->d - p->f; id{n}(p)->l[pt(2)] = id{n}(p)->h + (id{n}(p)->c = a & 31); p->l[0] += p->l[p->c & 1] * (p->bf += 3); *&p->h ^= (short)p->f; p->bf = p->bf + id{n}(p)->bf; long t = p->l[0]-- + --p->l[1] + (p->c += 5) + (p->f *= 2, p->f > p->d); p->d = (p->f = b) + p->d; p->l[2] <<= (a & 3); p->l[2] |= pt(b); t += (a & 1 ? p->l[0] : p->h) + (long)(b & 1 ? p->d : p->f); return t + p->l[0] + p->l[1] * 3 + p->l[2] * 5 + p->h * 7 + (long)p->d + p->bf * 11 + (long)p->f; }}"""
@gadget("expr", "fp", "struct", "call")
def calls_in_lvalues(r, n):
    T = ["double", "float", "long", "int", "short", "unsigned char"]; k = [c(r) & 15 for _ in range(6)]; op = lambda: r.choice(["+", "-", "*"]); o = [op() for _ in range(24)]; bi = lambda: r.choice(["+", "-", "*", "^", "&", "|", "<", "=="])
    lv = lambda m: r.choice([f"p{n}(&s, pt(a & 7))->{m}", f"k{n}(b & 15).{m}", f"(*p{n}(&s, a & 3)).{m}", f"(pt(3), s).{m}", f"q{n}[pt(1)].{m}", f"p{n}(q{n}, b & 1)[pt(0)].{m}"])
    F = "df"; I = "lish"; fx = [f"(long)({lv(r.choice(F))} {op()} {r.choice(['x', 'y', lv(r.choice(F)), '(double)pt(b & 3)', 'ptd(1.5)'])})" for _ in range(5)]
    ix = [f"({lv(r.choice(I))} {bi()} {r.choice(['a', 'b', lv(r.choice(I)), 'pt(a & 3)', '(int)ptd(2.5)'])})" for _ in range(5)]
    st = [f"p{n}(&s, {i})->{m} {r.choice(['=', '+=', '-='])} {v};" for i, (m, v) in enumerate([("d", "ptd(x)"), ("f", "(float)ptd(1.5) + y"), ("l", "pt(b & 31)"), ("i", "(int)(pt(a & 7) + ptd(2.0))"), ("h", f"p{n}(q{n}, 1)->h + 1")])]; r.shuffle(st)
    return f"""struct m{n} {{ double d; float f; long l; int i; short s; unsigned char h; }};
static struct m{n} *p{n}(struct m{n} *p, long x) {{ pt(x & 1); return p; }}
static struct m{n} k{n}(long x) {{ struct m{n} s; s.d = x * 0.5; s.f = x; s.l = pt(x); s.i = x + {k[0]}; s.s = {k[1]}; s.h = x; return s; }}
long g{n}(long a, long b) {{ struct m{n} s = k{n}(a & 31), q{n}[2]; double x = (a & 7) * 0.5; float y = b & 7; q{n}[0] = k{n}({k[2]}); q{n}[1] = k{n}(b & 7); long t = {' + '.join(f'{i + 1} * {e}' for i, e in enumerate(fx))}; t = t * 3 + {' + '.join(ix)}; {' '.join(st)} t += {fx[0]} + {ix[0]}; return t + (long)(s.d * 2) + (long)(s.f * 2) + s.l + s.i + s.s + s.h; }}"""

@gadget("struct", "fp", "call", "frame")
def far_frame(r, n):
    z = r.choice([2040, 2048, 2100, 2300]); k = c(r); w = r.choice(["char", "short"]); e = 1 if w == "char" else 2
    P = [("double", "x"), ("float", "y"), ("long", "l"), ("int", "i"), ("short", "h"), ("char", "c"), ("double", "z")]; r.shuffle(P)
    val = {"x": "(a & 31) * 0.5", "y": "(float)(b & 15)", "l": "a * 3 + b", "i": "(int)(b - a)", "h": "(short)(a ^ b)", "c": "(char)(a & 63)", "z": "ptd(1.25) + (b & 3)"}
    loc = lambda: (f"{w} big[{z // e}];", f"for (j = 0; j < {z // e}; j += 97) big[j] = (j + l) & 63;")
    d, init = loc()
    return f"""struct b{n} {{ {w} c[{z // e}]; long l; double d; float f; short h; }};
static long f{n}({', '.join(f'{t} {v}' for t, v in P)}) {{ {d} long j, t = 0; double u = x * 2; float v = y; {init} big[pt(3)] = c; t = big[97] + big[{z // e - 1} - {(z // e - 1) % 97}] + big[3] * 5; x += pt(i & 7); y = y + (float)ptd(2.0); t += (long)(x * 2) + (long)y * 3 + l * 5 + i + h * 7 + c + (long)(z * 4); return t + (long)u + (long)v + pt(j & 7); }}
static long h{n}(struct b{n} *p, struct b{n} *q, long a) {{ *q = *p; q->l += pt(a); q->f = p->f + (float)q->d; q->h = p->c[pt(a & 15)] + p->h; return q->l + (long)(q->d * 2) + (long)q->f + q->h + q->c[{z // e - 1}]; }}
long g{n}(long a, long b) {{ struct b{n} x, y; long j; for (j = 0; j < {z // e}; j += j < 32 || j > {z // e - 6} ? 1 : {z // e - 36}) {{ x.c[j] = (j * {k} + a) & 63; y.c[j] = 1; }} x.l = b * {k}; x.d = a * 0.5; x.f = b & 63; x.h = a; j = h{n}(&x, &y, b); y.d = ptd(x.d) + 1; x = y; return j + x.l + x.h + (long)x.d + x.c[{z // e - 2}] + x.c[pt(a & 31)] + f{n}({', '.join(val[v] for _, v in P)}); }}"""

def make(r, n, want=None, avoid=(), name=None):
    """One gadget named g{n}; returns (text, kind)."""
    c_ = [(nm, tg, f) for nm, tg, f in REG if (not want or tg & set(want)) and not (tg & set(avoid)) and (name is None or nm == name)]
    nm, tg, f = r.choice(c_)
    return f(r, n), nm
NAMES = [x[0] for x in REG]
TAGS = {x[0]: x[1] for x in REG}
