"""Integer types of C on LP64, as the reference model of the oracles."""
TYPES = {  # name: (bits, signed)
    "_Bool": (1, False), "char": (8, False), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
    "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False)}
RANK = {"_Bool": 0, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 3, "unsigned int": 3, "long": 4, "unsigned long": 4, "long long": 5, "unsigned long long": 5}
# types that are no plain integers, by the typedef names the programs use; the model counts in units (elements for pointers, whole numbers for floating point)
SPECIAL = {"tdouble": "double", "tfloat": "float", "tptr": "int *", "tstr": "struct tgs *", "tenum": "enum ten"}
SPECHEAD = "struct tgs { char c[12]; }; enum ten { TENM = -1, TENP = 1 }; int tgi[400]; struct tgs tgz[400];\n" + "".join(f"typedef {c} {n}; typedef _Atomic({n}) atomic_{n};\n" for n, c in SPECIAL.items())
for _n in SPECIAL: TYPES[_n] = (32 if _n == "tenum" else 64, True); RANK[_n] = 3 if _n == "tenum" else 4
def isptr(t): return t in ("tptr", "tstr")
def isflt(t): return t in ("tdouble", "tfloat")
def rdx(e, t):
    """A long expression that shows a value of type t."""
    return f"(long)(({e}) - {'tgi' if t == 'tptr' else 'tgz'})" if isptr(t) else f"(long)({e})" if t in SPECIAL else f"(long){e}"
def size(t): return 1 if t == "_Bool" else TYPES[t][0] // 8
def conv(v, t):
    if t == "_Bool": return int(v != 0)
    b, s = TYPES[t]; v &= (1 << b) - 1
    return v - (1 << b) if s and v >> (b - 1) else v
def promote(t): return "int" if t == "tenum" else "long" if t in SPECIAL else "int" if RANK[t] < 3 else t
def common(a, b):
    a, b = promote(a), promote(b)
    if a == b: return a
    sa, sb = TYPES[a][1], TYPES[b][1]
    if sa == sb: return a if RANK[a] >= RANK[b] else b
    u, s = (b, a) if sa else (a, b)
    if RANK[u] >= RANK[s]: return u
    if TYPES[s][0] > TYPES[u][0]: return s
    return {"long": "unsigned long", "long long": "unsigned long long", "int": "unsigned int"}[s]
def binop(op, a, ta, b, tb):
    """Value and type of a op b (no undefined behaviour expected)."""
    if op in ("<<", ">>"):
        t = promote(ta); a = conv(a, t); return conv(a << b if op == "<<" else a >> b, t), t
    t = common(ta, tb) if ta not in SPECIAL or ta == "tenum" else ta; a, b = conv(a, t), conv(b, t)
    if op == "+": r = a + b
    elif op == "-": r = a - b
    elif op == "*": r = a * b
    elif op == "&": r = a & b
    elif op == "|": r = a | b
    elif op == "^": r = a ^ b
    elif op == "/": q = abs(a) // abs(b); r = q if (a < 0) == (b < 0) else -q
    elif op == "%": q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q; r = a - q * b
    else: raise ValueError(op)
    return conv(r, t), t
def lit(v, t):
    if isflt(t): return f"{v}.0" if v >= 0 else f"({v}.0)"
    if isptr(t): return f"({'tgi' if t == 'tptr' else 'tgz'} + {v})" if v >= 0 else f"({'tgi' if t == 'tptr' else 'tgz'} - {-v})"
    if t == "tenum": return f"(tenum){v}" if v >= 0 else f"((tenum){v})"
    if t in ("long", "long long"): return f"{v}L" if v >= 0 else f"({v}L)"
    if t in ("unsigned long", "unsigned long long"): return f"{v}UL"
    if t == "unsigned int": return f"{v}U"
    return str(v) if v >= 0 else f"({v})"

def linearizable(ops, init, final=None):
    """ops: list of (inv, ret, fn) with fn(state) -> list of (newstate) allowed
    for the recorded result (empty: not allowed).  WGL with memo.  Pending
    operations are not supported: all must have returned.
    Returns None if linearizable, else a short explanation."""
    n = len(ops); full = (1 << n) - 1; seen = set()
    rets = [o[1] for o in ops]; invs = [o[0] for o in ops]
    stack = [(0, init)]; best = 0
    while stack:
        mask, st = stack.pop()
        if mask == full:
            if final is None or st == final: return None
            continue
        if (mask, st) in seen: continue
        seen.add((mask, st)); best = max(best, bin(mask).count("1"))
        lim = min(rets[i] for i in range(n) if not mask >> i & 1)
        for i in range(n):
            if mask >> i & 1 or invs[i] > lim: continue
            for ns in ops[i][2](st): stack.append((mask | 1 << i, ns))
    return f"no order of the {n} operations explains the results (at most {best} can be ordered)" if best < n else "the final value is not the one left by any explaining order"
