"""Compile programs with the compiler under test and run them in rvsim."""
import ctypes as C, os, subprocess, tempfile, shutil, atexit
from . import common as K

class Cfg(C.Structure):
    _fields_ = [("seed", C.c_uint64)] + [(n, C.c_uint32) for n in
        "policy p_switch quantum pct_points est_len hostile weak p_stale p_delay p_drain p_buffer weak_explicit fair_after".split()] + [
        ("max_steps", C.c_uint64), ("foreign_lo", C.c_uint64), ("foreign_hi", C.c_uint64), ("nosig_lo", C.c_uint64), ("nosig_hi", C.c_uint64),
        ("handler", C.c_uint64), ("poison", C.c_uint32), ("record", C.c_uint32), ("ptmode", C.c_uint32), ("checkcalls", C.c_uint32), ("hash_pcs", C.c_uint32), ("calldirt", C.c_uint32)]
class Event(C.Structure):
    _fields_ = [("step", C.c_uint64), ("hart", C.c_uint32), ("svc", C.c_uint32), ("a", C.c_uint64 * 6), ("sp", C.c_uint64)]
class Seg(C.Structure): _fields_ = [("hart", C.c_uint32), ("n", C.c_uint32)]
class Fault(C.Structure): _fields_ = [("hart", C.c_uint32), ("kind", C.c_uint32), ("at", C.c_uint64), ("arg", C.c_uint64)]
class Dec(C.Structure): _fields_ = [("hart", C.c_uint32), ("idx", C.c_uint32), ("kind", C.c_uint32), ("val", C.c_uint32)]
class DevAcc(C.Structure): _fields_ = [("step", C.c_uint64), ("hart", C.c_uint32), ("width", C.c_uint32), ("write", C.c_uint32), ("addr", C.c_uint64), ("val", C.c_uint64)]
STATS = "steps switches sc_ok sc_fail_inj sc_fail_nat signals clobbers stalls stale delayed drains forwards fences shared_acc ecalls hash fhash stalereach coswitch dev callchecks".split()
class Stats(C.Structure): _fields_ = [(n, C.c_uint64) for n in STATS]

SC_FAIL, SIGNAL, STALL = 1, 2, 3
TRAPS = {1: "illegal instruction or wild jump", 2: "load from a bad address", 3: "store to a bad address", 4: "store to constant memory",
         5: "abort", 6: "bad service", 7: "bad signal return", 8: "signal handler changed a register it must preserve", 9: "a call returned with a register changed that it must preserve"}
MEM = 64 << 20
STACK0, STACKSZ = 0x2000000, 0x40000
TLS0, TLSSZ = 0x3400000, 0x20000

_lib = None
def lib():
    global _lib
    if _lib: return _lib
    d = K.build_rvsim()
    L = C.CDLL(os.path.join(d, "librvsim.so")); L.rvdir = d
    u64 = C.c_uint64
    for f in "sim_sym sim_symsize sim_info sim_hartget sim_reg lx_nsys lx_out".split(): getattr(L, f).restype = u64
    L.sim_create.argtypes = [u64]; L.sim_load.argtypes = [C.c_char_p]; L.sim_sym.argtypes = [C.c_char_p]; L.sim_symsize.argtypes = [C.c_char_p]
    L.sim_hart.argtypes = [u64, u64, u64, u64, u64, C.POINTER(u64), C.c_int, u64]
    L.sim_write.argtypes = [u64, C.c_void_p, u64]; L.sim_read.argtypes = [u64, C.c_void_p, u64]; L.sim_fill.argtypes = [u64, u64, u64]
    L.sim_setro.argtypes = [u64, u64]; L.sim_setreg.argtypes = [C.c_int, C.c_int, u64]
    L.sim_events.restype = C.POINTER(Event); L.sim_getsegs.restype = C.POINTER(Seg); L.sim_getdecs.restype = C.POINTER(Dec)
    L.sim_dev.restype = C.POINTER(DevAcc); L.sim_stats.restype = C.POINTER(Stats)
    L.sim_input.argtypes = [C.c_int, C.POINTER(u64), C.c_int]; L.sim_devin.argtypes = [C.POINTER(u64), C.c_int]
    L.lx_init.argtypes = [u64, u64, C.c_uint32]; L.lx_file.argtypes = [C.c_char_p, C.c_char_p, u64]; L.lx_stdin.argtypes = [C.c_char_p, u64]
    L.lx_out.argtypes = [C.c_int, C.c_char_p, C.POINTER(C.c_void_p)]
    if L.sim_create(MEM): raise K.HarnessError("no memory for the simulator")
    _lib = L
    return L

_scratch = None
_base = None
def scratch_base():
    """One directory for this check and all its workers; removed by the process that made it."""
    global _base
    if not _base:
        sh = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        _base = tempfile.mkdtemp(prefix="vrv-", dir=sh); pid = os.getpid()
        def clean(b=_base):
            if os.getpid() == pid: shutil.rmtree(b, ignore_errors=True)
        atexit.register(clean)
    return _base
def scratch():
    global _scratch
    if not _scratch or _scratch[0] != os.getpid():
        d = os.path.join(scratch_base(), str(os.getpid())); os.makedirs(d, exist_ok=True); _scratch = (os.getpid(), d)
    return _scratch[1]

class CompileError(Exception):
    def __init__(self, stage, status, err): super().__init__(stage, status, err); self.stage, self.status, self.err = stage, status, err
    def __str__(self): return f"{self.stage}: status {self.status}: {self.err}"

def compile_c(src, out, flags=(), cc="toycc"):
    if cc == "toycc":
        t, _ = K.host_toycc_cached(); cmd = [t, *flags, "-c", "-o", out, src]
    else:
        cmd = [K.CROSS + "gcc", "-w", "-O1", "-fno-stack-protector", "-ffreestanding", "-march=rv64gc", "-mcmodel=medany", *flags, "-c", "-o", out, src]
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, cwd=os.path.dirname(src))
    except subprocess.TimeoutExpired: raise CompileError(cc, "timeout", "")
    if r.returncode: raise CompileError(cc, r.returncode, r.stderr.decode(errors="replace")[-600:])

def build(files, flags=(), cc="toycc", foreign=(), name="p"):
    """files: list of C texts compiled with cc; foreign: C texts compiled with gcc. Returns the path of an executable."""
    L = lib(); d = scratch(); objs = []
    for i, text in enumerate(files):
        s = os.path.join(d, f"{name}{i}.c"); o = s[:-2] + ".o"
        with open(s, "w") as f: f.write(text)
        compile_c(s, o, flags, cc); objs.append(o)
    fobjs = []
    for i, text in enumerate(foreign):
        s = os.path.join(d, f"{name}f{i}.c"); o = s[:-2] + ".o"
        with open(s, "w") as f: f.write(text)
        compile_c(s, o, (), "gcc"); fobjs.append(o)
    exe = os.path.join(d, name + ".elf")
    r = subprocess.run([K.CROSS + "ld", "-static", "-no-relax", "--no-warn-rwx-segments", "-z", "norelro", "-Ttext-segment=0x10000", "-e", "_start", "-o", exe, os.path.join(L.rvdir, "rt.o")] + objs +
                       [os.path.join(L.rvdir, "mark.o")] + fobjs + [K.libgcc()], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode: raise CompileError("ld", r.returncode, r.stderr.decode(errors="replace")[-600:])
    return exe

class Result: pass

class Prog:
    """A loaded executable."""
    def __init__(self, exe):
        L = lib(); self.L = L
        if L.sim_load(exe.encode()): raise K.HarnessError("cannot load " + exe)
        self.foreign = (self.sym("__foreign_start"), L.sim_info(5))
        self.tls = [L.sim_info(i) for i in range(4)]
    def tlsaddr(self, hart, n):
        """Address of a thread's copy of a thread-local object."""
        return ((TLS0 + hart * TLSSZ + 64 + 63) & ~63) + self.sym(n)
    def sym(self, n): return self.L.sim_sym(n.encode())
    def read(self, addr, n):
        b = C.create_string_buffer(max(n, 1))
        if self.L.sim_read(addr, b, n): raise K.HarnessError(f"read {addr:#x}")
        return b.raw[:n]
    def run(self, harts, cfg, faults=(), segs=None, decs=None, setup=None, inputs=None, devin=None, regseed=1, stacksz=STACKSZ, group=None, memfill=None):
        """harts: list of (function name or pc, [args]). cfg: dict. Returns Result."""
        L = self.L; L.sim_reset()
        c = Cfg(); c.hash_pcs = 1; c.max_steps = 2000000
        for k, v in cfg.items(): setattr(c, k, v)
        if c.hostile: c.foreign_lo, c.foreign_hi = self.foreign
        tls_img, tls_fsz, tls_msz, tls_al = self.tls
        if tls_msz > TLSSZ - 64: raise K.HarnessError("TLS too big")
        for i, (fn, args) in enumerate(harts):
            pc = fn if isinstance(fn, int) else self.sym(fn)
            if not pc: raise K.HarnessError("no symbol " + str(fn))
            hi = STACK0 + (i + 1) * STACKSZ; lo = hi - stacksz; tp = TLS0 + i * TLSSZ + 64
            tp = (tp + 63) & ~63
            L.sim_fill(hi - 0x3000, 0x3000, regseed * 1000003 + i)  # stack garbage
            L.sim_fill(tp - 64, 64, regseed * 7919 + i)
            if tls_msz:
                b = bytearray(tls_msz); b[:tls_fsz] = self.read(tls_img, tls_fsz); L.sim_write(tp, bytes(b), tls_msz)
            a = (C.c_uint64 * 8)(*[x & (2**64 - 1) for x in args])
            L.sim_hart(pc, lo, hi, hi - 0x400, tp, a, len(args), K.subseed(regseed, "reg", i) if regseed else 0)
            if inputs and inputs.get(i): v = inputs[i]; L.sim_input(i, (C.c_uint64 * len(v))(*[x & (2**64 - 1) for x in v]), len(v))
        if devin: L.sim_devin((C.c_uint64 * len(devin))(*devin), len(devin))
        if segs is not None:
            c.policy = 5; L.sim_segs((Seg * max(1, len(segs)))(*[Seg(*s) for s in segs]), len(segs))
        if decs is not None:
            c.weak_explicit = 1; L.sim_decs((Dec * max(1, len(decs)))(*[Dec(*d) for d in decs]), len(decs))
        if faults: L.sim_faults((Fault * len(faults))(*[Fault(*f) for f in faults]), len(faults))
        L.sim_cfg(C.byref(c))
        if setup: setup(self)
        r = Result(); r.rc = L.sim_run()
        s = L.sim_stats().contents; r.stats = {n: getattr(s, n) for n in STATS}
        n = L.sim_nevents(); ev = L.sim_events()
        r.events = [(e.step, e.hart, e.svc, tuple(e.a), e.sp) for e in ev[:n]] if n else []
        r.ret = [L.sim_hartget(i, 0) for i in range(len(harts))]; r.done = [L.sim_hartget(i, 1) for i in range(len(harts))]
        r.icount = [L.sim_hartget(i, 5) for i in range(len(harts))]; r.scount = [L.sim_hartget(i, 6) for i in range(len(harts))]
        r.trap = None
        if r.rc == 2:
            for i in range(len(harts)):
                t = L.sim_hartget(i, 2)
                if t: r.trap = (i, t, L.sim_hartget(i, 3), L.sim_hartget(i, 4))
        if c.record:
            n = L.sim_nsegs(); g = L.sim_getsegs(); r.segs = [(x.hart, x.n) for x in g[:n]] if n else []
            n = L.sim_ndecs(); g = L.sim_getdecs(); r.decs = [(x.hart, x.idx, x.kind, x.val) for x in g[:n]] if n else []
        n = L.sim_ndev(); g = L.sim_dev(); r.dev = [(x.hart, x.width, x.write, x.addr, x.val) for x in g[:n]] if n else []
        return r

def _call(self, fn, args=(), max_steps=1000000):
    """Run one function alone on the memory as the last run left it; returns its events (or None)."""
    L = self.L; L.sim_newphase(); c = Cfg(); c.max_steps = max_steps; c.seed = 1
    i = 60; hi = STACK0 + 61 * STACKSZ if False else TLS0 - 0x1000
    a = (C.c_uint64 * 8)(*[x & (2**64 - 1) for x in args])
    L.sim_hart(self.sym(fn), hi - 0x40000, hi, hi - 0x400, TLS0 + 64, a, len(args), 0); L.sim_cfg(C.byref(c))
    if L.sim_run(): return None
    n = L.sim_nevents(); ev = L.sim_events()
    return [(e.step, e.hart, e.svc, tuple(e.a), e.sp) for e in ev[:n]] if n else []
Prog.call = _call

def trapmsg(t):
    if t[1] in (8, 9):
        n = t[2]; nm = {2: "sp", 3: "gp", 4: "tp"}.get(n) or (f"x{n}" if n < 32 else f"f{n - 32}")
        return f"thread {t[0]}: {TRAPS[t[1]]}: {nm} (pc {t[3]:#x})"
    return f"thread {t[0]}: {TRAPS.get(t[1], t[1])} (address {t[2]:#x}, pc {t[3]:#x})"
def regs(h): return [lib().sim_reg(h, r) for r in range(64)]

# ---- the compiler compiled by itself, as a Linux program in the simulated machine
INTERRUPT = 4
def selfhost():
    """Compile the compiler with itself (static, with the C library's cross-built archive)."""
    t, key = K.host_toycc_cached(); d = os.path.join(K.BUILD, "selfhost-" + key)
    with K.Lock("selfhost"):
        if not os.path.exists(d + "/toycc"):
            w = d + ".tmp"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
            procs, objs = [], []
            for s in K.repo_sources():
                o = os.path.join(w, s.replace("/", "__")[:-2] + ".o"); objs.append(o)
                procs.append((s, subprocess.Popen([t, "-DDEBUG", "-I.", "-Iparser", "-Ipreprocessor", "-c", "-o", o, s], cwd=K.REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
            for s, p in procs:
                _, e = p.communicate()
                if p.returncode: raise CompileError("toycc " + s, p.returncode, e.decode(errors="replace")[-600:])
            r = K.sh([t, "-static", "-o", w + "/toycc"] + objs)
            if r.returncode: raise CompileError("ld", r.returncode, r.stderr.decode(errors="replace")[-600:])
            for o in objs: os.unlink(o)
            shutil.rmtree(d, ignore_errors=True); os.rename(w, d)
    return d + "/toycc"

def run_linux(prog, argv, files, stdin=b"", env=(), seed=1, short=False, brk=0, mmap=0, stack=0, garbage=0, faults=(), max_steps=2000000000, checkcalls=0, now=None):
    """One run of a static Linux executable. Returns Result(rc, exit, out, err, files)."""
    L = prog.L; L.sim_reset(); top = MEM - 0x10000 - stack; lo = top - (8 << 20)
    if garbage: L.sim_fill(top - (1 << 16), 1 << 16, garbage)
    strs = b""; pos = []; base = top - 0x4000
    for a in list(argv) + list(env): pos.append(base + len(strs)); strs += a.encode("latin-1") + b"\0"
    rnd = base + len(strs); rnd = (rnd + 15) & ~15
    L.sim_write(base, strs, len(strs)); L.sim_fill(rnd, 16, seed)
    pn = C.create_string_buffer(64); L.sim_read(L.sim_info(8), pn, 64)
    eh = pn.raw; phoff = int.from_bytes(eh[32:40], "little"); phnum = int.from_bytes(eh[56:58], "little")
    aux = [3, L.sim_info(8) + phoff, 4, 56, 5, phnum, 6, 4096, 9, L.sim_info(7), 11, 0, 12, 0, 13, 0, 14, 0, 16, 0x112d, 17, 100, 23, 0, 25, rnd, 0, 0]
    w = [len(argv)] + pos[:len(argv)] + [0] + pos[len(argv):] + [0] + aux
    sp = (base - 8 * len(w)) & ~15; b = b"".join(x.to_bytes(8, "little") for x in w); L.sim_write(sp, b, len(b))
    L.sim_hart(L.sim_info(7), lo, top, sp, 0, (C.c_uint64 * 1)(0), 1, 0); L.sim_setreg(0, 1, 0)
    bk = (L.sim_info(6) + 0xfff + brk) & ~0xfff; L.lx_init(bk, (lo - 0x100000 - mmap) & ~0xfff, int(short))
    for n, d in files: d = d if isinstance(d, bytes) else d.encode("latin-1"); L.lx_file(n.encode("latin-1"), d, len(d))
    L.lx_stdin(stdin, len(stdin))
    if faults: L.sim_faults((Fault * len(faults))(*[Fault(*f) for f in faults]), len(faults))
    c = Cfg(); c.seed = seed; c.max_steps = max_steps; c.hash_pcs = 2; c.checkcalls = checkcalls; L.sim_cfg(C.byref(c))
    r = Result(); r.rc = L.sim_run(); s = L.sim_stats().contents; r.stats = {n: getattr(s, n) for n in STATS}; r.icount = L.sim_hartget(0, 5)
    r.trap = (0, L.sim_hartget(0, 2), L.sim_hartget(0, 3), L.sim_hartget(0, 4)) if r.rc == 2 else None
    L.lx_exit.restype = C.c_int; r.exit = L.lx_exit(); r.nsys = L.lx_nsys()
    def get(k, name=b""):
        p = C.c_void_p(); n = L.lx_out(k, name, C.byref(p)); return None if n == 2**64 - 1 else C.string_at(p, n) if n else b""
    r.out = get(1).decode("latin-1"); r.err = get(2).decode("latin-1"); r.get = lambda name: (lambda x: None if x is None else x.decode("latin-1"))(get(0, name.encode("latin-1")))
    return r
