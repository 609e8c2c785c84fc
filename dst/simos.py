"""Builds the simulated operating system with /repo's compiler linked in and
talks to it: one request is one simulated world, one reply its whole history."""
import os, re, shutil, struct, subprocess
from . import common as K

# library functions that reach outside the process and are not simulated: calling one ends the run without a verdict;
# what is neither simulated nor listed here touches nothing but its arguments and comes from the real C library
OUTSIDE = set("""system popen pclose pipe pipe2 mremap msync socket connect bind listen accept send recv sendto recvfrom select poll ppoll epoll_create epoll_wait clone preadv pwritev sendfile
copy_file_range splice syscall ptrace mount umount chroot chown fchown lchown symlink readlink mkfifo mknod utime utimes utimensat futimens setuid setgid seteuid setegid nice
setrlimit prlimit sigsuspend sigwait pause alarm setitimer timer_create clock_settime settimeofday pthread_create pthread_join thrd_create thrd_join nftw ftw scandir fts_open
shm_open sem_open dlopen fmemopen fopencookie brk sbrk statvfs statfs ioctl flock lockf renameat2 linkat mkdirat fchdir fchmodat faccessat statx memfd_create inotify_init
quick_exit at_quick_exit on_exit sysinfo getlogin getpwuid fscanf scanf vfscanf __isoc99_fscanf __isoc99_scanf __isoc23_fscanf
__isoc23_scanf err errx warn warnx verr verrx vwarn vwarnx psignal wordexp getopt getopt_long getopt_long_only freopen64 fputwc fputws fgetwc fgetws""".split())
FLAGS = ["-fno-pie", "-fno-pic", "-fsanitize-coverage=trace-pc", "-fno-stack-protector", "-fno-omit-frame-pointer", "-w"]

def engine_obj():
    src = os.path.join(K.VERIF, "simos", "simos.cpp"); key = K._hash_files([src], "e2"); d = os.path.join(K.BUILD, "simos-engine-" + key)
    with K.Lock("simos-engine"):
        if not os.path.exists(d + "/simos.o"):
            t = d + ".tmp"; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
            r = K.sh(["g++", "-O2", "-g", "-std=gnu++17", "-fno-omit-frame-pointer", "-fno-pie", "-w", "-c", "-o", t + "/simos.o", src])
            if r.returncode: raise K.HarnessError("simos does not build: " + r.stderr.decode()[-1500:])
            shutil.rmtree(d, ignore_errors=True); os.rename(t, d)
    return d + "/simos.o", key

# what an automatic variable holds before it is assigned: whatever the simulated stack or a register holds, a pattern, zero
VARIANTS = [[], ["-ftrivial-auto-var-init=pattern"], ["-ftrivial-auto-var-init=zero"]]
BASES = ["0x400000", "0x1203000", "0x255d6000"]     # where the program is loaded: addresses of functions and static data differ as well

def build(variant=None):
    if variant is None: return [build(v) for v in range(len(VARIANTS))]
    eng, ekey = engine_obj(); key = K._hash_files(K.repo_inputs(), f"s5.{variant}" + ekey); d = os.path.join(K.BUILD, "simos-" + key)
    with K.Lock("simos"):
        if not os.path.exists(d + "/simos"):
            t = d + ".tmp"; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
            objs = K.compile_all(K.repo_sources(), t, "gcc", K.CFLAGS + FLAGS + VARIANTS[variant], K.REPO)
            def run(*c):
                r = K.sh(list(c))
                if r.returncode: raise K.HarnessError(" ".join(c[:3]) + ": " + r.stderr.decode()[-1500:])
                return r.stdout.decode()
            run("ld", "-r", "-o", t + "/all.o", *objs)
            have = {l.split()[-1] for l in run("nm", "--defined-only", eng).splitlines()}
            undef = {l.split()[-1] for l in run("nm", "-u", t + "/all.o").splitlines()}
            ren, stubs = [("main", "toycc_main")], []
            for u in sorted(undef):
                if "sim_" + u in have: ren.append((u, "sim_" + u))
                elif u in OUTSIDE: ren.append((u, "simx_" + u)); stubs.append(f'void simx_{u}(void) {{ simos_unknown("{u}"); }}\n')
            with open(t + "/stubs.c", "w") as f: f.writelines(["void simos_unknown(const char *);\n"] + stubs)
            run("gcc", "-c", "-w", "-fno-pie", "-fno-builtin", "-o", t + "/stubs.o", t + "/stubs.c")
            with open(t + "/syms", "w") as f: f.writelines(f"{a} {b}\n" for a, b in ren)
            run("objcopy", "--redefine-syms", t + "/syms", t + "/all.o", t + "/b.o")
            run("objcopy", "--keep-global-symbol", "toycc_main", "--rename-section", ".data=toydata", "--rename-section", ".bss=toybss,alloc,load,data,contents", t + "/b.o", t + "/c.o")
            secs = run("readelf", "-SW", t + "/c.o")
            left = [s for s in re.findall(r"\] (\.(?:data|bss|tdata|tbss)[^ ]*) .*?WA", secs) if not s.startswith(".data.rel.ro")]
            if left: raise K.HarnessError("writable sections outside the process image: " + " ".join(left))
            run("g++", "-static", "-no-pie", "-Wl,-Ttext-segment=" + BASES[variant], "-g", "-o", t + "/simos", eng, t + "/c.o", t + "/stubs.o")
            for o in objs + [t + "/all.o", t + "/b.o", t + "/c.o"]: os.unlink(o)
            shutil.rmtree(d, ignore_errors=True); os.rename(t, d)
    return d + "/simos"

F_ERRNO, F_SHORT, F_KILL, F_EXIT, F_CRASH, F_JUMP, F_DISK, F_CLOSELOSE, F_ALLOC, F_ALLOCFROM, F_GLOBNONE, F_STICK, F_STOP = range(1, 14)

class Reply:
    pass

class Proc:
    __slots__ = ("name", "role", "reaped", "status", "steps", "allocs", "calls", "parent", "argv", "actx")

def sgn(x): return x - (1 << 64) if x >> 63 else x

class Sim:
    """The simulator, one process per way of building the compiler."""
    def __init__(self): self.v = {}
    def run(self, w):
        k = w.get("init", 0)
        if k not in self.v: self.v[k] = Pipe(build(k))
        return self.v[k].run(w)

class Pipe:
    """A pipe to one simulator process."""
    def __init__(self, exe):
        self.exe = exe; self.p = None
    def start(self):
        env = dict(os.environ); env["GLIBC_TUNABLES"] = ""
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd="/")
    def stop(self):
        if self.p: self.p.kill(); self.p.wait(); [f.close() for f in (self.p.stdin, self.p.stdout, self.p.stderr)]; self.p = None
    def run(self, w):
        q = bytearray()
        def pi(v): q.extend(struct.pack("<Q", int(v) & (2**64 - 1)))
        def ps(s):
            if isinstance(s, str): s = s.encode("latin-1")
            pi(len(s)); q.extend(s)
        pi(w["seed"]); pi(w.get("garb", w["seed"])); pi(w.get("preempt", 0)); pi(w.get("pct", 0)); pi(w.get("shortr", 0)); pi(w.get("shortw", 0)); pi(w.get("now", 1700000000 * 10**9))
        pi(w.get("advmin", 1000)); pi(w.get("advrange", 0)); pi(w.get("tz", 0)); pi(w.get("tz2", 0)); pi(w.get("dstat", 0)); pi(w.get("steplimit", 60_000_000)); pi(w.get("reuse", 0))
        sched = w.get("sched"); pi(sched is not None); pi(w.get("wantfs", 0))
        pi(len(sched or [])); [(pi(y), ps(n)) for y, n in sched or []]
        pi(len(w["files"]))
        for f in w["files"]: ps(f[0]); pi(f[2] if len(f) > 2 else 0); pi(f[3] if len(f) > 3 else 1600000000); ps(f[1])
        pi(len(w["invs"]))
        for v in w["invs"]:
            pi(len(v["argv"])); [ps(a) for a in v["argv"]]; ps(v.get("stdin", "")); ps(v.get("cwd", "/w")); pi(v.get("start", 0)); pi(v.get("vpid", 100)); fo = v.get("foreign", []); pi(len(fo)); [(pi(a), pi(b)) for a, b in fo]
            en = v.get("env", []); pi(len(en)); [ps(e) for e in en]; pi(v.get("mode", 0))
        fl = w.get("faults", []); pi(len(fl))
        for f in fl: ps(f[0]); ps(f[1]); pi(f[2]); pi(f[3]); pi(f[4])
        en = w.get("env", []); pi(len(en))
        for e in en: pi(e[0]); pi(e[1]); ps(e[2]); ps(e[3])
        for attempt in (0, 1):
            if not self.p: self.start()
            try:
                self.p.stdin.write(struct.pack("<Q", len(q)) + bytes(q)); self.p.stdin.flush()
                h = self.p.stdout.read(8)
                if len(h) == 8: break
            except BrokenPipeError: pass
            e = self.p.stderr.read().decode(errors="replace")[-500:]; self.stop()
            if attempt: raise K.HarnessError("the simulator died: " + e)
        n = struct.unpack("<Q", h)[0]; b = self.p.stdout.read(n)
        if len(b) != n: self.stop(); raise K.HarnessError("the simulator died in a reply")
        o = 0
        U = struct.Struct("<q").unpack_from
        def gi():
            nonlocal o
            v = U(b, o)[0]; o += 8; return v
        def gs():
            nonlocal o
            k = U(b, o)[0]; o += 8; s = b[o:o + k]; o += k; return s.decode("latin-1")
        r = Reply()
        r.invs = [dict(done=gi(), status=gi(), out=gs(), err=gs(), endevt=gi()) for _ in range(gi())]
        r.files = {}
        for _ in range(gi()):
            p = gs(); r.files[p] = dict(old=gi(), dir=gi(), creator=gi(), mtime=gi(), data=gs())
        r.gone = [gs() for _ in range(gi())]
        r.procs = {}
        for _ in range(gi()):
            p = Proc(); p.name = gs(); p.role = gs(); p.reaped = gi(); p.status = gi(); p.steps = gi(); p.allocs = gi(); p.calls = gs(); p.parent = gi(); p.actx = gs(); p.argv = [gs() for _ in range(gi())]; r.procs[p.name] = p
        r.ev = [gs().split("\t") for _ in range(gi())]
        r.stats = {}
        for _ in range(gi()):
            k = gs(); r.stats[k] = gi()
        r.sched = []
        for _ in range(gi()):
            y = gi(); r.sched.append([y, gs()])
        r.hash = gi() & (2**64 - 1); r.il = gi() & (2**64 - 1); r.steps = gi(); r.tick = gi(); r.now = gi(); r.yields = gi(); r.nfired = gi(); r.fired = [gi() for _ in fl]
        return r
