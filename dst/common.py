"""Paths, builds and small helpers shared by all checks."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, fcntl, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CROSS = "riscv64-linux-gnu-"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

class HarnessError(Exception):
    """The machinery itself could not do its work (never a violation)."""

def sh(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE); kw.setdefault("stderr", subprocess.PIPE)
    return subprocess.run(cmd, **kw)

def repo_sources():
    r = sh(["make", "-s", "--no-print-directory", "--eval", "vp-list: ; @echo $(SRCFILES)", "vp-list"], cwd=REPO)
    files = r.stdout.decode().split()
    if r.returncode or not files:
        raise HarnessError("cannot list the sources: " + r.stderr.decode()[-500:])
    return files

def _hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:20]

def repo_inputs():
    out = []
    for d, ds, fs in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        if rel == ".":
            ds[:] = [x for x in ds if x not in (".git", "output", "test", "thirdparty", "qemu_script")]
        ds.sort()
        for f in fs:
            if f.endswith((".c", ".h")) or "ake" in f: out.append(os.path.join(d, f))
    return out

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True); self.path = os.path.join(BUILD, name + ".lock")
    def __enter__(self):
        self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

# The flags of the project's own makefile, minus -Werror
CFLAGS = "-std=c2x -g -O0 -fno-common -DDEBUG -I. -Iparser -Ipreprocessor".split()

def compile_all(srcs, outdir, cc, flags, cwd):
    """Compile srcs in parallel, return the objects."""
    objs, procs = [], []
    for s in srcs:
        o = os.path.join(outdir, s.replace("/", "__")[:-2] + ".o"); objs.append(o)
        procs.append((s, subprocess.Popen([cc] + flags + ["-c", "-o", o, s], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
    bad = ""
    for s, p in procs:
        _, e = p.communicate()
        if p.returncode: bad += f"{s}: {e.decode()[-800:]}\n"
    if bad: raise HarnessError("the compiler does not build:\n" + bad)
    return objs

def host_toycc():
    """Build /repo's compiler outside /repo; returns (binary, hash)."""
    key = _hash_files(repo_inputs(), "v3")
    d = os.path.join(BUILD, "toycc-" + key)
    with Lock("toycc"):
        if not os.path.exists(os.path.join(d, "toycc")):
            t = d + ".tmp"; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
            srcs = repo_sources()
            objs = compile_all(srcs, t, "gcc", CFLAGS, REPO)
            r = sh(["gcc", "-o", os.path.join(t, "toycc")] + objs)
            if r.returncode: raise HarnessError("link failed: " + r.stderr.decode()[-800:])
            for o in objs: os.unlink(o)
            shutil.copytree(os.path.join(REPO, "include"), os.path.join(t, "include"))
            shutil.rmtree(d, ignore_errors=True); os.rename(t, d)
    return os.path.join(d, "toycc"), key

_tc = None
def host_toycc_cached():
    global _tc
    if not _tc: _tc = host_toycc()
    return _tc

def build_rvsim():
    src = [os.path.join(VERIF, "rvsim", f) for f in ("rvsim.cpp", "rvsim.h", "rt.S", "mark.S")]
    key = _hash_files(src)
    d = os.path.join(BUILD, "rvsim-" + key)
    with Lock("rvsim"):
        if not os.path.exists(os.path.join(d, "librvsim.so")):
            t = d + ".tmp"; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
            r = sh(["g++", "-O2", "-shared", "-fPIC", "-w", "-o", os.path.join(t, "librvsim.so"), src[0]])
            if r.returncode: raise HarnessError("rvsim does not build: " + r.stderr.decode()[-800:])
            for k in (2, 3):
                o = os.path.join(t, os.path.basename(src[k])[:-2] + ".o")
                r = sh([CROSS + "gcc", "-c", "-march=rv64gc", "-o", o, src[k]])
                if r.returncode: raise HarnessError("rt: " + r.stderr.decode())
            shutil.rmtree(d, ignore_errors=True); os.rename(t, d)
    return d

_libgcc = None
def libgcc():
    global _libgcc
    if not _libgcc: _libgcc = sh([CROSS + "gcc", "-print-libgcc-file-name"]).stdout.decode().strip()
    return _libgcc

def sub(seed, *parts):
    """A PRNG derived from a seed and a path of names."""
    h = hashlib.sha256(("|".join([str(seed)] + [str(p) for p in parts])).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))

def subseed(seed, *parts):
    h = hashlib.sha256(("|".join([str(seed)] + [str(p) for p in parts])).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1

def ddmin(items, test):
    """Smallest sublist (1-minimal) of items for which test is true."""
    items = list(items); n = 2
    if test([]): return []
    while len(items) >= 2:
        size = max(1, len(items) // n); done = False
        for i in range(0, len(items), size):
            rest = items[:i] + items[i + size:]
            if test(rest):
                items = rest; n = max(2, n - 1); done = True; break
        if not done:
            if n >= len(items): break
            n = min(len(items), n * 2)
    return items

def s64(x): x &= 2**64 - 1; return x - 2**64 if x >> 63 else x
