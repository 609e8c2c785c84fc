// A library operating system: runs any number of simulated processes of the
// compiler (real code, linked in) plus stand-ins for the assembler and the
// linker inside one host process. The simulator owns the file system, the
// process table, the scheduler, the clock, the allocator and stdio. One
// request (world + seed + plan) is one exactly repeatable execution.
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <glob.h>
#include <unistd.h>
#include <spawn.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <sys/times.h>
#include <sys/utsname.h>
#include <functional>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <array>
using std::string; using std::vector; using std::map;

extern "C" {
int toycc_main(int, char **);
extern char __start_toydata[] __attribute__((weak)), __stop_toydata[] __attribute__((weak));
extern char __start_toybss[] __attribute__((weak)), __stop_toybss[] __attribute__((weak));
}

// ------------------------------------------------------------------ helpers
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
struct Rng { uint64_t s; uint64_t next() { return mix(s++ * 0x2545F4914F6CDD1Dull + 0x1234567); } uint64_t below(uint64_t n) { return n ? next() % n : 0; } };
extern "C" void simos_unknown(const char *m) { fprintf(stderr, "simos: not simulated: %s\n", m); fflush(stderr); _exit(3); }
static void die(const char *m) { fprintf(stderr, "simos: %s\n", m); fflush(stderr); _exit(3); }

// ------------------------------------------------------------------- world
struct Inode { string data; bool dir = false; int flags = 0; int64_t mtime = 0; int ino = 0; int nlink = 1; int creator = -1; bool touched = false; };
typedef Inode *Ino;
struct OpenFile { int ref = 1; Ino ino = nullptr; string path; bool rd = false, wr = false, app = false; size_t off = 0; int kind = 0; int inv = -1; bool wrote = false, red = false; };
// kind 0 file, 1 stdin, 2 stdout, 3 stderr, 4 directory
struct Stream { bool open = false; int fd = -1; bool rd = false, wr = false, err = false, eof = false, mem = false, unbuf = false; bool line = false;
    string w; string r; size_t rp = 0; string data; size_t cap = 0; size_t pos = 0; char **bp = nullptr; size_t *sp = nullptr; int unget = -1; };
struct Region { char *heap; char *stk; int users = 0; struct Proc *resident = nullptr; size_t high = 0; bool used = false; };
enum { HEAPCAP = 192 << 20, STKCAP = 16 << 20, NREG = 24 };
enum St { RUN, BLOCKED, ZOMBIE, GONE };
struct Proc {
    int id = 0, parent = -1, inv = -1, vpid = 0; string name, role; vector<string> argv; St st = RUN; int status = 0; Region *reg = nullptr; void *sp = nullptr;
    string img, hs_heap, hs_stk; bool saved = false; size_t brk = 0; uint64_t nraw = 0; map<char, struct Fault *> sticky; vector<std::pair<size_t, size_t>> holes; map<int, OpenFile *> fds; vector<Stream> streams; vector<std::pair<void (*)(void *), void *>> atex; int err = 0;
    int64_t steps = 0, calls = 0, allocs = 0; vector<uint64_t> actx; string callk; string tok_dummy; char *tokp = nullptr; uint64_t rnd = 1; struct tm *tmbuf = nullptr; char *ascbuf = nullptr; bool exiting = false;
    int fork_ret = 0; bool allocdead = false; int req = 0; string execpath; bool foreign = false; int64_t foreign_at = -1; int foreign_status = 0; bool owned = false;
    string sb_in, sb_out; int64_t created = 0, ended = -1; string cwd; int umask = 022; map<int, void (*)(int)> sigh; uint64_t memsalt = 0; vector<Inode *> dirino; vector<string> env;
    int execs = 0; bool hint = false; int job = 0;   // job: stopped (1) or continued (2) and not yet reported
};
struct Fault { string proc; char trig; int64_t n; int kind; int64_t arg; int fired = 0; bool stick = false; Fault *of = nullptr; };
static Fault stickyfault;
enum FK { F_ERRNO = 1, F_SHORT, F_KILL, F_EXIT, F_CRASH, F_JUMP, F_DISK, F_CLOSELOSE, F_ALLOC, F_ALLOCFROM, F_GLOBNONE, F_STICK, F_STOP };
struct Inv { vector<string> argv; string in; string cwd; int64_t start; int vpid; vector<std::array<int64_t, 2>> foreign; string out, err; bool done = false; int status = 0; int nproc = 0; int root = -1; size_t inpos = 0; int64_t endevt = -1; vector<string> env; int mode = 0; };   // mode: 1 = started with SIGCHLD ignored

struct EnvEv { int64_t at; int op; string path, data; bool done; }; static vector<EnvEv> envev;
static map<string, Ino> fs; static int next_ino; static vector<Ino> allino;
static vector<Proc *> procs; static vector<Inv> invs; static vector<Fault> faults; static Proc *cur;
static uint64_t W_seed, W_garb; static int W_preempt, W_pct, W_shortr, W_shortw, W_explicit; static int64_t W_now, W_advmin, W_advrange, W_steplimit, W_dstat; static int W_tz, W_tz2; static int W_reuse, W_wantctx;
static map<int64_t, string> W_sched; static vector<std::pair<int64_t, string>> schedlog; static int64_t yieldno, tick; static Rng schedrng;
static int64_t disk_left = -1; static vector<string> evlog; static uint64_t evhash, ilhash; static map<string, int64_t> stats; static vector<int64_t> pctpts; static map<int, int64_t> prio; static string unsupported;
static void *sched_sp; static Proc *data_res; static string pristine; static Region regs[NREG]; static int64_t step_next; static vector<int64_t> timeq;

static void hashin(const string &s) { for (unsigned char c : s) evhash = (evhash ^ c) * 1099511628211ull; evhash = (evhash ^ 0xff) * 1099511628211ull; }
static void ev(const string &s) { evlog.push_back(s); hashin(s); }
static string I(int64_t v) { return std::to_string(v); }

static size_t dsz() { return __start_toydata ? __stop_toydata - __start_toydata : 0; }
static size_t bsz() { return __start_toybss ? __stop_toybss - __start_toybss : 0; }
static void img_save(string &o) { o.resize(dsz() + bsz()); if (dsz()) memcpy(&o[0], __start_toydata, dsz()); if (bsz()) memcpy(&o[dsz()], __start_toybss, bsz()); }
static void img_load(const string &o) { if (dsz()) memcpy(__start_toydata, &o[0], dsz()); if (bsz()) memcpy(__start_toybss, &o[dsz()], bsz()); }

// ------------------------------------------------------- context switching
extern "C" void ctx_swap(void **save, void *to);
asm(".text\n.globl ctx_swap\nctx_swap:\n pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
    " movq %rsp,(%rdi)\n movq %rsi,%rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
static void to_sched() { ctx_swap(&cur->sp, sched_sp); }

static void proc_end(Proc *p, int status);
static void entry();
static char *stk_top(Region *r) { return r->stk + STKCAP; }

static Region *get_region(Proc *p, uint64_t salt) {
    int k = mix(W_garb ^ salt) % NREG;
    for (int i = 0; i < NREG; i++) { Region *r = &regs[(k + i) % NREG]; if (!r->used) { r->used = true; r->users = 1; r->resident = p; r->high = 0; return r; } }
    return nullptr;
}
static void put_region(Proc *p) {
    Region *r = p->reg; if (!r) return; p->reg = nullptr;
    if (p->brk > r->high) r->high = p->brk;
    if (r->resident == p) r->resident = nullptr;
    if (--r->users == 0) { madvise(r->heap, (r->high + 8191) & ~4095ull, MADV_DONTNEED); madvise(r->stk + 4096, STKCAP - 4096, MADV_DONTNEED); r->used = false; }
}
static void save_hs(Proc *q) { q->hs_heap.assign(q->reg->heap, q->brk); char *sp = (char *)q->sp - 128; q->hs_stk.assign(sp, stk_top(q->reg) - sp); q->saved = true; }
static void load_hs(Proc *q) { memcpy(q->reg->heap, q->hs_heap.data(), q->hs_heap.size()); memcpy((char *)q->sp - 128, q->hs_stk.data(), q->hs_stk.size()); q->saved = false; string().swap(q->hs_heap); string().swap(q->hs_stk); }
static void garbage(char *p, size_t n, uint64_t salt) {
    uint64_t s = mix(W_garb * 3 + salt); size_t i = 0;
    if ((W_garb & 7) == 1) { memset(p, 0, n); return; }
    if ((W_garb & 7) == 2) { memset(p, 0xff, n); return; }
    if ((W_garb & 7) == 3) { memset(p, 1, n); return; }
    for (; i + 8 <= n; i += 8) { s = s * 6364136223846793005ull + 1442695040888963407ull; uint64_t v = s ^ (s >> 29); memcpy(p + i, &v, 8); }
    for (; i < n; i++) p[i] = (char)(s >> (i & 7));
}
static char *raw_alloc(Proc *p, size_t n);
static void start_image(Proc *p) {          // fresh process image (exec)
    p->memsalt = mix(W_garb ^ (p->id * 977 + p->execs * 131 + 5));
    p->img = pristine; p->saved = false; p->reg = get_region(p, p->memsalt); if (!p->reg) die("out of regions");
    p->brk = 64 + (p->memsalt >> 7) % 4096 * 16; p->holes.clear(); p->nraw = 0;
    char *top = stk_top(p->reg) - 64 - (p->memsalt >> 20) % 512 * 16;
    garbage(top - 96 * 1024, 96 * 1024, p->memsalt + 1);
    void **s = (void **)((uintptr_t)top & ~15ull); *--s = 0; *--s = (void *)entry; for (int i = 0; i < 6; i++) *--s = 0;
    p->sp = s; p->streams.clear(); p->streams.resize(3);
    for (int i = 0; i < 3; i++) { Stream &t = p->streams[i]; t.open = true; t.fd = i; t.rd = i == 0; t.wr = i > 0; t.unbuf = i == 2; }
    p->atex.clear(); p->allocdead = false; p->tokp = nullptr; p->tmbuf = nullptr; p->ascbuf = nullptr; p->rnd = 1; p->exiting = false; p->execs++; for (auto it = p->sigh.begin(); it != p->sigh.end();) it = it->second == SIG_IGN ? std::next(it) : p->sigh.erase(it);
    ev("CK\t" + p->name + "\t" + I(W_now / 1000000000));
    p->role = "toycc"; string b = p->execpath.substr(p->execpath.rfind('/') + 1);
    if (b == "riscv64-linux-gnu-as") p->role = "as"; else if (b == "riscv64-linux-gnu-ld") p->role = "ld";
    else for (auto &a : p->argv) if (a == "-cc1") p->role = "cc1";
}
static Proc *new_proc(int inv, int parent) {
    Proc *p = new Proc; p->id = procs.size(); p->inv = inv; p->parent = parent; procs.push_back(p); p->created = evlog.size();
    p->name = I(inv) + "." + I(invs[inv].nproc++); return p;
}
static void switch_to(Proc *p) {
    if (data_res != p) { if (data_res && data_res->reg) img_save(data_res->img); img_load(p->img); data_res = p; }
    Region *r = p->reg;
    if (r->resident != p) { if (r->resident && r->resident->reg == r) { if (r->resident->brk > r->high) r->high = r->resident->brk; save_hs(r->resident); } if (p->saved) load_hs(p); r->resident = p; }
    cur = p; step_next = 0; errno = 0; ctx_swap(&sched_sp, p->sp); cur = nullptr;
}

// --------------------------------------------------------- faults and steps
static Ino look(const string &abs); static Ino mkino(bool dir);
static void kill_tree(int inv) { for (Proc *q : procs) if (q->inv == inv && !q->foreign && (q->st == RUN || q->st == BLOCKED)) { proc_end(q, 9); } invs[inv].done = true; }
static const char *fkname[] = {"", "errno", "short", "kill", "exit", "crash", "jump", "diskfull", "closelose", "alloc", "allocfrom", "globnone"};
static void fired(Fault &f, const string &what) { if (&f == &stickyfault && f.of->fired++) { stats["fault:" + what + "(again)"]++; return; } f.fired++; stats["fault:" + what]++; ev("F\t" + f.proc + "\t" + what + "\t" + I(f.arg)); }
enum { RQ_NONE, RQ_FORK = 1, RQ_EXEC, RQ_END, RQ_CRASH, RQ_SPAWN };
static void request(int r) { cur->req = r; to_sched(); }
[[noreturn]] static void end_now(int status) { cur->status = status; request(RQ_END); die("resumed a dead process"); }

extern "C" void __sanitizer_cov_trace_pc(void) {
    if (!cur) return;
    int64_t s = ++cur->steps;
    if (__builtin_expect(s < step_next, 1)) return;
    // look for the next step trigger
    int64_t nx = W_steplimit;
    for (auto &f : faults) if (f.trig == 'S' && !f.fired && f.proc == cur->name) {
        if (f.n <= s) { fired(f, f.kind == F_CRASH ? "crash-at-block" : f.kind == F_KILL ? "kill-at-block" : "exit-at-block"); if (f.kind == F_CRASH) request(RQ_CRASH); else end_now(f.kind == F_KILL ? f.arg & 127 : (f.arg & 255) << 8); }
        else if (f.n < nx) nx = f.n;
    }
    if (s >= W_steplimit) { ev("HANG\t" + cur->name); stats["hang"]++; end_now(9 | 0x10000); }
    step_next = nx;
}

// A kernel entry: the scheduler may run somebody else first; then faults
// planned for this call apply.
static void env_events() {
    for (auto &e : envev) if (!e.done && e.at <= tick) { e.done = true; Ino n = look(e.path); if (e.op == 0) { if (n) fs.erase(e.path); else continue; } else { if (n && n->dir) continue; Ino m = mkino(false); m->data = e.data; m->creator = -3; fs[e.path] = m; } stats[e.op ? "fault:file-appears-or-changes" : "fault:file-disappears"]++; ev(string("ENV\t") + (e.op ? "put" : "del") + "\t" + e.path); }
}
static Fault *sc(char kind) {
    Proc *p = cur; int64_t n = p->calls++; p->callk.push_back(kind);
    tick++; W_now += W_advmin + (W_advrange ? mix(W_seed ^ (p->id * 7919 + n)) % W_advrange : 0);
    ilhash = (ilhash ^ (p->id * 31 + kind)) * 1099511628211ull;
    to_sched(); if (!envev.empty()) env_events();
    Fault *r = nullptr;
    for (auto &f : faults) if (f.trig == 'C' && f.n == n && !f.fired && f.proc == p->name) {
        switch (f.kind) {
        case F_KILL: fired(f, string("kill-") + p->role); end_now(f.arg & 127);
        case F_EXIT: if (kind == 'x') break; fired(f, string("exit-") + p->role); end_now((f.arg & 255) << 8);
        case F_CRASH: fired(f, "crash"); request(RQ_CRASH); die("resumed after crash");
        case F_JUMP: ev("CK\t" + p->name + "\t" + I(W_now / 1000000000)); fired(f, "clock-jump"); W_now += f.arg * 1000000000ll; ev("CK\t" + p->name + "\t" + I(W_now / 1000000000)); break;
        case F_DISK: fired(f, "disk-full-from-here"); disk_left = f.arg; break;
        case F_STOP: fired(f, string("stopped-") + p->role); p->job = 1; if (p->parent >= 0 && procs[p->parent]->st == BLOCKED) procs[p->parent]->st = RUN;
            for (int64_t i = 0; i < f.arg; i++) { p->hint = true; tick++; to_sched(); }
            p->job = 2; if (p->parent >= 0 && procs[p->parent]->st == BLOCKED) procs[p->parent]->st = RUN; break;
        case F_STICK: f.kind = F_ERRNO; f.stick = true; p->sticky[kind] = &f; r = &f; break;
        default: r = &f;
        }
    }
    if (!r) { auto it = p->sticky.find(kind); if (it != p->sticky.end()) { stickyfault = Fault(); stickyfault.kind = F_ERRNO; stickyfault.arg = it->second->arg; stickyfault.proc = it->second->proc; stickyfault.of = it->second; stickyfault.stick = true; r = &stickyfault; } }
    if (n > 300000) { ev("HANG\t" + p->name); stats["hang"]++; end_now(9 | 0x10000); }
    return r;
}
static const char *en(int e) { const char *n = strerrorname_np(e); return n ? n : "E?"; }
static bool ferr(Fault *f, const char *call) { if (f && f->kind == F_ERRNO) { fired(*f, string(call) + ":" + en(f->arg)); cur->err = f->arg; return true; } return false; }

// -------------------------------------------------------------- file system
static string norm(const string &cwd, const string &p) {
    string s = p.size() && p[0] == '/' ? p : cwd + "/" + p; vector<string> v; size_t i = 0;
    while (i <= s.size()) { size_t j = s.find('/', i); if (j == string::npos) j = s.size(); string c = s.substr(i, j - i); i = j + 1;
        if (c == "" || c == ".") continue; if (c == "..") { if (v.size()) v.pop_back(); continue; } v.push_back(c); }
    string o; for (auto &c : v) o += "/" + c; return o.size() ? o : "/";
}
static Ino look(const string &abs) { auto it = fs.find(abs); return it == fs.end() ? nullptr : it->second; }
static string parent_of(const string &abs) { size_t k = abs.rfind('/'); return k ? abs.substr(0, k) : "/"; }
// every component on the way must be a directory, as the kernel requires
static int walk(const string &cwd, const char *cp, string &abs, Ino &ino) {
    if ((uintptr_t)cp < 65536) return EFAULT;
    string p = cp;
    if (p.empty()) return ENOENT;
    if (p.size() > 4095) return ENAMETOOLONG;
    string s = p[0] == '/' ? p : cwd + "/" + p; size_t i = 0; string acc = "/"; 
    abs = norm(cwd, p); 
    // check prefixes lexically
    string pre; vector<string> v; 
    while (i <= s.size()) { size_t j = s.find('/', i); if (j == string::npos) j = s.size(); string c = s.substr(i, j - i); bool last = j == s.size(); i = j + 1;
        if (c == "" || c == ".") continue;
        if (c.size() > 255) return ENAMETOOLONG;
        if (c == "..") { if (v.size()) v.pop_back(); continue; }
        v.push_back(c); pre.clear(); for (auto &x : v) pre += "/" + x;
        if (!last) { Ino d = look(pre); if (!d) return ENOENT; if (!d->dir) return ENOTDIR; } }
    ino = look(abs); if (!ino && abs == "/") { ino = look("/"); }
    if (p[p.size() - 1] == '/' && ino && !ino->dir) return ENOTDIR;
    return 0;
}
static Ino mkino(bool dir) { Ino n = new Inode; n->dir = dir; n->ino = ++next_ino; n->mtime = W_now / 1000000000; allino.push_back(n); return n; }
static void charge(int64_t delta) { if (disk_left >= 0) { disk_left -= delta; if (disk_left < 0) disk_left = 0; } }
static int newfd() { for (int i = 0;; i++) if (!cur->fds.count(i)) return i; }
static int fail(int e) { cur->err = e; return -1; }

static int k_open(const char *path, int fl, const char *what = "open") {
    bool w = (fl & O_ACCMODE) != O_RDONLY;
    Fault *f = sc(w || (fl & O_CREAT) ? 'W' : 'O'); if (ferr(f, w ? "open-write" : "open-read")) return -1;
    string abs; Ino n = nullptr; int e = walk(cur->cwd, path, abs, n); if (e) return fail(e);
    if (!n && !(fl & O_CREAT)) return fail(ENOENT);
    if (n && (fl & O_CREAT) && (fl & O_EXCL)) return fail(EEXIST);
    if (n && n->dir && w) return fail(EISDIR);
    if (n && (fl & O_DIRECTORY) && !n->dir) return fail(ENOTDIR);
    if (n && w && (n->flags & 1)) return fail(EACCES);
    if (n && !w && (n->flags & 2)) return fail(EACCES);
    bool created = false;
    if (!n) { Ino d = look(parent_of(abs)); if (!d) return fail(ENOENT); if (!d->dir) return fail(ENOTDIR); if (d->flags & 1) return fail(EACCES);
        if (disk_left == 0 && (W_seed & 1)) return fail(ENOSPC);
        n = mkino(false); n->creator = cur->inv; fs[abs] = n; created = true; }
    if ((fl & O_TRUNC) && w && !n->dir) { charge(-(int64_t)n->data.size()); if (n->data.size()) n->mtime = W_now / 1000000000; n->data.clear(); }
    OpenFile *o = new OpenFile; o->ino = n; o->path = abs; o->rd = (fl & O_ACCMODE) != O_WRONLY; o->wr = w; o->app = fl & O_APPEND; o->kind = n->dir ? 4 : 0; o->inv = cur->inv;
    if (w || created) ev(string("OW\t") + cur->name + "\t" + abs + "\t" + (created ? "new" : (fl & O_TRUNC) ? "trunc" : "keep") + "\t" + what);
    else ev(string("OR\t") + cur->name + "\t" + abs);
    int fd = newfd(); cur->fds[fd] = o; return fd;
}
static ssize_t k_read(int fd, char *b, size_t n) {
    Fault *f = sc('R'); auto it = cur->fds.find(fd); if (it == cur->fds.end() || !it->second->rd) return fail(EBADF);
    if (n && (uintptr_t)b < 65536) return fail(EFAULT);
    OpenFile *o = it->second; if (o->kind == 4) return fail(EISDIR); if (ferr(f, o->kind == 1 ? "read-stdin" : "read")) return -1;
    if (o->kind == 0 && !o->red) { o->red = true; ev("RE\t" + cur->name + "\t" + o->path); }
    const string &d = o->kind == 1 ? invs[o->inv].in : o->ino->data; size_t &off = o->kind == 1 ? invs[o->inv].inpos : o->off;
    size_t a = off < d.size() ? d.size() - off : 0; if (a > n) a = n;
    if (a > 1) { size_t lim = a; uint64_t h = mix(W_seed ^ 0x51 ^ (cur->id * 65537ull + cur->calls)); if (h % 1000 < (uint64_t)W_shortr) { lim = 1 + (h >> 20) % (((h >> 12) & 3) ? a : (a < 9 ? a : 9)); }
        if (f && f->kind == F_SHORT) lim = 1 + (uint64_t)f->arg % a;
        if (lim < a) { if (f && f->kind == F_SHORT) fired(*f, "short-read"); else stats["fault:short-read"]++; a = lim; } }
    if (a) memcpy(b, d.data() + off, a); off += a; return a;
}
static ssize_t k_write(int fd, const char *b, size_t n) {
    Fault *f = sc('w'); auto it = cur->fds.find(fd); if (it == cur->fds.end() || !it->second->wr) return fail(EBADF);
    if (n && ((uintptr_t)b < 65536 || n > (64u << 20))) return fail(EFAULT);
    OpenFile *o = it->second; const char *nm = o->kind == 2 ? "write-stdout" : o->kind == 3 ? "write-stderr" : "write";
    if (f && f->kind == F_ERRNO && f->arg == EPIPE) { if (o->kind == 0) f = nullptr; else { fired(*f, string(nm) + ":SIGPIPE"); if (!cur->sigh.count(SIGPIPE)) end_now(SIGPIPE); cur->err = EPIPE; return -1; } }
    if (ferr(f, nm)) return -1;
    size_t a = n;
    if (a > 1) { size_t lim = a; uint64_t h = mix(W_seed ^ 0x77 ^ (cur->id * 65537ull + cur->calls)); if (h % 1000 < (uint64_t)W_shortw) lim = 1 + (h >> 20) % (((h >> 12) & 3) ? a : (a < 9 ? a : 9));
        if (f && f->kind == F_SHORT) lim = 1 + (uint64_t)f->arg % a;
        if (lim < a) { if (f && f->kind == F_SHORT) fired(*f, "short-write"); else stats["fault:short-write"]++; a = lim; } }
    if (o->kind == 2) { invs[o->inv].out.append(b, a); return a; }
    if (o->kind == 3) { invs[o->inv].err.append(b, a); return a; }
    Ino i = o->ino; size_t off = o->app ? i->data.size() : o->off; int64_t grow = (int64_t)(off + a) - (int64_t)i->data.size();
    if (disk_left >= 0 && grow > disk_left && a) { int64_t ok = (int64_t)a - (grow - disk_left); if (ok <= 0) { stats["fault:write:ENOSPC(full disk)"]++; return fail(ENOSPC); } a = ok; grow = disk_left; }
    if (grow > 0) charge(grow);
    if (i->data.size() < off) i->data.resize(off);
    i->data.replace(off, std::min(a, i->data.size() - off), b, a); o->off = off + a; i->mtime = W_now / 1000000000;
    if (!o->wrote) { o->wrote = true; ev("WR\t" + cur->name + "\t" + o->path); }
    return a;
}
static void deref(OpenFile *o) { if (--o->ref == 0) delete o; }
static int k_close(int fd) {
    Fault *f = sc('c'); auto it = cur->fds.find(fd); if (it == cur->fds.end()) return fail(EBADF);
    OpenFile *o = it->second; cur->fds.erase(it); int rc = 0;
    if (f && f->kind == F_ERRNO && o->wr) { fired(*f, string("close:") + en(f->arg)); rc = fail(f->arg); }
    if (f && f->kind == F_CLOSELOSE && o->wrote && o->kind == 0) { fired(*f, "close:EIO-data-lost"); size_t cut = std::min<size_t>(o->ino->data.size(), 1 + f->arg % (o->ino->data.size() + 1)); o->ino->data.resize(o->ino->data.size() - cut); rc = fail(EIO); }
    deref(o); return rc;
}
static int k_unlink(const char *path) {
    Fault *f = sc('u'); if (ferr(f, "unlink")) return -1;
    string abs; Ino n = nullptr; int e = walk(cur->cwd, path, abs, n); if (e) return fail(e); if (!n) return fail(ENOENT); if (n->dir) return fail(EISDIR);
    Ino d = look(parent_of(abs)); if (d && (d->flags & 1)) return fail(EACCES);
    ev("UN\t" + cur->name + "\t" + abs + "\t" + I(n->creator)); fs.erase(abs); if (--n->nlink == 0) charge(-(int64_t)n->data.size()); return 0;
}
static int k_stat(const char *path, struct stat *st) {
    Fault *f = sc('s'); if (ferr(f, "stat")) return -1;
    string abs; Ino n = nullptr; int e = walk(cur->cwd, path, abs, n); if (e) return fail(e); if (!n) return fail(ENOENT);
    memset(st, 0, sizeof *st); st->st_mode = n->dir ? S_IFDIR | 0755 : S_IFREG | ((n->flags & 1) ? 0444 : 0644); st->st_size = n->data.size(); st->st_ino = n->ino; st->st_dev = 42; st->st_nlink = n->nlink; st->st_mtime = n->mtime; st->st_ctime = n->mtime; st->st_atime = n->mtime; st->st_blksize = 4096; st->st_blocks = (n->data.size() + 511) / 512; return 0;
}

// ---------------------------------------------------------------- allocator
static char *raw_alloc(Proc *p, size_t n) {
    if (n > (size_t)HEAPCAP || p->brk + n + 96 > (size_t)HEAPCAP) return nullptr;
    uint64_t hr = mix(p->memsalt ^ (p->nraw++ * 31));
    if (n <= 512 && hr % 3 == 0 && !p->holes.empty()) {       // below what was handed out before
        auto &h = p->holes.back(); size_t a = (h.first + 16 + 15) & ~15ull, e = a + ((n + 15) & ~15ull) + 16;
        if (e <= h.second) { char *b = p->reg->heap + a; *(uint64_t *)(b - 16) = n; *(uint64_t *)(b - 8) = 0x5a11c0de; h.first = e; return b; }
        p->holes.pop_back();
    }
    if (n <= 4096 && (hr >> 8) % 24 == 0 && p->holes.size() < 16) { size_t hs = 256 + (hr >> 16) % 64 * 16; if (p->brk + hs + n + 96 <= (size_t)HEAPCAP) { p->holes.push_back({p->brk, p->brk + hs}); garbage(p->reg->heap + p->brk, hs, p->memsalt + hr); p->brk += hs; } }
    size_t a = (p->brk + 16 + 15) & ~15ull; char *b = p->reg->heap + a; *(uint64_t *)(b - 16) = n; *(uint64_t *)(b - 8) = 0x5a11c0de;
    size_t gap = 16 + mix(p->memsalt + a) % 3 * 16; p->brk = a + ((n + 15) & ~15ull) + gap;
    char *e = b + n; garbage(e, p->reg->heap + p->brk - e, p->memsalt + a); return b;
}
static uint64_t alloc_ctx() {   // which calls led to this allocation
    uintptr_t *f = (uintptr_t *)__builtin_frame_address(0); uintptr_t lo = (uintptr_t)cur->reg->stk, hi = (uintptr_t)stk_top(cur->reg); uint64_t h = 0;
    for (int i = 0; i < 3 && (uintptr_t)f >= lo && (uintptr_t)f + 16 <= hi && !((uintptr_t)f & 7); i++) { h = mix(h ^ f[1]); uintptr_t *g = (uintptr_t *)f[0]; if (g <= f) break; f = g; }
    return h;
}
static bool __attribute__((noinline)) alloc_fault() {
    Proc *p = cur; int64_t n = p->allocs++; if (W_wantctx) p->actx.push_back(alloc_ctx());
    if (p->allocdead) { stats["fault:alloc-failed(from)"]++; p->err = ENOMEM; return true; }
    for (auto &f : faults) if (f.trig == 'A' && f.n == n && !f.fired && f.proc == p->name) { if (f.kind == F_ALLOCFROM) p->allocdead = true; fired(f, f.kind == F_ALLOCFROM ? "alloc-from-here" : "alloc"); p->err = ENOMEM; return true; }
    return false;
}
static char *dirty(size_t n) { char *b = raw_alloc(cur, n); if (!b) { cur->err = ENOMEM; return nullptr; } garbage(b, n, cur->memsalt + cur->allocs * 7); return b; }

// ---------------------------------------------------------------------- API
extern "C" {
#define H ((uintptr_t)0x7f00dead0000ull)
FILE *sim_stdin = (FILE *)H, *sim_stdout = (FILE *)(H + 4096), *sim_stderr = (FILE *)(H + 8192);
static void badstream() { end_now(SIGSEGV); }
static Stream &S(FILE *f) { uintptr_t k = ((uintptr_t)f - H) / 4096; if ((uintptr_t)f < H || ((uintptr_t)f - H) % 4096 || k >= cur->streams.size() || !cur->streams[k].open) { ev("BADFILE\t" + cur->name); badstream(); } return cur->streams[k]; }
static FILE *addstream(const Stream &s) { for (size_t i = 3; i < cur->streams.size(); i++) if (!cur->streams[i].open && cur->streams[i].fd == -2) { cur->streams[i] = s; return (FILE *)(H + i * 4096); } cur->streams.push_back(s); return (FILE *)(H + (cur->streams.size() - 1) * 4096); }
int *sim___errno_location(void) { return &cur->err; }

void *sim_malloc(size_t n) { if (alloc_fault()) return nullptr; return dirty(n); }
void *sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { cur->err = ENOMEM; return nullptr; } if (alloc_fault()) return nullptr; char *p = dirty(n); if (p) memset(p, 0, n); return p; }
void sim_free(void *p) { if (!p) return; char *b = (char *)p; if (b < cur->reg->heap || b >= cur->reg->heap + cur->brk || *(uint64_t *)(b - 8) != 0x5a11c0de) { ev("BADFREE\t" + cur->name); end_now(SIGABRT); } *(uint64_t *)(b - 8) = 0xf4ee; garbage(b, *(uint64_t *)(b - 16), cur->memsalt + 99); }
void *sim_realloc(void *p, size_t n) { if (alloc_fault()) return nullptr; char *b = dirty(n); if (!b) return nullptr; if (p) { if (*(uint64_t *)((char *)p - 8) != 0x5a11c0de) { ev("BADREALLOC\t" + cur->name); end_now(SIGABRT); } size_t o = *(uint64_t *)((char *)p - 16); memcpy(b, p, std::min(o, n)); sim_free(p); } return b; }
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { cur->err = ENOMEM; return nullptr; } return sim_realloc(p, n); }
void *sim_aligned_alloc(size_t al, size_t n) { if (alloc_fault()) return nullptr; if (al > 16) { char *b = dirty(n + al); if (!b) return b; return (void *)(((uintptr_t)b + al - 1) & ~(al - 1)); } return dirty(n); }
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
char *sim_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); if (alloc_fault()) return nullptr; char *b = dirty(l + 1); if (b) { memcpy(b, s, l); b[l] = 0; } return b; }
char *sim_strdup(const char *s) { return sim_strndup(s, strlen(s)); }

// -------- stdio
static int sflush(Stream &s) {            // like glibc: what could not be written is dropped, the error flag is set
    if (s.mem) return 0;
    size_t off = 0;
    while (off < s.w.size()) { ssize_t k = k_write(s.fd, s.w.data() + off, s.w.size() - off); if (k < 0) { s.err = true; s.w.clear(); return -1; } off += k; }
    s.w.clear(); return 0;
}
static size_t mem_put(Stream &s, const char *b, size_t n) {
    size_t done = 0;
    while (done < n) {
        if (s.data.size() >= s.cap) { if (alloc_fault()) return done; s.cap = 2 * s.cap + 100; if (s.cap > (size_t)HEAPCAP / 2) { cur->err = ENOMEM; return done; } }
        size_t k = std::min(n - done, s.cap - s.data.size()); s.data.append(b + done, k); done += k; }
    return done;
}
static size_t sput(FILE *fp, const char *b, size_t n) {
    Stream &s = S(fp); if (!n) return 0;
    if (s.mem) return mem_put(s, b, n);
    if (!s.wr) { s.err = true; cur->err = EBADF; return 0; }
    if (s.unbuf) { s.w.assign(b, n); return sflush(s) ? 0 : n; }
    size_t done = 0;
    while (done < n) {
        size_t room = 4096 - s.w.size();
        if (!room) { if (sflush(s)) return done; room = 4096; }
        if (s.w.empty() && n - done >= 4096) { size_t blk = (n - done) & ~4095ull; size_t o = 0; while (o < blk) { ssize_t k = k_write(s.fd, b + done + o, blk - o); if (k < 0) { s.err = true; return done + o; } o += k; } done += blk; continue; }
        size_t k = std::min(room, n - done); s.w.append(b + done, k); done += k; }
    if (s.line && memchr(b, '\n', n)) if (sflush(s)) return 0;
    return n;
}
static int sfill(Stream &s) { char t[4096]; ssize_t k = k_read(s.fd, t, 4096); if (k < 0) { s.err = true; return -1; } if (!k) { s.eof = true; return -1; } s.r.assign(t, k); s.rp = 0; return 0; }
static size_t sget(FILE *fp, char *b, size_t n) {
    Stream &s = S(fp); if (!s.rd) { s.err = true; cur->err = EBADF; return 0; } size_t done = 0;
    if (n && s.unget >= 0) { b[done++] = s.unget; s.unget = -1; }
    while (done < n) { size_t a = s.r.size() - s.rp; if (a) { size_t k = std::min(a, n - done); memcpy(b + done, s.r.data() + s.rp, k); s.rp += k; done += k; continue; }
        if (n - done >= 4096) { size_t want = (n - done) & ~4095ull; ssize_t k = k_read(s.fd, b + done, want); if (k < 0) { s.err = true; break; } if (!k) { s.eof = true; break; } done += k; continue; }
        if (sfill(s)) break; }
    return done;
}
static int parse_mode(const char *m, bool &rd, bool &wr) { int fl = 0; bool plus = strchr(m, '+'); rd = wr = false; switch (m[0]) { case 'r': rd = true; wr = plus; break; case 'w': wr = true; rd = plus; fl = O_CREAT | O_TRUNC; break; case 'a': wr = true; rd = plus; fl = O_CREAT | O_APPEND; break; default: return -1; } if (strchr(m, 'x')) fl |= O_EXCL; return fl | (rd && wr ? O_RDWR : wr ? O_WRONLY : O_RDONLY); }
FILE *sim_fopen(const char *path, const char *mode) { bool r, w; int fl = parse_mode(mode, r, w); if (fl < 0) { cur->err = EINVAL; return nullptr; } if (alloc_fault()) return nullptr; int fd = k_open(path, fl, "fopen"); if (fd < 0) return nullptr; Stream s; s.open = true; s.fd = fd; s.rd = r; s.wr = w; return addstream(s); }
FILE *sim_fdopen(int fd, const char *mode) { bool r, w; int fl = parse_mode(mode, r, w); if (fl < 0) { cur->err = EINVAL; return nullptr; } if (!cur->fds.count(fd)) { cur->err = EBADF; return nullptr; } if (alloc_fault()) return nullptr; Stream s; s.open = true; s.fd = fd; s.rd = r; s.wr = w; return addstream(s); }
FILE *sim_open_memstream(char **bp, size_t *sp) { if (alloc_fault()) return nullptr; if (alloc_fault()) return nullptr; Stream s; s.open = true; s.mem = s.wr = true; s.bp = bp; s.sp = sp; s.cap = 8191; return addstream(s); }
static void mem_sync(Stream &s, bool last) {
    char *b; if (last) { if (alloc_fault()) { *s.bp = nullptr; return; } }
    b = dirty(s.data.size() + 1); if (!b) { *s.bp = nullptr; return; } memcpy(b, s.data.data(), s.data.size()); b[s.data.size()] = 0; *s.bp = b; *s.sp = s.data.size();
}
int sim_fflush(FILE *f) { if (!f) { int rc = 0; for (auto &s : cur->streams) if (s.open && s.wr) { if (s.mem) mem_sync(s, false); else if (sflush(s)) rc = -1; } return rc; } Stream &s = S(f); if (s.mem) { mem_sync(s, false); return 0; } return sflush(s); }
int sim_fclose(FILE *f) { Stream *s = &S(f); int rc = 0; if (s->mem) mem_sync(*s, true); else { if (s->wr) rc |= sflush(*s); s = &S(f); if (k_close(s->fd)) rc = -1; s = &S(f); } bool std = ((uintptr_t)f - H) / 4096 < 3; *s = Stream(); s->fd = std ? -1 : -2; return rc; }
int sim_ferror(FILE *f) { return S(f).err; }
int sim_feof(FILE *f) { return S(f).eof; }
void sim_clearerr(FILE *f) { Stream &s = S(f); s.err = s.eof = false; }
int sim_fileno(FILE *f) { Stream &s = S(f); if (s.mem) return fail(EBADF); return s.fd; }
size_t sim_fwrite(const void *b, size_t sz, size_t n, FILE *f) { if (!sz || !n) { S(f); return 0; } size_t k = sput(f, (const char *)b, sz * n); return k == sz * n ? n : k / sz; }
size_t sim_fread(void *b, size_t sz, size_t n, FILE *f) { if (!sz || !n) return 0; return sget(f, (char *)b, sz * n) / sz; }
int sim_fputc(int c, FILE *f) { char b = c; return sput(f, &b, 1) == 1 ? (unsigned char)c : EOF; }
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
int sim_fputs(const char *s, FILE *f) { size_t n = strlen(s); return sput(f, s, n) == n ? 1 : EOF; }
int sim_puts(const char *s) { if (sim_fputs(s, sim_stdout) < 0) return EOF; return sim_fputc('\n', sim_stdout) < 0 ? EOF : 1; }
int sim_fgetc(FILE *f) { unsigned char c; return sget(f, (char *)&c, 1) == 1 ? c : EOF; }
int sim_getc(FILE *f) { return sim_fgetc(f); }
int sim_getchar(void) { return sim_fgetc(sim_stdin); }
int sim_ungetc(int c, FILE *f) { if (c < 0) return EOF; Stream &s = S(f); s.unget = (unsigned char)c; s.eof = false; return c; }
char *sim_fgets(char *b, int n, FILE *f) { int i = 0; while (i < n - 1) { int c = sim_fgetc(f); if (c < 0) break; b[i++] = c; if (c == '\n') break; } if (!i || S(f).err) return nullptr; b[i] = 0; return b; }
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) {
    S(f); errno = cur->err; char small[512]; va_list aq; va_copy(aq, ap); int n = vsnprintf(small, sizeof small, fmt, aq); va_end(aq); if (n < 0) return n;
    if (n < (int)sizeof small) return sput(f, small, n) == (size_t)n ? n : -1;
    string *s = new string; s->resize(n + 1); vsnprintf(&(*s)[0], n + 1, fmt, ap); int rc = sput(f, s->data(), n) == (size_t)n ? n : -1; delete s; return rc;
}
int sim_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(sim_stdout, fmt, ap); }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return r; }
int sim_vdprintf(int fd, const char *fmt, va_list ap) { char small[2048]; int n = vsnprintf(small, sizeof small, fmt, ap); if (n < 0) return n; if (n >= (int)sizeof small) n = sizeof small - 1; int o = 0; while (o < n) { ssize_t k = k_write(fd, small + o, n - o); if (k < 0) return -1; o += k; } return n; }
int sim_dprintf(int fd, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vdprintf(fd, fmt, ap); va_end(ap); return r; }
int sim_vasprintf(char **out, const char *fmt, va_list ap) { va_list aq; va_copy(aq, ap); int n = vsnprintf(nullptr, 0, fmt, aq); va_end(aq); if (n < 0) return n; char *b = (char *)sim_malloc(n + 1); if (!b) return -1; vsnprintf(b, n + 1, fmt, ap); *out = b; return n; }
int sim_asprintf(char **out, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vasprintf(out, fmt, ap); va_end(ap); return r; }
void sim_perror(const char *m) { sim_fprintf(sim_stderr, "%s: %s\n", m, strerror(cur->err)); }
ssize_t sim_getdelim(char **l, size_t *cap, int d, FILE *f) { size_t n = 0; for (;;) { int c = sim_fgetc(f); if (c < 0) { if (!n) return -1; break; } if (n + 2 > *cap || !*l) { size_t nc = *l ? *cap * 2 + 120 : 120; char *b = (char *)sim_realloc(*l, nc); if (!b) return -1; *l = b; *cap = nc; } (*l)[n++] = c; if (c == d) break; } (*l)[n] = 0; return n; }
ssize_t sim_getline(char **l, size_t *cap, FILE *f) { return sim_getdelim(l, cap, '\n', f); }
int sim_setvbuf(FILE *f, char *, int mode, size_t) { Stream &s = S(f); s.unbuf = mode == _IONBF; s.line = mode == _IOLBF; return 0; }
void sim_setbuf(FILE *f, char *b) { sim_setvbuf(f, b, b ? _IOFBF : _IONBF, 0); }
static off_t k_lseek(int fd, off_t o, int wh) { sc('k'); auto it = cur->fds.find(fd); if (it == cur->fds.end()) return fail(EBADF); OpenFile *f = it->second; if (f->kind) return fail(ESPIPE); off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)f->off : (off_t)f->ino->data.size(); if (b + o < 0) return fail(EINVAL); f->off = b + o; return f->off; }
off_t sim_lseek(int fd, off_t o, int wh) { return k_lseek(fd, o, wh); }
int sim_fseek(FILE *f, long o, int wh) { Stream *s = &S(f); if (s->mem) { size_t b = wh == SEEK_SET ? 0 : s->data.size(); if (wh == SEEK_SET && o == 0) { s->data.clear(); } (void)b; return 0; } if (s->wr && sflush(*s)) return -1; s = &S(f); if (wh == SEEK_CUR) o -= s->r.size() - s->rp; s->r.clear(); s->rp = 0; s->eof = false; s->unget = -1; return k_lseek(s->fd, o, wh) < 0 ? -1 : 0; }
int sim_fseeko(FILE *f, off_t o, int wh) { return sim_fseek(f, o, wh); }
long sim_ftell(FILE *f) { Stream &s = S(f); if (s.mem) return s.data.size(); off_t o = k_lseek(s.fd, 0, SEEK_CUR); if (o < 0) return -1; Stream &t = S(f); return o + t.w.size() - (t.r.size() - t.rp); }
off_t sim_ftello(FILE *f) { return sim_ftell(f); }
void sim_rewind(FILE *f) { sim_fseek(f, 0, SEEK_SET); S(f).err = false; }
FILE *sim_freopen(const char *p, const char *m, FILE *f) { Stream &s = S(f); if (s.wr) sflush(s); k_close(S(f).fd); bool r, w; int fl = parse_mode(m, r, w); int fd = k_open(p, fl, "freopen"); if (fd < 0) { S(f) = Stream(); return nullptr; } Stream t; t.open = true; t.fd = fd; t.rd = r; t.wr = w; S(f) = t; return f; }

// -------- files
int sim_open(const char *p, int fl, ...) { return k_open(p, fl, "open"); }
int sim_openat(int, const char *p, int fl, ...) { return k_open(p, fl, "openat"); }
int sim_creat(const char *p, mode_t) { return k_open(p, O_CREAT | O_WRONLY | O_TRUNC, "creat"); }
ssize_t sim_read(int fd, void *b, size_t n) { return k_read(fd, (char *)b, n); }
ssize_t sim_write(int fd, const void *b, size_t n) { return k_write(fd, (const char *)b, n); }
int sim_close(int fd) { return k_close(fd); }
int sim_unlink(const char *p) { return k_unlink(p); }
int sim_unlinkat(int, const char *p, int) { return k_unlink(p); }
int sim_rmdir(const char *p) { sc('d'); string abs; Ino n = nullptr; int e = walk(cur->cwd, p, abs, n); if (e) return fail(e); if (!n) return fail(ENOENT); if (!n->dir) return fail(ENOTDIR); auto it = fs.upper_bound(abs); if (it != fs.end() && it->first.compare(0, abs.size() + 1, abs + "/") == 0) return fail(ENOTEMPTY); ev("RD\t" + cur->name + "\t" + abs); fs.erase(abs); return 0; }
int sim_remove(const char *p) { string abs; Ino n = nullptr; if (!walk(cur->cwd, p, abs, n) && n && n->dir) return sim_rmdir(p); return k_unlink(p); }
int sim_stat(const char *p, struct stat *st) { return k_stat(p, st); }
int sim_lstat(const char *p, struct stat *st) { return k_stat(p, st); }
int sim_fstatat(int, const char *p, struct stat *st, int) { return k_stat(p, st); }
int sim_fstat(int fd, struct stat *st) { Fault *f = sc('s'); if (ferr(f, "fstat")) return -1; auto it = cur->fds.find(fd); if (it == cur->fds.end()) return fail(EBADF); memset(st, 0, sizeof *st); OpenFile *o = it->second; if (!o->ino) { st->st_mode = S_IFIFO | 0600; return 0; } st->st_mode = o->ino->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = o->ino->data.size(); st->st_ino = o->ino->ino; st->st_mtime = o->ino->mtime; st->st_nlink = 1; st->st_blksize = 4096; return 0; }
int sim_access(const char *p, int m) { Fault *f = sc('s'); if (ferr(f, "access")) return -1; string abs; Ino n = nullptr; int e = walk(cur->cwd, p, abs, n); if (e) return fail(e); if (!n) return fail(ENOENT); if ((m & W_OK) && (n->flags & 1)) return fail(EACCES); if ((m & R_OK) && (n->flags & 2)) return fail(EACCES); return 0; }
int sim_rename(const char *a, const char *b) { Fault *f = sc('n'); if (ferr(f, "rename")) return -1; string pa, pb; Ino na = nullptr, nb = nullptr; int e = walk(cur->cwd, a, pa, na); if (e) return fail(e); e = walk(cur->cwd, b, pb, nb); if (e) return fail(e); if (!na) return fail(ENOENT); if (nb && nb->dir) return fail(EISDIR); Ino d = look(parent_of(pb)); if (!d || !d->dir) return fail(ENOENT); ev("RN\t" + cur->name + "\t" + pa + "\t" + pb + "\t" + I(na->creator) + "\t" + I(nb ? nb->creator : -2)); if (na == nb) return 0; fs.erase(pa); fs[pb] = na; return 0; }
int sim_link(const char *a, const char *b) { Fault *f = sc('n'); if (ferr(f, "link")) return -1; string pa, pb; Ino na = nullptr, nb = nullptr; int e = walk(cur->cwd, a, pa, na); if (e) return fail(e); e = walk(cur->cwd, b, pb, nb); if (e) return fail(e); if (!na) return fail(ENOENT); if (nb) return fail(EEXIST); fs[pb] = na; na->nlink++; ev("LN\t" + cur->name + "\t" + pa + "\t" + pb); return 0; }
int sim_mkdir(const char *p, mode_t) { Fault *f = sc('d'); if (ferr(f, "mkdir")) return -1; string abs; Ino n = nullptr; int e = walk(cur->cwd, p, abs, n); if (e) return fail(e); if (n) return fail(EEXIST); if (!look(parent_of(abs))) return fail(ENOENT); Ino d = mkino(true); d->creator = cur->inv; fs[abs] = d; ev("MD\t" + cur->name + "\t" + abs); return 0; }
int sim_ftruncate(int fd, off_t l) { Fault *f = sc('d'); if (ferr(f, "ftruncate")) return -1; auto it = cur->fds.find(fd); if (it == cur->fds.end() || it->second->kind || !it->second->wr) return fail(EBADF); it->second->ino->data.resize(l); return 0; }
int sim_truncate(const char *p, off_t l) { Fault *f = sc('d'); if (ferr(f, "truncate")) return -1; string abs; Ino n = nullptr; int e = walk(cur->cwd, p, abs, n); if (e) return fail(e); if (!n) return fail(ENOENT); n->data.resize(l); ev("OW\t" + cur->name + "\t" + abs + "\ttrunc\ttruncate"); return 0; }
int sim_fsync(int fd) { Fault *f = sc('y'); if (ferr(f, "fsync")) return -1; (void)fd; return 0; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_chmod(const char *, mode_t) { sc('d'); return 0; }
int sim_fchmod(int, mode_t) { sc('d'); return 0; }
mode_t sim_umask(mode_t m) { mode_t o = cur->umask; cur->umask = m; return o; }
// what else a process can ask about its surroundings: "?name=value" entries of the invocation's environment
static string where(const char *n, const char *d) { size_t l = strlen(n); for (auto &e : invs[cur->inv].env) if (e[0] == '?' && e.compare(1, l, n) == 0 && e[l + 1] == '=') return e.substr(l + 2); return d; }
static int64_t wherei(const char *n, int64_t d) { string v = where(n, ""); return v.empty() ? d : atoll(v.c_str()); }
int sim_isatty(int fd) { if (fd >= 0 && fd < 3 && wherei("tty", 0) >> fd & 1) return 1; cur->err = ENOTTY; return 0; }
int sim_getuid(void) { return wherei("uid", 0); } int sim_geteuid(void) { return wherei("uid", 0); } int sim_getgid(void) { return wherei("uid", 0); } int sim_getegid(void) { return wherei("uid", 0); }
long sim_sysconf(int k) { if (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF) return wherei("ncpu", 8); if (k == _SC_PHYS_PAGES || k == _SC_AVPHYS_PAGES) return wherei("ncpu", 8) << 18; if (k == _SC_OPEN_MAX) return wherei("lim", 1024); if (k == _SC_CHILD_MAX) return wherei("lim", 1024) * 8; return sysconf(k); }
int sim_get_nprocs(void) { return wherei("ncpu", 8); } int sim_get_nprocs_conf(void) { return wherei("ncpu", 8); }
int sim_getrlimit(int k, struct rlimit *r) { int64_t v = wherei("lim", 1024); r->rlim_cur = r->rlim_max = v < 0 ? RLIM_INFINITY : k == RLIMIT_NOFILE ? v : k == RLIMIT_CORE ? 0 : v << 13; return 0; }
int sim_getrlimit64(int k, struct rlimit *r) { return sim_getrlimit(k, r); }
int sim_gethostname(char *b, size_t n) { string h = where("host", "sim"); strncpy(b, h.c_str(), n); return 0; }
int sim_uname(struct utsname *u) { memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->nodename, where("host", "sim").c_str()); strcpy(u->release, wherei("ncpu", 8) > 8 ? "6.8.0" : "5.4.0"); strcpy(u->machine, "x86_64"); return 0; }
int sim_getrusage(int, struct rusage *u) { memset(u, 0, sizeof *u); u->ru_utime.tv_sec = W_now / 1000000000; u->ru_utime.tv_usec = W_now / 1000 % 1000000; u->ru_maxrss = (cur->allocs + 900) * wherei("ncpu", 8); return 0; }
clock_t sim_times(struct tms *t) { if (t) { memset(t, 0, sizeof *t); t->tms_utime = W_now / 10000000; } return W_now / 10000000; }
int sim_dup(int fd) { sc('d'); auto it = cur->fds.find(fd); if (it == cur->fds.end()) return fail(EBADF); OpenFile *o = it->second; o->ref++; int n = newfd(); cur->fds[n] = o; return n; }
int sim_dup2(int a, int b) { sc('d'); auto it = cur->fds.find(a); if (it == cur->fds.end()) return fail(EBADF); if (a == b) return b; OpenFile *o = it->second; o->ref++; auto jt = cur->fds.find(b); if (jt != cur->fds.end()) deref(jt->second); cur->fds[b] = o; return b; }
char *sim_getcwd(char *b, size_t n) { if (!b) return sim_strdup(cur->cwd.c_str()); if (n <= cur->cwd.size()) { cur->err = ERANGE; return nullptr; } strcpy(b, cur->cwd.c_str()); return b; }
int sim_chdir(const char *p) { sc('d'); string abs; Ino n = nullptr; int e = walk(cur->cwd, p, abs, n); if (e) return fail(e); if (!n) return fail(ENOENT); if (!n->dir) return fail(ENOTDIR); cur->cwd = abs; return 0; }
char *sim_realpath(const char *p, char *o) { Fault *f = sc('s'); if (ferr(f, "realpath")) return nullptr; string abs; Ino n = nullptr; int e = walk(cur->cwd, p, abs, n); if (!e && !n) e = ENOENT; if (e) { cur->err = e; return nullptr; } if (!o) return sim_strdup(abs.c_str()); strcpy(o, abs.c_str()); return o; }
char *sim_canonicalize_file_name(const char *p) { return sim_realpath(p, nullptr); }
static uint64_t nrand() { return mix(W_seed ^ (cur->id * 1315423911ull) ^ (cur->calls << 20) ^ cur->rnd++); }
static int tmpname(char *t, bool create, int suf = 0, int extra = 0) {
    size_t l = strlen(t); if ((int)l < 6 + suf || memcmp(t + l - 6 - suf, "XXXXXX", 6)) return fail(EINVAL);
    static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    Fault *f = sc('m');
    if (ferr(f, "mkstemp")) {
        // the template is left as the last name tried, somebody else's file if it existed
        char *x = t + l - 6 - suf; for (int i = 0; i < 6; i++) x[i] = al[nrand() % 62];
        if (cur->err == EEXIST) { string pre = norm(cur->cwd, t); pre.resize(pre.size() - 6 - suf); vector<string> v; for (auto it = fs.lower_bound(pre); it != fs.end() && !it->first.compare(0, pre.size(), pre); ++it) if (it->first.size() == pre.size() + 6 + suf) v.push_back(it->first); if (!v.empty()) memcpy(x, v[nrand() % v.size()].data() + pre.size(), 6); }
        return -1;
    }
    for (int tr = 0; tr < 200; tr++) {
        // a small name space on request, so that names meet stale files
        bool few = W_reuse && tr < 60; int m = few ? 4 : 62; for (int i = 0; i < 6; i++) t[l - 6 - suf + i] = (few && i < 3) ? 'a' : al[nrand() % m];
        string abs; Ino n = nullptr; int e = walk(cur->cwd, t, abs, n); if (e) return fail(e); if (n) { stats["probe:mkstemp-name-taken"]++; continue; }
        if (!create) return 0;
        Ino d = look(parent_of(abs)); if (!d) return fail(ENOENT); if (d->flags & 1) return fail(EACCES);
        n = mkino(false); n->creator = cur->inv; fs[abs] = n; OpenFile *o = new OpenFile; o->ino = n; o->path = abs; o->rd = o->wr = true; o->inv = cur->inv;
        ev("OW\t" + cur->name + "\t" + abs + "\tnew\tmkstemp"); int fd = newfd(); cur->fds[fd] = o; return fd;
    }
    return fail(EEXIST);
}
int sim_mkstemp(char *t) { return tmpname(t, true); }
int sim_mkostemp(char *t, int) { return tmpname(t, true); }
int sim_mkstemps(char *t, int s) { return tmpname(t, true, s); }
char *sim_mktemp(char *t) { if (tmpname(t, false) < 0) *t = 0; return t; }
char *sim_tmpnam(char *b) { static char st[64]; char t[64]; strcpy(t, "/tmp/fileXXXXXX"); tmpname(t, false); char *o = b ? b : st; strcpy(o, t); return o; }
char *sim_tempnam(const char *d, const char *p) { string s = string(d ? d : "/tmp") + "/" + (p ? p : "file") + "XXXXXX"; char t[256]; snprintf(t, sizeof t, "%s", s.c_str()); tmpname(t, false); return sim_strdup(t); }
FILE *sim_tmpfile(void) { char t[64] = "/tmp/fileXXXXXX"; int fd = tmpname(t, true); if (fd < 0) return nullptr; string abs = norm(cur->cwd, t); fs.erase(abs); ev("UN\t" + cur->name + "\t" + abs + "\t" + I(cur->inv)); return sim_fdopen(fd, "w+"); }
char *sim_mkdtemp(char *t) { if (tmpname(t, false) < 0) return nullptr; return sim_mkdir(t, 0700) ? nullptr : t; }
static bool wild(const char *p, const char *s) { for (; *p; p++, s++) { if (*p == '*') { for (;; s++) { if (wild(p + 1, s)) return true; if (!*s || *s == '/') return false; } } if (*p == '?') { if (!*s || *s == '/') return false; } else if (*p != *s) return false; } return !*s; }
int sim_glob(const char *pat, int, int (*)(const char *, int), glob_t *g) {
    Fault *f = sc('g'); g->gl_pathc = 0; g->gl_pathv = nullptr; if (f && (f->kind == F_ERRNO || f->kind == F_GLOBNONE)) { fired(*f, "glob-fails"); return GLOB_ABORTED; }
    bool rel = pat[0] != '/'; string pre = cur->cwd == "/" ? "/" : cur->cwd + "/"; int n = 0, k = 0; string ap = rel ? norm(cur->cwd, pat) : pat;
    bool dots = rel && !strncmp(pat, "./", 2);
    for (auto &e : fs) if (wild(ap.c_str(), e.first.c_str())) n++;
    if (!n) return GLOB_NOMATCH; if (alloc_fault()) return GLOB_NOSPACE; char **v = (char **)dirty((n + 1) * sizeof(char *)); if (!v) return GLOB_NOSPACE;
    for (auto &e : fs) if (wild(ap.c_str(), e.first.c_str())) { string nm = rel ? (dots ? "./" : "") + e.first.substr(pre.size()) : e.first; char *c = dirty(nm.size() + 1); strcpy(c, nm.c_str()); v[k++] = c; }
    v[k] = nullptr; g->gl_pathc = n; g->gl_pathv = v; return 0;
}
void sim_globfree(glob_t *g) { if (g->gl_pathv) { for (size_t i = 0; i < g->gl_pathc; i++) garbage(g->gl_pathv[i], strlen(g->gl_pathv[i]) + 1, 77); sim_free(g->gl_pathv); } g->gl_pathv = nullptr; g->gl_pathc = 0; }
struct SimDir { int idx; };
static vector<std::pair<vector<string>, size_t>> *dirs = nullptr;
DIR *sim_opendir(const char *p) { int fd = k_open(p, O_RDONLY | O_DIRECTORY, "opendir"); if (fd < 0) return nullptr; string abs = cur->fds[fd]->path; deref(cur->fds[fd]); cur->fds.erase(fd); vector<string> v; v.push_back("."); v.push_back(".."); string pre = abs == "/" ? "/" : abs + "/"; for (auto &e : fs) if (e.first.compare(0, pre.size(), pre) == 0 && e.first.find('/', pre.size()) == string::npos && e.first.size() > pre.size()) v.push_back(e.first.substr(pre.size())); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[mix(W_seed ^ i ^ 0xd1) % i]); if (!dirs) dirs = new vector<std::pair<vector<string>, size_t>>; dirs->push_back({v, 0}); return (DIR *)dirs->size(); }
struct dirent *sim_readdir(DIR *d) { auto &e = (*dirs)[(size_t)d - 1]; if (e.second >= e.first.size()) return nullptr; struct dirent *de = (struct dirent *)dirty(sizeof *de); memset(de, 0, sizeof *de); snprintf(de->d_name, sizeof de->d_name, "%s", e.first[e.second++].c_str()); return de; }
int sim_closedir(DIR *) { return 0; }

// -------- processes
[[noreturn]] void sim__exit(int c) {
    // what the kernel closes is closed all the same, with nobody left to hear that it failed
    vector<int> own; for (auto &f : cur->fds) if (f.second->kind == 0 && f.second->wrote && f.second->ref == 1) own.push_back(f.first);
    for (int fd : own) k_close(fd);
    sc('x'); end_now((c & 255) << 8);
}
[[noreturn]] void sim__Exit(int c) { sim__exit(c); }
[[noreturn]] void sim_exit(int c) {
    if (!cur->exiting) { cur->exiting = true; }
    while (!cur->atex.empty()) { auto f = cur->atex.back(); cur->atex.pop_back(); f.first(f.second); }
    for (size_t i = 0; i < cur->streams.size(); i++) { if (cur->streams[i].open && cur->streams[i].wr && !cur->streams[i].mem && cur->streams[i].w.size()) sflush(cur->streams[i]); }
    sim__exit(c);
}
int sim_atexit(void (*f)(void)) { if (cur->atex.size() >= 32 && alloc_fault()) return -1;   // glibc: the first 32 need no memory
    cur->atex.push_back({(void (*)(void *))f, nullptr}); return 0; }
[[noreturn]] void sim_abort(void) { ev("ABORT\t" + cur->name); end_now(SIGABRT); }
[[noreturn]] void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { sim_fprintf(sim_stderr, "%s:%u: %s: Assertion `%s' failed.\n", f, l, fn, e); sim_abort(); }
[[noreturn]] void sim___stack_chk_fail(void) { ev("SMASH\t" + cur->name); end_now(SIGABRT); }
int sim_fork(void) { Fault *f = sc('f'); if (ferr(f, "fork")) return -1; request(RQ_FORK); return cur->fork_ret; }
int sim_vfork(void) { return sim_fork(); }
static string resolve(const char *file) { if ((uintptr_t)file < 65536) { cur->err = EFAULT; return ""; } if (strchr(file, '/')) { string abs; Ino n = nullptr; if (!strcmp(file, "/proc/self/exe")) return cur->execpath; int e = walk(cur->cwd, file, abs, n); if (e || !n) { cur->err = e ? e : ENOENT; return ""; } if (n->dir || n->data.compare(0, 4, "\x7fPRG")) { cur->err = EACCES; return ""; } return abs; }
    for (const char *d : {"/usr/local/bin/", "/usr/bin/"}) { string p = string(d) + file; Ino n = look(p); if (n && !n->dir && !n->data.compare(0, 4, "\x7fPRG")) return p; } cur->err = ENOENT; return ""; }
static int do_exec(const char *file, char *const *argv) {
    Fault *f = sc('e'); if (ferr(f, "exec")) return -1; string path = resolve(file); if (path.empty()) return -1;
    cur->execpath = path; cur->argv.clear(); for (int i = 0; argv[i]; i++) cur->argv.push_back(argv[i]);
    string s = "EX\t" + cur->name + "\t" + path; for (auto &a : cur->argv) s += "\t" + a; ev(s); request(RQ_EXEC); die("exec returned");
}
int sim_execvp(const char *f, char *const *a) { return do_exec(f, a); }
int sim_execv(const char *f, char *const *a) { return do_exec(f, a); }
static int exec_list(const char *f, const char *a0, va_list ap) { vector<char *> v{(char *)a0}; while (v.back()) v.push_back(va_arg(ap, char *)); return do_exec(f, v.data()); }
int sim_execl(const char *f, const char *a0, ...) { va_list ap; va_start(ap, a0); return exec_list(f, a0, ap); }
int sim_execlp(const char *f, const char *a0, ...) { va_list ap; va_start(ap, a0); return exec_list(f, a0, ap); }
int sim_execle(const char *f, const char *a0, ...) { va_list ap; va_start(ap, a0); return exec_list(f, a0, ap); }
int sim_fcntl(int, int, ...) { return 0; }
int sim_execve(const char *f, char *const *a, char *const *) { return do_exec(f, a); }
int sim_execvpe(const char *f, char *const *a, char *const *) { return do_exec(f, a); }
int sim_posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const *argv, char *const *) {
    int p = sim_fork(); if (p < 0) return cur->err; if (p == 0) { do_exec(file, argv); sim__exit(127); } if (pid) *pid = p; return 0; }
int sim_posix_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *b, char *const *argv, char *const *env) { return sim_posix_spawnp(pid, file, a, b, argv, env); }
char **sim_environ = nullptr;
int sim_waitpid(int pid, int *st, int opt) {
    Fault *f = sc('p'); if (f && f->kind == F_ERRNO && f->arg == EINTR) { fired(*f, "waitpid:EINTR"); return fail(EINTR); }
    for (;;) {
        bool any = false; Proc *z = nullptr;
        vector<Proc *> *c = new vector<Proc *>; for (Proc *q : procs) if (q->parent == cur->id && q->st != GONE && (pid == -1 || pid == 0 || q->vpid == pid)) c->push_back(q);
        any = c->size(); int64_t best = 1ll << 60; for (Proc *q : *c) if (q->st == ZOMBIE && q->ended < best) { best = q->ended; z = q; } delete c;
        if (z) { z->st = GONE; if (st) *st = z->status; ev("WT\t" + cur->name + "\t" + z->name + "\t" + I(z->status)); return z->vpid; }
        if (!any) return fail(ECHILD);
        for (Proc *q : procs) if (q->parent == cur->id && q->job && (q->st == RUN || q->st == BLOCKED) && (pid == -1 || pid == 0 || q->vpid == pid) && (opt & (q->job == 1 ? WUNTRACED : WCONTINUED))) { if (st) *st = q->job == 1 ? SIGSTOP << 8 | 0x7f : 0xffff; q->job = 0; return q->vpid; }
        if (opt & WNOHANG) { cur->hint = true; return 0; }
        cur->st = BLOCKED; to_sched();
    }
}
int sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
int sim_wait3(int *st, int o, void *) { return sim_waitpid(-1, st, o); }
int sim_wait4(int p, int *st, int o, void *) { return sim_waitpid(p, st, o); }
int sim_getpid(void) { return cur->vpid; }
int sim_getppid(void) { return cur->parent >= 0 ? procs[cur->parent]->vpid : 1; }
int sim_kill(int pid, int sig) { sc('d'); if (pid == cur->vpid) { if (sig) end_now(sig); return 0; } for (Proc *q : procs) if (q->inv == cur->inv && q->vpid == pid && (q->st == RUN || q->st == BLOCKED)) { if (sig) proc_end(q, sig); return 0; } return fail(ESRCH); }
int sim_raise(int sig) { if (cur->sigh.count(sig)) return 0; end_now(sig); }
void (*sim_signal(int s, void (*h)(int)))(int) { auto o = cur->sigh.count(s) ? cur->sigh[s] : SIG_DFL; if (h == SIG_DFL) cur->sigh.erase(s); else cur->sigh[s] = h; return o; }
void (*sim___sysv_signal(int s, void (*h)(int)))(int) { return sim_signal(s, h); }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (o) { memset(o, 0, sizeof *o); if (cur->sigh.count(s)) o->sa_handler = cur->sigh[s]; } if (a) { if (a->sa_handler == SIG_DFL) cur->sigh.erase(s); else cur->sigh[s] = a->sa_handler; } return 0; }
void sim_flockfile(FILE *) {} void sim_funlockfile(FILE *) {}
int sim_pthread_sigmask(int, const sigset_t *, sigset_t *) { return 0; }
int sim_sigprocmask(int, const sigset_t *, sigset_t *) { return 0; }
unsigned sim_sleep(unsigned n) { cur->hint = true; sc('t'); W_now += n * 1000000000ll; return 0; }
int sim_usleep(unsigned n) { cur->hint = true; sc('t'); W_now += n * 1000ll; return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { cur->hint = true; sc('t'); W_now += t->tv_sec * 1000000000ll + t->tv_nsec; return 0; }
int sim_clock_nanosleep(int, int, const struct timespec *t, struct timespec *r) { sim_nanosleep(t, r); return 0; }
int sim_fputc_unlocked(int c, FILE *f) { return sim_fputc(c, f); }
int sim_putc_unlocked(int c, FILE *f) { return sim_fputc(c, f); }
int sim_putchar_unlocked(int c) { return sim_putchar(c); }
int sim_fputs_unlocked(const char *s, FILE *f) { return sim_fputs(s, f); }
int sim_fgetc_unlocked(FILE *f) { return sim_fgetc(f); }
int sim_getc_unlocked(FILE *f) { return sim_fgetc(f); }
int sim_getchar_unlocked(void) { return sim_getchar(); }
char *sim_fgets_unlocked(char *b, int n, FILE *f) { return sim_fgets(b, n, f); }
size_t sim_fread_unlocked(void *b, size_t sz, size_t n, FILE *f) { return sim_fread(b, sz, n, f); }
size_t sim_fwrite_unlocked(const void *b, size_t sz, size_t n, FILE *f) { return sim_fwrite(b, sz, n, f); }
int sim_fflush_unlocked(FILE *f) { return sim_fflush(f); }
int sim_feof_unlocked(FILE *f) { return sim_feof(f); }
int sim_ferror_unlocked(FILE *f) { return sim_ferror(f); }
int sim_fileno_unlocked(FILE *f) { return sim_fileno(f); }
void sim_clearerr_unlocked(FILE *f) { sim_clearerr(f); }
void sim_setlinebuf(FILE *f) { sim_setvbuf(f, nullptr, _IOLBF, 0); }
int sim___fpurge(FILE *f) { S(f).w.clear(); return 0; }
static ssize_t at_off(int fd, off_t o, const std::function<ssize_t()> &g) { off_t old = k_lseek(fd, 0, SEEK_CUR); if (old < 0 || k_lseek(fd, o, SEEK_SET) < 0) return -1; ssize_t k = g(); int e = cur->err; k_lseek(fd, old, SEEK_SET); cur->err = e; return k; }
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { return at_off(fd, o, [&] { return k_read(fd, (char *)b, n); }); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { return at_off(fd, o, [&] { return k_write(fd, (const char *)b, n); }); }
ssize_t sim_pread64(int fd, void *b, size_t n, off_t o) { return sim_pread(fd, b, n, o); }
ssize_t sim_pwrite64(int fd, const void *b, size_t n, off_t o) { return sim_pwrite(fd, b, n, o); }
ssize_t sim_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t k = k_read(fd, (char *)v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : -1; t += k; if (k < (ssize_t)v[i].iov_len) break; } return t; }
ssize_t sim_writev(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t k = k_write(fd, (const char *)v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : -1; t += k; if (k < (ssize_t)v[i].iov_len) break; } return t; }
int sim_waitid(int t, id_t id, siginfo_t *si, int o) { int st = 0; if (o & WNOWAIT) { simos_unknown("waitid WNOWAIT"); } int r = sim_waitpid(t == P_PID ? (int)id : -1, &st, o & (WNOHANG | WSTOPPED | WCONTINUED)); if (r < 0) return -1; if (si) { memset(si, 0, sizeof *si); if (r) { si->si_pid = r; si->si_signo = SIGCHLD; si->si_code = WIFEXITED(st) ? CLD_EXITED : WIFSTOPPED(st) ? CLD_STOPPED : WIFCONTINUED(st) ? CLD_CONTINUED : CLD_KILLED; si->si_status = WIFEXITED(st) ? WEXITSTATUS(st) : WIFSTOPPED(st) ? SIGSTOP : WIFCONTINUED(st) ? SIGCONT : WTERMSIG(st); } } return 0; }
void *sim_mmap(void *, size_t n, int prot, int fl, int fd, off_t o) {          // private mappings: a copy, zero to the end of the page
    Fault *f = sc('m'); if (ferr(f, "mmap")) return MAP_FAILED;
    if ((fl & MAP_TYPE) == MAP_SHARED && (prot & PROT_WRITE)) simos_unknown("mmap MAP_SHARED");
    size_t m = (n + 4095) & ~4095ull; if (alloc_fault()) return MAP_FAILED; char *b = dirty(m + 4096); if (!b) return MAP_FAILED; b = (char *)(((uintptr_t)b + 4095) & ~4095ull); memset(b, 0, m);
    if (!(fl & MAP_ANONYMOUS)) { auto it = cur->fds.find(fd); if (it == cur->fds.end() || it->second->kind) { cur->err = EBADF; return MAP_FAILED; } ssize_t k = at_off(fd, o, [&] { size_t d = 0; for (;;) { ssize_t k = d < m ? k_read(fd, b + d, m - d) : 0; if (k < 0) return k; if (!k) return (ssize_t)d; d += k; } }); if (k < 0) return MAP_FAILED; }
    return b; }
void *sim_mmap64(void *a, size_t n, int prot, int fl, int fd, off_t o) { return sim_mmap(a, n, prot, fl, fd, o); }
int sim_munmap(void *, size_t) { sc('d'); return 0; }
int sim_madvise(void *, size_t, int) { return 0; }
int sim_posix_memalign(void **p, size_t al, size_t n) { void *b = sim_aligned_alloc(al, n); if (!b) return ENOMEM; *p = b; return 0; }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = nrand() >> 33; return n; }
uint32_t sim_arc4random(void) { return nrand() >> 20; } uint32_t sim_arc4random_uniform(uint32_t n) { return n < 2 ? 0 : (nrand() >> 20) % n; }
int sim_getentropy(void *b, size_t n) { sim_getrandom(b, n, 0); return 0; }
int sim_renameat(int, const char *a, int, const char *b) { return sim_rename(a, b); }
int sim_setsid(void) { return cur->vpid; }
int sim_setpgid(int, int) { return 0; }
int sim_sched_yield(void) { cur->hint = true; sc('d'); return 0; }
char *sim_getenv(const char *n) { size_t l = strlen(n); for (auto &e : invs[cur->inv].env) if (e.compare(0, l, n) == 0 && e[l] == '=') { char *b = dirty(e.size() + 1 - l); strcpy(b, e.c_str() + l + 1); return b; } if (where("any", "").empty() || !strcmp(n, "PATH") || !strcmp(n, "TZ") || !strcmp(n, "HOME") || !strcmp(n, "PWD") || !strncmp(n, "TMP", 3) || !strcmp(n, "TEMP") || !strncmp(n, "LC_", 3) || !strncmp(n, "LANG", 4) || !strcmp(n, "SOURCE_DATE_EPOCH")) return nullptr;
    uint64_t h = wherei("any", 0); for (const char *q = n; *q; q++) h = mix(h ^ (unsigned char)*q); const char *val[] = { "1", "0", "", "yes", "200", "/w" }; if (h % 3 == 0) return nullptr;   // set for reasons of their own
    h = (h >> 8) % 6; char *b = dirty(strlen(val[h]) + 1); strcpy(b, val[h]); return b; }
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
int sim_setenv(const char *, const char *, int) { return 0; }
int sim_rand(void) { cur->rnd = cur->rnd * 6364136223846793005ull + 1442695040888963407ull; return (cur->rnd >> 33) & 0x7fffffff; }
void sim_srand(unsigned s) { cur->rnd = s; }
long sim_random(void) { return sim_rand(); }
void sim_srandom(unsigned s) { cur->rnd = s; }
int sim_rand_r(unsigned *s) { *s = *s * 1103515245u + 12345u; return (*s >> 1) & 0x7fffffff; }
char *sim_strtok(char *s, const char *d) { return strtok_r(s, d, &cur->tokp); }

// -------- clock
static int tzoff(int64_t t) { return W_dstat && t >= W_dstat ? W_tz2 : W_tz; }
time_t sim_time(time_t *o) { sc('t'); int64_t t = W_now / 1000000000; timeq.push_back(t); ev("TM\t" + cur->name + "\t" + I(t)); if (o) *o = t; return t; }
int sim_gettimeofday(struct timeval *tv, void *) { time_t t = sim_time(nullptr); tv->tv_sec = t; tv->tv_usec = W_now / 1000 % 1000000; return 0; }
int sim_clock_gettime(int, struct timespec *ts) { time_t t = sim_time(nullptr); ts->tv_sec = t; ts->tv_nsec = W_now % 1000000000; return 0; }
int sim_timespec_get(struct timespec *ts, int b) { sim_clock_gettime(0, ts); return b; }
clock_t sim_clock(void) { sc('t'); return W_now / 1000; }
struct tm *sim_localtime_r(const time_t *t, struct tm *o) { int off = tzoff(*t); time_t v = *t + off; gmtime_r(&v, o); o->tm_gmtoff = off; o->tm_isdst = W_dstat && *t >= W_dstat; o->tm_zone = "SIM"; return o; }
struct tm *sim_gmtime_r(const time_t *t, struct tm *o) { return gmtime_r(t, o); }
static struct tm *tmb() { if (!cur->tmbuf) cur->tmbuf = (struct tm *)dirty(sizeof(struct tm)); return cur->tmbuf; }
struct tm *sim_localtime(const time_t *t) { return sim_localtime_r(t, tmb()); }
struct tm *sim_gmtime(const time_t *t) { return gmtime_r(t, tmb()); }
char *sim_asctime_r(const struct tm *t, char *b) { return asctime_r(t, b); }
char *sim_ctime_r(const time_t *t, char *b) { struct tm x; return asctime_r(sim_localtime_r(t, &x), b); }
char *sim_asctime(const struct tm *t) { if (!cur->ascbuf) cur->ascbuf = dirty(64); return asctime_r(t, cur->ascbuf); }
char *sim_ctime(const time_t *t) { return sim_asctime(sim_localtime(t)); }          // shares localtime's buffer, as in glibc
time_t sim_mktime(struct tm *t) { time_t v = timegm(t); return v - tzoff(v); }
void sim_tzset(void) {}
} // extern C

// ---------------------------------------------------------------- stand-ins
static int put_file(const char *path, Proc *p) {
    int fd = k_open(path, O_CREAT | O_WRONLY | O_TRUNC, "tool"); if (fd < 0) return -1;
    size_t o = 0; while (o < p->sb_out.size()) { size_t n = std::min<size_t>(p->sb_out.size() - o, 1024 + mix(o + W_seed) % 7000); ssize_t k = k_write(fd, p->sb_out.data() + o, n); if (k < 0) { k_close(fd); k_unlink(path); return -1; } o += k; }
    if (k_close(fd)) { k_unlink(path); return -1; } return 0;
}
static int get_file(const char *path, Proc *p) {
    int fd = k_open(path, O_RDONLY, "tool"); if (fd < 0) return -1; p->sb_in.clear();
    for (;;) { char b[4096]; ssize_t k = k_read(fd, b, sizeof b); if (k < 0) { k_close(fd); return -1; } if (!k) break; p->sb_in.append(b, k); }
    k_close(fd); return 0;
}
static void say(const char *a, const char *b) { static char t[8192]; snprintf(t, sizeof t, "%s: %s\n", a, b); size_t n = strlen(t), o = 0; while (o < n) { ssize_t k = k_write(2, t + o, n - o); if (k < 0) break; o += k; } }
static void tool_main() {
    Proc *p = cur; const char *out = "a.out"; bool as = p->role == "as"; size_t n = p->argv.size(); p->sb_out = as ? "\x7fOBJ\n" : "\x7f" "EXE\n"; int inputs = 0;
    for (size_t i = 1; i < n; i++) if (p->argv[i] == "-o" && i + 1 < n) out = p->argv[i + 1].c_str();
    for (size_t i = 1; i < n; i++) { const string &a = p->argv[i];
        if (a == "-o") { i++; continue; }
        if (!as && (a == "-m" || a == "-dynamic-linker" || a == "-L" || a == "-rpath" || a == "-soname" || a == "-z" || a == "-e" || a == "-T")) { p->sb_out += "OPT " + a + " " + (i + 1 < n ? p->argv[i + 1] : string()) + "\n"; i++; continue; }
        if (a.size() && a[0] == '-' && a.size() > 1) { if (!as || a != "-c") p->sb_out += "OPT " + a + "\n"; continue; }
        if (get_file(a.c_str(), p)) { say(a.c_str(), strerror(p->err)); sim__exit(1); }
        inputs++; p->sb_out += "INPUT " + I(p->sb_in.size()) + "\n" + p->sb_in + "\nEND\n"; }
    if (!inputs) { say("tool", "no input files"); sim__exit(1); }
    if (put_file(out, p)) { say(out, strerror(p->err)); sim__exit(1); }
    sim__exit(0);
}
static void entry() {
    Proc *p = cur;
    if (p->role == "as" || p->role == "ld") { tool_main(); }
    int n = p->argv.size(); char **v = (char **)raw_alloc(p, (n + 1) * sizeof(char *)); for (int i = 0; i < n; i++) { v[i] = raw_alloc(p, p->argv[i].size() + 1); strcpy(v[i], p->argv[i].c_str()); } v[n] = nullptr;
    asm volatile("" ::: "memory");
    int rc = toycc_main(n, v); sim_exit(rc);
}

// ---------------------------------------------------------------- scheduler
static void proc_end(Proc *p, int status) {
    p->status = status & 0xffff; p->st = ZOMBIE; p->ended = evlog.size(); p->owned = false; ev("CK\t" + p->name + "\t" + I(W_now / 1000000000)); ev("EN\t" + p->name + "\t" + p->role + "\t" + I(status)); p->ended = evlog.size();
    for (auto &f : p->fds) deref(f.second); p->fds.clear(); p->streams.clear(); if (data_res == p) data_res = nullptr; put_region(p); string().swap(p->img); string().swap(p->hs_heap); string().swap(p->hs_stk); string().swap(p->sb_in); string().swap(p->sb_out);
    if (p->parent >= 0) { Proc *q = procs[p->parent]; if (q->st == BLOCKED) q->st = RUN; if (q->st == ZOMBIE || q->st == GONE) p->st = GONE; auto it = q->sigh.find(SIGCHLD); if (it != q->sigh.end() && it->second == SIG_IGN) { p->st = GONE; if (!p->foreign) stats["fault:sigchld-ignored"]++; } }
    for (Proc *c : procs) if (c->parent == p->id) { if (c->st == RUN || c->st == BLOCKED) { if (!c->foreign) ev("ORPHAN\t" + c->name + "\t" + c->role); } else if (c->st == ZOMBIE) { if (!c->foreign) ev("UNREAPED\t" + c->name); c->st = GONE; } }
    if (p->id == invs[p->inv].root) { invs[p->inv].done = true; invs[p->inv].status = p->status; invs[p->inv].endevt = evlog.size(); p->st = GONE; ev("INVEND\t" + I(p->inv) + "\t" + I(p->status)); }
}
static int pick_vpid(Proc *p, uint64_t salt) { for (int i = 0;; i++) { int v = 2 + mix(W_seed ^ salt ^ (i * 77)) % 32000; bool clash = false; for (Proc *q : procs) if (q != p && q->inv == p->inv && q->st != GONE && q->vpid == v) clash = true; if (!clash) return v; } }
static void do_fork(Proc *p) {
    Proc *c = new_proc(p->inv, p->id); c->argv = p->argv; c->execpath = p->execpath; c->role = "fork"; c->cwd = p->cwd; c->reg = p->reg; c->reg->users++; c->sp = p->sp; c->brk = p->brk; c->nraw = p->nraw; c->holes = p->holes; c->memsalt = p->memsalt; c->atex = p->atex; c->streams = p->streams; c->tokp = p->tokp; c->tmbuf = p->tmbuf; c->rnd = p->rnd; c->sigh = p->sigh; c->umask = p->umask; c->execs = p->execs; c->err = p->err;
    c->fds = p->fds; for (auto &f : c->fds) f.second->ref++;
    img_save(c->img); c->hs_heap.assign(p->reg->heap, p->brk); char *sp = (char *)p->sp - 128; c->hs_stk.assign(sp, stk_top(p->reg) - sp); c->saved = true;
    c->vpid = pick_vpid(c, c->id * 101); p->fork_ret = c->vpid; c->fork_ret = 0; ev("FK\t" + p->name + "\t" + c->name);
}
static void start_invs(bool force) {
    for (size_t i = 0; i < invs.size(); i++) { Inv &v = invs[i]; if (v.root >= 0 || v.done) continue; if (v.start < 0) { int dep = -1 - v.start; if (!invs[dep].done) continue; bool busy = false; for (Proc *q : procs) if (q->inv == dep && !q->foreign && (q->st == RUN || q->st == BLOCKED)) busy = true; if (busy) continue; } else if (v.start > tick && !force) continue;
        Proc *p = new_proc(i, -1); v.root = p->id; p->vpid = v.vpid; p->argv = v.argv; p->cwd = v.cwd; p->execpath = norm(v.cwd, v.argv[0]);
        for (int k = 0; k < 3; k++) { OpenFile *o = new OpenFile; o->kind = k + 1; o->inv = i; o->rd = k == 0; o->wr = k > 0; p->fds[k] = o; }
        { Proc *sv = cur; cur = p; int64_t nf = wherei("fds", 0); p->umask = wherei("umask", 022); cur = sv; for (int k = 3; k < 3 + nf; k++) { OpenFile *o = new OpenFile; o->kind = 1; o->inv = i; o->rd = true; o->wr = false; p->fds[k] = o; } }
        if (v.mode & 1) p->sigh[SIGCHLD] = SIG_IGN; start_image(p); ev("ST\t" + p->name);
        for (auto &f : v.foreign) { Proc *q = new_proc(i, p->id); q->foreign = true; q->role = "foreign"; q->name = I(i) + ".f" + I(q->id); invs[i].nproc--; q->foreign_at = f[0] < 0 ? -1 : tick + f[0]; q->foreign_status = f[1]; q->st = RUN; q->vpid = pick_vpid(q, q->id * 313); }
        if (force) return; }
}
static string hang_reason;
static void run_world() {
    Proc *prev = nullptr; int64_t guard = 0;
    for (;;) {
        start_invs(false);
        for (size_t i = 0; i < procs.size(); i++) { Proc *q = procs[i]; if (q->foreign && q->st == RUN && q->foreign_at >= 0 && q->foreign_at <= tick) { stats["fault:foreign-child-ends"]++; proc_end(q, q->foreign_status); } }
        vector<Proc *> r; for (Proc *q : procs) if (!q->foreign && q->st == RUN) r.push_back(q);
        if (r.empty()) {
            bool waiting = false; for (Proc *q : procs) if (!q->foreign && q->st == BLOCKED) waiting = true;
            int64_t nx = -1; for (Proc *q : procs) if (q->foreign && q->st == RUN && q->foreign_at >= 0) nx = nx < 0 ? q->foreign_at : std::min(nx, q->foreign_at);
            if (waiting && nx >= 0) { tick = std::max(tick, nx); continue; }
            bool pend = false; for (auto &v : invs) if (v.root < 0 && !v.done) pend = true;
            if (!waiting && pend) { start_invs(true); bool any = false; for (Proc *q : procs) if (!q->foreign && q->st == RUN) any = true; if (any) continue; }
            if (waiting) { for (Proc *q : procs) if (!q->foreign && q->st == BLOCKED) { ev("DEADLOCK\t" + q->name); } stats["deadlock"]++; }
            break;
        }
        if (++guard > 40000000) { ev("HANG\tworld"); break; }
        Proc *def = nullptr; for (Proc *q : r) if (q == prev) def = q; if (!def) def = r[0];
        if (def->hint && r.size() > 1) { def->hint = false; for (size_t k = 0; k < r.size(); k++) if (r[k] == def) { def = r[(k + 1) % r.size()]; break; } }
        Proc *ch = def;
        if (r.size() > 1) {
            int64_t y = yieldno++;
            if (W_explicit) { auto it = W_sched.find(y); if (it != W_sched.end()) for (Proc *q : r) if (q->name == it->second) ch = q; }
            else if (W_pct) { for (Proc *q : r) if (!prio.count(q->inv)) prio[q->inv] = 1000 + schedrng.below(1000); for (auto t : pctpts) if (t == y) { prio[def->inv] = -(int64_t)schedrng.below(1000); } ch = r[0]; for (Proc *q : r) if (prio[q->inv] > prio[ch->inv]) ch = q; }
            else if ((int)schedrng.below(1000) < W_preempt) ch = r[schedrng.below(r.size())];
            if (ch != def) { schedlog.push_back({y, ch->name}); if (prev && def == prev) stats["preemption"]++; }
        }
        prev = ch; switch_to(ch);
        int rq = ch->req; ch->req = 0;
        if (rq == RQ_FORK) do_fork(ch);
        else if (rq == RQ_EXEC) { if (data_res == ch) data_res = nullptr; put_region(ch); start_image(ch); for (auto it = ch->fds.begin(); it != ch->fds.end();) { ++it; } }
        else if (rq == RQ_END) proc_end(ch, ch->status);
        else if (rq == RQ_CRASH) { int inv = ch->inv; ev("CRASH\t" + I(inv)); kill_tree(inv); }
    }
}
// a crash inside a simulated process ends that process only
static void on_segv(int sig, siginfo_t *si, void *uc_) {
    ucontext_t *uc = (ucontext_t *)uc_;
    if (!cur || !cur->reg) { static const char m[] = "simos: crash in the simulator\n"; write(2, m, sizeof m - 1); _exit(4); }
    cur->status = sig; cur->req = RQ_END; stats["probe:process-crashed"]++;
    // resume in the scheduler: pop its saved registers
    uint64_t *s = (uint64_t *)sched_sp; auto &g = uc->uc_mcontext.gregs;
    g[REG_R15] = s[0]; g[REG_R14] = s[1]; g[REG_R13] = s[2]; g[REG_R12] = s[3]; g[REG_RBX] = s[4]; g[REG_RBP] = s[5]; g[REG_RIP] = s[6]; g[REG_RSP] = (greg_t)(s + 7);
}

// ----------------------------------------------------------------- protocol
static string inbuf; static size_t ip;
static bool readn(char *b, size_t n) { while (n) { ssize_t k = read(0, b, n); if (k <= 0) return false; b += k; n -= k; } return true; }
static int64_t gi() { int64_t v; memcpy(&v, inbuf.data() + ip, 8); ip += 8; return v; }
static string gs() { int64_t n = gi(); string s = inbuf.substr(ip, n); ip += n; return s; }
static string outb; static void pi(int64_t v) { outb.append((char *)&v, 8); } static void ps(const string &s) { pi(s.size()); outb += s; }
static void reset() {
    for (Proc *p : procs) { if (p->reg) put_region(p); for (auto &f : p->fds) deref(f.second); delete p; } procs.clear(); for (Ino n : allino) delete n; allino.clear(); fs.clear(); next_ino = 100; invs.clear(); faults.clear(); envev.clear(); W_sched.clear(); schedlog.clear(); yieldno = tick = 0; disk_left = -1; evlog.clear(); evhash = 14695981039346656037ull; ilhash = evhash; stats.clear(); pctpts.clear(); prio.clear(); data_res = nullptr; timeq.clear(); if (dirs) dirs->clear();
    for (auto &r : regs) { if (r.used) die("region leak"); r.users = 0; r.resident = nullptr; }
}
int main() {
    if (pristine.empty()) img_save(pristine);
    static char alt[65536]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa = {}; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
    for (int i = 0; i < NREG; i++) { char *b = (char *)(0x100000000000ull + (uint64_t)i * 0x10000000ull); 
        if (mmap(b, HEAPCAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) die("mmap"); regs[i].heap = b;
        char *s = b + 0x10000000ull * 100; if (mmap(s, STKCAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) die("mmap"); regs[i].stk = s; mprotect(s, 4096, PROT_NONE); }
    for (;;) {
        int64_t len; if (!readn((char *)&len, 8)) return 0; inbuf.resize(len); ip = 0; if (!readn(&inbuf[0], len)) return 0;
        reset();
        W_seed = gi(); W_garb = gi(); W_preempt = gi(); W_pct = gi(); W_shortr = gi(); W_shortw = gi(); W_now = gi(); W_advmin = gi(); W_advrange = gi(); W_tz = gi(); W_tz2 = gi(); W_dstat = gi(); W_steplimit = gi(); W_reuse = gi(); W_explicit = gi(); int wantfs = gi(); W_wantctx = wantfs & 2; wantfs &= 1;
        schedrng.s = W_seed ^ 0xabcdef;
        { int64_t n = gi(); for (int64_t i = 0; i < n; i++) { int64_t y = gi(); W_sched[y] = gs(); } }
        for (int i = 0; i < W_pct; i++) pctpts.push_back(schedrng.below(i < W_pct / 2 + 1 ? 60 : 600));
        { int64_t n = gi(); fs["/"] = mkino(true); for (int64_t i = 0; i < n; i++) { string p = gs(); int64_t fl = gi(), mt = gi(); string d = gs(); string q = p; while ((q = parent_of(q)) != "/") if (!fs.count(q)) fs[q] = mkino(true); Ino o = mkino(fl & 4); o->flags = fl & 3; o->mtime = mt; o->data = d; fs[p] = o; } }
        { int64_t n = gi(); for (int64_t i = 0; i < n; i++) { Inv v; int64_t k = gi(); for (int64_t j = 0; j < k; j++) v.argv.push_back(gs()); v.in = gs(); v.cwd = gs(); v.start = gi(); v.vpid = gi(); k = gi(); for (int64_t j = 0; j < k; j++) { int64_t a = gi(), b = gi(); v.foreign.push_back({a, b}); } k = gi(); for (int64_t j = 0; j < k; j++) v.env.push_back(gs()); v.mode = gi(); invs.push_back(v); } }
        { int64_t n = gi(); for (int64_t i = 0; i < n; i++) { Fault f; f.proc = gs(); f.trig = gs()[0]; f.n = gi(); f.kind = gi(); f.arg = gi(); faults.push_back(f); } }
        { int64_t n = gi(); for (int64_t i = 0; i < n; i++) { EnvEv e; e.at = gi(); e.op = gi(); e.path = gs(); e.data = gs(); e.done = false; envev.push_back(e); } }
        map<string, Ino> before = fs; map<string, string> olddata; for (auto &e : fs) if (!e.second->dir) olddata[e.first] = e.second->data;
        run_world();
        outb.clear();
        int64_t steps = 0; for (Proc *p : procs) steps += p->steps;
        // the complete outcome is part of the hash
        for (auto &v : invs) { hashin(v.out); hashin(v.err); }
        pi(invs.size()); for (auto &v : invs) { pi(v.done); pi(v.root >= 0 ? v.status : -1); ps(v.out); ps(v.err); pi(v.endevt); }
        vector<std::pair<string, Ino>> ch; for (auto &e : fs) if (!e.second->dir) { auto it = olddata.find(e.first); hashin(e.first); hashin(e.second->data); if (it == olddata.end() || it->second != e.second->data || wantfs) ch.push_back(e); } else if (!before.count(e.first)) ch.push_back(e);
        vector<string> gone; for (auto &e : before) if (!fs.count(e.first)) gone.push_back(e.first);
        pi(ch.size()); for (auto &e : ch) { ps(e.first); pi(olddata.count(e.first)); pi(e.second->dir); pi(e.second->creator); pi(e.second->mtime); ps(e.second->data); }
        pi(gone.size()); for (auto &g : gone) ps(g);
        pi(procs.size()); for (Proc *p : procs) { ps(p->name); ps(p->role); pi(p->st == GONE ? 1 : 0); pi(p->status); pi(p->steps); pi(p->allocs); ps(p->callk); pi(p->parent); ps(string((char *)p->actx.data(), p->actx.size() * 8)); pi(p->argv.size()); for (auto &a : p->argv) ps(a); }
        pi(evlog.size()); for (auto &e : evlog) ps(e);
        pi(stats.size()); for (auto &e : stats) { ps(e.first); pi(e.second); }
        pi(schedlog.size()); for (auto &e : schedlog) { pi(e.first); ps(e.second); }
        pi(evhash); pi(ilhash); pi(steps); pi(tick); pi(W_now); pi(yieldno);
        int64_t fcount = 0; for (auto &f : faults) fcount += f.fired != 0; pi(fcount); for (auto &f : faults) pi(f.fired);
        len = outb.size(); string o((char *)&len, 8); o += outb; size_t k = 0; while (k < o.size()) { ssize_t w = write(1, o.data() + k, o.size() - k); if (w <= 0) return 0; k += w; }
    }
}
