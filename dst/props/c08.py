"""C08: dependency output lists exactly the files the compilation read."""
from .. import common as K, simos as SO, world as W
from ..osbase import *
import posixpath, re

STD = ["/opt/toycc/include", "/usr/local/include", "/usr/riscv64-linux-gnu/include", "/usr/include/riscv64-linux-gnu", "/usr/include"]
DIRS = ["/w/inc", "/w/inc2", "/w/sub", "/w/sub/deep", "/w/usr", "/usr/include-local"] + STD[1:]

def norm(p): return "-" if p == "-" else posixpath.normpath(posixpath.join("/w", p))

def unquote(words):
    """Words of one logical makefile line, unescaped the way make reads them."""
    out, cur, i = [], "", 0
    while i < len(words):
        c = words[i]
        if c == "\\":
            n = 0
            while words[i + n:i + n + 1] == "\\": n += 1
            nx = words[i + n:i + n + 1]
            if nx and nx in " \t#":
                cur += "\\" * (n // 2); i += n
                if n % 2: cur += nx; i += 1
            else: cur += "\\" * n; i += n
            continue
        if c == "$":
            if words[i + 1:i + 2] == "$": cur += "$"; i += 2
            else: i += 2            # an empty variable
            continue
        if c == "#": break          # a comment
        if c in " \t":
            if cur: out.append(cur)
            cur = ""
        else: cur += c
        i += 1
    if cur: out.append(cur)
    return out

def rules(text):
    """[(targets, prerequisites)] of a makefile fragment; None if it is not one."""
    res = []
    for l in text.replace("\\\n", " ").split("\n"):
        if not l.strip(): continue
        m = re.match(r"((?:\\.|[^:\\]|:(?=[^ \t]))*):(?:\s|$)(.*)", l)
        if not m: return None
        res.append((unquote(m.group(1)), unquote(m.group(2))))
    return res

class Model:
    """The include rules: what reading a source with these options visits."""
    def __init__(self, files, ipaths):
        self.f = files; self.ip = STD + list(ipaths)   # toycc searches its standard directories first
        self.macros = {}; self.once = set(); self.read = []; self.markers = set(); self.err = False; self.n = 0; self.depth = 0; self.odd = False   # odd: a #line within a conditional, which toycc does not take
        self.dirs = {"/", "/w/sub", "/w/libs"}
        for q in list(files) + [b[0] for b in W.base_files()]:
            while len(q) > 1: q = posixpath.dirname(q); self.dirs.add(q)
    def exists(self, p):
        if norm(p) not in self.f: return False
        q = posixpath.join("/w", p).split("/")      # every directory named on the way has to be there, also those left by ".."
        return all(posixpath.normpath("/".join(q[:k]) or "/") in self.dirs for k in range(1, len(q)))
    def find(self, name, cur, quote):
        if name.startswith("/"): return name if self.exists(name) else None
        if quote and cur is not None:
            d = posixpath.dirname(cur) or "."; p = d + "/" + name
            if self.exists(p): return p
        for d in self.ip:
            if self.exists(d + "/" + name): return d + "/" + name
        return name if self.exists(name) else None
    def visit(self, path, text=None):
        self.n += 1
        if self.err or self.n > 3000: self.err = True; return
        if text is None:
            text = self.f[norm(path)]
        self.read.append(norm(path)); st = []
        cwd_path = path
        for l in text.split("\n"):
            t = l.strip(); live = all(s[0] for s in st)
            if t.startswith("#"):
                w = t[1:].split(None, 1); k = w[0] if w else ""; a = w[1].strip() if len(w) > 1 else ""
                if k == "ifdef": st.append([live and a in self.macros, live]); 
                elif k == "ifndef": st.append([live and a not in self.macros, live])
                elif k == "if": st.append([live and self.cond(a), live])
                elif k == "else": st[-1][0] = st[-1][1] and not st[-1][0]
                elif k == "endif": st.pop()
                elif not live: continue
                elif k == "line": self.odd |= bool(st) or self.depth > 0
                elif k == "define":
                    n, _, b = a.partition(" "); self.macros[n] = b.strip()
                elif k == "undef": self.macros.pop(a, None)
                elif k == "pragma" and a == "once": self.once.add(cwd_path)
                elif k == "include":
                    while not a[0] in '"<': a = self.macros[a]
                    q = self.find(a[1:-1], cwd_path if cwd_path != "-" else "./-", a[0] == '"')
                    if q is None: self.err = True; return
                    if q in self.once: continue
                    self.depth += len(st); self.visit(q); self.depth -= len(st)
                    if self.err: return
            elif live:
                m = re.search(r"\bM_(\w+)", t)
                if m: self.markers.add(m.group(1))
    def cond(self, a):
        m = re.fullmatch(r"(!?)defined\((\w+)\)", a)
        if m: return (m.group(2) in self.macros) != (m.group(1) == "!")
        return int(a) != 0

class S(OsScenario):
    PROGRAMS = 3600
    def generate(self, rng):
        for rep in range(2):
            files = {}; names = [f"n{i}.h" for i in range(rng.randrange(2, 7))]; uid = 0; odd = rng.randrange(8) == 0; nextp = rng.randrange(12) == 0
            if odd: names[rng.randrange(len(names))] = rng.choice(["n x.h", "n$x.h", "n#x.h", "n x y.h", "n\\b.h", "n\\ x.h", "n\\\\ x.h", "n$$x.h", "#n.h", "n h"])
            ipaths = [d for d in DIRS[:6] if rng.randrange(2)]; rng.shuffle(ipaths)
            if rng.randrange(10) == 0: ipaths.insert(rng.randrange(len(ipaths) + 1), "/usr/include")
            if rng.randrange(8) == 0 and ipaths: ipaths.append(ipaths[0])
            spell = {"/w/inc": ["inc", "./inc", "/w/inc", "sub/../inc"], "/w/inc2": ["inc2", "/w/inc2"], "/w/sub": ["sub", "/w/sub"], "/w/sub/deep": ["sub/deep", "/w/sub/deep"], "/w/usr": ["usr", "/w/usr"]}
            iopt = [rng.choice(spell.get(d, [d])) for d in ipaths]
            def content(k, path):
                nonlocal uid
                uid += 1; me = f"f{uid}"; lines = [f"int M_{me};", f"#define SEEN_{k} 1"]; g = rng.randrange(3)
                for _ in range(rng.randrange(0, 4)):
                    js = list(range(k + 1, len(names)))
                    if not js: break
                    j = rng.choice(js); n = names[j]
                    if rng.randrange(6) == 0: inc = [f'#define INC_{me} {rng.choice([chr(34) + n + chr(34), "<" + n + ">"])}', f"#include INC_{me}"]
                    elif rng.randrange(8) == 0: inc = [f'#include "{rng.choice(["deep/", "../inc/", "./", "../inc2/", "/w/inc/", "/usr/include/"])}{n}"']
                    else: inc = [f'#include "{n}"' if rng.randrange(2) else f"#include <{n}>"]
                    if nextp and k >= 0 and rng.randrange(3) == 0: inc = [f"#include_next <{rng.choice([n, posixpath.basename(path)])}>"]
                    c = rng.randrange(5)
                    if c == 0: q = rng.randrange(len(names)); inc = [rng.choice([f"#ifdef SEEN_{q}", f"#ifndef SEEN_{q}", f"#if !defined(SEEN_{q})", f"#if defined(OPT{q})", "#if 0", "#if 1"])] + inc + (["#else", f"int M_{me}e{len(lines)};"] if rng.randrange(2) else []) + ["#endif"]
                    if c == 1: inc.insert(0, f"#undef SEEN_{rng.randrange(len(names))}")
                    if c == 2: inc[:0] = [f"#undef G_{j}", f"#undef SEEN_{rng.randrange(len(names))}"]; inc *= rng.choice([1, 2])
                    lines += inc
                for _ in range(2):
                    if rng.randrange(8) == 0: lines.insert(rng.randrange(len(lines) + 1), f'#line {rng.randrange(1, 900)}' + rng.choice(["", ' "other.h"', ' "/w/sub/gen.y"', ' "/usr/include/fake.h"', f' "{rng.choice(names)}"'.replace("\\", "\\\\")]))
                if k >= 0 and rng.randrange(8) == 0 and g < 2: lines.append(f'#include "{posixpath.basename(path)}"')
                if rng.randrange(6) == 0: lines.append(W.pad(rng, rng.choice([100, 5000])).rstrip("\n"))
                if k >= 0 and rng.randrange(12) == 0: return rng.choice(["", "\n", "\n\n", " ", "/* nothing */", "#pragma once\n", f"#define SEEN_{k} 1", "\\\n"])
                if g == 0 and k >= 0: gn = me if rng.randrange(2) else k; lines = [f"#ifndef G_{gn}", f"#define G_{gn} 1"] + lines + ["#endif"]
                elif g == 1 and k >= 0: lines.insert(rng.randrange(1) if rng.randrange(2) else len(lines) if not any(posixpath.basename(path) in l for l in lines) else 0, "#pragma once")
                return "\n".join(lines) + ("\n" if rng.randrange(8) else "")
            for k, n in enumerate(names):
                ds = rng.sample(DIRS + ["/w"], rng.choice([1, 1, 2, 3]))
                if rng.randrange(4): ds.append(rng.choice((ipaths or ["/usr/include"]) + ["/usr/include"]))
                for d in set(ds): pass
                for d in sorted(set(ds)): files[d + "/" + n] = content(k, d + "/" + n)
            srcs = []
            for i in range(rng.choice([1, 1, 2])):
                s = rng.choice(["", "", "sub/"]) + f"s{i}.c"; files["/w/" + s] = content(-1, "/w/" + s); srcs.append(s)
            if rng.randrange(3) == 0: files["/w/usr/x.h"] = "int M_ux;\n"
            argv = [W.TOYCC]; opts = []
            for d in iopt: opts += ["-I" + d]
            for q in range(len(names)):
                if rng.randrange(4) == 0: opts.append(f"-DOPT{q}")
            pre = []
            if rng.randrange(5) == 0: p = rng.choice(names); pre = [p]; opts += ["-include", p]
            tgt = []; mt = []
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                t = rng.choice(["tgt", "dir/t.o", "a$(b)c", "with space", "h#h", "b\\s", "b\\ s", "tgt2", "$", "$$$", " $", "#$"]); kq = rng.choice(["-MT", "-MQ"])
                if kq == "-MT" and t in ("with space", "a$(b)c", "h#h", "b\\s", "b\\ s", "$", "$$$", " $", "#$"): t = "plain"
                mt += [kq, t]; tgt.append(t)
            mode = rng.choice(["M", "M", "MD", "MD", "MMD", "MMD", "stdin"]); stdin = ""
            dep = {}     # dependency file -> source
            mmd = mode == "MMD"
            if mode in ("M", "stdin"):
                if mode == "stdin": stdin = files["/w/" + srcs[0]]; use = ["-"]
                else: use = srcs[:1] if rng.randrange(3) else srcs
                o = [] if len(use) > 1 or rng.randrange(2) else rng.choice([["-MF", "dd.mk"], ["-o", "dd.mk"]]); mo = ["-MMD"] if rng.randrange(8) == 0 and o and o[0] == "-MF" else []
                argv += ["-M"] + mo + opts + mt + (["-xc"] if mode == "stdin" else []) + use + o; mmd = bool(mo); dep = {("/w/dd.mk" if o else "stdout"): use}
            else:
                use = srcs if rng.randrange(2) else srcs[:1]; comp = rng.choice(["-c", "-c", "-S", "-E", "link"])
                if comp == "-E": use = use[:1]
                if len(use) == 1 and rng.randrange(2): o = ["-o", "outp.x"]; d = "outp.d"
                else: o = []; d = None
                if comp == "link" and not o: d = None
                mf = ["-MF", "dd.mk"] if len(use) == 1 and rng.randrange(3) == 0 else []
                argv += ([comp] if comp != "link" else []) + ["-" + mode] + opts + mt + use + o + mf
                if len(use) == 1: dep = {"/w/" + ("dd.mk" if mf else d or W.extn(use[0], ".d")): use}
                else: dep = {"/w/" + W.extn(s, ".d"): [s] for s in use}
            mp = rng.randrange(4) == 0
            if mp: argv.append("-MP")
            fl = [[p, d] for p, d in sorted(files.items())]
            spec = dict(files=fl, invs=[dict(argv=argv, stdin=stdin, vpid=rng.randrange(2, 30000))], meta=dict(dep=dep, mmd=mmd, ip=iopt, pre=pre, opts=opts, tgt=tgt, mp=mp, nomodel=nextp, odd=odd), faults=[], w=self.params(rng))
            c = self.clean(spec); self.probes["graph-accepted" if c.invs[0]["status"] == 0 else "graph-rejected"] += 1
            yield spec
            for k in range(22 if c.invs[0]["status"] == 0 else 1):
                fs, env = [], []
                for _ in range(rng.choice([0, 0, 1, 2])):
                    f = W.one_fault(rng, c, ["O", "R", "s", "w", "c", "alloc", "W", "kill"])
                    if f: fs.append(f)
                if rng.randrange(2):
                    for _ in range(rng.choice([1, 1, 2, 4])):
                        n = rng.choice(names); d = rng.choice(DIRS + ["/w"])
                        if rng.randrange(3): p = rng.choice([f[0] for f in fl]); env.append([rng.randrange(max(1, c.tick)), rng.choice([0, 1]), p, "int M_changed;\n"])
                        else: env.append([rng.randrange(max(1, c.tick)), 1, d + "/" + n, "int M_appeared;\n"])
                yield dict(spec, faults=fs, w=self.params(rng, env=sorted(env, key=lambda e: e[0]), shortr=rng.choice([0, 0, 500]), shortw=rng.choice([0, 0, 500])))
    def model(self, spec, fd, src):
        m = spec["meta"]; M = Model(fd, m["ip"])
        for o in m["opts"]:
            if o.startswith("-D"): M.macros[o[2:]] = "1"
        for p in m["pre"]:
            q = p if "/w/" + p in fd else M.find(p, None, False)
            if q is None: M.err = True
            else: M.visit(q)
        if not M.err: M.visit(src, spec["invs"][0]["stdin"] if src == "-" else None)
        return M
    def judge(self, spec):
        m = spec["meta"]; r = self.run(self.world(spec)); i = r.invs[0]
        quiet = not spec["w"].get("env") and not spec["faults"]
        if any(e[0] in ("HANG", "DEADLOCK") for e in r.ev): return None
        fd = {f[0]: f[1] for f in spec["files"]}
        if i["status"]:
            self.probes["failed"] += 1
            if quiet and not m.get("nomodel") and not m.get("odd") and not any(M.err or M.odd for M in (self.model(spec, fd, s) for u in m["dep"].values() for s in u)):
                return "valid-graph-rejected", f"nothing went wrong and every included file exists, but the invocation fails ({i['status']:#x}): {i['err'][-200:]!r}"
            return None
        read = {}; writer = {}
        for e in r.ev:
            p = r.procs.get(e[1]) if len(e) > 1 else None
            if not p or p.role in ("as", "ld"): continue
            if e[0] == "RE": read.setdefault(e[1], set()).add(e[2])
            elif e[0] == "OW": writer[e[2]] = e[1]
        env = {e[2] for e in spec["w"].get("env", [])}
        for path, use in m["dep"].items():
            text = i["out"] if path == "stdout" else r.files[path]["data"] if path in r.files else None
            if text is None: return "dependency-file-missing", f"exit status 0 but no {path}"
            rs = rules(text)
            if rs is None: return "not-a-makefile", f"the dependency output is no makefile fragment: {text[:200]!r}"
            main = [x for x in rs if x[1]]; phony = {norm(t) for x in rs if not x[1] for t in x[0]}
            if len(main) != len(use): return "rule-count", f"{len(main)} dependency rules for {len(use)} sources: {text[:200]!r}"
            # the process that did it: the writer of the file, or for standard output the compile steps in order
            if path == "stdout": who = [p.name for p in self.procs_of(r) if p.role == "cc1"]
            else: who = [writer.get(path)]
            if len(who) != len(use): who = [None] * len(use)
            for (tg, pq), src, w in zip(main, use, who):
                listed = {norm(x) for x in pq}
                tgt = m["tgt"] or [W.extn(src, ".o")]
                if tg != tgt: return "wrong-target", f"targets {tg} instead of {tgt}"
                got = set(read.get(w, ())) if w else None
                if got is not None:
                    if src == "-": got |= {"-"}
                    keep = (lambda p: not (m["mmd"] and any(p.startswith(s + "/") for s in STD)))
                    want = {p for p in got if keep(p)}; self.probes["compared-with-reads"] += 1
                    if want - listed: return "read-but-not-listed", f"{sorted(want - listed)} was read for {src} but is not listed: {text[:300]!r}"
                    if listed - got: return "listed-but-not-read", f"{sorted(listed - got)} is listed for {src} but was not read"
                    if listed - want: return "standard-header-listed", f"-MMD lists {sorted(listed - want)}"
                if quiet and not m.get("nomodel"):
                    M = self.model(spec, fd, src)
                    if M.err: return "accepts-missing-include", "exit status 0 although an included file exists nowhere on its search path"
                    want = {p for p in M.read if not (m["mmd"] and any(p.startswith(s + "/") for s in STD))}; self.probes["compared-with-model"] += 1
                    if want - listed: return "needed-but-not-listed", f"{sorted(want - listed)} is part of {src} by the include rules but not listed"
                    if listed - want: return "listed-but-not-needed", f"{sorted(listed - want)} is listed for {src} but not part of it by the include rules"
                if m["mp"] and len(use) == 1:
                    if phony - (got if got is not None else phony): return "phony-not-read", f"-MP target {sorted(phony - got)} was not read"
                    miss = listed - phony - {norm(src)}
                    if miss: return "phony-missing", f"-MP gives no target for {sorted(miss)}"
                    if norm(src) in phony: return "phony-main-file", f"-MP gives the source file {src} an empty rule"
        return None
    def interesting(self, spec, r): return True
