"""C07: date and time macros are one consistent snapshot."""
from .. import common as K, simos as SO, world as W
from ..osbase import *
import re, calendar, time as _t

MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split(); DAY = "Mon Tue Wed Thu Fri Sat Sun".split()
UNKNOWN = "??? ??? ?? ??:??:?? ????"
class S(OsScenario):
    PROGRAMS = 1600
    INSTANTS = [0, 86399, 86400, 951782399, 951868799, 1078099199, 1230767999, 1341100799, 1609459199, 1667091599, 1709251199, 1711846799, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 4107542399, 7258118399, 1700000000, 1701388799, 1696118399]
    def generate(self, rng):
        for rep in range(2):
            nh = rng.randrange(3); files = {}; n = 0; asm = rng.randrange(2)
            def use(tag):
                nonlocal n
                n += 1; k = rng.choice("DTS" if tag != "-" else "DT"); m = {"D": "__DATE__", "T": "__TIME__", "S": "__TIMESTAMP__"}[k]; pre = ""
                if k != "S" and rng.randrange(4) == 0: pre = f"#define W{n} {m}\n"; m = f"W{n}"
                elif k != "S" and rng.randrange(6) == 0: pre = f"#define W{n}(x) x\n"; m = f"W{n}({m})"
                name = f"mk_{tag}_{n}_{k}"
                return pre + (f"char {name}[] = {m};\n" if asm else f"{name} {m}\n")
            def body(tag, incs):
                parts = [use(tag) for _ in range(rng.randrange(1, 5))] + [f'#include "{i}"\n' for i in incs] + ([f"int pad_{tag}(void) {{ return 3; }}\n"] if asm and rng.randrange(2) else [])
                if rng.randrange(4) == 0: parts.append(f'#line {rng.randrange(1, 99)} "{rng.choice(["other.c", "h0.h", "s0.c"])}"\n')
                if rng.randrange(3) == 0: parts.append(W.pad(rng, rng.choice([200, 6000])))
                rng.shuffle(parts); return "".join(parts)
            names = [f"h{i}.h" for i in range(nh)]
            for i, h in enumerate(names): files["/w/" + h] = body(f"h{i}", [])
            srcs = ["s0.c"] if rng.randrange(3) else ["s0.c", "s1.c"]
            for i, s in enumerate(srcs): files["/w/" + s] = body(f"s{i}", [h for h in names if i == 0 and rng.randrange(3)])
            stdin = ""; mode = rng.choice(["S", "S", "c", "link", "-"]) if asm else rng.choice(["E", "E", "-"])
            if mode == "-": stdin = body("stdin", names[:1]).replace("__TIMESTAMP__", '"' + UNKNOWN + '"'); argv = [W.TOYCC, "-S" if asm else "-E", "-xc", "-"] + (["-o-"] if asm else []); outs = []
            elif mode == "E": argv = [W.TOYCC, "-E", "s0.c"]; outs = []
            elif mode == "link": argv = [W.TOYCC] + srcs + ["-o", "prog"]; outs = ["/w/prog"]
            else: argv = [W.TOYCC, "-" + mode, "s0.c", "-o", "res"]; outs = ["/w/res"]
            mt = {p: rng.choice([0, 1, 951782399, 1600000000, 2**31 - 1, 2**31, rng.randrange(4 * 10**9)]) for p in files}
            fl = [[p, d, 0, mt[p]] for p, d in sorted(files.items())]
            spec = dict(files=fl, invs=[dict(argv=argv, stdin=stdin, vpid=rng.randrange(2, 30000))], meta=dict(outputs=outs, mode=mode, asm=asm), faults=[], w=self.params(rng))
            c = self.clean(spec); nsys = max(1, c.tick)
            for k in range(20):
                adv = rng.choice([1000, 10**6, 10**8, 10**9, 10**9, 7 * 10**9, 3600 * 10**9, 86400 * 10**9]); tz = rng.choice([0, 0, 3600, -18000, 19800, 50400, -43200, 20700]); tz2 = tz + rng.choice([3600, -3600]); t0 = rng.choice(self.INSTANTS + [rng.randrange(5 * 10**9)])
                # the interesting instant falls somewhere inside the run
                local = rng.randrange(2); now = max(0, (t0 - (tz if local else 0)) * 10**9 - rng.randrange(nsys + 1) * adv + rng.randrange(10**9)) ; now = max(now, 60000 * 10**9)
                w = self.params(rng, now=now, advmin=adv, advrange=rng.choice([0, 0, adv]), tz=tz, tz2=tz2, dstat=rng.choice([0, 0, t0]), shortr=rng.choice([0, 0, 500]), shortw=rng.choice([0, 0, 500]))
                fs = []
                for _ in range(rng.choice([0, 0, 1, 2])):
                    f = W.one_fault(rng, c, ["t", "t", "s"])
                    if f: fs.append(f)
                yield dict(spec, faults=fs, w=w)
    def off(self, w, t): return w.get("tz2", 0) if w.get("dstat") and t >= w["dstat"] else w.get("tz", 0)
    def render(self, w, t):
        g = _t.gmtime(t + self.off(w, t)); return f"{MON[g.tm_mon - 1]} {g.tm_mday:2d} {g.tm_year}", f"{g.tm_hour:02d}:{g.tm_min:02d}:{g.tm_sec:02d}", f"{DAY[g.tm_wday]} {MON[g.tm_mon - 1]} {g.tm_mday:2d} {g.tm_hour:02d}:{g.tm_min:02d}:{g.tm_sec:02d} {g.tm_year}"
    def judge(self, spec):
        m = spec["meta"]; w = spec["w"]; r = self.run(self.world(spec)); i = r.invs[0]
        if i["status"] or any(e[0] in ("HANG", "DEADLOCK") for e in r.ev): self.probes["no-result"] += 1; return None
        text = r.files[m["outputs"][0]]["data"] if m["outputs"] and m["outputs"][0] in r.files else i["out"]
        vals = []
        if m["asm"]:
            for q in re.finditer(r"^(mk_\w+_\d+_[DTS]):\n((?:[ \t]*\.byte[ \t]+-?\d+[^\n]*\n)+)", text, re.M):
                b = [int(x) & 255 for x in re.findall(r"\.byte[ \t]+(-?\d+)", q.group(2))]; vals.append((q.group(1), "".join(map(chr, b)).rstrip("\0")))
        else: vals = re.findall(r'(mk_\w+_\d+_[DTS])\s+"([^"]*)"', text)
        if not vals: self.probes["no-uses"] += 1; return None
        # what the clock showed while the invocation ran: pieces between the recorded readings
        cks = [int(e[2]) for e in r.ev if e[0] in ("CK", "TM")]
        spans = [(min(a, b), max(a, b)) for a, b in zip(cks, cks[1:] + [r.now // 10**9])]
        jumps = "fault:clock-jump" in r.stats
        unit = {}
        for name, v in vals:
            _, tag, _, k = name.split("_"); unit.setdefault("s1" if tag == "s1" else "s0", []).append((name, k, v))
        fl = {f[0].split("/")[-1].split(".")[0]: f for f in spec["files"]}
        for u, uses in unit.items():
            D = {v for _, k, v in uses if k == "D"}; T = {v for _, k, v in uses if k == "T"}
            if len(D) > 1: return "two-dates", f"__DATE__ has several values in one translation unit: {sorted(D)}"
            if len(T) > 1: return "two-times", f"__TIME__ has several values in one translation unit: {sorted(T)}"
            if D or T:
                d = next(iter(D), None); t = next(iter(T), None); ok = False
                cand = self.candidates(w, d, t, spans)
                for x in cand:
                    if any(a <= x <= b for a, b in spans): ok = True; break
                if not ok: return "not-the-clock", f"__DATE__ {d!r}, __TIME__ {t!r} is no instant the clock showed (local time) during the invocation, which ran from {self.render(w, cks[0])[:2]} to {self.render(w, r.now // 10**9)[:2]}{' with a clock jump' if jumps else ''}"
                self.probes["date-or-time-checked"] += 1
                if D and T: self.probes["date-and-time-checked"] += 1
                if self.render(w, cks[0])[0] != self.render(w, r.now // 10**9)[0]: self.probes["midnight-inside-run"] += 1
            for name, k, v in uses:
                if k != "S": continue
                tag = name.split("_")[1]
                if tag == "stdin":
                    if v != UNKNOWN: return "timestamp-wrong", f"__TIMESTAMP__ of standard input is {v!r}"
                    continue
                f = fl.get(tag)
                if not f: continue
                want = self.render(w, f[3])[2]; self.probes["timestamp-checked"] += 1
                if v == UNKNOWN and any(s.startswith("fault:stat") for s in r.stats): self.probes["timestamp-unknown"] += 1; continue
                if v != want: return "timestamp-wrong", f"__TIMESTAMP__ in {f[0]} (modified {want}) is {v!r}"
        return None
    def candidates(self, w, d, t, spans):
        """Instants that render as d and t."""
        try:
            if d is not None:
                q = re.fullmatch(r"([A-Z][a-z][a-z]) ([ \d]\d) (\d{4,})", d)
                day = calendar.timegm((int(q.group(3)), MON.index(q.group(1)) + 1, int(q.group(2)), 0, 0, 0))
        except (AttributeError, ValueError): return []
        if t is not None:
            q = re.fullmatch(r"(\d\d):(\d\d):(\d\d)", t)
            if not q: return []
            sec = int(q.group(1)) * 3600 + int(q.group(2)) * 60 + int(q.group(3))
        offs = {w.get("tz", 0), w.get("tz2", 0)}; out = []
        if d is not None and t is not None: out = [day + sec - o for o in offs]
        elif d is not None:
            # any second of that local day that lies in a span
            for o in offs:
                for a, b in spans:
                    x = max(a, day - o)
                    if x <= min(b, day - o + 86399): out += [x, min(b, day - o + 86399)]
        else:
            for o in offs:
                for a, b in spans:
                    x = a + (sec - (a + o)) % 86400
                    if x <= b: out.append(x)
        res = []
        for x in out:
            R = self.render(w, x)
            if (d is None or R[0] == d) and (t is None or R[1] == t): res.append(x)
        return res
    def interesting(self, spec, r): return True
