#!/usr/bin/env python3
# Source of MANIFEST.json (run to regenerate).
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
RV = "deterministic simulation: seeded schedules and faults on a simulated RV64GC multi-hart machine running code compiled by the real compiler"
OS = "deterministic simulation: the real compiler objects on a simulated OS (file system, processes, clock, allocator) under seeded schedules and fault injection"
rvnote = "Seeded exploration, not proof. Trusts: the rvsim instruction and memory model (validated against qemu and gcc-compiled programs), riscv64 as/ld, the scenario generator and its reference model. "
osnote = "Seeded exploration, not proof. Trusts: the simulated OS model (validated against real toycc runs on Linux), the as/ld stubs and the driver reference model. "
C = []
def c(id, tech, note): C.append(dict(property=id, quick_cmd=f"python3 check.py {id}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {id}",
    technique=tech, level="exploration", level_note=note))
notes = dict(
 C11="Linearizability of every RMW form against a sequential model, neighbours checked, spurious SC failures injected.",
 C12="Linearizability and mutual exclusion, bounded progress after faults stop.",
 C13="Outcomes of generated litmus programs on a weak-memory engine (delayed/reordered stores, early loads) against all SC interleavings.",
 C14="Per-thread read history against a private-instance model.",
 C15="Signals at chosen instruction boundaries, garbage below sp; results against the undisturbed run.",
 C16="Threads running the same functions against each thread alone, instruction-level schedules.",
 C17="Neighbouring stores from several harts; final memory and read-backs against per-owner models.",
 C18="Device access trace against the trace the source calls for.",
 C19="Every call boundary checked for the register contract; hostile callees clobber all caller-saved registers; coroutine switches.",
 C22="Stack pointer compared at statement boundaries over loops on a bounded stack.")
import sys
sys.path.insert(0, V)
have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "dst", "props")) if f.startswith("c") and f.endswith(".py")}
osn = dict(
 C01="Every exit 0 compared byte for byte with the fault-free result under injected I/O errors.",
 C02="History of process starts and exits against a driver reference model.",
 C03="Directory contents before and after, history of unlinks.",
 C04="Several invocations interleaved at system-call granularity, pid collisions, stale temporaries.",
 C05="All files compared before and after, with faults and rejected sources.",
 C06="Same output for different memory images, layouts, chunkings, pids, clocks.",
 C07="Simulated clock, jumps, time zones and mtimes against an independent formatter.",
 C08="Dependency text against the recorded open/read history.",
 C09="Kill at any basic block or system call, then re-run.",
 C10="History of fork/wait/exit with delayed and foreign children.",
 C21="Each allocation failing, once or from then on.")
osn = {k: v for k, v in osn.items()}
for k in sorted(set(notes) | set(osn) | {"C20"}):
    if k not in have: continue
    if k in notes: c(k, RV, rvnote + notes[k])
    elif k in osn: c(k, OS, osnote + osn[k])
    else: c(k, "deterministic simulation: the self-hosted compiler on the simulated RV64GC machine with a simulated OS, under memory garbage, short I/O and interruptions, compared with the host-built compiler", rvnote)
pure = "A pure function of the input text: no schedule, clock, I/O or fault for the outcome to depend on, so simulation would degenerate to plain differential testing."
NA = [dict(property=p, reason=pure) for p in ("C30", "C31", "C32", "C33", "C34")]
NA += [dict(property=p, reason="machinery under construction") for p in sorted(set(osn) | set(notes) | {"C20"}) if p not in have]
M = dict(version=1, setup_cmd="python3 tools/setup.py", checks=C, not_applicable=NA,
    notes="No hooks in /repo: the seams are the system-call/libc boundary (symbol renaming at link time) and the instruction set.")
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
