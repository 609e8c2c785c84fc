// Deterministic multi-hart RV64GC simulator: public structures.
// Every choice (who runs next, what a weak load returns, when a buffered
// store drains) comes from one seeded PRNG or from an explicit list.
#pragma once
#include <cstdint>
#include <cstddef>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32;
typedef uint16_t u16; typedef int16_t i16; typedef uint8_t u8; typedef int8_t i8;

extern "C" {
struct Cfg {
	u64 seed;
	u32 policy;        // 0 run in order, 1 uniform, 2 pct, 3 quanta, 4 shared-biased, 5 explicit segments
	u32 p_switch;      // per 1024: switch probability (uniform / shared-biased)
	u32 quantum;       // max quantum (policy 3)
	u32 pct_points;    // priority change points (policy 2)
	u32 est_len;       // estimated total steps (policy 2)
	u32 hostile;       // clobber caller-saved registers at external calls
	u32 weak;          // weak memory engine on
	u32 p_stale;       // per 1024
	u32 p_delay;       // per 1024: a load stays pending
	u32 p_drain;       // per 1024 per step: a buffered store drains
	u32 p_buffer;      // per 1024: a store is buffered at all
	u32 weak_explicit; // decisions come from the explicit list
	u32 fair_after;    // after so many steps: round robin, no faults
	u64 max_steps;
	u64 foreign_lo, foreign_hi; // text range of functions not compiled by toycc: clobber when they return
	u64 nosig_lo, nosig_hi;     // no signal while pc in here
	u64 handler;       // signal handler entry
	u32 poison;        // bytes poisoned below sp when a signal is delivered
	u32 record;        // record schedule segments and decisions
	u32 ptmode;        // what happens at pt()/ptd(): 0 nothing, 1 reschedule, 2 coroutine switch
	u32 checkcalls;    // check the registers a call preserves, at every return
	u32 hash_pcs;      // include pcs of shared accesses in the interleaving hash
	u32 calldirt;      // words below sp that an external call overwrites (with hostile)
};
struct Event { u64 step; u32 hart; u32 svc; u64 a[6]; u64 sp; };
struct Seg { u32 hart; u32 n; };
struct Fault { u32 hart; u32 kind; u64 at; u64 arg; }; // kind 1 sc-fail at sc index, 2 signal at icount, 3 stall at icount for arg steps
struct Dec { u32 hart; u32 idx; u32 kind; u32 val; };
struct DevAcc { u64 step; u32 hart; u32 width; u32 write; u64 addr, val; };
struct Stats {
	u64 steps, switches, sc_ok, sc_fail_inj, sc_fail_nat, signals, clobbers, stalls, stale, delayed, drains, forwards,
	    fences, shared_acc, ecalls, hash, fhash, stalereach, coswitch, dev, callchecks;
};
}
