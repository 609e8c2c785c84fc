// Deterministic multi-hart RV64GC simulator (library, driven by ctypes).
#include "rvsim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <limits>
#include <type_traits>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <elf.h>

enum Op : u8 {
	O_ILL, O_LUI, O_AUIPC, O_JAL, O_JALR, O_BEQ, O_BNE, O_BLT, O_BGE, O_BLTU, O_BGEU,
	O_LB, O_LH, O_LW, O_LD, O_LBU, O_LHU, O_LWU, O_SB, O_SH, O_SW, O_SD,
	O_ADDI, O_SLTI, O_SLTIU, O_XORI, O_ORI, O_ANDI, O_SLLI, O_SRLI, O_SRAI,
	O_ADDIW, O_SLLIW, O_SRLIW, O_SRAIW,
	O_ADD, O_SUB, O_SLL, O_SLT, O_SLTU, O_XOR, O_SRL, O_SRA, O_OR, O_AND,
	O_ADDW, O_SUBW, O_SLLW, O_SRLW, O_SRAW,
	O_MUL, O_MULH, O_MULHSU, O_MULHU, O_DIV, O_DIVU, O_REM, O_REMU, O_MULW, O_DIVW, O_DIVUW, O_REMW, O_REMUW,
	O_FENCE, O_FENCEI, O_ECALL, O_EBREAK, O_CSR,
	O_LR, O_SC, O_AMO,
	O_FLW, O_FLD, O_FSW, O_FSD, O_FMA, O_FP, O_NOP
};
struct Insn { u8 op, rd, rs1, rs2, rs3, rm, len, f; i32 imm; u32 raw; };

struct Load { u64 id, addr; u32 size; u8 reg; bool isf, sx; u64 need_ld, need_st, floor, nst; };
struct Store { u64 id, addr, val; u32 size; u64 need_ld, need_st; };

struct Ctx { u64 x[32], f[32], pc; u64 xv[32], fv[32]; u64 hx[32], hf[32]; bool in_foreign; u64 foreign_ret, foreign_sp; };

struct Frame { u64 ret, sp, gp, tp, s[12], f[12]; };
static const u8 SREG[12] = {8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27};
struct Hart {
	std::vector<Frame> frames;  // active calls (checkcalls)
	u64 x[32], f[32], pc;
	u32 fcsr;
	bool used, done, waiting;
	int trap;                 // 0 none
	u64 trap_addr, trap_pc;
	u64 icount, scount;       // retired instructions, sc executed
	u64 res_addr; u32 res_size; bool res;
	u64 stack_lo, stack_hi;
	std::vector<Ctx> sig;     // interrupted contexts
	u64 foreign_ret, foreign_sp; bool in_foreign;
	u64 stall;
	u64 xv[32], fv[32];       // dependency views (weak)
	u32 decidx;
	// weak
	u64 nld, nst;             // ids
	std::vector<Load> pend; std::vector<Store> buf;
	u64 ld_req_ld, ld_req_st, st_req_ld, st_req_st;
	u64 lfloor;               // no later load may be satisfied before this time
	std::vector<u64> in; size_t inpos; // input stream for service 5
	u64 retv, retf;
	// coroutine group
	int group;
	u64 prio;
	u64 maxdepth_sp;
};

static u8 *mem; static u64 memsize; static std::vector<u8> image; // initial image (dirty pages restored)
static std::vector<u8> dirty; static std::vector<u32> dirtylist;
static std::map<std::string, std::pair<u64,u64>> syms;
static std::vector<Insn> dcache; static u64 text_lo, text_hi; static std::vector<u8> dvalid;
static Hart H[64]; static int NH;
static Cfg cfg; static Stats st;
static std::vector<Event> events; static std::vector<Seg> segs, segs_in; static std::vector<Fault> faults;
static std::vector<Dec> decs; static std::unordered_map<u64,u32> decs_in; static std::unordered_map<u64,std::vector<std::pair<int,u64>>> drains_in;
static std::vector<DevAcc> devlog; static std::vector<u64> devin; static size_t devpos;
static u64 DEV_LO = 0x60000000ull, DEV_HI = 0x60010000ull;
static const u64 EXIT_PC = 0xE0000000ull, SIGRET_PC = 0xE0000010ull;
static u64 rng_s[2];
static u64 tls_image, tls_filesz, tls_memsz, tls_align;
static u64 entry_pc;
static std::map<u64,u64> privwatch;
static u64 got_lo, got_hi; static u64 ro_lo, ro_hi;   // constant memory (text, rodata, got): not shared

static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 rnd() { u64 a = rng_s[0], b = rng_s[1], r = a + b; b ^= a; rng_s[0] = rotl(a, 24) ^ b ^ (b << 16); rng_s[1] = rotl(b, 37); return r; }
static u64 smix(u64 &s) { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void rseed(u64 s) { rng_s[0] = smix(s); rng_s[1] = smix(s); if (!rng_s[0] && !rng_s[1]) rng_s[0] = 1; }
static u64 clob_s; static u64 clob() { return smix(clob_s); }
static inline bool chance(u32 per1024) { return (rnd() & 1023) < per1024; }
static inline void hashmix(u64 &h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }

// ---------------------------------------------------------------- decode
static inline i64 sx(u64 v, int b) { return (i64)(v << (64 - b)) >> (64 - b); }
static Insn dec32(u32 w) {
	Insn n; memset(&n, 0, sizeof n); n.len = 4; n.raw = w;
	n.rd = (w >> 7) & 31; n.rs1 = (w >> 15) & 31; n.rs2 = (w >> 20) & 31; n.rm = (w >> 12) & 7; n.rs3 = w >> 27;
	u32 f3 = (w >> 12) & 7, f7 = w >> 25;
	i32 immi = (i32)w >> 20, imms = (((i32)w >> 25) << 5) | ((w >> 7) & 31);
	i32 immb = (((i32)w >> 31) << 12) | (((w >> 7) & 1) << 11) | (((w >> 25) & 63) << 5) | (((w >> 8) & 15) << 1);
	i32 immj = (((i32)w >> 31) << 20) | (w & 0xff000) | (((w >> 20) & 1) << 11) | (((w >> 21) & 0x3ff) << 1);
	n.op = O_ILL;
	switch (w & 127) {
	case 0x37: n.op = O_LUI; n.imm = w & 0xfffff000; break;
	case 0x17: n.op = O_AUIPC; n.imm = w & 0xfffff000; break;
	case 0x6f: n.op = O_JAL; n.imm = immj; break;
	case 0x67: n.op = O_JALR; n.imm = immi; break;
	case 0x63: { static const u8 t[8] = {O_BEQ, O_BNE, 0, 0, O_BLT, O_BGE, O_BLTU, O_BGEU}; n.op = t[f3]; n.imm = immb; break; }
	case 0x03: { static const u8 t[8] = {O_LB, O_LH, O_LW, O_LD, O_LBU, O_LHU, O_LWU, 0}; n.op = t[f3]; n.imm = immi; break; }
	case 0x23: { static const u8 t[8] = {O_SB, O_SH, O_SW, O_SD, 0, 0, 0, 0}; n.op = t[f3]; n.imm = imms; break; }
	case 0x13:
		n.imm = immi;
		switch (f3) {
		case 0: n.op = O_ADDI; break; case 2: n.op = O_SLTI; break; case 3: n.op = O_SLTIU; break; case 4: n.op = O_XORI; break;
		case 6: n.op = O_ORI; break; case 7: n.op = O_ANDI; break;
		case 1: n.op = O_SLLI; n.imm = (w >> 20) & 63; break;
		case 5: n.op = ((w >> 26) == 0x10) ? O_SRAI : O_SRLI; n.imm = (w >> 20) & 63; break;
		}
		break;
	case 0x1b:
		n.imm = immi;
		if (f3 == 0) n.op = O_ADDIW; else if (f3 == 1) { n.op = O_SLLIW; n.imm = (w >> 20) & 31; }
		else if (f3 == 5) { n.op = f7 == 0x20 ? O_SRAIW : O_SRLIW; n.imm = (w >> 20) & 31; }
		break;
	case 0x33:
		if (f7 == 1) { static const u8 t[8] = {O_MUL, O_MULH, O_MULHSU, O_MULHU, O_DIV, O_DIVU, O_REM, O_REMU}; n.op = t[f3]; }
		else if (f7 == 0) { static const u8 t[8] = {O_ADD, O_SLL, O_SLT, O_SLTU, O_XOR, O_SRL, O_OR, O_AND}; n.op = t[f3]; }
		else if (f7 == 0x20) n.op = f3 == 0 ? O_SUB : f3 == 5 ? O_SRA : O_ILL;
		break;
	case 0x3b:
		if (f7 == 1) { static const u8 t[8] = {O_MULW, 0, 0, 0, O_DIVW, O_DIVUW, O_REMW, O_REMUW}; n.op = t[f3]; }
		else if (f7 == 0) n.op = f3 == 0 ? O_ADDW : f3 == 1 ? O_SLLW : f3 == 5 ? O_SRLW : O_ILL;
		else if (f7 == 0x20) n.op = f3 == 0 ? O_SUBW : f3 == 5 ? O_SRAW : O_ILL;
		break;
	case 0x0f: n.op = f3 == 1 ? O_FENCEI : O_FENCE; n.imm = (w >> 20) & 0xff; break;
	case 0x73:
		if (w == 0x73) n.op = O_ECALL; else if (w == 0x100073) n.op = O_EBREAK; else if (f3) { n.op = O_CSR; n.imm = w >> 20; }
		break;
	case 0x2f: { u32 f5 = w >> 27; n.f = f5; n.rm = f3; n.op = f5 == 2 ? O_LR : f5 == 3 ? O_SC : O_AMO; n.imm = (w >> 25) & 3; break; }
	case 0x07: n.op = f3 == 2 ? O_FLW : f3 == 3 ? O_FLD : O_ILL; n.imm = immi; break;
	case 0x27: n.op = f3 == 2 ? O_FSW : f3 == 3 ? O_FSD : O_ILL; n.imm = imms; break;
	case 0x43: case 0x47: case 0x4b: case 0x4f: n.op = O_FMA; n.f = (w >> 2) & 3; n.imm = (w >> 25) & 3; break;
	case 0x53: n.op = O_FP; n.f = f7; break;
	}
	return n;
}
static u32 R(u32 op, u32 rd, u32 f3, u32 r1, u32 r2, u32 f7) { return op | rd << 7 | f3 << 12 | r1 << 15 | r2 << 20 | f7 << 25; }
static u32 I(u32 op, u32 rd, u32 f3, u32 r1, i32 im) { return op | rd << 7 | f3 << 12 | r1 << 15 | (u32)im << 20; }
static u32 S(u32 op, u32 f3, u32 r1, u32 r2, i32 im) { return op | (im & 31) << 7 | f3 << 12 | r1 << 15 | r2 << 20 | ((u32)im >> 5) << 25; }
static Insn dec16(u16 c) {
	u32 rdp = ((c >> 2) & 7) + 8, rs1p = ((c >> 7) & 7) + 8, rd = (c >> 7) & 31, rs2 = (c >> 2) & 31, f3 = c >> 13, w = 0;
	i32 imm6 = (i32)sx(((c >> 12) & 1) << 5 | ((c >> 2) & 31), 6); u32 u6 = ((c >> 12) & 1) << 5 | ((c >> 2) & 31);
	i32 lw = ((c >> 6) & 1) << 2 | ((c >> 10) & 7) << 3 | ((c >> 5) & 1) << 6, ld = ((c >> 10) & 7) << 3 | ((c >> 5) & 3) << 6;
	i32 lwsp = ((c >> 4) & 7) << 2 | ((c >> 12) & 1) << 5 | ((c >> 2) & 3) << 6, ldsp = ((c >> 5) & 3) << 3 | ((c >> 12) & 1) << 5 | ((c >> 2) & 7) << 6;
	i32 swsp = ((c >> 9) & 15) << 2 | ((c >> 7) & 3) << 6, sdsp = ((c >> 10) & 7) << 3 | ((c >> 7) & 7) << 6;
	switch ((c & 3) << 3 | f3) {
	case 0: { u32 im = ((c >> 11) & 3) << 4 | ((c >> 7) & 15) << 6 | ((c >> 6) & 1) << 2 | ((c >> 5) & 1) << 3; if (im) w = I(0x13, rdp, 0, 2, im); break; }
	case 1: w = I(0x07, rdp, 3, rs1p, ld); break;
	case 2: w = I(0x03, rdp, 2, rs1p, lw); break;
	case 3: w = I(0x03, rdp, 3, rs1p, ld); break;
	case 5: w = S(0x27, 3, rs1p, rdp, ld); break;
	case 6: w = S(0x23, 2, rs1p, rdp, lw); break;
	case 7: w = S(0x23, 3, rs1p, rdp, ld); break;
	case 8: w = I(0x13, rd, 0, rd, imm6); break;
	case 9: w = I(0x1b, rd, 0, rd, imm6); break;
	case 10: w = I(0x13, rd, 0, 0, imm6); break;
	case 11: if (rd == 2) { i32 im = (i32)sx(((c >> 12) & 1) << 9 | ((c >> 6) & 1) << 4 | ((c >> 5) & 1) << 6 | ((c >> 3) & 3) << 7 | ((c >> 2) & 1) << 5, 10); w = I(0x13, 2, 0, 2, im); }
		 else w = 0x37 | rd << 7 | ((u32)imm6 << 12); break;
	case 12:
		switch ((c >> 10) & 3) {
		case 0: w = I(0x13, rs1p, 5, rs1p, u6); break;
		case 1: w = I(0x13, rs1p, 5, rs1p, u6 | 0x400); break;
		case 2: w = I(0x13, rs1p, 7, rs1p, imm6); break;
		case 3: { u32 k = ((c >> 12) & 1) << 2 | ((c >> 5) & 3);
			static const u32 F3[8] = {0, 4, 6, 7, 0, 0, 0, 0};
			if (k < 4) w = R(0x33, rs1p, F3[k], rs1p, rdp, k == 0 ? 0x20 : 0);
			else if (k == 4) w = R(0x3b, rs1p, 0, rs1p, rdp, 0x20); else if (k == 5) w = R(0x3b, rs1p, 0, rs1p, rdp, 0);
			break; }
		}
		break;
	case 13: { i32 im = (i32)sx(((c >> 12) & 1) << 11 | ((c >> 11) & 1) << 4 | ((c >> 9) & 3) << 8 | ((c >> 8) & 1) << 10 | ((c >> 7) & 1) << 6 | ((c >> 6) & 1) << 7 | ((c >> 3) & 7) << 1 | ((c >> 2) & 1) << 5, 12);
		Insn n; memset(&n, 0, sizeof n); n.op = O_JAL; n.rd = 0; n.imm = im; n.len = 2; n.raw = c; return n; }
	case 14: case 15: { i32 im = (i32)sx(((c >> 12) & 1) << 8 | ((c >> 10) & 3) << 3 | ((c >> 5) & 3) << 6 | ((c >> 3) & 3) << 1 | ((c >> 2) & 1) << 5, 9);
		Insn n; memset(&n, 0, sizeof n); n.op = f3 == 6 ? O_BEQ : O_BNE; n.rs1 = rs1p; n.rs2 = 0; n.imm = im; n.len = 2; n.raw = c; return n; }
	case 16: w = I(0x13, rd, 1, rd, u6); break;
	case 17: w = I(0x07, rd, 3, 2, ldsp); break;
	case 18: w = I(0x03, rd, 2, 2, lwsp); break;
	case 19: w = I(0x03, rd, 3, 2, ldsp); break;
	case 20:
		if (!((c >> 12) & 1)) { if (rs2 == 0) w = I(0x67, 0, 0, rd, 0); else w = R(0x33, rd, 0, 0, rs2, 0); }
		else { if (rs2 == 0) w = rd ? I(0x67, 1, 0, rd, 0) : 0x100073; else w = R(0x33, rd, 0, rd, rs2, 0); }
		break;
	case 21: w = S(0x27, 3, 2, rs2, sdsp); break;
	case 22: w = S(0x23, 2, 2, rs2, swsp); break;
	case 23: w = S(0x23, 3, 2, rs2, sdsp); break;
	}
	Insn n = dec32(w); n.len = 2; n.raw = c; return n;
}

// ---------------------------------------------------------------- memory
static inline bool okaddr(u64 a, u32 n) { return a >= 0x1000 && a + n <= memsize && a + n > a; }
static inline void mark(u64 a, u32 n) {
	u64 p = a >> 12, q = (a + n - 1) >> 12;
	if (!dirty[p]) { dirty[p] = 1; dirtylist.push_back(p); }
	if (q != p && !dirty[q]) { dirty[q] = 1; dirtylist.push_back(q); }
}
static inline u64 ld(u64 a, u32 n) { u64 v = 0; memcpy(&v, mem + a, n); return v; }
static inline void rawst(u64 a, u32 n, u64 v) { mark(a, n); memcpy(mem + a, &v, n); }

// history of shared 8-byte granules for the weak engine
struct Ver { u64 t, v; };
static std::unordered_map<u64, std::vector<Ver>> hist;
static std::unordered_map<u64, u64> coh[64];        // per hart: coherence floor per granule
static std::unordered_map<u64, u64> privview[64];   // dependency views of private memory
static u64 now;

static void globst(u64 a, u32 n, u64 v, int h) {
	// invalidate reservations of other harts (and overlapping of own only on SC/AMO handled by caller)
	for (int k = 0; k < NH; k++) if (H[k].res && k != h) {
		u64 lo = H[k].res_addr & ~63ull; // reservation set: a 64-byte line
		if (a + n > lo && a < lo + 64) H[k].res = false;
	}
	if (cfg.weak) {
		u64 g = a & ~7ull, g2 = (a + n - 1) & ~7ull;
		for (u64 q = g; q <= g2; q += 8) if (!hist.count(q)) hist[q].push_back({0, ld(q, 8)});
		rawst(a, n, v);
		for (u64 q = g; q <= g2; q += 8) hist[q].push_back({now, ld(q, 8)});
		if (h >= 0) for (u64 q = g; q <= g2; q += 8) coh[h][q] = now;
	} else rawst(a, n, v);
}
static std::vector<std::pair<u64, u64>> sharedmem;   // parts of stacks that other threads know (sim_share)
static inline bool isprivate(Hart &h, u64 a) {
	if (a < h.stack_lo || a >= h.stack_hi) return false;
	for (auto &r : sharedmem) if (a >= r.first && a < r.second) return false;
	return true;
}

static bool drain(int hi, u64 id);
static void bindload(int hi, u64 id);
static u32 decide(int hi, u32 kind, u32 n, u32 per1024) { // 0 = strong choice
	Hart &h = H[hi]; u32 idx = h.decidx++;
	u32 v = 0;
	if (cfg.weak_explicit) { auto it = decs_in.find((u64)hi << 32 | idx); v = it == decs_in.end() ? 0 : it->second; if (v >= n) v = n - 1; }
	else if (n > 1 && (!cfg.fair_after || now < cfg.fair_after) && chance(per1024)) v = 1 + rnd() % (n - 1);
	if (v && cfg.record) decs.push_back({(u32)hi, idx, kind, v});
	return v;
}
static void req_done(int hi, u64 need_ld, u64 need_st) {
	Hart &h = H[hi];
	for (;;) { u64 id = 0; for (auto &l : h.pend) if (l.id <= need_ld && (!id || l.id < id)) id = l.id; if (!id) break; bindload(hi, id); }
	for (;;) { u64 id = 0; for (auto &s : h.buf) if (s.id <= need_st && (!id || s.id < id)) id = s.id; if (!id) break; drain(hi, id); }
}
static bool drain(int hi, u64 id) {
	Hart &h = H[hi];
	size_t i; for (i = 0; i < h.buf.size() && h.buf[i].id != id; i++);
	if (i == h.buf.size()) return false;
	Store s = h.buf[i];
	h.buf.erase(h.buf.begin() + i);
	req_done(hi, s.need_ld, s.need_st);
	// same-address order: older overlapping stores first
	for (bool again = true; again;) { again = false; for (auto &o : h.buf) if (o.id < s.id && o.addr < s.addr + s.size && s.addr < o.addr + o.size) { drain(hi, o.id); again = true; break; } }
	// older pending loads of the same bytes must be satisfied first
	for (bool again = true; again;) { again = false; for (auto &o : h.pend) if (o.nst < s.id && o.addr < s.addr + s.size && s.addr < o.addr + o.size) { bindload(hi, o.id); again = true; break; } }
	now++; globst(s.addr, s.size, s.val, hi); st.drains++;
	return true;
}
static void drainall(int hi) { while (!H[hi].buf.empty()) drain(hi, H[hi].buf.front().id); }
static void bindall(int hi) { while (!H[hi].pend.empty()) bindload(hi, H[hi].pend.front().id); }
static u64 readshared(int hi, u64 a, u32 n, u64 floor, u64 *when) {
	Hart &h = H[hi];
	// own buffered stores
	Store *best = nullptr; bool partial = false;
	for (auto &s : h.buf) if (s.addr < a + n && a < s.addr + s.size) { if (s.addr <= a && a + n <= s.addr + s.size) { if (!best || s.id > best->id) best = &s; } else partial = true; }
	if (best && !partial) { st.forwards++; *when = now; return (best->val >> (8 * (a - best->addr))) & (n == 8 ? ~0ull : (1ull << (8 * n)) - 1); }
	if (partial || best) { for (bool again = true; again;) { again = false; for (auto &s : h.buf) if (s.addr < a + n && a < s.addr + s.size) { drain(hi, s.id); again = true; break; } } }
	u64 g = a & ~7ull; *when = now;
	if (((a + n - 1) & ~7ull) != g) return ld(a, n);
	auto it = hist.find(g);
	if (it == hist.end()) return ld(a, n);
	auto &v = it->second; u64 fl = floor; auto c = coh[hi].find(g); if (c != coh[hi].end() && c->second > fl) fl = c->second;
	// candidate versions: those current at some time >= fl
	size_t first = v.size() - 1; while (first > 0 && v[first].t > fl) first--;
	u32 cand = v.size() - first; if (cand > 4) { first = v.size() - 4; cand = 4; }
	u32 d = decide(hi, 1, cand, cfg.p_stale);
	size_t k = v.size() - 1 - d;
	if (d) st.stale++; if (cand > 1) st.stalereach++;
	u64 tw = std::max(v[k].t, fl);
	*when = d ? tw : now;
	coh[hi][g] = std::max(fl, v[k].t);
	u64 val = v[k].v >> (8 * (a - g));
	return n == 8 ? val : val & ((1ull << (8 * n)) - 1);
}
static void setreg_ld(Hart &h, u8 reg, bool isf, bool sxt, u32 n, u64 v) {
	if (isf) h.f[reg] = n == 4 ? (v | 0xffffffff00000000ull) : v;
	else if (reg) { h.x[reg] = sxt ? (u64)sx(v, 8 * n) : v; }
}
// Pending loads: the destination register (and copies of it in private memory)
// are tracked by a token; the first use binds it.
struct Tok { bool on; u64 id; };
static Tok xt[64][32], ft[64][32];
static std::unordered_map<u64, u64> memtok[64]; // private address -> load id
static void bindload(int hi, u64 id) {
	Hart &h = H[hi];
	size_t i; for (i = 0; i < h.pend.size() && h.pend[i].id != id; i++);
	if (i == h.pend.size()) return;
	Load l = h.pend[i]; h.pend.erase(h.pend.begin() + i);
	req_done(hi, l.need_ld, l.need_st);
	for (bool again = true; again;) { again = false; for (auto &o : h.pend) if (o.id < l.id && o.addr < l.addr + l.size && l.addr < o.addr + o.size) { bindload(hi, o.id); again = true; break; } }
	now++;
	u64 when, v = readshared(hi, l.addr, l.size, l.floor, &when);
	u64 val = l.isf ? (l.size == 4 ? (v | 0xffffffff00000000ull) : v) : l.sx ? (u64)sx(v, 8 * l.size) : v;
	for (int r = 0; r < 32; r++) {
		if (xt[hi][r].on && xt[hi][r].id == id) { xt[hi][r].on = false; if (r) { h.x[r] = val; h.xv[r] = when; } }
		if (ft[hi][r].on && ft[hi][r].id == id) { ft[hi][r].on = false; h.f[r] = val; h.fv[r] = when; }
	}
	std::vector<u64> del;
	for (auto &p : memtok[hi]) if (p.second == id) { rawst(p.first, 8, val); privview[hi][p.first] = when; del.push_back(p.first); }
	for (u64 d : del) memtok[hi].erase(d);
}
static inline void usex(int hi, int r) { if (cfg.weak && xt[hi][r].on) bindload(hi, xt[hi][r].id); }
static inline void usef(int hi, int r) { if (cfg.weak && ft[hi][r].on) bindload(hi, ft[hi][r].id); }

static void trap(Hart &h, int t, u64 a) { if (!h.trap) { h.trap = t; h.trap_addr = a; h.trap_pc = h.pc; } h.done = true; }

static bool inro(u64 a) { return (a >= ro_lo && a < ro_hi) || (a >= got_lo && a < got_hi); }

static u64 devread(int hi, u64 a, u32 n) {
	u64 v = devpos < devin.size() ? devin[devpos++] : 0;
	if (n < 8) v &= (1ull << (8 * n)) - 1;
	devlog.push_back({now, (u32)hi, n, 0, a, v}); st.dev++;
	return v;
}
// ordinary memory whose accesses are recorded (sim_watch): real range -> address in the record
struct Watch { u64 lo, hi, log; int hart; };
static std::vector<Watch> watch;
static inline void watched(int hi, u64 a, u32 n, bool wr, u64 v) {
	for (auto &w : watch) if (w.hart == hi && a < w.hi && a + n > w.lo) { if (n < 8) v &= (1ull << (8 * n)) - 1; devlog.push_back({now, (u32)hi, n, wr, w.log + (a - w.lo), v}); st.dev++; }
}
static bool memload(int hi, u64 a, u32 n, u8 reg, bool isf, bool sxt, u64 dep) {
	Hart &h = H[hi];
	if (a >= DEV_LO && a < DEV_HI) { setreg_ld(h, reg, isf, sxt, n, devread(hi, a, n)); return true; }
	if (!okaddr(a, n)) { trap(h, 2, a); return false; }
	if (!watch.empty()) watched(hi, a, n, false, ld(a, n));
	if (!cfg.weak) { setreg_ld(h, reg, isf, sxt, n, ld(a, n)); return true; }
	if (isprivate(h, a)) {
		auto &mt = memtok[hi];
		if (!mt.empty()) {
			auto it = mt.find(a);
			if (it != mt.end() && n == 8 && !isf) { xt[hi][reg] = {true, it->second}; return true; }
			std::vector<u64> b; for (auto &p : mt) if (p.first < a + n && a < p.first + 8) b.push_back(p.second);
			for (u64 id : b) bindload(hi, id);
		}
		setreg_ld(h, reg, isf, sxt, n, ld(a, n));
		u64 vw = 0; auto it = privview[hi].find(a & ~7ull); if (it != privview[hi].end()) vw = it->second;
		(isf ? h.fv : h.xv)[reg] = vw; (isf ? ft : xt)[hi][reg].on = false;
		return true;
	}
	if (inro(a)) { setreg_ld(h, reg, isf, sxt, n, ld(a, n)); (isf ? h.fv : h.xv)[reg] = 0; (isf ? ft : xt)[hi][reg].on = false; return true; }
	Load l; l.id = ++h.nld; l.nst = h.nst; l.addr = a; l.size = n; l.reg = reg; l.isf = isf; l.sx = sxt;
	l.need_ld = h.ld_req_ld; l.need_st = h.ld_req_st; l.floor = std::max(h.lfloor, dep);
	if (h.pend.size() < 3 && reg != 0 && decide(hi, 2, 2, cfg.p_delay)) {
		(isf ? ft : xt)[hi][reg] = {true, l.id}; h.pend.push_back(l); st.delayed++; return true;
	}
	req_done(hi, l.need_ld, l.need_st);
	for (bool again = true; again;) { again = false; for (auto &o : h.pend) if (o.addr < a + n && a < o.addr + o.size) { bindload(hi, o.id); again = true; break; } }
	u64 when, v = readshared(hi, a, n, l.floor, &when);
	setreg_ld(h, reg, isf, sxt, n, v); (isf ? h.fv : h.xv)[reg] = when; (isf ? ft : xt)[hi][reg].on = false;
	return true;
}
static bool memstore(int hi, u64 a, u32 n, u64 v, u64 dataview, Tok *tok) {
	Hart &h = H[hi];
	if (a >= DEV_LO && a < DEV_HI) { if (n < 8) v &= (1ull << (8 * n)) - 1; devlog.push_back({now, (u32)hi, n, 1, a, v}); st.dev++; return true; }
	if (!okaddr(a, n)) { trap(h, 3, a); return false; }
	if (a < ro_hi && a + n > ro_lo && ro_hi) { trap(h, 4, a); return false; }
	if (!watch.empty()) watched(hi, a, n, true, v);
	if (!cfg.weak) { globst(a, n, v, hi); return true; }
	if (isprivate(h, a)) {
		auto &mt = memtok[hi];
		if (!mt.empty()) { std::vector<u64> b; for (auto &p : mt) if (p.first < a + n && a < p.first + 8) { if (p.first == a && n == 8) continue; b.push_back(p.second); } for (u64 id : b) bindload(hi, id); mt.erase(a); }
		if (tok && tok->on) { if (n == 8) { mt[a] = tok->id; mark(a, 8); return true; } bindload(hi, tok->id); tok = nullptr; }
		rawst(a, n, v); privview[hi][a & ~7ull] = dataview;
		return true;
	}
	Store s; s.id = ++h.nst; s.addr = a; s.val = v; s.size = n; s.need_ld = h.st_req_ld; s.need_st = h.st_req_st;
	// coherence with own pending loads of the same bytes
	for (bool again = true; again;) { again = false; for (auto &o : h.pend) if (o.addr < a + n && a < o.addr + o.size) { bindload(hi, o.id); again = true; break; } }
	h.buf.push_back(s);
	if (h.buf.size() > 8 || !decide(hi, 3, 2, cfg.p_buffer)) {
		if (h.buf.size() > 8) drain(hi, h.buf.front().id); else drain(hi, s.id);
	}
	return true;
}
static void memfence(int hi, u32 pred, u32 succ) { // bit1 r, bit0 w
	Hart &h = H[hi]; st.fences++;
	if (!cfg.weak) return;
	if ((pred & 2) && (succ & 2)) { h.ld_req_ld = h.nld; }
	if ((pred & 2) && (succ & 1)) h.st_req_ld = h.nld;
	if ((pred & 1) && (succ & 2)) h.ld_req_st = h.nst;
	if ((pred & 1) && (succ & 1)) h.st_req_st = h.nst;
	if (succ & 2) {
		// later loads may not be satisfied before the earlier ones / the earlier stores
		if (pred & 1) { req_done(hi, (pred & 2) ? h.nld : 0, h.nst); h.lfloor = now; }
		else if (pred & 2) { u64 m = h.lfloor; for (auto &c : coh[hi]) m = std::max(m, c.second); bindall(hi); for (auto &c : coh[hi]) m = std::max(m, c.second); h.lfloor = m; }
	}
}
static void amo_before(int hi, u64 a, u32 n, bool aq, bool rl) {
	if (!cfg.weak) return;
	Hart &h = H[hi];
	if (rl) { req_done(hi, h.nld, h.nst); }
	// own earlier accesses to the same bytes
	for (bool again = true; again;) { again = false; for (auto &o : h.pend) if (o.addr < a + n && a < o.addr + o.size) { bindload(hi, o.id); again = true; break; } }
	for (bool again = true; again;) { again = false; for (auto &o : h.buf) if (o.addr < a + n && a < o.addr + o.size) { drain(hi, o.id); again = true; break; } }
	// the amo is a load and a store: fences before it apply
	req_done(hi, std::max(h.ld_req_ld, h.st_req_ld), std::max(h.ld_req_st, h.st_req_st));
	now++;
	h.nld++; h.nst++;
	coh[hi][a & ~7ull] = now;
	(void)aq;
}
static void amo_after(int hi, bool aq) { if (cfg.weak && aq) H[hi].lfloor = now; }

// ---------------------------------------------------------------- fp
static inline float tof(u64 v) { u32 w = (v >> 32) == 0xffffffffu ? (u32)v : 0x7fc00000u; float f; memcpy(&f, &w, 4); return f; }
static inline double tod(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline u64 fromf(float f) { u32 w; if (std::isnan(f)) w = 0x7fc00000u; else memcpy(&w, &f, 4); return 0xffffffff00000000ull | w; }
static inline u64 fromd(double d) { u64 v; if (std::isnan(d)) return 0x7ff8000000000000ull; memcpy(&v, &d, 8); return v; }
static double rnd_rm(double d, int rm) {
	switch (rm) { case 1: return trunc(d); case 2: return floor(d); case 3: return ceil(d); case 4: return round(d); default: return nearbyint(d); }
}
template <class T> static u64 fcvti(double d, int rm) {
	if (std::isnan(d)) return (u64)(i64)std::numeric_limits<T>::max();
	d = rnd_rm(d, rm);
	const double hi = std::is_same<T, i64>::value ? 9223372036854775808.0 : std::is_same<T, u64>::value ? 18446744073709551616.0 : (double)std::numeric_limits<T>::max() + 1.0;
	const double lo = (double)std::numeric_limits<T>::min();
	if (d >= hi) return (u64)(i64)std::numeric_limits<T>::max();
	if (d < lo) return (u64)(i64)std::numeric_limits<T>::min();
	return (u64)(i64)(T)d;
}
static u32 fclass(double d, u64 bits, bool dbl) {
	bool neg = dbl ? bits >> 63 : (bits >> 31) & 1;
	if (std::isnan(d)) return 1u << 9;
	if (std::isinf(d)) return neg ? 1 : 1u << 7;
	if (d == 0) return neg ? 1u << 3 : 1u << 4;
	int c = dbl ? std::fpclassify(d) : std::fpclassify((float)d);
	if (c == FP_SUBNORMAL) return neg ? 1u << 2 : 1u << 5;
	return neg ? 1u << 1 : 1u << 6;
}
static bool fpop(Hart &h, const Insn &n) {
	u32 f7 = n.f; bool dbl = f7 & 1; int rm = n.rm == 7 ? (h.fcsr >> 5) & 7 : n.rm;
	u64 a = h.f[n.rs1], b = h.f[n.rs2];
	auto wx = [&](u64 v) { if (n.rd) h.x[n.rd] = v; };
	switch (f7 >> 2) {
	case 0: if (dbl) h.f[n.rd] = fromd(tod(a) + tod(b)); else h.f[n.rd] = fromf(tof(a) + tof(b)); return true;
	case 1: if (dbl) h.f[n.rd] = fromd(tod(a) - tod(b)); else h.f[n.rd] = fromf(tof(a) - tof(b)); return true;
	case 2: if (dbl) h.f[n.rd] = fromd(tod(a) * tod(b)); else h.f[n.rd] = fromf(tof(a) * tof(b)); return true;
	case 3: if (dbl) h.f[n.rd] = fromd(tod(a) / tod(b)); else h.f[n.rd] = fromf(tof(a) / tof(b)); return true;
	case 0xb: if (dbl) h.f[n.rd] = fromd(sqrt(tod(a))); else h.f[n.rd] = fromf(sqrtf(tof(a))); return true;
	case 4: {
		u64 x, y, m = dbl ? 1ull << 63 : 1ull << 31;
		if (dbl) { x = a; y = b; } else { x = (a >> 32) == 0xffffffffu ? (u32)a : 0x7fc00000u; y = (b >> 32) == 0xffffffffu ? (u32)b : 0x7fc00000u; }
		u64 s = n.rm == 0 ? y & m : n.rm == 1 ? ~y & m : (x ^ y) & m;
		u64 r = (x & ~m) | s; h.f[n.rd] = dbl ? r : r | 0xffffffff00000000ull; return true; }
	case 5: {
		double x = dbl ? tod(a) : tof(a), y = dbl ? tod(b) : tof(b), r;
		if (std::isnan(x)) r = y; else if (std::isnan(y)) r = x;
		else if (x == y) r = (n.rm == 0) == (bool)std::signbit(x) ? x : y;
		else r = n.rm == 0 ? std::min(x, y) : std::max(x, y);
		h.f[n.rd] = dbl ? fromd(r) : fromf((float)r); return true; }
	case 8: if (!dbl) h.f[n.rd] = fromf((float)tod(a)); else h.f[n.rd] = fromd((double)tof(a)); return true; // fcvt.s.d / fcvt.d.s
	case 0x14: {
		double x = dbl ? tod(a) : tof(a), y = dbl ? tod(b) : tof(b);
		wx(n.rm == 2 ? x == y : n.rm == 1 ? x < y : x <= y); return true; }
	case 0x18: {
		double x = dbl ? tod(a) : tof(a); u64 r;
		switch (n.rs2) { case 0: r = fcvti<i32>(x, rm); break; case 1: r = (u64)(i64)(i32)(u32)fcvti<u32>(x, rm); break; case 2: r = fcvti<i64>(x, rm); break;
		default: r = std::isnan(x) ? ~0ull : fcvti<u64>(x, rm); }
		wx(r); return true; }
	case 0x1a: {
		u64 v = h.x[n.rs1];
		if (dbl) { double r = n.rs2 == 0 ? (double)(i32)v : n.rs2 == 1 ? (double)(u32)v : n.rs2 == 2 ? (double)(i64)v : (double)v; h.f[n.rd] = fromd(r); }
		else { float r = n.rs2 == 0 ? (float)(i32)v : n.rs2 == 1 ? (float)(u32)v : n.rs2 == 2 ? (float)(i64)v : (float)v; h.f[n.rd] = fromf(r); }
		return true; }
	case 0x1c: if (n.rm == 0) wx(dbl ? a : (u64)(i64)(i32)a); else wx(fclass(dbl ? tod(a) : tof(a), a, dbl)); return true;
	case 0x1e: h.f[n.rd] = dbl ? h.x[n.rs1] : (h.x[n.rs1] | 0xffffffff00000000ull); return true;
	}
	return false;
}

// ---------------------------------------------------------------- services
static void clobber_caller_saved(Hart &h, bool keep_ret) {
	if (!cfg.hostile) return;
	static const u8 t[] = {5, 6, 7, 28, 29, 30, 31, 12, 13, 14, 15, 16, 17};
	for (u8 r : t) h.x[r] = clob();
	if (!keep_ret) { h.x[10] = clob(); h.x[11] = clob(); h.f[10] = clob(); h.f[11] = clob(); }
	for (int r = 0; r < 8; r++) h.f[r] = clob();
	for (int r = 12; r < 18; r++) h.f[r] = clob();
	for (int r = 28; r < 32; r++) h.f[r] = clob();
	h.x[1] = h.x[1]; st.clobbers++;
	for (u64 i = 0, sp = h.x[2] & ~7ull; i < cfg.calldirt && sp - 8 - 8 * i > h.stack_lo + 4096; i++) rawst(sp - 8 - 8 * i, 8, clob());
	if (cfg.weak) { int hi = &h - H; for (int r = 1; r < 32; r++) if (!(r == 2 || r == 8 || r == 9 || (r >= 18 && r < 28) || r == 3 || r == 4)) { if (xt[hi][r].on && !keep_ret) xt[hi][r].on = false; h.xv[r] = 0; } }
}
static int cur; static bool need_resched; static u64 yprio;
// services (a7): 1 event, 2 yield, 3 coroutine switch, 4 __tls_get_addr, 5 input, 6 stop
static void sys_linux(int hi);
static void ptpoint(Hart &h) { if (cfg.ptmode == 1) need_resched = true; else if (cfg.ptmode == 2) { need_resched = true; h.waiting = true; st.coswitch++; } }
static bool linux_mode; static u64 lmain;
static void service(int hi) {
	Hart &h = H[hi]; st.ecalls++;
	if (linux_mode) { sys_linux(hi); return; }
	u64 svc = h.x[17];
	for (int r = 10; r < 18; r++) usex(hi, r);
	usef(hi, 10);
	switch (svc) {
	case 1: case 8: {
		Event e; e.step = now; e.hart = hi; e.svc = svc; for (int i = 0; i < 6; i++) e.a[i] = h.x[10 + i]; e.sp = h.x[2]; events.push_back(e);
		clobber_caller_saved(h, false); break; }
	case 2: need_resched = true; if (cfg.policy == 2) h.prio = --yprio; clobber_caller_saved(h, false); break;
	case 3: { // coroutine switch to the next live member of the group
		clobber_caller_saved(h, false); need_resched = true; h.waiting = true; st.coswitch++; break; }
	case 4: { u64 p = h.x[10]; u64 off = okaddr(p, 16) ? ld(p + 8, 8) : 0; clobber_caller_saved(h, false); h.x[10] = h.x[4] + off + 0x800; break; }
	case 5: { u64 v = h.inpos < h.in.size() ? h.in[h.inpos++] : 0; clobber_caller_saved(h, false); h.x[10] = v; break; }
	case 9: { u64 v = h.x[10]; clobber_caller_saved(h, false); h.x[10] = v; ptpoint(h); break; }
	case 10: { u64 v = h.f[10]; clobber_caller_saved(h, false); h.f[10] = v; ptpoint(h); break; }
	case 12: if (h.x[12]) watch.push_back({h.x[11], h.x[11] + h.x[12], h.x[10], hi}); else for (size_t i = watch.size(); i--;) if (watch[i].hart == hi) watch.erase(watch.begin() + i); clobber_caller_saved(h, false); break;
	case 11: sharedmem.push_back({h.x[10] & ~7ull, (h.x[10] + h.x[11] + 7) & ~7ull}); clobber_caller_saved(h, false); break;
	case 6: h.done = true; h.retv = h.x[10]; break;
	default: trap(h, 6, svc);
	}
}

// ---------------------------------------------------------------- linux (self-hosted compiler)
struct LFile { std::string name, data; bool exists; };
static std::map<std::string, std::string> lfs; static std::map<int, std::pair<std::string, size_t>> lfd; static std::string lout, lerr, lin; static size_t linpos;
static std::map<std::string, std::string> lwritten;
static u64 brk_cur, mmap_cur; static int lexit; static u32 lshort;
static bool lexited; static std::vector<u32> lshorts; static u64 lsys;
static std::string cstr(u64 a) { std::string s; while (okaddr(a, 1) && mem[a]) s += (char)mem[a++]; return s; }
static std::string canon(const std::string &in) { // absolute, no ".", "..", "//"
	std::vector<std::string> v; std::string s = in.size() && in[0] == '/' ? in : in.empty() ? in : "/w/" + in; if (s.empty()) return s;
	size_t i = 0; while (i < s.size()) { while (i < s.size() && s[i] == '/') i++; size_t j = s.find('/', i); if (j == std::string::npos) j = s.size(); std::string c = s.substr(i, j - i); i = j;
		if (c.empty() || c == ".") continue; if (c == "..") { if (v.size()) v.pop_back(); continue; } v.push_back(c); }
	std::string o; for (auto &c : v) o += "/" + c; return o.empty() ? "/" : o; }
static bool lisdir(const std::string &p) { if (p == "/") return true; auto it = lfs.lower_bound(p + "/"); return it != lfs.end() && it->first.compare(0, p.size() + 1, p + "/") == 0; }
static void put(u64 a, const void *p, u64 n) { if (!n) return; for (u64 i = 0; i < n; i += 4096) mark(a + i, 1); mark(a + n - 1, 1); memcpy(mem + a, p, n); }
static void sys_linux(int hi) {
	Hart &h = H[hi]; u64 *a = h.x + 10; i64 r = -38; lsys++;
	switch (h.x[17]) {
	case 56: { // openat
		std::string p = canon(cstr(a[1])); bool wr = (a[2] & 3) != 0;
		if (wr && lisdir(p)) { r = -21; break; }
		if (!wr && !lfs.count(p)) { if (!lisdir(p)) { r = -2; break; } lfs[p]; }
		int fd = 3; while (lfd.count(fd)) fd++;
		if (wr) { if (a[2] & 01000) lwritten[p] = ""; lfd[fd] = {"\1" + p, 0}; } else lfd[fd] = {p, 0};
		r = fd; break; }
	case 57: lfd.erase((int)a[0]); r = 0; break;
	case 62: r = -29; break; // lseek: treat as pipe
	case 63: { // read
		std::string *d; size_t *pos;
		if (a[0] == 0) { d = &lin; pos = &linpos; } else { auto it = lfd.find((int)a[0]); if (it == lfd.end()) { r = -9; break; } d = &lfs[it->second.first]; pos = &it->second.second; }
		u64 n = std::min<u64>(a[2], d->size() - *pos); if (lshort && n > 1) n = 1 + rnd() % n;
		if (!okaddr(a[1], n ? n : 1)) { r = -14; break; }
		put(a[1], d->data() + *pos, n); *pos += n; r = n; break; }
	case 64: { // write
		u64 n = a[2]; if (lshort && n > 1) n = 1 + rnd() % n; if (!okaddr(a[1], n ? n : 1)) { r = -14; break; }
		std::string s((char *)mem + a[1], n);
		if (a[0] == 1) lout += s; else if (a[0] == 2) lerr += s; else { auto it = lfd.find((int)a[0]); if (it == lfd.end()) { r = -9; break; } lwritten[it->second.first.substr(1)] += s; }
		r = n; break; }
	case 66: { // writev
		u64 tot = 0; std::string s; for (u64 i = 0; i < a[2]; i++) { u64 b = ld(a[1] + 16 * i, 8), n = ld(a[1] + 16 * i + 8, 8); if (n) s.append((char *)mem + b, n); tot += n; }
		if (lshort && tot > 1) { tot = 1 + rnd() % tot; s.resize(tot); }
		if (a[0] == 1) lout += s; else if (a[0] == 2) lerr += s; else { auto it = lfd.find((int)a[0]); if (it == lfd.end()) { r = -9; break; } lwritten[it->second.first.substr(1)] += s; }
		r = tot; break; }
	case 78: r = -22; break; // readlinkat
	case 79: case 80: { // newfstatat, fstat
		u64 buf; std::string data; bool reg = true; int fdn = -1;
		if (h.x[17] == 79) { std::string p = canon(cstr(a[1])); if (p.empty() && (a[3] & 0x1000)) fdn = (int)a[0]; else { if (!lfs.count(p) && !lisdir(p)) { r = -2; break; } if (lfs.count(p)) data = lfs[p]; } buf = a[2]; }
		else { fdn = (int)a[0]; buf = a[1]; }
		if (fdn >= 0) { if (fdn <= 2) reg = false; else { auto it = lfd.find(fdn); if (it == lfd.end()) { r = -9; break; } data = it->second.first[0] == 1 ? "" : lfs[it->second.first]; } }
		u8 sb[128]; memset(sb, 0, sizeof sb); u32 mode = reg ? 0100644 : 0010644; memcpy(sb + 16, &mode, 4); u64 sz = data.size(); memcpy(sb + 48, &sz, 8); u32 bs = 4096; memcpy(sb + 56, &bs, 4);
		u64 ino = 77; memcpy(sb + 8, &ino, 8);
		put(buf, sb, 128); r = 0; break; }
	case 93: case 94: lexit = (int)a[0]; lexited = true; h.done = true; return;
	case 96: r = 1; break; case 99: r = 0; break; case 100: r = -38; break;
	case 98: r = 0; break;
	case 131: h.done = true; lexited = true; lexit = 128 + (int)a[2]; return; // tgkill
	case 129: h.done = true; lexited = true; lexit = 128 + (int)a[1]; return;
	case 134: case 135: r = 0; break;
	case 113: { u64 ts[2] = {1700000000, 0}; put(a[1], ts, 16); r = 0; break; }
	case 160: { char u[65 * 6]; memset(u, 0, sizeof u); strcpy(u, "Linux"); strcpy(u + 65, "sim"); strcpy(u + 130, "5.15.0"); strcpy(u + 195, "1"); strcpy(u + 260, "riscv64"); put(a[0], u, sizeof u); r = 0; break; }
	case 172: case 178: case 173: r = 4242; break; case 174: case 175: case 176: case 177: r = 0; break;
	case 214: if (a[0] >= brk_cur - (64ull << 20) && a[0] < mmap_cur && a[0] >= brk_cur - 0) { } 
		{ if (a[0] > brk_cur && a[0] < (u64)memsize - (96ull << 20)) { brk_cur = a[0]; } r = brk_cur; } break;
	case 215: r = 0; break;
	case 216: { u64 old = a[0], osz = a[1], nsz = a[2]; u64 n = (nsz + 4095) & ~4095ull; if (mmap_cur - n < brk_cur) { r = -12; break; } mmap_cur -= n; std::vector<u8> t(mem + old, mem + old + std::min(osz, nsz)); put(mmap_cur, t.data(), t.size()); r = mmap_cur; break; }
	case 222: { u64 n = (a[1] + 4095) & ~4095ull; if (mmap_cur - n < brk_cur + (1 << 20)) { r = -12; break; } mmap_cur -= n; r = mmap_cur; break; }
	case 226: r = 0; break;
	case 259: r = -38; break; case 258: r = -38; break;
	case 261: r = 0; if (a[3]) { u64 l[2] = {8 << 20, ~0ull}; put(a[3], l, 16); } break;
	case 278: { u64 n = std::min<u64>(a[1], 256); for (u64 i = 0; i < n; i++) { u8 b = clob(); put(a[0] + i, &b, 1); } r = n; break; }
	case 29: r = -25; break;
	case 48: { std::string p = canon(cstr(a[1])); r = lfs.count(p) ? 0 : -2; break; }
	case 35: { std::string p = canon(cstr(a[1])); r = lwritten.erase(p) ? 0 : -2; break; }
	default: fprintf(stderr, "rvsim: unsupported syscall %lu\n", (unsigned long)h.x[17]); r = -38;
	}
	h.x[10] = r;
	h.res = false; // a trap into the kernel may end a reservation
}

// ---------------------------------------------------------------- step
#define X(r) h.x[r]
static inline u64 divs(i64 a, i64 b) { if (b == 0) return ~0ull; if (a == INT64_MIN && b == -1) return a; return a / b; }
static inline u64 rems(i64 a, i64 b) { if (b == 0) return a; if (a == INT64_MIN && b == -1) return 0; return a % b; }
static inline u64 divw(i32 a, i32 b) { if (b == 0) return ~0ull; if (a == INT32_MIN && b == -1) return (i64)a; return (i64)(a / b); }
static inline u64 remw(i32 a, i32 b) { if (b == 0) return (i64)a; if (a == INT32_MIN && b == -1) return 0; return (i64)(a % b); }

static void sigreturn(int hi) {
	Hart &h = H[hi];
	if (h.sig.empty()) { trap(h, 7, 0); return; }
	Ctx &c = h.sig.back();
	for (int r : {2, 3, 4, 8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27}) if (h.x[r] != c.hx[r]) { trap(h, 8, r); return; }
	for (int r : {8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27}) if (h.f[r] != c.hf[r]) { trap(h, 8, 32 + r); return; }
	h.in_foreign = c.in_foreign; h.foreign_ret = c.foreign_ret; h.foreign_sp = c.foreign_sp;
	memcpy(h.x, c.x, sizeof h.x); memcpy(h.f, c.f, sizeof h.f); h.pc = c.pc; memcpy(h.xv, c.xv, sizeof h.xv); memcpy(h.fv, c.fv, sizeof h.fv);
	h.sig.pop_back(); h.res = false;
}
static void deliver(int hi, u64 arg) {
	Hart &h = H[hi];
	Ctx c; memcpy(c.x, h.x, sizeof c.x); memcpy(c.f, h.f, sizeof c.f); c.pc = h.pc; c.in_foreign = h.in_foreign; c.foreign_ret = h.foreign_ret; c.foreign_sp = h.foreign_sp; h.in_foreign = false; memcpy(c.xv, h.xv, sizeof c.xv); memcpy(c.fv, h.fv, sizeof c.fv);
	h.sig.push_back(c);
	u64 sp = h.x[2]; if (cfg.hash_pcs == 2) hashmix(st.hash, (u64)hi << 56 ^ arg << 48 ^ h.pc);
	for (u32 i = 0; i < cfg.poison && sp - 1 - i > h.stack_lo; i++) rawst(sp - 1 - i, 1, clob());
	sp = (sp - 128) & ~15ull;
	for (int r = 5; r < 32; r++) { h.x[r] = clob(); h.f[r] = clob(); }
	for (int r = 0; r < 5; r++) h.f[r] = clob();
	h.x[2] = sp; h.x[1] = SIGRET_PC; h.x[10] = arg; h.pc = cfg.handler; h.res = false;
	memcpy(h.sig.back().hx, h.x, sizeof h.x); memcpy(h.sig.back().hf, h.f, sizeof h.f);
	st.signals++;
}

static inline const Insn *fetch(Hart &h) {
	u64 pc = h.pc;
	if (pc < text_lo || pc >= text_hi || (pc & 1)) return nullptr;
	u64 i = (pc - text_lo) >> 1;
	if (!dvalid[i]) { u16 lo = (u16)ld(pc, 2); dcache[i] = (lo & 3) == 3 ? dec32((u32)ld(pc, 4)) : dec16(lo); dvalid[i] = 1; }
	return &dcache[i];
}
static bool is_shared_access(Hart &h, const Insn &n) {
	switch (n.op) {
	case O_LB: case O_LH: case O_LW: case O_LD: case O_LBU: case O_LHU: case O_LWU: case O_SB: case O_SH: case O_SW: case O_SD:
	case O_FLW: case O_FLD: case O_FSW: case O_FSD: {
		u64 a = h.x[n.rs1] + n.imm; return !isprivate(h, a) && !inro(a); }
	case O_LR: case O_SC: case O_AMO: case O_FENCE: return true;
	case O_ECALL: return true;
	}
	return false;
}
static void pushframe(Hart &h, u64 ret) {
	Frame f; f.ret = ret; f.sp = h.x[2]; f.gp = h.x[3]; f.tp = h.x[4]; for (int i = 0; i < 12; i++) { f.s[i] = h.x[SREG[i]]; f.f[i] = h.f[SREG[i]]; }
	h.frames.push_back(f);
}
// the innermost active call has returned: what must it have preserved?
static void popframe(Hart &h) {
	Frame f = h.frames.back(); h.frames.pop_back(); st.callchecks++;
	if (f.sp != h.x[2]) { trap(h, 9, 2); return; }
	if (f.gp != h.x[3]) { trap(h, 9, 3); return; }
	if (f.tp != h.x[4]) { trap(h, 9, 4); return; }
	for (int i = 0; i < 12; i++) { if (f.s[i] != h.x[SREG[i]]) { trap(h, 9, SREG[i]); return; } if (f.f[i] != h.f[SREG[i]]) { trap(h, 9, 32 + SREG[i]); return; } }
}
static inline void callhook(Hart &h, u64 target, u64 ret) {
	if (cfg.checkcalls && (!linux_mode || target == lmain || !h.frames.empty())) pushframe(h, ret);
	if (cfg.foreign_hi && !h.in_foreign && target >= cfg.foreign_lo && target < cfg.foreign_hi) { h.in_foreign = true; h.foreign_ret = ret; h.foreign_sp = h.x[2]; }
}
static void step(int hi) {
	Hart &h = H[hi];
	if (cfg.checkcalls && !h.frames.empty() && h.pc == h.frames.back().ret) { popframe(h); if (h.trap) return; }
	if (h.pc == EXIT_PC) { if (cfg.weak) { usex(hi, 10); usef(hi, 10); bindall(hi); } h.done = true; h.retv = h.x[10]; h.retf = h.f[10]; return; }
	if (h.pc == SIGRET_PC) {
		sigreturn(hi); return;
	}
	if (h.in_foreign && h.pc == h.foreign_ret && h.x[2] == h.foreign_sp) { h.in_foreign = false; clobber_caller_saved(h, true); }
	const Insn *pn = fetch(h);
	if (!pn || pn->op == O_ILL) { trap(h, 1, h.pc); return; }
	const Insn &n = *pn;
	u64 npc = h.pc + n.len; i64 imm = n.imm; h.icount++;
	if (h.x[2] < h.maxdepth_sp) h.maxdepth_sp = h.x[2];
	bool weak = cfg.weak;
	if (weak) {
		// binding of pending values before use, propagation of views
		switch (n.op) {
		case O_SD: if (isprivate(h, h.x[n.rs1] + n.imm)) { usex(hi, n.rs1); break; } usex(hi, n.rs1); usex(hi, n.rs2); break;
		case O_ADDI: if (n.imm == 0 && n.rs1) { break; } usex(hi, n.rs1); break; // mv
		case O_ADD: if (n.rs1 == 0) break; usex(hi, n.rs1); usex(hi, n.rs2); break;
		case O_LUI: case O_AUIPC: case O_JAL: case O_FENCE: case O_ECALL: case O_NOP: break;
		case O_FP: case O_FMA: for (int r = 0; r < 32; r++) usef(hi, r); usex(hi, n.rs1); break;
		case O_FSW: case O_FSD: usef(hi, n.rs2); usex(hi, n.rs1); break;
		case O_BEQ: case O_BNE: case O_BLT: case O_BGE: case O_BLTU: case O_BGEU: case O_SB: case O_SH: case O_SW: case O_SC: case O_AMO:
		case O_SUB: case O_SLL: case O_SLT: case O_SLTU: case O_XOR: case O_SRL: case O_SRA: case O_OR: case O_AND: case O_ADDW: case O_SUBW: case O_SLLW: case O_SRLW: case O_SRAW:
		case O_MUL: case O_MULH: case O_MULHSU: case O_MULHU: case O_DIV: case O_DIVU: case O_REM: case O_REMU: case O_MULW: case O_DIVW: case O_DIVUW: case O_REMW: case O_REMUW:
			usex(hi, n.rs1); usex(hi, n.rs2); break;
		default: usex(hi, n.rs1);
		}
		if (h.done) return;
		bool setsx = true; u64 vw = 0;
		switch (n.op) {
		case O_LB: case O_LH: case O_LW: case O_LD: case O_LBU: case O_LHU: case O_LWU: case O_FLW: case O_FLD: case O_SB: case O_SH: case O_SW: case O_SD: case O_FSW: case O_FSD:
		case O_BEQ: case O_BNE: case O_BLT: case O_BGE: case O_BLTU: case O_BGEU: case O_FENCE: case O_ECALL: case O_LR: case O_SC: case O_AMO: case O_NOP: setsx = false; break;
		case O_LUI: case O_AUIPC: case O_JAL: case O_JALR: vw = 0; break;
		case O_ADDI: vw = h.xv[n.rs1]; if (n.imm == 0 && n.rs1 && xt[hi][n.rs1].on) { if (n.rd) { xt[hi][n.rd] = xt[hi][n.rs1]; } setsx = false; h.pc = npc; now++; return; } break;
		case O_SLTI: case O_SLTIU: case O_XORI: case O_ORI: case O_ANDI: case O_SLLI: case O_SRLI: case O_SRAI: case O_ADDIW: case O_SLLIW: case O_SRLIW: case O_SRAIW: vw = h.xv[n.rs1]; break;
		case O_ADD: if (n.rs1 == 0 && xt[hi][n.rs2].on) { if (n.rd) xt[hi][n.rd] = xt[hi][n.rs2]; h.pc = npc; now++; return; } vw = std::max(h.xv[n.rs1], h.xv[n.rs2]); break;
		case O_FP: case O_FMA: setsx = false; h.fv[n.rd] = std::max(h.fv[n.rs1], h.fv[n.rs2]); if (n.rd && ((n.f >> 2) == 0x14 || (n.f >> 2) == 0x18 || (n.f >> 2) == 0x1c)) { xt[hi][n.rd].on = false; h.xv[n.rd] = h.fv[n.rs1]; } else { ft[hi][n.rd].on = false; if ((n.f >> 2) == 0x1a || (n.f >> 2) == 0x1e) h.fv[n.rd] = h.xv[n.rs1]; } break;
		default: vw = std::max(h.xv[n.rs1], h.xv[n.rs2]);
		}
		if (setsx && n.rd) { xt[hi][n.rd].on = false; h.xv[n.rd] = vw; }
		now++;
	} else now++;
	switch (n.op) {
	case O_LUI: X(n.rd) = imm; break;
	case O_AUIPC: X(n.rd) = h.pc + imm; break;
	case O_JAL: if (n.rd) { X(n.rd) = npc; if (n.rd == 1) callhook(h, h.pc + imm, npc); } npc = h.pc + imm; break;
	case O_JALR: { u64 t = (X(n.rs1) + imm) & ~1ull; if (n.rd) { X(n.rd) = npc; if (n.rd == 1) callhook(h, t, npc); } npc = t; break; }
	case O_BEQ: if (X(n.rs1) == X(n.rs2)) npc = h.pc + imm; break;
	case O_BNE: if (X(n.rs1) != X(n.rs2)) npc = h.pc + imm; break;
	case O_BLT: if ((i64)X(n.rs1) < (i64)X(n.rs2)) npc = h.pc + imm; break;
	case O_BGE: if ((i64)X(n.rs1) >= (i64)X(n.rs2)) npc = h.pc + imm; break;
	case O_BLTU: if (X(n.rs1) < X(n.rs2)) npc = h.pc + imm; break;
	case O_BGEU: if (X(n.rs1) >= X(n.rs2)) npc = h.pc + imm; break;
	case O_LB: if (!memload(hi, X(n.rs1) + imm, 1, n.rd, false, true, h.xv[n.rs1])) return; break;
	case O_LH: if (!memload(hi, X(n.rs1) + imm, 2, n.rd, false, true, h.xv[n.rs1])) return; break;
	case O_LW: if (!memload(hi, X(n.rs1) + imm, 4, n.rd, false, true, h.xv[n.rs1])) return; break;
	case O_LD: if (!memload(hi, X(n.rs1) + imm, 8, n.rd, false, false, h.xv[n.rs1])) return; break;
	case O_LBU: if (!memload(hi, X(n.rs1) + imm, 1, n.rd, false, false, h.xv[n.rs1])) return; break;
	case O_LHU: if (!memload(hi, X(n.rs1) + imm, 2, n.rd, false, false, h.xv[n.rs1])) return; break;
	case O_LWU: if (!memload(hi, X(n.rs1) + imm, 4, n.rd, false, false, h.xv[n.rs1])) return; break;
	case O_FLW: if (!memload(hi, X(n.rs1) + imm, 4, n.rd, true, false, h.xv[n.rs1])) return; break;
	case O_FLD: if (!memload(hi, X(n.rs1) + imm, 8, n.rd, true, false, h.xv[n.rs1])) return; break;
	case O_SB: if (!memstore(hi, X(n.rs1) + imm, 1, X(n.rs2), h.xv[n.rs2], nullptr)) return; break;
	case O_SH: if (!memstore(hi, X(n.rs1) + imm, 2, X(n.rs2), h.xv[n.rs2], nullptr)) return; break;
	case O_SW: if (!memstore(hi, X(n.rs1) + imm, 4, X(n.rs2), h.xv[n.rs2], nullptr)) return; break;
	case O_SD: if (!memstore(hi, X(n.rs1) + imm, 8, X(n.rs2), h.xv[n.rs2], weak ? &xt[hi][n.rs2] : nullptr)) return; break;
	case O_FSW: if (!memstore(hi, X(n.rs1) + imm, 4, h.f[n.rs2], h.fv[n.rs2], nullptr)) return; break;
	case O_FSD: if (!memstore(hi, X(n.rs1) + imm, 8, h.f[n.rs2], h.fv[n.rs2], nullptr)) return; break;
	case O_ADDI: X(n.rd) = X(n.rs1) + imm; break;
	case O_SLTI: X(n.rd) = (i64)X(n.rs1) < imm; break;
	case O_SLTIU: X(n.rd) = X(n.rs1) < (u64)imm; break;
	case O_XORI: X(n.rd) = X(n.rs1) ^ imm; break;
	case O_ORI: X(n.rd) = X(n.rs1) | imm; break;
	case O_ANDI: X(n.rd) = X(n.rs1) & imm; break;
	case O_SLLI: X(n.rd) = X(n.rs1) << imm; break;
	case O_SRLI: X(n.rd) = X(n.rs1) >> imm; break;
	case O_SRAI: X(n.rd) = (i64)X(n.rs1) >> imm; break;
	case O_ADDIW: X(n.rd) = (i64)(i32)(X(n.rs1) + imm); break;
	case O_SLLIW: X(n.rd) = (i64)(i32)((u32)X(n.rs1) << imm); break;
	case O_SRLIW: X(n.rd) = (i64)(i32)((u32)X(n.rs1) >> imm); break;
	case O_SRAIW: X(n.rd) = (i64)((i32)X(n.rs1) >> imm); break;
	case O_ADD: X(n.rd) = X(n.rs1) + X(n.rs2); break;
	case O_SUB: X(n.rd) = X(n.rs1) - X(n.rs2); break;
	case O_SLL: X(n.rd) = X(n.rs1) << (X(n.rs2) & 63); break;
	case O_SLT: X(n.rd) = (i64)X(n.rs1) < (i64)X(n.rs2); break;
	case O_SLTU: X(n.rd) = X(n.rs1) < X(n.rs2); break;
	case O_XOR: X(n.rd) = X(n.rs1) ^ X(n.rs2); break;
	case O_SRL: X(n.rd) = X(n.rs1) >> (X(n.rs2) & 63); break;
	case O_SRA: X(n.rd) = (i64)X(n.rs1) >> (X(n.rs2) & 63); break;
	case O_OR: X(n.rd) = X(n.rs1) | X(n.rs2); break;
	case O_AND: X(n.rd) = X(n.rs1) & X(n.rs2); break;
	case O_ADDW: X(n.rd) = (i64)(i32)(X(n.rs1) + X(n.rs2)); break;
	case O_SUBW: X(n.rd) = (i64)(i32)(X(n.rs1) - X(n.rs2)); break;
	case O_SLLW: X(n.rd) = (i64)(i32)((u32)X(n.rs1) << (X(n.rs2) & 31)); break;
	case O_SRLW: X(n.rd) = (i64)(i32)((u32)X(n.rs1) >> (X(n.rs2) & 31)); break;
	case O_SRAW: X(n.rd) = (i64)((i32)X(n.rs1) >> (X(n.rs2) & 31)); break;
	case O_MUL: X(n.rd) = X(n.rs1) * X(n.rs2); break;
	case O_MULH: X(n.rd) = (u64)(((__int128)(i64)X(n.rs1) * (__int128)(i64)X(n.rs2)) >> 64); break;
	case O_MULHSU: X(n.rd) = (u64)(((__int128)(i64)X(n.rs1) * (__int128)(unsigned __int128)X(n.rs2)) >> 64); break;
	case O_MULHU: X(n.rd) = (u64)(((unsigned __int128)X(n.rs1) * X(n.rs2)) >> 64); break;
	case O_DIV: X(n.rd) = divs(X(n.rs1), X(n.rs2)); break;
	case O_DIVU: X(n.rd) = X(n.rs2) ? X(n.rs1) / X(n.rs2) : ~0ull; break;
	case O_REM: X(n.rd) = rems(X(n.rs1), X(n.rs2)); break;
	case O_REMU: X(n.rd) = X(n.rs2) ? X(n.rs1) % X(n.rs2) : X(n.rs1); break;
	case O_MULW: X(n.rd) = (i64)(i32)((u32)X(n.rs1) * (u32)X(n.rs2)); break;
	case O_DIVW: X(n.rd) = divw(X(n.rs1), X(n.rs2)); break;
	case O_DIVUW: X(n.rd) = (u32)X(n.rs2) ? (i64)(i32)((u32)X(n.rs1) / (u32)X(n.rs2)) : ~0ull; break;
	case O_REMW: X(n.rd) = remw(X(n.rs1), X(n.rs2)); break;
	case O_REMUW: X(n.rd) = (u32)X(n.rs2) ? (i64)(i32)((u32)X(n.rs1) % (u32)X(n.rs2)) : (i64)(i32)X(n.rs1); break;
	case O_FENCE: { u32 p = (n.imm >> 4) & 15, s = n.imm & 15; memfence(hi, p & 3, s & 3); break; }
	case O_FENCEI: case O_NOP: break;
	case O_ECALL: h.pc = npc; service(hi); h.x[0] = 0; return;
	case O_EBREAK: trap(h, 5, 0); return;
	case O_CSR: {
		u32 csr = n.imm; u64 old = 0;
		if (csr == 1) old = h.fcsr & 31; else if (csr == 2) old = (h.fcsr >> 5) & 7; else if (csr == 3) old = h.fcsr; else if (csr == 0xc00 || csr == 0xc02) old = h.icount; else if (csr == 0xc01) old = now;
		u64 src = n.rm >= 5 ? n.rs1 : X(n.rs1), nv = old;
		switch (n.rm & 3) { case 1: nv = src; break; case 2: nv = old | src; break; case 3: nv = old & ~src; break; }
		if (csr == 1) h.fcsr = (h.fcsr & ~31u) | (nv & 31); else if (csr == 2) h.fcsr = (h.fcsr & 31) | ((nv & 7) << 5); else if (csr == 3) h.fcsr = nv & 255;
		X(n.rd) = old; break; }
	case O_LR: {
		u64 a = X(n.rs1); u32 sz = n.rm == 2 ? 4 : 8; if (!okaddr(a, sz) || (a & (sz - 1))) { trap(h, 2, a); return; }
		amo_before(hi, a, sz, n.imm & 2, n.imm & 1);
		u64 v = ld(a, sz); h.res = true; h.res_addr = a; h.res_size = sz;
		if (n.rd) { X(n.rd) = sz == 4 ? (u64)sx(v, 32) : v; h.xv[n.rd] = now; xt[hi][n.rd].on = false; }
		amo_after(hi, n.imm & 2); break; }
	case O_SC: {
		u64 a = X(n.rs1); u32 sz = n.rm == 2 ? 4 : 8; if (!okaddr(a, sz) || (a & (sz - 1))) { trap(h, 3, a); return; }
		u64 idx = h.scount++; bool inj = false;
		for (auto &f : faults) if (f.kind == 1 && f.hart == (u32)hi && f.at == idx) inj = true;
		if (cfg.fair_after && st.steps > cfg.fair_after) inj = false;
		amo_before(hi, a, sz, n.imm & 2, n.imm & 1);
		bool ok = h.res && h.res_addr == a && h.res_size == sz && !inj;
		if (h.res && inj) st.sc_fail_inj++; else if (!ok) st.sc_fail_nat++;
		if (ok) { globst(a, sz, X(n.rs2), hi); st.sc_ok++; }
		h.res = false;
		if (n.rd) { X(n.rd) = !ok; h.xv[n.rd] = 0; xt[hi][n.rd].on = false; }
		amo_after(hi, n.imm & 2); break; }
	case O_AMO: {
		u64 a = X(n.rs1); u32 sz = n.rm == 2 ? 4 : 8; if (!okaddr(a, sz) || (a & (sz - 1))) { trap(h, 3, a); return; }
		amo_before(hi, a, sz, n.imm & 2, n.imm & 1);
		u64 v = ld(a, sz); if (sz == 4) v = (u64)sx(v, 32); u64 b = X(n.rs2), r; if (sz == 4) b = (u64)sx(b, 32);
		switch (n.f) {
		case 0: r = v + b; break; case 1: r = b; break; case 4: r = v ^ b; break; case 8: r = v | b; break; case 12: r = v & b; break;
		case 16: r = (i64)v < (i64)b ? v : b; break; case 20: r = (i64)v > (i64)b ? v : b; break;
		case 24: r = sz == 4 ? ((u32)v < (u32)b ? v : b) : v < b ? v : b; break; case 28: r = sz == 4 ? ((u32)v > (u32)b ? v : b) : v > b ? v : b; break;
		default: trap(h, 1, h.pc); return; }
		globst(a, sz, r, hi); h.res = false;
		if (n.rd) { X(n.rd) = v; h.xv[n.rd] = now; xt[hi][n.rd].on = false; }
		amo_after(hi, n.imm & 2); break; }
	case O_FMA: {
		int k = n.f; bool d = n.imm & 1; 
		if (d) { double a = tod(h.f[n.rs1]), b = tod(h.f[n.rs2]), c = tod(h.f[n.rs3]); double r = k == 0 ? fma(a, b, c) : k == 1 ? fma(a, b, -c) : k == 2 ? fma(-a, b, c) : fma(-a, b, -c); h.f[n.rd] = fromd(r); }
		else { float a = tof(h.f[n.rs1]), b = tof(h.f[n.rs2]), c = tof(h.f[n.rs3]); float r = k == 0 ? fmaf(a, b, c) : k == 1 ? fmaf(a, b, -c) : k == 2 ? fmaf(-a, b, c) : fmaf(-a, b, -c); h.f[n.rd] = fromf(r); }
		break; }
	case O_FP: if (!fpop(h, n)) { trap(h, 1, h.pc); return; } break;
	default: trap(h, 1, h.pc); return;
	}
	h.x[0] = 0; h.pc = npc;
}

// ---------------------------------------------------------------- scheduler
static void bgdrain(int k, u64 id, u64 at) { if (cfg.record) decs.push_back({(u32)k, (u32)at, 4, (u32)id}); drain(k, id); }
static void bgexplicit(u64 at) { if (drains_in.empty()) return; auto it = drains_in.find(at); if (it == drains_in.end()) return; for (auto &p : it->second) if (p.first < NH) drain(p.first, p.second); }
static bool runnable(int i) { return H[i].used && !H[i].done && !H[i].waiting; }
static int pick_random() { int c[64], n = 0; for (int i = 0; i < NH; i++) if (runnable(i)) c[n++] = i; return n ? c[rnd() % n] : -1; }
static int pick_other(int not_) { int c[64], n = 0; for (int i = 0; i < NH; i++) if (runnable(i) && i != not_) c[n++] = i; return n ? c[rnd() % n] : (runnable(not_) ? not_ : -1); }
static int pick_prio() { int b = -1; for (int i = 0; i < NH; i++) if (runnable(i) && (b < 0 || H[i].prio > H[b].prio)) b = i; return b; }

extern "C" {
int sim_create(u64 size) { if (mem) { free(mem); } memsize = size; mem = (u8 *)calloc(1, size); dirty.assign(size >> 12, 0); return mem ? 0 : -1; }
int sim_load(const char *path) {
	for (u32 p : dirtylist) memset(mem + ((u64)p << 12), 0, 4096);
	memset(mem, 0, std::min<u64>(memsize, image.size()));
	dirtylist.clear(); std::fill(dirty.begin(), dirty.end(), 0); syms.clear(); image.clear(); tls_memsz = tls_filesz = tls_image = 0; tls_align = 1;
	FILE *f = fopen(path, "rb"); if (!f) return -1;
	fseek(f, 0, SEEK_END); long sz = ftell(f); fseek(f, 0, SEEK_SET); std::vector<u8> b(sz); if (fread(b.data(), 1, sz, f) != (size_t)sz) { fclose(f); return -1; } fclose(f);
	Elf64_Ehdr *eh = (Elf64_Ehdr *)b.data(); Elf64_Phdr *ph = (Elf64_Phdr *)(b.data() + eh->e_phoff);
	text_lo = ~0ull; text_hi = 0; u64 top = 0; entry_pc = eh->e_entry; ro_lo = ~0ull; ro_hi = 0;
	for (int i = 0; i < eh->e_phnum; i++) {
		if (ph[i].p_type == PT_TLS) { tls_image = ph[i].p_vaddr; tls_filesz = ph[i].p_filesz; tls_memsz = ph[i].p_memsz; tls_align = ph[i].p_align; }
		if (ph[i].p_type != PT_LOAD) continue;
		if (ph[i].p_vaddr + ph[i].p_memsz > memsize) return -2;
		memcpy(mem + ph[i].p_vaddr, b.data() + ph[i].p_offset, ph[i].p_filesz);
		top = std::max<u64>(top, ph[i].p_vaddr + ph[i].p_memsz);
		if (ph[i].p_flags & PF_X) { text_lo = std::min<u64>(text_lo, ph[i].p_vaddr); text_hi = std::max<u64>(text_hi, ph[i].p_vaddr + ph[i].p_memsz); }
		if (!(ph[i].p_flags & PF_W)) { ro_lo = std::min<u64>(ro_lo, ph[i].p_vaddr); ro_hi = std::max<u64>(ro_hi, ph[i].p_vaddr + ph[i].p_memsz); }
	}
	image.assign(mem, mem + ((top + 4095) & ~4095ull));
	Elf64_Shdr *sh = (Elf64_Shdr *)(b.data() + eh->e_shoff);
	for (int i = 0; i < eh->e_shnum; i++) {
		if (sh[i].sh_type == SHT_SYMTAB) {
			Elf64_Sym *s = (Elf64_Sym *)(b.data() + sh[i].sh_offset); const char *str = (char *)b.data() + sh[sh[i].sh_link].sh_offset;
			for (u64 k = 0; k < sh[i].sh_size / sizeof *s; k++) if (s[k].st_shndx && str[s[k].st_name]) { auto &e = syms[str + s[k].st_name]; if (!e.first || ELF64_ST_BIND(s[k].st_info) == STB_GLOBAL) e = {s[k].st_value, s[k].st_size}; }
		}
	}
	// .got and .data.rel.ro style sections are constant too
	const char *shstr = (char *)b.data() + sh[eh->e_shstrndx].sh_offset;
	got_lo = got_hi = 0;
	for (int i = 0; i < eh->e_shnum; i++) if (!strcmp(shstr + sh[i].sh_name, ".got")) { got_lo = sh[i].sh_addr; got_hi = got_lo + sh[i].sh_size; }
	dcache.assign((text_hi - text_lo) / 2 + 2, Insn()); dvalid.assign(dcache.size(), 0);
	return 0;
}
u64 sim_sym(const char *n) { auto it = syms.find(n); return it == syms.end() ? 0 : it->second.first; }
u64 sim_symsize(const char *n) { auto it = syms.find(n); return it == syms.end() ? 0 : it->second.second; }
u64 sim_info(int k) { switch (k) { case 0: return tls_image; case 1: return tls_filesz; case 2: return tls_memsz; case 3: return tls_align; case 4: return text_lo; case 5: return text_hi; case 6: return image.size(); case 7: return entry_pc; case 8: return ro_lo; case 9: return ro_hi; } return 0; }
void sim_newphase() { // fresh harts, memory as it is
	for (int i = 0; i < 64; i++) { H[i] = Hart(); memset(H[i].x, 0, sizeof H[i].x); memset(H[i].f, 0, sizeof H[i].f); H[i].used = false; coh[i].clear(); privview[i].clear(); memtok[i].clear();
		for (int r = 0; r < 32; r++) xt[i][r].on = ft[i][r].on = false; memset(H[i].xv, 0, sizeof H[i].xv); memset(H[i].fv, 0, sizeof H[i].fv);
		H[i].done = H[i].waiting = false; H[i].trap = 0; H[i].icount = H[i].scount = 0; H[i].res = false; H[i].fcsr = 0; H[i].in_foreign = false; H[i].stall = 0; H[i].decidx = 0; H[i].nld = H[i].nst = 0;
		H[i].ld_req_ld = H[i].ld_req_st = H[i].st_req_ld = H[i].st_req_st = 0; H[i].lfloor = 0; H[i].inpos = 0; H[i].retv = H[i].retf = 0; H[i].group = -1; H[i].prio = 0; H[i].maxdepth_sp = ~0ull; }
	NH = 0; sharedmem.clear(); watch.clear(); events.clear(); segs.clear(); segs_in.clear(); faults.clear(); decs.clear(); decs_in.clear(); drains_in.clear(); devlog.clear(); devin.clear(); devpos = 0; hist.clear(); now = 0;
	memset(&st, 0, sizeof st); linux_mode = false;
}
void sim_reset() {
	for (u32 p : dirtylist) { dirty[p] = 0; u64 a = (u64)p << 12; if (a < image.size()) memcpy(mem + a, image.data() + a, 4096); else memset(mem + a, 0, 4096); }
	dirtylist.clear();
	sim_newphase();
}
void sim_snapshot() { // memory as it is becomes the initial image
	for (u32 p : dirtylist) { u64 a = (u64)p << 12; if (a < image.size()) { memcpy(image.data() + a, mem + a, 4096); dirty[p] = 0; } }
	std::vector<u32> d; for (u32 p : dirtylist) if (dirty[p]) d.push_back(p); dirtylist = d;
}
int sim_hart(u64 pc, u64 stack_lo, u64 stack_hi, u64 sp, u64 tp, const u64 *args, int nargs, u64 regseed) {
	Hart &h = H[NH]; u64 s = regseed;
	for (int r = 1; r < 32; r++) { h.x[r] = regseed ? smix(s) : 0; h.f[r] = regseed ? smix(s) : 0; } h.f[0] = regseed ? smix(s) : 0;
	h.x[0] = 0; h.pc = pc; h.x[1] = EXIT_PC; h.x[2] = sp; h.x[4] = tp; if (sim_sym("__global_pointer$")) h.x[3] = sim_sym("__global_pointer$");
	for (int i = 0; i < nargs; i++) h.x[10 + i] = args[i];
	h.stack_lo = stack_lo; h.stack_hi = stack_hi; h.used = true;
	return NH++;
}
void sim_cfg(const Cfg *c) { cfg = *c; }
void sim_faults(const Fault *f, int n) { faults.assign(f, f + n); }
void sim_segs(const Seg *s, int n) { segs_in.assign(s, s + n); }
void sim_decs(const Dec *d, int n) { decs_in.clear(); drains_in.clear(); for (int i = 0; i < n; i++) if (d[i].kind == 4) drains_in[d[i].idx].push_back({(int)d[i].hart, d[i].val}); else decs_in[(u64)d[i].hart << 32 | d[i].idx] = d[i].val; }
void sim_input(int h, const u64 *v, int n) { H[h].in.assign(v, v + n); H[h].inpos = 0; }
void sim_devin(const u64 *v, int n) { devin.assign(v, v + n); devpos = 0; }
void sim_group(int h, int g) { H[h].group = g; }
int sim_write(u64 a, const void *p, u64 n) { if (!okaddr(a, n ? n : 1)) return -1; put(a, p, n); return 0; }
int sim_read(u64 a, void *p, u64 n) { if (!okaddr(a, n ? n : 1)) return -1; memcpy(p, mem + a, n); return 0; }
void sim_fill(u64 a, u64 n, u64 seed) { u64 s = seed; for (u64 i = 0; i + 8 <= n; i += 8) { u64 v = smix(s); rawst(a + i, 8, v); } }
void sim_setro(u64 lo, u64 hi) { ro_lo = lo; ro_hi = hi; }
// run; returns 0 all done, 1 step limit, 2 trap, 3 deadlock
int sim_run() {
	if (linux_mode) { lmain = 0; auto it = syms.find("main"); if (it != syms.end()) lmain = it->second.first; }
	if (cfg.checkcalls && !linux_mode) for (int i = 0; i < NH; i++) { H[i].frames.clear(); pushframe(H[i], EXIT_PC); }
	rseed(cfg.seed); clob_s = cfg.seed * 77 + 5;
	cur = -1; size_t si = 0; u32 sleft = 0; u64 quant = 0; std::vector<u64> pts;
	if (cfg.policy == 2) { yprio = 1000000000; for (int i = 0; i < NH; i++) H[i].prio = 2000000000 + rnd() % 1000000; for (u32 i = 0; i < cfg.pct_points; i++) pts.push_back(rnd() % (cfg.est_len + 1)); std::sort(pts.begin(), pts.end()); }
	size_t pi = 0; std::vector<size_t> nextf(NH, 0);
	std::vector<std::vector<Fault>> fs(NH); for (auto &f : faults) if (f.kind >= 2 && f.hart < (u32)NH) fs[f.hart].push_back(f);
	for (auto &v : fs) std::stable_sort(v.begin(), v.end(), [](const Fault &a, const Fault &b) { return a.at < b.at; });
	int rr = 0; int ret = 0; u32 fairleft = 0;
	for (;;) {
		int alive = 0, run = 0; bool anystall = false;
		if (cur >= 0 && runnable(cur) && !need_resched && H[cur].stall <= st.steps) { run = 1; alive = 1; }
		else {
			for (int i = 0; i < NH; i++) { if (H[i].used && !H[i].done) alive++; if (runnable(i)) run++; }
			if (!alive) { ret = 0; break; }
			if (!run) { // all coroutines wait: wake all (they yield to each other)
				for (int i = 0; i < NH; i++) H[i].waiting = false;
				run = alive;
			}
		}
		if (st.steps >= cfg.max_steps) { ret = 1; break; }
		bool fair = cfg.fair_after && st.steps >= cfg.fair_after;
		int next = cur; bool must = cur < 0 || !runnable(cur) || need_resched; 
		bool coop = need_resched && cur >= 0 && H[cur].waiting, gave = need_resched && cur >= 0 && !coop;
		need_resched = false;
		if (fair) { if (must || fairleft == 0) { fairleft = 64; for (int k = 1; k <= NH; k++) { int c = (rr + k) % NH; if (runnable(c)) { next = c; rr = c; break; } } } else fairleft--; }
		else switch (cfg.policy) {
		case 0: if (must) { next = -1; for (int k = 0; k < NH; k++) { int c = gave ? (cur + 1 + k) % NH : k; if (runnable(c)) { next = c; break; } } } break;
		case 1: if (must || chance(cfg.p_switch)) next = pick_random(); break;
		case 2: while (pi < pts.size() && st.steps >= pts[pi]) { if (cur >= 0) H[cur].prio = pts.size() - pi; pi++; } next = pick_prio(); break;
		case 3: if (must || quant == 0) { next = pick_random(); quant = 1 + rnd() % (cfg.quantum ? cfg.quantum : 1); } else quant--; break;
		case 4: if (must) next = pick_random(); else { const Insn *pn = (H[cur].pc >= text_lo && H[cur].pc < text_hi) ? fetch(H[cur]) : nullptr; if (pn && is_shared_access(H[cur], *pn) && chance(cfg.p_switch)) next = pick_other(cur); } break;
		case 5:
			while (sleft == 0 && si < segs_in.size()) { sleft = segs_in[si].n; next = segs_in[si].hart; si++; if (next >= NH || !runnable(next)) sleft = 0; }
			if (sleft > 0 && runnable(next)) sleft--;
			else { sleft = 0; if (!(cur >= 0 && runnable(cur) && !coop && !gave)) { next = -1; for (int k = 0; k < NH; k++) { int c = gave ? (cur + 1 + k) % NH : k; if (runnable(c)) { next = c; break; } } } else next = cur; }
			break;
		}
		if (next < 0 || !runnable(next)) { next = -1; for (int k = 0; k < NH; k++) if (runnable(k)) { next = k; break; } if (next < 0) { continue; } }
		if (!fair && cfg.policy != 5 && H[next].stall > st.steps) { // stalled: somebody else, if anybody can
			int o = -1; for (int k = 0; k < NH; k++) if (runnable(k) && H[k].stall <= st.steps) { o = k; break; }
			if (o >= 0) next = o; (void)anystall;
		}
		if (next != cur) { st.switches++; if (cfg.hash_pcs == 2) hashmix(st.hash, (u64)next << 48 ^ H[next].pc ^ (cur >= 0 ? H[cur].pc << 20 : 0)); cur = next; }
		if (cfg.record) { if (!segs.empty() && segs.back().hart == (u32)cur) segs.back().n++; else segs.push_back({(u32)cur, 1}); }
		// faults due
		Hart &h = H[cur];
		auto &fv = fs[cur];
		while (nextf[cur] < fv.size() && fv[nextf[cur]].at <= h.icount) {
			Fault &f = fv[nextf[cur]];
			if (fair) { nextf[cur]++; continue; }
			if (f.kind == 2) {
				if (h.pc == EXIT_PC || h.pc == SIGRET_PC) break;
				if (cfg.nosig_hi && h.pc >= cfg.nosig_lo && h.pc < cfg.nosig_hi) break; // later
				if (h.sig.size() >= 3) break;
				nextf[cur]++; deliver(cur, f.arg); if (h.sig.size() > 1) { }
				break;
			} else if (f.kind == 4) { // an interruption that uses the stack below sp, and returns
				u64 sp = h.x[2]; for (u64 i = 0; i < f.arg && sp - 1 - i > h.stack_lo; i++) rawst(sp - 1 - i, 1, clob());
				h.res = false; st.signals++; if (cfg.hash_pcs == 2) hashmix(st.hash, h.pc ^ f.arg << 48); nextf[cur]++; continue;
			} else if (f.kind == 3) { h.stall = st.steps + f.arg; st.stalls++; nextf[cur]++; break; }
			else nextf[cur]++;
		}
		if (cfg.hash_pcs == 1) { const Insn *pn = (h.pc >= text_lo && h.pc < text_hi) ? fetch(h) : nullptr; if (pn && is_shared_access(h, *pn)) { st.shared_acc++; hashmix(st.hash, (u64)cur << 48 ^ h.pc); } }
		if (cfg.weak && !h.buf.empty() && !cfg.weak_explicit && chance(fair ? 512 : cfg.p_drain)) { auto &b = h.buf; bgdrain(cur, b[rnd() % b.size()].id, st.steps * 2); }
		else if (cfg.weak_explicit) bgexplicit(st.steps * 2);
		if (linux_mode && NH == 1 && !cfg.weak && !cfg.record && cfg.policy == 0) { // one hart: up to the next fault
			u64 lim = std::min<u64>(cfg.max_steps - st.steps, nextf[cur] < fv.size() && fv[nextf[cur]].at > h.icount ? fv[nextf[cur]].at - h.icount : 1); if (nextf[cur] >= fv.size()) lim = cfg.max_steps - st.steps;
			do { step(0); st.steps++; } while (--lim && !h.done);
		} else { step(cur); st.steps++; }
		if (H[cur].trap) { ret = 2; break; }
		if (linux_mode && lexited) { ret = 0; break; }
		// buffered stores of other harts drain in the background
		if (cfg.weak && (st.steps & 3) == 0 && !cfg.weak_explicit) { int k = rnd() % NH; if (!H[k].buf.empty() && chance(cfg.p_drain)) { auto &b = H[k].buf; bgdrain(k, b[rnd() % b.size()].id, st.steps * 2 - 1); } }
		else if (cfg.weak_explicit) bgexplicit(st.steps * 2 - 1);
	}
	if (cfg.weak) for (int i = 0; i < NH; i++) { bindall(i); drainall(i); }
	hashmix(st.fhash, ret); for (auto &e : events) { hashmix(st.fhash, e.hart); hashmix(st.fhash, e.step); for (u64 v : e.a) hashmix(st.fhash, v); } hashmix(st.fhash, st.steps); for (int i = 0; i < NH; i++) { hashmix(st.fhash, H[i].retv); hashmix(st.fhash, H[i].icount); }
	for (auto &d : devlog) { hashmix(st.fhash, d.addr); hashmix(st.fhash, d.val); }
	return ret;
}
int sim_nevents() { return events.size(); }
const Event *sim_events() { return events.data(); }
int sim_nsegs() { return segs.size(); }
const Seg *sim_getsegs() { return segs.data(); }
int sim_ndecs() { return decs.size(); }
const Dec *sim_getdecs() { return decs.data(); }
int sim_ndev() { return devlog.size(); }
const DevAcc *sim_dev() { return devlog.data(); }
const Stats *sim_stats() { return &st; }
// k: 0 retv 1 done 2 trap 3 trap_addr 4 trap_pc 5 icount 6 scount 7 retf 8 sp 9 pc 10 min sp
u64 sim_hartget(int h, int k) { Hart &x = H[h]; switch (k) { case 0: return x.retv; case 1: return x.done; case 2: return x.trap; case 3: return x.trap_addr; case 4: return x.trap_pc; case 5: return x.icount; case 6: return x.scount; case 7: return x.retf; case 8: return x.x[2]; case 9: return x.pc; case 10: return x.maxdepth_sp; } return 0; }
u64 sim_reg(int h, int r) { return r < 32 ? H[h].x[r] : H[h].f[r - 32]; }
void sim_setreg(int h, int r, u64 v) { if (r < 32) H[h].x[r] = v; else H[h].f[r - 32] = v; }
// linux personality
void lx_init(u64 brk, u64 mmap_top, u32 shortio) { linux_mode = true; lfs.clear(); lfd.clear(); lout.clear(); lerr.clear(); lin.clear(); linpos = 0; lwritten.clear(); brk_cur = brk; mmap_cur = mmap_top; lexited = false; lexit = -1; lshort = shortio; lsys = 0; got_lo = got_hi = 0; }
void lx_file(const char *name, const char *data, u64 n) { lfs[canon(name)] = std::string(data, n); }
void lx_stdin(const char *data, u64 n) { lin.assign(data, n); }
int lx_exit() { return lexited ? lexit : -1; }
u64 lx_out(int which, const char *name, const char **p) { std::string *s; if (which == 1) s = &lout; else if (which == 2) s = &lerr; else { auto it = lwritten.find(canon(name)); if (it == lwritten.end()) { *p = nullptr; return ~0ull; } s = &it->second; } *p = s->data(); return s->size(); }
u64 lx_nsys() { return lsys; }
}
