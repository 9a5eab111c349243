// Hash-consed bit-vector expressions (width 1..64), with constant folding and light simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <string>
#include <bitset>
#include <cassert>
#include <algorithm>

typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32; typedef int32_t s32; typedef uint8_t u8; typedef uint16_t u16;

enum EOp : u8 { E_CONST, E_SYM, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
	E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT };

static const int MAXSYM = 256;
typedef std::bitset<MAXSYM> Syms;

struct Expr {
	EOp op; u8 w; u8 nk; u8 flags;
	u32 id;
	u64 v;              // const value; symbol index; extract low bit
	const Expr* k[3];
	Syms syms;
	u64 lo, hi;         // unsigned interval
	void* z3;           // cached Z3_ast
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline s64 sx(u64 v, unsigned w) { return w >= 64 ? (s64)v : (s64)(v << (64 - w)) >> (64 - w); }

struct ExprCtx {
	std::vector<Expr*> all;
	std::vector<Expr*> table; size_t used = 0;
	std::vector<char*> chunks; size_t chunkUsed = 1 << 30;
	ExprCtx() : table(1 << 16) {}
	static u64 h(EOp op, u8 w, u64 v, const Expr* a, const Expr* b, const Expr* c) {
		u64 x = (u64)op * 0x9E3779B97F4A7C15ull ^ (u64)w << 56;
		auto mix = [&](u64 y) { x ^= y + 0x9E3779B97F4A7C15ull + (x << 6) + (x >> 2); x *= 0xff51afd7ed558ccdull; x ^= x >> 32; };
		mix(v); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0);
		return x;
	}
	void grow() {
		std::vector<Expr*> n(table.size() * 2);
		for (auto* e : table) if (e) { u64 i = h(e->op, e->w, e->v, e->k[0], e->k[1], e->k[2]) & (n.size() - 1); while (n[i]) i = (i + 1) & (n.size() - 1); n[i] = e; }
		table.swap(n);
	}
	const Expr* raw(EOp op, unsigned w, u64 v, const Expr* a = nullptr, const Expr* b = nullptr, const Expr* c = nullptr) {
		u64 i = h(op, w, v, a, b, c) & (table.size() - 1);
		for (; table[i]; i = (i + 1) & (table.size() - 1)) {
			Expr* e = table[i];
			if (e->op == op && e->w == w && e->v == v && e->k[0] == a && e->k[1] == b && e->k[2] == c) return e;
		}
		if (chunkUsed + sizeof(Expr) > (1 << 20)) { chunks.push_back((char*)malloc(1 << 20)); chunkUsed = 0; }
		Expr* e = new (chunks.back() + chunkUsed) Expr(); chunkUsed += sizeof(Expr);
		e->op = op; e->w = w; e->v = v; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->nk = c ? 3 : b ? 2 : a ? 1 : 0; e->z3 = nullptr;
		e->id = all.size();
		if (op == E_SYM) e->syms.set(v % MAXSYM);
		for (int j = 0; j < e->nk; j++) e->syms |= e->k[j]->syms;
		interval(e);
		all.push_back(e);
		table[i] = e;
		if (++used * 2 > table.size()) grow();
		return e;
	}
	void interval(Expr* e) {
		u64 m = maskw(e->w); e->lo = 0; e->hi = m;
		const Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
		switch (e->op) {
		case E_CONST: e->lo = e->hi = e->v; break;
		case E_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
		case E_SEXT: if (a->hi <= maskw(a->w - 1)) { e->lo = a->lo; e->hi = a->hi; } break;
		case E_ADD: if (!__builtin_add_overflow(a->hi, b->hi, &e->hi) && e->hi <= m) e->lo = a->lo + b->lo; else e->lo = 0, e->hi = m; break;
		case E_SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
		case E_MUL: { u64 r; if (!__builtin_mul_overflow(a->hi, b->hi, &r) && r <= m) { e->hi = r; e->lo = a->lo * b->lo; } break; }
		case E_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
		case E_UREM: if (b->lo > 0) { if (a->hi < b->lo) { e->lo = a->lo; e->hi = a->hi; } else e->hi = std::min(a->hi, b->hi - 1); } break;
		case E_AND: e->hi = std::min(a->hi, b->hi); break;
		case E_OR: case E_XOR: { u64 x = a->hi | b->hi; x |= x >> 1; x |= x >> 2; x |= x >> 4; x |= x >> 8; x |= x >> 16; x |= x >> 32; e->hi = x & m; if (e->op == E_OR) e->lo = std::max(a->lo, b->lo); break; }
		case E_SHL: if (b->op == E_CONST && b->v < e->w && a->hi <= (m >> b->v)) { e->lo = a->lo << b->v; e->hi = a->hi << b->v; } break;
		case E_LSHR: if (b->op == E_CONST && b->v < e->w) { e->lo = a->lo >> b->v; e->hi = a->hi >> b->v; } else e->hi = a->hi; break;
		case E_ITE: e->lo = std::min(b->lo, c->lo); e->hi = std::max(b->hi, c->hi); break;
		case E_CONCAT: e->lo = a->lo << b->w | (a->lo == a->hi ? b->lo : 0); e->hi = a->hi << b->w | (a->lo == a->hi ? b->hi : maskw(b->w)); break;
		case E_EXTRACT: { u64 lo = a->lo >> e->v, hi = a->hi >> e->v; if (hi <= m) { e->lo = lo; e->hi = hi; } break; }
		default: break;
		}
	}
};

extern ExprCtx EC;

static inline const Expr* eConst(u64 v, unsigned w) { return EC.raw(E_CONST, w, v & maskw(w)); }
static inline const Expr* eSym(u64 idx, unsigned w) { return EC.raw(E_SYM, w, idx); }
static inline bool isC(const Expr* e) { return e->op == E_CONST; }

u64 foldOp(EOp op, unsigned w, u64 a, u64 b, bool* ok);
const Expr* mk(EOp op, const Expr* a, const Expr* b);
const Expr* mkIte(const Expr* c, const Expr* a, const Expr* b);
const Expr* mkExtract(const Expr* a, unsigned lo, unsigned w);
const Expr* mkConcat(const Expr* hi, const Expr* lo);
const Expr* mkZext(const Expr* a, unsigned w);
const Expr* mkSext(const Expr* a, unsigned w);
static inline const Expr* mkNot(const Expr* a) { return mk(E_XOR, a, eConst(1, 1)); }
std::string show(const Expr* e, int depth = 6);
