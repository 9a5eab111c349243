#include "expr.h"
ExprCtx EC;

u64 foldOp(EOp op, unsigned w, u64 a, u64 b, bool* ok) {
	u64 m = maskw(w); *ok = true;
	switch (op) {
	case E_ADD: return (a + b) & m;
	case E_SUB: return (a - b) & m;
	case E_MUL: return (a * b) & m;
	case E_UDIV: if (!b) { *ok = false; return 0; } return a / b;
	case E_UREM: if (!b) { *ok = false; return 0; } return a % b;
	case E_SDIV: if (!b || (sx(b, w) == -1)) { if (!b) { *ok = false; return 0; } return (0 - a) & m; } return (u64)(sx(a, w) / sx(b, w)) & m;
	case E_SREM: if (!b || (sx(b, w) == -1)) { if (!b) { *ok = false; return 0; } return 0; } return (u64)(sx(a, w) % sx(b, w)) & m;
	case E_AND: return a & b;
	case E_OR: return a | b;
	case E_XOR: return a ^ b;
	case E_SHL: return b >= w ? 0 : (a << b) & m;
	case E_LSHR: return b >= w ? 0 : a >> b;
	case E_ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
	case E_EQ: return a == b;
	case E_ULT: return a < b;
	case E_ULE: return a <= b;
	case E_SLT: return sx(a, w) < sx(b, w);
	case E_SLE: return sx(a, w) <= sx(b, w);
	default: *ok = false; return 0;
	}
}

static bool isBoolOp(EOp o) { return o >= E_EQ && o <= E_SLE; }

static bool xorTerms(const Expr* e, std::vector<const Expr*>& l, u64& c) {
	if (l.size() > 200) return false;
	if (isC(e)) { c ^= e->v; return true; }
	if (e->op == E_XOR) return xorTerms(e->k[0], l, c) && xorTerms(e->k[1], l, c);
	l.push_back(e); return true;
}
const Expr* mk(EOp op, const Expr* a, const Expr* b) {
	unsigned w = a->w;
	assert(a->w == b->w);
	if (isC(a) && isC(b)) { bool ok; u64 r = foldOp(op, w, a->v, b->v, &ok); if (ok) return eConst(r, isBoolOp(op) ? 1 : w); }
	// canonical: constant on the right for commutative
	if ((op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ)) {
		if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
	}
	u64 m = maskw(w);
	switch (op) {
	case E_ADD:
		if (isC(b)) {
			if (b->v == 0) return a;
			if (a->op == E_ADD && isC(a->k[1])) return mk(E_ADD, a->k[0], eConst(a->k[1]->v + b->v, w));
		}
		if (b->op == E_SUB && b->k[1] == a) return b->k[0];
		if (a->op == E_SUB && a->k[1] == b) return a->k[0];
		break;
	case E_SUB:
		if (a == b) return eConst(0, w);
		if (a->op == E_ADD && a->k[0] == b) return a->k[1];
		if (a->op == E_ADD && a->k[1] == b) return a->k[0];
		if (isC(b)) return mk(E_ADD, a, eConst(0 - b->v, w));
		if (a->op == E_ADD && isC(a->k[1]) && a->k[0] == b) return a->k[1];
		break;
	case E_MUL:
		if (isC(b)) {
			if (b->v == 0) return b;
			if (b->v == 1) return a;
			if ((b->v & (b->v - 1)) == 0) return mk(E_SHL, a, eConst(__builtin_ctzll(b->v), w));
		}
		break;
	case E_UDIV: if (isC(b) && b->v && a->op == E_ZEXT && b->v <= maskw(a->k[0]->w)) return mkZext(mk(E_UDIV, a->k[0], eConst(b->v, a->k[0]->w)), w);
		if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return mk(E_LSHR, a, eConst(__builtin_ctzll(b->v), w)); break;
	case E_UREM: if (isC(b) && b->v && a->op == E_ZEXT && b->v <= maskw(a->k[0]->w)) return mkZext(mk(E_UREM, a->k[0], eConst(b->v, a->k[0]->w)), w);
		if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return mk(E_AND, a, eConst(b->v - 1, w)); if (a->hi < b->lo) return a; break;
	case E_SREM: case E_SDIV: {
		u64 half = maskw(w - 1);
		if (a->hi <= half && b->hi <= half) return mk(op == E_SREM ? E_UREM : E_UDIV, a, b);
		if (isC(b) && b->v && b->v <= half && (b->v & (b->v - 1)) == 0) { // a power of two
			unsigned k = __builtin_ctzll(b->v);
			if (k == 0) return op == E_SREM ? eConst(0, w) : a;
			const Expr *t = mk(E_AND, a, eConst(b->v - 1, w)), *neg = mk(E_AND, mk(E_SLT, a, eConst(0, w)), mkNot(mk(E_EQ, t, eConst(0, w))));
			if (op == E_SREM) return mkIte(neg, mk(E_SUB, t, b), t);
			return mk(E_ADD, mk(E_ASHR, a, eConst(k, w)), mkZext(neg, w));
		}
		break; }
	case E_AND:
		if (a == b) return a;
		if (isC(b)) {
			if (b->v == 0) return b;
			if (b->v == m) return a;
			if (a->op == E_AND && isC(a->k[1])) return mk(E_AND, a->k[0], eConst(a->k[1]->v & b->v, w));
			// low-bit mask that covers the interval
			if ((b->v & (b->v + 1)) == 0 && a->hi <= b->v) return a;
			if ((b->v & (b->v + 1)) == 0) { unsigned n = __builtin_popcountll(b->v); return mkZext(mkExtract(a, 0, n), w); }
		}
		break;
	case E_OR:
		if (a == b) return a;
		if (isC(b)) { if (b->v == 0) return a; if (b->v == m) return b; }
		break;
	case E_XOR:
		if (a == b) return eConst(0, w);
		if (w == 1 && (a->op == E_XOR || b->op == E_XOR) && !(isC(b) && b->v == 0)) { // a sum over GF(2): sorted, equal terms cancel
			std::vector<const Expr*> l; u64 c = 0;
			if (xorTerms(a, l, c) && xorTerms(b, l, c)) {
				std::sort(l.begin(), l.end(), [](const Expr* x, const Expr* y) { return x->id < y->id; });
				std::vector<const Expr*> o;
				for (auto* t : l) { if (!o.empty() && o.back() == t) o.pop_back(); else o.push_back(t); }
				if (o.size() >= 2) {
					const Expr* r = o[0]; for (size_t i = 1; i < o.size(); i++) r = EC.raw(E_XOR, 1, 0, r, o[i]);
					return c ? EC.raw(E_XOR, 1, 0, r, eConst(1, 1)) : r;
				}
				return o.empty() ? eConst(c, 1) : c ? mkNot(o[0]) : o[0];
			}
		}
		for (int k = 0; k < 2; k++) { // bit vectors made of single bits: bit by bit
			const Expr *x = k ? b : a, *y = k ? a : b;
			if (x->op == E_CONCAT && (x->k[0]->w == 1 || x->k[1]->w == 1)) { unsigned lw = x->k[1]->w; return mkConcat(mk(E_XOR, x->k[0], mkExtract(y, lw, w - lw)), mk(E_XOR, x->k[1], mkExtract(y, 0, lw))); }
		}
		if (isC(b)) {
			if (b->v == 0) return a;
			if (a->op == E_XOR && isC(a->k[1])) return mk(E_XOR, a->k[0], eConst(a->k[1]->v ^ b->v, w));
			if (w == 1) {
				if (a->op == E_ULT) return mk(E_ULE, a->k[1], a->k[0]);
				if (a->op == E_ULE) return mk(E_ULT, a->k[1], a->k[0]);
				if (a->op == E_SLT) return mk(E_SLE, a->k[1], a->k[0]);
				if (a->op == E_SLE) return mk(E_SLT, a->k[1], a->k[0]);
			}
		}
		break;
	case E_SHL: case E_LSHR: case E_ASHR:
		if (isC(b)) {
			if (b->v == 0) return a;
			if (b->v >= w && op != E_ASHR) return eConst(0, w);
			if (op == E_LSHR && b->v < w) return mkZext(mkExtract(a, b->v, w - b->v), w);
			if (op == E_SHL && b->v < w && a->op != E_CONST) return mkConcat(mkExtract(a, 0, w - b->v), eConst(0, b->v));
			if (op == E_ASHR && b->v < w) return mkSext(mkExtract(a, b->v, w - b->v), w);
		}
		break;
	case E_EQ:
		if (a == b) return eConst(1, 1);
		if (a->hi < b->lo || b->hi < a->lo) return eConst(0, 1);
		if (w == 1 && isC(b)) return b->v ? a : mkNot(a);
		if (isC(b)) {
			if (a->op == E_ZEXT) { const Expr* x = a->k[0]; if (b->v > maskw(x->w)) return eConst(0, 1); return mk(E_EQ, x, eConst(b->v, x->w)); }
			if (a->op == E_SEXT) { const Expr* x = a->k[0]; u64 t = b->v & maskw(x->w); if ((u64)(sx(t, x->w)) != (u64)sx(b->v, w)) return eConst(0, 1); return mk(E_EQ, x, eConst(t, x->w)); }
			if (a->op == E_ADD && isC(a->k[1])) return mk(E_EQ, a->k[0], eConst(b->v - a->k[1]->v, w));
			if (a->op == E_XOR && isC(a->k[1])) return mk(E_EQ, a->k[0], eConst(b->v ^ a->k[1]->v, w));
			if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) {
				bool t = a->k[1]->v == b->v, f = a->k[2]->v == b->v;
				if (t && f) return eConst(1, 1); if (!t && !f) return eConst(0, 1);
				return t ? a->k[0] : mkNot(a->k[0]);
			}
			if (a->op == E_CONCAT) {
				const Expr *hi = a->k[0], *lo = a->k[1];
				return mk(E_AND, mk(E_EQ, hi, eConst(b->v >> lo->w, hi->w)), mk(E_EQ, lo, eConst(b->v, lo->w)));
			}
		}
		else if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mk(E_EQ, a->k[0], b->k[0]);
		else if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mk(E_EQ, a->k[0], b->k[0]);
		else if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[1]->w == b->k[1]->w)
			return mk(E_AND, mk(E_EQ, a->k[0], b->k[0]), mk(E_EQ, a->k[1], b->k[1]));
		break;
	case E_ULT:
		if (a == b) return eConst(0, 1);
		if (a->hi < b->lo) return eConst(1, 1);
		if (a->lo >= b->hi) return eConst(0, 1);
		if (a->op == E_ZEXT && isC(b)) return mk(E_ULT, a->k[0], eConst(b->v, a->k[0]->w)); // b <= a.hi by the interval test
		if (b->op == E_ZEXT && isC(a)) return mk(E_ULT, eConst(a->v, b->k[0]->w), b->k[0]);
		if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mk(E_ULT, a->k[0], b->k[0]);
		if (isC(b) && b->v == 1) return mk(E_EQ, a, eConst(0, w));
		break;
	case E_ULE:
		if (a == b) return eConst(1, 1);
		if (a->hi <= b->lo) return eConst(1, 1);
		if (a->lo > b->hi) return eConst(0, 1);
		if (a->op == E_ZEXT && isC(b)) return mk(E_ULE, a->k[0], eConst(b->v, a->k[0]->w));
		if (b->op == E_ZEXT && isC(a)) return mk(E_ULE, eConst(a->v, b->k[0]->w), b->k[0]);
		if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mk(E_ULE, a->k[0], b->k[0]);
		break;
	case E_SLT: case E_SLE: {
		if (a == b) return eConst(op == E_SLE, 1);
		u64 half = maskw(w - 1);
		if (a->hi <= half && b->hi <= half) return mk(op == E_SLT ? E_ULT : E_ULE, a, b);
		// both sign-extended from the same width
		auto narrow = [](const Expr* e, unsigned nw) -> const Expr* {
			if (e->op == E_SEXT && e->k[0]->w == nw) return e->k[0];
			if (isC(e)) { u64 t = e->v & maskw(nw); if (sx(t, nw) == sx(e->v, e->w)) return eConst(t, nw); }
			return nullptr;
		};
		unsigned nw = a->op == E_SEXT ? a->k[0]->w : b->op == E_SEXT ? b->k[0]->w : 0;
		if (nw) {
			const Expr *x = narrow(a, nw), *y = narrow(b, nw);
			if (x && y) return mk(op, x, y);
			// constant outside the narrow range
			if (isC(b) && a->op == E_SEXT) return eConst(sx(b->v, w) > 0, 1);
			if (isC(a) && b->op == E_SEXT) return eConst(sx(a->v, w) < 0, 1);
		}
		if (a->hi <= half && isC(b) && b->v > half) return eConst(0, 1); // a >= 0 > b
		if (b->hi <= half && isC(a) && a->v > half) return eConst(1, 1);
		break;
	}
	default: break;
	}
	return EC.raw(op, isBoolOp(op) ? 1 : w, 0, a, b);
}

const Expr* mkIte(const Expr* c, const Expr* a, const Expr* b) {
	assert(c->w == 1 && a->w == b->w);
	if (isC(c)) return c->v ? a : b;
	if (a == b) return a;
	if (a->w == 1) {
		if (isC(a) && isC(b)) return a->v ? c : mkNot(c);
		if (isC(a)) return a->v ? mk(E_OR, c, b) : mk(E_AND, mkNot(c), b);
		if (isC(b)) return b->v ? mk(E_OR, mkNot(c), a) : mk(E_AND, c, a);
	}
	return EC.raw(E_ITE, a->w, 0, c, a, b);
}

static const Expr* mkExtract1(const Expr* a, unsigned lo, unsigned w);
const Expr* mkExtract(const Expr* a, unsigned lo, unsigned w) {
	assert(lo + w <= a->w);
	if (w == a->w) return a;
	if (a->op < E_ADD || a->op > E_XOR) return mkExtract1(a, lo, w);
	static std::unordered_map<u64, const Expr*> memo; // keeps shared subterms from being visited again
	u64 key = (u64)a->id << 14 | lo << 7 | w; auto it = memo.find(key); if (it != memo.end()) return it->second;
	const Expr* r = mkExtract1(a, lo, w); memo[key] = r; return r;
}
static const Expr* mkExtract1(const Expr* a, unsigned lo, unsigned w) {
	switch (a->op) {
	case E_CONST: return eConst(a->v >> lo, w);
	case E_EXTRACT: return mkExtract(a->k[0], a->v + lo, w);
	case E_CONCAT: {
		const Expr *h = a->k[0], *l = a->k[1];
		if (lo >= l->w) return mkExtract(h, lo - l->w, w);
		if (lo + w <= l->w) return mkExtract(l, lo, w);
		return mkConcat(mkExtract(h, 0, lo + w - l->w), mkExtract(l, lo, l->w - lo));
	}
	case E_ZEXT: {
		const Expr* x = a->k[0];
		if (lo >= x->w) return eConst(0, w);
		if (lo + w <= x->w) return mkExtract(x, lo, w);
		return mkZext(mkExtract(x, lo, x->w - lo), w);
	}
	case E_SEXT: {
		const Expr* x = a->k[0];
		if (lo + w <= x->w) return mkExtract(x, lo, w);
		if (lo < x->w) return mkSext(mkExtract(x, lo, x->w - lo), w);
		break;
	}
	case E_AND: case E_OR: case E_XOR:
		return mk(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
	case E_ADD: case E_SUB: case E_MUL:
		if (lo == 0) return mk(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
		break;
	case E_ITE: if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
	default: break;
	}
	return EC.raw(E_EXTRACT, w, lo, a);
}

const Expr* mkConcat(const Expr* hi, const Expr* lo) {
	unsigned w = hi->w + lo->w;
	assert(w <= 64);
	if (isC(hi) && isC(lo)) return eConst(hi->v << lo->w | lo->v, w);
	if (isC(hi) && hi->v == 0) return mkZext(lo, w);
	if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->v == lo->v + lo->w) return mkExtract(lo->k[0], lo->v, w);
	if (hi->op == E_EXTRACT && hi->v == lo->w) { const Expr* x = hi->k[0]; if (x->op >= E_ADD && x->op <= E_MUL && mkExtract(x, 0, lo->w) == lo) return mkExtract(x, 0, w); }
	// concat(concat(x, y), z) with y,z adjacent extracts
	if (hi->op == E_CONCAT) {
		const Expr* y = hi->k[1];
		if (y->op == E_EXTRACT && lo->op == E_EXTRACT && y->k[0] == lo->k[0] && y->v == lo->v + lo->w) return mkConcat(hi->k[0], mkExtract(lo->k[0], lo->v, y->w + lo->w));
		if (isC(y) && isC(lo)) return mkConcat(hi->k[0], eConst(y->v << lo->w | lo->v, y->w + lo->w));
	}
	if (hi->op == E_ZEXT) return mkZext(mkConcat(hi->k[0], lo), w);
	return EC.raw(E_CONCAT, w, 0, hi, lo);
}

const Expr* mkZext(const Expr* a, unsigned w) {
	if (w == a->w) return a;
	assert(w > a->w);
	if (isC(a)) return eConst(a->v, w);
	if (a->op == E_ZEXT) return mkZext(a->k[0], w);
	return EC.raw(E_ZEXT, w, 0, a);
}
const Expr* mkSext(const Expr* a, unsigned w) {
	if (w == a->w) return a;
	assert(w > a->w);
	if (isC(a)) return eConst((u64)sx(a->v, a->w), w);
	if (a->op == E_SEXT) return mkSext(a->k[0], w);
	if (a->op == E_ZEXT) return mkZext(a->k[0], w);
	if (a->hi <= maskw(a->w - 1)) return mkZext(a, w);
	return EC.raw(E_SEXT, w, 0, a);
}

std::string show(const Expr* e, int d) {
	static const char* n[] = { "c","s","+","-","*","u/","s/","u%","s%","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","++","ext","zx","sx" };
	if (e->op == E_CONST) { char b[40]; snprintf(b, 40, "%llu", (unsigned long long)e->v); return b; }
	if (e->op == E_SYM) return "s" + std::to_string(e->v);
	if (d <= 0) return "..";
	std::string r = std::string("(") + n[e->op];
	if (e->op == E_EXTRACT) r += std::to_string(e->v) + "." + std::to_string(e->w);
	for (int i = 0; i < e->nk; i++) r += " " + show(e->k[i], d - 1);
	return r + ")";
}
