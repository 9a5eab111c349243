// A bounded symbolic executor for LLVM IR, deciding branches, memory accesses and assertions with z3.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <math.h>
#include <fcntl.h>
#include <atomic>

using namespace llvm;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- shared between worker processes
static const int MAXLBL = 512, MAXFN = 8192;
struct Shared {
	std::atomic<int> active, violations, stop;
	std::atomic<u64> paths, rejected, assumed, known, errors, insts, forks, branchZ3Sat, branchZ3Unsat, domainUnsat, domainSat, unknown, checksConst, checksZ3, z3us, symFp, unsupported, maxPc, concretized, killedWorkers, queriesCached, maxQueryUs;
	std::atomic<int> incomplete;
	std::atomic<int> nlbl; char lbl[MAXLBL][96]; std::atomic<u64> lblHits[MAXLBL];
	std::atomic<u8> fnHit[MAXFN];
	std::atomic<int> lock;
	char unsupportedMsg[256];
	std::atomic<int> nsamples; u64 vkeys[128]; int nvkeys;
	void acquire() { int e = 0; while (!lock.compare_exchange_weak(e, 1)) { e = 0; usleep(10); } }
	void release() { lock = 0; }
} *SH;

static struct Opts {
	std::string bc, entry = "harness", out = "/tmp/symex-out", replay;
	int workers = 1; double timeLimit = 60; u64 maxSteps = 20000000; int maxViol = 10; bool absCrc = false, fastMem = false; int z3TimeoutMs = 20000; bool verbose = false; u64 memMB = 3000; int samples = 6;
	std::map<std::string, int> opt;
	std::set<std::string> stubVoid; // functions treated as no-ops returning 0
	u64 maxPaths = ~0ull;
} O;
static double T0;

// ---------------------------------------------------------------- values
struct Val { u64 c; const Expr* e; };
static inline Val vc(u64 c) { return Val{ c, nullptr }; }
static inline Val ve(const Expr* e) { if (isC(e)) return Val{ e->v, nullptr }; return Val{ 0, e }; }
static inline const Expr* toE(const Val& v, unsigned w) { if (v.e) { assert(v.e->w == w); return v.e; } return eConst(v.c, w); }

// ---------------------------------------------------------------- intrusive pointers
template <class T> struct P {
	T* p = nullptr;
	P() {} P(T* x) : p(x) { if (p) p->rc++; } P(const P& o) : p(o.p) { if (p) p->rc++; } P(P&& o) : p(o.p) { o.p = nullptr; }
	~P() { if (p && --p->rc == 0) delete p; }
	P& operator=(const P& o) { if (o.p) o.p->rc++; if (p && --p->rc == 0) delete p; p = o.p; return *this; }
	P& operator=(P&& o) { std::swap(p, o.p); return *this; }
	T* operator->() const { return p; } explicit operator bool() const { return p; }
};

// ---------------------------------------------------------------- memory
static const u64 PG = 1024, SHIFT = 28;
struct Page {
	int rc = 0; u32 n; u8* d; const Expr** s = nullptr;
	Page(u32 n, u8 fill) : n(n), d(new u8[n]) { memset(d, fill, n); }
	Page(const Page& o) : n(o.n), d(new u8[o.n]) { memcpy(d, o.d, n); if (o.s) { s = new const Expr*[n]; memcpy(s, o.s, n * sizeof(*s)); } }
	~Page() { delete[] d; delete[] s; }
	void sym(u32 i, const Expr* e) { if (!s) { s = new const Expr*[n]; memset(s, 0, n * sizeof(*s)); } s[i] = e; }
};
enum Kind : u8 { K_GLOBAL, K_STACK, K_HEAP, K_VA };
struct Obj {
	int rc = 0; u64 base, size; Kind kind; bool ro = false; u8 fill = 0; const char* name = "";
	std::vector<P<Page>> pg;
	Page* rd(u64 i) const { return pg[i].p; }
	Page* wr(u64 i) {
		P<Page>& p = pg[i];
		if (!p.p) p = P<Page>(new Page(std::min(PG, size - i * PG), fill));
		else if (p->rc > 1) p = P<Page>(new Page(*p.p));
		return p.p;
	}
	u8 byteC(u64 o) const { Page* p = pg[o / PG].p; return p ? p->d[o % PG] : fill; }
	const Expr* byteS(u64 o) const { Page* p = pg[o / PG].p; return p && p->s ? p->s[o % PG] : nullptr; }
	Val byte(u64 o) const { const Expr* e = byteS(o); return e ? Val{ 0, e } : vc(byteC(o)); }
	void setByte(u64 o, const Val& v) {
		Page* p = wr(o / PG); u32 i = o % PG;
		if (v.e) p->sym(i, v.e); else { p->d[i] = v.c; if (p->s) p->s[i] = nullptr; }
	}
};
struct Chunk { int rc = 0; int live = 0; P<Obj> o[64]; };
struct Mem {
	std::vector<P<Chunk>> ch; u64 next = 64;
	Obj* get(u64 idx) const { u64 c = idx >> 6; if (c >= ch.size() || !ch[c].p) return nullptr; return ch[c]->o[idx & 63].p; }
	Chunk* wr(u64 c) {
		if (c >= ch.size()) ch.resize(c + 1);
		if (!ch[c].p) ch[c] = P<Chunk>(new Chunk);
		else if (ch[c]->rc > 1) { Chunk* n = new Chunk; n->live = ch[c]->live; for (int i = 0; i < 64; i++) n->o[i] = ch[c]->o[i]; ch[c] = P<Chunk>(n); }
		return ch[c].p;
	}
	Obj* wrObj(u64 idx) {
		Chunk* c = wr(idx >> 6); P<Obj>& o = c->o[idx & 63];
		if (o->rc > 1) { Obj* n = new Obj(*o.p); n->rc = 0; o = P<Obj>(n); }
		return o.p;
	}
	Obj* alloc(u64 size, u64 align, Kind k, u8 fill, const char* name) {
		u64 idx = next++;
		if (size + 0x30000 > (1ull << SHIFT)) next += (size + 0x30000) >> SHIFT;
		Chunk* c = wr(idx >> 6);
		Obj* o = new Obj; o->size = size; o->kind = k; o->fill = fill; o->name = name;
		if (align < 1) align = 1;
		o->base = (idx << SHIFT) + 0x10000 + (align >= 0x10000 ? 0 : align); // aligned to `align` and no more
		o->pg.resize((size + PG - 1) / PG);
		c->o[idx & 63] = P<Obj>(o); c->live++;
		return o;
	}
	void free(u64 idx) {
		Chunk* c = wr(idx >> 6);
		if (c->o[idx & 63].p) { c->o[idx & 63] = P<Obj>(); if (--c->live == 0) ch[idx >> 6] = P<Chunk>(); }
	}
};

// ---------------------------------------------------------------- decoded program
enum IOp : u8 { I_BIN, I_ICMP, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_UNREACH, I_XVAL, I_IVAL, I_FBIN, I_FCMP, I_FCAST, I_FNEG, I_BUILTIN, I_NOP, I_UNSUP };
struct Leaf { u32 off; u16 w; u16 bytes; };
struct DFunc; struct DBlock;
struct DInst {
	IOp op; u8 sub = 0; u8 w = 0, w2 = 0; u8 ns = 1; s32 dst = -1; s32 a = 0, b = 0, c = 0; u64 imm = 0; u32 bytes = 0;
	DFunc* callee = nullptr; int builtin = -1; u32 nfixed = 0;
	std::vector<s32> ops; std::vector<std::pair<s32, u64>> gep; std::vector<Leaf> leaves; std::vector<u8> ow;
	int t = -1, f = -1; int te = -1, fe = -1; // targets and edges
	std::vector<std::pair<u64, int>> cases; std::vector<int> caseEdges;
	const Instruction* src = nullptr;
};
struct Edge { std::vector<std::pair<s32, s32>> moves; };
struct DFunc {
	Function* fn; std::string name, demangled; int id; bool decoded = false; u32 nregs = 0;
	std::vector<DInst> code; std::vector<u32> blockStart; std::vector<Edge> edges; std::vector<Val> consts; u64 addr; bool stub = false;
	std::vector<std::pair<s32, s32>> argSlots; // dst, nslots
	int intercept = -1;
};
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::map<const Function*, DFunc*> FN; static std::vector<DFunc*> FNS;
static const u64 FUNC_BASE = 0x1000000ull;
static std::map<const GlobalVariable*, u64> GADDR;

// ---------------------------------------------------------------- state
struct SymInfo { std::string name; u8 w; };
struct HashRec { std::vector<Val> bytes; u64 h; };
struct Model { int rc = 0; u64 v[MAXSYM]; };
struct FrameS { DFunc* f; u32 regBase; u32 ip; u32 allocaBase; u64 va; };
struct Dom { int rc = 0; std::bitset<256> d[MAXSYM]; Syms tied; };
struct State {
	std::vector<FrameS> st; std::vector<Val> regs; std::vector<u64> allocas; Mem mem;
	std::vector<const Expr*> pc; std::vector<SymInfo> syms; P<Model> model; P<Dom> dom;
	std::vector<std::shared_ptr<HashRec>> hashes;
	u64 steps = 0; bool fatalOk = false; u64 tls = 0; int depth = 0;
	std::vector<std::string> notes;
};

static std::vector<State*> pending;
static bool pathDead; // the current path has ended

static bool outOfTime() { return now() - T0 > O.timeLimit || SH->stop.load(); }

// ---------------------------------------------------------------- evaluation under a model
static std::vector<u64> evVal; static std::vector<u32> evEp; static u32 evEpoch = 0;
static u64 evalRec(const Expr* e, const u64* m) {
	if (e->op == E_CONST) return e->v;
	if (e->op == E_SYM) return m[e->v] & maskw(e->w);
	if (evEp[e->id] == evEpoch) return evVal[e->id];
	u64 r = 0; bool ok;
	switch (e->op) {
	case E_ITE: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
	case E_CONCAT: r = evalRec(e->k[0], m) << e->k[1]->w | evalRec(e->k[1], m); break;
	case E_EXTRACT: r = (evalRec(e->k[0], m) >> e->v) & maskw(e->w); break;
	case E_ZEXT: r = evalRec(e->k[0], m); break;
	case E_SEXT: r = (u64)sx(evalRec(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
	default: {
		u64 a = evalRec(e->k[0], m), b = evalRec(e->k[1], m); unsigned w = e->k[0]->w;
		r = foldOp(e->op, w, a, b, &ok);
		if (!ok) r = (e->op == E_UDIV || e->op == E_SDIV) ? maskw(w) : a;
	}
	}
	evEp[e->id] = evEpoch; evVal[e->id] = r;
	return r;
}
static std::string where(State& s);
static u64 evalM(const Expr* e, const u64* m) {
	if (e->op == E_CONST) return e->v;
	if (evEp.size() < EC.all.size()) { evEp.resize(EC.all.size() * 2 + 1024); evVal.resize(evEp.size()); }
	if (++evEpoch == 0) { std::fill(evEp.begin(), evEp.end(), 0); evEpoch = 1; }
	return evalRec(e, m);
}

// ---------------------------------------------------------------- z3
static Z3_context Z; static Z3_solver ZS, ZT; static Z3_sort Zbv[65];
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void zinit() {
	Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(Z, zerr);
	ZS = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, ZS);
	Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 3000); Z3_solver_set_params(Z, ZS, p);
	auto tac = [&](const char* n) { Z3_tactic t = Z3_mk_tactic(Z, n); Z3_tactic_inc_ref(Z, t); return t; };
	auto then = [&](Z3_tactic a, Z3_tactic b) { Z3_tactic t = Z3_tactic_and_then(Z, a, b); Z3_tactic_inc_ref(Z, t); return t; };
	Z3_tactic t = then(tac("simplify"), then(tac("propagate-values"), then(tac("solve-eqs"), then(tac("simplify"), then(tac("bit-blast"), tac("sat"))))));
	ZT = Z3_mk_solver_from_tactic(Z, t); Z3_solver_inc_ref(Z, ZT);
	Z3_params q = Z3_mk_params(Z); Z3_params_inc_ref(Z, q); Z3_params_set_uint(Z, q, Z3_mk_string_symbol(Z, "timeout"), O.z3TimeoutMs); Z3_solver_set_params(Z, ZT, q);
	for (int i = 1; i <= 64; i++) { Zbv[i] = Z3_mk_bv_sort(Z, i); Z3_inc_ref(Z, Z3_sort_to_ast(Z, Zbv[i])); }
}
static Z3_ast z(const Expr* e) {
	if (e->z3) return (Z3_ast)e->z3;
	Z3_ast a = e->nk > 0 ? z(e->k[0]) : nullptr, b = e->nk > 1 ? z(e->k[1]) : nullptr, c = e->nk > 2 ? z(e->k[2]) : nullptr, r = nullptr;
	Z3_ast one = nullptr, zero = nullptr;
	auto b2v = [&](Z3_ast x) { Z3_inc_ref(Z, x); one = Z3_mk_unsigned_int64(Z, 1, Zbv[1]); Z3_inc_ref(Z, one); zero = Z3_mk_unsigned_int64(Z, 0, Zbv[1]); Z3_inc_ref(Z, zero); return Z3_mk_ite(Z, x, one, zero); };
	switch (e->op) {
	case E_CONST: r = Z3_mk_unsigned_int64(Z, e->v, Zbv[e->w]); break;
	case E_SYM: { char n[40]; snprintf(n, 40, "s%d_%d", (int)e->v, e->w); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), Zbv[e->w]); break; }
	case E_ADD: r = Z3_mk_bvadd(Z, a, b); break;
	case E_SUB: r = Z3_mk_bvsub(Z, a, b); break;
	case E_MUL: r = Z3_mk_bvmul(Z, a, b); break;
	case E_UDIV: r = Z3_mk_bvudiv(Z, a, b); break;
	case E_SDIV: r = Z3_mk_bvsdiv(Z, a, b); break;
	case E_UREM: r = Z3_mk_bvurem(Z, a, b); break;
	case E_SREM: r = Z3_mk_bvsrem(Z, a, b); break;
	case E_AND: r = Z3_mk_bvand(Z, a, b); break;
	case E_OR: r = Z3_mk_bvor(Z, a, b); break;
	case E_XOR: r = Z3_mk_bvxor(Z, a, b); break;
	case E_SHL: r = Z3_mk_bvshl(Z, a, b); break;
	case E_LSHR: r = Z3_mk_bvlshr(Z, a, b); break;
	case E_ASHR: r = Z3_mk_bvashr(Z, a, b); break;
	case E_EQ: r = b2v(Z3_mk_eq(Z, a, b)); break;
	case E_ULT: r = b2v(Z3_mk_bvult(Z, a, b)); break;
	case E_ULE: r = b2v(Z3_mk_bvule(Z, a, b)); break;
	case E_SLT: r = b2v(Z3_mk_bvslt(Z, a, b)); break;
	case E_SLE: r = b2v(Z3_mk_bvsle(Z, a, b)); break;
	case E_ITE: { one = Z3_mk_unsigned_int64(Z, 1, Zbv[1]); Z3_inc_ref(Z, one); { Z3_ast q = Z3_mk_eq(Z, a, one); Z3_inc_ref(Z, q); r = Z3_mk_ite(Z, q, b, c); } break; }
	case E_CONCAT: r = Z3_mk_concat(Z, a, b); break;
	case E_EXTRACT: r = Z3_mk_extract(Z, e->v + e->w - 1, e->v, a); break;
	case E_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->k[0]->w, a); break;
	case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->k[0]->w, a); break;
	}
	Z3_inc_ref(Z, r);
	const_cast<Expr*>(e)->z3 = r;
	return r;
}
static const Expr* symOf[MAXSYM];
struct QRes { int r; std::vector<std::pair<u16, u64>> m; };
static std::unordered_map<u64, QRes> qcache;

static int solve(std::vector<const Expr*>& cs, const Syms& syms, const State& s, std::vector<std::pair<u16, u64>>* out) {
	std::sort(cs.begin(), cs.end(), [](const Expr* a, const Expr* b) { return a->id < b->id; });
	u64 h = 0x1234567; for (auto* e : cs) { h ^= e->id + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; }
	auto it = qcache.find(h);
	if (it != qcache.end()) { SH->queriesCached++; if (out) *out = it->second.m; return it->second.r; }
	double t = now();
	int r = 0; Z3_model mdl = nullptr;
	std::vector<Z3_ast> as; Z3_ast one = Z3_mk_unsigned_int64(Z, 1, Zbv[1]); Z3_inc_ref(Z, one);
	for (auto* e : cs) { Z3_ast q = Z3_mk_eq(Z, z(e), one); Z3_inc_ref(Z, q); as.push_back(q); }
	for (int round = 0; round < 2; round++) {
		Z3_solver S = round ? ZT : ZS;
		Z3_solver_reset(Z, S); for (auto q : as) Z3_solver_assert(Z, S, q);
		r = Z3_solver_check(Z, S);
		if (r == Z3_L_TRUE) { mdl = Z3_solver_get_model(Z, S); Z3_model_inc_ref(Z, mdl); }
		if (r != Z3_L_UNDEF) break;
	}
	if (getenv("SYMEX_QD") && now() - t > 2) { static int nq; char f[99]; snprintf(f, 99, "%s.%d.%d.smt2", getenv("SYMEX_QD"), (int)getpid(), nq++); FILE* fp = fopen(f, "w"); Z3_solver X = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, X); for (auto q : as) Z3_solver_assert(Z, X, q); fputs(Z3_solver_to_string(Z, X), fp); fputs("(check-sat)\n", fp); fclose(fp); }
	QRes q; q.r = r;
	if (mdl) {
		for (unsigned i = 0; i < s.syms.size(); i++) if (syms[i]) {
			Z3_ast v = nullptr; Z3_model_eval(Z, mdl, z(eSym(i, s.syms[i].w)), true, &v); uint64_t x = 0;
			if (v) { Z3_inc_ref(Z, v); Z3_get_numeral_uint64(Z, v, &x); Z3_dec_ref(Z, v); }
			q.m.push_back({ i, x });
		}
		Z3_model_dec_ref(Z, mdl);
	}
	for (auto a : as) Z3_dec_ref(Z, a);
	u64 us = (now() - t) * 1e6; SH->z3us += us;
	u64 mx = SH->maxQueryUs; while (us > mx && !SH->maxQueryUs.compare_exchange_weak(mx, us));
	if (r == Z3_L_UNDEF) { SH->unknown++; SH->incomplete = 1; }
	if (out) *out = q.m;
	if (qcache.size() > 2000000) qcache.clear();
	qcache[h] = q;
	return r;
}

static void slice(const State& s, const Expr* cond, std::vector<const Expr*>& cs, Syms& syms) {
	syms = cond->syms; cs.clear(); cs.push_back(cond);
	std::vector<char> in(s.pc.size());
	for (bool ch = true; ch;) {
		ch = false;
		for (size_t i = 0; i < s.pc.size(); i++) if (!in[i] && (s.pc[i]->syms & syms).any()) { in[i] = 1; cs.push_back(s.pc[i]); if ((s.pc[i]->syms & ~syms).any()) { syms |= s.pc[i]->syms; ch = true; } }
	}
}

static int single(const Syms& x) { if (x.count() != 1) return -1; return (int)x._Find_first(); }

// Is cond (width 1) feasible together with the path condition? 1 yes (model filled), 0 no, -1 unknown
static int feasible(State& s, const Expr* cond, std::vector<std::pair<u16, u64>>& m, bool forceZ3) {
	if (isC(cond)) { m.clear(); return cond->v != 0; }
	int si = single(cond->syms);
	if (!forceZ3 && si >= 0 && s.syms[si].w == 8) {
		u64 vals[MAXSYM]; bool any = false; u64 pick = 0;
		const std::bitset<256>& d = s.dom->d[si];
		for (int x = 0; x < 256; x++) if (d[x]) { vals[si] = x; if (evalM(cond, vals)) { any = true; pick = x; break; } }
		if (!any) { SH->domainUnsat++; return 0; }
		if (!s.dom->tied[si]) { SH->domainSat++; m = { { (u16)si, pick } }; return 1; }
	}
	if (O.verbose && getenv("SYMEX_Q")) fprintf(stderr, "Q %s @ %s\n", show(cond, 12).substr(0, 1500).c_str(), where(s).c_str());
	std::vector<const Expr*> cs; Syms syms; slice(s, cond, cs, syms);
	int r = solve(cs, syms, s, &m);
	if (r == Z3_L_TRUE) { SH->branchZ3Sat++; return 1; }
	if (r == Z3_L_FALSE) { SH->branchZ3Unsat++; return 0; }
	return -1;
}
static void applyModel(State& s, const std::vector<std::pair<u16, u64>>& m) {
	Model* n = new Model; memcpy(n->v, s.model->v, sizeof n->v);
	for (auto& p : m) n->v[p.first] = p.second;
	s.model = P<Model>(n);
}
static void addC(State& s, const Expr* c) {
	if (isC(c)) return;
	if (c->op == E_AND && c->w == 1) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
	for (auto* x : s.pc) if (x == c) return;
	s.pc.push_back(c);
	if (s.pc.size() > SH->maxPc) SH->maxPc = s.pc.size();
	int si = single(c->syms);
	Dom* d = s.dom.p; if (d->rc > 1) { d = new Dom(*d); d->rc = 0; s.dom = P<Dom>(d); }
	if (si >= 0 && s.syms[si].w == 8) { u64 vals[MAXSYM]; for (int x = 0; x < 256; x++) if (d->d[si][x]) { vals[si] = x; if (!evalM(c, vals)) d->d[si].reset(x); } }
	else d->tied |= c->syms;
}
static State* clone(State& s) { SH->forks++; State* n = new State(s); n->depth++; return n; }

// Decide cond on s. If both outcomes are possible a clone (at the same instruction) takes the other one.
static bool branchOn(State& s, const Expr* cond) {
	if (isC(cond)) return cond->v;
	const Expr* neg = mkNot(cond);
	for (size_t i = s.pc.size(), k = 0; i-- > 0 && k < 48; k++) { if (s.pc[i] == cond) return true; if (s.pc[i] == neg) return false; }
	bool v = evalM(cond, s.model->v);
	const Expr *mine = v ? cond : neg, *other = v ? neg : cond;
	std::vector<std::pair<u16, u64>> m;
	int r = feasible(s, other, m, false);
	if (r == 1) {
		State* n = clone(s); addC(*n, other); applyModel(*n, m); pending.push_back(n);
		addC(s, mine);
	}
	else if (r < 0) addC(s, mine); // the other side is given up; SH->incomplete is set
	return v;
}
static u64 concretize(State& s, const Val& v) {
	if (!v.e) return v.c;
	u64 x = evalM(v.e, s.model->v);
	SH->concretized++;
	branchOn(s, mk(E_EQ, v.e, eConst(x, v.e->w)));
	return x;
}

// ---------------------------------------------------------------- reporting
static std::string where(State& s);
static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string where(State& s) {
	std::string r; int n = 0;
	for (size_t i = s.st.size(); i-- > 0 && n < 12; n++) {
		FrameS& f = s.st[i]; const DInst& di = f.f->code[f.ip]; std::string l = f.f->demangled;
		size_t p = l.find('('); if (p != std::string::npos) l = l.substr(0, p);
		if (di.src) if (auto& dl = di.src->getDebugLoc()) { auto* sc = dl->getScope(); l += " " + std::string(sc->getFilename()) + ":" + std::to_string(dl.getLine()); }
		r += (n ? " < " : "") + l;
	}
	return r;
}
static void writeInputs(State& s, FILE* f) {
	fprintf(f, "\"inputs\": [");
	for (size_t i = 0; i < s.syms.size(); i++) fprintf(f, "%s{\"name\": \"%s\", \"w\": %d, \"v\": %llu}", i ? ", " : "", esc(s.syms[i].name).c_str(), s.syms[i].w, (unsigned long long)(s.model->v[i] & maskw(s.syms[i].w)));
	fprintf(f, "]");
}
static std::set<std::string> seenViol;
static void record(State& s, const char* kind, const std::string& msg, const char* id = "") {
	std::string w = where(s);
	std::string first = w.substr(0, w.find(" < "));
	std::string key = std::string(kind) + "|" + msg + "|" + first;
	bool known = !strcmp(kind, "known");
	if (known) SH->known++;
	if (!seenViol.insert(known ? std::string("known") + id : key).second) return;
	{ u64 h = std::hash<std::string>()(known ? std::string("known") + id : key); bool dup = false; SH->acquire(); for (int i = 0; i < SH->nvkeys; i++) if (SH->vkeys[i] == h) dup = true; if (!dup && SH->nvkeys < 128) SH->vkeys[SH->nvkeys++] = h; SH->release(); if (dup) return; }
	int n;
	if (!known) { n = SH->violations.fetch_add(1); if (n >= O.maxViol) { SH->stop = 1; return; } }
	char fn[512]; snprintf(fn, 512, "%s/%s-%d-%u.json", O.out.c_str(), known ? "known" : "viol", (int)getpid(), (unsigned)seenViol.size());
	FILE* f = fopen(fn, "w"); if (!f) return;
	fprintf(f, "{\"kind\": \"%s\", \"id\": \"%s\", \"msg\": \"%s\", \"where\": \"%s\", ", kind, id, esc(msg).c_str(), esc(w).c_str());
	fprintf(f, "\"notes\": ["); for (size_t i = 0; i < s.notes.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(s.notes[i]).c_str()); fprintf(f, "], ");
	writeInputs(s, f); fprintf(f, "}\n"); fclose(f);
	if (O.verbose) fprintf(stderr, "[%s] %s @ %s\n", kind, msg.c_str(), w.c_str());
}
static void violation(State& s, const char* kind, const std::string& msg) { SH->errors++; record(s, kind, msg); pathDead = true; }
static void unsupported(State& s, const std::string& msg) {
	SH->unsupported++; SH->incomplete = 1; pathDead = true;
	SH->acquire(); if (!SH->unsupportedMsg[0]) snprintf(SH->unsupportedMsg, sizeof SH->unsupportedMsg, "%s @ %s", msg.c_str(), where(s).c_str()); SH->release();
}

// ---------------------------------------------------------------- memory access
static std::string hexs(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static void badAccess(State& s, u64 a, unsigned n, bool write, Obj* o) {
	std::string m = write ? "write of " : "read of "; m += std::to_string(n) + " byte(s) ";
	if (o) { m += a < o->base ? "before the start of a " : "beyond the end of a "; m += std::to_string(o->size) + "-byte "; m += o->kind == K_STACK ? "stack" : o->kind == K_GLOBAL ? "global" : o->kind == K_VA ? "variadic argument" : "heap"; m += " object"; }
	else if (a < 0x10000) m += "through a null pointer";
	else if ((a >> SHIFT) >= 64 && (a >> SHIFT) < s.mem.next) m += "of a freed or dead object";
	else m += "through a wild pointer";
	violation(s, "memory", m);
}

struct Dec { const Expr* x; s64 scale; s64 c; };
static Dec decompose(const Expr* e) { // e == x * scale + c (mod 2^64)
	s64 c = 0, sc = 1;
	for (;;) {
		if (e->op == E_ADD && isC(e->k[1])) { c += sc * sx(e->k[1]->v, e->w); e = e->k[0]; if (e->w != 64) break; continue; }
		if (e->op == E_MUL && isC(e->k[1])) { sc *= sx(e->k[1]->v, e->w); e = e->k[0]; continue; }
		if (e->op == E_CONCAT && isC(e->k[1]) && e->w == 64) { // x<<k | const, top bits cut off; only when the cut part is an extract of a 64-bit value
			const Expr* h = e->k[0];
			if (h->op == E_EXTRACT && h->v == 0 && h->k[0]->w == 64) { c += sc * (s64)e->k[1]->v; sc *= 1ll << e->k[1]->w; e = h->k[0]; continue; }
			if (h->op == E_ZEXT || h->op == E_SEXT) { c += sc * (s64)e->k[1]->v; sc *= 1ll << e->k[1]->w; e = h->op == E_ZEXT ? mkZext(h->k[0], 64) : mkSext(h->k[0], 64); continue; }
		}
		if (e->op == E_ZEXT && e->k[0]->op == E_CONCAT && isC(e->k[0]->k[1])) { const Expr* q = e->k[0]; c += sc * (s64)q->k[1]->v; sc *= 1ll << q->k[1]->w; e = mkZext(q->k[0], 64); continue; }
		break;
	}
	return { e, sc, c };
}

// Finds the object an access refers to. Returns null when the path ended. For a symbolic address *symoff is the offset.
static Obj* resolve(State& s, const Val& addr, unsigned n, bool write, u64& off, const Expr*& symoff) {
	symoff = nullptr;
	if (!addr.e) {
		Obj* o = s.mem.get(addr.c >> SHIFT);
		if (!o || addr.c < o->base || addr.c - o->base > o->size || o->size - (addr.c - o->base) < n) { badAccess(s, addr.c, n, write, o); return nullptr; }
		off = addr.c - o->base;
		if (write && o->ro) { violation(s, "memory", std::string("write into read-only ") + (o->kind == K_GLOBAL ? "data " : "input ") + o->name); return nullptr; }
		return o;
	}
	u64 a0 = evalM(addr.e, s.model->v);
	Obj* o = s.mem.get(a0 >> SHIFT);
	if (!o || a0 < o->base || a0 - o->base > o->size || o->size - (a0 - o->base) < n) { badAccess(s, a0, n, write, o); return nullptr; }
	const Expr* e = mk(E_SUB, addr.e, eConst(o->base, 64));
	const Expr* inb = mk(E_ULE, e, eConst(o->size - n, 64));
	if (!branchOn(s, inb)) { abort(); }
	if (write && o->ro) { violation(s, "memory", std::string("write into read-only ") + o->name); return nullptr; }
	symoff = e; off = a0 - o->base;
	return o;
}

static Val readC(const Obj* o, u64 off, unsigned n) { // n bytes at a concrete offset
	u64 pi = off / PG; u32 i = off % PG;
	if (i + n <= PG) {
		Page* p = o->rd(pi);
		if (!p) { u64 v = 0; memset(&v, o->fill, n); return vc(v); }
		if (!p->s) { u64 v = 0; memcpy(&v, p->d + i, n); return vc(v); }
		bool any = false; for (unsigned k = 0; k < n; k++) any |= p->s[i + k] != nullptr;
		if (!any) { u64 v = 0; memcpy(&v, p->d + i, n); return vc(v); }
	}
	const Expr* r = nullptr;
	for (unsigned k = 0; k < n; k++) { Val b = o->byte(off + k); const Expr* e = toE(b, 8); r = r ? mkConcat(e, r) : e; }
	return ve(r);
}
static void writeC(Obj* o, u64 off, unsigned n, const Val& v) {
	u64 pi = off / PG; u32 i = off % PG;
	if (!v.e && i + n <= PG) {
		Page* p = o->wr(pi); memcpy(p->d + i, &v.c, n);
		if (p->s) for (unsigned k = 0; k < n; k++) p->s[i + k] = nullptr;
		return;
	}
	for (unsigned k = 0; k < n; k++) o->setByte(off + k, v.e ? ve(mkExtract(v.e, 8 * k, 8)) : vc((v.c >> (8 * k)) & 0xff));
}

static const Expr* selTree(const Expr* x, u64 base, const std::vector<const Expr*>& v, size_t lo, size_t hi) {
	bool same = true; for (size_t i = lo + 1; i < hi; i++) if (v[i] != v[lo]) { same = false; break; }
	if (same) return v[lo];
	size_t mid = (lo + hi) / 2;
	return mkIte(mk(E_ULT, x, eConst(base + mid, x->w)), selTree(x, base, v, lo, mid), selTree(x, base, v, mid, hi));
}

// candidate indices of a symbolic offset inside an object
static bool candidates(const Expr* e, u64 size, unsigned n, Dec& d, s64& ilo, s64& ihi) {
	d = decompose(e);
	if (d.scale <= 0) return false;
	s64 last = (s64)(size - n);
	ilo = d.c >= 0 ? 0 : (-d.c + d.scale - 1) / d.scale;
	if (d.c > 0) ilo = -(d.c / d.scale);
	if (last - d.c < 0) { s64 q = d.c - last; ihi = -((q + d.scale - 1) / d.scale); } else ihi = (last - d.c) / d.scale;
	if (d.x->hi <= (1ull << 62)) { if ((s64)d.x->lo > ilo) ilo = d.x->lo; if ((s64)d.x->hi < ihi) ihi = d.x->hi; }
	else if (d.x->op == E_SEXT) { s64 lo = -(1ll << (d.x->k[0]->w - 1)), hi = -lo - 1; ilo = std::max(ilo, lo); ihi = std::min(ihi, hi); }
	return ihi >= ilo;
}

static Val load(State& s, const Val& addr, unsigned n, bool& dead) {
	u64 off; const Expr* so; dead = false;
	Obj* o = resolve(s, addr, n, false, off, so);
	if (!o) { dead = true; return vc(0); }
	if (!so) return readC(o, off, n);
	Dec d; s64 ilo, ihi;
	if (candidates(so, o->size, n, d, ilo, ihi) && ihi - ilo < 1500) {
		size_t cnt = ihi - ilo + 1; std::vector<const Expr*> v(cnt); bool allC = true;
		for (size_t i = 0; i < cnt; i++) { v[i] = toE(readC(o, (u64)((ilo + (s64)i) * d.scale + d.c), n), n * 8); allC &= isC(v[i]); }
		const Expr* x = ilo == 0 ? d.x : mk(E_SUB, d.x, eConst((u64)ilo, 64));
		if (allC && cnt >= 4 && (cnt & (cnt - 1)) == 0 && d.x->hi == cnt - 1 && ilo == 0) { // XOR-linear tables (CRC) become a sum of bits
			bool lin = v[0]->v == 0;
			for (size_t i = 1; lin && i < cnt; i++) { size_t low = i & (0 - i); lin = v[i]->v == (v[i ^ low]->v ^ v[low]->v); }
			if (lin) {
				const Expr* r = nullptr;
				for (unsigned j = 0; j < n * 8; j++) { const Expr* q = eConst(0, 1); for (int b = 0; (1ull << b) < cnt; b++) if (v[1ull << b]->v >> j & 1) q = mk(E_XOR, q, mkExtract(x, b, 1)); r = r ? mkConcat(q, r) : q; }
				return ve(r);
			}
		}
		return ve(selTree(x, 0, v, 0, cnt));
	}
	u64 a = concretize(s, addr);
	return readC(o, a - o->base, n);
}
static bool store(State& s, const Val& addr, unsigned n, const Val& v) {
	u64 off; const Expr* so;
	Obj* o = resolve(s, addr, n, true, off, so);
	if (!o) return false;
	u64 idx = (addr.e ? o->base : addr.c) >> SHIFT;
	if (!so) { writeC(s.mem.wrObj(idx), off, n, v); return true; }
	Dec d; s64 ilo, ihi;
	if (candidates(so, o->size, n, d, ilo, ihi) && ihi - ilo < 64) {
		Obj* w = s.mem.wrObj(idx);
		for (s64 i = ilo; i <= ihi; i++) {
			u64 p = (u64)(i * d.scale + d.c); const Expr* eq = mk(E_EQ, d.x, eConst((u64)i, 64));
			if (isC(eq) && !eq->v) continue;
			for (unsigned k = 0; k < n; k++) w->setByte(p + k, ve(mkIte(eq, v.e ? mkExtract(v.e, 8 * k, 8) : eConst(v.c >> (8 * k), 8), toE(w->byte(p + k), 8))));
		}
		return true;
	}
	u64 a = concretize(s, addr);
	writeC(s.mem.wrObj(idx), a - o->base, n, v);
	return true;
}

// ---------------------------------------------------------------- decoding
static u64 typeBytes(Type* t) { return DL->getTypeStoreSize(t).getFixedValue(); }
static void flatten(Type* t, u64 off, std::vector<Leaf>& out) {
	if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out); }
	else if (auto* at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * sz, out); }
	else { unsigned w = t->isPointerTy() ? 64 : t->getPrimitiveSizeInBits().getFixedValue(); out.push_back({ (u32)off, (u16)w, (u16)((w + 7) / 8) }); }
}
static unsigned nslots(Type* t) { if (t->isVoidTy()) return 0; std::vector<Leaf> l; flatten(t, 0, l); return l.size(); }
static unsigned widthOf(Type* t) { return t->isPointerTy() ? 64 : t->getPrimitiveSizeInBits().getFixedValue(); }

static u64 constVal(const Constant* c, bool& ok);
static u64 gepConst(const GEPOperator* g, bool& ok) {
	u64 base = constVal(cast<Constant>(g->getPointerOperand()), ok);
	APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) ok = false;
	return base + off.getSExtValue();
}
static DFunc* getFn(const Function* f);
static u64 constVal(const Constant* c, bool& ok) {
	if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) { ok = false; return 0; } return i->getZExtValue(); }
	if (auto* f = dyn_cast<ConstantFP>(c)) { APInt a = f->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() > 64) { ok = false; return 0; } return a.getZExtValue(); }
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
	if (auto* f = dyn_cast<Function>(c)) return getFn(f)->addr;
	if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = GADDR.find(g); if (it == GADDR.end()) { ok = false; return 0; } return it->second; }
	if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee(), ok);
	if (auto* e = dyn_cast<ConstantExpr>(c)) {
		switch (e->getOpcode()) {
		case Instruction::GetElementPtr: return gepConst(cast<GEPOperator>(e), ok);
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(e->getOperand(0), ok) & maskw(widthOf(e->getType()));
		case Instruction::Trunc: return constVal(e->getOperand(0), ok) & maskw(widthOf(e->getType()));
		case Instruction::Add: return (constVal(e->getOperand(0), ok) + constVal(e->getOperand(1), ok)) & maskw(widthOf(e->getType()));
		case Instruction::Sub: return (constVal(e->getOperand(0), ok) - constVal(e->getOperand(1), ok)) & maskw(widthOf(e->getType()));
		case Instruction::ICmp: { auto* ic = cast<ConstantExpr>(e); u64 a = constVal(ic->getOperand(0), ok), b = constVal(ic->getOperand(1), ok); switch (ic->getPredicate()) { case ICmpInst::ICMP_EQ: return a == b; case ICmpInst::ICMP_NE: return a != b; default: ok = false; return 0; } }
		default: ok = false; return 0;
		}
	}
	ok = false; return 0;
}
static void flattenConst(const Constant* c, Type* t, std::vector<Val>& out, bool& ok) {
	if (t->isStructTy() || t->isArrayTy()) {
		unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
		for (unsigned i = 0; i < n; i++) { Constant* e = c->getAggregateElement(i); Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(); if (!e) { ok = false; return; } flattenConst(e, et, out, ok); }
	}
	else out.push_back(vc(constVal(c, ok)));
}
static void initGlobal(Obj* o, u64 off, const Constant* c) {
	Type* t = c->getType();
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); for (size_t i = 0; i < r.size(); i++) o->setByte(off + i, vc((u8)r[i])); return; }
	if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
	if (auto* at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) initGlobal(o, off + i * sz, c->getAggregateElement(i)); return; }
	bool ok = true; u64 v = constVal(c, ok);
	if (!ok) { fprintf(stderr, "unsupported global initialiser\n"); }
	writeC(o, off, (widthOf(t) + 7) / 8, vc(v));
}

static std::map<std::string, int> builtinIds;
static int interceptOf(const std::string& name);
static DFunc* getFn(const Function* f) {
	auto it = FN.find(f); if (it != FN.end()) return it->second;
	DFunc* d = new DFunc; d->fn = const_cast<Function*>(f); d->name = f->getName().str(); d->demangled = llvm::demangle(d->name);
	d->id = FNS.size(); d->addr = FUNC_BASE + 16 * d->id; FNS.push_back(d); FN[f] = d;
	d->intercept = interceptOf(d->name);
	d->stub = O.stubVoid.count(d->name) > 0;
	return d;
}

enum { B_MEMCPY = 1, B_MEMMOVE, B_MEMSET, B_TRAP, B_VASTART, B_VAEND, B_VACOPY, B_MOVE1, B_MALLOC_AL, B_FREE_AL, B_STRLEN, B_ZERO, B_ONE, B_SYM_BYTES, B_SYM_RANGE, B_SYM_U64, B_SYM_ASSUME, B_SYM_CHECK, B_SYM_KNOWN, B_SYM_REACH, B_SYM_CONCRETE, B_SYM_FATALOK, B_SYM_ALLOC, B_SYM_FREE, B_SYM_RO, B_SYM_NOTE, B_SYM_OPTION, B_EXIT, B_FSHL, B_FSHR, B_FMULADD, B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_ABS, B_CTLZ, B_CTTZ, B_CTPOP, B_BSWAP, B_UNREACH, B_FABS, B_MEMCMP, B_CRC32, B_ASSERT_HANDLER, B_IOB };
static int interceptOf(const std::string& n) {
	if (O.absCrc && (n == "_ZN3gen5crc32EPKvx" || n == "gen_crc32")) return B_CRC32;
	if (O.fastMem) { if (n == "_ZN3gen8mem_copyEPvPKvx" || n == "gen_mem_copy") return B_MEMCPY; if (n == "_ZN3gen8mem_moveEPvPKvx" || n == "gen_mem_move") return B_MEMMOVE; if (n == "_ZN3gen7mem_setEPvhx" || n == "gen_mem_set") return B_MEMSET; } // decided on their own by the memory-primitive check
	if (n == "_ZN3gen14assert_handlerEPKcS1_S1_iS1_z" || n == "_ZN3gen14assert_handlerEPKcS1_S1_xS1_z" || n == "gen_assert_handler") return B_ZERO; // prints the message only; the trap that follows decides
	return -1;
}
static int builtinOf(const Function* f) {
	if (f->isIntrinsic()) switch (f->getIntrinsicID()) {
	case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return B_MEMCPY;
	case Intrinsic::memmove: return B_MEMMOVE;
	case Intrinsic::memset: return B_MEMSET;
	case Intrinsic::trap: case Intrinsic::debugtrap: return B_TRAP;
	case Intrinsic::vastart: return B_VASTART;
	case Intrinsic::vaend: return B_VAEND;
	case Intrinsic::vacopy: return B_VACOPY;
	case Intrinsic::threadlocal_address: case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return B_MOVE1;
	case Intrinsic::fshl: return B_FSHL; case Intrinsic::fshr: return B_FSHR; case Intrinsic::fmuladd: case Intrinsic::fma: return B_FMULADD;
	case Intrinsic::uadd_with_overflow: return B_UADDO; case Intrinsic::usub_with_overflow: return B_USUBO; case Intrinsic::umul_with_overflow: return B_UMULO;
	case Intrinsic::sadd_with_overflow: return B_SADDO; case Intrinsic::ssub_with_overflow: return B_SSUBO; case Intrinsic::smul_with_overflow: return B_SMULO;
	case Intrinsic::umax: return B_UMAX; case Intrinsic::umin: return B_UMIN; case Intrinsic::smax: return B_SMAX; case Intrinsic::smin: return B_SMIN; case Intrinsic::abs: return B_ABS;
	case Intrinsic::ctlz: return B_CTLZ; case Intrinsic::cttz: return B_CTTZ; case Intrinsic::ctpop: return B_CTPOP; case Intrinsic::bswap: return B_BSWAP; case Intrinsic::fabs: return B_FABS;
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: return B_VAEND;
	default: return -1;
	}
	auto it = builtinIds.find(f->getName().str());
	return it == builtinIds.end() ? -1 : it->second;
}

static void decode(DFunc* d) {
	d->decoded = true; Function& F = *d->fn;
	std::map<const Value*, s32> reg; std::map<const BasicBlock*, int> bbId; s32 next = 0;
	std::map<const Constant*, s32> cidx;
	for (auto& a : F.args()) { unsigned n = nslots(a.getType()); reg[&a] = next; d->argSlots.push_back({ next, (s32)n }); next += n; }
	int nb = 0; for (auto& B : F) { bbId[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) { reg[&I] = next; next += nslots(I.getType()); } }
	s32 tmpBase = next;
	auto op = [&](const Value* v) -> s32 {
		if (auto* c = dyn_cast<Constant>(v)) {
			auto it = cidx.find(c); if (it != cidx.end()) return it->second;
			s32 i = -1 - (s32)d->consts.size(); bool ok = true;
			flattenConst(c, c->getType(), d->consts, ok);
			if (!ok) { std::string t; raw_string_ostream os(t); c->print(os); fprintf(stderr, "warning: unsupported constant %s in %s\n", os.str().c_str(), d->name.c_str()); }
			cidx[c] = i; return i;
		}
		auto it = reg.find(v); return it == reg.end() ? 0 : it->second;
	};
	auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> int {
		Edge e;
		for (auto& ph : to->phis()) { const Value* in = ph.getIncomingValueForBlock(from); s32 s = op(in), t = reg[&ph]; unsigned n = nslots(ph.getType()); for (unsigned k = 0; k < n; k++) e.moves.push_back({ t + (s32)k, s < 0 ? s - (s32)k : s + (s32)k }); }
		d->edges.push_back(e); return d->edges.size() - 1;
	};
	d->blockStart.resize(nb);
	for (auto& B : F) {
		d->blockStart[bbId[&B]] = d->code.size();
		for (auto& I : B) {
			if (isa<PHINode>(I)) continue;
			DInst x; x.src = &I; x.op = I_UNSUP; Type* ty = I.getType();
			if (!ty->isVoidTy()) { x.dst = reg[&I]; x.ns = nslots(ty); if (!ty->isAggregateType()) x.w = widthOf(ty); }
			bool wide = !ty->isVoidTy() && !ty->isAggregateType() && widthOf(ty) > 64;
			if (!wide) switch (I.getOpcode()) {
			case Instruction::Add: x.sub = E_ADD; goto bin; case Instruction::Sub: x.sub = E_SUB; goto bin; case Instruction::Mul: x.sub = E_MUL; goto bin;
			case Instruction::UDiv: x.sub = E_UDIV; goto bin; case Instruction::SDiv: x.sub = E_SDIV; goto bin; case Instruction::URem: x.sub = E_UREM; goto bin; case Instruction::SRem: x.sub = E_SREM; goto bin;
			case Instruction::And: x.sub = E_AND; goto bin; case Instruction::Or: x.sub = E_OR; goto bin; case Instruction::Xor: x.sub = E_XOR; goto bin;
			case Instruction::Shl: x.sub = E_SHL; goto bin; case Instruction::LShr: x.sub = E_LSHR; goto bin; case Instruction::AShr: x.sub = E_ASHR; goto bin;
			bin: if (ty->isVectorTy()) break; x.op = I_BIN; x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); break;
			case Instruction::ICmp: if (ty->isVectorTy() || widthOf(I.getOperand(0)->getType()) > 64) break; x.op = I_ICMP; x.sub = cast<ICmpInst>(I).getPredicate(); x.w2 = widthOf(I.getOperand(0)->getType()); x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); break;
			case Instruction::Load: if (ty->isVectorTy()) break; x.op = I_LOAD; x.a = op(I.getOperand(0)); flatten(ty, 0, x.leaves); x.bytes = typeBytes(ty); break;
			case Instruction::Store: { Type* vt = I.getOperand(0)->getType(); if (vt->isVectorTy()) break; x.op = I_STORE; x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); flatten(vt, 0, x.leaves); x.bytes = typeBytes(vt); for (auto& l : x.leaves) if (l.w > 64) x.op = I_UNSUP; break; }
			case Instruction::GetElementPtr: {
				auto& g = cast<GetElementPtrInst>(I); if (ty->isVectorTy()) break; x.op = I_GEP; x.a = op(g.getPointerOperand()); s64 c = 0;
				for (auto gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi) {
					Value* ix = gi.getOperand();
					if (StructType* st = gi.getStructTypeOrNull()) c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
					else { u64 sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) c += ci->getSExtValue() * (s64)sz; else { x.gep.push_back({ op(ix), sz }); x.ow.push_back(widthOf(ix->getType())); } }
				}
				x.imm = (u64)c; break;
			}
			case Instruction::Alloca: { auto& a = cast<AllocaInst>(I); x.op = I_ALLOCA; x.imm = DL->getTypeAllocSize(a.getAllocatedType()); x.b = a.getAlign().value(); x.a = op(a.getArraySize()); x.w2 = widthOf(a.getArraySize()->getType()); break; }
			case Instruction::Br: { auto& b = cast<BranchInst>(I); if (b.isConditional()) { x.op = I_CBR; x.a = op(b.getCondition()); x.t = bbId[b.getSuccessor(0)]; x.f = bbId[b.getSuccessor(1)]; x.te = edge(&B, b.getSuccessor(0)); x.fe = edge(&B, b.getSuccessor(1)); } else { x.op = I_BR; x.t = bbId[b.getSuccessor(0)]; x.te = edge(&B, b.getSuccessor(0)); } break; }
			case Instruction::Switch: { auto& s = cast<SwitchInst>(I); x.op = I_SWITCH; x.a = op(s.getCondition()); x.w2 = widthOf(s.getCondition()->getType()); x.t = bbId[s.getDefaultDest()]; x.te = edge(&B, s.getDefaultDest()); for (auto& c : s.cases()) { x.cases.push_back({ c.getCaseValue()->getZExtValue(), bbId[c.getCaseSuccessor()] }); x.caseEdges.push_back(edge(&B, c.getCaseSuccessor())); } break; }
			case Instruction::Ret: x.op = I_RET; if (I.getNumOperands()) { x.a = op(I.getOperand(0)); x.ns = nslots(I.getOperand(0)->getType()); } else x.ns = 0; break;
			case Instruction::Unreachable: x.op = I_UNREACH; break;
			case Instruction::Select: if (I.getOperand(0)->getType()->isVectorTy()) break; x.op = I_SELECT; x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); x.c = op(I.getOperand(2)); flatten(ty, 0, x.leaves); break;
			case Instruction::ZExt: x.op = I_ZEXT; x.a = op(I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
			case Instruction::SExt: x.op = I_SEXT; x.a = op(I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
			case Instruction::Trunc: if (widthOf(I.getOperand(0)->getType()) > 64) break; x.op = I_TRUNC; x.a = op(I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
			case Instruction::PtrToInt: x.a = op(I.getOperand(0)); x.w2 = 64; x.op = x.w < 64 ? I_TRUNC : I_MOV; break;
			case Instruction::IntToPtr: x.a = op(I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); x.op = x.w2 < 64 ? I_ZEXT : I_MOV; break;
			case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: if (ty->isVectorTy() || I.getOperand(0)->getType()->isVectorTy()) break; x.op = I_MOV; x.a = op(I.getOperand(0)); break;
			case Instruction::ExtractValue: { auto& e = cast<ExtractValueInst>(I); Type* t = e.getAggregateOperand()->getType(); unsigned k = 0; for (unsigned ix : e.indices()) { for (unsigned q = 0; q < ix; q++) k += nslots(t->isStructTy() ? t->getStructElementType(q) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); } s32 a = op(e.getAggregateOperand()); x.op = I_XVAL; x.a = a < 0 ? a - (s32)k : a + (s32)k; break; }
			case Instruction::InsertValue: { auto& e = cast<InsertValueInst>(I); Type* t = e.getAggregateOperand()->getType(); unsigned k = 0; for (unsigned ix : e.indices()) { for (unsigned q = 0; q < ix; q++) k += nslots(t->isStructTy() ? t->getStructElementType(q) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); } x.op = I_IVAL; x.a = op(e.getAggregateOperand()); x.b = op(e.getInsertedValueOperand()); x.imm = k; x.c = nslots(e.getInsertedValueOperand()->getType()); break; }
			case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: x.op = I_FBIN; x.sub = I.getOpcode() - Instruction::FAdd; x.imm = I.getOpcode(); x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); break;
			case Instruction::FNeg: x.op = I_FNEG; x.a = op(I.getOperand(0)); break;
			case Instruction::FCmp: x.op = I_FCMP; x.sub = cast<FCmpInst>(I).getPredicate(); x.w2 = widthOf(I.getOperand(0)->getType()); x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); break;
			case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: x.op = I_FCAST; x.imm = I.getOpcode(); x.w2 = widthOf(I.getOperand(0)->getType()); x.a = op(I.getOperand(0)); break;
			case Instruction::Call: {
				auto& c = cast<CallInst>(I);
				if (c.isInlineAsm()) break;
				x.op = I_CALL; Function* cf = dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts());
				if (!ty->isVoidTy() && ty->isAggregateType()) x.w = 0;
				x.nfixed = c.getFunctionType()->getNumParams();
				for (auto& a : c.args()) { if (a->getType()->isMetadataTy()) { x.ops.push_back(0); x.ow.push_back(0); } else { x.ops.push_back(op(a)); x.ow.push_back(a->getType()->isAggregateType() ? 0 : widthOf(a->getType())); } }
				if (cf) {
					DFunc* df = getFn(cf);
					if (df->intercept >= 0) { x.op = I_BUILTIN; x.builtin = df->intercept; x.callee = df; }
					else if (!cf->isDeclaration()) x.callee = df;
					else { x.op = I_BUILTIN; x.builtin = builtinOf(cf); x.callee = df; if (x.builtin == B_VAEND && cf->isIntrinsic()) x.op = I_NOP; }
				}
				else x.a = op(c.getCalledOperand());
				break;
			}
			default: break;
			}
			d->code.push_back(std::move(x));
		}
	}
	d->nregs = tmpBase;
}

// ---------------------------------------------------------------- execution
static inline Val& R(State& s, const FrameS& f, s32 i) { return s.regs[f.regBase + i]; }
static inline Val get(State& s, const FrameS& f, s32 i) { return i >= 0 ? s.regs[f.regBase + i] : f.f->consts[-1 - i]; }

static void pushFrame(State& s, DFunc* d, const std::vector<Val>& args, u64 va) {
	if (!d->decoded) decode(d);
	SH->fnHit[d->id < MAXFN ? d->id : 0] = 1;
	FrameS f; f.f = d; f.regBase = s.regs.size(); f.ip = 0; f.allocaBase = s.allocas.size(); f.va = va;
	s.regs.resize(s.regs.size() + d->nregs, vc(0));
	size_t k = 0;
	for (auto& a : d->argSlots) for (s32 j = 0; j < a.second && k < args.size(); j++) s.regs[f.regBase + a.first + j] = args[k++];
	s.st.push_back(f);
}
static void endPath(State& s) {
	SH->paths++;
	if (O.samples && SH->nsamples.load() < O.samples && SH->nsamples.fetch_add(1) < O.samples) {
		char fn[512]; snprintf(fn, 512, "%s/sample-%d-%llu.json", O.out.c_str(), (int)getpid(), (unsigned long long)SH->paths.load());
		FILE* f = fopen(fn, "w"); if (f) { fprintf(f, "{"); writeInputs(s, f); fprintf(f, ", \"constraints\": %zu, \"steps\": %llu}\n", s.pc.size(), (unsigned long long)s.steps); fclose(f); }
	}
}
static void takeEdge(State& s, FrameS& f, int block, int e) {
	Edge& ed = f.f->edges[e];
	if (ed.moves.size() == 1) R(s, f, ed.moves[0].first) = get(s, f, ed.moves[0].second);
	else if (!ed.moves.empty()) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (ed.moves.size() > 64) { big.resize(ed.moves.size()); t = big.data(); } size_t i = 0; for (auto& m : ed.moves) t[i++] = get(s, f, m.second); i = 0; for (auto& m : ed.moves) R(s, f, m.first) = t[i++]; }
	f.ip = f.f->blockStart[block];
}
static double asD(u64 v, unsigned w) { if (w == 32) { float f; u32 u = v; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = d; u32 u; memcpy(&u, &f, 4); return u; } u64 v; memcpy(&v, &d, 8); return v; }
static u64 fpConcrete(State& s, const Val& v) {
	if (!v.e) return v.c;
	SH->symFp++; SH->incomplete = 1; // one value only: not a full decision
	u64 x = evalM(v.e, s.model->v); addC(s, mk(E_EQ, v.e, eConst(x, v.e->w))); return x;
}
static std::string readStr(State& s, const Val& a, size_t max = 400) {
	std::string r; if (a.e) return "?";
	Obj* o = s.mem.get(a.c >> SHIFT); if (!o || a.c < o->base) return "?";
	for (u64 i = a.c - o->base; i < o->size && r.size() < max; i++) { Val b = o->byte(i); if (b.e) { char ch = (char)evalM(b.e, s.model->v); if (!ch) break; r += ch; continue; } if (!b.c) break; r += (char)b.c; }
	return r;
}
static u32 crcHost(const u8* p, size_t n) { u32 c = ~0u; for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1))); } return ~c; }
static const Expr* newSym(State& s, const std::string& name, unsigned w) {
	u64 i = s.syms.size(); if (i >= MAXSYM) { unsupported(s, "too many symbols"); return eConst(0, w); }
	s.syms.push_back({ name, (u8)w }); return eSym(i, w);
}
static bool memCopy(State& s, Val d, Val sr, u64 n) {
	if (!n) return true;
	u64 da = concretize(s, d), sa = concretize(s, sr); u64 so, dof; const Expr* e;
	Obj* os = resolve(s, vc(sa), n > 0xffffffff ? 0xffffffff : n, false, so, e); if (!os) return false;
	Obj* od = resolve(s, vc(da), n > 0xffffffff ? 0xffffffff : n, true, dof, e); if (!od) return false;
	od = s.mem.wrObj(da >> SHIFT); os = s.mem.get(sa >> SHIFT);
	bool fwd = !(os == od && so < dof);
	if (os != od) { // page runs
		u64 i = 0;
		while (i < n) {
			u64 run = std::min({ n - i, PG - (so + i) % PG, PG - (dof + i) % PG });
			Page* ps = os->rd((so + i) / PG);
			if (!ps || !ps->s) { Page* pd = od->wr((dof + i) / PG); u32 di = (dof + i) % PG; if (ps) memcpy(pd->d + di, ps->d + (so + i) % PG, run); else memset(pd->d + di, os->fill, run); if (pd->s) memset(pd->s + di, 0, run * sizeof(*pd->s)); }
			else for (u64 k = 0; k < run; k++) od->setByte(dof + i + k, os->byte(so + i + k));
			i += run;
		}
	}
	else if (fwd) for (u64 i = 0; i < n; i++) od->setByte(dof + i, os->byte(so + i));
	else for (u64 i = n; i-- > 0;) od->setByte(dof + i, os->byte(so + i));
	return true;
}

// returns false when the path ended
static bool builtin(State& s, FrameS& f, DInst& x) {
	auto A = [&](int i) { return get(s, f, x.ops[i]); };
	auto ret = [&](Val v) { if (x.dst >= 0) R(s, s.st.back(), x.dst) = v; };
	unsigned w = x.ow.empty() ? 0 : x.ow[0];
	switch (x.builtin) {
	case B_MEMCPY: case B_MEMMOVE: { Val d = A(0); u64 n = concretize(s, A(2)); if (x.builtin == B_MEMCPY && !x.callee->fn->isIntrinsic() && n) { u64 da = concretize(s, d), sa = concretize(s, A(1)); if (da < sa + n && sa < da + n) { violation(s, "memory", "copy between overlapping ranges"); return false; } } if (!memCopy(s, d, A(1), n)) return false; if (!x.callee->fn->isIntrinsic()) ret(d); return true; }
	case B_MEMSET: {
		Val d = A(0), v = A(1); u64 n = concretize(s, A(2)); if (v.e && v.e->w > 8) v = ve(mkExtract(v.e, 0, 8)); if (!v.e) v.c &= 0xff;
		if (n) {
			u64 da = concretize(s, d), off; const Expr* e; Obj* o = resolve(s, vc(da), n > 0xffffffff ? 0xffffffff : n, true, off, e); if (!o) return false;
			o = s.mem.wrObj(da >> SHIFT);
			for (u64 i = 0; i < n;) {
				u64 run = std::min(n - i, PG - (off + i) % PG); u64 pi = (off + i) / PG;
				if (!v.e && !o->rd(pi) && o->fill == v.c) { i += run; continue; }
				if (!v.e) { Page* p = o->wr(pi); memset(p->d + (off + i) % PG, v.c, run); if (p->s) memset(p->s + (off + i) % PG, 0, run * sizeof(*p->s)); }
				else for (u64 k = 0; k < run; k++) o->setByte(off + i + k, v);
				i += run;
			}
		}
		if (!x.callee->fn->isIntrinsic()) ret(d); return true;
	}
	case B_MEMCMP: {
		u64 n = concretize(s, A(2)); const Expr* r = eConst(0, 32); bool dead;
		u64 pa = concretize(s, A(0)), pb = concretize(s, A(1));
		for (u64 i = n; i-- > 0;) { Val a = load(s, vc(pa + i), 1, dead); if (dead) return false; Val b = load(s, vc(pb + i), 1, dead); if (dead) return false; const Expr *ea = toE(a, 8), *eb = toE(b, 8); r = mkIte(mk(E_EQ, ea, eb), r, mk(E_SUB, mkZext(ea, 32), mkZext(eb, 32))); }
		ret(ve(r)); return true;
	}
	case B_TRAP: case B_EXIT:
		if (s.fatalOk) { SH->rejected++; pathDead = true; return false; }
		violation(s, "fatal", x.builtin == B_TRAP ? "the library aborted (assertion or fatal error)" : "the process exited"); return false;
	case B_VASTART: if (!store(s, A(0), 8, vc(f.va))) return false; return true;
	case B_VACOPY: { bool dead; Val v = load(s, A(1), 8, dead); if (dead) return false; return store(s, A(0), 8, v); }
	case B_VAEND: return true;
	case B_MOVE1: ret(A(0)); return true;
	case B_ZERO: if (x.dst >= 0) ret(vc(0)); return true;
	case B_ONE: if (x.dst >= 0) ret(vc(1)); return true;
	case B_MALLOC_AL: { u64 n = concretize(s, A(0)); u64 al = x.ops.size() > 1 ? concretize(s, A(1)) : 16; if (n > (1ull << 34)) { ret(vc(0)); return true; } ret(vc(s.mem.alloc(n, al ? al : 16, K_HEAP, 0xCD, "heap")->base)); return true; }
	case B_SYM_ALLOC: { u64 n = concretize(s, A(0)); ret(vc(s.mem.alloc(n, 16, K_HEAP, 0xCD, "heap")->base)); return true; }
	case B_FREE_AL: case B_SYM_FREE: { u64 a = concretize(s, A(0)); if (!a) return true; Obj* o = s.mem.get(a >> SHIFT); if (!o || o->base != a || o->kind != K_HEAP) { violation(s, "memory", o ? "free of a pointer that was not allocated" : "double free or free of a wild pointer"); return false; } s.mem.free(a >> SHIFT); return true; }
	case B_STRLEN: {
		u64 a = concretize(s, A(0)); bool dead;
		for (u64 i = 0;; i++) { Val b = load(s, vc(a + i), 1, dead); if (dead) return false; if (!b.e) { if (!b.c) { ret(vc(i)); return true; } } else if (branchOn(s, mk(E_EQ, b.e, eConst(0, 8)))) { ret(vc(i)); return true; } }
	}
	case B_SYM_BYTES: {
		u64 a = concretize(s, A(0)), n = concretize(s, A(1)); std::string nm = readStr(s, A(2)); u64 off; const Expr* e;
		Obj* o = resolve(s, vc(a), n, true, off, e); if (!o) return false; o = s.mem.wrObj(a >> SHIFT);
		for (u64 i = 0; i < n; i++) { const Expr* q = newSym(s, nm + "[" + std::to_string(i) + "]", 8); if (pathDead) return false; o->setByte(off + i, ve(q)); }
		return true;
	}
	case B_SYM_RANGE: {
		s64 lo = sx(concretize(s, A(0)), 32), hi = sx(concretize(s, A(1)), 32); const Expr* q;
		std::string nm = readStr(s, A(2));
		if (lo >= 0 && hi <= 255) { // a byte is enough
			q = newSym(s, nm, 8); if (pathDead) return false; Model* m = new Model(*s.model.p); m->rc = 0; m->v[s.syms.size() - 1] = lo; s.model = P<Model>(m);
			addC(s, mk(E_ULE, eConst(lo, 8), q)); addC(s, mk(E_ULE, q, eConst(hi, 8))); ret(ve(mkZext(q, 32)));
		} else {
			q = newSym(s, nm, 32); if (pathDead) return false; Model* m = new Model(*s.model.p); m->rc = 0; m->v[s.syms.size() - 1] = (u32)lo; s.model = P<Model>(m);
			addC(s, mk(E_SLE, eConst((u64)lo, 32), q)); addC(s, mk(E_SLE, q, eConst((u64)hi, 32))); ret(ve(q));
		}
		return true;
	}
	case B_SYM_U64: { const Expr* q = newSym(s, readStr(s, A(0)), 64); if (pathDead) return false; ret(ve(q)); return true; }
	case B_SYM_ASSUME: {
		Val v = A(0); if (!v.e) { if (v.c) return true; SH->assumed++; pathDead = true; return false; }
		const Expr* c = mkNot(mk(E_EQ, v.e, eConst(0, v.e->w)));
		if (evalM(c, s.model->v)) { addC(s, c); return true; }
		std::vector<std::pair<u16, u64>> m; if (feasible(s, c, m, false) != 1) { SH->assumed++; pathDead = true; return false; }
		addC(s, c); applyModel(s, m); return true;
	}
	case B_SYM_CHECK: {
		Val v = A(0); std::string msg = readStr(s, A(1));
		if (!v.e) { SH->checksConst++; if (v.c) return true; violation(s, "check", msg); return false; }
		const Expr* bad = mk(E_EQ, v.e, eConst(0, v.e->w));
		std::vector<std::pair<u16, u64>> m; SH->checksZ3++;
		int r = feasible(s, bad, m, true);
		if (r == 1) {
			State* n = clone(s); addC(*n, bad); applyModel(*n, m); SH->errors++; record(*n, "check", msg); delete n;
			const Expr* good = mkNot(bad); if (feasible(s, good, m, false) != 1) { pathDead = true; return false; }
			addC(s, good); applyModel(s, m);
		}
		return true;
	}
	case B_SYM_KNOWN: { std::string id = readStr(s, A(0)); record(s, "known", readStr(s, A(1)), id.c_str()); pathDead = true; return false; }
	case B_SYM_REACH: {
		std::string l = readStr(s, A(0), 90); int i, n = SH->nlbl;
		for (i = 0; i < n; i++) if (l == SH->lbl[i]) break;
		if (i == n) { SH->acquire(); n = SH->nlbl; for (i = 0; i < n; i++) if (l == SH->lbl[i]) break; if (i == n && n < MAXLBL) { snprintf(SH->lbl[n], 96, "%s", l.c_str()); SH->nlbl = n + 1; } SH->release(); }
		if (i < MAXLBL) SH->lblHits[i]++;
		return true;
	}
	case B_SYM_CONCRETE: ret(vc(concretize(s, A(0)))); return true;
	case B_SYM_FATALOK: s.fatalOk = concretize(s, A(0)); return true;
	case B_SYM_RO: { u64 a = concretize(s, A(0)); Obj* o = s.mem.get(a >> SHIFT); if (o) { o = s.mem.wrObj(a >> SHIFT); o->ro = concretize(s, A(1)); } return true; }
	case B_SYM_NOTE: { Val v = A(1); s.notes.push_back(readStr(s, A(0)) + "=" + (v.e ? std::to_string((s64)evalM(v.e, s.model->v)) : std::to_string((s64)v.c))); return true; }
	case B_SYM_OPTION: { auto it = O.opt.find(readStr(s, A(0))); ret(vc(it == O.opt.end() ? 0xffffffffu : (u32)it->second)); return true; }
	case B_CRC32: { // the content is hashed injectively: equal content, equal hash; different content, different hash (no collisions)
		u64 n = concretize(s, A(1)), a = concretize(s, A(0)); bool dead; auto rec = std::make_shared<HashRec>(); bool conc = true;
		if (n > 100000) { unsupported(s, "hash of a huge range"); return false; }
		for (u64 i = 0; i < n; i++) { Val b = load(s, vc(a + i), 1, dead); if (dead) return false; conc &= !b.e; rec->bytes.push_back(b); }
		for (auto& h : s.hashes) {
			if (h->bytes.size() != n) continue;
			const Expr* eq = eConst(1, 1); bool no = false;
			for (u64 i = 0; i < n && !no; i++) { Val &p = rec->bytes[i], &q = h->bytes[i]; if (!p.e && !q.e) { no = p.c != q.c; continue; } eq = mk(E_AND, eq, mk(E_EQ, toE(p, 8), toE(q, 8))); if (isC(eq) && !eq->v) no = true; }
			if (no) continue;
			if (branchOn(s, eq)) { ret(vc(h->h)); return true; }
		}
		std::vector<u8> by; for (auto& b : rec->bytes) by.push_back(b.e ? evalM(b.e, s.model->v) : b.c);
		u32 h = crcHost(by.data(), n); (void)conc;
		for (bool again = true; again;) { again = false; for (auto& q : s.hashes) if (q->h == h) { h++; again = true; } }
		rec->h = h; s.hashes.push_back(rec); ret(vc(h)); return true;
	}
	case B_FSHL: case B_FSHR: {
		Val a = A(0), b = A(1), c = A(2); u64 sh = concretize(s, c) % w; if (x.builtin == B_FSHR) sh = (w - sh) % w;
		if (!sh) { ret(x.builtin == B_FSHL ? a : (concretize(s, c) % w ? a : b)); return true; }
		const Expr *ea = toE(a, w), *eb = toE(b, w); ret(ve(mkConcat(mkExtract(ea, 0, w - sh), mkExtract(eb, w - sh, sh)))); return true;
	}
	case B_FMULADD: { double r = asD(fpConcrete(s, A(0)), w) * asD(fpConcrete(s, A(1)), w) + asD(fpConcrete(s, A(2)), w); ret(vc(fromD(r, w))); return true; }
	case B_FABS: ret(vc(fromD(fabs(asD(fpConcrete(s, A(0)), w)), w))); return true;
	case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: {
		const Expr *a = toE(A(0), w), *b = toE(A(1), w); EOp o = x.builtin == B_UADDO || x.builtin == B_SADDO ? E_ADD : x.builtin == B_USUBO || x.builtin == B_SSUBO ? E_SUB : E_MUL; const Expr *r = mk(o, a, b), *ov;
		if (x.builtin == B_UADDO) ov = mk(E_ULT, r, a); else if (x.builtin == B_USUBO) ov = mk(E_ULT, a, b);
		else if (w <= 32) { bool u = x.builtin == B_UMULO; const Expr* W = mk(o, u ? mkZext(a, 64) : mkSext(a, 64), u ? mkZext(b, 64) : mkSext(b, 64)); ov = mkNot(mk(E_EQ, W, u ? mkZext(r, 64) : mkSext(r, 64))); }
		else if (x.builtin != B_UMULO && x.builtin != B_SMULO) { const Expr* z0 = eConst(0, w); const Expr *sa = mk(E_SLT, a, z0), *sb = mk(E_SLT, b, z0), *sr = mk(E_SLT, r, z0); ov = x.builtin == B_SADDO ? mk(E_AND, mk(E_EQ, sa, sb), mkNot(mk(E_EQ, sa, sr))) : mk(E_AND, mkNot(mk(E_EQ, sa, sb)), mkNot(mk(E_EQ, sa, sr))); }
		else if (isC(a) && isC(b)) { if (x.builtin == B_UMULO) { u64 t; ov = eConst(__builtin_mul_overflow(a->v, b->v, &t), 1); } else { s64 t; ov = eConst(__builtin_mul_overflow((s64)a->v, (s64)b->v, &t), 1); } }
		else { unsupported(s, "64-bit multiply overflow"); return false; }
		R(s, f, x.dst) = ve(r); R(s, f, x.dst + 1) = ve(ov); return true;
	}
	case B_UMAX: case B_UMIN: case B_SMAX: case B_SMIN: { const Expr *a = toE(A(0), w), *b = toE(A(1), w); bool sg = x.builtin == B_SMAX || x.builtin == B_SMIN, mx = x.builtin == B_UMAX || x.builtin == B_SMAX; const Expr* lt = mk(sg ? E_SLT : E_ULT, a, b); ret(ve(mx ? mkIte(lt, b, a) : mkIte(lt, a, b))); return true; }
	case B_ABS: { const Expr* a = toE(A(0), w); ret(ve(mkIte(mk(E_SLT, a, eConst(0, w)), mk(E_SUB, eConst(0, w), a), a))); return true; }
	case B_CTLZ: { u64 v = concretize(s, A(0)); ret(vc(v ? __builtin_clzll(v) - (64 - w) : w)); return true; }
	case B_CTTZ: { u64 v = concretize(s, A(0)); ret(vc(v ? __builtin_ctzll(v) : w)); return true; }
	case B_CTPOP: { u64 v = concretize(s, A(0)); ret(vc(__builtin_popcountll(v))); return true; }
	case B_BSWAP: { const Expr *a = toE(A(0), w), *r = nullptr; for (unsigned i = 0; i < w; i += 8) { const Expr* b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; } ret(ve(r)); return true; }
	case B_IOB: ret(vc(s.mem.alloc(64, 16, K_HEAP, 0, "FILE")->base)); return true;
	default: unsupported(s, "call of " + (x.callee ? x.callee->demangled : std::string("?"))); return false;
	}
}

// One step. Returns false when the path ended.
static bool step(State& s) {
	FrameS& f = s.st.back(); DInst& x = f.f->code[f.ip];
	s.steps++;
	switch (x.op) {
	case I_BIN: {
		Val a = get(s, f, x.a), b = get(s, f, x.b); bool isDiv = x.sub == E_UDIV || x.sub == E_SDIV || x.sub == E_UREM || x.sub == E_SREM;
		if (isDiv) {
			if (!b.e) { if (!b.c) { violation(s, "division", "division by zero"); return false; } }
			else if (branchOn(s, mk(E_EQ, b.e, eConst(0, x.w)))) { violation(s, "division", "division by zero"); return false; }
		}
		if (!a.e && !b.e) { bool ok; u64 bb = b.c; if ((x.sub == E_SHL || x.sub == E_LSHR || x.sub == E_ASHR) && bb >= x.w) bb &= (x.w == 64 ? 63 : 31); R(s, f, x.dst) = vc(foldOp((EOp)x.sub, x.w, a.c, bb, &ok)); }
		else R(s, f, x.dst) = ve(mk((EOp)x.sub, toE(a, x.w), toE(b, x.w)));
		f.ip++; return true;
	}
	case I_ICMP: {
		Val a = get(s, f, x.a), b = get(s, f, x.b); EOp o; bool neg = false, sw = false;
		switch (x.sub) {
		case CmpInst::ICMP_EQ: o = E_EQ; break; case CmpInst::ICMP_NE: o = E_EQ; neg = true; break;
		case CmpInst::ICMP_ULT: o = E_ULT; break; case CmpInst::ICMP_ULE: o = E_ULE; break; case CmpInst::ICMP_UGT: o = E_ULT; sw = true; break; case CmpInst::ICMP_UGE: o = E_ULE; sw = true; break;
		case CmpInst::ICMP_SLT: o = E_SLT; break; case CmpInst::ICMP_SLE: o = E_SLE; break; case CmpInst::ICMP_SGT: o = E_SLT; sw = true; break; default: o = E_SLE; sw = true; break;
		}
		if (sw) std::swap(a, b);
		if (!a.e && !b.e) { bool ok; u64 r = foldOp(o, x.w2, a.c, b.c, &ok); R(s, f, x.dst) = vc(neg ? !r : r); }
		else { const Expr* r = mk(o, toE(a, x.w2), toE(b, x.w2)); R(s, f, x.dst) = ve(neg ? mkNot(r) : r); }
		f.ip++; return true;
	}
	case I_LOAD: {
		Val a = get(s, f, x.a); bool dead;
		if (x.leaves.size() == 1) { Val v = load(s, a, x.leaves[0].bytes, dead); if (dead) return false; unsigned w = x.leaves[0].w; if (w & 7) { if (v.e) v = ve(mkExtract(v.e, 0, w)); else v.c &= maskw(w); } R(s, f, x.dst) = v; }
		else { u64 ac = concretize(s, a); for (size_t i = 0; i < x.leaves.size(); i++) { Leaf& l = x.leaves[i]; Val v = load(s, vc(ac + l.off), l.bytes, dead); if (dead) return false; if (l.w & 7) { if (v.e) v = ve(mkExtract(v.e, 0, l.w)); else v.c &= maskw(l.w); } R(s, f, x.dst + i) = v; } }
		f.ip++; return true;
	}
	case I_STORE: {
		Val a = get(s, f, x.b);
		if (x.leaves.size() == 1) { Val v = get(s, f, x.a); unsigned w = x.leaves[0].w; if ((w & 7) && v.e) v = ve(mkZext(v.e, x.leaves[0].bytes * 8)); if (!store(s, a, x.leaves[0].bytes, v)) return false; }
		else { u64 ac = concretize(s, a); for (size_t i = 0; i < x.leaves.size(); i++) { Leaf& l = x.leaves[i]; Val v = get(s, f, x.a < 0 ? x.a - (s32)i : x.a + (s32)i); if ((l.w & 7) && v.e) v = ve(mkZext(v.e, l.bytes * 8)); if (!store(s, vc(ac + l.off), l.bytes, v)) return false; } }
		f.ip++; return true;
	}
	case I_GEP: {
		Val b = get(s, f, x.a); u64 c = x.imm; const Expr* e = b.e; if (!b.e) c += b.c;
		for (size_t i = 0; i < x.gep.size(); i++) { Val v = get(s, f, x.gep[i].first); if (!v.e) c += (u64)sx(v.c, x.ow[i]) * x.gep[i].second; else { const Expr* t = mk(E_MUL, mkSext(v.e, 64), eConst(x.gep[i].second, 64)); e = e ? mk(E_ADD, e, t) : t; } }
		R(s, f, x.dst) = e ? ve(mk(E_ADD, e, eConst(c, 64))) : vc(c);
		f.ip++; return true;
	}
	case I_ALLOCA: { Val n = get(s, f, x.a); u64 cnt = concretize(s, n); Obj* o = s.mem.alloc(x.imm * cnt, x.b, K_STACK, 0xAA, "stack"); s.allocas.push_back(o->base >> SHIFT); R(s, f, x.dst) = vc(o->base); f.ip++; return true; }
	case I_BR: takeEdge(s, f, x.t, x.te); return true;
	case I_CBR: { Val c = get(s, f, x.a); bool t = c.e ? branchOn(s, c.e) : c.c; if (t) takeEdge(s, f, x.t, x.te); else takeEdge(s, f, x.f, x.fe); return true; }
	case I_SWITCH: {
		Val c = get(s, f, x.a);
		if (!c.e) { for (size_t i = 0; i < x.cases.size(); i++) if (x.cases[i].first == c.c) { takeEdge(s, f, x.cases[i].second, x.caseEdges[i]); return true; } takeEdge(s, f, x.t, x.te); return true; }
		// group by target; the model's own target first
		u64 v = evalM(c.e, s.model->v); int tgt = x.t, te = x.te; for (size_t i = 0; i < x.cases.size(); i++) if (x.cases[i].first == v) { tgt = x.cases[i].second; te = x.caseEdges[i]; }
		const Expr* cond = nullptr;
		if (te == x.te) { cond = eConst(1, 1); for (auto& k : x.cases) cond = mk(E_AND, cond, mkNot(mk(E_EQ, c.e, eConst(k.first, x.w2)))); }
		else { cond = eConst(0, 1); for (size_t i = 0; i < x.cases.size(); i++) if (x.cases[i].second == tgt) cond = mk(E_OR, cond, mk(E_EQ, c.e, eConst(x.cases[i].first, x.w2))); if (tgt == x.t) { const Expr* d = eConst(1, 1); for (auto& k : x.cases) d = mk(E_AND, d, mkNot(mk(E_EQ, c.e, eConst(k.first, x.w2)))); (void)d; cond = mk(E_EQ, c.e, eConst(v, x.w2)); } }
		branchOn(s, cond);
		takeEdge(s, s.st.back(), tgt, te); return true;
	}
	case I_RET: {
		std::vector<Val> r; for (int i = 0; i < x.ns; i++) r.push_back(get(s, f, x.a < 0 ? x.a - i : x.a + i));
		for (size_t i = f.allocaBase; i < s.allocas.size(); i++) s.mem.free(s.allocas[i]);
		s.allocas.resize(f.allocaBase);
		if (f.va) s.mem.free(f.va >> SHIFT);
		s.regs.resize(f.regBase); s.st.pop_back();
		if (s.st.empty()) { pathDead = true; endPath(s); return false; }
		FrameS& g = s.st.back(); DInst& c = g.f->code[g.ip];
		if (c.op == I_CALL || c.op == I_BUILTIN) { for (size_t i = 0; i < r.size() && (s32)i < (c.dst >= 0 ? c.ns : 0); i++) R(s, g, c.dst + i) = r[i]; }
		g.ip++; return true;
	}
	case I_CALL: {
		DFunc* d = x.callee;
		if (!d) {
			u64 a = concretize(s, get(s, f, x.a));
			if (a < FUNC_BASE || a >= FUNC_BASE + 16 * FNS.size() || (a & 15)) { violation(s, "memory", a ? "call through a wild function pointer" : "call through a null function pointer"); return false; }
			d = FNS[(a - FUNC_BASE) / 16];
		}
		if (d->intercept >= 0 || d->fn->isDeclaration()) { int sv = x.builtin; DFunc* sc = x.callee; x.builtin = d->intercept >= 0 ? d->intercept : builtinOf(d->fn); x.callee = d; bool ok = builtin(s, f, x); x.builtin = sv; x.callee = sc; if (!ok) return false; s.st.back().ip++; return true; }
		if (d->stub) { if (x.dst >= 0) for (int i = 0; i < x.ns; i++) R(s, f, x.dst + i) = vc(0); f.ip++; return true; }
		if (s.st.size() > 400) { violation(s, "recursion", "runaway recursion (more than 400 frames)"); return false; }
		std::vector<Val> args; u64 va = 0; size_t nf = d->fn->arg_size();
		Function::arg_iterator ai = d->fn->arg_begin();
		for (size_t i = 0; i < x.ops.size() && i < nf; i++, ++ai) { unsigned n = nslots(ai->getType()); for (unsigned k = 0; k < n; k++) args.push_back(get(s, f, x.ops[i] < 0 ? x.ops[i] - (s32)k : x.ops[i] + (s32)k)); }
		if (d->fn->isVarArg()) {
			size_t n = x.ops.size() > nf ? x.ops.size() - nf : 0; Obj* o = s.mem.alloc(8 * n, 8, K_VA, 0xAA, "va"); va = o->base; o = s.mem.wrObj(va >> SHIFT);
			for (size_t i = 0; i < n; i++) { Val v = get(s, f, x.ops[nf + i]); unsigned w = x.ow[nf + i]; if (w != 8 && w != 16 && w != 32 && w != 64) { if (v.e && w < 64) v = ve(mkZext(v.e, w < 8 ? 8 : 64)); w = 64; if (v.e && v.e->w == 8) w = 8; } writeC(o, 8 * i, w / 8, v); }
		}
		pushFrame(s, d, args, va);
		return true;
	}
	case I_BUILTIN: if (!builtin(s, f, x)) return false; s.st.back().ip++; return true;
	case I_SELECT: {
		Val c = get(s, f, x.a); bool cv = c.c;
		for (size_t i = 0; i < x.leaves.size(); i++) {
			Val a = get(s, f, x.b < 0 ? x.b - (s32)i : x.b + (s32)i), b = get(s, f, x.c < 0 ? x.c - (s32)i : x.c + (s32)i);
			if (!c.e) R(s, f, x.dst + i) = cv ? a : b; else R(s, f, x.dst + i) = ve(mkIte(c.e, toE(a, x.leaves[i].w), toE(b, x.leaves[i].w)));
		}
		f.ip++; return true;
	}
	case I_ZEXT: { Val a = get(s, f, x.a); R(s, f, x.dst) = a.e ? ve(mkZext(a.e, x.w)) : a; f.ip++; return true; }
	case I_SEXT: { Val a = get(s, f, x.a); R(s, f, x.dst) = a.e ? ve(mkSext(a.e, x.w)) : vc((u64)sx(a.c, x.w2) & maskw(x.w)); f.ip++; return true; }
	case I_TRUNC: { Val a = get(s, f, x.a); R(s, f, x.dst) = a.e ? ve(mkExtract(a.e, 0, x.w)) : vc(a.c & maskw(x.w)); f.ip++; return true; }
	case I_MOV: for (int i = 0; i < x.ns; i++) R(s, f, x.dst + i) = get(s, f, x.a < 0 ? x.a - i : x.a + i); f.ip++; return true;
	case I_XVAL: for (int i = 0; i < x.ns; i++) R(s, f, x.dst + i) = get(s, f, x.a < 0 ? x.a - i : x.a + i); f.ip++; return true;
	case I_IVAL: for (int i = 0; i < x.ns; i++) R(s, f, x.dst + i) = get(s, f, x.a < 0 ? x.a - i : x.a + i); for (int i = 0; i < x.c; i++) R(s, f, x.dst + x.imm + i) = get(s, f, x.b < 0 ? x.b - i : x.b + i); f.ip++; return true;
	case I_FBIN: { double a = asD(fpConcrete(s, get(s, f, x.a)), x.w), b = asD(fpConcrete(s, get(s, f, x.b)), x.w), r = 0; switch (x.imm) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; case Instruction::FRem: r = fmod(a, b); break; } R(s, f, x.dst) = vc(fromD(r, x.w)); f.ip++; return true; }
	case I_FNEG: R(s, f, x.dst) = vc(fromD(-asD(fpConcrete(s, get(s, f, x.a)), x.w), x.w)); f.ip++; return true;
	case I_FCMP: {
		double a = asD(fpConcrete(s, get(s, f, x.a)), x.w2), b = asD(fpConcrete(s, get(s, f, x.b)), x.w2); bool u = isnan(a) || isnan(b), r = false;
		switch (x.sub) { case CmpInst::FCMP_OEQ: r = !u && a == b; break; case CmpInst::FCMP_OGT: r = !u && a > b; break; case CmpInst::FCMP_OGE: r = !u && a >= b; break; case CmpInst::FCMP_OLT: r = !u && a < b; break; case CmpInst::FCMP_OLE: r = !u && a <= b; break; case CmpInst::FCMP_ONE: r = !u && a != b; break; case CmpInst::FCMP_ORD: r = !u; break; case CmpInst::FCMP_UNO: r = u; break; case CmpInst::FCMP_UEQ: r = u || a == b; break; case CmpInst::FCMP_UGT: r = u || a > b; break; case CmpInst::FCMP_UGE: r = u || a >= b; break; case CmpInst::FCMP_ULT: r = u || a < b; break; case CmpInst::FCMP_ULE: r = u || a <= b; break; case CmpInst::FCMP_UNE: r = u || a != b; break; case CmpInst::FCMP_TRUE: r = true; break; }
		R(s, f, x.dst) = vc(r); f.ip++; return true;
	}
	case I_FCAST: {
		u64 a = fpConcrete(s, get(s, f, x.a)), r = 0;
		switch (x.imm) { case Instruction::FPToSI: r = (u64)(s64)asD(a, x.w2) & maskw(x.w); break; case Instruction::FPToUI: { double d = asD(a, x.w2); r = d < 9.2e18 ? (u64)(s64)d : (u64)d; r &= maskw(x.w); break; } case Instruction::SIToFP: r = fromD((double)sx(a, x.w2), x.w); break; case Instruction::UIToFP: r = fromD((double)a, x.w); break; default: r = fromD(asD(a, x.w2), x.w); }
		R(s, f, x.dst) = vc(r); f.ip++; return true;
	}
	case I_NOP: f.ip++; return true;
	case I_UNREACH: violation(s, "unreachable", "control reached an impossible point"); return false;
	default: { std::string t; raw_string_ostream os(t); if (x.src) x.src->print(os); unsupported(s, "instruction" + os.str()); return false; }
	}
}

static bool isRoot = true;
static void share() {
	if (pending.empty() || SH->active.load() >= O.workers) return;
	int a = SH->active.load(); if (a >= O.workers || !SH->active.compare_exchange_strong(a, a + 1)) return;
	pid_t p = fork();
	if (p < 0) { SH->active--; return; }
	if (p == 0) { isRoot = false; State* mine = pending[0]; pending.clear(); pending.push_back(mine); srand(getpid()); return; }
	delete pending[0]; pending.erase(pending.begin());
}
static u64 rssMB() { FILE* f = fopen("/proc/self/statm", "r"); u64 a = 0, b = 0; if (f) { if (fscanf(f, "%llu %llu", (unsigned long long*)&a, (unsigned long long*)&b) != 2) b = 0; fclose(f); } return b * 4096 >> 20; }

static void explore() {
	u64 local = 0;
	for (;;) {
		if (pending.empty()) break;
		State* s = pending.back(); pending.pop_back(); pathDead = false;
		bool mineIsChild = false;
		for (;;) {
			u64 before = pending.size();
			if (!step(*s)) break;
			if (pathDead) break;
			if ((++local & 1023) == 0) {
				SH->insts += 1024;
				if ((local & 0xffff) == 0 && outOfTime()) { SH->incomplete = 1; SH->stop = 1; pathDead = true; break; }
			}
			if (s->steps > O.maxSteps) { violation(*s, "steps", "no end after " + std::to_string(O.maxSteps) + " steps"); break; }
			if (pending.size() > before || ((local & 4095) == 0 && !pending.empty())) {
				bool wasRoot = isRoot; pid_t me = getpid(); share();
				if (getpid() != me) { delete s; s = nullptr; mineIsChild = true; (void)wasRoot; break; }
			}
		}
		if (s) delete s;
		if (mineIsChild) continue;
		if (SH->paths.load() + SH->rejected.load() > O.maxPaths) { SH->incomplete = 1; SH->stop = 1; }
		if (outOfTime()) { if (!pending.empty()) SH->incomplete = 1; break; }
		static u64 cnt = 0; if ((++cnt & 63) == 0 && rssMB() > O.memMB) { SH->incomplete = 1; SH->acquire(); if (!SH->unsupportedMsg[0]) snprintf(SH->unsupportedMsg, 256, "memory limit reached"); SH->release(); break; }
	}
}

int main(int argc, char** argv) {
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? argv[i] + n : nullptr; }; const char* v;
		if ((v = val("--entry="))) O.entry = v; else if ((v = val("--out="))) O.out = v; else if ((v = val("--workers="))) O.workers = atoi(v); else if ((v = val("--time="))) O.timeLimit = atof(v);
		else if ((v = val("--max-steps="))) O.maxSteps = strtoull(v, 0, 10); else if ((v = val("--max-viol="))) O.maxViol = atoi(v); else if (a == "--abs-crc") O.absCrc = true; else if (a == "--fast-mem") O.fastMem = true; else if ((v = val("--z3-timeout="))) O.z3TimeoutMs = atoi(v);
		else if (a == "-v") O.verbose = true; else if ((v = val("--mem="))) O.memMB = atoi(v); else if ((v = val("--stub="))) O.stubVoid.insert(v); else if ((v = val("--opt="))) { std::string q = v; size_t e = q.find('='); O.opt[q.substr(0, e)] = atoi(q.c_str() + e + 1); }
		else if ((v = val("--max-paths="))) O.maxPaths = strtoull(v, 0, 10); else if ((v = val("--samples="))) O.samples = atoi(v);
		else O.bc = a;
	}
	struct rlimit rl = { RLIM_INFINITY, RLIM_INFINITY }; rl.rlim_cur = 512ull << 20; setrlimit(RLIMIT_STACK, &rl);
	T0 = now(); prctl(PR_SET_CHILD_SUBREAPER, 1);
	SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->active = 1;
	SMDiagnostic err; M = parseIRFile(O.bc, err, LC); if (!M) { err.print("symex", errs()); return 2; }
	DL = &M->getDataLayout();
	struct { const char* n; int id; } bn[] = { {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"_aligned_malloc", B_MALLOC_AL}, {"_aligned_free", B_FREE_AL}, {"malloc", B_MALLOC_AL}, {"free", B_FREE_AL},
		{"sym_bytes", B_SYM_BYTES}, {"sym_range", B_SYM_RANGE}, {"sym_u64", B_SYM_U64}, {"sym_assume", B_SYM_ASSUME}, {"sym_check", B_SYM_CHECK}, {"sym_known", B_SYM_KNOWN}, {"sym_reach", B_SYM_REACH}, {"sym_concrete", B_SYM_CONCRETE}, {"sym_fatal_ok", B_SYM_FATALOK},
		{"sym_alloc", B_SYM_ALLOC}, {"sym_free", B_SYM_FREE}, {"sym_readonly", B_SYM_RO}, {"sym_note", B_SYM_NOTE}, {"sym_option", B_SYM_OPTION}, {"ExitProcess", B_EXIT}, {"exit", B_EXIT}, {"abort", B_EXIT},
		{"__mingw_vfprintf", B_ZERO}, {"vfprintf", B_ZERO}, {"fprintf", B_ZERO}, {"printf", B_ZERO}, {"__acrt_iob_func", B_IOB}, {"GetStdHandle", B_ONE}, {"GetLastError", B_ZERO} };
	for (auto& b : bn) builtinIds[b.n] = b.id;
	State* s = new State; s->model = P<Model>(new Model()); memset(s->model->v, 0, sizeof s->model->v);
	Dom* dm = new Dom; for (auto& d : dm->d) d.set(); s->dom = P<Dom>(dm);
	zinit();
	for (auto& f : *M) getFn(&f);
	for (auto& g : M->globals()) {
		if (g.getName().starts_with("llvm.")) continue;
		Type* t = g.getValueType(); u64 sz = t->isSized() ? DL->getTypeAllocSize(t).getFixedValue() : 8;
		u64 al = g.getAlign() ? g.getAlign()->value() : DL->getPrefTypeAlign(t).value();
		GADDR[&g] = s->mem.alloc(sz, al, K_GLOBAL, 0, strdup(g.getName().str().c_str()))->base;
	}
	for (auto& g : M->globals()) if (g.hasInitializer() && GADDR.count(&g)) { Obj* o = s->mem.wrObj(GADDR[&g] >> SHIFT); initGlobal(o, 0, g.getInitializer()); o->ro = g.isConstant(); }
	Function* ent = M->getFunction(O.entry); if (!ent) { fprintf(stderr, "no entry %s\n", O.entry.c_str()); return 2; }
	// static constructors, then the entry: run as a chain
	std::vector<Function*> chain;
	if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : arr->operands()) if (auto* st = dyn_cast<ConstantStruct>(o)) if (auto* cf = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) chain.push_back(cf);
	for (auto* cf : chain) { pushFrame(*s, getFn(cf), {}, 0); pathDead = false; while (step(*s)); s->st.clear(); s->regs.clear(); }
	SH->paths = 0; SH->nsamples = 0; s->steps = 0;
	pushFrame(*s, getFn(ent), {}, 0);
	pending.push_back(s);
	pid_t root = getpid();
	explore();
	SH->active--;
	if (getpid() != root) _exit(0);
	for (;;) {
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if (p < 0) break;
		if (p == 0) { usleep(2000); if (now() - T0 > O.timeLimit + 30) { SH->incomplete = 1; kill(0, 0); FILE* q = popen(("pgrep -P " + std::to_string(root)).c_str(), "r"); int c; while (q && fscanf(q, "%d", &c) == 1) kill(c, SIGKILL); if (q) pclose(q); } continue; }
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->killedWorkers++; fprintf(stderr, "worker ended with status %x\n", st); SH->incomplete = 1; SH->active--; }
	}
	FILE* f = fopen((O.out + "/summary.json").c_str(), "w"); if (!f) f = stdout;
	fprintf(f, "{\"paths\": %llu, \"rejected\": %llu, \"assumed_away\": %llu, \"known\": %llu, \"errors\": %llu, \"violations\": %d, \"incomplete\": %d, \"instructions\": %llu, \"forks\": %llu, \"z3_sat\": %llu, \"z3_unsat\": %llu, \"domain_unsat\": %llu, \"domain_sat\": %llu, \"unknown\": %llu, \"cached\": %llu, \"checks_const\": %llu, \"checks_z3\": %llu, \"z3_s\": %.3f, \"max_query_s\": %.3f, \"sym_fp\": %llu, \"unsupported\": %llu, \"concretized\": %llu, \"killed_workers\": %llu, \"max_constraints\": %llu, \"wall_s\": %.2f, \"unsupported_msg\": \"%s\", ",
		(unsigned long long)SH->paths, (unsigned long long)SH->rejected, (unsigned long long)SH->assumed, (unsigned long long)SH->known, (unsigned long long)SH->errors, (int)SH->violations, (int)SH->incomplete, (unsigned long long)SH->insts, (unsigned long long)SH->forks, (unsigned long long)SH->branchZ3Sat, (unsigned long long)SH->branchZ3Unsat, (unsigned long long)SH->domainUnsat, (unsigned long long)SH->domainSat, (unsigned long long)SH->unknown, (unsigned long long)SH->queriesCached, (unsigned long long)SH->checksConst, (unsigned long long)SH->checksZ3, SH->z3us * 1e-6, SH->maxQueryUs * 1e-6, (unsigned long long)SH->symFp, (unsigned long long)SH->unsupported, (unsigned long long)SH->concretized, (unsigned long long)SH->killedWorkers, (unsigned long long)SH->maxPc, now() - T0, esc(SH->unsupportedMsg).c_str());
	fprintf(f, "\"reached\": {"); for (int i = 0; i < SH->nlbl; i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", esc(SH->lbl[i]).c_str(), (unsigned long long)SH->lblHits[i]); fprintf(f, "}, \"functions\": [");
	bool first = true; for (auto* d : FNS) if (d->id < MAXFN && SH->fnHit[d->id]) { std::string n = d->demangled; size_t p = n.find('('); if (p != std::string::npos) n = n.substr(0, p); fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(n).c_str()); first = false; }
	fprintf(f, "]}\n"); fclose(f);
	return 0;
}
