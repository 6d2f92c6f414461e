// sx: a bounded symbolic executor for LLVM bitcode, backed by Z3.
//
// Executes `main`-like harness functions on the bitcode of the real sources.
// Inputs made with sx_sym() are symbolic bit-vectors; every branch on them is
// decided by the solver and both feasible sides are explored; every assertion,
// memory access and trap is a solver query over all values on that path.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <cerrno>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
using std::string; using std::vector;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- expressions
enum Op : u8 { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	EQ, ULT, ULE, SLT, SLE, CONCAT, EXTRACT, ZEXT, SEXT, ITE, SMULO, UMULO,
	FADD, FSUB, FMUL, FDIV, FREM, FOEQ, FOLT, FOLE, FUNO, SITOFP, UITOFP, FPTOSI, FPTOUI, AGG };

struct Expr {
	Op op; u8 w; bool uninit; bool fp;
	u32 id; u64 v; // const value, sym id, extract low bit
	Expr *a, *b, *c;
	const vector<u32> *syms;
	u32 memoGen; u64 memo;
	struct AggV *agg;
};
struct Val { Expr *e; u64 c; };
struct AggV { vector<Val> v; };
static inline Val CV(u64 c) { return Val{nullptr, c}; }
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sext(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= mask(w); return (i64)((v ^ m) - m); }

struct EKey { Op op; u8 w; u64 v; Expr *a, *b, *c;
	bool operator==(const EKey &o) const { return op == o.op && w == o.w && v == o.v && a == o.a && b == o.b && c == o.c; } };
struct EHash { size_t operator()(const EKey &k) const {
	u64 h = k.op * 0x9E3779B97F4A7C15ull + k.w; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
	mix(k.v); mix((u64)k.a >> 4); mix((u64)k.b >> 4); mix((u64)k.c >> 4); return h; } };
static std::unordered_map<EKey, Expr *, EHash> etab;
static std::set<vector<u32>> symsets;
static u32 nextId = 1;
struct SymInfo { string name; u32 idx; u8 w; bool uninit; };
static vector<SymInfo> symInfo;

static const vector<u32> *internSyms(const vector<u32> &v) { return &*symsets.insert(v).first; }
static Expr *mkraw(Op op, unsigned w, u64 v, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr) {
	EKey k{op, (u8)w, v, a, b, c};
	auto it = etab.find(k);
	if (it != etab.end()) return it->second;
	Expr *e = new Expr();
	e->op = op; e->w = w; e->v = v; e->a = a; e->b = b; e->c = c; e->id = nextId++; e->memoGen = 0; e->agg = nullptr;
	e->uninit = (a && a->uninit) || (b && b->uninit) || (c && c->uninit);
	e->fp = (op >= FADD && op <= FPTOUI) || (a && a->fp) || (b && b->fp) || (c && c->fp);
	if (op == SYM) { e->syms = internSyms({(u32)v}); e->uninit = symInfo[v].uninit; }
	else {
		const vector<u32> *s = nullptr;
		for (Expr *x : {a, b, c}) if (x && x->syms) {
			if (!s) s = x->syms;
			else if (s != x->syms) { vector<u32> r; std::set_union(s->begin(), s->end(), x->syms->begin(), x->syms->end(), std::back_inserter(r)); s = internSyms(r); }
		}
		e->syms = s;
	}
	etab[k] = e;
	return e;
}
static Expr *K(u64 v, unsigned w) { return mkraw(CONST, w, v & mask(w)); }
static std::map<std::pair<string, u32>, Expr *> symTab;
static Expr *mkSym(const string &name, u32 idx, unsigned w, bool uninit = false) {
	auto key = std::make_pair(name, idx);
	auto it = symTab.find(key);
	if (it != symTab.end() && it->second->w == w) return it->second;
	symInfo.push_back({name, idx, (u8)w, uninit});
	Expr *e = mkraw(SYM, w, symInfo.size() - 1);
	symTab[key] = e;
	return e;
}

static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float asF(u64 v) { u32 x = v; float d; memcpy(&d, &x, 4); return d; }
static u64 fromF(float d) { u32 v; memcpy(&v, &d, 4); return v; }

static u64 fold(Op op, unsigned w, u64 v, u64 a, u64 b, u64 c, unsigned aw, unsigned bw) {
	switch (op) {
	case ADD: return (a + b) & mask(w);
	case SUB: return (a - b) & mask(w);
	case MUL: return (a * b) & mask(w);
	case UDIV: return b ? (a / b) : mask(w);
	case UREM: return b ? (a % b) : a;
	case SDIV: { i64 x = sext(a, aw), y = sext(b, aw); if (!y) return (x < 0 ? 1 : mask(w)); if (y == -1) return (0 - (u64)x) & mask(w); return (u64)(x / y) & mask(w); }
	case SREM: { i64 x = sext(a, aw), y = sext(b, aw); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & mask(w); }
	case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
	case SHL: return b >= w ? 0 : (a << b) & mask(w);
	case LSHR: return b >= w ? 0 : a >> b;
	case ASHR: { i64 x = sext(a, aw); return (u64)(x >> (b >= w ? w - 1 : b)) & mask(w); }
	case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
	case SLT: return sext(a, aw) < sext(b, aw); case SLE: return sext(a, aw) <= sext(b, aw);
	case CONCAT: return ((a << bw) | b) & mask(w);
	case EXTRACT: return (a >> v) & mask(w);
	case ZEXT: return a; case SEXT: return (u64)sext(a, aw) & mask(w);
	case ITE: return a ? b : c;
	case SMULO: { i64 r; if (aw == 64) return __builtin_mul_overflow((i64)a, (i64)b, &r); __int128 p = (__int128)sext(a, aw) * sext(b, aw); return p != (__int128)sext((u64)p, aw); }
	case UMULO: { u64 r; if (aw == 64) return __builtin_mul_overflow(a, b, &r); unsigned __int128 p = (unsigned __int128)a * b; return (p >> aw) != 0; }
	case FADD: return aw == 32 ? fromF(asF(a) + asF(b)) : fromD(asD(a) + asD(b));
	case FSUB: return aw == 32 ? fromF(asF(a) - asF(b)) : fromD(asD(a) - asD(b));
	case FMUL: return aw == 32 ? fromF(asF(a) * asF(b)) : fromD(asD(a) * asD(b));
	case FDIV: return aw == 32 ? fromF(asF(a) / asF(b)) : fromD(asD(a) / asD(b));
	case FREM: return aw == 32 ? fromF(fmodf(asF(a), asF(b))) : fromD(fmod(asD(a), asD(b)));
	case FOEQ: return aw == 32 ? asF(a) == asF(b) : asD(a) == asD(b);
	case FOLT: return aw == 32 ? asF(a) < asF(b) : asD(a) < asD(b);
	case FOLE: return aw == 32 ? asF(a) <= asF(b) : asD(a) <= asD(b);
	case FUNO: return aw == 32 ? std::isnan(asF(a)) || std::isnan(asF(b)) : std::isnan(asD(a)) || std::isnan(asD(b));
	case SITOFP: return w == 32 ? fromF((float)sext(a, aw)) : fromD((double)sext(a, aw));
	case UITOFP: return w == 32 ? fromF((float)a) : fromD((double)a);
	case FPTOSI: { double d = aw == 32 ? asF(a) : asD(a); if (std::isnan(d) || d >= 9.3e18 || d <= -9.3e18) return 1ull << (w - 1); return (u64)(i64)d & mask(w); }
	case FPTOUI: { double d = aw == 32 ? asF(a) : asD(a); if (std::isnan(d) || d < 0 || d >= 1.85e19) return 0; return (u64)d & mask(w); }
	default: fprintf(stderr, "sx: fold op %d\n", op); abort();
	}
}

static Expr *mk(Op op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, u64 v = 0);
static Expr *mkNot(Expr *a) { // width 1
	if (a->op == CONST) return K(!a->v, 1);
	if (a->op == XOR && a->b->op == CONST) return a->a;
	return mkraw(XOR, 1, 0, a, K(1, 1));
}
static Expr *mkExtract(Expr *a, unsigned lo, unsigned w) { return (lo == 0 && w == a->w) ? a : mk(EXTRACT, w, a, nullptr, nullptr, lo); }
static Expr *mkZext(Expr *a, unsigned w) { return w == a->w ? a : mk(ZEXT, w, a); }
static bool isC(Expr *e) { return e && e->op == CONST; }

static Expr *mk(Op op, unsigned w, Expr *a, Expr *b, Expr *c, u64 v) {
	if (a->op == CONST && (!b || b->op == CONST) && (!c || c->op == CONST) && a->w <= 64)
		return K(fold(op, w, v, a->v, b ? b->v : 0, c ? c->v : 0, a->w, b ? b->w : 0), w);
	switch (op) {
	case SUB:
		if (a == b) return K(0, w);
		if (isC(b)) return mk(ADD, w, a, K(0 - b->v, w));
		break;
	case ADD:
		if (isC(a)) std::swap(a, b);
		if (isC(b)) { if (!b->v) return a;
			if (a->op == ADD && isC(a->b)) return mk(ADD, w, a->a, K(a->b->v + b->v, w));
			if (a->op == ITE && isC(a->b) && isC(a->c)) return mk(ITE, w, a->a, K(a->b->v + b->v, w), K(a->c->v + b->v, w)); }
		break;
	case MUL:
		if (isC(a)) std::swap(a, b);
		if (isC(b)) { if (b->v == 0) return b; if (b->v == 1) return a; }
		break;
	case AND:
		if (isC(a)) std::swap(a, b);
		if (a == b) return a;
		if (isC(b)) { if (b->v == 0) return b; if (b->v == mask(w)) return a;
			if (a->op == ZEXT && b->v == mask(a->a->w)) return a; }
		break;
	case OR:
		if (isC(a)) std::swap(a, b);
		if (a == b) return a;
		if (isC(b)) { if (b->v == 0) return a; if (b->v == mask(w)) return b; }
		break;
	case XOR:
		if (isC(a)) std::swap(a, b);
		if (a == b) return K(0, w);
		if (isC(b)) { if (b->v == 0) return a; if (a->op == XOR && isC(a->b)) return mk(XOR, w, a->a, K(a->b->v ^ b->v, w)); }
		break;
	case SHL: case LSHR: case ASHR:
		if (isC(b) && b->v == 0) return a;
		if (isC(b) && b->v < w) {
			if (op == LSHR) return mkZext(mkExtract(a, b->v, w - b->v), w);
			if (op == SHL) return mk(CONCAT, w, mkExtract(a, 0, w - b->v), K(0, b->v));
		}
		break;
	case UDIV: case SDIV: if (isC(b) && b->v == 1) return a; break;
	case EQ:
		if (a == b) return K(1, 1);
		if (isC(a)) std::swap(a, b);
		if (isC(b)) {
			if (a->w == 1) return b->v ? a : mkNot(a);
			if (a->op == ZEXT) return (b->v >> a->a->w) ? K(0, 1) : mk(EQ, 1, a->a, K(b->v, a->a->w));
			if (a->op == SEXT) { u64 t = b->v & mask(a->a->w); return ((u64)sext(t, a->a->w) & mask(a->w)) != b->v ? K(0, 1) : mk(EQ, 1, a->a, K(t, a->a->w)); }
			if (a->op == ITE && isC(a->b) && isC(a->c)) {
				bool x = a->b->v == b->v, y = a->c->v == b->v;
				return x ? (y ? K(1, 1) : a->a) : (y ? mkNot(a->a) : K(0, 1));
			}
			if (a->op == ITE && isC(a->b)) return a->b->v == b->v ? mk(OR, 1, a->a, mk(EQ, 1, a->c, b)) : mk(AND, 1, mkNot(a->a), mk(EQ, 1, a->c, b));
			if (a->op == ITE && isC(a->c)) return a->c->v == b->v ? mk(OR, 1, mkNot(a->a), mk(EQ, 1, a->b, b)) : mk(AND, 1, a->a, mk(EQ, 1, a->b, b));
			if (a->op == ADD && isC(a->b)) return mk(EQ, 1, a->a, K(b->v - a->b->v, a->w));
			if (a->op == CONCAT && (isC(a->a) || isC(a->b)))
				return mk(AND, 1, mk(EQ, 1, a->a, K(b->v >> a->b->w, a->a->w)), mk(EQ, 1, a->b, K(b->v, a->b->w)));
		}
		break;
	case ULT: case ULE: case SLT: case SLE: {
		if (a == b) return K(op == ULE || op == SLE, 1);
		bool lt = op == ULT || op == SLT;
		if (a->op == ZEXT && isC(b)) {
			unsigned n = a->a->w; u64 k = b->v;
			if ((op == SLT || op == SLE) && sext(k, a->w) < 0) return K(0, 1);
			if (k >> n) return K(1, 1);
			if (n < a->w) return mk(lt ? ULT : ULE, 1, a->a, K(k, n));
		}
		if (b->op == ZEXT && isC(a)) {
			unsigned n = b->a->w; u64 k = a->v;
			if ((op == SLT || op == SLE) && sext(k, b->w) < 0) return K(1, 1);
			if (k >> n) return K(0, 1);
			if (n < b->w) return mk(lt ? ULT : ULE, 1, K(k, n), b->a);
		}
		if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w && a->a->w < a->w) return mk(lt ? ULT : ULE, 1, a->a, b->a);
		if (op == ULT && isC(b) && b->v == 0) return K(0, 1);
		if (op == ULE && isC(a) && a->v == 0) return K(1, 1);
		if (op == ULT && isC(b) && b->v == 1) return mk(EQ, 1, a, K(0, a->w));
		break; }
	case CONCAT:
		if (isC(a) && a->v == 0) return mk(ZEXT, w, b);
		if (a->op == EXTRACT && b->op == EXTRACT && a->a == b->a && a->v == b->v + b->w) return mkExtract(a->a, b->v, w);
		if (a->op == ZEXT && a->a->op == EXTRACT && b->op == EXTRACT && a->a->a == b->a && a->a->v == b->v + b->w) return mkZext(mkExtract(b->a, b->v, a->a->w + b->w), w);
		if (a->op == EXTRACT && b->op == CONCAT && b->a->op == EXTRACT && a->a == b->a->a && a->v == b->a->v + b->a->w)
			return mk(CONCAT, w, mkExtract(a->a, b->a->v, a->w + b->a->w), b->b);
		if (a->op == EXTRACT && a->a == b && a->v == b->w && a->w + a->v == a->a->w) break;
		break;
	case EXTRACT:
		if (a->op == EXTRACT) return mkExtract(a->a, a->v + v, w);
		if (a->op == CONCAT) {
			unsigned bw = a->b->w;
			if (v + w <= bw) return mkExtract(a->b, v, w);
			if (v >= bw) return mkExtract(a->a, v - bw, w);
			return mk(CONCAT, w, mkExtract(a->a, 0, v + w - bw), mkExtract(a->b, v, bw - v));
		}
		if (a->op == ZEXT) {
			unsigned n = a->a->w;
			if (v >= n) return K(0, w);
			if (v + w <= n) return mkExtract(a->a, v, w);
			return mkZext(mkExtract(a->a, v, n - v), w);
		}
		if (a->op == SEXT && v + w <= a->a->w) return mkExtract(a->a, v, w);
		if (a->op == ITE) return mk(ITE, w, a->a, mkExtract(a->b, v, w), mkExtract(a->c, v, w));
		if ((a->op == AND || a->op == OR || a->op == XOR)) return mk(a->op, w, mkExtract(a->a, v, w), mkExtract(a->b, v, w));
		if (v == 0 && (a->op == ADD || a->op == MUL) && w < a->w && isC(a->b)) return mk(a->op, w, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
		break;
	case ZEXT:
		if (a->op == ZEXT) return mkZext(a->a, w);
		if (a->op == ITE && isC(a->b) && isC(a->c)) return mk(ITE, w, a->a, K(a->b->v, w), K(a->c->v, w));
		break;
	case SEXT:
		if (a->op == ZEXT && a->a->w < a->w) return mkZext(a->a, w);
		if (a->op == SEXT) return mk(SEXT, w, a->a);
		if (a->op == ITE && isC(a->b) && isC(a->c)) return mk(ITE, w, a->a, K(sext(a->b->v, a->w), w), K(sext(a->c->v, a->w), w));
		break;
	case ITE:
		if (isC(a)) return a->v ? b : c;
		if (b == c) return b;
		if (w == 1 && isC(b) && isC(c)) return b->v ? a : mkNot(a);
		if (w == 1 && isC(b)) return b->v ? mk(OR, 1, a, c) : mk(AND, 1, mkNot(a), c);
		if (w == 1 && isC(c)) return c->v ? mk(OR, 1, mkNot(a), b) : mk(AND, 1, a, b);
		if (a->op == XOR && isC(a->b)) return mk(ITE, w, a->a, c, b);
		break;
	default: break;
	}
	return mkraw(op, w, v, a, b, c);
}

typedef vector<u64> Model; // by sym id (0 default)
static u32 memoGen = 1;
static u64 evalRec(Expr *e, const Model &m) {
	if (e->op == CONST) return e->v;
	if (e->op == SYM) return (e->v < m.size() ? m[e->v] : 0) & mask(e->w);
	if (e->memoGen == memoGen) return e->memo;
	u64 r;
	if (e->op == ITE) r = evalRec(evalRec(e->a, m) ? e->b : e->c, m);
	else r = fold(e->op, e->w, e->v, evalRec(e->a, m), e->b ? evalRec(e->b, m) : 0, e->c ? evalRec(e->c, m) : 0, e->a->w, e->b ? e->b->w : 0);
	e->memoGen = memoGen; e->memo = r;
	return r;
}
static u64 evalE(Expr *e, const Model &m) { memoGen++; return evalRec(e, m); }

// ---------------------------------------------------------------- solver
struct Stats { u64 queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, paths = 0, instrs = 0, forks = 0, asserts = 0, symAsserts = 0, pruned = 0, domain = 0; double solverTime = 0, maxQuery = 0; };
static Stats st;
static unsigned solverTimeoutMs = 20000;
static double deadline = 0; static bool timedOut = false;

struct Z3S {
	Z3_context ctx = nullptr; Z3_solver sol, solfp; Z3_sort fpd, fps; Z3_ast rm, rtz;
	std::unordered_map<Expr *, Z3_ast> memo; bool failed = false;
	Z3_func_decl fremd = nullptr;
	static void onerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "sx: z3 error %s\n", Z3_get_error_msg(c, e)); _exit(3); }
	void init() {
		if (ctx) return;
		Z3_config cfg = Z3_mk_config();
		ctx = Z3_mk_context(cfg);
		Z3_del_config(cfg);
		Z3_set_error_handler(ctx, onerr);
		sol = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, sol);
		solfp = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, solfp);
		Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
		Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), solverTimeoutMs);
		Z3_solver_set_params(ctx, sol, p); Z3_solver_set_params(ctx, solfp, p);
		fpd = Z3_mk_fpa_sort_double(ctx); fps = Z3_mk_fpa_sort_single(ctx); rm = Z3_mk_fpa_rne(ctx); rtz = Z3_mk_fpa_rtz(ctx);
		memo.clear();
	}
	Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(ctx, b, bv(1, 1), bv(0, 1)); }
	Z3_ast bv(u64 v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w)); }
	Z3_ast tofp(Z3_ast x, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx, x, w == 32 ? fps : fpd); }
	Z3_ast tr(Expr *e) {
		auto it = memo.find(e);
		if (it != memo.end()) return it->second;
		Z3_ast r = nullptr, a = nullptr, b = nullptr, c = nullptr;
		if (e->op != CONST && e->op != SYM) { a = tr(e->a); if (e->b) b = tr(e->b); if (e->c) c = tr(e->c); }
		unsigned aw = e->a ? e->a->w : 0;
		switch (e->op) {
		case CONST: r = bv(e->v, e->w); break;
		case SYM: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->v), Z3_mk_bv_sort(ctx, e->w)); break;
		case ADD: r = Z3_mk_bvadd(ctx, a, b); break; case SUB: r = Z3_mk_bvsub(ctx, a, b); break;
		case MUL: r = Z3_mk_bvmul(ctx, a, b); break; case UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
		case SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break; case UREM: r = Z3_mk_bvurem(ctx, a, b); break;
		case SREM: r = Z3_mk_bvsrem(ctx, a, b); break; case AND: r = Z3_mk_bvand(ctx, a, b); break;
		case OR: r = Z3_mk_bvor(ctx, a, b); break; case XOR: r = Z3_mk_bvxor(ctx, a, b); break;
		case SHL: r = Z3_mk_bvshl(ctx, a, b); break; case LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
		case ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
		case EQ: r = b2v(Z3_mk_eq(ctx, a, b)); break; case ULT: r = b2v(Z3_mk_bvult(ctx, a, b)); break;
		case ULE: r = b2v(Z3_mk_bvule(ctx, a, b)); break; case SLT: r = b2v(Z3_mk_bvslt(ctx, a, b)); break;
		case SLE: r = b2v(Z3_mk_bvsle(ctx, a, b)); break;
		case CONCAT: r = Z3_mk_concat(ctx, a, b); break;
		case EXTRACT: r = Z3_mk_extract(ctx, e->v + e->w - 1, e->v, a); break;
		case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - aw, a); break;
		case SEXT: r = Z3_mk_sign_ext(ctx, e->w - aw, a); break;
		case ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, a, bv(1, 1)), b, c); break;
		case SMULO: { Z3_ast o[2] = {Z3_mk_bvmul_no_overflow(ctx, a, b, true), Z3_mk_bvmul_no_underflow(ctx, a, b)}; r = b2v(Z3_mk_not(ctx, Z3_mk_and(ctx, 2, o))); break; }
		case UMULO: r = b2v(Z3_mk_not(ctx, Z3_mk_bvmul_no_overflow(ctx, a, b, false))); break;
		case FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rm, tofp(a, aw), tofp(b, aw))); break;
		case FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rm, tofp(a, aw), tofp(b, aw))); break;
		case FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rm, tofp(a, aw), tofp(b, aw))); break;
		case FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rm, tofp(a, aw), tofp(b, aw))); break;
		case FREM: { Z3_sort s = Z3_mk_bv_sort(ctx, 64); Z3_sort d[2] = {s, s};
			if (!fremd) fremd = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, "frem"), 2, d, s);
			Z3_ast args[2] = {a, b}; r = Z3_mk_app(ctx, fremd, 2, args); break; }
		case FOEQ: r = b2v(Z3_mk_fpa_eq(ctx, tofp(a, aw), tofp(b, aw))); break;
		case FOLT: r = b2v(Z3_mk_fpa_lt(ctx, tofp(a, aw), tofp(b, aw))); break;
		case FOLE: r = b2v(Z3_mk_fpa_leq(ctx, tofp(a, aw), tofp(b, aw))); break;
		case FUNO: { Z3_ast o[2] = {Z3_mk_fpa_is_nan(ctx, tofp(a, aw)), Z3_mk_fpa_is_nan(ctx, tofp(b, aw))}; r = b2v(Z3_mk_or(ctx, 2, o)); break; }
		case SITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rm, a, e->w == 32 ? fps : fpd)); break;
		case UITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rm, a, e->w == 32 ? fps : fpd)); break;
		case FPTOSI: r = Z3_mk_fpa_to_sbv(ctx, rtz, tofp(a, aw), e->w); break;
		case FPTOUI: r = Z3_mk_fpa_to_ubv(ctx, rtz, tofp(a, aw), e->w); break;
		default: fprintf(stderr, "sx: tr op %d\n", e->op); abort();
		}
		memo[e] = r;
		return r;
	}
	// 1 sat (fills asg), 0 unsat, -1 unknown
	int check(const vector<Expr *> &cs, std::unordered_map<u32, u64> &asg) {
		init();
		bool fp = false; std::set<u32> syms;
		for (auto *e : cs) { fp |= e->fp; if (e->syms) syms.insert(e->syms->begin(), e->syms->end()); }
		Z3_solver s = fp ? solfp : sol;
		double t0 = now();
		if (deadline) {
			if (t0 > deadline) { timedOut = true; return -1; }
			if ((deadline - t0) * 1000 < solverTimeoutMs) {
				Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
				Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), (unsigned)((deadline - t0) * 1000) + 50);
				Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
			}
		}
		Z3_solver_push(ctx, s);
		for (auto *e : cs) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(e), bv(1, 1)));
		Z3_lbool r = Z3_solver_check(ctx, s);
		if (r == Z3_L_TRUE) {
			Z3_model m = Z3_solver_get_model(ctx, s);
			Z3_model_inc_ref(ctx, m);
			for (u32 id : syms) {
				Z3_ast v; Z3_ast sy = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)id), Z3_mk_bv_sort(ctx, symInfo[id].w));
				u64 x = 0;
				if (Z3_model_eval(ctx, m, sy, true, &v)) Z3_get_numeral_uint64(ctx, v, &x);
				asg[id] = x;
			}
			Z3_model_dec_ref(ctx, m);
		}
		Z3_solver_pop(ctx, s, 1);
		double dt = now() - t0;
		st.queries++; st.solverTime += dt; if (dt > st.maxQuery) st.maxQuery = dt;
		if (r == Z3_L_TRUE) st.sat++; else if (r == Z3_L_FALSE) st.unsat++; else st.unknown++;
		return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
	}
};
static Z3S *z3 = new Z3S();

struct VecHash { size_t operator()(const vector<u32> &v) const { u64 h = v.size(); for (u32 x : v) h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h; } };
struct CacheEnt { int r; std::unordered_map<u32, u64> asg; };
static std::unordered_map<vector<u32>, CacheEnt, VecHash> qcache;

// ---------------------------------------------------------------- program
struct Opnd { int reg; Val c; };
struct Func;
struct Instr {
	unsigned op; int dst; unsigned w; unsigned w2; // op = llvm opcode
	unsigned pred; vector<Opnd> ops; vector<int> blocks; vector<u64> cases;
	vector<u64> scales; vector<unsigned> swidths; u64 off; // GEP, alloca size, agg index
	Func *callee; const char *cname; int intr; int ext;
	vector<unsigned> argw; vector<u64> byval; unsigned line; bool fpty; vector<unsigned> idx; llvm::Type *ty; bool inexact; bool vararg;
};
struct Block { vector<Instr> ins; vector<std::pair<int, vector<std::pair<int, Opnd>>>> phis; vector<int> phiDst; };
struct Func { string name; llvm::Function *f; vector<Block> blocks; int nregs = 0; int nargs = 0; bool decoded = false; bool isDecl; u64 addr; bool vararg; u64 calls = 0; };

static llvm::Module *M; static const llvm::DataLayout *DL;
static std::unordered_map<const llvm::Function *, Func *> funcs;
static std::unordered_map<u64, Func *> funcByAddr;

struct Obj { int rc = 1; u64 size = 0; u8 kind = 0; bool alive = true, ro = false; vector<u8> data; vector<Expr *> sym; u32 nsym = 0; };
enum { KHEAP, KSTACK, KGLOBAL, KFUNC };
static const u64 LOW = 0x10000;
static inline u64 addrOf(u64 id) { return ((id + 1) << 32) | LOW; }
struct Chunk { int rc = 1; Obj *o[64] = {0}; };
static void unrefObj(Obj *o) { if (o && --o->rc == 0) delete o; }
static void unrefChunk(Chunk *c) { if (--c->rc == 0) { for (auto *o : c->o) unrefObj(o); delete c; } }

// Feasibility of constraints over one byte-sized input is decided by its exact
// 256-entry truth table (per expression, cached) instead of a solver call.
struct Dom { u64 b[4]; };
static std::unordered_map<Expr *, Dom> doms;
static const Dom &domOf(Expr *e, u32 sym) {
	auto it = doms.find(e); if (it != doms.end()) return it->second;
	Dom d = {{0, 0, 0, 0}}; Model m; m.assign(sym + 1, 0);
	for (unsigned v = 0; v < 256; v++) { m[sym] = v; memoGen++; if (evalRec(e, m) & 1) d.b[v >> 6] |= 1ull << (v & 63); }
	return doms[e] = d;
}
struct Frame { Func *f; int bb = 0, prev = -1; u32 ip = 0; vector<Val> regs; vector<u64> allocas; vector<Val> va; vector<unsigned> vaw; int retDst = -1; unsigned retw = 0; vector<u64> vaobjs; };
struct State {
	vector<Chunk *> chunks; u64 nobj = 0;
	vector<Frame> stack; vector<Expr *> pc; std::unordered_set<Expr *> pcset;
	Model model; std::unordered_set<u32> known; std::map<u32, Dom> dom;
	vector<std::pair<string, vector<Expr *>>> inputs; std::map<string, u32> symCount;
	vector<string> notes; u64 instrs = 0; u64 depth = 0; vector<u32> covers;
	State() {}
	State(const State &s) : chunks(s.chunks), nobj(s.nobj), stack(s.stack), pc(s.pc), pcset(s.pcset), model(s.model), known(s.known), dom(s.dom), inputs(s.inputs), symCount(s.symCount), notes(s.notes), instrs(s.instrs), depth(s.depth), covers(s.covers) { for (auto *c : chunks) c->rc++; }
	~State() { for (auto *c : chunks) unrefChunk(c); }
	Obj *get(u64 id) const { return id < nobj ? chunks[id >> 6]->o[id & 63] : nullptr; }
	Chunk *wchunk(u64 id) {
		Chunk *&c = chunks[id >> 6];
		if (c->rc > 1) { Chunk *n = new Chunk(*c); n->rc = 1; for (auto *o : n->o) if (o) o->rc++; c->rc--; c = n; }
		return c;
	}
	Obj *wr(u64 id) {
		Chunk *c = wchunk(id); Obj *&o = c->o[id & 63];
		if (o->rc > 1) { Obj *n = new Obj(*o); n->rc = 1; o->rc--; o = n; }
		return o;
	}
	u64 alloc(u64 size, u8 kind) {
		u64 id = nobj++;
		if ((id >> 6) >= chunks.size()) chunks.push_back(new Chunk());
		Obj *o = new Obj(); o->size = size; o->kind = kind; o->data.resize(size);
		wchunk(id)->o[id & 63] = o;
		return id;
	}
};
static Expr *UNINIT8;
static void fillUninit(Obj *o) { o->sym.assign(o->size, UNINIT8); o->nsym = o->size; }

struct ErrRec { string kind, msg, where; vector<std::pair<string, vector<u64>>> inputs; vector<unsigned> widths; vector<string> notes; u64 count = 1; vector<string> trace; };
static std::map<string, ErrRec> errors;
static std::map<string, u64> covers;
static std::set<string> unmodeled;
static u64 maxInstr = 20000000, maxErrors = 25;
static u64 unexplored = 0, pathLimitHits = 0;
static vector<State *> work;

static bool z3All = false; // decide every query with the SMT solver, none with the byte tables
struct PathEnd {}; // exception: the current path is over

static bool overlaps(const vector<u32> *a, const std::unordered_set<u32> &s) { if (!a) return false; for (u32 x : *a) if (s.count(x)) return true; return false; }

static Dom domFor(State &s, u32 y) {
	auto it = s.dom.find(y); if (it != s.dom.end()) return it->second;
	Dom d; unsigned w = symInfo[y].w;
	for (int k = 0; k < 4; k++) d.b[k] = w == 8 ? ~0ull : k == 0 ? (1ull << (1u << w)) - 1 : 0;
	return d;
}
// 1 / 0 when the constraints on the one input byte of `c` imply / refute it, else -1
static int implied(State &s, Expr *c) {
	if (z3All) return -1;
	if (!c->syms || c->syms->size() != 1) return -1;
	u32 y = c->syms->front(); if (symInfo[y].w > 8 || symInfo[y].uninit) return -1;
	Dom d = domFor(s, y); const Dom &x = domOf(c, y); bool t = false, f = false;
	for (int k = 0; k < 4; k++) { if (d.b[k] & x.b[k]) t = true; if (d.b[k] & ~x.b[k]) f = true; }
	st.domain++;
	return t && f ? -1 : t ? 1 : 0;
}
static int solve(State &s, Expr *cond, Model *out, bool force = false) {
	// returns 1 sat, 0 unsat, -1 unknown for pc && cond
	if (cond->op == CONST) { if (cond->v && out) *out = s.model; return cond->v ? 1 : 0; }
	if (s.pcset.count(cond)) { if (out) *out = s.model; return 1; }
	if (s.pcset.count(mkNot(cond))) return 0;
	if (evalE(cond, s.model)) { if (out) *out = s.model; return 1; }
	std::unordered_set<u32> syms(cond->syms->begin(), cond->syms->end());
	vector<Expr *> rel; vector<char> used(s.pc.size(), 0);
	bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < s.pc.size(); i++) if (!used[i] && overlaps(s.pc[i]->syms, syms)) {
			used[i] = 1; rel.push_back(s.pc[i]); size_t n = syms.size();
			syms.insert(s.pc[i]->syms->begin(), s.pc[i]->syms->end());
			if (syms.size() != n) ch = true;
		}
	}
	rel.push_back(cond);
	if (!force && !z3All && syms.size() == 1 && symInfo[*syms.begin()].w <= 8) {
		u32 y = *syms.begin(); Dom d = domFor(s, y); const Dom &x = domOf(cond, y);
		for (int k = 0; k < 4; k++) d.b[k] &= x.b[k];
		st.domain++;
		for (int k = 0; k < 4; k++) if (d.b[k]) {
			if (out) { *out = s.model; if (out->size() <= y) out->resize(y + 1); (*out)[y] = (u64)k * 64 + __builtin_ctzll(d.b[k]); }
			return 1;
		}
		return 0;
	}
	vector<u32> key; for (auto *e : rel) key.push_back(e->id);
	std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
	auto it = qcache.find(key);
	CacheEnt *ce;
	if (it != qcache.end()) { st.cacheHits++; ce = &it->second; }
	else {
		CacheEnt n; n.r = z3->check(rel, n.asg);
		if (n.r == 1) { // the model must satisfy the constraints under our own evaluator too
			Model m = s.model;
			for (auto &kv : n.asg) { if (m.size() <= kv.first) m.resize(kv.first + 1); m[kv.first] = kv.second; }
			memoGen++;
			for (auto *e : rel) if (!evalRec(e, m)) { n.r = -1; st.sat--; st.unknown++; break; }
		}
		ce = &(qcache[key] = n);
	}
	if (ce->r == 1 && out) {
		*out = s.model;
		for (auto &kv : ce->asg) { if (out->size() <= kv.first) out->resize(kv.first + 1); (*out)[kv.first] = kv.second; }
	}
	return ce->r;
}
static void addPC(State &s, Expr *c) {
	if (c->op == CONST) return;
	if (c->op == AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
	if (s.pcset.insert(c).second) {
		s.pc.push_back(c);
		if (c->syms->size() == 1 && symInfo[c->syms->front()].w <= 8) { u32 y = c->syms->front(); Dom d = domFor(s, y); const Dom &x = domOf(c, y); for (int k = 0; k < 4; k++) d.b[k] &= x.b[k]; s.dom[y] = d; }
	}
	if (c->op == EQ && c->a->op == SYM && isC(c->b)) s.known.insert(c->a->v);
	if (c->op == SYM) s.known.insert(c->v);
	if (c->op == XOR && c->a->op == SYM && c->w == 1) s.known.insert(c->a->v);
}
static bool determined(State &s, Expr *c) { if (!c->syms) return true; for (u32 x : *c->syms) if (!s.known.count(x)) return false; return true; }

static string whereOf(State &s) {
	for (int i = (int)s.stack.size() - 1; i >= 0; i--) {
		Frame &f = s.stack[i];
		if (!f.f->f->getSubprogram()) continue;
		unsigned line = 0; string file;
		if (f.bb < (int)f.f->blocks.size() && f.ip > 0 && f.ip <= f.f->blocks[f.bb].ins.size()) line = f.f->blocks[f.bb].ins[f.ip - 1].line;
		file = f.f->f->getSubprogram()->getFilename().str();
		return f.f->name + " (" + file + ":" + std::to_string(line) + ")";
	}
	return "?";
}
// A few completed paths, with inputs that take them, for replay against the native build.
struct Sample { vector<std::pair<string, vector<u64>>> inputs; vector<unsigned> widths; };
static vector<Sample> samples; static u64 nextSample = 1;
static void pathDone(State &s) {
	st.paths++;
	if (st.paths < nextSample || samples.size() >= 6) return;
	nextSample = st.paths * 5;
	Sample r;
	for (auto &in : s.inputs) {
		vector<u64> vs; unsigned wd = 0;
		for (auto *e : in.second) { vs.push_back(evalE(e, s.model)); wd = e->w; }
		r.inputs.push_back({in.first, vs}); r.widths.push_back(wd);
	}
	samples.push_back(r);
}
static void fail(State &s, const string &kind, const string &msg) {
	string w = whereOf(s);
	string key = kind + "|" + msg + "|" + w;
	if (kind == "unmodeled") unmodeled.insert(msg);
	if (kind == "limit") pathLimitHits++;
	auto it = errors.find(key);
	if (it != errors.end()) it->second.count++;
	else {
		ErrRec r; r.kind = kind; r.msg = msg; r.where = w; r.notes = s.notes;
		for (auto &in : s.inputs) {
			vector<u64> vs; unsigned wd = 0;
			for (auto *e : in.second) { vs.push_back(evalE(e, s.model)); wd = e->w; }
			r.inputs.push_back({in.first, vs}); r.widths.push_back(wd);
		}
		for (int i = (int)s.stack.size() - 1; i >= 0; i--) {
			Frame &f = s.stack[i]; unsigned line = 0;
			if (f.ip > 0 && f.ip <= f.f->blocks[f.bb].ins.size()) line = f.f->blocks[f.bb].ins[f.ip - 1].line;
			r.trace.push_back(f.f->name + ":" + std::to_string(line));
		}
		errors[key] = r;
	}
	throw PathEnd();
}

// fork a state where `cond` holds (already known sat with model m)
static State *forkWith(State &s, Expr *cond, const Model &m) {
	State *n = new State(s);
	n->model = m; n->depth++;
	addPC(*n, cond);
	st.forks++;
	return n;
}
// Decide a symbolic boolean on this path. Returns the side taken by the current state; the other side (if
// feasible) is queued and will re-execute the current instruction.
static bool decide(State &s, Expr *c, bool reexec = true) {
	if (c->op == CONST) return c->v;
	if (c->uninit) fail(s, "uninit", "control flow or address depends on an uninitialized value");
	bool v = evalE(c, s.model);
	if (determined(s, c)) return v;
	{ int im = implied(s, c); if (im >= 0) return im; }
	Expr *mine = v ? c : mkNot(c), *other = v ? mkNot(c) : c;
	if (s.pcset.count(mine)) return v;
	Model m; int r = solve(s, other, &m);
	if (r == -1) { fail(s, "solver", "query not decided in time"); }
	if (r == 1) {
		State *n = forkWith(s, other, m);
		if (reexec) n->stack.back().ip--; // ip was already advanced
		work.push_back(n);
		s.depth++;
	}
	addPC(s, mine);
	return v;
}
static Expr *E(Val v, unsigned w) { return v.e ? v.e : K(v.c, w); }
static Val V(Expr *e) { return e->op == CONST ? CV(e->v) : Val{e, 0}; }
// Fork until the expression has one value on this path.
static u64 concretize(State &s, Val v, unsigned w) {
	if (!v.e) return v.c;
	u64 x = evalE(v.e, s.model);
	Expr *c = mk(EQ, 1, v.e, K(x, w));
	bool r = decide(s, c);
	assert(r); (void)r;
	return x;
}

// ---------------------------------------------------------------- memory
static Obj *resolve(State &s, u64 addr, u64 n, u64 &id, u64 &off, bool write, const char *what) {
	if ((addr >> 32) == 0) fail(s, "mem", string(what) + ": null pointer dereference");
	id = (addr >> 32) - 1; Obj *o = s.get(id);
	if (!o || o->kind == KFUNC) fail(s, "mem", string(what) + ": wild pointer");
	if (!o->alive) fail(s, "mem", string(what) + (o->kind == KSTACK ? ": use after return" : ": use after free"));
	off = (addr & 0xffffffffu) - LOW;
	if ((addr & 0xffffffffu) < LOW || off + n > o->size || off + n < off)
		fail(s, "mem", string(what) + ": out of bounds of " + (o->kind == KHEAP ? "heap" : o->kind == KSTACK ? "stack" : "global") + " object");
	if (write && o->ro) fail(s, "mem", string(what) + ": write to constant object");
	return o;
}
static Val readObj(Obj *o, u64 off, unsigned n) {
	if (o->nsym) {
		bool any = false;
		for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { any = true; break; }
		if (any) {
			Expr *r = nullptr;
			for (unsigned i = 0; i < n; i++) {
				Expr *b = o->sym[off + i] ? o->sym[off + i] : K(o->data[off + i], 8);
				r = r ? mk(CONCAT, r->w + 8, b, r) : b;
			}
			return V(r);
		}
	}
	u64 v = 0; memcpy(&v, &o->data[off], n);
	return CV(v);
}
static void writeObj(Obj *o, u64 off, unsigned n, Val v) {
	if (v.e) {
		if (o->sym.empty()) o->sym.assign(o->size, nullptr);
		for (unsigned i = 0; i < n; i++) {
			Expr *b = mkExtract(v.e, i * 8, 8);
			if (o->sym[off + i]) o->nsym--;
			if (b->op == CONST) { o->data[off + i] = b->v; o->sym[off + i] = nullptr; }
			else { o->sym[off + i] = b; o->nsym++; }
		}
	} else {
		memcpy(&o->data[off], &v.c, n);
		if (o->nsym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->nsym--; }
	}
}
static Val padTo(Val v, unsigned w, unsigned bytes) { if (v.e && v.e->w < bytes * 8) v.e = mkZext(v.e, bytes * 8); (void)w; return v; }
static Val load(State &s, Val addr, unsigned w) {
	unsigned n = (w + 7) / 8; u64 id, off;
	if (addr.e) {
		if (addr.e->uninit) fail(s, "uninit", "load through an uninitialized pointer");
		// symbolic address: try to stay within one object with an ITE chain
		u64 a0 = evalE(addr.e, s.model); Obj *o0 = s.get((a0 >> 32) - 1);
		if ((a0 >> 32) && o0 && o0->alive && o0->size >= n && o0->size <= 512 && o0->kind != KFUNC) {
			u64 base = addrOf((a0 >> 32) - 1);
			Expr *in = mk(ULE, 1, mk(SUB, 64, addr.e, K(base, 64)), K(o0->size - n, 64));
			if (decide(s, in)) {
				Expr *r = nullptr; unsigned cnt = 0;
				unsigned step = n; u64 first = (evalE(addr.e, s.model) - base) % step;
				Expr *al = mk(EQ, 1, mk(UREM, 64, mk(SUB, 64, addr.e, K(base, 64)), K(step, 64)), K(first, 64));
				if (solve(s, mkNot(al), nullptr) != 0) { u64 a = concretize(s, addr, 64); Obj *o = resolve(s, a, n, id, off, false, "load"); Val v = readObj(o, off, n); if (w < n * 8 && v.e) v.e = mkExtract(v.e, 0, w); else if (!v.e) v.c &= mask(w); return v; }
				for (u64 of = first; of + n <= o0->size; of += step) {
					Val v = readObj(o0, of, n); Expr *ve = E(v, n * 8);
					r = r ? mk(ITE, n * 8, mk(EQ, 1, addr.e, K(base + of, 64)), ve, r) : ve; cnt++;
				}
				if (w < n * 8) r = mkExtract(r, 0, w);
				return V(r);
			}
		}
		addr = CV(concretize(s, addr, 64));
	}
	Obj *o = resolve(s, addr.c, n, id, off, false, "load");
	Val v = readObj(o, off, n);
	if (v.e) { if (w < n * 8) v = V(mkExtract(v.e, 0, w)); } else v.c &= mask(w);
	return v;
}
static void store(State &s, Val addr, Val v, unsigned w) {
	unsigned n = (w + 7) / 8; u64 id, off;
	if (addr.e && addr.e->uninit) fail(s, "uninit", "store through an uninitialized pointer");
	u64 a = concretize(s, addr, 64);
	resolve(s, a, n, id, off, true, "store");
	writeObj(s.wr(id), off, n, padTo(v, w, n));
}
static void memcopy(State &s, u64 d, u64 src, u64 n) {
	if (!n) return;
	u64 id, off, id2, off2;
	Obj *so = resolve(s, src, n, id, off, false, "memcpy read");
	vector<u8> data(so->data.begin() + off, so->data.begin() + off + n); vector<Expr *> sy;
	if (so->nsym) sy.assign(so->sym.begin() + off, so->sym.begin() + off + n);
	resolve(s, d, n, id2, off2, true, "memcpy write");
	Obj *o = s.wr(id2);
	memcpy(&o->data[off2], data.data(), n);
	if (!sy.empty() || o->nsym) {
		if (o->sym.empty()) o->sym.assign(o->size, nullptr);
		for (u64 i = 0; i < n; i++) {
			Expr *x = sy.empty() ? nullptr : sy[i];
			if (o->sym[off2 + i]) o->nsym--;
			o->sym[off2 + i] = x; if (x) o->nsym++;
		}
	}
}
static string readCStr(State &s, Val a) {
	string r; u64 p = concretize(s, a, 64);
	for (int i = 0; i < 100000; i++) { Val v = load(s, CV(p + i), 8); u64 c = concretize(s, v, 8); if (!c) break; r += (char)c; }
	return r;
}
static string readCStrNoFork(State &s, Val a) {
	string r; u64 p = a.e ? evalE(a.e, s.model) : a.c;
	for (int i = 0; i < 4096; i++) { Val v = load(s, CV(p + i), 8); u64 c = v.e ? evalE(v.e, s.model) : v.c; if (!c) break; r += (char)c; }
	return r;
}
static void killObj(State &s, u64 id) { Obj *o = s.wr(id); o->alive = false; o->data.clear(); o->data.shrink_to_fit(); o->sym.clear(); o->sym.shrink_to_fit(); o->nsym = 0; }

// ---------------------------------------------------------------- decoding
static unsigned widthOf(llvm::Type *t) {
	if (t->isPointerTy()) return 64;
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isDoubleTy()) return 64;
	if (t->isFloatTy()) return 32;
	return 0;
}
static std::unordered_map<const llvm::GlobalValue *, u64> gaddr;
static Val constVal(const llvm::Constant *c);
static Val aggVal(vector<Val> v) { Expr *e = new Expr(); memset((void *)e, 0, sizeof *e); e->op = AGG; e->agg = new AggV{std::move(v)}; return Val{e, 0}; }
static Func *getFunc(llvm::Function *f);
static Val constVal(const llvm::Constant *c) {
	using namespace llvm;
	if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return CV(ci->getValue().trunc(64).getZExtValue()); return CV(ci->getZExtValue()); }
	if (isa<ConstantPointerNull>(c)) return CV(0);
	if (auto *cf = dyn_cast<ConstantFP>(c)) { if (c->getType()->isDoubleTy() || c->getType()->isFloatTy()) return CV(cf->getValueAPF().bitcastToAPInt().getZExtValue()); }
	if (auto *gv = dyn_cast<GlobalVariable>(c)) return CV(gaddr.at(gv));
	if (auto *f = dyn_cast<Function>(c)) return CV(getFunc(const_cast<Function *>(f))->addr);
	if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c) || (isa<UndefValue>(c) && c->getType()->isAggregateType())) {
		vector<Val> v; unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
		for (unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i)));
		return aggVal(v);
	}
	if (isa<UndefValue>(c)) { unsigned w = widthOf(c->getType()); return w ? V(mkSym("__undef" + std::to_string(w), 0, w, true)) : CV(0); }
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0); auto *g = cast<GEPOperator>(ce);
			if (g->accumulateConstantOffset(*DL, off)) return CV(constVal(ce->getOperand(0)).c + off.getSExtValue());
			break; }
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
			Val v = constVal(ce->getOperand(0)); if (!v.e) v.c &= mask(widthOf(ce->getType())); return v; }
		case Instruction::Sub: return CV((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & mask(widthOf(ce->getType())));
		case Instruction::Add: return CV((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & mask(widthOf(ce->getType())));
		case Instruction::Trunc: return CV(constVal(ce->getOperand(0)).c & mask(widthOf(ce->getType())));
		default: break;
		}
	}
	string str; raw_string_ostream os(str); c->print(os); fprintf(stderr, "sx: constant not supported: %s\n", str.c_str()); exit(3);
}
static u64 funcCounter = 0;
static const u64 FUNC_ID0 = 0x40000000;
static Func *getFunc(llvm::Function *f) {
	auto it = funcs.find(f);
	if (it != funcs.end()) return it->second;
	Func *F = new Func(); F->name = f->getName().str(); F->f = f; F->isDecl = f->isDeclaration(); F->vararg = f->isVarArg();
	F->addr = (FUNC_ID0 + ++funcCounter) << 32 | LOW;
	funcs[f] = F; funcByAddr[F->addr] = F;
	return F;
}

enum Ext { X_NONE, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_ABORT, X_EXIT, X_ASSERTFAIL, X_SYM, X_ASSUME, X_ASSERT, X_COVER, X_NOTE, X_CONCRETE, X_MEMCPY, X_MEMSET, X_ISSYM, X_HEAPLIVE, X_PRINT, X_STOP, X_UNMODELED, X_VALIDPTR, X_CALLSYM, X_POSSIBLE, X_OBJSIZE, X_STRTOD };
static const std::map<string, int> extTab = {
	{"malloc", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC}, {"free", X_FREE}, {"abort", X_ABORT}, {"sx_exit_called", X_EXIT}, {"__assert_fail", X_ASSERTFAIL},
	{"sx_sym", X_SYM}, {"sx_assume", X_ASSUME}, {"sx_assert_", X_ASSERT}, {"sx_cover", X_COVER}, {"sx_note", X_NOTE}, {"sx_concrete", X_CONCRETE}, {"sx_is_symbolic", X_ISSYM}, {"sx_heap_live", X_HEAPLIVE},
	{"sx_print", X_PRINT}, {"sx_stop", X_STOP}, {"sx_unmodeled", X_UNMODELED}, {"sx_valid_ptr", X_VALIDPTR}, {"sx_possible", X_POSSIBLE}, {"sx_obj_size", X_OBJSIZE}, {"sx_strtod_concrete", X_STRTOD},
	{"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET} };

static void decode(Func *F) {
	using namespace llvm;
	F->decoded = true;
	std::unordered_map<const Value *, int> reg; std::unordered_map<const BasicBlock *, int> bbid;
	int r = 0;
	for (auto &a : F->f->args()) reg[&a] = r++;
	F->nargs = r;
	for (auto &bb : *F->f) { int id = bbid.size(); bbid[&bb] = id; for (auto &i : bb) if (!i.getType()->isVoidTy()) reg[&i] = r++; }
	F->nregs = r;
	auto opnd = [&](const Value *v) -> Opnd {
		if (auto *c = dyn_cast<Constant>(v)) return Opnd{-1, constVal(c)};
		auto it = reg.find(v); if (it != reg.end()) return Opnd{it->second, CV(0)};
		return Opnd{-1, CV(0)}; // metadata etc.
	};
	F->blocks.resize(bbid.size());
	for (auto &bb : *F->f) {
		Block &B = F->blocks[bbid[&bb]];
		std::map<int, vector<std::pair<int, Opnd>>> ph;
		for (auto &i : bb) {
			if (auto *p = dyn_cast<PHINode>(&i)) {
				for (unsigned k = 0; k < p->getNumIncomingValues(); k++) ph[bbid[p->getIncomingBlock(k)]].push_back({reg[p], opnd(p->getIncomingValue(k))});
				continue;
			}
			if (isa<DbgInfoIntrinsic>(i)) continue;
			Instr I{}; I.op = i.getOpcode(); I.dst = i.getType()->isVoidTy() ? -1 : reg[&i]; I.w = widthOf(i.getType()); I.callee = nullptr; I.intr = 0; I.ty = i.getType();
			I.line = i.getDebugLoc() ? i.getDebugLoc().getLine() : 0;
			switch (I.op) {
			case Instruction::Alloca: { auto *a = cast<AllocaInst>(&i); I.off = DL->getTypeAllocSize(a->getAllocatedType()); I.ops.push_back(opnd(a->getArraySize())); break; }
			case Instruction::Load: I.ops.push_back(opnd(i.getOperand(0))); break;
			case Instruction::Store: I.ops.push_back(opnd(i.getOperand(0))); I.ops.push_back(opnd(i.getOperand(1))); I.w = widthOf(i.getOperand(0)->getType()); I.ty = i.getOperand(0)->getType(); break;
			case Instruction::GetElementPtr: {
				auto *g = cast<GetElementPtrInst>(&i); I.ops.push_back(opnd(g->getPointerOperand())); I.off = 0;
				for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
					Value *ix = gti.getOperand();
					if (StructType *stt = gti.getStructTypeOrNull()) I.off += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
					else {
						u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
						if (auto *ci = dyn_cast<ConstantInt>(ix)) I.off += ci->getSExtValue() * sz;
						else { I.ops.push_back(opnd(ix)); I.scales.push_back(sz); I.swidths.push_back(ix->getType()->getIntegerBitWidth()); }
					}
				}
				break; }
			case Instruction::Br: { auto *b = cast<BranchInst>(&i); if (b->isConditional()) I.ops.push_back(opnd(b->getCondition())); for (unsigned k = 0; k < b->getNumSuccessors(); k++) I.blocks.push_back(bbid[b->getSuccessor(k)]); break; }
			case Instruction::Switch: { auto *sw = cast<SwitchInst>(&i); I.ops.push_back(opnd(sw->getCondition())); I.w = widthOf(sw->getCondition()->getType()); I.blocks.push_back(bbid[sw->getDefaultDest()]);
				for (auto &c : sw->cases()) { I.cases.push_back(c.getCaseValue()->getZExtValue()); I.blocks.push_back(bbid[c.getCaseSuccessor()]); } break; }
			case Instruction::Ret: if (i.getNumOperands()) { I.ops.push_back(opnd(i.getOperand(0))); } break;
			case Instruction::Call: {
				auto *c = cast<CallInst>(&i);
				if (c->isInlineAsm()) { I.ext = -1; I.cname = "asm"; break; }
				for (unsigned k = 0; k < c->arg_size(); k++) {
					I.ops.push_back(opnd(c->getArgOperand(k))); I.argw.push_back(widthOf(c->getArgOperand(k)->getType()));
					I.byval.push_back(c->isByValArgument(k) ? (u64)DL->getTypeAllocSize(c->getParamByValType(k)) : 0);
				}
				Function *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
				if (cf) { if (cf->isIntrinsic()) { I.intr = cf->getIntrinsicID(); I.cname = strdup(cf->getName().str().c_str()); }
					else { I.callee = getFunc(cf); auto it = extTab.find(cf->getName().str()); I.ext = it != extTab.end() && cf->isDeclaration() ? it->second : (cf->isDeclaration() ? -1 : 0); I.cname = I.callee->name.c_str(); } }
				else { I.ops.push_back(opnd(c->getCalledOperand())); I.ext = 0; I.cname = "indirect"; }
				break; }
			case Instruction::ICmp: case Instruction::FCmp: I.pred = cast<CmpInst>(&i)->getPredicate(); I.w2 = widthOf(i.getOperand(0)->getType()); I.ops.push_back(opnd(i.getOperand(0))); I.ops.push_back(opnd(i.getOperand(1))); break;
			case Instruction::ExtractValue: I.ops.push_back(opnd(i.getOperand(0))); for (auto k : cast<ExtractValueInst>(&i)->indices()) I.idx.push_back(k); break;
			case Instruction::InsertValue: I.ops.push_back(opnd(i.getOperand(0))); I.ops.push_back(opnd(i.getOperand(1))); for (auto k : cast<InsertValueInst>(&i)->indices()) I.idx.push_back(k); break;
			default:
				for (unsigned k = 0; k < i.getNumOperands(); k++) I.ops.push_back(opnd(i.getOperand(k)));
				if (i.getNumOperands()) I.w2 = widthOf(i.getOperand(0)->getType());
			}
			B.ins.push_back(std::move(I));
		}
		for (auto &kv : ph) B.phis.push_back({kv.first, kv.second});
	}
}

// ---------------------------------------------------------------- interpreter
static void enterBlock(State &s, Frame &f, int bb) {
	Block &B = f.f->blocks[bb];
	if (!B.phis.empty()) {
		for (auto &p : B.phis) if (p.first == f.bb) {
			vector<Val> tmp; for (auto &x : p.second) tmp.push_back(x.second.reg >= 0 ? f.regs[x.second.reg] : x.second.c);
			for (size_t i = 0; i < tmp.size(); i++) f.regs[p.second[i].first] = tmp[i];
			break;
		}
	}
	f.prev = f.bb; f.bb = bb; f.ip = 0;
}
static void pushFrame(State &s, Func *F, const vector<Val> &args, const vector<unsigned> &argw, int retDst) {
	if (!F->decoded) decode(F);
	F->calls++;
	if (s.stack.size() > 400) fail(s, "limit", "call depth exceeds 400");
	Frame fr; fr.f = F; fr.regs.resize(F->nregs, CV(0));
	for (size_t i = 0; i < args.size(); i++) {
		if ((int)i < F->nargs) fr.regs[i] = args[i];
		else { fr.va.push_back(args[i]); fr.vaw.push_back(argw[i]); }
	}
	fr.retDst = retDst;
	s.stack.push_back(std::move(fr));
}
static Val bin(State &s, unsigned op, unsigned w, Val a, Val b) {
	using namespace llvm;
	Op o;
	switch (op) {
	case Instruction::Add: o = ADD; break; case Instruction::Sub: o = SUB; break; case Instruction::Mul: o = MUL; break;
	case Instruction::UDiv: o = UDIV; break; case Instruction::SDiv: o = SDIV; break; case Instruction::URem: o = UREM; break; case Instruction::SRem: o = SREM; break;
	case Instruction::And: o = AND; break; case Instruction::Or: o = OR; break; case Instruction::Xor: o = XOR; break;
	case Instruction::Shl: o = SHL; break; case Instruction::LShr: o = LSHR; break; case Instruction::AShr: o = ASHR; break;
	case Instruction::FAdd: o = FADD; break; case Instruction::FSub: o = FSUB; break; case Instruction::FMul: o = FMUL; break; case Instruction::FDiv: o = FDIV; break; case Instruction::FRem: o = FREM; break;
	default: fail(s, "unmodeled", "binary opcode"); throw PathEnd();
	}
	if (o == UDIV || o == SDIV || o == UREM || o == SREM) {
		if (b.e) { if (!decide(s, mkNot(mk(EQ, 1, b.e, K(0, w))))) fail(s, "ub", "division by zero"); }
		else if (!b.c) fail(s, "ub", "division by zero");
		if (o == SDIV || o == SREM) {
			Expr *ov = mk(AND, 1, mk(EQ, 1, E(a, w), K(1ull << (w - 1), w)), mk(EQ, 1, E(b, w), K(mask(w), w)));
			if (decide(s, ov)) fail(s, "ub", "signed division overflow");
		}
	}
	// A shift by >= width is poison, not an error by itself (optimised code speculates
	// shifts); the sources are compiled with UBSan traps that catch it where it matters.
	if (!a.e && !b.e) return CV(fold(o, w, 0, a.c, b.c, 0, w, w));
	return V(mk(o, w, E(a, w), E(b, w)));
}
static Expr *icmp(unsigned pred, Expr *a, Expr *b) {
	using P = llvm::CmpInst;
	switch (pred) {
	case P::ICMP_EQ: return mk(EQ, 1, a, b); case P::ICMP_NE: return mkNot(mk(EQ, 1, a, b));
	case P::ICMP_ULT: return mk(ULT, 1, a, b); case P::ICMP_ULE: return mk(ULE, 1, a, b);
	case P::ICMP_UGT: return mk(ULT, 1, b, a); case P::ICMP_UGE: return mk(ULE, 1, b, a);
	case P::ICMP_SLT: return mk(SLT, 1, a, b); case P::ICMP_SLE: return mk(SLE, 1, a, b);
	case P::ICMP_SGT: return mk(SLT, 1, b, a); case P::ICMP_SGE: return mk(SLE, 1, b, a);
	}
	abort();
}
static Expr *fcmp(unsigned pred, Expr *a, Expr *b) {
	using P = llvm::CmpInst;
	auto lt = [&](Expr *x, Expr *y) { return mk(FOLT, 1, x, y); };
	auto le = [&](Expr *x, Expr *y) { return mk(FOLE, 1, x, y); };
	Expr *eq = mk(FOEQ, 1, a, b), *un = mk(FUNO, 1, a, b);
	switch (pred) {
	case P::FCMP_FALSE: return K(0, 1); case P::FCMP_TRUE: return K(1, 1);
	case P::FCMP_OEQ: return eq; case P::FCMP_UNE: return mkNot(eq);
	case P::FCMP_OLT: return lt(a, b); case P::FCMP_OLE: return le(a, b); case P::FCMP_OGT: return lt(b, a); case P::FCMP_OGE: return le(b, a);
	case P::FCMP_UGE: return mkNot(lt(a, b)); case P::FCMP_UGT: return mkNot(le(a, b)); case P::FCMP_ULE: return mkNot(lt(b, a)); case P::FCMP_ULT: return mkNot(le(b, a));
	case P::FCMP_ORD: return mkNot(un); case P::FCMP_UNO: return un;
	case P::FCMP_ONE: return mk(AND, 1, mkNot(eq), mkNot(un)); case P::FCMP_UEQ: return mk(OR, 1, eq, un);
	}
	abort();
}
static u64 doMalloc(State &s, u64 n, bool zero) {
	if (n > (64u << 20)) fail(s, "mem", "allocation of more than 64 MiB");
	u64 id = s.alloc(n, KHEAP);
	if (!zero && n) fillUninit(s.wr(id));
	return addrOf(id);
}
static Val loadTy(State &s, Val addr, llvm::Type *t);
static Val loadTy(State &s, Val addr, llvm::Type *t) {
	if (t->isStructTy() || t->isArrayTy()) {
		u64 a = concretize(s, addr, 64); vector<Val> v;
		unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
		for (unsigned i = 0; i < n; i++) {
			u64 off = t->isStructTy() ? (u64)DL->getStructLayout(llvm::cast<llvm::StructType>(t))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(t->getArrayElementType());
			v.push_back(loadTy(s, CV(a + off), t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()));
		}
		return aggVal(v);
	}
	unsigned w = widthOf(t);
	if (!w || w > 64) fail(s, "unmodeled", "load of unsupported type");
	return load(s, addr, w);
}
static void storeTy(State &s, Val addr, Val v, llvm::Type *t) {
	if (t->isStructTy() || t->isArrayTy()) {
		u64 a = concretize(s, addr, 64);
		for (unsigned i = 0; i < v.e->agg->v.size(); i++) {
			u64 off = t->isStructTy() ? (u64)DL->getStructLayout(llvm::cast<llvm::StructType>(t))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(t->getArrayElementType());
			storeTy(s, CV(a + off), v.e->agg->v[i], t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType());
		}
		return;
	}
	unsigned w = widthOf(t);
	if (!w || w > 64) fail(s, "unmodeled", "store of unsupported type");
	store(s, addr, v, w);
}
static void freeObj(State &s, u64 p) {
	if (!p) return;
	u64 id = (p >> 32) - 1; Obj *o = (p >> 32) ? s.get(id) : nullptr;
	if (!o || o->kind != KHEAP) fail(s, "mem", "free of a pointer that is not a heap block");
	if (!o->alive) fail(s, "mem", "double free");
	if ((p & 0xffffffffu) != LOW) fail(s, "mem", "free of an interior pointer");
	killObj(s, id);
}
static void checkAssert(State &s, Val c, unsigned w, const string &msg) {
	st.asserts++;
	Expr *e = E(c, w); e = w == 1 ? e : mkNot(mk(EQ, 1, e, K(0, w)));
	if (e->op != CONST) st.symAsserts++;
	bool z = z3All; z3All = true; bool ok; // assertions go to the SMT solver
	try { ok = decide(s, e); } catch (...) { z3All = z; throw; }
	z3All = z;
	if (!ok) fail(s, "assert", msg);
}
static bool isStringFlag(const char *) { return false; }

static void execCall(State &s, Instr &I, Frame &f) {
	using namespace llvm;
	vector<Val> a(I.argw.size());
	for (size_t i = 0; i < a.size(); i++) a[i] = I.ops[i].reg >= 0 ? f.regs[I.ops[i].reg] : I.ops[i].c;
	auto ret = [&](Val v) { if (I.dst >= 0) s.stack.back().regs[I.dst] = v; };
	if (I.intr) {
		switch (I.intr) {
		case Intrinsic::memcpy: case Intrinsic::memmove: {
			u64 n = concretize(s, a[2], I.argw[2]), d = concretize(s, a[0], 64), x = concretize(s, a[1], 64); memcopy(s, d, x, n); return; }
		case Intrinsic::memset: {
			u64 n = concretize(s, a[2], I.argw[2]), d = concretize(s, a[0], 64); if (!n) return; u64 id, off; resolve(s, d, n, id, off, true, "memset"); Obj *o = s.wr(id);
			for (u64 i = 0; i < n; i++) writeObj(o, off + i, 1, a[1]); return; }
		case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: return;
		case Intrinsic::expect: ret(a[0]); return;
		case Intrinsic::vastart: {
			// x86-64 va_list with every argument in the overflow area
			u64 p = concretize(s, a[0], 64); Frame &fr = s.stack.back();
			u64 id = s.alloc(fr.va.size() * 8 + 8, KSTACK); fr.allocas.push_back(id);
			for (size_t i = 0; i < fr.va.size(); i++) writeObj(s.wr(id), i * 8, 8, padTo(fr.va[i], fr.vaw[i], 8));
			store(s, CV(p), CV(48), 32); store(s, CV(p + 4), CV(304), 32); store(s, CV(p + 8), CV(addrOf(id)), 64); store(s, CV(p + 16), CV(0), 64); return; }
		case Intrinsic::vaend: return;
		case Intrinsic::vacopy: memcopy(s, concretize(s, a[0], 64), concretize(s, a[1], 64), 24); return;
		case Intrinsic::ubsantrap: case Intrinsic::trap: fail(s, "ub", "undefined behaviour trap (overflow, shift, bounds, bool or enum check)"); return;
		case Intrinsic::fabs: if (!a[0].e) ret(CV(a[0].c & ~(1ull << (I.w - 1)))); else ret(V(mk(AND, I.w, a[0].e, K(mask(I.w - 1), I.w)))); return;
		case Intrinsic::abs: { Expr *x = E(a[0], I.w); ret(V(mk(ITE, I.w, mk(SLT, 1, x, K(0, I.w)), mk(SUB, I.w, K(0, I.w), x), x))); return; }
		case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
			Expr *x = E(a[0], I.w), *y = E(a[1], I.w); bool sg = I.intr == Intrinsic::smax || I.intr == Intrinsic::smin; bool mx = I.intr == Intrinsic::smax || I.intr == Intrinsic::umax;
			Expr *lt = mk(sg ? SLT : ULT, 1, x, y); ret(V(mk(ITE, I.w, lt, mx ? y : x, mx ? x : y))); return; }
		case Intrinsic::usub_sat: { Expr *x = E(a[0], I.w), *y = E(a[1], I.w); ret(V(mk(ITE, I.w, mk(ULT, 1, x, y), K(0, I.w), mk(SUB, I.w, x, y)))); return; }
		case Intrinsic::fmuladd: { Expr *x = E(a[0], I.w), *y = E(a[1], I.w), *z = E(a[2], I.w); ret(V(mk(FADD, I.w, mk(FMUL, I.w, x, y), z))); return; }
		case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
		case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
			unsigned w = I.argw[0]; Expr *x = E(a[0], w), *y = E(a[1], w), *r, *o; Expr *z = K(0, w);
			switch (I.intr) {
			case Intrinsic::sadd_with_overflow: r = mk(ADD, w, x, y); o = mk(EQ, 1, mk(XOR, 1, mk(SLT, 1, x, z), mk(SLT, 1, y, z)), K(0, 1)); o = mk(AND, 1, o, mk(XOR, 1, mk(SLT, 1, r, z), mk(SLT, 1, x, z))); break;
			case Intrinsic::ssub_with_overflow: r = mk(SUB, w, x, y); o = mk(XOR, 1, mk(SLT, 1, x, z), mk(SLT, 1, y, z)); o = mk(AND, 1, o, mk(XOR, 1, mk(SLT, 1, r, z), mk(SLT, 1, x, z))); break;
			case Intrinsic::smul_with_overflow: r = mk(MUL, w, x, y); o = mk(SMULO, 1, x, y); break;
			case Intrinsic::uadd_with_overflow: r = mk(ADD, w, x, y); o = mk(ULT, 1, r, x); break;
			case Intrinsic::usub_with_overflow: r = mk(SUB, w, x, y); o = mk(ULT, 1, x, y); break;
			default: r = mk(MUL, w, x, y); o = mk(UMULO, 1, x, y); break;
			}
			ret(aggVal({V(r), V(o)})); return; }
		case Intrinsic::is_fpclass: {
			unsigned w = I.argw[0], mb = w == 64 ? 52 : 23; Expr *x = E(a[0], w); u64 m = concretize(s, a[1], 32); Expr *r = K(0, 1);
			u64 em = mask(w - 1 - mb) << mb, fm = mask(mb), q = 1ull << (mb - 1);
			Expr *ex = mk(AND, w, x, K(em, w)), *fr = mk(AND, w, x, K(fm, w)), *neg = mk(SLT, 1, x, K(0, w));
			Expr *emax = mk(EQ, 1, ex, K(em, w)), *ez = mk(EQ, 1, ex, K(0, w)), *fz = mk(EQ, 1, fr, K(0, w)), *qb = mkNot(mk(EQ, 1, mk(AND, w, x, K(q, w)), K(0, w)));
			Expr *nan = mk(AND, 1, emax, mkNot(fz)), *inf = mk(AND, 1, emax, fz), *zero = mk(AND, 1, ez, fz), *sub = mk(AND, 1, ez, mkNot(fz)), *norm = mk(AND, 1, mkNot(emax), mkNot(ez));
			Expr *cls[10] = { mk(AND, 1, nan, mkNot(qb)), mk(AND, 1, nan, qb), mk(AND, 1, inf, neg), mk(AND, 1, norm, neg), mk(AND, 1, sub, neg), mk(AND, 1, zero, neg), mk(AND, 1, zero, mkNot(neg)), mk(AND, 1, sub, mkNot(neg)), mk(AND, 1, norm, mkNot(neg)), mk(AND, 1, inf, mkNot(neg)) };
			for (int i = 0; i < 10; i++) if (m >> i & 1) r = mk(OR, 1, r, cls[i]);
			ret(V(r)); return; }
		case Intrinsic::copysign: { Expr *x = E(a[0], I.w), *y = E(a[1], I.w); ret(V(mk(OR, I.w, mk(AND, I.w, x, K(mask(I.w - 1), I.w)), mk(AND, I.w, y, K(1ull << (I.w - 1), I.w))))); return; }
		case Intrinsic::is_constant: ret(CV(0)); return;
		case Intrinsic::objectsize: ret(CV(~0ull)); return;
		case Intrinsic::stacksave: ret(CV(0)); return;
		case Intrinsic::stackrestore: return;
		case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::ctpop: case Intrinsic::bswap:
		default:
			fail(s, "unmodeled", string("intrinsic ") + I.cname); return;
		}
	}
	Func *F = I.callee;
	if (!F) {
		if (I.ext == -1) fail(s, "unmodeled", "inline asm");
		Val t = I.ops.back().reg >= 0 ? f.regs[I.ops.back().reg] : I.ops.back().c;
		if (t.e && t.e->uninit) fail(s, "uninit", "call through an uninitialized pointer");
		u64 p = concretize(s, t, 64); auto it = funcByAddr.find(p);
		if (it == funcByAddr.end()) fail(s, "mem", "call through an invalid function pointer");
		F = it->second;
	}
	int ext = I.ext;
	if (!I.callee && F->isDecl) { auto it = extTab.find(F->name); ext = it == extTab.end() ? -1 : it->second; }
	if (!F->isDecl) {
		for (size_t i = 0; i < a.size(); i++) if (I.byval[i]) {
			u64 src = concretize(s, a[i], 64); u64 id = s.alloc(I.byval[i], KSTACK); memcopy(s, addrOf(id), src, I.byval[i]); a[i] = CV(addrOf(id));
			s.stack.back().allocas.push_back(id);
		}
		pushFrame(s, F, a, I.argw, I.dst);
		return;
	}
	switch (ext) {
	case X_MALLOC: { u64 n = concretize(s, a[0], 64); ret(CV(doMalloc(s, n, false))); return; }
	case X_CALLOC: { u64 n = concretize(s, a[0], 64), m = concretize(s, a[1], 64); ret(CV(doMalloc(s, n * m, true))); return; }
	case X_REALLOC: {
		u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
		if (!p) { ret(CV(doMalloc(s, n, false))); return; }
		u64 id = (p >> 32) - 1; Obj *o = s.get(id);
		if (!o || o->kind != KHEAP) fail(s, "mem", "realloc of a pointer that is not a heap block");
		if (!o->alive) fail(s, "mem", "realloc after free");
		if ((p & 0xffffffffu) != LOW) fail(s, "mem", "realloc of an interior pointer");
		u64 old = o->size; u64 np = doMalloc(s, n, false); memcopy(s, np, p, std::min(old, n)); killObj(s, id); ret(CV(np)); return; }
	case X_FREE: { u64 p = concretize(s, a[0], 64); freeObj(s, p); return; }
	case X_ABORT: fail(s, "abort", "abort() called"); return;
	case X_EXIT: fail(s, "exit", "exit() called"); return;
	case X_ASSERTFAIL: fail(s, "assert", "assert: " + readCStrNoFork(s, a[0])); return;
	case X_SYM: { // sx_sym(void *p, size_t elem, size_t count, const char *name)
		u64 p = concretize(s, a[0], 64), el = concretize(s, a[1], 64), cnt = concretize(s, a[2], 64); string nm = readCStr(s, a[3]);
		u32 k = s.symCount[nm]++; string full = nm + "#" + std::to_string(k); vector<Expr *> es;
		u64 id, off; resolve(s, p, el * cnt, id, off, true, "sx_sym"); Obj *o = s.wr(id);
		for (u64 i = 0; i < cnt; i++) { Expr *e = mkSym(full, i, el * 8); es.push_back(e); writeObj(o, off + i * el, el, Val{e, 0}); }
		s.inputs.push_back({full, es}); return; }
	case X_ASSUME: {
		Expr *e = E(a[0], I.argw[0]); if (e->w != 1) e = mkNot(mk(EQ, 1, e, K(0, e->w)));
		if (e->op == CONST) { if (!e->v) { st.pruned++; throw PathEnd(); } return; }
		Model m; int r = solve(s, e, &m); if (r == -1) fail(s, "solver", "query not decided in time");
		if (r == 0) { st.pruned++; throw PathEnd(); }
		s.model = m; addPC(s, e); return; }
	case X_ASSERT: checkAssert(s, a[0], I.argw[0], readCStrNoFork(s, a[1])); return;
	case X_COVER: { string n = readCStrNoFork(s, a[0]); covers[n]++; return; }
	case X_NOTE: s.notes.push_back(readCStrNoFork(s, a[0])); return;
	case X_CONCRETE: ret(CV(concretize(s, a[0], I.argw[0]))); return;
	case X_ISSYM: ret(CV(a[0].e != nullptr)); return;
	case X_POSSIBLE: { Expr *e = E(a[0], I.argw[0]); if (e->w != 1) e = mkNot(mk(EQ, 1, e, K(0, e->w))); ret(CV(solve(s, e, nullptr) == 1)); return; }
	case X_HEAPLIVE: { u64 n = 0; for (u64 i = 0; i < s.nobj; i++) { Obj *o = s.get(i); if (o && o->kind == KHEAP && o->alive) n++; } ret(CV(n)); return; }
	case X_OBJSIZE: { u64 p = concretize(s, a[0], 64); Obj *o = (p >> 32) ? s.get((p >> 32) - 1) : nullptr; ret(CV(o && o->alive && o->kind != KFUNC ? o->size : 0)); return; }
	case X_STRTOD: { string t = readCStr(s, a[0]); char *e; double d = strtod(t.c_str(), &e); u64 ep = concretize(s, a[1], 64), p0 = concretize(s, a[0], 64); // concrete text
		if (ep) store(s, CV(ep), CV(p0 + (e - t.c_str())), 64);
		u64 b; memcpy(&b, &d, 8); ret(CV(b)); return; }
	case X_PRINT: { if (getenv("SX_PRINT")) fprintf(stderr, "%s\n", readCStrNoFork(s, a[0]).c_str()); return; }
	case X_STOP: pathDone(s); throw PathEnd();
	case X_UNMODELED: fail(s, "unmodeled", readCStrNoFork(s, a[0])); return;
	case X_MEMCPY: { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64), x = concretize(s, a[1], 64); memcopy(s, d, x, n); ret(CV(d)); return; }
	case X_MEMSET: { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64); Val b = a[1]; if (b.e) b = V(mkExtract(b.e, 0, 8)); else b.c &= 255;
		if (n) { u64 id, off; resolve(s, d, n, id, off, true, "memset"); Obj *o = s.wr(id); for (u64 i = 0; i < n; i++) writeObj(o, off + i, 1, b); } ret(CV(d)); return; }
	default: fail(s, "unmodeled", "external function " + F->name); return;
	}
}

static void run(State &s) {
	using namespace llvm;
	try {
		for (;;) {
			Frame &f = s.stack.back();
			Instr &I = f.f->blocks[f.bb].ins[f.ip++];
			if (++s.instrs > maxInstr) fail(s, "limit", "instruction budget of one path exhausted (possible non-termination)");
			if ((++st.instrs & 0xfff) == 0 && deadline && now() > deadline) timedOut = true;
			if (timedOut) { unexplored++; return; }
#define OP(i) (I.ops[i].reg >= 0 ? f.regs[I.ops[i].reg] : I.ops[i].c)
			switch (I.op) {
			case Instruction::Alloca: {
				u64 n = concretize(s, OP(0), 64); u64 id = s.alloc(I.off * n, KSTACK); if (I.off * n) fillUninit(s.wr(id));
				f.allocas.push_back(id); f.regs[I.dst] = CV(addrOf(id)); break; }
			case Instruction::Load: { Val v = I.w && I.w <= 64 ? load(s, OP(0), I.w) : loadTy(s, OP(0), I.ty); f.regs[I.dst] = v; break; }
			case Instruction::Store: if (I.w && I.w <= 64) store(s, OP(1), OP(0), I.w); else storeTy(s, OP(1), OP(0), I.ty); break;
			case Instruction::GetElementPtr: {
				Val b = OP(0);
				if (!b.e) b.c += I.off; else if (I.off) b = V(mk(ADD, 64, b.e, K(I.off, 64)));
				for (size_t i = 0; i < I.scales.size(); i++) {
					Val x = OP(i + 1); unsigned w = I.swidths[i];
					if (!x.e && !b.e) b.c += (u64)sext(x.c, w) * I.scales[i];
					else { Expr *xe = E(x, w); if (w < 64) xe = mk(SEXT, 64, xe); b = V(mk(ADD, 64, E(b, 64), mk(MUL, 64, xe, K(I.scales[i], 64)))); }
				}
				f.regs[I.dst] = b; break; }
			case Instruction::Br:
				if (I.ops.empty()) enterBlock(s, f, I.blocks[0]);
				else { Val c = OP(0); bool t = c.e ? decide(s, c.e) : (c.c & 1); enterBlock(s, s.stack.back(), I.blocks[t ? 0 : 1]); }
				break;
			case Instruction::Switch: {
				Val c = OP(0); int tgt = I.blocks[0];
				if (c.e) {
					// group the cases by destination, so that one decision is taken per destination
					u64 v = evalE(c.e, s.model); 
					int mine = I.blocks[0]; for (size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == v) mine = I.blocks[i + 1];
					Expr *cond;
					if (mine != I.blocks[0]) { cond = K(0, 1); for (size_t i = 0; i < I.cases.size(); i++) if (I.blocks[i + 1] == mine) cond = mk(OR, 1, cond, mk(EQ, 1, c.e, K(I.cases[i], I.w))); }
					else { cond = K(1, 1); for (size_t i = 0; i < I.cases.size(); i++) if (I.blocks[i + 1] != mine) cond = mk(AND, 1, cond, mkNot(mk(EQ, 1, c.e, K(I.cases[i], I.w)))); }
					bool r = decide(s, cond); assert(r); (void)r;
					tgt = mine;
				} else for (size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == (c.c & mask(I.w))) { tgt = I.blocks[i + 1]; break; }
				enterBlock(s, s.stack.back(), tgt); break; }
			case Instruction::Ret: {
				Val v = I.ops.empty() ? CV(0) : OP(0); bool has = !I.ops.empty(); int dst = f.retDst;
				for (u64 id : f.allocas) killObj(s, id);
				s.stack.pop_back();
				if (s.stack.empty()) { pathDone(s); return; }
				if (dst >= 0 && has) s.stack.back().regs[dst] = v;
				break; }
			case Instruction::Call: execCall(s, I, f); break;
			case Instruction::ICmp: { Val a = OP(0), b = OP(1); f.regs[I.dst] = V(icmp(I.pred, E(a, I.w2), E(b, I.w2))); break; }
			case Instruction::FCmp: { Val a = OP(0), b = OP(1); f.regs[I.dst] = V(fcmp(I.pred, E(a, I.w2), E(b, I.w2))); break; }
			case Instruction::Select: {
				Val c = OP(0), a = OP(1), b = OP(2);
				if (!c.e) f.regs[I.dst] = (c.c & 1) ? a : b;
				else if ((a.e && a.e->op == AGG) || (b.e && b.e->op == AGG)) { bool t = decide(s, c.e); f.regs[I.dst] = t ? a : b; }
				else if (c.e->uninit) fail(s, "uninit", "select depends on an uninitialized value");
				else if (determined(s, c.e)) f.regs[I.dst] = evalE(c.e, s.model) ? a : b;
				else if (int im = implied(s, c.e); im >= 0) f.regs[I.dst] = im ? a : b;
				else f.regs[I.dst] = V(mk(ITE, I.w, c.e, E(a, I.w), E(b, I.w)));
				break; }
			case Instruction::Trunc: { Val a = OP(0); f.regs[I.dst] = a.e ? V(mkExtract(a.e, 0, I.w)) : CV(a.c & mask(I.w)); break; }
			case Instruction::ZExt: { Val a = OP(0); f.regs[I.dst] = a.e ? V(mkZext(a.e, I.w)) : a; break; }
			case Instruction::SExt: { Val a = OP(0); f.regs[I.dst] = a.e ? V(mk(SEXT, I.w, a.e)) : CV((u64)sext(a.c, I.w2) & mask(I.w)); break; }
			case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = OP(0); if (a.e) { a = V(I.w <= a.e->w ? mkExtract(a.e, 0, I.w) : mkZext(a.e, I.w)); } else a.c &= mask(I.w); f.regs[I.dst] = a; break; }
			case Instruction::BitCast: case Instruction::Freeze: f.regs[I.dst] = OP(0); break;
			case Instruction::SIToFP: f.regs[I.dst] = V(mk(SITOFP, I.w, E(OP(0), I.w2))); break;
			case Instruction::UIToFP: f.regs[I.dst] = V(mk(UITOFP, I.w, E(OP(0), I.w2))); break;
			case Instruction::FPToSI: f.regs[I.dst] = V(mk(FPTOSI, I.w, E(OP(0), I.w2))); break;
			case Instruction::FPToUI: f.regs[I.dst] = V(mk(FPTOUI, I.w, E(OP(0), I.w2))); break;
			case Instruction::FNeg: f.regs[I.dst] = V(mk(XOR, I.w, E(OP(0), I.w), K(1ull << (I.w - 1), I.w))); break;
			case Instruction::ExtractValue: { Val v = OP(0); for (unsigned k : I.idx) v = v.e->agg->v[k]; f.regs[I.dst] = v; break; }
			case Instruction::InsertValue: {
				Val v = OP(0), n = OP(1); vector<Val> cp = v.e->agg->v; if (I.idx.size() != 1) fail(s, "unmodeled", "nested insertvalue"); cp[I.idx[0]] = n; f.regs[I.dst] = aggVal(cp); break; }
			case Instruction::Unreachable: fail(s, "ub", "unreachable code reached"); break;
			default:
				if (Instruction::isBinaryOp(I.op)) { if (I.w > 64 || !I.w) fail(s, "unmodeled", "wide arithmetic"); Val v = bin(s, I.op, I.w, OP(0), OP(1)); s.stack.back().regs[I.dst] = v; break; }
				fail(s, "unmodeled", string("instruction ") + Instruction::getOpcodeName(I.op));
			}
#undef OP
		}
	} catch (PathEnd &) {}
}

// ---------------------------------------------------------------- setup / main
static void initGlobal(Obj *o, u64 off, const llvm::Constant *c) {
	using namespace llvm;
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
		StringRef raw = cd->getRawDataValues(); memcpy(&o->data[off], raw.data(), raw.size()); return; }
	if (t->isStructTy()) { auto *sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); i++) initGlobal(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
	if (t->isArrayTy()) { u64 sz = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); i++) initGlobal(o, off + i * sz, c->getAggregateElement(i)); return; }
	Val v = constVal(c); writeObj(o, off, (widthOf(t) + 7) / 8, v);
}
static string js(const string &s) {
	string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\"";
}
static void dumpResult(FILE *o, bool complete) {
	fprintf(o, "{\"complete\":%s,\"paths\":%lu,\"instrs\":%lu,\"forks\":%lu,\"pruned\":%lu,\"queries\":%lu,\"cache_hits\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"asserts\":%lu,\"sym_asserts\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"unexplored\":%lu,\"domain\":%lu,\n\"covers\":{",
		complete ? "true" : "false", st.paths, st.instrs, st.forks, st.pruned, st.queries, st.cacheHits, st.sat, st.unsat, st.unknown, st.asserts, st.symAsserts, st.solverTime, st.maxQuery, unexplored, st.domain);
	bool first = true;
	for (auto &c : covers) { fprintf(o, "%s%s:%lu", first ? "" : ",", js(c.first).c_str(), c.second); first = false; }
	fprintf(o, "},\n\"functions\":["); first = true;
	for (auto &kv : funcs) if (kv.second->calls) { string file = kv.second->f->getSubprogram() ? kv.second->f->getSubprogram()->getFilename().str() : ""; fprintf(o, "%s[%s,%s,%lu]", first ? "" : ",", js(kv.second->name).c_str(), js(file).c_str(), kv.second->calls); first = false; }
	fprintf(o, "],\n\"errors\":["); first = true;
	for (auto &kv : errors) {
		auto &r = kv.second;
		fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"count\":%lu,\"inputs\":[", first ? "" : ",\n", js(r.kind).c_str(), js(r.msg).c_str(), js(r.where).c_str(), r.count); first = false;
		for (size_t i = 0; i < r.inputs.size(); i++) { fprintf(o, "%s[%s,%u,[", i ? "," : "", js(r.inputs[i].first).c_str(), r.widths[i]); for (size_t k = 0; k < r.inputs[i].second.size(); k++) fprintf(o, "%s%lu", k ? "," : "", r.inputs[i].second[k]); fprintf(o, "]]"); }
		fprintf(o, "],\"notes\":["); for (size_t i = 0; i < r.notes.size(); i++) fprintf(o, "%s%s", i ? "," : "", js(r.notes[i]).c_str());
		fprintf(o, "],\"trace\":["); for (size_t i = 0; i < r.trace.size() && i < 30; i++) fprintf(o, "%s%s", i ? "," : "", js(r.trace[i]).c_str());
		fprintf(o, "]}");
	}
	fprintf(o, "],\n\"samples\":["); first = true;
	for (auto &r : samples) {
		fprintf(o, "%s[", first ? "" : ",\n"); first = false;
		for (size_t i = 0; i < r.inputs.size(); i++) { fprintf(o, "%s[%s,%u,[", i ? "," : "", js(r.inputs[i].first).c_str(), r.widths[i]); for (size_t k = 0; k < r.inputs[i].second.size(); k++) fprintf(o, "%s%lu", k ? "," : "", r.inputs[i].second[k]); fprintf(o, "]]"); }
		fprintf(o, "]");
	}
	fprintf(o, "]}\n");
}

int main(int argc, char **argv) {
	string file, entry = "harness", out = "/dev/stdout"; int procs = 1; double tl = 0; u64 split = 0;
	for (int i = 1; i < argc; i++) {
		string a = argv[i];
		if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--procs") procs = atoi(argv[++i]);
		else if (a == "--time") tl = atof(argv[++i]); else if (a == "--max-instr") maxInstr = strtoull(argv[++i], 0, 10); else if (a == "--split") split = strtoull(argv[++i], 0, 10);
		else if (a == "--z3-all") z3All = true;
		else if (a == "--solver-ms") solverTimeoutMs = atoi(argv[++i]); else if (a == "--max-errors") maxErrors = strtoull(argv[++i], 0, 10);
		else file = a;
	}
	if (tl) deadline = now() + tl;
	struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
	if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512ul << 20) && !getenv("SX_STACK")) { rl.rlim_cur = 512ul << 20; if (rl.rlim_max != RLIM_INFINITY && rl.rlim_cur > rl.rlim_max) rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("SX_STACK", "1", 1); execv("/proc/self/exe", argv); }
	llvm::LLVMContext C; llvm::SMDiagnostic err;
	auto mod = llvm::parseIRFile(file, err, C);
	if (!mod) { err.print("sx", llvm::errs()); return 3; }
	M = mod.get(); DL = &M->getDataLayout();
	UNINIT8 = mkSym("__uninit8", 0, 8, true);
	State *s0 = new State();
	for (auto &g : M->globals()) { u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8; u64 id = s0->alloc(sz, KGLOBAL); gaddr[&g] = addrOf(id); }
	for (auto &g : M->globals()) if (g.hasInitializer()) { u64 id = (gaddr[&g] >> 32) - 1; Obj *o = s0->wr(id); initGlobal(o, 0, g.getInitializer()); o->ro = g.isConstant(); }
	llvm::Function *ef = M->getFunction(entry);
	if (!ef || ef->isDeclaration()) { fprintf(stderr, "sx: no entry %s\n", entry.c_str()); return 3; }
	pushFrame(*s0, getFunc(ef), {}, {}, -1);
	s0->model.assign(64, 0);
	work.push_back(s0);
	bool complete = true;
	if (procs > 1) {
		// Explored depth first; whenever a worker is free, a busy process forks and gives
		// the child half of its pending states (the oldest, so the largest subtrees).
		prctl(PR_SET_CHILD_SUBREAPER, 1);
		struct Shared { std::atomic<long> active, errc, ids, bad; };
		Shared *sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		sh->active = 1; sh->errc = 0; sh->ids = 1; sh->bad = 0;
		pid_t first = fork();
		if (first == 0) {
			u64 my = 0; double lastTry = now(); u64 sinceSplit = 0;
			while (!work.empty()) {
				State *s = work.back(); work.pop_back();
				if (timedOut || sh->errc >= (long)maxErrors) { unexplored++; delete s; continue; }
				size_t e0 = errors.size();
				run(*s); delete s; sinceSplit++;
				sh->errc += errors.size() - e0;
				if (work.size() >= 2 && sh->active < procs && (sinceSplit > 20 || now() - lastTry > 0.05)) {
					lastTry = now();
					if (sh->active.fetch_add(1) >= procs) { sh->active--; continue; }
					u64 id = sh->ids++; fflush(nullptr);
					pid_t p = fork();
					if (p < 0) { sh->active--; continue; }
					size_t h = work.size() / 2;
					if (p == 0) {
						my = id; st = Stats(); errors.clear(); covers.clear(); samples.clear(); nextSample = 1; unexplored = 0; for (auto &kv : funcs) kv.second->calls = 0;
						for (size_t k = h; k < work.size(); k++) delete work[k];
						work.resize(h);
					} else {
						for (size_t k = 0; k < h; k++) delete work[k];
						work.erase(work.begin(), work.begin() + h);
					}
					sinceSplit = 0;
				}
			}
			FILE *o = fopen((out + "." + std::to_string(my)).c_str(), "w"); if (!o) _exit(4);
			dumpResult(o, !timedOut && !unexplored); fclose(o); sh->active--; _exit(0);
		}
		bool ok = true; int stt; pid_t p;
		for (;;) {
			p = wait(&stt);
			if (p < 0) { if (errno == EINTR) continue; break; }
			if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { ok = false; sh->active--; }
		}
		FILE *o = fopen(out.c_str(), "w"); fprintf(o, "["); bool fst = true;
		for (long k = 0; k < sh->ids; k++) { string po = out + "." + std::to_string(k); FILE *i = fopen(po.c_str(), "r"); if (!i) { ok = false; continue; } if (!fst) fprintf(o, ","); fst = false; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, i))) fwrite(b, 1, n, o); fclose(i); unlink(po.c_str()); }
		fprintf(o, "]\n"); fclose(o);
		_exit(ok ? 0 : 3);
	}
	while (!work.empty()) {
		State *s = work.back(); work.pop_back();
		if (timedOut || errors.size() >= maxErrors) { unexplored++; complete = false; delete s; continue; }
		run(*s); delete s;
	}
	if (timedOut) complete = false;
	FILE *o = fopen(out.c_str(), "w"); fprintf(o, "["); dumpResult(o, complete); fprintf(o, "]\n"); fclose(o);
	_exit(0);
}
