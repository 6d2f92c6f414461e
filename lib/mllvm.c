#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <llvm-c/Analysis.h>
#include <llvm-c/Core.h>
#include <llvm-c/DebugInfo.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/Linker.h>
#include <llvm-c/Target.h>
#include <llvm-c/TargetMachine.h>
#include <llvm-c/Transforms/PassBuilder.h>
#include "mllvm.h"
#include "mio.h"
#include "sx.h"

LLVMModuleRef mllvm_module; int mllvm_verify_failed; const char *mllvm_verify_msg; int mllvm_emitted; char mllvm_emit_name[256]; int mllvm_emit_kind;
char mllvm_passes[64]; int mllvm_fail_emit, mllvm_fail_target; MExtern mllvm_extern; unsigned mllvm_fuel = 4000;

struct LLVMOpaqueContext { int x; };
struct LLVMOpaqueBuilder { LLVMBasicBlockRef bb; };
struct LLVMOpaqueMetadata { int x; };
static struct LLVMOpaqueContext the_ctx;

// ---- types (uniqued)
static struct LLVMOpaqueType t_void = { MT_VOID, 0 }, t_i1 = { MT_INT, 1 }, t_i8 = { MT_INT, 8 }, t_i16 = { MT_INT, 16 }, t_i32 = { MT_INT, 32 }, t_i64 = { MT_INT, 64 }, t_dbl = { MT_DOUBLE, 64 }, t_ptr = { MT_PTR, 64 }, t_label = { MT_LABEL, 0 };
LLVMTypeRef LLVMVoidTypeInContext(LLVMContextRef c) { (void)c; return &t_void; }
LLVMTypeRef LLVMInt1TypeInContext(LLVMContextRef c) { (void)c; return &t_i1; }
LLVMTypeRef LLVMInt8TypeInContext(LLVMContextRef c) { (void)c; return &t_i8; }
LLVMTypeRef LLVMInt16TypeInContext(LLVMContextRef c) { (void)c; return &t_i16; }
LLVMTypeRef LLVMInt32TypeInContext(LLVMContextRef c) { (void)c; return &t_i32; }
LLVMTypeRef LLVMInt64TypeInContext(LLVMContextRef c) { (void)c; return &t_i64; }
LLVMTypeRef LLVMIntTypeInContext(LLVMContextRef c, unsigned n) { (void)c; switch (n) { case 1: return &t_i1; case 8: return &t_i8; case 16: return &t_i16; case 32: return &t_i32; case 64: return &t_i64; default: sx_unmodeled("integer type width"); } }
LLVMTypeRef LLVMDoubleTypeInContext(LLVMContextRef c) { (void)c; return &t_dbl; }
LLVMTypeRef LLVMPointerType(LLVMTypeRef e, unsigned a) { (void)a; sx_assert_(e != NULL, "pointer type of a null type"); return &t_ptr; }
LLVMTypeRef LLVMPointerTypeInContext(LLVMContextRef c, unsigned a) { (void)a; (void)c; return &t_ptr; }
LLVMTypeRef LLVMFunctionType(LLVMTypeRef r, LLVMTypeRef *p, unsigned n, LLVMBool va) {
	(void)va;
	if (n > 8) sx_unmodeled("function with more than 8 parameters");
	LLVMTypeRef t = calloc(1, sizeof *t); t->kind = MT_FUNC; t->ret = r; t->nparams = n;
	sx_assert_(r != NULL, "function type without return type");
	for (unsigned i = 0; i < n; i++) { sx_assert_(p[i] != NULL && p[i] != &t_void, "function type with invalid parameter type"); t->params[i] = p[i]; }
	return t;
}
static bool same_ftype(LLVMTypeRef a, LLVMTypeRef b) { if (a == b) return true; if (!a || !b || a->ret != b->ret || a->nparams != b->nparams) return false; for (unsigned i = 0; i < a->nparams; i++) if (a->params[i] != b->params[i]) return false; return true; }
LLVMTypeRef LLVMTypeOf(LLVMValueRef v) { return v->type; }
LLVMTypeRef LLVMGetReturnType(LLVMTypeRef t) { return t->ret; }
LLVMTypeRef LLVMGlobalGetValueType(LLVMValueRef g) { return g->valty; }
LLVMTypeKind LLVMGetTypeKind(LLVMTypeRef t) { switch (t->kind) { case MT_VOID: return LLVMVoidTypeKind; case MT_INT: return LLVMIntegerTypeKind; case MT_DOUBLE: return LLVMDoubleTypeKind; case MT_PTR: return LLVMPointerTypeKind; case MT_FUNC: return LLVMFunctionTypeKind; default: return LLVMLabelTypeKind; } }
unsigned LLVMGetIntTypeWidth(LLVMTypeRef t) { return t->width; }

static uint64_t msk(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static int64_t sx64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= msk(w); return (int64_t)((v ^ m) - m); }
static double D(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t U(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }

// ---- values
static LLVMValueRef mkv(MValKind k, LLVMTypeRef t) { LLVMValueRef v = calloc(1, sizeof *v); v->kind = k; v->type = t; return v; }
static LLVMValueRef cint(LLVMTypeRef t, uint64_t x) { LLVMValueRef v = mkv(MV_CINT, t); v->v = x & msk(t->width); return v; }
static LLVMValueRef creal(double d) { LLVMValueRef v = mkv(MV_CREAL, &t_dbl); v->v = U(d); return v; }
LLVMValueRef LLVMConstInt(LLVMTypeRef t, unsigned long long n, LLVMBool s) { (void)s; sx_assert_(t->kind == MT_INT, "LLVMConstInt of a non-integer type"); return cint(t, n); }
LLVMValueRef LLVMConstReal(LLVMTypeRef t, double n) { sx_assert_(t->kind == MT_DOUBLE, "LLVMConstReal of a non-float type"); return creal(n); }
LLVMValueRef LLVMConstNull(LLVMTypeRef t) { if (t->kind == MT_INT) return cint(t, 0); if (t->kind == MT_DOUBLE) return creal(0); return mkv(MV_CNULL, t); }
LLVMValueRef LLVMConstPointerNull(LLVMTypeRef t) { return mkv(MV_CNULL, t); }
LLVMValueRef LLVMGetUndef(LLVMTypeRef t) { return LLVMConstNull(t); }
LLVMBool LLVMIsConstant(LLVMValueRef v) { return v->kind == MV_CINT || v->kind == MV_CREAL || v->kind == MV_CNULL || v->kind == MV_GLOBAL || v->kind == MV_FUNC || v->kind == MV_CEXPR; }
long long LLVMConstIntGetSExtValue(LLVMValueRef v) { return sx64(v->v, v->type->width); }
unsigned long long LLVMConstIntGetZExtValue(LLVMValueRef v) { return v->v; }

// ---- modules, functions, blocks
LLVMContextRef LLVMContextCreate(void) { return &the_ctx; }
LLVMContextRef LLVMGetGlobalContext(void) { return &the_ctx; }
void LLVMContextDispose(LLVMContextRef c) { (void)c; }
LLVMModuleRef LLVMModuleCreateWithNameInContext(const char *n, LLVMContextRef c) { (void)c; LLVMModuleRef m = calloc(1, sizeof *m); m->name = n ? strdup(n) : NULL; mllvm_module = m; return m; }
void LLVMDisposeModule(LLVMModuleRef m) { m->disposed = true; }
LLVMValueRef mllvm_find(LLVMModuleRef m, const char *n) { for (LLVMValueRef f = m->funcs; f; f = f->nextg) if (!strcmp(f->name, n)) return f; return NULL; }
static LLVMValueRef find_global(LLVMModuleRef m, const char *n) { for (LLVMValueRef g = m->globals; g; g = g->nextg) if (!strcmp(g->name, n)) return g; return NULL; }
LLVMValueRef LLVMGetNamedFunction(LLVMModuleRef m, const char *n) { return mllvm_find(m, n); }
LLVMValueRef LLVMGetNamedGlobal(LLVMModuleRef m, const char *n) { return find_global(m, n); }
static char *uniq(LLVMModuleRef m, const char *n) { // like LLVM: a clash gets a numeric suffix
	if (!n) n = "";
	if (!*n || (!mllvm_find(m, n) && !find_global(m, n))) return strdup(n);
	size_t l = strlen(n); char *r = malloc(l + 12); memcpy(r, n, l); unsigned k = ++m->serial, i = 0; char t[12];
	do { t[i++] = (char)('0' + k % 10); k /= 10; } while (k);
	if (mllvm_find(m, n)) r[l++] = '.';
	while (i) r[l++] = t[--i];
	r[l] = 0; return r;
}
LLVMValueRef LLVMAddFunction(LLVMModuleRef m, const char *n, LLVMTypeRef t) {
	LLVMValueRef f = mkv(MV_FUNC, &t_ptr); f->valty = t; f->name = uniq(m, n); f->mod = m;
	sx_assert_(t && t->kind == MT_FUNC, "LLVMAddFunction with a non-function type");
	for (unsigned i = 0; i < t->nparams; i++) { LLVMValueRef p = mkv(MV_PARAM, t->params[i]); p->fn = f; p->idx = i; f->params[i] = p; }
	LLVMValueRef *e = &m->funcs; while (*e) e = &(*e)->nextg; *e = f; return f;
}
LLVMValueRef LLVMAddGlobal(LLVMModuleRef m, LLVMTypeRef t, const char *n) {
	LLVMValueRef g = mkv(MV_GLOBAL, &t_ptr); g->valty = t; g->name = uniq(m, n); g->mod = m; g->storage = calloc(1, 8);
	sx_assert_(t && t != &t_void, "global of void or null type");
	LLVMValueRef *e = &m->globals; while (*e) e = &(*e)->nextg; *e = g; return g;
}
void LLVMSetInitializer(LLVMValueRef g, LLVMValueRef c) { sx_assert_(LLVMIsConstant(c), "initializer is not constant"); g->init = c; }
LLVMValueRef LLVMGetInitializer(LLVMValueRef g) { return g->init; }
void LLVMSetLinkage(LLVMValueRef g, LLVMLinkage l) { g->linkage = l; }
LLVMLinkage LLVMGetLinkage(LLVMValueRef g) { return g->linkage; }
void LLVMSetGlobalConstant(LLVMValueRef g, LLVMBool c) { (void)g; (void)c; }
void LLVMSetUnnamedAddress(LLVMValueRef g, LLVMUnnamedAddr a) { (void)g; (void)a; }
LLVMValueRef LLVMGetFirstParam(LLVMValueRef f) { return f->valty->nparams ? f->params[0] : NULL; }
LLVMValueRef LLVMGetNextParam(LLVMValueRef p) { return p->idx + 1 < p->fn->valty->nparams ? p->fn->params[p->idx + 1] : NULL; }
LLVMValueRef LLVMGetParam(LLVMValueRef f, unsigned i) { sx_assert_(i < f->valty->nparams, "LLVMGetParam out of range"); return f->params[i]; }
unsigned LLVMCountParams(LLVMValueRef f) { return f->valty->nparams; }
void LLVMGetParams(LLVMValueRef f, LLVMValueRef *o) { for (unsigned i = 0; i < f->valty->nparams; i++) o[i] = f->params[i]; }
void LLVMSetValueName2(LLVMValueRef v, const char *n, size_t l) {
	if (v->kind != MV_FUNC && v->kind != MV_GLOBAL) return;
	char *t = strndup(n, l); v->name = strdup("");
	v->name = v->mod ? uniq(v->mod, t) : t;
}
void LLVMSetValueName(LLVMValueRef v, const char *n) { LLVMSetValueName2(v, n, strlen(n)); }
LLVMBool LLVMIsDeclaration(LLVMValueRef v) { return v->kind == MV_FUNC ? !v->first : !v->init && !v->is_str; }
const char *LLVMGetValueName2(LLVMValueRef v, size_t *l) { if (l) *l = v->name ? strlen(v->name) : 0; return v->name ? v->name : ""; }
LLVMBasicBlockRef LLVMAppendBasicBlockInContext(LLVMContextRef c, LLVMValueRef f, const char *n) {
	(void)c; (void)n; LLVMBasicBlockRef b = calloc(1, sizeof *b); b->fn = f; b->prev = f->last;
	if (f->last) f->last->next = b; else f->first = b;
	f->last = b; return b;
}
LLVMBasicBlockRef LLVMAppendBasicBlock(LLVMValueRef f, const char *n) { return LLVMAppendBasicBlockInContext(NULL, f, n); }
static void unlink_bb(LLVMBasicBlockRef b) { LLVMValueRef f = b->fn; if (b->prev) b->prev->next = b->next; else f->first = b->next; if (b->next) b->next->prev = b->prev; else f->last = b->prev; b->next = b->prev = NULL; }
void LLVMMoveBasicBlockBefore(LLVMBasicBlockRef b, LLVMBasicBlockRef p) { if (b == p) return; unlink_bb(b); b->fn = p->fn; b->next = p; b->prev = p->prev; if (p->prev) p->prev->next = b; else p->fn->first = b; p->prev = b; }
void LLVMMoveBasicBlockAfter(LLVMBasicBlockRef b, LLVMBasicBlockRef p) { if (b == p) return; unlink_bb(b); b->fn = p->fn; b->prev = p; b->next = p->next; if (p->next) p->next->prev = b; else p->fn->last = b; p->next = b; }
LLVMBasicBlockRef LLVMInsertBasicBlockInContext(LLVMContextRef c, LLVMBasicBlockRef p, const char *n) { LLVMBasicBlockRef b = LLVMAppendBasicBlockInContext(c, p->fn, n); LLVMMoveBasicBlockBefore(b, p); return b; }
void LLVMDeleteBasicBlock(LLVMBasicBlockRef b) { unlink_bb(b); }
LLVMBasicBlockRef LLVMGetEntryBasicBlock(LLVMValueRef f) { return f->first; }
LLVMBasicBlockRef LLVMGetFirstBasicBlock(LLVMValueRef f) { return f->first; }
LLVMBasicBlockRef LLVMGetLastBasicBlock(LLVMValueRef f) { return f->last; }
LLVMBasicBlockRef LLVMGetNextBasicBlock(LLVMBasicBlockRef b) { return b->next; }
unsigned LLVMCountBasicBlocks(LLVMValueRef f) { unsigned n = 0; for (LLVMBasicBlockRef b = f->first; b; b = b->next) n++; return n; }
LLVMValueRef LLVMGetBasicBlockParent(LLVMBasicBlockRef b) { return b->fn; }
LLVMValueRef LLVMGetFirstInstruction(LLVMBasicBlockRef b) { return b->first; }
LLVMValueRef LLVMGetLastInstruction(LLVMBasicBlockRef b) { return b->last; }
LLVMBasicBlockRef LLVMGetInstructionParent(LLVMValueRef i) { return i->parent; }
static bool is_term(LLVMValueRef i) { return i && (i->op == MO_BR || i->op == MO_CONDBR || i->op == MO_RET || i->op == MO_RETVOID || i->op == MO_UNREACHABLE || i->op == MO_SWITCH); }
LLVMValueRef LLVMGetBasicBlockTerminator(LLVMBasicBlockRef b) { return is_term(b->last) ? b->last : NULL; }
LLVMValueRef LLVMIsATerminatorInst(LLVMValueRef i) { return i->kind == MV_INST && is_term(i) ? i : NULL; }

// ---- builder
LLVMBuilderRef LLVMCreateBuilderInContext(LLVMContextRef c) { (void)c; return calloc(1, sizeof(struct LLVMOpaqueBuilder)); }
void LLVMDisposeBuilder(LLVMBuilderRef b) { free(b); }
void LLVMPositionBuilderAtEnd(LLVMBuilderRef b, LLVMBasicBlockRef bb) { sx_assert_(bb != NULL, "builder positioned at a null block"); b->bb = bb; }
LLVMBasicBlockRef LLVMGetInsertBlock(LLVMBuilderRef b) { return b->bb; }
static LLVMValueRef ins(LLVMBuilderRef b, MOp op, LLVMTypeRef t) {
	sx_assert_(b->bb != NULL, "instruction built without an insertion point");
	LLVMValueRef i = mkv(MV_INST, t); i->op = op; i->parent = b->bb;
	if (b->bb->last) b->bb->last->next = i; else b->bb->first = i;
	b->bb->last = i; return i;
}
static void need(LLVMValueRef v) { sx_assert_(v != NULL, "instruction operand is null"); }
static bool konst(LLVMValueRef v) { return v->kind == MV_CINT || v->kind == MV_CREAL; }
bool mllvm_ub;
static uint64_t arith(MOp op, unsigned flags, unsigned w, uint64_t a, uint64_t b);
static uint64_t cmpi(unsigned p, unsigned w, uint64_t a, uint64_t b);
static uint64_t cmpf(unsigned p, uint64_t a, uint64_t b);
static LLVMValueRef bin(LLVMBuilderRef b, MOp op, unsigned fl, LLVMValueRef l, LLVMValueRef r) {
	need(l); need(r);
	if (konst(l) && konst(r) && l->type == r->type) {
		// like IRBuilder, fold constants (never a division or shift that is undefined)
		mllvm_ub = false;
		uint64_t v = arith(op, 0, l->type->width, l->v, r->v);
		if (!sx_possible(mllvm_ub)) { LLVMValueRef c = mkv(l->kind, l->type); c->v = v; return c; }
	}
	LLVMValueRef i = ins(b, op, l->type); i->flags = fl; i->o[0] = l; i->o[1] = r; i->no = 2; return i;
}
#define BIN(N, OP, FL) LLVMValueRef LLVMBuild##N(LLVMBuilderRef b, LLVMValueRef l, LLVMValueRef r, const char *n) { (void)n; return bin(b, OP, FL, l, r); }
BIN(Add, MO_ADD, 0) BIN(NSWAdd, MO_ADD, MF_NSW) BIN(NUWAdd, MO_ADD, MF_NUW) BIN(FAdd, MO_FADD, 0) BIN(Sub, MO_SUB, 0) BIN(NSWSub, MO_SUB, MF_NSW) BIN(NUWSub, MO_SUB, MF_NUW) BIN(FSub, MO_FSUB, 0)
BIN(Mul, MO_MUL, 0) BIN(NSWMul, MO_MUL, MF_NSW) BIN(NUWMul, MO_MUL, MF_NUW) BIN(FMul, MO_FMUL, 0) BIN(UDiv, MO_UDIV, 0) BIN(ExactUDiv, MO_UDIV, MF_EXACT) BIN(SDiv, MO_SDIV, 0) BIN(ExactSDiv, MO_SDIV, MF_EXACT) BIN(FDiv, MO_FDIV, 0)
BIN(URem, MO_UREM, 0) BIN(SRem, MO_SREM, 0) BIN(FRem, MO_FREM, 0) BIN(Shl, MO_SHL, 0) BIN(LShr, MO_LSHR, 0) BIN(AShr, MO_ASHR, 0) BIN(And, MO_AND, 0) BIN(Or, MO_OR, 0) BIN(Xor, MO_XOR, 0)
LLVMValueRef LLVMBuildBinOp(LLVMBuilderRef b, LLVMOpcode op, LLVMValueRef l, LLVMValueRef r, const char *n) {
	(void)n; MOp o;
	switch (op) { case LLVMAdd: o = MO_ADD; break; case LLVMFAdd: o = MO_FADD; break; case LLVMSub: o = MO_SUB; break; case LLVMFSub: o = MO_FSUB; break; case LLVMMul: o = MO_MUL; break; case LLVMFMul: o = MO_FMUL; break; case LLVMUDiv: o = MO_UDIV; break; case LLVMSDiv: o = MO_SDIV; break; case LLVMFDiv: o = MO_FDIV; break; case LLVMURem: o = MO_UREM; break; case LLVMSRem: o = MO_SREM; break; case LLVMFRem: o = MO_FREM; break; case LLVMShl: o = MO_SHL; break; case LLVMLShr: o = MO_LSHR; break; case LLVMAShr: o = MO_ASHR; break; case LLVMAnd: o = MO_AND; break; case LLVMOr: o = MO_OR; break; case LLVMXor: o = MO_XOR; break; default: sx_unmodeled("LLVMBuildBinOp opcode"); }
	return bin(b, o, 0, l, r);
}
LLVMValueRef LLVMBuildNeg(LLVMBuilderRef b, LLVMValueRef v, const char *n) { (void)n; need(v); return bin(b, MO_SUB, 0, cint(v->type, 0), v); }
LLVMValueRef LLVMBuildNSWNeg(LLVMBuilderRef b, LLVMValueRef v, const char *n) { (void)n; need(v); return bin(b, MO_SUB, MF_NSW, cint(v->type, 0), v); }
LLVMValueRef LLVMBuildFNeg(LLVMBuilderRef b, LLVMValueRef v, const char *n) { (void)n; need(v); if (v->kind == MV_CREAL) { LLVMValueRef c = creal(0); c->v = v->v ^ (1ull << 63); return c; } LLVMValueRef i = ins(b, MO_FNEG, v->type); i->o[0] = v; i->no = 1; return i; }
LLVMValueRef LLVMBuildNot(LLVMBuilderRef b, LLVMValueRef v, const char *n) { (void)n; need(v); sx_assert_(v->type->kind == MT_INT, "not of a non-integer"); return bin(b, MO_XOR, 0, v, cint(v->type, ~0ull)); }
LLVMValueRef LLVMBuildICmp(LLVMBuilderRef b, LLVMIntPredicate p, LLVMValueRef l, LLVMValueRef r, const char *n) { (void)n; need(l); need(r); if (konst(l) && konst(r) && l->type == r->type) return cint(&t_i1, cmpi(p, l->type->width, l->v, r->v)); LLVMValueRef i = ins(b, MO_ICMP, &t_i1); i->pred = p; i->o[0] = l; i->o[1] = r; i->no = 2; return i; }
LLVMValueRef LLVMBuildFCmp(LLVMBuilderRef b, LLVMRealPredicate p, LLVMValueRef l, LLVMValueRef r, const char *n) { (void)n; need(l); need(r); if (konst(l) && konst(r) && l->type == r->type) return cint(&t_i1, cmpf(p, l->v, r->v)); LLVMValueRef i = ins(b, MO_FCMP, &t_i1); i->pred = p; i->o[0] = l; i->o[1] = r; i->no = 2; return i; }
LLVMValueRef LLVMBuildSelect(LLVMBuilderRef b, LLVMValueRef c, LLVMValueRef t, LLVMValueRef e, const char *n) { (void)n; LLVMValueRef i = ins(b, MO_SELECT, t->type); i->o[0] = c; i->o[1] = t; i->o[2] = e; i->no = 3; return i; }
LLVMValueRef LLVMBuildPhi(LLVMBuilderRef b, LLVMTypeRef t, const char *n) { (void)n; return ins(b, MO_PHI, t); }
void LLVMAddIncoming(LLVMValueRef p, LLVMValueRef *v, LLVMBasicBlockRef *bb, unsigned n) { for (unsigned i = 0; i < n && p->no < 9; i++) { p->o[p->no++] = v[i]; p->b[p->nb++] = bb[i]; } }
#define CASTOP(N, OP) LLVMValueRef LLVMBuild##N(LLVMBuilderRef b, LLVMValueRef v, LLVMTypeRef t, const char *n) { (void)n; need(v); LLVMValueRef i = ins(b, OP, t); i->o[0] = v; i->no = 1; return i; }
CASTOP(ZExt, MO_ZEXT) CASTOP(SExt, MO_SEXT) CASTOP(Trunc, MO_TRUNC) CASTOP(SIToFP, MO_SITOFP) CASTOP(FPToSI, MO_FPTOSI)
LLVMValueRef LLVMBuildBitCast(LLVMBuilderRef b, LLVMValueRef v, LLVMTypeRef t, const char *n) { (void)n; need(v); if (v->type == t) return v; LLVMValueRef i = ins(b, MO_BITCAST, t); i->o[0] = v; i->no = 1; return i; }
LLVMValueRef LLVMBuildPointerCast(LLVMBuilderRef b, LLVMValueRef v, LLVMTypeRef t, const char *n) { return LLVMBuildBitCast(b, v, t, n); }
LLVMValueRef LLVMBuildAlloca(LLVMBuilderRef b, LLVMTypeRef t, const char *n) { (void)n; sx_assert_(t && t != &t_void, "alloca of void or null type"); LLVMValueRef i = ins(b, MO_ALLOCA, &t_ptr); i->valty = t; return i; }
LLVMValueRef LLVMBuildLoad2(LLVMBuilderRef b, LLVMTypeRef t, LLVMValueRef p, const char *n) { (void)n; need(p); sx_assert_(t != NULL, "load of a null type"); LLVMValueRef i = ins(b, MO_LOAD, t); i->o[0] = p; i->no = 1; return i; }
LLVMValueRef LLVMBuildStore(LLVMBuilderRef b, LLVMValueRef v, LLVMValueRef p) { need(v); need(p); LLVMValueRef i = ins(b, MO_STORE, &t_void); i->o[0] = v; i->o[1] = p; i->no = 2; return i; }
LLVMValueRef LLVMBuildCall2(LLVMBuilderRef b, LLVMTypeRef t, LLVMValueRef f, LLVMValueRef *a, unsigned n, const char *nm) { (void)nm; need(f); sx_assert_(t && t->kind == MT_FUNC, "call with a non-function type"); if (n > 8) sx_unmodeled("call with more than 8 arguments"); LLVMValueRef i = ins(b, MO_CALL, t->ret); i->valty = t; for (unsigned k = 0; k < n; k++) { need(a[k]); i->o[k + 1] = a[k]; } i->o[0] = f; i->no = n + 1; return i; }
LLVMValueRef LLVMBuildBr(LLVMBuilderRef b, LLVMBasicBlockRef t) { sx_assert_(t != NULL, "branch to a null block"); LLVMValueRef i = ins(b, MO_BR, &t_void); i->b[0] = t; i->nb = 1; return i; }
LLVMValueRef LLVMBuildCondBr(LLVMBuilderRef b, LLVMValueRef c, LLVMBasicBlockRef t, LLVMBasicBlockRef e) { need(c); sx_assert_(t && e, "branch to a null block"); LLVMValueRef i = ins(b, MO_CONDBR, &t_void); i->o[0] = c; i->no = 1; i->b[0] = t; i->b[1] = e; i->nb = 2; return i; }
LLVMValueRef LLVMBuildRet(LLVMBuilderRef b, LLVMValueRef v) { if (!v) return NULL; LLVMValueRef i = ins(b, MO_RET, &t_void); i->o[0] = v; i->no = 1; return i; }
LLVMValueRef LLVMBuildRetVoid(LLVMBuilderRef b) { return ins(b, MO_RETVOID, &t_void); }
LLVMValueRef LLVMBuildUnreachable(LLVMBuilderRef b) { return ins(b, MO_UNREACHABLE, &t_void); }
LLVMValueRef LLVMBuildGlobalString(LLVMBuilderRef b, const char *s, const char *n) { (void)n; LLVMValueRef g = mkv(MV_GLOBAL, &t_ptr); g->is_str = true; g->name = strdup(""); g->storage = strdup(s); LLVMModuleRef m = b->bb->fn->mod; LLVMValueRef *e = &m->globals; while (*e) e = &(*e)->nextg; *e = g; return g; }
LLVMValueRef LLVMBuildGlobalStringPtr(LLVMBuilderRef b, const char *s, const char *n) { return LLVMBuildGlobalString(b, s, n); }

// ---- debug information
MMeta *mllvm_meta; MDeclare *mllvm_declares; LLVMValueRef mllvm_cur;
static LLVMMetadataRef md_new(MMetaKind k, const char *n, size_t l, unsigned line, unsigned col, void *scope, void *type) {
	MMeta *m = calloc(1, sizeof *m); m->kind = k; if (l > 23) l = 23; if (n) memcpy(m->name, n, l);
	m->line = line; m->col = col; m->scope = scope; m->type = type; m->next = mllvm_meta; mllvm_meta = m; return (LLVMMetadataRef)m;
}
MMeta *mllvm_subprogram(MMeta *m) { while (m && (m->kind == MD_BLOCK || m->kind == MD_LOC || m->kind == MD_LOCAL || m->kind == MD_PARAM)) m = m->scope; return m && m->kind == MD_FUNC ? m : NULL; }
LLVMMetadataRef LLVMDIBuilderCreateFunction(LLVMDIBuilderRef b, LLVMMetadataRef sc, const char *n, size_t l, const char *ln, size_t ll, LLVMMetadataRef file, unsigned line, LLVMMetadataRef ty, LLVMBool local, LLVMBool def, unsigned sl, LLVMDIFlags fl, LLVMBool opt) { (void)b; (void)ln; (void)ll; (void)file; (void)sl; (void)fl; (void)opt; (void)sc; MMeta *m = (MMeta *)md_new(MD_FUNC, n, l, line, 0, NULL, ty); m->local = local; m->def = def; return (LLVMMetadataRef)m; }
LLVMMetadataRef LLVMDIBuilderCreateLexicalBlock(LLVMDIBuilderRef b, LLVMMetadataRef sc, LLVMMetadataRef file, unsigned line, unsigned col) { (void)b; (void)file; return md_new(MD_BLOCK, NULL, 0, line, col, sc, NULL); }
LLVMMetadataRef LLVMDIBuilderCreateDebugLocation(LLVMContextRef c, unsigned line, unsigned col, LLVMMetadataRef sc, LLVMMetadataRef at) { (void)c; (void)at; return md_new(MD_LOC, NULL, 0, line, col, sc, NULL); }
LLVMMetadataRef LLVMDIBuilderCreateAutoVariable(LLVMDIBuilderRef b, LLVMMetadataRef sc, const char *n, size_t l, LLVMMetadataRef file, unsigned line, LLVMMetadataRef ty, LLVMBool p, LLVMDIFlags fl, uint32_t al) { (void)b; (void)file; (void)p; (void)fl; (void)al; return md_new(MD_LOCAL, n, l, line, 0, sc, ty); }
LLVMMetadataRef LLVMDIBuilderCreateParameterVariable(LLVMDIBuilderRef b, LLVMMetadataRef sc, const char *n, size_t l, unsigned arg, LLVMMetadataRef file, unsigned line, LLVMMetadataRef ty, LLVMBool p, LLVMDIFlags fl) { (void)b; (void)file; (void)p; (void)fl; MMeta *m = (MMeta *)md_new(MD_PARAM, n, l, line, 0, sc, ty); m->arg = arg; return (LLVMMetadataRef)m; }
LLVMMetadataRef LLVMDIBuilderCreateGlobalVariableExpression(LLVMDIBuilderRef b, LLVMMetadataRef sc, const char *n, size_t l, const char *ln, size_t ll, LLVMMetadataRef file, unsigned line, LLVMMetadataRef ty, LLVMBool local, LLVMMetadataRef ex, LLVMMetadataRef d, uint32_t al) { (void)b; (void)sc; (void)ln; (void)ll; (void)file; (void)ex; (void)d; (void)al; MMeta *m = (MMeta *)md_new(MD_GLOBAL, n, l, line, 0, NULL, ty); m->local = local; return (LLVMMetadataRef)m; }
LLVMMetadataRef LLVMDIBuilderCreateBasicType(LLVMDIBuilderRef b, const char *n, size_t l, uint64_t bits, LLVMDWARFTypeEncoding e, LLVMDIFlags fl) { (void)b; (void)bits; (void)e; (void)fl; return md_new(MD_BASIC, n, l, 0, 0, NULL, NULL); }
LLVMMetadataRef LLVMDIBuilderCreatePointerType(LLVMDIBuilderRef b, LLVMMetadataRef to, uint64_t bits, uint32_t al, unsigned as, const char *n, size_t l) { (void)b; (void)bits; (void)al; (void)as; return md_new(MD_PTR, n, l, 0, 0, NULL, to); }
LLVMDbgRecordRef LLVMDIBuilderInsertDeclareRecordAtEnd(LLVMDIBuilderRef b, LLVMValueRef v, LLVMMetadataRef var, LLVMMetadataRef ex, LLVMMetadataRef loc, LLVMBasicBlockRef bb) { (void)b; (void)ex; need(v); MDeclare *d = calloc(1, sizeof *d); *d = (MDeclare){ v, (MMeta *)var, (MMeta *)loc, bb, mllvm_declares }; mllvm_declares = d; return (LLVMDbgRecordRef)d; }
void LLVMInstructionSetDebugLoc(LLVMValueRef v, LLVMMetadataRef l) { need(v); sx_assert_(v->kind == MV_INST, "debug location of something that is not an instruction"); v->dbg = l; }
void LLVMSetSubprogram(LLVMValueRef f, LLVMMetadataRef m) { need(f); f->dbg = m; ((MMeta *)m)->of = f; }
void LLVMGlobalSetMetadata(LLVMValueRef g, unsigned k, LLVMMetadataRef m) { (void)k; need(g); sx_assert_(g->kind == MV_GLOBAL, "metadata of something that is not a global variable"); g->dbg = m; ((MMeta *)m)->of = g; }

// ---- operations
// Undefined results (division by zero, shifts and sums that do not fit their
// flags) are collected in mllvm_ub, without branching on them.
static uint64_t arith(MOp op, unsigned flags, unsigned w, uint64_t a, uint64_t b) {
	uint64_t m = msk(w), bad, r, q; int64_t x = sx64(a, w), y = sx64(b, w);
	bool wide = w == 64;
	switch (op) {
	case MO_ADD: case MO_SUB: case MO_MUL: {
		int64_t t; uint64_t u; bool so, uo;
		if (op == MO_ADD) { so = __builtin_add_overflow(x, y, &t); uo = __builtin_add_overflow(a, b, &u); }
		else if (op == MO_SUB) { so = __builtin_sub_overflow(x, y, &t); uo = __builtin_sub_overflow(a, b, &u); }
		else { so = (flags & MF_NSW) ? __builtin_mul_overflow(x, y, &t) : (t = (int64_t)(a * b), false); uo = (flags & MF_NUW) ? __builtin_mul_overflow(a, b, &u) : false; }
		r = (uint64_t)t & m;
		if (flags & MF_NSW) mllvm_ub |= so | (wide ? false : sx64(r, w) != t);
		if (flags & MF_NUW) mllvm_ub |= wide ? uo : (op == MO_SUB ? a < b : op == MO_ADD ? a + b > m : a * b > m);
		return r; }
	case MO_AND: return a & b; case MO_OR: return a | b; case MO_XOR: return a ^ b;
	case MO_SHL: mllvm_ub |= b >= w; r = (a << (b & 63)) & m;
		if (flags & MF_NSW) mllvm_ub |= (sx64(r, w) >> (b & 63)) != x;
		if (flags & MF_NUW) mllvm_ub |= (r >> (b & 63)) != a;
		return r;
	case MO_LSHR: mllvm_ub |= b >= w; return a >> (b & 63);
	case MO_ASHR: mllvm_ub |= b >= w; return (uint64_t)(x >> (b & 63)) & m;
	case MO_SDIV: case MO_SREM:
		bad = (uint64_t)((y == 0) | ((y == -1) & (x == sx64(1ull << (w - 1), w)))); mllvm_ub |= (bool)bad;
		y = (int64_t)(((uint64_t)y & (bad - 1)) | bad);
		if (op == MO_SREM) return (uint64_t)(x % y) & m;
		q = (uint64_t)(x / y) & m; if (flags & MF_EXACT) mllvm_ub |= x % y != 0;
		return q;
	case MO_UDIV: case MO_UREM:
		bad = b == 0; mllvm_ub |= (bool)bad; b = (b & (bad - 1)) | bad;
		if (op == MO_UREM) return a % b;
		if (flags & MF_EXACT) mllvm_ub |= a % b != 0;
		return a / b;
	case MO_FADD: return U(D(a) + D(b)); case MO_FSUB: return U(D(a) - D(b)); case MO_FMUL: return U(D(a) * D(b)); case MO_FDIV: return U(D(a) / D(b));
	case MO_FREM: { extern double sx_frem(double, double); return U(sx_frem(D(a), D(b))); }
	default: sx_unmodeled("instruction in generated code");
	}
}
static uint64_t cmpi(unsigned p, unsigned w, uint64_t a, uint64_t b) {
	int64_t x = sx64(a, w), y = sx64(b, w);
	switch (p) { case LLVMIntEQ: return a == b; case LLVMIntNE: return a != b; case LLVMIntUGT: return a > b; case LLVMIntUGE: return a >= b; case LLVMIntULT: return a < b; case LLVMIntULE: return a <= b; case LLVMIntSGT: return x > y; case LLVMIntSGE: return x >= y; case LLVMIntSLT: return x < y; default: return x <= y; }
}
static uint64_t cmpf(unsigned p, uint64_t a, uint64_t b) {
	double x = D(a), y = D(b); bool un = x != x || y != y;
	switch (p) {
	case LLVMRealPredicateFalse: return 0; case LLVMRealPredicateTrue: return 1;
	case LLVMRealOEQ: return x == y; case LLVMRealOGT: return x > y; case LLVMRealOGE: return x >= y; case LLVMRealOLT: return x < y; case LLVMRealOLE: return x <= y; case LLVMRealONE: return !un && x != y; case LLVMRealORD: return !un; case LLVMRealUNO: return un;
	case LLVMRealUEQ: return un || x == y; case LLVMRealUGT: return !(x <= y); case LLVMRealUGE: return !(x < y); case LLVMRealULT: return !(x >= y); case LLVMRealULE: return !(x > y); default: return !(x == y);
	}
}

// ---- execution
static unsigned steps;
static MResult call(LLVMValueRef f, unsigned n, const uint64_t *args, unsigned depth);
static MResult trap(const char *w) { return (MResult){ false, true, w, 0 }; }
bool _strcmp(const char *, const char *);
int64_t _int_pow(int64_t, int64_t);
double sx_fpow(double, double);

typedef struct { uint64_t *slots; const uint64_t *args; } Fr;
static uint64_t val(LLVMValueRef v, Fr *fr) {
	switch (v->kind) {
	case MV_CINT: case MV_CREAL: return v->v;
	case MV_CNULL: return 0;
	case MV_GLOBAL: return (uint64_t)v->storage;
	case MV_FUNC: return (uint64_t)v;
	case MV_PARAM: return fr->args[v->idx];
	default: return fr->slots[v->slot];
	}
}
void mllvm_reset_globals(LLVMModuleRef m) {
	for (LLVMValueRef g = m->globals; g; g = g->nextg) if (!g->is_str) { *(uint64_t *)g->storage = g->init ? val(g->init, NULL) : 0; }
}
MResult mllvm_run(LLVMValueRef f, unsigned n, const uint64_t *a) { steps = 0; mllvm_ub = false; return call(f, n, a, 0); }
static MResult call(LLVMValueRef f, unsigned n, const uint64_t *args, unsigned depth) {
	if (depth > 24) return (MResult){ false, false, "call depth", 0 };
	if (!f->first) {
		if (!strcmp(f->name, "_strcmp")) return (MResult){ true, false, NULL, _strcmp((const char *)args[0], (const char *)args[1]) };
		if (!strcmp(f->name, "_int_pow")) return (MResult){ true, false, NULL, (uint64_t)_int_pow((int64_t)args[0], (int64_t)args[1]) };
		if (!strcmp(f->name, "_float_pow")) return (MResult){ true, false, NULL, U(sx_fpow(D(args[0]), D(args[1]))) };
		if (!mllvm_extern) return trap("call of a function without body");
		return (MResult){ true, false, NULL, mllvm_extern(f->name, n, args, f->valty->ret) };
	}
	unsigned ns = 0;
	for (LLVMBasicBlockRef b = f->first; b; b = b->next) for (LLVMValueRef i = b->first; i; i = i->next) i->slot = ns++;
	uint64_t *slots = calloc(ns + 1, 8);
	Fr fr = { slots, args };
	LLVMBasicBlockRef bb = f->first, prev = NULL;
	for (;;) {
		LLVMValueRef i = bb->first; LLVMBasicBlockRef next = NULL;
		for (; i; i = i->next) {
			if (++steps > mllvm_fuel) return (MResult){ false, false, "fuel", 0 };
			uint64_t a = i->no > 0 && i->op != MO_CALL && i->op != MO_PHI ? val(i->o[0], &fr) : 0, b = i->no > 1 && i->op != MO_CALL && i->op != MO_PHI ? val(i->o[1], &fr) : 0;
			unsigned w = i->no && i->o[0]->type ? i->o[0]->type->width : 0; uint64_t r = 0; bool ok = true;
			switch (i->op) {
			case MO_ALLOCA: { uint64_t *c = calloc(1, 8); *c = 0x5a5a5a5a5a5a5a5aull; r = (uint64_t)c; break; }
			case MO_LOAD: if (!a) return trap("load from null"); r = *(uint64_t *)a; if (i->type->kind == MT_INT) r &= msk(i->type->width); break;
			case MO_STORE: if (!b) return trap("store to null"); *(uint64_t *)b = a; break;
			case MO_ICMP: r = cmpi(i->pred, w, a, b); break;
			case MO_FCMP: r = cmpf(i->pred, a, b); break;
			case MO_FNEG: r = a ^ (1ull << 63); break;
			case MO_SELECT: r = a ? b : val(i->o[2], &fr); break;
			case MO_ZEXT: case MO_BITCAST: r = a; break;
			case MO_SEXT: r = (uint64_t)sx64(a, w) & msk(i->type->width); break;
			case MO_TRUNC: r = a & msk(i->type->width); break;
			case MO_SITOFP: r = U((double)sx64(a, w)); break;
			case MO_FPTOSI: r = (uint64_t)(int64_t)D(a); break;
			case MO_PHI: { bool hit = false; for (unsigned k = 0; k < i->nb; k++) if (i->b[k] == prev) { r = val(i->o[k], &fr); hit = true; } if (!hit) return trap("phi without incoming edge"); break; }
			case MO_CALL: {
				uint64_t av[8]; for (unsigned k = 1; k < i->no; k++) av[k - 1] = val(i->o[k], &fr);
				LLVMValueRef callee = i->o[0]; if (callee->kind != MV_FUNC) sx_unmodeled("indirect call in generated code");
				// slots are renumbered on entry: a recursive call needs its own numbering, which is the same for the same function
				mllvm_cur = i;
				MResult m = call(callee, i->no - 1, av, depth + 1); if (!m.ok) return m; r = m.v; break; }
			case MO_BR: next = i->b[0]; break;
			case MO_CONDBR: next = a ? i->b[0] : i->b[1]; break;
			case MO_RET: return (MResult){ true, false, NULL, a };
			case MO_RETVOID: return (MResult){ true, false, NULL, 0 };
			case MO_UNREACHABLE: return trap("unreachable");
			default:
				r = arith(i->op, i->flags, w, a, b);
			}
			slots[i->slot] = r;
			if (next) break;
		}
		if (!next) return trap("block without terminator");
		prev = bb; bb = next;
	}
}

// ---- verification (the rules of LLVM's verifier that apply to this instruction set)
static bool dominated(LLVMValueRef fn, LLVMBasicBlockRef def, LLVMBasicBlockRef use) {
	// is `use` unreachable from the entry when `def` is removed?
	for (LLVMBasicBlockRef b = fn->first; b; b = b->next) b->mark = false;
	if (fn->first == def) return true;
	fn->first->mark = true; bool ch = true;
	while (ch) {
		ch = false;
		for (LLVMBasicBlockRef b = fn->first; b; b = b->next) if (b->mark && b != def && b->last) for (unsigned k = 0; k < b->last->nb; k++) if (is_term(b->last) && !b->last->b[k]->mark) { b->last->b[k]->mark = true; ch = true; }
	}
	return !use->mark || use == def;
}
static bool reachable(LLVMValueRef fn, LLVMBasicBlockRef t) {
	for (LLVMBasicBlockRef b = fn->first; b; b = b->next) b->mark = false;
	fn->first->mark = true; bool ch = true;
	while (ch) { ch = false; for (LLVMBasicBlockRef b = fn->first; b; b = b->next) if (b->mark && is_term(b->last)) for (unsigned k = 0; k < b->last->nb; k++) if (!b->last->b[k]->mark) { b->last->b[k]->mark = true; ch = true; } }
	return t->mark;
}
#define BAD(m) do { *why = (m); return false; } while (0)
bool mllvm_verify(LLVMModuleRef m, const char **why) {
	for (LLVMValueRef g = m->globals; g; g = g->nextg) if (!g->is_str) {
		if (g->init && g->init->type != g->valty) BAD("global initializer has another type than the global");
	}
	for (LLVMValueRef f = m->funcs; f; f = f->nextg) {
		if (!f->first && f->linkage == LLVMPrivateLinkage) BAD("private function without body");
		MMeta *sp = (MMeta *)f->dbg;
		if (sp && f->first) for (LLVMValueRef g = f->nextg; g; g = g->nextg) if (g->dbg == f->dbg) BAD("one debug description attached to two functions");
		if (sp && f->first && !sp->def) BAD("debug description of a declaration attached to a definition");
		for (LLVMBasicBlockRef b = f->first; b; b = b->next) {
			if (!b->first) BAD("empty basic block");
			if (!is_term(b->last)) BAD("basic block without terminator");
			for (LLVMValueRef i = b->first; i; i = i->next) {
				if (is_term(i) && i != b->last) BAD("terminator in the middle of a basic block");
				for (unsigned k = 0; k < i->no; k++) {
					LLVMValueRef o = i->o[k];
					if (!o) BAD("null operand");
					if (o->type == &t_void) BAD("void value used as an operand");
					if (o->kind == MV_PARAM && o->fn != f) BAD("parameter of another function used");
					if (o->kind == MV_INST) {
						if (o->parent->fn != f) BAD("instruction of another function used");
						if (o->parent == b) { bool before = false; for (LLVMValueRef j = b->first; j && j != i; j = j->next) if (j == o) before = true; if (!before && i->op != MO_PHI) BAD("instruction does not dominate its use"); }
						else if (i->op != MO_PHI && reachable(f, b) && !dominated(f, o->parent, b)) BAD("instruction does not dominate its use");
					}
				}
				if (sp && i->dbg && mllvm_subprogram((MMeta *)i->dbg) != sp) BAD("debug location in another function");
				if (sp && !i->dbg && i->op == MO_CALL && i->o[0]->kind == MV_FUNC && i->o[0]->first && i->o[0]->dbg) BAD("call without a debug location between functions that have debug information");
				LLVMTypeRef t0 = i->no ? i->o[0]->type : NULL, t1 = i->no > 1 ? i->o[1]->type : NULL;
				for (unsigned k = 0; k < i->nb; k++) if (i->b[k]->fn != f) BAD("branch to another function's block");
				switch (i->op) {
				case MO_ADD: case MO_SUB: case MO_MUL: case MO_SDIV: case MO_UDIV: case MO_SREM: case MO_UREM: case MO_SHL: case MO_LSHR: case MO_ASHR: case MO_AND: case MO_OR: case MO_XOR:
					if (t0 != t1 || t0->kind != MT_INT) BAD("integer operator on operands of other types"); break;
				case MO_FADD: case MO_FSUB: case MO_FMUL: case MO_FDIV: case MO_FREM: case MO_FCMP: if (t0 != t1 || t0->kind != MT_DOUBLE) BAD("float operator on operands of other types"); break;
				case MO_ICMP: if (t0 != t1 || (t0->kind != MT_INT && t0->kind != MT_PTR)) BAD("integer comparison of operands of other types"); break;
				case MO_LOAD: if (t0->kind != MT_PTR || i->type == &t_void) BAD("load from a non-pointer"); break;
				case MO_STORE: if (t1->kind != MT_PTR) BAD("store to a non-pointer"); break;
				case MO_CONDBR: if (t0 != &t_i1) BAD("branch condition is not i1"); break;
				case MO_RET: if (t0 != f->valty->ret) BAD("return type mismatch"); break;
				case MO_RETVOID: if (f->valty->ret != &t_void) BAD("void return from a function with a result"); break;
				case MO_CALL:
					if (i->o[0]->kind == MV_FUNC && (i->o[0]->first || strcmp(i->o[0]->name, "exit")) /* a program may declare exit() in another way */ && !same_ftype(i->o[0]->valty, i->valty)) BAD("call through another function type");
					if (i->no - 1 != i->valty->nparams) BAD("wrong number of arguments");
					for (unsigned k = 0; k + 1 < i->no; k++) if (i->o[k + 1]->type != i->valty->params[k]) BAD("argument type mismatch");
					break;
				default: break;
				}
			}
		}
	}
	for (MDeclare *d = mllvm_declares; d; d = d->next) if (mllvm_subprogram(d->var) != mllvm_subprogram(d->loc)) BAD("variable and location of a debug record lie in different functions");
	return true;
}
static char *sdup(const char *s) { return strdup(s); }
LLVMBool LLVMVerifyModule(LLVMModuleRef m, LLVMVerifierFailureAction a, char **msg) {
	(void)a; mllvm_module = m; const char *why = NULL; bool ok = mllvm_verify(m, &why);
	if (msg) *msg = sdup(ok ? "" : why);
	if (!ok) { mllvm_verify_failed = 1; mllvm_verify_msg = why; }
	return !ok;
}
LLVMBool LLVMVerifyFunction(LLVMValueRef f, LLVMVerifierFailureAction a) { (void)f; (void)a; return 0; }
void LLVMDisposeMessage(char *m) { free(m); }
void LLVMDisposeErrorMessage(char *m) { free(m); }
static bool cannot_write(const char *n, char **e) { MioFile *x = mio_find(n); if (mllvm_fail_emit || (x && (x->mode == 2 || x->is_dir))) { *e = sdup("cannot write"); return true; } if (strcmp(n, "-")) mio_add(n, "OUTPUT", 6); return false; }
static void emitted(LLVMModuleRef m, const char *n, int k) { mllvm_module = m; mllvm_emitted++; mllvm_emit_kind = k; strncpy(mllvm_emit_name, n, 255); }
char *LLVMPrintModuleToString(LLVMModuleRef m) { emitted(m, "-", 3); return sdup("; module\n"); }
LLVMBool LLVMPrintModuleToFile(LLVMModuleRef m, const char *f, char **e) { if (cannot_write(f, e)) return 1; emitted(m, f, 0); return 0; }
LLVMBool LLVMTargetMachineEmitToFile(LLVMTargetMachineRef t, LLVMModuleRef m, const char *f, LLVMCodeGenFileType k, char **e) { (void)t; if (cannot_write(f, e)) return 1; emitted(m, f, k == LLVMAssemblyFile ? 2 : 1); return 0; }
LLVMErrorRef LLVMRunPasses(LLVMModuleRef m, const char *p, LLVMTargetMachineRef t, LLVMPassBuilderOptionsRef o) { (void)m; (void)t; (void)o; strncpy(mllvm_passes, p, 63); return NULL; }
LLVMPassBuilderOptionsRef LLVMCreatePassBuilderOptions(void) { return (LLVMPassBuilderOptionsRef)calloc(1, 8); }
void LLVMDisposePassBuilderOptions(LLVMPassBuilderOptionsRef o) { free(o); }
char *LLVMGetDefaultTargetTriple(void) { return sdup("x86_64-unknown-linux-gnu"); }
char *LLVMGetHostCPUName(void) { return sdup("generic"); }
char *LLVMGetHostCPUFeatures(void) { return sdup(""); }
static char tgt;
LLVMBool LLVMGetTargetFromTriple(const char *t, LLVMTargetRef *T, char **e) { (void)t; if (mllvm_fail_target) { *e = sdup("no target"); return 1; } *T = (LLVMTargetRef)&tgt; return 0; }
LLVMTargetMachineRef LLVMCreateTargetMachine(LLVMTargetRef T, const char *a, const char *b, const char *c, LLVMCodeGenOptLevel l, LLVMRelocMode r, LLVMCodeModel m) { (void)T; (void)a; (void)b; (void)c; (void)l; (void)r; (void)m; return (LLVMTargetMachineRef)calloc(1, 8); }
void LLVMDisposeTargetMachine(LLVMTargetMachineRef t) { free(t); }
LLVMMemoryBufferRef LLVMCreateMemoryBufferWithMemoryRangeCopy(const char *d, size_t n, const char *nm) { (void)d; (void)n; (void)nm; return (LLVMMemoryBufferRef)calloc(1, 8); }
LLVMBool LLVMParseIRInContext(LLVMContextRef c, LLVMMemoryBufferRef b, LLVMModuleRef *m, char **e) { (void)c; (void)b; (void)e; *m = calloc(1, sizeof **m); return 0; }
LLVMBool LLVMLinkModules2(LLVMModuleRef d, LLVMModuleRef s) { (void)d; (void)s; return 0; }
void LLVMAddTargetDependentFunctionAttr(LLVMValueRef f, const char *a, const char *v) { (void)f; (void)a; (void)v; }
void LLVMAddModuleFlag(LLVMModuleRef m, LLVMModuleFlagBehavior b, const char *k, size_t n, LLVMMetadataRef v) { (void)m; (void)b; (void)k; (void)n; (void)v; }

