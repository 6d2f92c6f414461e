// A model of the LLVM-C API: the compiler under test builds its module through
// it, and harnesses check the module and execute it on (symbolic) values.
#pragma once
#include <stdbool.h>
#include <stdint.h>
#include <llvm-c/Core.h>

typedef enum { MT_VOID, MT_INT, MT_DOUBLE, MT_PTR, MT_FUNC, MT_LABEL } MTypeKind;
struct LLVMOpaqueType { MTypeKind kind; unsigned width; LLVMTypeRef ret; LLVMTypeRef params[8]; unsigned nparams; };
typedef enum { MV_CINT, MV_CREAL, MV_CNULL, MV_GLOBAL, MV_FUNC, MV_PARAM, MV_INST, MV_CEXPR } MValKind;
typedef enum {
	MO_ADD = 1, MO_SUB, MO_MUL, MO_SDIV, MO_UDIV, MO_SREM, MO_UREM, MO_SHL, MO_LSHR, MO_ASHR, MO_AND, MO_OR, MO_XOR,
	MO_FADD, MO_FSUB, MO_FMUL, MO_FDIV, MO_FREM, MO_FNEG, MO_ICMP, MO_FCMP, MO_ALLOCA, MO_LOAD, MO_STORE, MO_CALL,
	MO_BR, MO_CONDBR, MO_RET, MO_RETVOID, MO_UNREACHABLE, MO_SELECT, MO_PHI, MO_ZEXT, MO_SEXT, MO_TRUNC, MO_SITOFP, MO_FPTOSI, MO_BITCAST, MO_SWITCH,
} MOp;
enum { MF_NSW = 1, MF_NUW = 2, MF_EXACT = 4 };
struct LLVMOpaqueValue {
	MValKind kind; LLVMTypeRef type; uint64_t v; // constants, addresses of globals
	MOp op; unsigned flags, pred; LLVMValueRef o[9]; unsigned no; LLVMBasicBlockRef b[9]; unsigned nb;
	LLVMBasicBlockRef parent; LLVMValueRef next; // instruction list
	char *name; unsigned linkage; LLVMTypeRef valty; // functions: function type; globals: value type
	LLVMValueRef init; void *storage; bool is_str;
	LLVMBasicBlockRef first, last; LLVMValueRef params[8]; LLVMModuleRef mod; LLVMValueRef nextg; // globals and functions
	LLVMValueRef fn; unsigned idx; // params: function and position
	unsigned slot; bool builtin;
	LLVMMetadataRef dbg; // debug location, or the description of a function or global
};
struct LLVMOpaqueBasicBlock { LLVMValueRef fn; LLVMValueRef first, last; LLVMBasicBlockRef next, prev; char *name; unsigned num; bool mark; };
// Debug information
typedef enum { MD_OTHER, MD_FUNC = 1, MD_BLOCK, MD_LOC, MD_LOCAL, MD_PARAM, MD_GLOBAL, MD_BASIC, MD_PTR } MMetaKind;
typedef struct MMeta { MMetaKind kind; char name[24]; unsigned line, col, arg; struct MMeta *scope, *type; bool local, def; LLVMValueRef of; struct MMeta *next; } MMeta;
extern MMeta *mllvm_meta; // all of them, the newest first
typedef struct MDeclare { LLVMValueRef v; MMeta *var, *loc; LLVMBasicBlockRef b; struct MDeclare *next; } MDeclare;
extern MDeclare *mllvm_declares;
MMeta *mllvm_subprogram(MMeta *m); // the function a scope or location lies in
extern LLVMValueRef mllvm_cur;     // the call being executed
struct LLVMOpaqueModule { LLVMValueRef funcs, globals; unsigned serial; char *name; bool disposed; };

extern LLVMModuleRef mllvm_module;       // last module written out or verified
extern int mllvm_verify_failed; extern const char *mllvm_verify_msg;
extern int mllvm_emitted;                // number of times a module was emitted
extern char mllvm_emit_name[256]; extern int mllvm_emit_kind; // 0 ll file, 1 object, 2 assembly, 3 ll string
extern char mllvm_passes[64];
extern int mllvm_fail_emit, mllvm_fail_target;

// Execution of a module.
typedef struct { bool ok; bool trap; const char *why; uint64_t v; } MResult;
typedef uint64_t (*MExtern)(const char *name, unsigned n, const uint64_t *args, LLVMTypeRef ret);
extern MExtern mllvm_extern;             // called for functions without a body
extern bool mllvm_ub; // the last run had an undefined result
extern unsigned mllvm_fuel;              // instruction budget
void mllvm_reset_globals(LLVMModuleRef m); // set every global to its initializer
LLVMValueRef mllvm_find(LLVMModuleRef m, const char *name);
MResult mllvm_run(LLVMValueRef fn, unsigned n, const uint64_t *args);
bool mllvm_verify(LLVMModuleRef m, const char **why);
