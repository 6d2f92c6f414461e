// Grouping of operators: expressions of NOPS binary operators, with optional
// unary operators and one parenthesised range, over variables of symbolic
// value. The reference groups them by the documented precedence table; the
// compiler must accept exactly the well-typed ones and compute the same value.
#define NCALLS 10
#include "ref.h"
#ifndef BINOPS
#define BINOPS O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_POW, O_SHL, O_SHR, O_IS, O_ISNT, O_LT, O_LE, O_GT, O_GE, O_AND, O_OR, O_XOR
#endif
typedef enum { T_VAL, T_BIN, T_UN, T_OPEN, T_CLOSE } TK_;
static struct { TK_ k; OP op; RE *e; } tk[32]; static int ntk, tp;
static void put(TK_ k, OP op, RE *e) { tk[ntk].k = k; tk[ntk].op = op; tk[ntk++].e = e; }
static RE *climb(int max);
static RE *operand(void) {
	if (tk[tp].k == T_UN) { OP o = tk[tp++].op; return e_un(o, climb(3)); }
	if (tk[tp].k == T_OPEN) { tp++; RE *e = climb(99); tp++; return e; }
	return tk[tp++].e;
}
// operators binding at least as tightly as `max` - 1 ... parsed left to right
static RE *climb(int max) {
	RE *l = operand();
	while (tp < ntk && tk[tp].k == T_BIN && op_prec[tk[tp].op] < max) {
		OP o = tk[tp++].op;
		l = e_bin(o, l, climb(op_prec[o]));
	}
	return l;
}
static const char *const iname[] = { "a", "b", "c", "d" }, *const bname[] = { "p", "q", "r", "s" };
void harness(void) {
	static const int ops[] = { BINOPS };
	int ty[NOPS + 1], un[NOPS + 1], op[NOPS];
	for (int i = 0; i < NOPS; i++) op[i] = ops[sx_choose(sizeof ops / sizeof *ops, "op")];
	for (int i = 0; i <= NOPS; i++) {
#ifdef INTS
		ty[i] = 0;
#else
		ty[i] = (int)sx_choose(2, "ty");
#endif
#ifdef UNARY
		un[i] = (int)sx_choose(2, "un");
#else
		un[i] = 0;
#endif
	}
	int po = -1, pc = -1;
#ifdef PARENS
	po = (int)sx_choose(NOPS, "open"); pc = po + 1 + (int)sx_choose((uint32_t)(NOPS - po), "close");
	if (po == 0 && pc == NOPS) sx_stop();
#endif
	RS *p = s_func(S_EXTERNAL, "ei", R_INT, NULL);
	s_then(p, s_func(S_EXTERNAL, "eb", R_BOOL, NULL));
	RS *ti = s_func(S_EXTERNAL, "ti", R_VOID, NULL); s_param(ti, "v", R_INT); s_then(p, ti);
	RS *tb = s_func(S_EXTERNAL, "tb", R_VOID, NULL); s_param(tb, "v", R_BOOL); s_then(p, tb);
	for (int i = 0; i <= NOPS; i++) s_then(p, s_def(ty[i] ? bname[i] : iname[i], false, 0, e_call(ty[i] ? "eb" : "ei", 0, 0, 0, 0)));
	p_block(p);
	for (int i = 0; i <= NOPS; i++) {
		if (i) put(T_BIN, op[i - 1], NULL);
		if (i == po) put(T_OPEN, 0, NULL);
		if (un[i]) put(T_UN, ty[i] ? O_NOT : O_NEG, NULL);
		put(T_VAL, 0, e_var(ty[i] ? bname[i] : iname[i]));
		if (i == pc) put(T_CLOSE, 0, NULL);
	}
	tp = 0; RE *e = climb(99);
	if (tp != ntk) sx_unmodeled("reference parser");
	bool ok = ref_check(p);
	// the type of the expression, in the scope of the declarations
	bool tok = c_expr(e);
	bool isint = !tok || e->ty == R_INT;
	hx_s("z := ");
	for (int i = 0; i < ntk; i++) {
		switch (tk[i].k) {
		case T_VAL: hx_s(tk[i].e->name); break;
		case T_BIN: hx_c(' '); hx_s(op_text[tk[i].op]); hx_c(' '); break;
		case T_UN: hx_s(op_text[tk[i].op]); break;
		case T_OPEN: hx_c('('); break;
		default: hx_c(')');
		}
	}
	hx_c('\n');
	hx_s(isint ? "ti(z)\n" : "tb(z)\n");
	int r = hx_llvm();
	sx_assert_(!tok || r == 0, "a well-typed expression is rejected");
	sx_assert_(tok || r != 0, "an ill-typed grouping is accepted");
	if (!tok) { sx_cover("illtyped"); return; }
	s_then(p, s_def("z", false, 0, e));
	s_then(p, s_e(S_EXPR, e_call(isint ? "ti" : "tb", 1, e_var("z"), 0, 0)));
	if (!ref_check(p)) sx_unmodeled("reference check");
	ref_compare(p);
}
