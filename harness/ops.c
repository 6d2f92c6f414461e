// One operator (or a small tree of them) over operands of every kind and every
// value: the generated code computes what the operator means.
#ifndef NCALLS
#define NCALLS 14
#endif
#include "ref.h"
#ifndef SRCS
#define SRCS 6
#endif
static RS *prog, *pre, *in_f; static int nv; static bool infunc;
static char nm[8][4];
static const char *fresh(char c) { char *s = nm[nv++]; s[0] = c; s[1] = (char)('0' + nv); s[2] = 0; return s; }
static const char *ext_of(int t) { return t == R_INT ? "ei" : t == R_FLOAT ? "ef" : t == R_BOOL ? "eb" : t == R_RUNE ? "er" : "es"; }
static const char *sink_of(int t) { return t == R_INT ? "ti" : t == R_FLOAT ? "tf" : t == R_BOOL ? "tb" : t == R_RUNE ? "tr" : "ts"; }
static RE *lit(int t) {
	switch (t) {
	case R_INT: return e_int((int64_t[]){ 3, 1, 64, -2 }[sx_choose(4, "lit")]);
	case R_FLOAT: return sx_choose(2, "lit") ? e_flt("2.5", 2.5) : e_flt("0.0", 0.0);
	case R_BOOL: return e_bool(sx_choose(2, "lit"));
	case R_RUNE: return e_rune('x');
	default: return sx_choose(2, "lit") ? e_str("ab") : e_str("");
	}
}
static RE *call_ext(int t) { return e_call(ext_of(t), 0, 0, 0, 0); }
static void add_pre(RS *s) { pre = s_then(pre, s); }
static RE *operand(int t) {
	const char *n;
	switch (sx_choose(SRCS, "operand")) {
	case 0: n = fresh('v'); add_pre(s_def(n, false, 0, call_ext(t))); return e_var(n);
	case 1: return lit(t);
	case 2: n = fresh('m'); add_pre(s_def(n, true, 0, lit(t))); add_pre(s_set(n, call_ext(t))); return e_var(n);
	case 3: return call_ext(t);
	case 4: n = fresh('q'); add_pre(s_def(n, false, t, call_ext(t))); { const char *r = fresh('r'); add_pre(s_def(r, false, 0, e_un(O_REF, e_var(n)))); return e_un(O_DEREF, e_var(r)); }
	default: n = fresh('c'); add_pre(s_def(n, false, 0, lit(t))); return e_var(n);
	}
}
static int res_ty(OP o, int t) { return o >= O_IS ? R_BOOL : t; }
static RE *gen(int depth, int want) {
	if (!depth) return operand(want);
	static const OP arith[] = { O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_POW, O_SHL, O_SHR }, logic[] = { O_AND, O_OR, O_XOR, O_IS, O_ISNT, O_LT, O_LE, O_GT, O_GE };
	if (want == R_INT) {
		int k = (int)sx_choose(9, "op"); if (k == 8) return e_un(O_NEG, gen(depth - 1, R_INT));
		RE *l = gen(depth - 1, R_INT); return e_bin(arith[k], l, operand(R_INT)); }
	if (want == R_FLOAT) {
		int k = (int)sx_choose(7, "op"); if (k == 6) return e_un(O_NEG, gen(depth - 1, R_FLOAT));
		RE *l = gen(depth - 1, R_FLOAT); return e_bin(arith[k], l, operand(R_FLOAT)); }
	int k = (int)sx_choose(10, "op"); if (k == 9) return e_un(O_NOT, gen(depth - 1, R_BOOL));
	int t = k < 3 ? R_BOOL : k < 5 ? R_INT + (int)sx_choose(5, "cmp") : R_INT + (int)sx_choose(2, "cmp");
	if (depth > 1 && (t == R_RUNE || t == R_STR)) sx_stop();
	RE *l = gen(depth - 1, t); return e_bin(logic[k], l, operand(t));
}
static RS *ext(const char *n, int ret, int par) { RS *f = s_func(S_EXTERNAL, n, ret, NULL); if (par) s_param(f, "v", par); return f; }
void harness(void) {
	int want = WANT;
	RE *e = gen(TREE, want);
	prog = NULL;
	for (int t = R_INT; t <= R_STR; t++) prog = s_then(prog, ext(ext_of(t), t, 0));
	for (int t = R_INT; t <= R_STR; t++) prog = s_then(prog, ext(sink_of(t), R_VOID, t));
	RS *use = s_e(S_EXPR, e_call(sink_of(want), 1, e, 0, 0));
	RS *body = s_then(pre, use);
#ifdef USES
	switch (sx_choose(want == R_BOOL ? 4 : want == R_INT ? 4 : 3, "use")) {
	case 1: body = s_then(pre == body ? pre : pre, NULL); break;
	}
#endif
#ifdef INFUNC
	prog = s_then(prog, s_func(S_FUNC, "f", R_VOID, body));
	prog = s_then(prog, s_e(S_EXPR, e_call("f", 0, 0, 0, 0)));
#else
	prog = s_then(prog, body);
#endif
	p_block(prog);
	bool ok = ref_check(prog);
	if (!ok) sx_stop();
	int r = hx_llvm();
	sx_assert_(r == 0, "a valid expression is rejected");
	ref_compare(prog);
}
