// Types of operators: every operator with operands of every type (and every
// kind of operand), the result stored in a variable of every declared type.
#include "ref.h"
static const int T[] = { R_INT, R_FLOAT, R_BOOL, R_RUNE, R_STR, R_INT + R_REF, R_STR + R_REF, R_VOID };
#define NT 8
static const char *vn(int t) { return t == R_INT ? "vi" : t == R_FLOAT ? "vf" : t == R_BOOL ? "vb" : t == R_RUNE ? "vr" : t == R_STR ? "vs" : t == R_INT + R_REF ? "pi" : "ps"; }
static const char *fn(int t) { return t == R_INT ? "ei" : t == R_FLOAT ? "ef" : t == R_BOOL ? "eb" : t == R_RUNE ? "er" : t == R_STR ? "es" : "ev"; }
static RE *opnd(int t) {
	if (t == R_VOID) return e_call("ev", 0, 0, 0, 0);
	if (t >= R_REF) return e_var(vn(t));
	switch (sx_choose(3, "src")) {
	case 0: return e_var(vn(t));
	case 1: return e_call(fn(t), 0, 0, 0, 0);
	default: return t == R_INT ? e_int(7) : t == R_FLOAT ? e_flt("1.5", 1.5) : t == R_BOOL ? e_bool(true) : t == R_RUNE ? e_rune('x') : e_str("s");
	}
}
void harness(void) {
	RS *p = NULL;
	for (int t = R_INT; t <= R_VOID; t++) p = s_then(p, s_func(S_EXTERNAL, fn(t), t, NULL));
	for (int t = R_INT; t <= R_STR; t++) s_then(p, s_def(vn(t), false, 0, e_call(fn(t), 0, 0, 0, 0)));
	s_then(p, s_def("pi", false, 0, e_un(O_REF, e_var("vi"))));
	s_then(p, s_def("ps", false, 0, e_un(O_REF, e_var("vs"))));
	RE *e;
#ifdef PLAIN
	e = opnd(T[sx_choose(NT, "t")]);
#elif defined UN
	OP o = O_NOT + (OP)sx_choose(4, "op");
	RE *r = opnd(T[sx_choose(NT, "t")]);
	if (o == O_REF && r->k == E_INT) sx_stop();
	e = e_un(o, r);
#else
	OP o = (OP)sx_choose(O_NBIN, "op");
	RE *l = opnd(T[sx_choose(NT, "l")]), *r = opnd(T[sx_choose(NT, "r")]);
	e = e_bin(o, l, r);
#endif
	RS *d = s_def("z", false, 0, e);
	s_then(p, d);
	bool typed = ref_check(p);
#ifdef PLAIN
	typed = true;
#endif
	{ RS *q = p; while (q->next != d) q = q->next; q->next = NULL; }
	if (!typed) s_then(p, d); // one context is enough for an ill-typed expression
	else
#ifdef CTX // where the value is used
	switch (sx_choose(6, "use")) {
	case 0: s_then(p, s_def("z", false, T[sx_choose(NT - 1, "z")], e)); break;
	case 1: s_then(p, s_body(S_IF, e, s_e(S_NOOP, NULL))); break;
	case 2: s_then(p, s_body(S_WHILE, e, s_e(S_NOOP, NULL))); break;
	case 3: s_then(p, s_e(S_RETURN, e)); break;
	case 4: { RS *f = s_func(S_EXTERNAL, "g", R_VOID, NULL); s_param(f, "q", T[sx_choose(NT - 1, "q")]); s_then(p, f); s_then(p, s_e(S_EXPR, e_call("g", 1, e, 0, 0))); break; }
	default: { int t = T[sx_choose(5, "m")]; s_then(p, s_def("m", true, 0, e_call(fn(t), 0, 0, 0, 0))); s_then(p, s_set("m", e)); }
	}
#else
	s_then(p, s_def("z", false, sx_choose(2, "annot") ? T[sx_choose(NT - 1, "z")] : 0, e));
#endif
	p_block(p);
	bool ok = ref_check(p);
	int s = hx_llvm();
	if (ok) sx_cover("valid"); else sx_cover("invalid");
	sx_assert_(!ok || s == 0, "a well-typed program is rejected");
	sx_assert_(ok || s != 0, "an ill-typed program is accepted");
	sx_assert_(s == 0 || hx_has("Compilation error"), "rejected without a compilation error");
}
