// Control flow: every program of up to NS statements (nested up to DEPTH) of
// the kinds below. ACCEPT: the compiler accepts exactly the valid ones.
// RUN: the generated code does what the source says, for all results of the
// external calls.
#include "ref.h"
#ifndef DEPTH
#define DEPTH 3
#endif
#ifndef WRAP
#define WRAP 0 // 0: top level, 1: body of a function, 2: body of a void function
#endif
static int left = NS, tcount;
static RE *cond(void) {
#ifdef CONDS
	switch (sx_choose(3, "cond")) { case 1: return e_bin(O_LT, e_var("x"), e_int(2)); case 2: return e_bool(true); }
#endif
	return e_call("c", 0, 0, 0, 0);
}
static RS *gen_block(int depth, bool loop);
static RS *gen_stmt(int depth, bool loop) {
	left--;
	enum { K_T, K_INC, K_IF, K_WHILE, K_ELIF, K_ELSE, K_BREAK, K_CONTINUE, K_RETURN, K_UNREACH, K_NOOP, K_RETBARE, K_DEF };
	static const int kinds[] = { KINDS };
	int k = kinds[sx_choose(sizeof kinds / sizeof *kinds, "stmt")];
	switch (k) {
	case K_T: return s_e(S_EXPR, e_call("t", 1, e_int(++tcount), 0, 0));
	case K_INC: return s_set("x", e_bin(O_ADD, e_var("x"), e_int(1)));
	case K_IF: case K_WHILE: case K_ELIF: {
		if (!depth || !left) sx_stop();
		RE *c = cond(); return s_body(k == K_IF ? S_IF : k == K_WHILE ? S_WHILE : S_ELIF, c, gen_block(depth - 1, loop || k == K_WHILE)); }
	case K_ELSE: if (!depth || !left) sx_stop(); return s_body(S_ELSE, NULL, gen_block(depth - 1, loop));
	case K_BREAK: return s_e(S_BREAK, NULL);
	case K_CONTINUE: return s_e(S_CONTINUE, NULL);
	case K_RETURN: return s_e(S_RETURN, WRAP == 2 ? NULL : e_var("x"));
	case K_RETBARE: return s_e(S_RETURN, WRAP == 2 ? e_var("x") : NULL);
	case K_UNREACH: return s_e(S_UNREACHABLE, NULL);
	case K_DEF: return s_def("y", false, 0, e_var("x"));
	default: return s_e(S_NOOP, NULL);
	}
}
static RS *gen_block(int depth, bool loop) {
	RS *first = gen_stmt(depth, loop), *last = first;
	while (left && sx_choose(2, "more")) {
		RS *s = gen_stmt(depth, loop);
#ifdef COMMENTS // up to two comments inside an if chain, one before and after other statements
		for (int n = (int)sx_choose(s->k == S_ELSE || s->k == S_ELIF ? 3 : 2, "comments"); n > 0; n--) { last->next = rs_new(S_COMMENT); last = last->next; }
#endif
		last->next = s; last = s;
	}
#ifdef COMMENTS
	if (sx_choose(2, "comments")) last->next = rs_new(S_COMMENT);
#endif
	return first;
}
void harness(void) {
	RS *t = s_func(S_EXTERNAL, "t", R_VOID, NULL); s_param(t, "v", R_INT);
	RS *p = s_then(t, s_func(S_EXTERNAL, "c", R_BOOL, NULL));
	s_then(p, s_def("x", true, 0, e_int(0)));
	RS *b = gen_block(DEPTH, false);
#if WRAP
	RS *f = s_func(S_FUNC, "f", WRAP == 1 ? R_INT : R_VOID, b);
#ifdef RUN
	if (WRAP == 1) s_then(b, s_e(S_RETURN, e_int(7)));
#endif
	s_then(p, f);
	s_then(p, s_e(S_EXPR, e_call("f", 0, 0, 0, 0)));
#else
	s_then(p, b);
#endif
#if defined(RUN) && WRAP
	s_then(p, s_e(S_EXPR, e_call("t", 1, e_var("x"), 0, 0)));
#endif
	p_block(p);
	bool ok = ref_check(p);
#ifdef RUN
	if (!ok) sx_stop();
#endif
	int r = hx_llvm();
#ifdef ACCEPT
	if (ok) sx_cover("valid"); else sx_cover("invalid");
	sx_assert_(!ok || r == 0, "a valid program is rejected");
	sx_assert_(ok || r != 0, "an invalid program is accepted");
	sx_assert_(r == 0 || hx_has("Compilation error"), "rejected without a compilation error");
#endif
#ifdef RUN
	if (r) sx_stop(); // other properties decide what is accepted
	ref_compare(p);
#endif
}
