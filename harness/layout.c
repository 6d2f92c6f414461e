// Whole programs that use every construct, printed with up to LAYOUT places
// laid out in another way: they are accepted and do the same.
#define NCALLS 6
#include "ref.h"
#ifndef PROG
#define PROG sx_choose(4, "program")
#endif
static RE *ei(void) { return e_call("ei", 0, 0, 0, 0); }
static RE *eb(void) { return e_call("eb", 0, 0, 0, 0); }
static RS *ti(RE *e) { return s_e(S_EXPR, e_call("ti", 1, e, 0, 0)); }
void harness(void) {
	RS *p = s_func(S_EXTERNAL, "ei", R_INT, NULL); s_then(p, s_func(S_EXTERNAL, "eb", R_BOOL, NULL));
	RS *t = s_func(S_EXTERNAL, "ti", R_VOID, NULL); s_param(t, "v", R_INT); s_then(p, t);
	RS *b, *f;
	switch (PROG) {
	case 0: // variables and operators
		s_then(p, s_def("x", true, 0, ei()));
		s_then(p, s_def("b", false, R_BOOL, e_bin(O_LT, e_var("x"), e_int(2))));
		s_then(p, s_def("p", false, 0, e_un(O_REF, e_var("x"))));
		s_then(p, s_set("x", e_bin(O_SHL, e_var("x"), e_int(1))));
		s_then(p, s_def("d", false, 0, e_bin(O_AND, e_un(O_NOT, e_var("b")), e_bin(O_IS, e_str("q # { "), e_str("q"))))); 
		s_then(p, s_body(S_IF, e_bin(O_OR, e_var("d"), e_bin(O_ISNT, e_rune('#'), e_rune('{'))), ti(e_bin(O_ADD, e_un(O_DEREF, e_var("p")), e_int(-1)))));
		break;
	case 1: // functions
		f = s_func(S_FUNC, "f", R_INT, NULL); s_param(f, "a", R_INT); s_param(f, "b", R_BOOL);
		f->body = s_body(S_IF, e_var("b"), s_e(S_RETURN, e_un(O_NEG, e_var("a"))));
		s_then(f->body, s_e(S_RETURN, e_bin(O_MUL, e_var("a"), e_int(2))));
		s_then(p, f);
		f = s_func(S_FUNC, "g", R_VOID, s_e(S_RETURN, NULL)); f->exp = true; s_then(p, f);
		s_then(p, s_e(S_EXPR, e_call("g", 0, 0, 0, 0)));
		s_then(p, ti(e_call("f", 2, ei(), eb(), 0)));
		s_then(p, s_e(S_RETURN, e_int(3)));
		break;
	case 2: // flow
		s_then(p, s_def("k", true, 0, e_int(0)));
		b = s_set("k", e_bin(O_ADD, e_var("k"), e_int(1)));
		s_then(b, s_body(S_IF, eb(), s_e(S_BREAK, NULL))); s_then(b, s_body(S_ELIF, e_bin(O_GE, e_var("k"), e_int(1)), s_then(ti(e_var("k")), s_e(S_CONTINUE, NULL)))); s_then(b, s_body(S_ELSE, NULL, s_e(S_NOOP, NULL)));
		s_then(p, s_body(S_WHILE, eb(), b));
		s_then(p, ti(e_var("k")));
		break;
	default: // namespaces, aliases and exports
		b = s_def("v", true, 0, ei()); s_then(b, s_func(S_FUNC, "h", R_INT, s_e(S_RETURN, e_var("v"))));
		b = s_body(S_NS, NULL, b); b->name = "n"; s_then(p, b);
		b = rs_new(S_ALIAS); b->name = "Num"; b->annot = R_INT; s_then(p, b);
		b = s_def("e", false, t_named("Num"), e_call("n.h", 0, 0, 0, 0)); b->exp = true; b->annot = 0; s_then(p, b);
		s_then(p, s_def("w", false, t_named("Num"), e_bin(O_SUB, e_var("n.v"), e_var("e"))));
		s_then(p, s_set("n.v", e_int(4)));
		s_then(p, ti(e_var("w"))); s_then(p, ti(e_call("n.h", 0, 0, 0, 0)));
	}
	p_block(p);
	if (!ref_check(p)) sx_unmodeled("reference check");
	sx_assert_(hx_llvm() == 0, "a program is rejected because of its layout");
	ref_compare(p);
}
