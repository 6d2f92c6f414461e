// Calls: one function with up to two parameters of any type and any result,
// called with up to three arguments of any type, before or after its
// declaration, at the top level or inside another function.
#include "ref.h"
static const int T[] = { R_INT, R_FLOAT, R_BOOL, R_RUNE, R_STR, R_INT + R_REF, R_FLOAT + R_REF, R_INT + 2 * R_REF };
enum { NT = sizeof T / sizeof *T };
static const char *const V[] = { "vi", "vf", "vb", "vr", "vs", "pi", "pf", "ppi" };
#ifndef MAXP
#define MAXP 2
#endif
static const char *const fn[] = { "ei", "ef", "eb", "er", "es" };
void harness(void) {
	RS *p = NULL;
	for (int t = 0; t < 5; t++) p = s_then(p, s_func(S_EXTERNAL, fn[t], T[t], NULL));
	for (int t = 0; t < 5; t++) s_then(p, s_def(V[t], false, 0, e_call(fn[t], 0, 0, 0, 0)));
	s_then(p, s_def("pi", false, 0, e_un(O_REF, e_var("vi"))));
	s_then(p, s_def("pf", false, 0, e_un(O_REF, e_var("vf"))));
	s_then(p, s_def("ppi", false, 0, e_un(O_REF, e_var("pi"))));
	int np = (int)sx_choose(MAXP + 1, "params"), na = (int)sx_choose(MAXP + 2, "args");
	bool ext = sx_choose(2, "external");
	int ret = sx_choose(2, "result") ? R_INT : R_VOID;
	RS *f = s_func(ext ? S_EXTERNAL : S_FUNC, "f", ret, NULL);
	static const char *const pn[] = { "p", "q" };
	for (int i = 0; i < np; i++) s_param(f, pn[i], T[sx_choose(NT, "pt")]);
	if (!ext) {
		RS *b = s_e(S_NOOP, NULL);
		int r = (int)sx_choose(3, "returns"); // what the function returns: nothing, its first parameter, an Int
		if (r == 1 && np) s_then(b, s_e(S_RETURN, e_var("p")));
		else if (r == 2) s_then(b, s_e(S_RETURN, e_int(1)));
		else if (r == 1) s_then(b, s_e(S_RETURN, NULL));
		f->body = b;
	}
	RE *c = e_call("f", na, 0, 0, 0);
	for (int i = 0; i < na; i++) c->args[i] = np == na || i == 0 ? e_var(V[sx_choose(NT, "at")]) : e_var("vi");
	RS *use = ret == R_VOID ? s_e(S_EXPR, c) : s_def("z", false, sx_choose(2, "annot") ? R_INT : 0, c);
	switch (sx_choose(3, "where")) {
	case 0: s_then(p, f); s_then(p, use); break;
	case 1: s_then(p, use); s_then(p, f); break;
	default: s_then(p, f); s_then(p, s_body(S_IF, e_var("vb"), use)); break;
	}
	p_block(p);
	bool ok = ref_check(p);
	int r = hx_llvm();
	if (ok) sx_cover("valid"); else sx_cover("invalid");
	sx_assert_(!ok || r == 0, "a valid program is rejected");
	sx_assert_(ok || r != 0, "an invalid program is accepted");
	sx_assert_(r == 0 || hx_has("Compilation error"), "rejected without a compilation error");
}
