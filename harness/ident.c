// Names: any text over the alphabet, or any word of the language with a
// character added, removed or changed, is a name exactly when it is a letter
// followed by letters, digits and underscores and not a word of the language;
// a name works as variable, function, parameter and namespace.
#define NCALLS 3
#include "ref.h"
static const char *const words[] = { "if", "elif", "else", "while", "return", "mut", "export", "external", "namespace", "import", "noop", "unreachable", "break", "continue", "true", "false", "and", "or", "xor", "not", "is", "isnt", "mod", "Int", "Float", "Bool", "Rune", "Str", "Void" };
#define NW (sizeof words / sizeof *words)
static char nm[24], qn[28];
static bool isal(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool isdi(int c) { return c >= '0' && c <= '9'; }
void harness(void) {
	unsigned n = 0;
#ifdef WORDS
	strcpy(nm, words[sx_choose(NW, "word")]); n = (unsigned)strlen(nm);
	static const char more[] = "ax_0TI"; char c = more[sx_choose(sizeof more - 1, "char")];
	switch (sx_choose(5, "change")) {
	case 0: break;
	case 1: nm[n++] = c; nm[n] = 0; break;
	case 2: memmove(nm + 1, nm, n + 1); nm[0] = c; n++; break;
	case 3: nm[--n] = 0; break;
	case 4: if (isal(nm[0])) nm[0] ^= 32; break;
	}
#else
	n = 1 + sx_choose(KB, "len");
	static const char alpha[] = "aifsomrxZ_09[`@{^";
	for (unsigned i = 0; i < n; i++) nm[i] = alpha[sx_choose(sizeof alpha - 1, "char")];
	for (unsigned i = 0; i < n; i++) if (nm[i] == '{') sx_stop();
#endif
	bool ok = n > 0 && isal(nm[0]);
	for (unsigned i = 1; i < n; i++) ok &= isal(nm[i]) || isdi(nm[i]) || nm[i] == '_';
	for (unsigned i = 0; i < NW; i++) ok &= strcmp(nm, words[i]) != 0;
	if (!strcmp(nm, "ei") || !strcmp(nm, "ti") || !strcmp(nm, "f") || !strcmp(nm, "o")) sx_stop();
	RS *p = s_func(S_EXTERNAL, "ei", R_INT, NULL); RS *t = s_func(S_EXTERNAL, "ti", R_VOID, NULL); s_param(t, "v", R_INT); s_then(p, t);
	RE *v = e_call("ei", 0, 0, 0, 0); RS *f; const char *use = nm;
	switch (sx_choose(4, "as")) {
	case 0: s_then(p, s_def(nm, true, 0, v)); s_then(p, s_set(nm, e_bin(O_ADD, e_var(nm), e_int(1)))); s_then(p, s_e(S_EXPR, e_call("ti", 1, e_var(use), 0, 0))); break;
	case 1: s_then(p, s_func(S_FUNC, nm, R_INT, s_e(S_RETURN, v))); s_then(p, s_e(S_EXPR, e_call("ti", 1, e_call(use, 0, 0, 0, 0), 0, 0))); break;
	case 2: f = s_func(S_FUNC, "f", R_VOID, s_e(S_EXPR, e_call("ti", 1, e_var(nm), 0, 0))); s_param(f, nm, R_INT); s_then(p, f); s_then(p, s_e(S_EXPR, e_call("f", 1, v, 0, 0))); break;
	default: f = s_body(S_NS, NULL, s_def("o", false, 0, v)); f->name = nm; s_then(p, f); strcpy(qn, nm); strcat(qn, ".o"); s_then(p, s_e(S_EXPR, e_call("ti", 1, e_var(qn), 0, 0)));
	}
	p_block(p);
	if (ok && !ref_check(p)) sx_unmodeled("reference check");
	int r = hx_llvm();
	if (ok) sx_cover("valid"); else sx_cover("invalid");
	sx_assert_(!ok || r == 0, "a name is rejected");
	sx_assert_(ok || r != 0, "something that is not a name is accepted as one");
	if (ok) ref_compare(p);
}
