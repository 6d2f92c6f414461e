// Imports: a name of up to KB symbolic characters, imported by a file in one
// of several directories; the module is there, missing or cannot be opened,
// with files of similar names around.
#define NCALLS 4
#include "ref.h"
static const char *const dirs[] = { "", "d/", "d/e/", "/", "/d/", "../d/" };
static char file[24], mod[24], path[64], decoy[64];
static bool isal(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static MioFile *dir(const char *n) { MioFile *f = mio_add(n, "", 0); f->is_dir = 1; return f; }
void harness(void) {
	const char *d = dirs[sx_choose(sizeof dirs / sizeof *dirs, "dir")];
	strcpy(file, d); strcat(file, "a.sk"); hx_file = file;
	unsigned n = 1 + sx_choose(KB, "len"); bool name = true;
	static const char alpha[] = "bZzA_019-+\"'[@`";
	for (unsigned i = 0; i < n; i++) { mod[i] = alpha[sx_choose(sizeof alpha - 1, "char")]; name &= isal(mod[i]) || (i && (mod[i] == '_' || (mod[i] >= '0' && mod[i] <= '9'))); }
	// directories
	dir("."); dir("d"); dir("d/e"); dir("/"); dir("/d"); dir("../d");
	// the module
	unsigned state = sx_choose(3, "module"); // there, missing, not readable
	strcpy(path, d); strcat(path, mod); strcat(path, ".sk");
	if (state != 1) mio_add(path, "", 0)->mode = state;
	// others that are not it
	unsigned k = sx_choose(4, "others");
	if (k) {
		strcpy(decoy, k == 1 ? (*d ? "" : "d/") : d); strcat(decoy, mod);
		strcat(decoy, k == 1 ? ".sk" : k == 2 ? "" : ".skk");
		if (!mio_find(decoy)) mio_add(decoy, "", 0);
	}
	unsigned where = sx_choose(4, "where"); // first, between, last, in a function
	RS *p = s_func(S_EXTERNAL, "ei", R_INT, NULL); RS *t = s_func(S_EXTERNAL, "ti", R_VOID, NULL); s_param(t, "v", R_INT); s_then(p, t);
	RS *q = s_def("x", false, 0, e_call("ei", 0, 0, 0, 0)); s_then(q, s_e(S_EXPR, e_call("ti", 1, e_var("x"), 0, 0)));
	RS *f = s_func(S_FUNC, "f", R_VOID, s_e(S_EXPR, e_call("ti", 1, e_int(3), 0, 0)));
	if (where == 0) { hx_s("import "); hx_s(mod); hx_c('\n'); }
	p_block(p);
	if (where == 1) { hx_s("import "); hx_s(mod); hx_c('\n'); }
	p_block(q);
	if (where == 2) { hx_s("import "); hx_s(mod); hx_c('\n'); }
	if (where == 3) { hx_s("f() {\nimport "); hx_s(mod); hx_s("\nti(3)\n}\nf()\n"); s_then(q, f); s_then(q, s_e(S_EXPR, e_call("f", 0, 0, 0, 0))); }
	s_then(p, q);
	if (!ref_check(p)) sx_unmodeled("reference check");
	int nf = mio_nfiles;
	int r = hx_llvm();
	bool ok = name && state == 0;
	sx_assert_(!ok || r == 0, "a valid import is rejected");
	sx_assert_(ok || r != 0, name ? "a module that cannot be opened is imported" : "something that is not a name is imported");
	if (!ok) {
		sx_assert_(hx_has("Compilation error"), "rejected without a compilation error");
		if (name) { char w[40]; strcpy(w, "\""); strcat(w, mod); strcat(w, "\""); sx_assert_(hx_has(w), "the error does not name the module"); sx_cover("missing"); }
		else sx_cover("noname");
		return;
	}
	(void)nf; sx_assert_(!mio_find(path)->written, "the module was written to");
	sx_cover("imported");
	ref_compare(p);
}
