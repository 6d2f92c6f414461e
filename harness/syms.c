// Symbols of the module: ND declarations of any kind with any name, also ones
// of the run-time system, each used once. What is visible from outside is
// exactly the entry function, the exports and the external functions, and an
// executable runs the program and exits with its value.
#define NCALLS 8
#include "ref.h"
static const char *const names[] = { NAMES };
enum { NN = sizeof names / sizeof *names };
enum { K_EXTERNAL, K_FUNC, K_EXPFUNC, K_VAR, K_MUT, K_EXPVAR, K_NSFUNC, K_NSVAR, K_INNER, NK };
static char buf[16][16]; static int nbuf;
static const char *cat(const char *a, const char *b) { if (nbuf == 16) sx_unmodeled("names"); char *s = buf[nbuf++]; strcpy(s, a); strcat(s, b); return s; }
static uint64_t start_extern(const char *name, unsigned n, const uint64_t *a, LLVMTypeRef ret) { return gen_extern(name, n, a, ret); }
void harness(void) {
	RS *p = s_func(S_EXTERNAL, "ei", R_INT, NULL), *t = s_func(S_EXTERNAL, "ti", R_VOID, NULL); s_param(t, "v", R_INT); s_then(p, t);
	RS *uses = NULL;
	const char *vis[ND]; bool fn[ND]; int nvis = 0;
	for (int i = 0; i < ND; i++) {
		const char *n = names[sx_choose(NN, "name")], *ns = i ? "n" : "m"; RS *d;
		RS *b = s_e(S_EXPR, e_call("ti", 1, e_int(100 + i), 0, 0)); int k = (int)sx_choose(NK, "kind");
		switch (k) {
		case K_EXTERNAL: d = s_func(S_EXTERNAL, n, R_VOID, NULL); fn[nvis] = true; vis[nvis++] = n; break;
		case K_FUNC: case K_NSFUNC: d = s_func(S_FUNC, n, R_VOID, b); break;
		case K_EXPFUNC: d = s_func(S_FUNC, n, R_VOID, b); d->exp = true; fn[nvis] = true; vis[nvis++] = cat("a.", n); break;
		case K_MUT: d = s_def(n, true, 0, e_int(i)); break;
		case K_EXPVAR: d = s_def(n, false, 0, e_call("ei", 0, 0, 0, 0)); d->exp = true; fn[nvis] = false; vis[nvis++] = cat("a.", n); break;
		case K_INNER: d = s_func(S_FUNC, n, R_VOID, b); b = s_body(S_IF, e_bin(O_IS, e_call("ei", 0, 0, 0, 0), e_int(1)), s_then(d, s_e(S_EXPR, e_call(n, 0, 0, 0, 0)))); d = b; break;
		default: d = s_def(n, false, 0, e_call("ei", 0, 0, 0, 0)); break;
		}
		const char *u = n;
		if (k == K_NSFUNC || k == K_NSVAR) { RS *s = s_body(S_NS, NULL, d); s->name = ns; d = s; u = cat(cat(ns, "."), n); }
		s_then(p, d);
		if (k == K_INNER) continue;
		uses = s_then(uses, k == K_VAR || k == K_MUT || k == K_EXPVAR || k == K_NSVAR ? s_e(S_EXPR, e_call("ti", 1, e_var(u), 0, 0)) : s_e(S_EXPR, e_call(u, 0, 0, 0, 0)));
	}
	s_then(p, uses); s_then(p, s_e(S_RETURN, e_call("ei", 0, 0, 0, 0)));
	p_block(p);
	if (!ref_check(p)) sx_stop();
	bool exe = sx_choose(2, "executable");
	mio_in_child = 0;
	int r = hx_compile(exe ? "-q" : "-c", NULL, NULL);
	sx_assert_(r == 0, "a valid program is rejected");
	// visible symbols
	for (LLVMValueRef f = mllvm_module->funcs; f; f = f->nextg) {
		if (f->linkage == LLVMPrivateLinkage || f->linkage == LLVMInternalLinkage) { sx_assert_(f->first != NULL, "a private function has no body"); continue; }
		bool known = name_eq(f->name, ".a") || name_eq(f->name, "ei") || name_eq(f->name, "ti") || (exe && (name_eq(f->name, "_start") || name_eq(f->name, "exit")));
		for (int i = 0; i < nvis; i++) known |= fn[i] && name_eq(vis[i], f->name);
		sx_assert_(known, "a private function is visible from outside");
	}
	for (LLVMValueRef g = mllvm_module->globals; g; g = g->nextg) {
		if (g->is_str || g->linkage == LLVMPrivateLinkage || g->linkage == LLVMInternalLinkage) continue;
		bool known = false;
		for (int i = 0; i < nvis; i++) known |= !fn[i] && name_eq(vis[i], g->name);
		sx_assert_(known, "a private variable is visible from outside");
	}
	for (int i = 0; i < nvis; i++) {
		LLVMValueRef v = fn[i] ? LLVMGetNamedFunction(mllvm_module, vis[i]) : LLVMGetNamedGlobal(mllvm_module, vis[i]);
		sx_assert_(v && v->linkage == LLVMExternalLinkage, "an exported or external name is missing from the module");
		sx_assert_(!fn[i] || (v->first != NULL) == !strncmp(vis[i], "a.", 2), "an external function has a body or an exported one has none");
	}
	LLVMValueRef m = mllvm_find(mllvm_module, ".a"), s = mllvm_find(mllvm_module, "_start");
	sx_assert_(m && m->first && m->linkage == LLVMExternalLinkage, "the entry function is missing");
	sx_assert_((s != NULL) == exe, "the start function is there in an object, or missing in an executable");
	ref_compare(p);
	if (!exe || r_undef) return;
	sx_assert_(s->first && s->linkage == LLVMExternalLinkage, "the start function is not visible");
	// the executable: the same calls, then exit() with the value
	int n = nev_ref; uint64_t v = r_ret;
	if (n >= NCALLS) return;
	mllvm_extern = start_extern; mllvm_fuel = 3000; nev_gen = 0; mllvm_reset_globals(mllvm_module);
	mllvm_run(s, 0, NULL);
	sx_assert_(nev_gen == n + 1, "the executable makes other calls than the program");
	for (int i = 0; i < n; i++) sx_assert_(name_eq(ev_ref[i].fn, ev_gen[i].fn), "the executable makes other calls than the program");
	sx_assert_(name_eq(ev_gen[n].fn, "exit") && ev_gen[n].n == 1 && (int)ev_gen[n].a[0] == (int)v, "the executable does not exit with the program's value");
	sx_cover("exe");
}
