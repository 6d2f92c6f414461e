// Programs of up to NS statements over a pool of names: declarations, uses,
// functions, namespaces, type aliases. ACCEPT: the compiler accepts exactly
// the valid ones. RUN: the generated code does what the source says. WARN:
// the unused-symbol warnings are exactly the right ones.
#ifndef NCALLS
#define NCALLS 5
#endif
#include "ref.h"
enum { G_DEF, G_MUT, G_SET, G_IF, G_WHILE, G_FUNC, G_CALL, G_RET, G_NS, G_USE, G_ANNOT, G_ALIAS, G_EXTERNAL, G_FUNCP, G_EXPDEF, G_EXPFUNC, G_ELSE,  G_FUNCI, G_BADTYPE, G_FUNC2, G_IFLIT, G_WHILELIT, G_TANNOT, G_TFUNC, G_MUTALIAS };
enum { X_INT, X_BOOL, X_VAR, X_CALL, X_CALL1, X_REF, X_DEREF, X_QUAL, X_EXT, X_ADD, X_QCALL, X_CALL2, X_QQUAL, X_VOID };
#ifndef NAMES
#define NAMES "a", "b"
#endif
#ifndef DEPTH
#define DEPTH 2
#endif
static const char *const names[] = { NAMES };
#define NN (sizeof names / sizeof *names)
static int left = NS, depth = DEPTH, nlit;
static const char *name(void) { // a new name is always the next one of the pool
	static unsigned used; unsigned k = sx_choose(used < NN ? used + 1 : NN, "name");
	if (k == used) used++;
	return names[k];
}
static bool use_ei, use_eb, use_ti;
static RE *ei(void) { use_ei = true; return e_call("ei", 0, 0, 0, 0); }
static RE *eb(void) { use_eb = true; return e_call("eb", 0, 0, 0, 0); }
static RE *ti(RE *a) { use_ti = true; return e_call("ti", 1, a, 0, 0); }
static const char *qual(const char *a, const char *b) { static char buf[24][8]; static int n; if (n == 24) sx_unmodeled("names"); char *s = buf[n++]; strcpy(s, a); strcat(s, "."); strcat(s, b); return s; }
static RE *expr(void) {
	static const int xs[] = { XS };
	switch (xs[sx_choose(sizeof xs / sizeof *xs, "x")]) {
	case X_INT: return e_int(++nlit);
	case X_BOOL: return e_bool(true);
	case X_VAR: return e_var(name());
	case X_CALL: return e_call(name(), 0, 0, 0, 0);
	case X_CALL1: { const char *n = name(); return e_call(n, 1, sx_choose(2, "arg") ? e_var(name()) : e_int(++nlit), 0, 0); }
	case X_CALL2: { const char *n = name(); RE *a = sx_choose(2, "arg") ? ei() : e_int(++nlit); return e_call(n, 2, a, sx_choose(2, "arg") ? ei() : e_int(++nlit), 0); }
	case X_REF: return e_un(O_REF, e_var(name()));
	case X_DEREF: return e_un(O_DEREF, e_var(name()));
	case X_QUAL: { const char *n = name(); return e_var(qual(n, name())); }
	case X_QQUAL: { const char *n = name(), *m = name(); return e_var(qual(qual(n, m), name())); }
	case X_QCALL: { const char *n = name(); return e_call(qual(n, name()), 0, 0, 0, 0); }
	case X_EXT: return ei();
	case X_VOID: return ti(e_int(++nlit));
	default: { const char *n = name(); return e_bin(O_ADD, e_var(n), e_int(1)); }
	}
}
#ifndef FULL
// Is what was generated so far valid? (the external functions are declared first)
static bool prefix_ok(RS *b) {
	static RS *x; if (!x) { x = s_func(S_EXTERNAL, "ei", R_INT, NULL); s_then(x, s_func(S_EXTERNAL, "eb", R_BOOL, NULL)); RS *t = s_func(S_EXTERNAL, "ti", R_VOID, NULL); s_param(t, "v", R_INT); s_then(x, t); }
	x->next->next->next = b;
	return ref_check(x);
}
#endif
#ifdef TS // types, written with names
enum { T_INT, T_BOOL, T_REFINT, T_NAME, T_REFNAME, T_QUAL, T_VOID, T_NONE };
static int type(void) {
	static const int ts[] = { TS };
	switch (ts[sx_choose(sizeof ts / sizeof *ts, "type")]) {
	case T_INT: return R_INT;
	case T_BOOL: return R_BOOL;
	case T_REFINT: return R_INT + R_REF;
	case T_NAME: return t_named(name());
	case T_REFNAME: return t_named(name()) + R_REF;
	case T_QUAL: { const char *n = name(); return t_named(qual(n, name())); }
	default: return R_VOID;
	}
}
#else
static int type(void) { return R_INT; }
#endif
static RS *block(void);
static RS *body(void) { // a nested block
	if (!depth || !left) sx_stop();
	depth--; RS *b = block(); depth++; return b;
}
static RS *block(void) {
	static const int kinds[] = { KINDS };
	RS *first = NULL; const char *n;
	do {
		left--;
		RS *s;
		switch (kinds[sx_choose(sizeof kinds / sizeof *kinds, "stmt")]) {
		case G_DEF: n = name(); s = s_def(n, false, 0, expr()); break;
		case G_MUT: n = name(); s = s_def(n, true, 0, expr()); break;
		case G_ANNOT: n = name(); { int t = (int[]){ R_INT, R_BOOL, R_INT + R_REF }[sx_choose(3, "t")]; s = s_def(n, false, t, expr()); } break;
		case G_EXPDEF: n = name(); s = s_def(n, false, 0, expr()); s->exp = true; break;
		case G_SET: n = name(); s = s_set(n, expr()); break;
		case G_IF: s = s_body(S_IF, eb(), body()); break;
		case G_IFLIT: s = s_body(S_IF, e_bool(sx_choose(2, "lit")), body()); break;
		case G_WHILELIT: s = s_body(S_WHILE, e_bool(sx_choose(2, "lit")), body()); break;
		case G_ELSE: s = s_body(S_ELSE, NULL, body()); break;
		case G_WHILE: s = s_body(S_WHILE, eb(), body()); break;
		case G_NS: n = name(); s = s_body(S_NS, NULL, body()); s->name = n; break;
		case G_FUNC: n = name(); s = s_func(S_FUNC, n, R_VOID, body()); break;
		case G_EXPFUNC: n = name(); s = s_func(S_FUNC, n, R_VOID, body()); s->exp = true; break;
		case G_FUNCI: n = name(); s = s_func(S_FUNC, n, R_INT, body()); break;
		case G_FUNCP: n = name(); s = s_func(S_FUNC, n, sx_choose(2, "ret") ? R_INT : R_VOID, NULL); s_param(s, name(), R_INT); s->body = body(); break;
		case G_FUNC2: n = name(); s = s_func(S_FUNC, n, R_INT, NULL); s_param(s, "p", R_INT); s_param(s, "q", R_INT); s->body = body(); break;
		case G_BADTYPE: n = name(); s = s_func(S_FUNC, n, sx_choose(2, "ret") ? R_UNKNOWN : R_VOID, NULL); s_param(s, name(), (int[]){ R_INT, R_UNKNOWN, R_VOID }[sx_choose(3, "t")]); s->body = body(); break;
		case G_EXTERNAL: n = name(); s = s_func(S_EXTERNAL, n, R_INT, NULL); break;
		case G_CALL: { static const int xs[] = { CXS }; s = NULL;
			switch (xs[sx_choose(sizeof xs / sizeof *xs, "x")]) {
			case X_CALL1: n = name(); s = s_e(S_EXPR, e_call(n, 1, sx_choose(2, "arg") ? e_bool(true) : e_int(++nlit), 0, 0)); break;
			case X_QCALL: n = name(); s = s_e(S_EXPR, e_call(qual(n, name()), 0, 0, 0, 0)); break;
			default: s = s_e(S_EXPR, e_call(name(), 0, 0, 0, 0)); } break; }
		case G_RET: s = s_e(S_RETURN, sx_choose(2, "val") ? expr() : NULL); break;
		case G_MUTALIAS: n = name(); s = rs_new(S_ALIAS); s->name = n; s->annot = R_INT; s->mut = true; break;
		case G_ALIAS: n = name(); s = rs_new(S_ALIAS); s->name = n; s->annot = type();
			if (s->annot % R_REF >= R_NAMED) { // the same text as a variable definition
				RE *e = e_var(t_names[s->annot % R_REF - R_NAMED]); s->k = S_DEF; s->e = s->annot >= R_REF ? e_un(O_REF, e) : e; s->annot = 0;
			}
			break;
		case G_TANNOT: n = name(); { int t = type(); s = s_def(n, false, t, expr()); } break;
		case G_TFUNC: n = name(); s = s_func(S_FUNC, n, R_VOID, NULL); s_param(s, "p", type()); s->ret = type(); s->body = s_e(S_RETURN, e_var("p")); break;
		default: s = s_e(S_EXPR, ti(expr())); break;
		}
		first = s_then(first, s);
#ifndef ACCEPT
		if (depth == DEPTH && !prefix_ok(first)) sx_stop(); // only valid programs are run
#elif !defined FULL
		if (depth == DEPTH && left && !prefix_ok(first)) break; // nothing follows an invalid statement of the top level
#endif
	} while (left && sx_choose(2, "more"));
	return first;
}
#ifdef WARN
// The warnings a program deserves, and those that were printed.
typedef struct { int line; char msg[64]; } W;
static W want[24], got[24]; static int nwant, ngot;
static void add_want(int line, const char *fmt, const char *n) { if (nwant == 24) sx_unmodeled("warnings"); want[nwant].line = line; snprintf(want[nwant++].msg, 64, fmt, n); }
static void deserve(RS *s) {
	for (; s; s = s->next) {
		if (s->k == S_DEF) {
			if (s->annot && (s->e->k == E_INT || s->e->k == E_BOOL)) { static const char *const t[] = { "?", "Int", "Float", "Bool" }; add_want(0, "explicit type \"%s\" can be trivialy deduced", t[s->sym->ty]); }
			if (s->mut && !s->sym->reassigned) add_want(s->line, "variable \"%s\" should be constant", s->name);
			if (!s->sym->read && !s->exp) add_want(s->line, "variable \"%s\" is unused", s->name);
		}
		if (s->k == S_FUNC || s->k == S_EXTERNAL) { if (!s->sym->called) add_want(s->line, "function \"%s\" is unused", s->name); continue; } // not inside functions
		if ((s->k == S_IF || s->k == S_ELIF || s->k == S_WHILE) && s->e->k == E_BOOL) add_want(s->line, s->e->v ? "condition is always true%s" : "condition is always false%s", "");
		deserve(s->body);
	}
}
static void read_warnings(void) {
	for (const char *p = mio_err; *p;) {
		const char *e = strchr(p, '\n'); size_t l = e ? (size_t)(e - p) : strlen(p);
		static const char pre[] = "a.sk: Warning: "; size_t n = sizeof pre - 1;
		if (l >= n && !strncmp(p, pre, n)) {
			if (ngot == 24) sx_unmodeled("warnings");
			W *w = &got[ngot++]; const char *m = p + n; w->line = 0;
			if (!strncmp(m, "line ", 5)) { for (m += 5; *m >= '0' && *m <= '9'; m++) w->line = w->line * 10 + *m - '0'; m = strchr(m, ':') + 2; }
			size_t k = (size_t)(p + l - m); if (k > 63) k = 63;
			memcpy(w->msg, m, k); w->msg[k] = 0;
		}
		p += l; if (*p) p++;
	}
}
#endif
#ifdef DEBUGINFO
// What the debug information has to describe: every function with a body and
// every variable and parameter, with name, line, type and the function around.
typedef struct { MMetaKind k; const char *name, *fn; int line, ty; unsigned arg; bool local; bool seen; } DI;
static DI di[24]; static int ndi;
static void di_add(DI d) { if (ndi == 24) sx_unmodeled("debug information"); di[ndi++] = d; }
static void describe(RS *s, const char *fn) {
	for (; s; s = s->next) {
		if (s->k == S_DEF) di_add((DI){ fn ? MD_LOCAL : MD_GLOBAL, s->name, fn, s->line, s->sym->ty, 0, !s->exp, false });
		if (s->k == S_FUNC) {
			di_add((DI){ MD_FUNC, s->name, NULL, s->line, 0, 0, false, false });
			for (int i = 0; i < s->np; i++) di_add((DI){ MD_PARAM, s->pn[i], s->name, s->line, s->pt[i], (unsigned)i + 1, false, false });
			describe(s->body, s->name);
		} else describe(s->body, fn);
	}
}
static bool type_is(MMeta *m, int t) {
	static const char *const n[] = { "?", "Int", "Float", "Bool", "Rune", "Str" };
	for (; t >= R_REF; t -= R_REF) { if (!m || m->kind != MD_PTR) return false; m = m->type; }
	return m && !strcmp(m->name, n[t]) && (m->kind == MD_PTR) == (t == R_STR);
}
static void check_debug_info(RS *p) {
	describe(p, NULL);
	di_add((DI){ MD_FUNC, ".a", NULL, 1, 0, 0, false, false });
	for (MMeta *m = mllvm_meta; m; m = m->next) {
		if (m->kind != MD_FUNC && m->kind != MD_LOCAL && m->kind != MD_PARAM && m->kind != MD_GLOBAL) continue;
		int k = 0;
		for (; k < ndi; k++) {
			DI *d = &di[k];
			if (d->seen || d->k != m->kind || strcmp(d->name, m->name) || d->line != (int)m->line || d->arg != m->arg) continue;
			if (d->k != MD_FUNC && !type_is(m->type, d->ty)) continue;
			if (d->fn && (!mllvm_subprogram(m) || strcmp(mllvm_subprogram(m)->name, d->fn))) continue;
			if (d->k == MD_GLOBAL && d->local != m->local) continue;
			break;
		}
		sx_assert_(k < ndi, "the debug information describes something the program does not declare");
		di[k].seen = true;
		if (m->kind == MD_FUNC) sx_assert_(m->of && m->of->first && m->def, "the description of a function is not attached to it");
		if (m->kind == MD_GLOBAL) sx_assert_(m->of != NULL, "the description of a variable is not attached to it");
		if (m->kind == MD_LOCAL || m->kind == MD_PARAM) {
			int n = 0; for (MDeclare *d = mllvm_declares; d; d = d->next) if (d->var == m) { n++; sx_assert_(d->loc && d->loc->line == m->line && d->b->fn->dbg == (LLVMMetadataRef)mllvm_subprogram(m), "a variable is described in another place"); }
			sx_assert_(n == 1, "a variable is not described exactly once");
		}
	}
	for (int k = 0; k < ndi; k++) sx_assert_(di[k].seen, "a declaration is missing from the debug information");
	sx_cover("described");
}
#endif
void harness(void) {
	RS *p = NULL;
#ifdef PRE
	PRE
#endif
	RS *b = block();
	RS *x = NULL;
	if (use_ei) x = s_then(x, s_func(S_EXTERNAL, "ei", R_INT, NULL));
	if (use_eb) x = s_then(x, s_func(S_EXTERNAL, "eb", R_BOOL, NULL));
	if (use_ti) { RS *t = s_func(S_EXTERNAL, "ti", R_VOID, NULL); s_param(t, "v", R_INT); x = s_then(x, t); }
	p = s_then(x, p);
#ifdef WRAPF
	b = s_func(S_FUNC, "w", R_VOID, b);
	p = s_then(p, b); s_then(p, s_e(S_EXPR, e_call("w", 0, 0, 0, 0)));
#else
	p = s_then(p, b);
#endif
#ifdef TAIL
	TAIL
#endif
	p_block(p);
	bool ok = ref_check(p);
#ifndef ACCEPT
	if (!ok) sx_stop();
#endif
#ifdef WARN
	deserve(p);
	int fl = (int)sx_choose(3, "flag");
	int r = hx_compile("-c", fl == 1 ? "--werror" : fl == 2 ? "-q" : NULL, NULL);
	if (fl == 1) {
		sx_assert_((r != 0) == (nwant > 0), nwant ? "a program with a warning is accepted with --werror" : "a program without a warning is rejected with --werror");
		sx_assert_((mllvm_emitted > 0) == (nwant == 0), "with --werror the output does not agree with the warnings");
		sx_cover(nwant ? "werror" : "clean");
		return;
	}
	sx_assert_(r == 0 && mllvm_emitted == 1, "a program with warnings only is rejected");
	read_warnings();
	if (fl == 2) { sx_assert_(!ngot, "-q shows a warning"); return; }
	for (int i = 0; i < nwant; i++) {
		int k = 0; while (k < ngot && (got[k].line != want[i].line || strcmp(got[k].msg, want[i].msg))) k++;
		sx_assert_(k < ngot, "a warning is missing");
		got[k] = got[--ngot];
	}
	sx_assert_(!ngot, "there is a warning the program does not deserve");
	sx_cover(nwant ? "warned" : "none");
#else
	int r = hx_llvm();
#endif
	if (ok) sx_cover("valid"); else sx_cover("invalid");
#ifdef ACCEPT
	sx_assert_(!ok || r == 0, "a valid program is rejected");
	sx_assert_(ok || r != 0, "an invalid program is accepted");
	sx_assert_(r == 0 || hx_has("Compilation error"), "rejected without a compilation error");
#ifdef LINE
	if (!ok) { char w[24]; snprintf(w, sizeof w, "line %d column", c_line); sx_assert_(hx_has(w), "the error is reported at another line"); }
#endif
#endif
	if (r || !ok) return;
#ifdef DEBUGINFO
	check_debug_info(p);
#endif
#ifdef RUN
	ref_compare(p);
#endif
}
