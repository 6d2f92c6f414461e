// A reference front end and interpreter for the language, written from its
// documentation: harnesses build a program as a tree, print it as source text
// for the real compiler, and compare what the compiler says and what the
// generated code does with what this file says and does.
#pragma once
#include "hx.h"
#ifdef CBACK // compile with the C back end
#include "mcc.h"
#endif

enum { R_INT = 1, R_FLOAT, R_BOOL, R_RUNE, R_STR, R_VOID, R_UNKNOWN, R_NAMED = 8, R_REF = 64 }; // &T is T + R_REF; R_NAMED + i is the type called t_names[i]
typedef enum { E_INT, E_FLOAT, E_BOOL, E_RUNE, E_STR, E_VAR, E_CALL, E_UN, E_BIN } EK;
typedef enum { O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_POW, O_SHL, O_SHR, O_IS, O_ISNT, O_LT, O_LE, O_GT, O_GE, O_AND, O_OR, O_XOR, O_NBIN, O_NOT = O_NBIN, O_NEG, O_REF, O_DEREF } OP;
static const char *const op_text[] = { "+", "-", "*", "/", "mod", "^", "<<", ">>", "is", "isnt", "<", "<=", ">", ">=", "and", "or", "xor", "not ", "- ", "&", "*" };
// lower binds tighter
static const int op_prec[] = { 5, 5, 4, 4, 4, 2, 6, 6, 7, 7, 7, 7, 7, 7, 6, 6, 6, 3, 3, 1, 3 };

static const char *t_names[56]; static int t_nn;
static int t_named(const char *n) { if (t_nn == 56) sx_unmodeled("type names"); t_names[t_nn] = n; return R_NAMED + t_nn++; }
typedef struct RE RE; typedef struct RS RS; typedef struct RSym RSym;
struct RE { EK k; OP op; RE *l, *r; const char *name, *text; uint64_t v; RE *args[4]; int nargs; int ty; RSym *sym; bool paren; int line, col; };
typedef enum { S_DEF, S_ASSIGN, S_EXPR, S_IF, S_ELIF, S_ELSE, S_WHILE, S_BREAK, S_CONTINUE, S_RETURN, S_NOOP, S_UNREACHABLE, S_FUNC, S_EXTERNAL, S_NS, S_COMMENT, S_ALIAS } SK;
struct RS { SK k; const char *name; int annot; bool mut, exp; RE *e; RS *body, *next; const char *pn[4]; int pt[4]; int np, ret; RSym *sym, *psym[4]; int line, ncol; int rpt[4], rret; /* resolved types */ };
typedef enum { Y_VAR, Y_FUNC, Y_NS, Y_ALIAS } YK;
struct RSym { YK k; const char *name; int ty; bool is_const; RS *owner; RS *decl; uint64_t val; RSym *members[12]; int nmem; bool read, reassigned, called, seen; };

static RE re_pool[96]; static int re_n;
static RS rs_pool[64]; static int rs_n;
static RSym sy_pool[48]; static int sy_n;
static RE *re_new(EK k) { if (re_n == 96) sx_unmodeled("expression pool"); RE *e = &re_pool[re_n++]; memset(e, 0, sizeof *e); e->k = k; return e; }
static RS *rs_new(SK k) { if (rs_n == 64) sx_unmodeled("statement pool"); RS *s = &rs_pool[rs_n++]; memset(s, 0, sizeof *s); s->k = k; return s; }
static RSym *sy_new(YK k, const char *name, int ty) { if (sy_n == 48) sx_unmodeled("symbol pool"); RSym *s = &sy_pool[sy_n++]; memset(s, 0, sizeof *s); s->k = k; s->name = name; s->ty = ty; return s; }
static RE *e_int(int64_t v) { RE *e = re_new(E_INT); e->v = (uint64_t)v; return e; }
static RE *e_bool(bool v) { RE *e = re_new(E_BOOL); e->v = v; return e; }
static RE *e_flt(const char *t, double v) { RE *e = re_new(E_FLOAT); e->text = t; e->v = hx_d2u(v); return e; }
static RE *e_rune(char c) { RE *e = re_new(E_RUNE); e->v = (uint64_t)c; return e; }
static RE *e_str(const char *t) { RE *e = re_new(E_STR); e->text = t; e->v = (uint64_t)t; return e; }
static RE *e_var(const char *n) { RE *e = re_new(E_VAR); e->name = n; return e; }
static RE *e_call(const char *n, int na, RE *a, RE *b, RE *c) { RE *e = re_new(E_CALL); e->name = n; e->nargs = na; e->args[0] = a; e->args[1] = b; e->args[2] = c; return e; }
static RE *e_bin(OP o, RE *l, RE *r) { RE *e = re_new(E_BIN); e->op = o; e->l = l; e->r = r; return e; }
static RE *e_un(OP o, RE *r) { RE *e = re_new(E_UN); e->op = o; e->r = r; return e; }
static RS *s_def(const char *n, bool mut, int annot, RE *e) { RS *s = rs_new(S_DEF); s->name = n; s->mut = mut; s->annot = annot; s->e = e; return s; }
static RS *s_set(const char *n, RE *e) { RS *s = rs_new(S_ASSIGN); s->name = n; s->e = e; return s; }
static RS *s_e(SK k, RE *e) { RS *s = rs_new(k); s->e = e; return s; }
static RS *s_body(SK k, RE *e, RS *b) { RS *s = rs_new(k); s->e = e; s->body = b; return s; }
static RS *s_func(SK k, const char *n, int ret, RS *b) { RS *s = rs_new(k); s->name = n; s->ret = ret; s->body = b; return s; }
static void s_param(RS *f, const char *n, int t) { f->pn[f->np] = n; f->pt[f->np++] = t; }
static RS *s_then(RS *a, RS *b) { if (!a) return b; RS *p = a; while (p->next) p = p->next; p->next = b; return a; }
static bool is_block(SK k) { return k == S_IF || k == S_ELIF || k == S_ELSE || k == S_WHILE || k == S_FUNC || k == S_NS; }

// ---- printing
static void p_type(int t) { while (t >= R_REF) { hx_c('&'); t -= R_REF; } static const char *const n[] = { "?", "Int", "Float", "Bool", "Rune", "Str", "Void", "Nope" }; hx_s(t >= R_NAMED ? t_names[t - R_NAMED] : n[t]); }
static int p_line = 1;
static int p_col(void) { size_t i = hx_len; while (i && hx_src[i - 1] != '\n') i--; int c = 1; for (; i < hx_len; i++) if ((hx_src[i] & 0xc0) != 0x80) c++; return c; }
// Layout: with LAYOUT, up to that many places get another layout than usual.
enum { L_SP, L_OSP, L_END, L_ENDC, L_OPEN, L_BRACE, L_FBRACE, L_CLOSE };
#ifdef LAYOUT
static int lay_left = LAYOUT;
static const char *const lay_alt[][14] = {
	[L_SP] = { "  ", "\t", " \t", "\r ", NULL },
	[L_OSP] = { " ", "\t", NULL },
	[L_END] = { "\n\n", " \n", "\r\n", "\n\t", "\n# c\n", "\n#{ c #}\n", "\n#{ c\n} d\n#}\n", "\n# }\n# {\n", "\n#\tc\n  ", NULL },
	[L_ENDC] = { "\n\n", " \n", "\r\n", "\n\t", "\n# c\n", "\n#{ c #}\n", "\n#{ c\n} d\n#}\n", "\n# }\n# {\n", "\n#\tc\n  ", " # c\n", "\t#{ c #}\n", " # \xe2\x82\xac \" {\n", NULL },
	[L_OPEN] = { " ", "\n\n", " # c\n", "\n# c\n\n", "#{ c #}\n", "\n \t\n", NULL },
	[L_BRACE] = { "", "\n", "\t", " \n\n ", NULL },
	[L_FBRACE] = { "", "\t", NULL },
	[L_CLOSE] = { " ", "\n\n", " # c\n", "\n# c\n", "\n#{ c\n#}\n", "\t#{ c #} ", NULL },
};
static void lay(int k, const char *usual) {
	const char *t = usual;
	if (lay_left && sx_choose(2, "layout")) { lay_left--; unsigned n = 0; while (lay_alt[k][n]) n++; t = lay_alt[k][sx_choose(n, "which")]; }
	for (const char *c = t; *c; c++) { hx_c(*c); if (*c == '\n') p_line++; }
}
static int lay_parens(void) { if (lay_left && sx_choose(2, "parens")) { lay_left--; return 1 + (int)sx_choose(2, "double"); } return 0; }
#else
static void lay(int k, const char *usual) { (void)k; for (const char *c = usual; *c; c++) { hx_c(*c); if (*c == '\n') p_line++; } }
static int lay_parens(void) { return 0; }
#endif
static void p_op(RE *e, bool top);
static void p_expr(RE *e, bool top) {
	int n = lay_parens();
	for (int i = 0; i < n; i++) { hx_c('('); lay(L_OSP, ""); }
	p_op(e, top || n);
	for (int i = 0; i < n; i++) { lay(L_OSP, ""); hx_c(')'); }
}
static void p_op(RE *e, bool top) {
	if (e->k == E_CALL) { e->line = p_line; e->col = p_col(); }
	switch (e->k) {
	case E_INT: hx_int((int64_t)e->v); break;
	case E_FLOAT: hx_s(e->text); break;
	case E_BOOL: hx_s(e->v ? "true" : "false"); break;
	case E_RUNE: hx_c('\''); if (e->text) hx_s(e->text); else hx_c((char)e->v); hx_c('\''); break;
	case E_STR: hx_c('"'); hx_s(e->text); hx_c('"'); break;
	case E_VAR: hx_s(e->name); break;
	case E_CALL: hx_s(e->name); lay(L_OSP, ""); hx_c('('); for (int i = 0; i < e->nargs; i++) { if (i) { lay(L_OSP, ""); hx_c(','); lay(L_SP, " "); } else lay(L_OSP, ""); p_expr(e->args[i], true); } lay(L_OSP, ""); hx_c(')'); break;
	case E_UN:
		if (!top) { hx_c('('); lay(L_OSP, ""); }
		if (e->op == O_NOT || e->op == O_NEG) { hx_s(e->op == O_NOT ? "not" : "-"); lay(L_SP, " "); p_expr(e->r, false); }
		else { hx_s(op_text[e->op]); lay(L_OSP, ""); p_op(e->r, false); }
		if (!top) { lay(L_OSP, ""); hx_c(')'); }
		break;
	case E_BIN: if (!top) { hx_c('('); lay(L_OSP, ""); } p_expr(e->l, false); lay(L_SP, " "); hx_s(op_text[e->op]); lay(L_SP, " "); p_expr(e->r, false); if (!top) { lay(L_OSP, ""); hx_c(')'); } break;
	}
}
static void p_block(RS *s);
static void p_stmt(RS *s) {
	s->line = p_line;
	switch (s->k) {
	case S_DEF: if (s->exp) { hx_s("export"); lay(L_SP, " "); } if (s->mut) { hx_s("mut"); lay(L_SP, " "); } s->ncol = p_col(); hx_s(s->name); if (s->annot) { hx_s(":"); lay(L_SP, " "); p_type(s->annot); lay(L_SP, " "); hx_s("="); } else { lay(L_SP, " "); hx_s(":="); } lay(L_SP, " "); p_expr(s->e, true); break;
	case S_ALIAS: if (s->mut) { hx_s("mut"); lay(L_SP, " "); } hx_s(s->name); lay(L_SP, " "); hx_s(":="); lay(L_SP, " "); p_type(s->annot); break;
	case S_ASSIGN: hx_s(s->name); lay(L_SP, " "); hx_s("="); lay(L_SP, " "); p_expr(s->e, true); break;
	case S_EXPR: p_op(s->e, true); break;
	case S_IF: hx_s("if"); lay(L_SP, " "); p_expr(s->e, true); break;
	case S_ELIF: hx_s("elif"); lay(L_SP, " "); p_expr(s->e, true); break;
	case S_ELSE: hx_s("else"); break;
	case S_WHILE: hx_s("while"); lay(L_SP, " "); p_expr(s->e, true); break;
	case S_BREAK: hx_s("break"); break;
	case S_CONTINUE: hx_s("continue"); break;
	case S_RETURN: hx_s("return"); if (s->e) { lay(L_SP, " "); p_expr(s->e, true); } break;
	case S_NOOP: hx_s("noop"); break;
	case S_UNREACHABLE: hx_s("unreachable"); break;
	case S_COMMENT: hx_s("# c"); break;
	case S_NS: hx_s("namespace"); lay(L_SP, " "); hx_s(s->name); break;
	case S_FUNC: case S_EXTERNAL:
		if (s->k == S_EXTERNAL) { hx_s("external"); lay(L_SP, " "); }
		if (s->exp) { hx_s("export"); lay(L_SP, " "); }
		hx_s(s->name); lay(L_OSP, ""); hx_c('(');
		for (int i = 0; i < s->np; i++) { if (i) { hx_c(','); lay(L_SP, " "); } else lay(L_OSP, ""); hx_s(s->pn[i]); hx_s(":"); lay(L_SP, " "); p_type(s->pt[i]); lay(L_OSP, ""); }
		hx_c(')');
		if (s->ret != R_VOID) { lay(L_SP, " "); p_type(s->ret); }
		break;
	}
	if (is_block(s->k)) { lay(s->k == S_FUNC ? L_FBRACE : L_BRACE, " "); hx_c('{'); lay(L_OPEN, "\n"); p_block(s->body); hx_c('}'); lay(L_CLOSE, "\n"); }
	else lay(s->k == S_DEF || s->k == S_ALIAS || s->k == S_EXTERNAL || s->k == S_COMMENT ? L_END : L_ENDC, "\n");
}
static void p_block(RS *s) { for (; s; s = s->next) p_stmt(s); }

// ---- checking: is this a valid program?
static RSym *c_stack[48]; static int c_n;
static RS *c_func; static int c_loops; static int c_level; static const char *c_err; static int c_line;
static bool bad(const char *m) { if (!c_err) c_err = m; return false; }
static bool name_eq(const char *a, const char *b) { return strcmp(a, b) == 0; }
static RSym *c_find(const char *n) {
	const char *dot = strchr(n, '.');
	if (dot) {
		char h[16]; size_t l = (size_t)(dot - n); memcpy(h, n, l); h[l] = 0;
		RSym *ns = c_find(h); const char *rest = dot + 1;
		for (;;) {
			if (!ns || ns->k != Y_NS) return NULL;
			dot = strchr(rest, '.'); l = dot ? (size_t)(dot - rest) : strlen(rest);
			RSym *m = NULL;
			for (int i = 0; i < ns->nmem; i++) if (strlen(ns->members[i]->name) == l && !strncmp(ns->members[i]->name, rest, l)) m = ns->members[i];
			if (!dot) return m;
			ns = m; rest = dot + 1;
		}
	}
	for (int i = c_n; i-- > 0;) if (name_eq(c_stack[i]->name, n)) return c_stack[i];
	return NULL;
}
static bool is_type_name(const char *n) { return name_eq(n, "Int") || name_eq(n, "Float") || name_eq(n, "Bool") || name_eq(n, "Rune") || name_eq(n, "Str") || name_eq(n, "Void"); }
static bool c_add(RSym *s) {
	if (c_find(s->name) || is_type_name(s->name)) return bad("name is already used");
	if (c_n == 48) sx_unmodeled("scope stack");
	c_stack[c_n++] = s; return true;
}
static bool c_expr(RE *e);
static bool c_call(RE *e) {
	RSym *f = c_find(e->name);
	if (!f || f->k != Y_FUNC) return bad("unknown function");
	f->called = true;
	e->sym = f; e->ty = f->decl->rret;
	if (e->nargs != f->decl->np) return bad("number of arguments");
	for (int i = 0; i < e->nargs; i++) { if (!c_expr(e->args[i])) return false; if (e->args[i]->ty != f->decl->rpt[i]) return bad("type of an argument"); }
	return true;
}
static bool num(int t) { return t == R_INT || t == R_FLOAT; }
static bool c_expr(RE *e) {
	switch (e->k) {
	case E_INT: e->ty = R_INT; return true;
	case E_FLOAT: e->ty = R_FLOAT; return true;
	case E_BOOL: e->ty = R_BOOL; return true;
	case E_RUNE: e->ty = R_RUNE; return true;
	case E_STR: e->ty = R_STR; return true;
	case E_CALL: return c_call(e);
	case E_VAR: {
		RSym *s = c_find(e->name);
		if (!s || s->k != Y_VAR || (s->owner && s->owner != c_func)) return bad("unknown variable");
		s->read = true;
		e->sym = s; e->ty = s->ty; return true; }
	case E_UN:
		if (!c_expr(e->r)) return false;
		switch (e->op) {
		case O_NOT: e->ty = R_BOOL; return e->r->ty == R_BOOL || bad("operand type");
		case O_NEG: e->ty = e->r->ty; return num(e->r->ty) || bad("operand type");
		case O_REF: e->ty = e->r->ty + R_REF; return e->r->k == E_VAR || bad("reference of a value");
		default: e->ty = e->r->ty - R_REF; return (e->r->k == E_VAR && e->r->ty >= R_REF) || bad("dereference");
		}
	case E_BIN:
		if (!c_expr(e->r) || !c_expr(e->l)) return false;
		if (e->l->ty != e->r->ty) return bad("operand types differ");
		switch (e->op) {
		case O_ADD: case O_SUB: case O_MUL: case O_POW: e->ty = e->l->ty; return num(e->ty) || bad("operand type");
		case O_DIV: case O_MOD: e->ty = e->l->ty; if (e->r->k == E_INT && e->r->v == 0) return bad("division by zero"); return num(e->ty) || bad("operand type");
		case O_SHL: case O_SHR: e->ty = R_INT; return e->l->ty == R_INT || bad("operand type");
		case O_LT: case O_LE: case O_GT: case O_GE: e->ty = R_BOOL; return num(e->l->ty) || bad("operand type");
		case O_AND: case O_OR: case O_XOR: e->ty = R_BOOL; return e->l->ty == R_BOOL || bad("operand type");
		default: e->ty = R_BOOL; return (e->l->ty < R_REF && e->l->ty != R_VOID) || bad("operand type");
		}
	}
	return false;
}
static bool c_block(RS *s);
// The type a type denotes: aliases are replaced by what they stand for.
static int c_type(int t) {
	int refs = 0; for (; t >= R_REF; t -= R_REF) refs += R_REF;
	if (t >= R_NAMED) { RSym *y = c_find(t_names[t - R_NAMED]); t = y && y->k == Y_ALIAS ? y->ty : R_UNKNOWN; }
	return t == R_UNKNOWN ? 0 : t + refs;
}
// `name := T` declares an alias when T is a type or an alias, possibly with & before.
static int c_alias(RE *e) {
	if (e->k == E_UN && e->op == O_REF) { int t = e->r->k == E_VAR ? c_alias(e->r) : 0; return t ? t + R_REF : 0; }
	RSym *y = e->k == E_VAR ? c_find(e->name) : NULL;
	return y && y->k == Y_ALIAS ? y->ty : 0;
}
static bool c_new_alias(RS *s, int t) { s->sym = NULL; return c_add(sy_new(Y_ALIAS, s->name, t)); }
static bool ends(RS *s) { // control never gets past this list
	for (; s; s = s->next) {
		if (s->k == S_RETURN || s->k == S_UNREACHABLE || s->k == S_BREAK || s->k == S_CONTINUE) return true;
		if (s->k == S_NS && ends(s->body)) return true;
	}
	return false;
}
static bool c_dead(RS *s) { for (; s; s = s->next) if (s->k != S_COMMENT && s->k != S_NOOP && s->k != S_UNREACHABLE) return bad("dead code"); return true; }
static bool c_scoped(RS *b) { int m = c_n; c_level++; bool ok = c_block(b); c_level--; c_n = m; return ok; }
static bool c_stmt(RS *s, RS *prev) {
	switch (s->k) {
	case S_DEF: {
		int al = c_alias(s->e);
		if (al) { if (s->mut) return bad("mutable alias"); if (s->annot) return bad("alias as a value"); return c_new_alias(s, al); }
		if (!c_expr(s->e)) return false;
		if (s->e->ty == R_VOID) return bad("void value");
		int t = s->annot ? c_type(s->annot) : s->e->ty;
		if (!t) return bad("unknown type");
		RSym *y = sy_new(Y_VAR, s->name, t); y->is_const = !s->mut; y->owner = c_func; y->decl = s; s->sym = y;
		if (!c_add(y)) return false;
		return t == s->e->ty || bad("type of the value"); }
	case S_ALIAS: { int t = c_type(s->annot); if (!t) return bad("unknown type"); if (s->mut) return bad("mutable alias"); return c_new_alias(s, t); }
	case S_ASSIGN: {
		RSym *y = c_find(s->name);
		if (!y || y->k != Y_VAR || (y->owner && y->owner != c_func)) return bad("unknown variable");
		if (y->is_const) return bad("constant");
		s->sym = y; y->reassigned = true;
		if (!c_expr(s->e)) return false;
		if (s->e->ty != y->ty) return bad("type of the value");
		if (s->e->k == E_VAR && s->e->sym == y) return bad("redundant assignment");
		return true; }
	case S_EXPR: if (s->e->k != E_CALL) return bad("dangling expression"); return c_expr(s->e);
	case S_ELIF: case S_ELSE: case S_IF:
		if (s->k != S_IF && (!prev || (prev->k != S_IF && prev->k != S_ELIF))) return bad("no if before");
		if (s->k != S_ELSE) { if (!c_expr(s->e)) return false; if (s->e->ty != R_BOOL) return bad("condition"); }
		return c_scoped(s->body);
	case S_WHILE: {
		if (!c_expr(s->e)) return false; if (s->e->ty != R_BOOL) return bad("condition");
		c_loops++; bool ok = c_scoped(s->body); c_loops--; return ok; }
	case S_BREAK: case S_CONTINUE: if (!c_loops) return bad("not in a loop"); return c_dead(s->next);
	case S_UNREACHABLE: return c_dead(s->next);
	case S_RETURN: {
		if (s->e && !c_expr(s->e)) return false;
		int want = c_func ? c_func->rret : R_INT;
		if (!s->e && want != R_VOID) return bad("return without a value");
		if (s->e && (want == R_VOID || s->e->ty != want)) return bad("type of the returned value");
		return c_dead(s->next); }
	case S_NOOP: case S_COMMENT: return true;
	case S_EXTERNAL: case S_FUNC: {
		if ((s->k == S_EXTERNAL || s->exp) && c_level) return bad("nested export or external");
		s->rret = c_type(s->ret);
		if (!s->rret) return bad("unknown type");
		RSym *y = sy_new(Y_FUNC, s->name, s->rret); y->decl = s; s->sym = y;
		if (!c_add(y)) return false;
		int m = c_n; RS *of = c_func; int ol = c_loops; bool ok = true; c_func = s; c_loops = 0;
		for (int i = 0; i < s->np && ok; i++) {
			s->rpt[i] = c_type(s->pt[i]);
			if (!s->rpt[i] || s->rpt[i] == R_VOID) { ok = bad("parameter type"); break; }
			RSym *p = sy_new(Y_VAR, s->pn[i], s->rpt[i]); p->is_const = true; p->owner = s; s->psym[i] = p;
			ok = c_add(p);
		}
		if (ok && s->k == S_FUNC) {
			c_level++; ok = c_block(s->body); c_level--;
			if (ok && s->rret != R_VOID) { // needs a return in its own block
				bool has = false; for (RS *b = s->body; b; b = b->next) { if (b->k == S_UNREACHABLE) break; if (b->k == S_RETURN) { has = true; break; } }
				if (!has) ok = bad("no return");
			}
		}
		c_n = m; c_func = of; c_loops = ol; return ok; }
	case S_NS: {
		RSym *y = sy_new(Y_NS, s->name, 0);
		if (!c_add(y)) return false;
		int m = c_n; c_level++; bool ok = c_block(s->body); c_level--;
		for (int i = m; i < c_n; i++) { if (y->nmem == 12) sx_unmodeled("namespace size"); y->members[y->nmem++] = c_stack[i]; }
		c_n = m;
		return ok && (!ends(s->body) || c_dead(s->next)); }
	}
	return false;
}
static bool c_block(RS *s) {
	if (!s) return bad("empty block");
	RS *prev = NULL;
	for (; s; s = s->next) { if (!c_stmt(s, prev)) { if (!c_line) c_line = s->line; return false; } if (s->k != S_COMMENT) prev = s; }
	return true;
}
static bool ref_check(RS *prog) { sy_n = 0; c_n = 0; c_func = NULL; c_loops = c_level = 0; c_err = NULL; c_line = 0; return c_block(prog); }

// ---- running
#ifndef NCALLS
#define NCALLS 6
#endif
typedef struct { const char *fn; int n; uint64_t a[4]; bool str[4]; int line, col; } Ev;
static Ev ev_ref[NCALLS + 1], ev_gen[NCALLS + 1]; static int nev_ref, nev_gen;
static uint64_t ext_val[NCALLS + 1]; static bool ext_have[NCALLS + 1];
static uint64_t ext_result(int k, int ty) { // the k-th external call returns an arbitrary value, the same for both
	if (!ext_have[k]) {
		ext_have[k] = true;
		if (ty == R_BOOL) ext_val[k] = sx_bool("ext");
		else if (ty == R_VOID) ext_val[k] = 0;
		else if (ty == R_RUNE) ext_val[k] = sx_u32("ext");
		else if (ty >= R_STR) { static char str[NCALLS + 1][4]; sx_sym(str[k], 1, 2, "extstr"); ext_val[k] = (uint64_t)str[k]; } // up to two bytes
#ifdef SMALL // -8..7
		else if (ty == R_INT) ext_val[k] = (uint64_t)((int64_t)((uint64_t)sx_u8("ext") << 60) >> 60);
#endif
		else ext_val[k] = sx_u64("ext");
	}
	return ext_val[k];
}
static RE *r_at; // the call being evaluated
static bool r_stop; static const char *r_trap; static unsigned r_fuel; static uint64_t r_ret;
enum { X_NEXT, X_BREAK, X_CONT, X_RET };
static uint64_t r_call(RSym *f, const uint64_t *av);
#ifndef MAXPOW
#define MAXPOW 3 // bound on exponents
#endif
static bool r_undef; // the language leaves the result open (overflow, division by zero, shift too far)
static uint64_t ref_ipow(uint64_t b, int64_t n) {
	sx_assume(n <= MAXPOW);
	uint64_t r = 1; while (n-- > 0) { int64_t t; r_undef |= __builtin_mul_overflow((int64_t)r, (int64_t)b, &t); r = (uint64_t)t; }
	return r;
}
double sx_frem(double, double); double sx_fpow(double, double);
static uint64_t r_bin(OP o, int ty, uint64_t a, uint64_t b) {
	int64_t x = (int64_t)a, y = (int64_t)b, t; uint64_t z; double p = hx_u2d(a), q = hx_u2d(b);
	if (ty == R_FLOAT) switch (o) {
		case O_ADD: return hx_d2u(p + q); case O_SUB: return hx_d2u(p - q); case O_MUL: return hx_d2u(p * q); case O_DIV: return hx_d2u(p / q);
		case O_MOD: return hx_d2u(sx_frem(p, q)); case O_POW: return hx_d2u(sx_fpow(p, q));
		case O_IS: return p == q; case O_ISNT: return !(p == q); case O_LT: return p < q; case O_LE: return p <= q; case O_GT: return p > q; case O_GE: return p >= q;
		default: return 0;
	}
	switch (o) {
	case O_ADD: r_undef |= __builtin_add_overflow(x, y, &t); return (uint64_t)t;
	case O_SUB: r_undef |= __builtin_sub_overflow(x, y, &t); return (uint64_t)t;
	case O_MUL: r_undef |= __builtin_mul_overflow(x, y, &t); return (uint64_t)t;
	case O_DIV: case O_MOD: z = (uint64_t)((y == 0) | ((y == -1) & (x == INT64_MIN))); r_undef |= (bool)z; y = (int64_t)(((uint64_t)y & (z - 1)) | z); return (uint64_t)(o == O_DIV ? x / y : x % y);
	case O_POW: return ref_ipow(a, y);
	case O_SHL: r_undef |= b >= 64; return a << (b & 63);
	case O_SHR: r_undef |= b >= 64; return a >> (b & 63);
	case O_IS: return ty == R_STR ? strcmp((const char *)a, (const char *)b) == 0 : a == b;
	case O_ISNT: return ty == R_STR ? strcmp((const char *)a, (const char *)b) != 0 : a != b;
	case O_LT: return x < y; case O_LE: return x <= y; case O_GT: return x > y; case O_GE: return x >= y;
	case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
	default: return 0;
	}
}
static bool is_lit(RE *e) { return e->k == E_INT || (e->k == E_UN && e->op == O_NEG && is_lit(e->r)) || (e->k == E_BIN && e->op != O_POW && is_lit(e->l) && is_lit(e->r)); }
static uint64_t r_expr(RE *e) {
	if (r_stop) return 0;
	switch (e->k) {
	case E_INT: case E_FLOAT: case E_BOOL: case E_RUNE: case E_STR: return e->v;
	case E_VAR: return e->sym->val;
	case E_CALL: { uint64_t av[4]; for (int i = 0; i < e->nargs; i++) { av[i] = r_expr(e->args[i]); if (r_stop) return 0; } r_at = e; return r_call(e->sym, av); }
	case E_UN: {
		if (e->op == O_REF) return (uint64_t)&e->r->sym->val;
		uint64_t v = r_expr(e->r); if (r_stop) return 0;
		if (e->op == O_NOT) return v ^ 1;
		if (e->op == O_DEREF) return *(uint64_t *)v;
		if (e->r->ty == R_FLOAT) return v ^ (1ull << 63);
		r_undef |= (int64_t)v == INT64_MIN;
		return 0 - v; }
	case E_BIN: {
		uint64_t a = r_expr(e->l); if (r_stop) return 0;
		uint64_t b = r_expr(e->r); if (r_stop) return 0;
		uint64_t v = r_bin(e->op, e->l->ty, a, b);
#ifdef CBACK // left open there: numbers of literals only, which C takes as 32-bit ones, and >> of negative numbers
		if (e->ty == R_INT && (is_lit(e) || ((e->op == O_SHL || e->op == O_SHR) && is_lit(e->l)))) r_undef |= ((int64_t)v != (int32_t)v) | ((e->op == O_SHL || e->op == O_SHR) & (b >= 32));
		if (e->op == O_SHR) r_undef |= (int64_t)a < 0;
#endif
		return v; }
	}
	return 0;
}
static int r_block(RS *s);
static int r_stmt(RS **ps) {
	RS *s = *ps;
	if (r_fuel-- == 0) { r_stop = true; return X_RET; }
	switch (s->k) {
	case S_DEF: case S_ASSIGN: { if (!s->sym) return X_NEXT; /* an alias */ uint64_t v = r_expr(s->e); if (!r_stop) s->sym->val = v; return X_NEXT; }
	case S_EXPR: r_expr(s->e); return X_NEXT;
	case S_IF: {
		RS *b = s; int r = X_NEXT; bool taken = false;
		for (;;) { // the whole chain
			if (!taken) {
				bool c = b->k == S_ELSE ? true : r_expr(b->e); if (r_stop) return X_RET;
				if (c) { taken = true; r = r_block(b->body); }
			}
			RS *n = b->next; while (n && n->k == S_COMMENT) n = n->next;
			if (!n || (n->k != S_ELIF && n->k != S_ELSE)) break;
			b = n;
		}
		*ps = b; return r; }
	case S_WHILE:
		for (;;) {
			if (r_fuel-- == 0) { r_stop = true; return X_RET; }
			bool c = r_expr(s->e); if (r_stop) return X_RET;
			if (!c) return X_NEXT;
			int r = r_block(s->body);
			if (r_stop || r == X_RET) return X_RET;
			if (r == X_BREAK) return X_NEXT;
		}
	case S_BREAK: return X_BREAK;
	case S_CONTINUE: return X_CONT;
	case S_RETURN: r_ret = s->e ? r_expr(s->e) : 0; return X_RET;
	case S_UNREACHABLE: r_trap = "unreachable"; r_stop = true; return X_RET;
	case S_NS: return r_block(s->body);
	default: return X_NEXT;
	}
}
static int r_block(RS *s) { for (; s; s = s->next) { int r = r_stmt(&s); if (r_stop) return X_RET; if (r != X_NEXT) return r; } return X_NEXT; }
static int r_depth;
static uint64_t r_call(RSym *f, const uint64_t *av) {
	RS *d = f->decl;
	if (d->k == S_EXTERNAL) {
		if (nev_ref >= NCALLS) { r_stop = true; return 0; }
		Ev *v = &ev_ref[nev_ref]; v->fn = d->name; v->n = d->np; for (int i = 0; i < d->np; i++) v->a[i] = av[i];
		v->line = r_at->line; v->col = r_at->col;
		return ext_result(nev_ref++, d->rret);
	}
	if (++r_depth > 8) { r_stop = true; return 0; }
	uint64_t save[48]; for (int i = 0; i < sy_n; i++) save[i] = sy_pool[i].val;
	for (int i = 0; i < d->np; i++) d->psym[i]->val = av[i];
	r_ret = 0; r_block(d->body); uint64_t r = r_ret;
	for (int i = 0; i < sy_n; i++) if (sy_pool[i].owner == d) sy_pool[i].val = save[i];
	r_depth--;
	return r;
}
static uint64_t gen_extern(const char *name, unsigned n, const uint64_t *a, LLVMTypeRef ret) {
	if (nev_gen >= NCALLS) { mllvm_fuel = 0; return 0; }
	Ev *v = &ev_gen[nev_gen]; v->fn = name; v->n = (int)n; for (unsigned i = 0; i < n && i < 4; i++) v->a[i] = a[i];
	MMeta *l = (MMeta *)mllvm_cur->dbg; v->line = l ? (int)l->line : 0; v->col = l ? (int)l->col : 0;
	int ty = ret->kind == MT_VOID ? R_VOID : ret->kind == MT_DOUBLE ? R_FLOAT : ret->kind == MT_PTR ? R_STR : ret->kind == MT_INT && ret->width == 1 ? R_BOOL : ret->kind == MT_INT && ret->width == 32 ? R_RUNE : R_INT;
	return ext_result(nev_gen++, ty);
}
// Run the program in the reference interpreter.
typedef struct { bool stopped; const char *trap; uint64_t v; } RRun;
static RRun ref_run(RS *prog) {
	r_stop = false; r_trap = NULL; r_fuel = 60; r_ret = 0; r_undef = false; nev_ref = 0; r_depth = 0;
	int r = r_block(prog);
	return (RRun){ r_stop && !r_trap, r_trap, r == X_RET ? r_ret : 0 };
}
// Run the generated code and compare: the same external calls with the same
// arguments in the same order, and the same exit status.
static void ref_compare(RS *prog) {
	RRun rr = ref_run(prog);
	sx_assume(!r_undef);
	mllvm_extern = gen_extern; mllvm_fuel = 3000; nev_gen = 0;
	mllvm_reset_globals(mllvm_module);
	MResult g = mllvm_run(hx_main_fn(), 0, NULL);
	int n = nev_ref < nev_gen ? nev_ref : nev_gen;
	for (int i = 0; i < n; i++) {
		sx_assert_(name_eq(ev_ref[i].fn, ev_gen[i].fn) && ev_ref[i].n == ev_gen[i].n, "the program calls another function than its source says");
		for (int k = 0; k < ev_ref[i].n; k++) sx_assert_(ev_ref[i].a[k] == ev_gen[i].a[k], "a call gets another argument than the source says");
#ifdef DEBUGINFO
		sx_assert_(ev_ref[i].line == ev_gen[i].line && ev_ref[i].col == ev_gen[i].col, "the debug location of a call is not its place in the source");
#endif
	}
	if (rr.stopped) { sx_cover("cut"); return; } // bound on calls or steps
	sx_assert_(nev_ref == nev_gen, "the program makes other calls than its source says");
	if (rr.trap) { sx_assert_(!g.ok && g.trap, "unreachable was not reached"); sx_cover("unreachable"); return; }
	sx_assert_(!mllvm_ub, "the generated code has an undefined result");
	sx_assert_(g.ok, "the generated code does not run to its end");
	sx_assert_(g.v == rr.v, "the program returns another value than its source says");
	sx_cover("ran");
}

#ifdef CBACK
// ---- the C back end
// What its output is not defined for: C leaves the order of operands and
// arguments open and skips the right side of and/or; namespaces, functions
// inside blocks and blocks without statements have no C counterpart.
static bool has_call(RE *e) {
	if (!e) return false;
	if (e->k == E_CALL) return true;
	return has_call(e->l) || has_call(e->r);
}
static bool has_mut(RE *e) {
	if (!e) return false;
	if (e->k == E_VAR) return !e->sym || !e->sym->is_const;
	if (e->k == E_CALL) { for (int i = 0; i < e->nargs; i++) if (has_mut(e->args[i])) return true; return false; }
	return (e->k == E_UN && e->op == O_DEREF) || has_mut(e->l) || has_mut(e->r);
}
static bool apart(RE *a, RE *b) { return !(has_call(a) && (has_call(b) || has_mut(b))) && !(has_call(b) && has_mut(a)); }
static bool c_expr_ok(RE *e) {
	if (!e) return true;
	if (e->k == E_CALL) {
		for (int i = 0; i < e->nargs; i++) { if (!c_expr_ok(e->args[i])) return false; for (int j = 0; j < i; j++) if (!apart(e->args[i], e->args[j])) return false; }
		return true;
	}
	if (e->k == E_BIN && ((e->op == O_AND || e->op == O_OR) ? has_call(e->r) || !apart(e->l, e->r) : !apart(e->l, e->r))) return false;
	return c_expr_ok(e->l) && c_expr_ok(e->r);
}
static bool c_emits(RS *s) { for (; s; s = s->next) if (s->k != S_COMMENT && s->k != S_ALIAS && s->k != S_FUNC && s->k != S_EXTERNAL && !(s->k == S_DEF && !s->sym)) return true; return false; }
static bool c_stmts_ok(RS *s, int level, bool infunc) {
	for (; s; s = s->next) {
		if (s->k == S_NS || (s->k == S_FUNC && level)) return false;
		if (is_block(s->k) && !c_emits(s->body)) return false;
		if (s->k == S_DEF && !level && s->sym && s->e->k == E_UN && s->e->op == O_DEREF) return false;
		if ((s->k != S_DEF || s->sym) && !c_expr_ok(s->e)) return false;
		if (s->body && !c_stmts_ok(s->body, level + 1, infunc || s->k == S_FUNC)) return false;
	}
	return true;
}
static uint64_t c_extern(CSym *f, const uint64_t *a) {
	if (nev_gen >= NCALLS) { mcc_fuel = 0; cstop = true; return 0; }
	Ev *v = &ev_gen[nev_gen]; v->fn = f->name; v->n = f->np; for (int i = 0; i < f->np && i < 4; i++) { v->a[i] = a[i]; v->str[i] = f->par[i].ptr == 1 && f->par[i].b == CT_CHAR; }
	CTy t = f->ty;
	uint64_t r = ext_result(nev_gen++, t.ptr ? R_STR : t.b == CT_VOID ? R_VOID : t.b == CT_DOUBLE ? R_FLOAT : t.b == CT_BOOL ? R_BOOL : t.b == CT_U32 ? R_RUNE : R_INT);
	return conv(r, (CTy){ CT_LONG, 0, false }, t.b == CT_DOUBLE ? (CTy){ CT_LONG, 0, false } : t);
}
static CBase c_base(int t) { return t == R_INT ? CT_LONG : t == R_FLOAT ? CT_DOUBLE : t == R_BOOL ? CT_BOOL : t == R_RUNE ? CT_U32 : t == R_STR ? CT_CHAR : CT_VOID; }
static bool c_is(CTy c, int t) { int p = 0; for (; t >= R_REF; t -= R_REF) p++; return c.ptr == p + (t == R_STR) && c.b == c_base(t); }
static void c_symbols(RS *s) { // names, types and visibility of what the top level declares
	for (; s; s = s->next) {
		if (s->k != S_FUNC && s->k != S_EXTERNAL && !(s->k == S_DEF && s->sym)) continue;
		CSym *c = mcc_find(s->name);
		sx_assert_(c != NULL && c->fn == (s->k != S_DEF), "a declaration is missing from the C program");
		sx_assert_(c_is(c->ty, s->k == S_DEF ? s->sym->ty : s->rret), "a declaration has another type in the C program");
		for (int i = 0; i < s->np; i++) sx_assert_(i < c->np && c_is(c->par[i], s->rpt[i]), "a parameter has another type in the C program");
		sx_assert_(c->is_static == (s->k != S_EXTERNAL && !s->exp), "a declaration has another visibility in the C program");
		char w[32]; snprintf(w, sizeof w, "a.%s", s->name);
		sx_assert_(c->has_asm == s->exp && (!s->exp || !strcmp(c->asm_name, w)), "a declaration has another symbol in the C program");
	}
}
static void ref_compare_c(RS *prog) {
	if (!c_stmts_ok(prog, 0, false)) { sx_cover("open"); return; }
	MioFile *f = mio_find(".a.sk.c");
	sx_assert_(f && f->written && f->len, "no C program was written");
	static char text[6000]; if (f->len >= sizeof text) sx_unmodeled("C text");
	memcpy(text, f->data, f->len); text[f->len] = 0;
#ifdef SX_NATIVE
	if (getenv("SX_SHOW")) dprintf(2, "C PROGRAM\n%s\n", text);
#endif
	if (!mcc_compile(text)) { sx_note(mcc_err);
#ifdef SX_NATIVE
		dprintf(2, "C: %s\n", mcc_err);
#endif
		sx_assert_(false, "the emitted text is not a valid C program"); }
	c_symbols(prog);
	RRun rr = ref_run(prog);
	sx_assume(!r_undef);
	mcc_extern = c_extern; nev_gen = 0; mcc_start();
	CSym *m = mcc_find("main"); sx_assert_(m && m->fn && m->body && !m->is_static && !m->np, "the C program has no main function");
	uint64_t v = crun(m, NULL);
	int n = nev_ref < nev_gen ? nev_ref : nev_gen;
	for (int i = 0; i < n; i++) {
		sx_assert_(name_eq(ev_ref[i].fn, ev_gen[i].fn) && ev_ref[i].n == ev_gen[i].n, "the C program calls another function than the source says");
		for (int k = 0; k < ev_ref[i].n; k++) sx_assert_(ev_gen[i].str[k] ? strcmp((const char *)ev_ref[i].a[k], (const char *)ev_gen[i].a[k]) == 0 : ev_ref[i].a[k] == ev_gen[i].a[k], "a call of the C program gets another argument than the source says");
	}
	if (rr.stopped) { sx_cover("cut"); return; }
	sx_assert_(nev_ref == nev_gen, "the C program makes other calls than its source says");
	if (rr.trap) { sx_assert_(cspin, "unreachable was not reached"); sx_cover("unreachable"); return; }
	sx_assert_(!mcc_ub, "the C program has an undefined result");
	sx_assert_(!cstop, "the C program does not run to its end");
	sx_assert_((int32_t)v == (int32_t)rr.v, "the C program returns another value than its source says");
	sx_cover("ran");
}
#define ref_compare ref_compare_c
#endif
