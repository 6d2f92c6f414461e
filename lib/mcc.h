// A small C compiler and interpreter for the text the C back end emits: it
// parses the text by the rules of C (declaration before use, block scope,
// operator precedence, conversions) and runs it on symbolic values. What it
// does not understand, or what C does not allow, sets mcc_err.
#pragma once
#include "hx.h"
typedef enum { CT_VOID, CT_BOOL, CT_CHAR, CT_INT, CT_U32, CT_LONG, CT_DOUBLE, CT_FN } CBase;
typedef struct { CBase b; int ptr; bool cst; } CTy;
typedef struct CSym CSym; typedef struct CE CE; typedef struct CN CN;
struct CSym { char name[24]; CTy ty; bool fn, global, is_static, has_asm, init; char asm_name[32]; CTy par[8]; CSym *psym[8]; int np; CN *body; int slot; uint64_t val; CSym *shadow; bool gone, builtin; };
typedef enum { CX_NUM, CX_STR, CX_VAR, CX_CALL, CX_UN, CX_BIN, CX_ASG, CX_INC, CX_CAST, CX_COND } CXK;
struct CE { CXK k; int op; CTy ty; CE *a, *b, *c; CE *args[8]; int nargs; uint64_t v; CSym *s; bool post; };
typedef enum { CS_EXPR, CS_DECL, CS_IF, CS_WHILE, CS_FOR, CS_RET, CS_BREAK, CS_CONT, CS_BLOCK, CS_NOP } CSK;
struct CN { CSK k; CE *e, *i, *st; CN *a, *b, *next; CSym *s; };
enum { C_EQ = 256, C_NE, C_LE, C_GE, C_SHL, C_SHR, C_AND, C_OR, C_ADDA, C_SUBA, C_MULA, C_DIVA, C_MODA, C_INCR, C_DECR, C_IDENT, C_NUMBER, C_STRING, C_END, C_CHARLIT };

static const char *mcc_err; static bool mcc_ub;
static CSym c_sym[48]; static int c_nsym; static CE c_e[200]; static int c_ne; static CN c_n_[120]; static int c_nn;
static const char *cp_; static int ct; static char ctext[64]; static uint64_t cnum; static CTy cnumty;
static char cstr[512]; static int cstrn; static char *cstr_cur;
static bool cbad(const char *m) { if (!mcc_err) mcc_err = m; ct = C_END; return false; }
static CE *ce(CXK k) { if (c_ne == 200) sx_unmodeled("C expressions"); CE *e = &c_e[c_ne++]; memset(e, 0, sizeof *e); e->k = k; return e; }
static CN *cnode(CSK k) { if (c_nn == 120) sx_unmodeled("C statements"); CN *n = &c_n_[c_nn++]; memset(n, 0, sizeof *n); n->k = k; return n; }
static bool cid(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c >= '0' && c <= '9'); }
static int chex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int cescape(void) { // after the backslash
	int c = *cp_++, v = 0, k;
	if (c >= '0' && c <= '7') { v = c - '0'; for (k = 0; k < 2 && *cp_ >= '0' && *cp_ <= '7'; k++) v = v * 8 + *cp_++ - '0'; return v; }
	if (c == 'x') { while (chex(*cp_) >= 0) v = v * 16 + chex(*cp_++); return v; }
	const char *from = "ntrabfv\\\"'?", *to = "\n\t\r\a\b\f\v\\\"'?"; const char *p = strchr(from, c);
	if (!p || !c) { cbad("escape"); return 0; }
	return to[p - from];
}
static double cscale(double d, int e) { while (e > 0) { d *= 2; e--; } while (e < 0) { d /= 2; e++; } return d; }
static void cnumber(void) {
	bool hex = cp_[0] == '0' && (cp_[1] == 'x' || cp_[1] == 'X'), flt = false; const char *p = cp_ + (hex ? 2 : 0);
	for (const char *q = p; cid(*q) || *q == '.' || ((*q == '+' || *q == '-') && (q[-1] == 'p' || q[-1] == 'P' || (!hex && (q[-1] == 'e' || q[-1] == 'E')))); q++) if (*q == '.' || *q == 'p' || *q == 'P' || (!hex && (*q == 'e' || *q == 'E'))) flt = true;
	if (flt) {
		uint64_t m = 0; int e = 0; double den = 1;
		if (hex) {
			for (; chex(*p) >= 0; p++) m = m * 16 + (uint64_t)chex(*p);
			if (*p == '.') for (p++; chex(*p) >= 0; p++) { m = m * 16 + (uint64_t)chex(*p); e -= 4; }
			if (*p == 'p' || *p == 'P') { p++; int s = 1, x = 0; if (*p == '+' || *p == '-') s = *p++ == '-' ? -1 : 1; while (*p >= '0' && *p <= '9') x = x * 10 + *p++ - '0'; e += s * x; }
			if (m >> 60) sx_unmodeled("C float digits");
			cnum = hx_d2u(cscale((double)m, e));
		} else {
			for (; *p >= '0' && *p <= '9'; p++) m = m * 10 + (uint64_t)(*p - '0');
			if (*p == '.') for (p++; *p >= '0' && *p <= '9'; p++) { m = m * 10 + (uint64_t)(*p - '0'); den *= 10; }
			if (*p == 'e' || m > 1ull << 53) sx_unmodeled("C float digits");
			cnum = hx_d2u((double)m / den);
		}
		cnumty = (CTy){ CT_DOUBLE, 0, false }; cp_ = p; return;
	}
	bool oct = !hex && *p == '0' && p[1] >= '0' && p[1] <= '9'; uint64_t v = 0; bool over = false; uint64_t base = hex ? 16 : oct ? 8 : 10;
	for (; chex(*p) >= 0 && (hex || chex(*p) < 10); p++) { if ((uint64_t)chex(*p) >= base) cbad("digit"); uint64_t o = v; v = v * base + (uint64_t)chex(*p); if (o > UINT64_MAX / base || v < o) over = true; }
	bool l = false; while (*p == 'L' || *p == 'l') { l = true; p++; }
	if (over || v > INT64_MAX || cid(*p)) cbad("number");
	cnum = v; cnumty = (CTy){ !l && v <= INT32_MAX ? CT_INT : hex && !l && v <= UINT32_MAX ? CT_U32 : CT_LONG, 0, false }; cp_ = p;
}
static void cnext(void) {
	if (mcc_err) { ct = C_END; return; }
	for (;;) {
		while (*cp_ == ' ' || *cp_ == '\t' || *cp_ == '\n' || *cp_ == '\r') cp_++;
		if (*cp_ == '#') { while (*cp_ && *cp_ != '\n') cp_++; continue; } // #include, #line
		if (cp_[0] == '/' && cp_[1] == '/') { while (*cp_ && *cp_ != '\n') cp_++; continue; }
		if (cp_[0] == '/' && cp_[1] == '*') { cp_ += 2; while (*cp_ && !(cp_[0] == '*' && cp_[1] == '/')) cp_++; if (*cp_) cp_ += 2; continue; }
		break;
	}
	int c = (unsigned char)*cp_;
	if (!c) { ct = C_END; return; }
	if (c >= '0' && c <= '9') { ct = C_NUMBER; cnumber(); return; }
	if (cid(c)) { size_t n = 0; while (cid(*cp_)) { if (n < 63) ctext[n++] = *cp_; cp_++; } ctext[n] = 0; ct = C_IDENT; return; }
	if (c == '"') {
		cstr_cur = cstr + cstrn;
		do { // adjacent literals are joined
			cp_++;
			while (*cp_ && *cp_ != '"' && *cp_ != '\n') { if (cstrn > 500) sx_unmodeled("C strings"); if (*cp_ == '\\') { cp_++; cstr[cstrn++] = (char)cescape(); } else cstr[cstrn++] = *cp_++; }
			if (*cp_ != '"') { cbad("string"); return; }
			cp_++; while (*cp_ == ' ' || *cp_ == '\t' || *cp_ == '\n') cp_++;
		} while (*cp_ == '"');
		cstr[cstrn++] = 0; ct = C_STRING; return;
	}
	static const struct { char t[4]; int k; } two[] = { { "==", C_EQ }, { "!=", C_NE }, { "<=", C_LE }, { ">=", C_GE }, { "<<", C_SHL }, { ">>", C_SHR }, { "&&", C_AND }, { "||", C_OR }, { "+=", C_ADDA }, { "-=", C_SUBA }, { "*=", C_MULA }, { "/=", C_DIVA }, { "%=", C_MODA }, { "++", C_INCR }, { "--", C_DECR } };
	for (size_t i = 0; i < sizeof two / sizeof *two; i++) if (cp_[0] == two[i].t[0] && cp_[1] == two[i].t[1]) { cp_ += 2; ct = two[i].k; return; }
	if (!strchr("+-*/%<>=!&|^~?:;,(){}", c)) { cbad("character"); return; }
	cp_++; ct = c;
}
static bool cis(const char *w) { return ct == C_IDENT && !strcmp(ctext, w); }
static bool ceat(int t) { if (ct == t) { cnext(); return true; } return false; }
static void cwant(int t) { if (!ceat(t)) cbad("syntax"); }
static bool ctype_word(void) {
	static const char *const w[] = { "void", "bool", "_Bool", "char", "int", "long", "int64_t", "uint32_t", "char32_t", "double", "const", "static", "extern", "unsigned", "volatile" };
	if (ct != C_IDENT) return false;
	for (size_t i = 0; i < sizeof w / sizeof *w; i++) if (!strcmp(ctext, w[i])) return true;
	return false;
}
static CTy cspec(bool *st) { // specifiers without pointers
	CTy t = { CT_VOID, 0, false }; bool any = false;
	while (ctype_word()) {
		if (cis("static")) { if (st) *st = true; else cbad("static"); }
		else if (cis("const")) t.cst = true;
		else if (cis("extern") || cis("volatile")) {}
		else {
			CBase b = cis("void") ? CT_VOID : cis("bool") || cis("_Bool") ? CT_BOOL : cis("char") ? CT_CHAR : cis("int") ? CT_INT : cis("double") ? CT_DOUBLE : cis("char32_t") || cis("uint32_t") || cis("unsigned") ? CT_U32 : CT_LONG;
			if (any && !(t.b == CT_LONG && (b == CT_LONG || b == CT_INT))) cbad("type"); else if (!any) t.b = b;
			any = true;
		}
		cnext();
	}
	if (!any) cbad("type");
	return t;
}
static void cstars(CTy *t) { while (ct == '*' || (ct == C_IDENT && cis("const"))) { if (ct == '*') { t->ptr++; t->cst = false; } else t->cst = true; cnext(); } }
static CSym *clook(const char *n) { for (int i = c_nsym; i-- > 0;) if (!c_sym[i].gone && !strcmp(c_sym[i].name, n)) return &c_sym[i]; return NULL; }
static CSym *cdecl_(const char *n, CTy t) {
	if (c_nsym == 48) sx_unmodeled("C names");
	CSym *s = &c_sym[c_nsym++]; memset(s, 0, sizeof *s);
	if (strlen(n) > 23) sx_unmodeled("C name length");
	strcpy(s->name, n); s->ty = t; return s;
}
static bool cnumeric(CTy t) { return !t.ptr && t.b != CT_VOID && t.b != CT_FN; }
static CTy cprom(CTy t) { t.cst = false; if (t.b == CT_BOOL || t.b == CT_CHAR) t.b = CT_INT; return t; }
static CTy carith(CTy a, CTy b) { a = cprom(a); b = cprom(b); return a.b >= b.b ? a : b; }
static bool cfits(CTy to, CTy from) { // assignment without a cast
	if (to.ptr || from.ptr) return to.ptr == from.ptr && (to.b == from.b || to.b == CT_VOID || from.b == CT_VOID);
	if (to.b == CT_FN || from.b == CT_FN) return to.b == from.b;
	return cnumeric(to) && cnumeric(from);
}
static CE *cexpr(void); static CE *cassign(void); static CE *cunary(void);
static CE *cprimary(void) {
	CE *e;
	if (ct == C_NUMBER) { e = ce(CX_NUM); e->v = cnum; e->ty = cnumty; cnext(); }
	else if (ct == C_STRING) { e = ce(CX_STR); e->v = (uint64_t)cstr_cur; e->ty = (CTy){ CT_CHAR, 1, false }; cnext(); }
	else if (ct == '(') { cnext(); e = cexpr(); cwant(')'); }
	else if (cis("true") || cis("false")) { e = ce(CX_NUM); e->v = cis("true"); e->ty = (CTy){ CT_BOOL, 0, false }; cnext(); }
	else if (ct == C_IDENT) {
		e = ce(CX_VAR); e->s = clook(ctext);
		if (!e->s && (cis("pow") || cis("fmod"))) { e->s = cdecl_(ctext, (CTy){ CT_DOUBLE, 0, false }); e->s->fn = e->s->builtin = e->s->global = true; e->s->np = 2; e->s->par[0] = e->s->par[1] = e->s->ty; }
		if (!e->s) { cbad("undeclared name"); return e; }
		e->ty = e->s->fn ? (CTy){ CT_FN, 0, false } : e->s->ty; cnext();
	} else { cbad("expression"); return ce(CX_NUM); }
	for (;;) {
		if (ct == '(') {
			CE *c = ce(CX_CALL); c->a = e; cnext();
			if (e->k != CX_VAR || !e->s || (!e->s->fn && e->s->ty.b != CT_FN)) { cbad("call"); return c; }
			while (ct != ')' && ct != C_END) { if (c->nargs == 8) sx_unmodeled("C arguments"); c->args[c->nargs++] = cassign(); if (ct != ',') break; cnext(); }
			cwant(')');
			if (c->nargs != e->s->np) cbad("number of arguments");
			for (int i = 0; i < c->nargs && !mcc_err; i++) if (!cfits(e->s->par[i], c->args[i]->ty)) cbad("argument type");
			c->ty = e->s->fn ? e->s->ty : (CTy){ CT_DOUBLE, 0, false };
			e = c;
		} else if (ct == C_INCR || ct == C_DECR) { CE *c = ce(CX_INC); c->a = e; c->op = ct; c->post = true; c->ty = e->ty; if (e->ty.cst || e->k != CX_VAR) cbad("increment"); cnext(); e = c; }
		else return e;
	}
}
static CE *cunary(void) {
	int t = ct;
	if (t == '!' || t == '-' || t == '+' || t == '~' || t == '*' || t == '&') {
		cnext(); CE *e = ce(CX_UN); e->op = t; e->a = cunary(); CTy a = e->a->ty;
		if (mcc_err) return e;
		switch (t) {
		case '!': if (!cnumeric(a) && !a.ptr) cbad("operand"); e->ty = (CTy){ CT_INT, 0, false }; break;
		case '*': if (!a.ptr || (a.ptr == 1 && a.b == CT_VOID)) cbad("dereference"); e->ty = a; e->ty.ptr--; e->ty.cst = false; break;
		case '&': if (e->a->k != CX_VAR || e->a->s->fn) cbad("address"); e->ty = a; e->ty.ptr++; e->ty.cst = false; break;
		default: if (!cnumeric(a) || (t == '~' && a.b == CT_DOUBLE)) cbad("operand"); e->ty = cprom(a);
		}
		return e;
	}
	if (t == C_INCR || t == C_DECR) { cnext(); CE *e = ce(CX_INC); e->op = t; e->a = cunary(); e->ty = e->a->ty; if (e->ty.cst || e->a->k != CX_VAR) cbad("increment"); return e; }
	if (t == '(') {
		const char *save = cp_; cnext();
		if (ctype_word()) { CTy ty = cspec(NULL); cstars(&ty); cwant(')'); CE *e = ce(CX_CAST); e->a = cunary(); e->ty = ty; if ((ty.ptr > 0) != (e->a->ty.ptr > 0) && ty.b != CT_VOID) cbad("cast"); return e; }
		cp_ = save; ct = '(';
	}
	return cprimary();
}
static int cprec(int t) {
	switch (t) { case '*': case '/': case '%': return 10; case '+': case '-': return 9; case C_SHL: case C_SHR: return 8; case '<': case '>': case C_LE: case C_GE: return 7; case C_EQ: case C_NE: return 6; case '&': return 5; case '^': return 4; case '|': return 3; case C_AND: return 2; case C_OR: return 1; }
	return 0;
}
static CE *cbinary(int min) {
	CE *l = cunary();
	for (int p; (p = cprec(ct)) && p >= min;) {
		CE *e = ce(CX_BIN); e->op = ct; cnext(); e->a = l; e->b = cbinary(p + 1);
		if (mcc_err) return e;
		CTy a = l->ty, b = e->b->ty, i = { CT_INT, 0, false };
		switch (e->op) {
		case C_AND: case C_OR: if ((!cnumeric(a) && !a.ptr) || (!cnumeric(b) && !b.ptr)) cbad("operand"); e->ty = i; break;
		case C_EQ: case C_NE: case '<': case '>': case C_LE: case C_GE: if (!(cnumeric(a) && cnumeric(b)) && !(a.ptr && a.ptr == b.ptr && a.b == b.b)) cbad("operand"); e->ty = i; break;
		case C_SHL: case C_SHR: if (!cnumeric(a) || !cnumeric(b) || a.b == CT_DOUBLE || b.b == CT_DOUBLE) cbad("operand"); e->ty = cprom(a); break;
		case '%': case '&': case '|': case '^': if (!cnumeric(a) || !cnumeric(b) || a.b == CT_DOUBLE || b.b == CT_DOUBLE) cbad("operand"); e->ty = carith(a, b); break;
		default: if (!cnumeric(a) || !cnumeric(b)) cbad("operand"); e->ty = carith(a, b);
		}
		l = e;
	}
	return l;
}
static CE *cassign(void) {
	CE *l = cbinary(1);
	if (ct == '?') { CE *e = ce(CX_COND); e->a = l; cnext(); e->b = cexpr(); cwant(':'); e->c = cassign(); e->ty = cnumeric(e->b->ty) ? carith(e->b->ty, e->c->ty) : e->b->ty; return e; }
	if (ct == '=' || (ct >= C_ADDA && ct <= C_MODA)) {
		CE *e = ce(CX_ASG); e->op = ct; e->a = l;
		if (!(l->k == CX_VAR && !l->s->fn) && !(l->k == CX_UN && l->op == '*')) cbad("not assignable");
		if (l->ty.cst && !l->ty.ptr) cbad("assignment to a constant");
		cnext(); e->b = cassign(); e->ty = l->ty;
		if (!mcc_err && !cfits(l->ty, e->b->ty)) cbad("assigned type");
		return e;
	}
	return l;
}
static CE *cexpr(void) { return cassign(); }
static bool cconst(CE *e) { // a constant expression, as needed for the initial value of a global
	switch (e->k) {
	case CX_NUM: case CX_STR: return true;
	case CX_VAR: return e->s->fn || (e->s->global && e->s->ty.cst && !e->s->ty.ptr); // constants: accepted since C23-era compilers
	case CX_UN: return e->op == '&' ? e->a->s->global : e->op == '*' ? e->a->k == CX_VAR && e->a->s->global : cconst(e->a);
	case CX_BIN: return cconst(e->a) && cconst(e->b);
	case CX_CAST: return cconst(e->a);
	default: return false;
	}
}
static int cframe; // slots used by the function being parsed
static int cloop; static CTy cret; static int cscope;
static CN *cstmt(void);
static CN *cblock(void) {
	CN *b = cnode(CS_BLOCK), *last = NULL; int m = c_nsym, os = cscope; cscope = c_nsym; cwant('{');
	while (ct != '}' && ct != C_END) { CN *s = cstmt(); if (last) last->next = s; else b->a = s; last = s; }
	cwant('}');
	for (int i = m; i < c_nsym; i++) if (!c_sym[i].global) c_sym[i].gone = true;
	cscope = os;
	return b;
}
static CN *clocal(void) {
	CTy t = cspec(NULL); cstars(&t); CN *n = cnode(CS_DECL);
	if (ct != C_IDENT || ctype_word()) { cbad("declaration"); return n; }
	for (int i = cscope; i < c_nsym; i++) if (!c_sym[i].gone && !c_sym[i].global && !strcmp(c_sym[i].name, ctext)) cbad("name declared twice in a block");
	char nm[64]; strcpy(nm, ctext); cnext();
	CSym *s = cdecl_(nm, t); s->slot = cframe++; n->s = s;
	if (!cnumeric(t) && !t.ptr) cbad("variable type");
	if (ceat('=')) { n->e = cexpr(); if (!mcc_err && !cfits(t, n->e->ty)) cbad("type of an initial value"); }
	cwant(';'); return n;
}
static CE *ccond(void) { cwant('('); CE *e = cexpr(); cwant(')'); if (!mcc_err && !cnumeric(e->ty) && !e->ty.ptr) cbad("condition"); return e; }
static CN *cstmt(void) {
	CN *n;
	if (ct == '{') return cblock();
	if (ceat(';')) return cnode(CS_NOP);
	if (cis("if")) { cnext(); n = cnode(CS_IF); n->e = ccond(); n->a = cstmt(); if (cis("else")) { cnext(); n->b = cstmt(); } return n; }
	if (cis("while")) { cnext(); n = cnode(CS_WHILE); n->e = ccond(); cloop++; n->a = cstmt(); cloop--; return n; }
	if (cis("for")) {
		cnext(); cwant('('); int m = c_nsym; n = cnode(CS_FOR);
		if (ctype_word()) n->b = clocal(); else { if (ct != ';') n->i = cexpr(); cwant(';'); }
		if (ct != ';') n->e = cexpr();
		cwant(';');
		if (ct != ')') n->st = cexpr();
		cwant(')'); cloop++; n->a = cstmt(); cloop--;
		for (int i = m; i < c_nsym; i++) if (!c_sym[i].global) c_sym[i].gone = true;
		return n;
	}
	if (cis("return")) {
		cnext(); n = cnode(CS_RET);
		if (ct != ';') { n->e = cexpr(); if (!mcc_err && (cret.b == CT_VOID && !cret.ptr ? true : !cfits(cret, n->e->ty))) cbad("returned type"); }
		else if (cret.b != CT_VOID) cbad("return without a value");
		cwant(';'); return n;
	}
	if (cis("break")) { cnext(); if (!cloop) cbad("break"); cwant(';'); return cnode(CS_BREAK); }
	if (cis("continue")) { cnext(); if (!cloop) cbad("continue"); cwant(';'); return cnode(CS_CONT); }
	if (cis("else")) { cbad("else without if"); return cnode(CS_NOP); }
	if (ctype_word()) return clocal();
	n = cnode(CS_EXPR); n->e = cexpr(); cwant(';'); return n;
}
static void ctop(void) {
	bool st = false; CTy t = cspec(&st); cstars(&t); bool fp = false;
	if (ct == '(') { cnext(); cwant('*'); fp = true; }
	if (ct != C_IDENT || ctype_word()) { cbad("declaration"); return; }
	char nm[64]; strcpy(nm, ctext); cnext();
	if (fp) cwant(')');
	CSym *old = clook(nm), *s;
	if (ct == '(') {
		CSym f; memset(&f, 0, sizeof f); cnext(); int m = c_nsym; char pn[8][24];
		if (cis("void")) { const char *sv = cp_; cnext(); if (ct != ')') { cp_ = sv; ct = C_IDENT; strcpy(ctext, "void"); } }
		while (ct != ')' && ct != C_END) {
			if (f.np == 8) sx_unmodeled("C parameters");
			CTy p = cspec(NULL); cstars(&p); if (!cnumeric(p) && !p.ptr) cbad("parameter type");
			f.par[f.np] = p; pn[f.np][0] = 0;
			if (ct == C_IDENT && !ctype_word()) { if (strlen(ctext) > 23) sx_unmodeled("C name"); strcpy(pn[f.np], ctext); for (int i = 0; i < f.np; i++) if (!strcmp(pn[i], ctext)) cbad("two parameters with one name"); cnext(); }
			f.np++; if (ct != ',') break; cnext();
		}
		cwant(')'); (void)m;
		if (fp) { // pointer to a function of two doubles
			s = cdecl_(nm, (CTy){ CT_FN, 0, false }); s->global = true; s->np = f.np; memcpy(s->par, f.par, sizeof f.par);
			if (t.b != CT_DOUBLE || t.ptr) sx_unmodeled("C function pointer");
			if (ceat('=')) { CE *e = cexpr(); if (mcc_err) return; if (e->k != CX_VAR || !e->s->fn) cbad("initial value"); else s->val = (uint64_t)e->s; }
			cwant(';'); return;
		}
		if (old && old->global && old->fn) {
			s = old; if (s->ty.b != t.b || s->ty.ptr != t.ptr || s->np != f.np) cbad("conflicting declaration");
			for (int i = 0; i < f.np && !mcc_err; i++) if (s->par[i].b != f.par[i].b || s->par[i].ptr != f.par[i].ptr) cbad("conflicting declaration");
			if (st != s->is_static) cbad("conflicting linkage");
		}
		else if (old && !old->gone) { cbad("name declared twice"); return; }
		else { s = cdecl_(nm, t); s->fn = s->global = true; s->is_static = st; s->np = f.np; memcpy(s->par, f.par, sizeof f.par); }
		if (cis("__asm__")) { cnext(); cwant('('); if (ct == C_STRING && strlen(cstr_cur) < 32) { strcpy(s->asm_name, cstr_cur); s->has_asm = true; } cwant(C_STRING); cwant(')'); }
		if (ceat(';')) return;
		if (s->body) { cbad("function defined twice"); return; }
		int k = c_nsym; cframe = f.np; cret = t; cloop = 0; cscope = k;
		for (int i = 0; i < f.np && !mcc_err; i++) { s->psym[i] = cdecl_(pn[i], f.par[i]); s->psym[i]->slot = i; }
		s->body = cnode(CS_NOP); CN *b = cblock(); s->body = b; s->slot = cframe;
		for (int i = k; i < c_nsym; i++) if (!c_sym[i].global) c_sym[i].gone = true;
		return;
	}
	if (old && !old->gone) { cbad("name declared twice"); return; }
	if (!cnumeric(t) && !t.ptr) cbad("variable type");
	s = cdecl_(nm, t); s->global = true; s->is_static = st;
	if (cis("__asm__")) { cnext(); cwant('('); if (ct == C_STRING && strlen(cstr_cur) < 32) { strcpy(s->asm_name, cstr_cur); s->has_asm = true; } cwant(C_STRING); cwant(')'); }
	if (ceat('=')) {
		CE *e = cexpr(); if (mcc_err) return;
		if (!cfits(t, e->ty)) cbad("type of an initial value");
		if (!cconst(e)) cbad("the initial value of a global is not constant");
		s->shadow = (CSym *)e; s->init = true;
	}
	cwant(';');
}

// ---- running
static uint64_t cmem[160]; static int csp, cbase; static unsigned mcc_fuel; static bool cstop; static uint64_t cretv;
typedef uint64_t (*CExtern)(CSym *f, const uint64_t *a);
static CExtern mcc_extern;
static uint64_t conv(uint64_t v, CTy from, CTy to) {
	if (to.ptr || to.b == CT_FN || to.b == CT_VOID) return v;
	if (from.ptr) return to.b == CT_BOOL ? v != 0 : v;
	if (to.b == CT_BOOL) return from.b == CT_DOUBLE ? hx_u2d(v) != 0 : v != 0;
	if (to.b == CT_DOUBLE) return from.b == CT_DOUBLE ? v : hx_d2u(from.b == CT_U32 ? (double)(uint32_t)v : (double)(int64_t)v);
	if (from.b == CT_DOUBLE) sx_unmodeled("C float to integer");
	switch (to.b) { case CT_CHAR: return (uint64_t)(int64_t)(int8_t)v; case CT_INT: return (uint64_t)(int64_t)(int32_t)v; case CT_U32: return (uint32_t)v; default: return v; }
}
static uint64_t cload(uint64_t a, CTy t) { return !t.ptr && t.b == CT_CHAR ? (uint64_t)(int64_t)*(const signed char *)a : *(uint64_t *)a; }
static void cstore(uint64_t a, CTy t, uint64_t v) { if (!t.ptr && t.b == CT_CHAR) *(char *)a = (char)v; else *(uint64_t *)a = v; }
static uint64_t ceval(CE *e);
static uint64_t caddr(CE *e) { if (e->k == CX_VAR) return e->s->global ? (uint64_t)&e->s->val : (uint64_t)&cmem[cbase + e->s->slot]; return ceval(e->a); }
static uint64_t cnarrow(CTy t, int64_t v, bool over) { if (t.b == CT_INT) { mcc_ub |= over | (v != (int32_t)v); return (uint64_t)(int64_t)(int32_t)v; } if (t.b == CT_U32) return (uint32_t)v; mcc_ub |= over; return (uint64_t)v; }
static uint64_t carithop(int op, CTy t, uint64_t a, uint64_t b) {
	if (t.b == CT_DOUBLE) { double x = hx_u2d(a), y = hx_u2d(b); switch (op) { case '+': return hx_d2u(x + y); case '-': return hx_d2u(x - y); case '*': return hx_d2u(x * y); default: return hx_d2u(x / y); } }
	int64_t x = (int64_t)a, y = (int64_t)b, r = 0; bool o = false;
	switch (op) {
	case '+': o = __builtin_add_overflow(x, y, &r); break;
	case '-': o = __builtin_sub_overflow(x, y, &r); break;
	case '*': o = __builtin_mul_overflow(x, y, &r); break;
	case '/': case '%': { uint64_t z = (uint64_t)((y == 0) | ((y == -1) & (x == INT64_MIN))); mcc_ub |= (bool)z; y = (int64_t)(((uint64_t)y & (z - 1)) | z); r = op == '/' ? x / y : x % y; break; }
	case '&': r = x & y; break; case '|': r = x | y; break; default: r = x ^ y;
	}
	return cnarrow(t, r, o);
}
static uint64_t crun(CSym *f, const uint64_t *av);
static bool ctruth(uint64_t v, CTy t) { return !t.ptr && t.b == CT_DOUBLE ? hx_u2d(v) != 0 : v != 0; }
static uint64_t ceval(CE *e) {
	if (cstop) return 0;
	switch (e->k) {
	case CX_NUM: case CX_STR: return e->v;
	case CX_VAR: return e->s->fn ? (uint64_t)e->s : cload(caddr(e), e->ty);
	case CX_CAST: return conv(ceval(e->a), e->a->ty, e->ty);
	case CX_COND: { uint64_t c = ceval(e->a); if (cstop) return 0; CE *x = ctruth(c, e->a->ty) ? e->b : e->c; return conv(ceval(x), x->ty, e->ty); }
	case CX_CALL: {
		uint64_t av[8]; CSym *f = e->a->s; if (!f->fn) { f = (CSym *)f->val; if (!f) { mcc_ub = true; return 0; } }
		for (int i = 0; i < e->nargs; i++) { av[i] = conv(ceval(e->args[i]), e->args[i]->ty, f->par[i]); if (cstop) return 0; }
		return crun(f, av); }
	case CX_UN: {
		if (e->op == '&') return caddr(e->a);
		uint64_t v = ceval(e->a); if (cstop) return 0;
		switch (e->op) {
		case '!': return !ctruth(v, e->a->ty);
		case '*': return cload(v, e->ty);
		case '~': return e->ty.b == CT_U32 ? (uint32_t)~v : ~v;
		case '+': return v;
		default: if (e->ty.b == CT_DOUBLE) return v ^ (1ull << 63); return cnarrow(e->ty, (int64_t)(0 - v), e->ty.b == CT_LONG && (int64_t)v == INT64_MIN);
		} }
	case CX_INC: { uint64_t a = caddr(e->a), v = cload(a, e->ty), n = e->ty.ptr ? v + (uint64_t)((e->op == C_INCR ? 1 : -1) * (e->ty.ptr == 1 && e->ty.b == CT_CHAR ? 1 : 8)) : conv(carithop(e->op == C_INCR ? '+' : '-', cprom(e->ty), v, 1), cprom(e->ty), e->ty); cstore(a, e->ty, n); return e->post ? v : n; }
	case CX_ASG: {
		uint64_t v = ceval(e->b); if (cstop) return 0;
		uint64_t a = caddr(e->a); if (cstop) return 0;
		if (e->op != '=') { CTy t = carith(e->ty, e->b->ty); v = conv(carithop("+-*/%"[e->op - C_ADDA], t, conv(cload(a, e->ty), e->ty, t), conv(v, e->b->ty, t)), t, e->ty); }
		else v = conv(v, e->b->ty, e->ty);
		cstore(a, e->ty, v); return v; }
	case CX_BIN: {
		uint64_t a = ceval(e->a); if (cstop) return 0;
		if (e->op == C_AND) { if (!ctruth(a, e->a->ty)) return 0; uint64_t b = ceval(e->b); return ctruth(b, e->b->ty); }
		if (e->op == C_OR) { if (ctruth(a, e->a->ty)) return 1; uint64_t b = ceval(e->b); return ctruth(b, e->b->ty); }
		uint64_t b = ceval(e->b); if (cstop) return 0;
		if (e->op == C_SHL || e->op == C_SHR) {
			uint64_t w = e->ty.b == CT_LONG ? 64 : 32; mcc_ub |= b >= w; b &= w - 1;
			if (e->op == C_SHR) return e->ty.b == CT_U32 ? (uint32_t)a >> b : (uint64_t)((int64_t)a >> b);
			return w == 64 ? a << b : e->ty.b == CT_U32 ? (uint32_t)(a << b) : cnarrow(e->ty, (int64_t)(a << b), false); }
		if (e->a->ty.ptr) return e->op == C_EQ ? a == b : e->op == C_NE ? a != b : (sx_unmodeled("C pointer order"), 0);
		CTy t = carith(e->a->ty, e->b->ty); a = conv(a, e->a->ty, t); b = conv(b, e->b->ty, t);
		if (t.b == CT_DOUBLE) { double x = hx_u2d(a), y = hx_u2d(b); switch (e->op) { case C_EQ: return x == y; case C_NE: return x != y; case '<': return x < y; case '>': return x > y; case C_LE: return x <= y; case C_GE: return x >= y; } }
		else { int64_t x = (int64_t)a, y = (int64_t)b; switch (e->op) { case C_EQ: return x == y; case C_NE: return x != y; case '<': return x < y; case '>': return x > y; case C_LE: return x <= y; case C_GE: return x >= y; } }
		return carithop(e->op, t, a, b); }
	}
	return 0;
}
static bool cspin; // an endless loop without effect
static int cexec(CN *n, CTy ret) {
	for (; n; n = n->next) {
		if (mcc_fuel == 0) { cstop = true; return 3; }
		mcc_fuel--;
		int r = 0;
		switch (n->k) {
		case CS_EXPR: ceval(n->e); break;
		case CS_DECL: if (n->e) { uint64_t v = conv(ceval(n->e), n->e->ty, n->s->ty); if (!cstop) cmem[cbase + n->s->slot] = v; } break;
		case CS_BLOCK: r = cexec(n->a, ret); break;
		case CS_IF: { uint64_t c = ceval(n->e); if (cstop) return 3; r = ctruth(c, n->e->ty) ? cexec(n->a, ret) : n->b ? cexec(n->b, ret) : 0; break; }
		case CS_WHILE: case CS_FOR:
			if (n->k == CS_WHILE && n->e->k == CX_NUM && n->e->v && n->a->k == CS_BLOCK && !n->a->a) { cspin = cstop = true; return 3; }
			if (n->i) ceval(n->i);
			if (n->b) cexec(n->b, ret);
			for (;;) {
				if (mcc_fuel == 0) { cstop = true; return 3; }
				mcc_fuel--;
				if (n->e) { uint64_t c = ceval(n->e); if (cstop) return 3; if (!ctruth(c, n->e->ty)) break; }
				r = cexec(n->a, ret); if (cstop || r == 3) return 3;
				if (r == 1) break;
				if (n->st) ceval(n->st);
			}
			r = 0; break;
		case CS_RET: if (n->e) { uint64_t v = conv(ceval(n->e), n->e->ty, ret); if (!cstop) cretv = v; } return 3;
		case CS_BREAK: return 1;
		case CS_CONT: return 2;
		default: break;
		}
		if (cstop) return 3;
		if (r) return r;
	}
	return 0;
}
double sx_frem(double, double); double sx_fpow(double, double);
static int cdepth;
static uint64_t crun(CSym *f, const uint64_t *av) {
	if (f->builtin) return hx_d2u(f->name[0] == 'p' ? sx_fpow(hx_u2d(av[0]), hx_u2d(av[1])) : sx_frem(hx_u2d(av[0]), hx_u2d(av[1])));
	if (!f->body) return mcc_extern(f, av);
	if (++cdepth > 12) { cstop = true; return 0; }
	int ob = cbase, os = csp; cbase = csp; csp += f->slot; if (csp > 160) sx_unmodeled("C stack");
	for (int i = 0; i < f->np; i++) cmem[cbase + i] = av[i];
	cretv = 0; cexec(f->body, f->ty); uint64_t r = cretv;
	cbase = ob; csp = os; cdepth--;
	return r;
}
static bool mcc_compile(const char *text) {
	mcc_err = NULL; c_nsym = c_ne = c_nn = cstrn = 0; cp_ = text; cscope = 0; cnext();
	while (ct != C_END) ctop();
	return !mcc_err;
}
static CSym *mcc_find(const char *n) { for (int i = 0; i < c_nsym; i++) if (c_sym[i].global && !strcmp(c_sym[i].name, n)) return &c_sym[i]; return NULL; }
static void mcc_start(void) {
	mcc_ub = cstop = cspin = false; csp = cbase = cdepth = 0; mcc_fuel = 600;
	for (int i = 0; i < c_nsym; i++) if (c_sym[i].init) { CE *e = (CE *)c_sym[i].shadow; c_sym[i].val = conv(ceval(e), e->ty, c_sym[i].ty); }
}
