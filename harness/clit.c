// Literals in the output of the C back end: they keep their exact value, as
// argument, initial value of a global or local, assigned or returned value and
// operand. Strings have symbolic characters.
#define NCALLS 3
#include "ref.h"
static const int64_t ints[] = { 0, 1, -1, 2147483647, 2147483648, -2147483648ll, -2147483649ll, INT64_MAX, INT64_MIN, INT64_MIN + 1, 4294967295, 4294967296, 1000000007, 10, 64 };
static const struct { const char *t; double v; } flts[] = { { "0.0", 0.0 }, { "-0.0", -0.0 }, { "1.0", 1.0 }, { "-1.0", -1.0 }, { "0.1", 0.1 }, { "123456789.0", 123456789.0 }, { "16777217.0", 16777217.0 }, { "4503599627370497.5", 4503599627370497.5 }, { "0.000001", 0.000001 }, { "-2.5", -2.5 }, { "Infinity", __builtin_inf() }, { "-Infinity", -__builtin_inf() } };
static const struct { const char *t; uint32_t v; } runes[] = { { "x", 'x' }, { "\\'", '\'' }, { "\\\\", '\\' }, { "\\n", 10 }, { "\\x00", 0 }, { "\\x10FFFF", 0x10ffff }, { "\xe2\x82\xac", 0x20ac }, { "\xf0\x9f\x98\x80", 0x1f600 }, { "\"", '"' } };
static const struct { const char *t, *v; } strs[] = { { "", "" }, { "\\\\", "\\" }, { "\\\"", "\"" }, { "\\n\\t\\r\\e", "\n\t\r\033" }, { "\\x41\\x42", "AB" }, { "\\x3F?=", "??=" }, { "\xe2\x82\xac", "\xe2\x82\xac" }, { "\\x010", "\x10" }, { "\\x0001", "\001" }, { "a # b", "a # b" }, { "%s%d%%", "%s%d%%" }, { "'", "'" }, { "//*", "//*" } };
static char sym[2][8];
static RE *value(int t, int which) {
	RE *e;
	switch (t) {
	case R_INT: return e_int(ints[sx_choose(sizeof ints / sizeof *ints, "int")]);
	case R_FLOAT: { unsigned k = sx_choose(sizeof flts / sizeof *flts, "float"); return e_flt(flts[k].t, flts[k].v); }
	case R_BOOL: return e_bool(sx_choose(2, "bool"));
	case R_RUNE: { unsigned k = sx_choose(sizeof runes / sizeof *runes, "rune"); e = re_new(E_RUNE); e->text = runes[k].t; e->v = runes[k].v; return e; }
	default: {
		e = re_new(E_STR); unsigned k = sx_choose(sizeof strs / sizeof *strs + 1, "str");
		if (k < sizeof strs / sizeof *strs) { e->text = strs[k].t; e->v = (uint64_t)strs[k].v; return e; }
		unsigned n = 1 + sx_choose(NB, "len"); char *s = sym[which]; sx_sym(s, 1, n, "char");
		for (unsigned i = 0; i < n; i++) sx_assume((s[i] > 0) & (s[i] != '"') & (s[i] != '\\') & (s[i] != '\n'));
		e->text = s; e->v = (uint64_t)s; return e; }
	}
}
void harness(void) {
	int t = TY;
	RS *sink = s_func(S_EXTERNAL, "t", R_VOID, NULL); s_param(sink, "v", t);
	RS *p = sink; RE *v = value(t, 0), *u;
	switch (sx_choose(t == R_STR ? 7 : 6, "place")) {
	case 0: s_then(p, s_e(S_EXPR, e_call("t", 1, v, 0, 0))); break;
	case 1: s_then(p, s_def("x", false, 0, v)); s_then(p, s_e(S_EXPR, e_call("t", 1, e_var("x"), 0, 0))); break;
	case 2: { RS *f = s_func(S_FUNC, "f", t, s_def("x", false, t, v)); s_then(f->body, s_e(S_RETURN, e_var("x"))); s_then(p, f); s_then(p, s_e(S_EXPR, e_call("t", 1, e_call("f", 0, 0, 0, 0), 0, 0))); break; }
	case 3: s_then(p, s_func(S_FUNC, "f", t, s_e(S_RETURN, v))); s_then(p, s_e(S_EXPR, e_call("t", 1, e_call("f", 0, 0, 0, 0), 0, 0))); break;
	case 4: u = value(t, 1); s_then(p, s_def("x", true, 0, u)); s_then(p, s_e(S_EXPR, e_call("t", 1, e_var("x"), 0, 0))); s_then(p, s_set("x", v)); s_then(p, s_e(S_EXPR, e_call("t", 1, e_var("x"), 0, 0))); break;
	case 5: { RS *x = s_def("x", false, 0, v); x->exp = true; s_then(p, x); s_then(p, s_e(S_EXPR, e_call("t", 1, e_var("x"), 0, 0))); break; }
	default: u = value(t, 1); { RS *i = s_body(S_IF, e_bin(sx_choose(2, "isnt") ? O_ISNT : O_IS, v, u), s_e(S_EXPR, e_call("t", 1, v, 0, 0))); s_then(p, i); }
	}
	p_block(p);
	if (!ref_check(p)) sx_unmodeled("reference check");
	int r = hx_llvm();
	sx_assert_(r == 0, "a valid literal is rejected");
	ref_compare(p);
}
