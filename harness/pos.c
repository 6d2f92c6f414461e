// Where diagnostics point: up to NP pieces of layout, then a statement with a
// mistake in it. In the statement `~` marks the token to blame, `@` stands for
// a string or rune and each blank for some white space, chosen by the solver.
#include "hx.h"
#define DECL "mut x := 1\nx = 2\nb := x is 1\nk := 2\nf(a: Int) Int { return a }\ng() { noop }\nh(s: Str, i: Int) { noop }\nr(s: Rune, i: Int) { noop }\nif b { h(\"\", f(k)) }\nif b {\ng()\nr('q', 1) }\n"
static const char *const pieces[] = { " ", "\t", "\n", "\r\n", "# c\n", "# \xc3\xa9\xe2\x82\xac\n", "#{ c #}", "#{ a\n\xc3\xa9 #}", "#{\n\n#}", "noop\n", "h(\"a\nb\", 1)\n", "noop " };
static const char *const strs[] = { "\"\"", "\"ab\"", "\"\xc3\xa9\"", "\"\xf0\x9f\x98\x80\xe2\x82\xac\"", "\"a\nb\"", "\"\n\n\xc3\xa9\"", "\"\\\"\"", "\"\\\\\"", "\"# {\"", "\"\\n'\"" };
static const char *const runes[] = { "'a'", "'\xc3\xa9'", "'\xe2\x82\xac'", "'\xf0\x9f\x98\x80'", "'\\''", "'\\n'", "'\\x41'", "'\"'" };
static const char *const blanks[] = { " ", "\t", "  ", " \r\t" };
static const char *const bad[] = {
#ifdef ARGS // a string or rune comes before the mistake on the same line
	"h(@, ~true)\n", "h(@, ~zz)\n", "h(@, ~zz())\n", "h(@, 1 / ~0)\n", "h(@, ~99999999999999999999)\n", "h(@, 1 ~2)\n", "h(@, ~\"q\n", "h(@, x + ~b)\n", "if @ is @ { ~break }\n", "if @ is @ { ~zz = 1 }\n", "if @ is @ { g()\n~else { noop } }\n", "z := @ is ~1\n", "z: Int = ~@\n", "if ~@ { noop }\n", "h(@, f(~b))\n", "k2 := @ ~1\n",
#elif defined WARNS
	"~z := f(1)\n", "mut ~z := f(1)\nf(z)\n", "if ~true { noop }\n", "while ~false { noop }\n", "~z() { noop }\n", "if b { ~z := f(1)\n}\n", "if b { noop } elif ~true { noop }\n", "external ~z()\n", "export ~z() { noop }\n",
#else
	"~zz = 1\n", "z := ~zz\n", "z: Int = ~true\n", "~zz(1)\n", "f(~true)\n", "~break\n", "~continue\n", "~1 + 2\n", "~x\n",
	"z := ~\"abc\n", "~#{ abc\n", "z := ~'\\y'\n", "z := ~99999999999999999999\n", "z := 1 / ~0\n", "z := x mod ~0\n", "~b := 2\n", "~k = 2\n", "x = ~x\n", "x = ~true\n", "if ~1 { noop }\n", "while ~x { noop }\n",
	"z := 1 + ~true\n", "z := ~true + true\n", "z := not ~1\n", "z := - ~true\n", "z := ~Int + 1\n", "z := &~1\n", "z := *~x\n", "mut ~z := Int\n", "z: ~Nope = 1\n", "z(q: ~Nope) { noop }\n", "z() ~Nope { noop }\n", "z := Int\n~z := Bool\n",
	"return ~true\n", "~return\n", "z() Int { return ~true }\n", "~f() { noop }\n", "z(~x: Int) { noop }\n", "z() {\nexternal ~w()\n}\n", "return 1\n~g()\n", "z := ~g()\n", "~)\n", "import ~1\n",
	"~#abc\n", "z := 1.5 / ~2\n", "z := x << ~true\n", "z := ~b << b\n", "f(1 ~1)\n", "z := not ~not b\n", "z := x is ~1.5\n", "if b { ~zz = 1 }\n", "while b { g()\n~zz() }\n", "z() { ~break }\n", "namespace n { ~zz = 1 }\n", "z := f(~zz)\n", "z(a: Int ~c: Int) { noop }\n", "if b { noop } elif ~1 { noop }\n", "noop\n~else { noop }\n", "z() { return\n~g() }\n",
#endif
};
#define N(a) (sizeof a / sizeof *a)
static void put(const char *s) { hx_s(s); }
void harness(void) {
	hx_s(DECL);
	const char *o = bad[sx_choose(N(bad), "bad")];
	int np = (int)sx_choose(NP + 1, "np");
	for (int i = 0; i < np; i++) put(pieces[sx_choose(N(pieces), "piece")]);
	int line = 0, col = 0; const char *sep = NULL;
	for (; *o; o++) {
		if (*o == '~') { // count lines and characters
			line = 1; col = 1;
			for (size_t i = 0; i < hx_len; i++) { if (hx_src[i] == '\n') line++, col = 1; else if ((hx_src[i] & 0xc0) != 0x80) col++; }
		} else if (*o == '@') { put(o[-1] == '(' && hx_src[hx_len - 2] == 'r' ? runes[sx_choose(N(runes), "rune")] : strs[sx_choose(N(strs), "str")]); }
		else if (*o == ' ') { if (!sep) sep = blanks[sx_choose(N(blanks), "blank")]; put(sep); }
		else hx_c(*o);
	}
#ifdef WARNS
	int r = hx_compile("-c", NULL, NULL);
	sx_assert_(r == 0, "a valid program is rejected");
	const char *w = strstr(mio_err, "a.sk: Warning: ");
#else
	int r = hx_compile("-c", "-q", NULL);
	sx_assert_(r != 0, "a program with a mistake is accepted");
	const char *w = strstr(mio_err, "a.sk: Compilation error: ");
#endif
	sx_assert_(w != NULL, "there is no diagnostic");
	char want[64];
#ifdef WARNS
	snprintf(want, sizeof want, "a.sk: Warning: line %d column %d: ", line, col);
#else
	snprintf(want, sizeof want, "a.sk: Compilation error: line %d column %d: ", line, col);
#endif
	sx_assert_(!strncmp(w, want, strlen(want)), "the diagnostic names another line or column than that of the offending token");
	sx_cover("pos");
}
