// Arbitrary bytes inside a string, a rune, a comment or the program text.
#include "hx.h"
static unsigned char t[KB + 4]; static int n;
static uint64_t got; static bool got_any;
static uint64_t sink(const char *name, unsigned k, const uint64_t *a, LLVMTypeRef ret) { got = a[0]; got_any = true; return 0; }
static uint32_t cps[KB + 1]; static int ncp;
static bool well_formed(void) { // the table of the Unicode standard
	for (int i = 0; i < n;) {
		unsigned c = t[i];
		if (c < 0x80) { cps[ncp++] = c; i++; continue; }
		int k; unsigned lo = 0x80, hi = 0xbf, v;
		if (c >= 0xc2 && c <= 0xdf) { k = 1; v = c & 31; }
		else if (c == 0xe0) { k = 2; lo = 0xa0; v = 0; }
		else if (c == 0xed) { k = 2; hi = 0x9f; v = c & 15; }
		else if (c >= 0xe1 && c <= 0xef) { k = 2; v = c & 15; }
		else if (c == 0xf0) { k = 3; lo = 0x90; v = 0; }
		else if (c >= 0xf1 && c <= 0xf3) { k = 3; v = c & 7; }
		else if (c == 0xf4) { k = 3; hi = 0x8f; v = 4; }
		else return false;
		if (i + k >= n) return false;
		for (int j = 1; j <= k; j++) { unsigned d = t[i + j]; if (d < (j == 1 ? lo : 0x80) || d > (j == 1 ? hi : 0xbf)) return false; v = v << 6 | (d & 63); }
		cps[ncp++] = v; i += k + 1;
	}
	return true;
}
void harness(void) {
	n = 1 + (int)sx_choose(KB, "len");
	sx_sym(t, 1, (size_t)n, "byte");
	for (int i = 0; i < n; i++) sx_assume((t[i] >= 0x80) | (t[i] == 'a')); // other ASCII characters mean something
	bool ok = well_formed();
	int where = (int)sx_choose(4, "where");
	static const char *const pre[] = { "external s(v: Str)\ns(\"", "external s(v: Rune)\ns('", "# ", "x := 1\n" };
	static const char *const post[] = { "\")\n", "')\n", "\nexternal s(v: Int)\ns(7)\n", "\n" };
	hx_s(pre[where]); for (int i = 0; i < n; i++) hx_c((char)t[i]); hx_s(post[where]);
	int r = hx_llvm();
	sx_assert_(r == 0 || mio_errlen > 0, "rejected without a diagnostic");
	if (!ok) { sx_assert_(r != 0, "ill-formed text is accepted"); sx_cover("ill"); return; }
	sx_cover("well");
	if (where == 3) { sx_assert_(r != 0, "a name with a non-ASCII character or a dangling name is accepted"); return; }
	if (where == 1 && ncp != 1) { sx_assert_(r != 0, "a rune with several characters is accepted"); return; }
	sx_assert_(r == 0, "well-formed text is rejected");
	mllvm_extern = sink; mllvm_reset_globals(mllvm_module);
	MResult g = mllvm_run(hx_main_fn(), 0, NULL);
	sx_assert_(g.ok && got_any, "the generated code does not run to its end");
	if (where == 0) { const unsigned char *s = (const unsigned char *)got; for (int i = 0; i < n; i++) sx_assert_(s[i] == t[i], "a character of a string is changed"); sx_assert_(s[n] == 0, "a string has more characters"); }
	else if (where == 1) sx_assert_((uint32_t)got == cps[0], "a rune has another value");
	else sx_assert_(got == 7, "a comment changes the program");
	sx_cover("value");
}
