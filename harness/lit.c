// Literals: a symbolic text of up to KB bytes in literal position; the
// compiler accepts exactly the well-formed ones, and the program uses exactly
// the value the text spells.
#define NCALLS 2
#include "ref.h"
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
static unsigned char t[96]; static int n; // the literal
static bool isd(int c) { return c >= '0' && c <= '9'; }
static int hexv(int c) { return isd(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static uint64_t got; static bool got_any;
static uint64_t sink(const char *name, unsigned k, const uint64_t *a, LLVMTypeRef ret) { (void)name; (void)k; (void)ret; got = a[0]; got_any = true; return 0; }

#if defined(INT)
static bool ref_int(uint64_t *out) { // 64-bit signed
	int i = 0, base = 10; bool neg = false;
	if (n > 2 && t[0] == '0' && (t[1] == 'x' || t[1] == 'o' || t[1] == 'b')) { base = t[1] == 'x' ? 16 : t[1] == 'o' ? 8 : 2; i = 2; }
	else if (t[0] == '-') { neg = true; i = 1; }
	if (i >= n) return false;
	uint64_t v = 0; bool dig = false, over = false;
	for (; i < n; i++) {
		if (t[i] == '_') { if (!dig || i + 1 >= n) return false; dig = false; continue; }
		int d = base == 16 ? hexv((char)t[i]) : isd((char)t[i]) ? (char)t[i] - '0' : -1;
		if (d < 0 || d >= base) return false;
		dig = true;
		uint64_t b = (uint64_t)base, q = UINT64_MAX / b, m = UINT64_MAX % b;
		over |= (v > q) | ((v == q) & ((uint64_t)d > m)); v = v * b + (uint64_t)d;
	}
	if (over || v > (neg ? 1ull << 63 : (1ull << 63) - 1)) return false;
	*out = neg ? 0 - v : v; return true;
}
#elif defined(FLT)
static bool is_word(int i, const char *w) { for (; *w; w++, i++) if (i >= n || t[i] != (unsigned char)*w) return false; return i == n; }
static bool ref_flt(uint64_t *out, bool *nan) { // fewer than 16 digits: the quotient of two exact doubles is the nearest
	int i = 0; bool neg = false; *nan = false;
	if (is_word(0, "NaN")) { *nan = true; return true; }
	if (t[0] == '-') { neg = true; i = 1; }
	if (is_word(i, "Infinity")) { *out = hx_d2u(neg ? -__builtin_inf() : __builtin_inf()); return true; }
	int64_t v = 0; bool dig = false; int frac = 0; double p = 1;
	for (; i < n && t[i] != '.'; i++) {
		if (t[i] == '_') { if (!dig) return false; dig = false; continue; }
		if (!isd(t[i])) return false;
		dig = true; v = v * 10 + ((char)t[i] - '0');
	}
	if (!dig || i >= n) return false;
	for (i++; i < n; i++) { if (!isd(t[i])) return false; v = v * 10 + ((char)t[i] - '0'); p *= 10; frac++; }
	if (!frac) return false;
	double d = (double)v / p; uint64_t u = hx_d2u(d);
	*out = neg ? u ^ (1ull << 63) : u; return true;
}
#else
// text between quotes -> code points; false: not a well-formed literal
static uint32_t cp[64]; static int ncp;
static int unit(int i, uint32_t *c) { // one UTF-8 character; the harness only builds well-formed ones
	if (t[i] < 0x80) { *c = t[i]; return i + 1; }
	if (t[i] < 0xe0) { *c = (uint32_t)(t[i] & 31) << 6 | (t[i + 1] & 63); return i + 2; }
	if (t[i] < 0xf0) { *c = (uint32_t)(t[i] & 15) << 12 | (uint32_t)(t[i + 1] & 63) << 6 | (t[i + 2] & 63); return i + 3; }
	*c = (uint32_t)(t[i] & 7) << 18 | (uint32_t)(t[i + 1] & 63) << 12 | (uint32_t)(t[i + 2] & 63) << 6 | (t[i + 3] & 63); return i + 4;
}
static bool ref_text(bool rune) {
	int i = 0; ncp = 0;
	while (i < n) {
		uint32_t c;
		if (t[i] != '\\') { i = unit(i, &c); if (rune && (c < 32 || c == 127)) return false; cp[ncp++] = c; continue; }
		if (i + 1 >= n) return false;
		switch (t[i + 1]) {
		case '\\': c = '\\'; break; case '"': c = '"'; break; case '\'': c = '\''; break; case '0': c = 0; break;
		case 'e': c = 27; break; case 't': c = 9; break; case 'r': c = 13; break; case 'n': c = 10; break;
		case 'x': { int k = 0; c = 0; i += 2; while (k < 8 && i < n && hexv(t[i]) >= 0) { c = c << 4 | (uint32_t)hexv(t[i]); i++; k++; } if (!k) return false; cp[ncp++] = c; continue; }
		default: return false;
		}
		cp[ncp++] = c; i += 2;
	}
	return true;
}
static bool ok_cp(uint32_t c) { return c < 0xd800 || (c > 0xdfff && c < 0x110000); }
static bool closes_early(char q) { int i = 0; while (i < n) { if (t[i] == '\\' && i + 1 < n && (t[i + 1] == '\\' || t[i + 1] == q)) { i += 2; continue; } if (t[i] == q) return true; i++; } return n && t[n - 1] == '\\' && i > n; }
#endif
void harness(void) {
	for (const char *c = PRE; *c; c++) t[n++] = (unsigned char)*c;
	int k = MINB + (int)sx_choose(KB - MINB + 1, "len");
	static const char alpha[] = ALPHA;
	for (int i = 0; i < k; i++) {
		unsigned char c; sx_sym(&c, 1, 1, "byte");
		bool in = false; for (size_t j = 0; j + 1 < sizeof alpha; j++) in |= c == (unsigned char)alpha[j];
		sx_assume(in);
#ifdef WIDE // one of the bytes stands for a two-, three- or four-byte character
		if (c == '@') { static const char *const w[] = { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80" }; for (const char *s = w[sx_choose(3, "wide")]; *s; s++) t[n++] = (unsigned char)*s; continue; }
#endif
		t[n++] = c;
	}
	for (const char *c = POST; *c; c++) t[n++] = (unsigned char)*c;
	bool ok; uint64_t want = 0; bool nan = false;
#if defined(INT)
	ok = ref_int(&want);
	hx_s("return "); for (int i = 0; i < n; i++) hx_c((char)t[i]); hx_c('\n');
#elif defined(FLT)
	ok = ref_flt(&want, &nan);
	hx_s("external s(v: Float)\ns("); for (int i = 0; i < n; i++) hx_c((char)t[i]); hx_s(")\n");
#elif defined(RUNE)
	if (closes_early('\'')) sx_stop();
	ok = ref_text(true) && ncp == 1 && ok_cp(cp[0]);
	hx_s("external s(v: Rune)\ns('"); for (int i = 0; i < n; i++) hx_c((char)t[i]); hx_s("')\n");
#else
	if (closes_early('"')) sx_stop();
	ok = ref_text(false);
	hx_s("external s(v: Str)\ns(\""); for (int i = 0; i < n; i++) hx_c((char)t[i]); hx_s("\")\n");
#endif
	int r = hx_llvm();
	if (ok) sx_cover("valid"); else sx_cover("invalid");
#ifdef STR
	for (int i = 0; ok && i < ncp; i++) if (!ok_cp(cp[i])) { return; } // open: an escape that names no character
#endif
	sx_assert_(!ok || r == 0, "a well-formed literal is rejected");
	sx_assert_(ok || r != 0, "an ill-formed literal is accepted");
	sx_assert_(r == 0 || hx_has("Compilation error"), "rejected without a compilation error");
	if (r) return;
	mllvm_extern = sink; mllvm_reset_globals(mllvm_module);
	MResult g = mllvm_run(hx_main_fn(), 0, NULL);
	sx_assert_(g.ok, "the generated code does not run to its end");
#if defined(INT)
	sx_assert_(g.v == want, "an integer literal has another value");
#elif defined(FLT)
	sx_assert_(got_any && (nan ? hx_u2d(got) != hx_u2d(got) : got == want), "a float literal has another value");
#elif defined(RUNE)
	sx_assert_(got_any && (uint32_t)got == cp[0], "a rune literal has another value");
#else
	const unsigned char *s = (const unsigned char *)got; int p = 0; bool end = false;
	for (int i = 0; i < ncp && !end; i++) {
		uint32_t c = cp[i];
		if (c == 0) { end = true; break; } // the rest is not part of the C string
		if (c < 0x80) sx_assert_(s[p++] == c, "a string literal has other bytes");
		else if (c < 0x800) { sx_assert_(s[p++] == (0xc0 | c >> 6), "a string literal has other bytes"); sx_assert_(s[p++] == (0x80 | (c & 63)), "a string literal has other bytes"); }
		else if (c < 0x10000) { sx_assert_(s[p++] == (0xe0 | c >> 12), "a string literal has other bytes"); sx_assert_(s[p++] == (0x80 | (c >> 6 & 63)), "a string literal has other bytes"); sx_assert_(s[p++] == (0x80 | (c & 63)), "a string literal has other bytes"); }
		else { sx_assert_(s[p++] == (0xf0 | c >> 18), "a string literal has other bytes"); sx_assert_(s[p++] == (0x80 | (c >> 12 & 63)), "a string literal has other bytes"); sx_assert_(s[p++] == (0x80 | (c >> 6 & 63)), "a string literal has other bytes"); sx_assert_(s[p++] == (0x80 | (c & 63)), "a string literal has other bytes"); }
	}
	sx_assert_(s[p] == 0, "a string literal has more bytes");
#endif
	sx_cover("value");
}
