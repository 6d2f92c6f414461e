// The run-time helpers linked into every executable, executed symbolically.
#include "hx.h"
bool _strcmp(const char *, const char *); int64_t _int_pow(int64_t, int64_t); double _float_pow(double, double); double sx_fpow(double, double);
void harness(void) {
#ifdef STR
	// each string in a block of its own of exactly its size: reading past its end is an error
	unsigned la = sx_choose(LEN + 1, "la"), lb = sx_choose(LEN + 1, "lb");
	char *a = malloc(la + 1), *b = malloc(lb + 1);
	sx_sym(a, 1, la, "a"); sx_sym(b, 1, lb, "b"); a[la] = 0; b[lb] = 0;
	for (unsigned i = 0; i < la; i++) sx_assume(a[i] != 0);
	for (unsigned i = 0; i < lb; i++) sx_assume(b[i] != 0);
	bool eq = la == lb;
	for (unsigned i = 0; i < la && i < lb; i++) eq &= a[i] == b[i];
	bool r = _strcmp(a, b);
	sx_assert_(r == eq, "string equality is not equality of the bytes");
	sx_cover(eq ? "equal" : "differ");
#else
	int64_t base = (int64_t)sx_u64("base"), e = (int64_t)sx_u64("exp"), want = 1; bool over = false;
	sx_assume(e <= MAXE);
	for (int64_t i = 0; i < MAXE; i++) if (i < e) over |= __builtin_mul_overflow(want, base, &want);
	sx_assume(!over);
	sx_assert_(_int_pow(base, e) == want, "integer power is not the product of that many factors");
	double x = sx_double("x"), y = sx_double("y");
	sx_assert_(hx_d2u(_float_pow(x, y)) == hx_d2u(sx_fpow(x, y)), "float power is not pow()");
	sx_cover("end");
#endif
}
