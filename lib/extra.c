// Deterministic stand-ins for the two float operations sx does not interpret:
// truncated remainder is an uninterpreted function of its operands in the
// solver, pow() is an arbitrary but deterministic value per operand pair.
#include <string.h>
#include "sx.h"
#ifdef SX_NATIVE
#include <math.h>
double sx_frem(double a, double b) { return fmod(a, b); }
double sx_fpow(double a, double b) { return pow(a, b); }
#else
static struct { uint64_t a, b; double r; } pows[16]; static int npow;
double sx_fpow(double a, double b) {
	uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8);
	for (int i = 0; i < npow; i++) if (pows[i].a == x && pows[i].b == y) return pows[i].r;
	if (npow == 16) sx_unmodeled("more than 16 pow() calls");
	pows[npow].a = x; pows[npow].b = y; sx_sym(&pows[npow].r, 8, 1, "pow");
	return pows[npow++].r;
}
double pow(double a, double b) { return sx_fpow(a, b); }
double fmod(double a, double b) { extern double sx_frem(double, double); return sx_frem(a, b); }
#endif
