// Pure C library functions for sx builds (native builds use the system's).
// Locale: C.UTF-8.
#define _POSIX_C_SOURCE 200809L
#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <uchar.h>
#include <wchar.h>
#include "sx.h"
#undef strtoll
#undef strtol
#undef strtoull
#undef strtoul
#undef isalpha
#undef isdigit
size_t strlen(const char *s) { const char *p = s; while (*p) p++; return (size_t)(p - s); }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = *a >= 'A' && *a <= 'Z' ? *a + 32 : *a, y = *b >= 'A' && *b <= 'Z' ? *b + 32 : *b; if (x != y || !x) return x - y; } }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return NULL; } }
char *strpbrk(const char *s, const char *a) { for (; *s; s++) if (strchr(a, *s)) return (char *)s; return NULL; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); memcpy(r, s, n); return r; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return *x - *y; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *a, int c, size_t n) { const unsigned char *x = a; for (; n; n--, x++) if (*x == (unsigned char)c) return (void *)x; return NULL; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void bzero(void *d, size_t n) { memset(d, 0, n); }
void *reallocarray(void *p, size_t a, size_t b) { return realloc(p, a * b); }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
	char *p = b, t[256]; if (sz > 256) sx_unmodeled("qsort element size");
	for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; j--) { memcpy(t, p + j * sz, sz); memcpy(p + j * sz, p + (j - 1) * sz, sz); memcpy(p + (j - 1) * sz, t, sz); }
}
int abs(int x) { return x < 0 ? -x : x; }
// wide/UTF-32 helpers someone might use
size_t wcslen(const wchar_t *s) { size_t n = 0; while (s[n]) n++; return n; }
int wcscmp(const wchar_t *a, const wchar_t *b) { while (*a && *a == *b) { a++; b++; } return *a < *b ? -1 : *a > *b; }
int wcsncmp(const wchar_t *a, const wchar_t *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return !n ? 0 : *a < *b ? -1 : *a > *b; }
wchar_t *wcschr(const wchar_t *s, wchar_t c) { for (;; s++) { if (*s == c) return (wchar_t *)s; if (!*s) return NULL; } }
wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) { memcpy(d, s, n * sizeof *d); return d; }

// <ctype.h>: the table glibc hands out, indexed -128..255 like glibc's own.
enum { UP = 1 << 8, LO = 1 << 9, AL = 1 << 10, DI = 1 << 11, XD = 1 << 12, SP = 1 << 13, PR = 1 << 14, GR = 1 << 15, BL = 1 << 0, CN = 1 << 1, PU = 1 << 2, AN = 1 << 3 };
static unsigned short ctab[384]; static const unsigned short *cptr; static int tl[384], tu[384]; static const int *plo, *pup;
static void cinit(void) {
	for (int c = 0; c < 128; c++) {
		unsigned short f = 0; int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9';
		if (up) f |= UP; if (lo) f |= LO; if (up || lo) f |= AL; if (di) f |= DI; if (di || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) f |= XD;
		if (c == ' ' || (c >= 9 && c <= 13)) f |= SP; if (c == ' ' || c == '\t') f |= BL;
		if (c < 32 || c == 127) f |= CN; else { f |= PR; if (c != ' ') f |= GR; if (c != ' ' && !up && !lo && !di) f |= PU; }
		if (up || lo || di) f |= AN;
		ctab[128 + c] = f;
	}
	for (int c = 0; c < 384; c++) { int k = c - 128; tl[c] = k >= 'A' && k <= 'Z' ? k + 32 : k; tu[c] = k >= 'a' && k <= 'z' ? k - 32 : k; }
	cptr = ctab + 128; plo = tl + 128; pup = tu + 128;
}
const unsigned short **__ctype_b_loc(void) { if (!cptr) cinit(); return &cptr; }
const int **__ctype_tolower_loc(void) { if (!cptr) cinit(); return &plo; }
const int **__ctype_toupper_loc(void) { if (!cptr) cinit(); return &pup; }
#define CT(n, cond) int (n)(int c) { return (cond); }
CT(isdigit, c >= '0' && c <= '9') CT(isalpha, (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) CT(isupper, c >= 'A' && c <= 'Z') CT(islower, c >= 'a' && c <= 'z')
CT(isalnum, (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) CT(isspace, c == ' ' || (c >= 9 && c <= 13)) CT(isblank, c == ' ' || c == 9)
CT(isxdigit, (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) CT(isprint, c >= 32 && c < 127) CT(isgraph, c > 32 && c < 127) CT(iscntrl, (c >= 0 && c < 32) || c == 127)
CT(ispunct, c > 32 && c < 127 && !((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')))
int (tolower)(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int (toupper)(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
// wide classification in C.UTF-8, as glibc 2.39 for the control characters
int iswcntrl(wint_t c) { return c < 32 || (c >= 127 && c < 160) || c == 0x2028 || c == 0x2029; }
int iswdigit(wint_t c) { return c >= '0' && c <= '9'; }
int iswspace(wint_t c) { return c == ' ' || (c >= 9 && c <= 13); }

static int dig(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static unsigned long long parse(const char *s, char **end, int base, int sgn) {
	const char *p = s; int neg = 0;
	while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
	if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
	if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; }
	else if ((base == 0 || base == 2) && *p == '0' && (p[1] == 'b' || p[1] == 'B') && dig(p[2]) < 2) { p += 2; base = 2; }
	else if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long long v = 0; int any = 0; unsigned ov = 0;
	for (;; p++) {
		int d = dig(*p); if (d >= base) break;
		any = 1;
		// branch-free overflow tracking keeps one path per literal
		unsigned long long b = (unsigned long long)base, q = ULLONG_MAX / b, r = ULLONG_MAX % b;
		ov |= (unsigned)((v > q) | ((v == q) & ((unsigned long long)d > r)));
		v = v * b + (unsigned long long)d;
	}
	if (end) *end = (char *)(any ? p : s);
	if (sgn) {
		unsigned long long lim = neg ? 1ull << 63 : (1ull << 63) - 1;
		if (ov | (v > lim)) { errno = ERANGE; return lim; }
		return neg ? 0 - v : v;
	}
	if (ov) { errno = ERANGE; return ULLONG_MAX; }
	return neg ? 0 - v : v;
}
long long strtoll(const char *s, char **e, int b) { return (long long)parse(s, e, b, 1); }
long strtol(const char *s, char **e, int b) { return (long)parse(s, e, b, 1); }
unsigned long long strtoull(const char *s, char **e, int b) { return parse(s, e, b, 0); }
unsigned long strtoul(const char *s, char **e, int b) { return parse(s, e, b, 0); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return (long long)parse(s, e, b, 1); }
long __isoc23_strtol(const char *s, char **e, int b) { return (long)parse(s, e, b, 1); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return parse(s, e, b, 0); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return parse(s, e, b, 0); }
int atoi(const char *s) { return (int)parse(s, NULL, 10, 1); }

size_t __ctype_get_mb_cur_max(void) { return 6; }
size_t c32rtomb(char *o, char32_t c, mbstate_t *ps) {
	(void)ps; char b[8]; if (!o) { o = b; c = 0; }
	if (c < 0x80) { o[0] = (char)c; return 1; }
	if (c < 0x800) { o[0] = (char)(0xC0 | (c >> 6)); o[1] = (char)(0x80 | (c & 63)); return 2; }
	if (c > 0x7FFFFFFF || (c >= 0xD800 && c <= 0xDFFF)) { errno = EILSEQ; return (size_t)-1; }
	if (c >= 0x4000000) { o[0] = (char)(0xFC | (c >> 30)); for (int i = 1; i < 6; i++) o[i] = (char)(0x80 | ((c >> (30 - 6 * i)) & 63)); return 6; }
	if (c >= 0x200000) { o[0] = (char)(0xF8 | (c >> 24)); for (int i = 1; i < 5; i++) o[i] = (char)(0x80 | ((c >> (24 - 6 * i)) & 63)); return 5; }
	if (c < 0x10000) { o[0] = (char)(0xE0 | (c >> 12)); o[1] = (char)(0x80 | ((c >> 6) & 63)); o[2] = (char)(0x80 | (c & 63)); return 3; }
	o[0] = (char)(0xF0 | (c >> 18)); o[1] = (char)(0x80 | ((c >> 12) & 63)); o[2] = (char)(0x80 | ((c >> 6) & 63)); o[3] = (char)(0x80 | (c & 63)); return 4;
}
size_t wcrtomb(char *o, wchar_t c, mbstate_t *ps) { return c32rtomb(o, (char32_t)c, ps); }
size_t mbrtoc32(char32_t *o, const char *s, size_t n, mbstate_t *ps) {
	(void)ps; char32_t t; if (!o) o = &t;
	if (!s) return 0;
	if (!n) return (size_t)-2;
	unsigned char c = (unsigned char)s[0];
	if (c < 0x80) { *o = c; return c ? 1 : 0; }
	unsigned need; char32_t v, min;
	if (c >= 0xC2 && c <= 0xDF) { need = 1; v = c & 31; min = 0x80; } else if (c >= 0xE0 && c <= 0xEF) { need = 2; v = c & 15; min = 0x800; } else if (c >= 0xF0 && c <= 0xF7) { need = 3; v = c & 7; min = 0x10000; } else if (c >= 0xF8 && c <= 0xFB) { need = 4; v = c & 3; min = 0x200000; } else if (c >= 0xFC && c <= 0xFD) { need = 5; v = c & 1; min = 0x4000000; } else { errno = EILSEQ; return (size_t)-1; }
	for (unsigned i = 1; i <= need; i++) {
		if (i >= n) return (size_t)-2;
		unsigned char d = (unsigned char)s[i];
		if ((d & 0xC0) != 0x80) { errno = EILSEQ; return (size_t)-1; }
		v = (v << 6) | (d & 63);
	}
	if (v < min || (v >= 0xD800 && v <= 0xDFFF)) { errno = EILSEQ; return (size_t)-1; }
	*o = v; return need + 1;
}
size_t mbrtowc(wchar_t *o, const char *s, size_t n, mbstate_t *ps) { return mbrtoc32((char32_t *)o, s, n, ps); }

// printf family
typedef struct { char *b; size_t n, cap; } Out;
static void pc(Out *o, char c) { if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
static void num(Out *o, unsigned long long v, unsigned base, int up, int neg, int width, int zero, int left, int prec, const char *pre) {
	char t[72]; int n = 0;
	if (!v && prec != 0) t[n++] = '0';
	while (v) { unsigned d = (unsigned)(v % base); t[n++] = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= base; }
	while (n < prec && n < 70) t[n++] = '0';
	int tot = n + neg + (int)strlen(pre);
	if (!left && !(zero && prec < 0)) for (; tot < width; tot++) pc(o, ' ');
	if (neg) pc(o, '-');
	while (*pre) pc(o, *pre++);
	if (!left && zero && prec < 0) for (; tot < width; tot++) pc(o, '0');
	while (n) pc(o, t[--n]);
	for (; tot < width; tot++) pc(o, ' ');
}
static void hexf(Out *o, double d) { // %a, no precision
	uint64_t v; memcpy(&v, &d, 8);
	if (v >> 63) pc(o, '-');
	unsigned e = (unsigned)(v >> 52) & 0x7ff; uint64_t m = v & 0xfffffffffffffull;
	const char *sp = NULL; if (e == 0x7ff) sp = m ? "nan" : "inf";
	if (sp) { while (*sp) pc(o, *sp++); return; }
	pc(o, '0'); pc(o, 'x'); pc(o, e ? '1' : '0');
	int ex = e ? (int)e - 1023 : (m ? -1022 : 0);
	if (m) { pc(o, '.'); while (m) { unsigned dg = (unsigned)(m >> 48) & 15; pc(o, "0123456789abcdef"[dg]); m = (m << 4) & 0xfffffffffffffull; } }
	pc(o, 'p'); pc(o, ex < 0 ? '-' : '+'); num(o, (unsigned long long)(ex < 0 ? -ex : ex), 10, 0, 0, 0, 0, 0, -1, "");
}
int vsnprintf(char *b, size_t cap, const char *f, va_list ap) {
	Out o = { b, 0, cap };
	for (; *f; f++) {
		if (*f != '%') { pc(&o, *f); continue; }
		f++;
		int zero = 0, left = 0, alt = 0, plus = 0, width = 0, prec = -1, l = 0;
		for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '#') alt = 1; else if (*f == '+' || *f == ' ') plus = 1; else break; }
		if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
		if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
		for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') l = 1; else if (*f == 'h') l = -1; else break; }
		(void)plus;
		switch (*f) {
		case '%': pc(&o, '%'); break;
		case 'c': { int c = va_arg(ap, int); for (int w = 1; w < width; w++) pc(&o, ' '); pc(&o, (char)c); break; }
		case 's': { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; size_t n = prec >= 0 ? strnlen(s, (size_t)prec) : strlen(s);
			if (!left) for (size_t w = n; (int)w < width; w++) pc(&o, ' ');
			for (size_t i = 0; i < n; i++) pc(&o, s[i]);
			if (left) for (size_t w = n; (int)w < width; w++) pc(&o, ' ');
			break; }
		case 'd': case 'i': { long long v = l > 0 ? va_arg(ap, long long) : va_arg(ap, int); unsigned long long u = v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v; num(&o, u, 10, 0, v < 0, width, zero, left, prec, ""); break; }
		case 'u': { unsigned long long v = l > 0 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); num(&o, v, 10, 0, 0, width, zero, left, prec, ""); break; }
		case 'x': case 'X': { unsigned long long v = l > 0 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); num(&o, v, 16, *f == 'X', 0, width, zero, left, prec, alt && v ? (*f == 'X' ? "0X" : "0x") : ""); break; }
		case 'o': { unsigned long long v = l > 0 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); num(&o, v, 8, 0, 0, width, zero, left, prec, ""); break; }
		case 'p': num(&o, (unsigned long long)va_arg(ap, void *), 16, 0, 0, width, 0, left, -1, "0x"); break;
		case 'a': { double d = va_arg(ap, double); hexf(&o, d); break; }
		default: sx_unmodeled("printf conversion");
		}
	}
	if (cap) b[o.n < cap ? o.n : cap - 1] = 0;
	return (int)o.n;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
int vasprintf(char **o, const char *f, va_list ap) { va_list c; va_copy(c, ap); int n = vsnprintf(NULL, 0, f, c); va_end(c); *o = malloc((size_t)n + 1); return vsnprintf(*o, (size_t)n + 1, f, ap); }
int asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int n = vasprintf(o, f, ap); va_end(ap); return n; }

// strtod(): plain decimals of up to 15 digits are computed exactly (the
// quotient of two exact doubles is the nearest double, which is what strtod()
// promises); other texts are made concrete and given to the host's libc.
double sx_strtod_concrete(const char *s, char **end);
double strtod(const char *s, char **end) {
	const char *p = s; int neg = 0, nd = 0, frac = 0; long v = 0; double q = 1;
	if (*p == '-') { neg = 1; p++; }
	while (*p >= '0' && *p <= '9' && nd < 16) { v = v * 10 + (*p++ - '0'); nd++; }
	if (!nd || *p != '.') return sx_strtod_concrete(s, end);
	p++;
	while (*p >= '0' && *p <= '9' && nd < 16) { v = v * 10 + (*p++ - '0'); nd++; frac++; q *= 10; }
	if (nd >= 16 || (*p && *p != ' ')) return sx_strtod_concrete(s, end);
	if (end) *end = (char *)p;
	double d = (double)v / q;
	return neg ? -d : d;
}
