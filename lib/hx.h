// Helpers shared by the harnesses: build a source text, run the whole compiler
// (its command-line entry point) on it, look at what it reported and run what
// it generated.
#pragma once
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "mio.h"
#include "mllvm.h"
#include "sx.h"

int skull_cli_main(int argc, char *argv[]); // main() of the compiler

static char hx_src[2048]; // the program being compiled
static size_t hx_len;
static const char *hx_file = "a.sk";
static void hx_c(char c) { if (hx_len + 1 >= sizeof hx_src) sx_unmodeled("source text too long"); hx_src[hx_len++] = c; hx_src[hx_len] = 0; }
static void hx_s(const char *s) { while (*s) hx_c(*s++); }
static void hx_int(int64_t v) { // decimal text of a concrete number
	char b[24]; int n = 0; uint64_t u = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
	do b[n++] = (char)('0' + u % 10); while (u /= 10);
	if (v < 0) hx_c('-');
	while (n) hx_c(b[--n]);
}
static void hx_clear(void) { hx_len = 0; hx_src[0] = 0; }

// Run the compiler on hx_src with up to three flags; returns its exit status.
static int hx_compile(const char *f1, const char *f2, const char *f3) {
#ifdef SX_NATIVE
	if (getenv("SX_SHOW")) { dprintf(2, "SOURCE %zu\n", hx_len); (void)!write(2, hx_src, hx_len); dprintf(2, "\nEND-SOURCE flags: %s %s %s\n", f1 ? f1 : "", f2 ? f2 : "", f3 ? f3 : ""); }
#endif
	mio_add(hx_file, hx_src, hx_len);
	char *argv[6] = { "skull", (char *)hx_file, (char *)f1, (char *)f2, (char *)f3, NULL };
	int argc = 2; while (argc < 5 && argv[argc]) argc++;
	int r = skull_cli_main(argc, argv);
#ifdef SX_NATIVE
	if (getenv("SX_SHOW")) dprintf(2, "STATUS %d\n%s", r, mio_err);
#endif
	return r;
}
// Compile to an object file with the LLVM back end.
#ifdef FLAGS // with one of these pairs of further flags
static const char *const hx_fl[][2] = { FLAGS };
#ifdef CBACK
#define HX_BACK "--c-backend"
#else
#define HX_BACK "-c"
#endif
static int hx_llvm(void) { const char *const *f = hx_fl[sx_choose(sizeof hx_fl / sizeof *hx_fl, "flags")]; return hx_compile(HX_BACK, f[0], f[1]); }
#elif defined CBACK
static int hx_llvm(void) { return hx_compile("--c-backend", NULL, NULL); }
#else
static int hx_llvm(void) { return hx_compile("-c", NULL, NULL); }
#endif

// The generated function that runs the top-level statements.
static LLVMValueRef hx_main_fn(void) { return mllvm_find(mllvm_module, ".a"); }
static MResult hx_run(const char *fn, unsigned n, const uint64_t *args) {
	LLVMValueRef f = mllvm_find(mllvm_module, fn);
	sx_assert_(f != NULL, "an expected function is missing from the generated module");
	return mllvm_run(f, n, args);
}
static bool hx_has(const char *text) { return strstr(mio_err, text) != NULL; }
static uint64_t hx_d2u(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static double hx_u2d(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
#define HX_ASSERT_M(c, m) sx_assert_((c), (m))
