// Source text made of PRE, KB symbolic bytes, POST.
//   ALPHA 0: any byte; 1: ASCII; 2: characters that start or join tokens
#include "hx.h"
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef FLAG
#define FLAG NULL
#endif
static bool in(char c, const char *set) { bool r = false; for (; *set; set++) r |= c == *set; return r; }
void harness(void) {
	char b[KB + 1];
	sx_sym(b, 1, KB, "src");
	hx_s(PRE);
	for (int i = 0; i < KB; i++) {
#if ALPHA == 1
		sx_assume((unsigned char)b[i] < 128);
#elif ALPHA == 2
		sx_assume(in(b[i], "x10._\"'\\#{}():=<&*- \n,"));
#endif
		hx_src[hx_len++] = b[i];
	}
	hx_src[hx_len] = 0;
	hx_s(POST);
	int r = hx_compile("-c", FLAG, NULL);
	if (r) {
		sx_cover("rejected");
		sx_assert_(mio_errlen > 0, "rejected without a diagnostic");
		sx_assert_(!mllvm_emitted, "output written although the program was rejected");
	} else {
		if (mllvm_emitted || (mio_find(".a.sk.c") && mio_find(".a.sk.c")->written)) sx_cover("accepted");
	}
}
