#include "hx.h"
void harness(void) {
	hx_s("x := 1\nmut y := 2\ny = x + y * 3\nif y > 3 { y = 5 } else { y = 6 }\nreturn y\n");
	int r = hx_llvm();
	sx_print(mio_err); 
	sx_assert(r == 0);
	sx_assert(!mllvm_verify_failed);
	mllvm_reset_globals(mllvm_module);
	MResult q = hx_run(".a", 0, 0);
	sx_assert(q.ok); sx_assert(q.v == 5);
	sx_cover("end");
}
