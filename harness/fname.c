// Any file name: the object and the executable get names made of it, and the
// linker gets exactly those names.
#include "hx.h"
#include "words.h"
static char file[24], obj[28], bin[24];
static void on_exec(void) {
	Words w; words_of(&mio_execs[0], &w);
	sx_assert_(!w.odd, "a file name changes the linker command");
	const char *o = mllvm_emit_name, *b = bin;
	sx_assert_(has_words(&w, 1, &o) && has_words(&w, 2, (const char *[]){ "-o", b }), "the linker does not get the names of the object and the executable");
	sx_cover("linked");
}
void harness(void) {
	static const char alpha[] = "a\"$`\\' ;./-" "\xc3";
	int n = 0;
	if (sx_choose(2, "dir")) { file[n++] = 'd'; file[n++] = '/'; }
	int start = n, k = 1 + (int)sx_choose(KB, "len");
	for (int i = 0; i < k; i++) file[n++] = alpha[sx_choose(sizeof alpha - 1, "c")];
	sx_assume(file[0] != '-'); // an option, not a file name
	int base = 0; for (int i = 0; i < n; i++) if (file[i] == '/') base = i + 1;
	sx_assume(base < n); // ".sk" is refused
	strcpy(bin, file); strcpy(file + n, ".sk"); (void)start;
	memcpy(obj, file, (size_t)base); obj[base] = '.'; strcpy(obj + base + 1, file + base); strcat(obj, ".o");
	hx_file = file; hx_s("external f()\nf()\n");
	mio_in_child = (int)sx_choose(2, "child"); mio_on_exec = on_exec;
	int r = hx_compile(NULL, NULL, NULL);
	sx_assert_(r == 0, "a file is refused because of its name");
	sx_assert_(mllvm_emitted == 1 && !strcmp(mllvm_emit_name, obj), "the object has another name");
	sx_assert_(mio_nfork == 1 && mio_nremoved == 1 && !strcmp(mio_removed[0], obj), "the object was not removed");
	sx_cover("parent");
}
