// Source text made of PRE, TK tokens chosen by the solver, POST.
//   (default) no crash, and a rejection has a diagnostic and no output
//   JOINT     exit status, diagnostics and output agree, for each set of flags
//   VERIFY    whatever is accepted gives a well-formed module
#include "hx.h"
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef FLAGSETS
#ifndef FLAG
#define FLAG NULL
#endif
#define FLAGSETS { "-c", FLAG }
#endif
#ifndef VOCAB
#define VOCAB 0
#endif
static const char *const vocab[] = {
#if VOCAB == 0 // everything
	"x", "b", "f", "g", "z", "Int", "Bool", "Str", "z:", "1", "0", "1.5", "true", "\"s\"", "'c'", ":=", "=", "+", "-", "*", "/", "mod", "^", "<<", "is", "<", "and", "not", "&",
	"(", ")", "{", "}", ",", "\n", "mut", "return", "if", "elif", "else", "while", "break", "continue", "noop", "unreachable", "export", "external", "namespace", "import", "# c\n",
#elif VOCAB == 1 // statements
	"x = 1 ", "z := x ", "f(1) ", "g() ", "{ ", "} ", "\n", "return ", "x ", "if b ", "elif b ", "else ", "while b ", "break ", "continue ", "unreachable ", "z() Int ", "z() ", "# c\n", "namespace n ", "export ", "mut ",
#elif VOCAB == 2 // expressions
	"x", "b", "f(1)", "g()", "s", "r", "fl", "1", "0", "2.5", "true", "\"s\"", "'c'", "+", "-", "*", "/", "mod", "^", "<<", "is", "<", "and", "not", "&", "(", ")", ",", "Int", "f", "p", "*p", "n.v",
#elif VOCAB == 3 // whole statements, opening and closing blocks
	"x = f(x)\n", "z := x\n", "mut y := f(1)\n", "y = 2\n", "if b {\n", "}\nelif not b {\n", "}\nelse {\n", "while b {\n", "if true {\n", "while false {\n", "z3: Int = 1\n", "namespace m {\n", "h() Int {\n", "k(q: Int) {\n", "}\n", "return 1\n", "return\n", "break\n", "continue\n", "unreachable\n", "noop\n", "g()\n", "# c\n", "export w := 3\n", "s2 := \"t\"\n", "t := s is \"q\"\n",
#endif
};
enum { NV = sizeof vocab / sizeof *vocab };
static const char *const flagsets[][3] = { FLAGSETS };
static int outputs(void) { int k = mllvm_emitted + mio_nfork; for (int i = 0; i < mio_nfiles; i++) k += mio_files[i].written; return k; }
void harness(void) {
	hx_s(PRE);
	for (int i = 0; i < TK; i++) {
		hx_s(vocab[sx_choose(NV, "tok")]);
		if (VOCAB != 3) hx_c(' ');
	}
	hx_s(POST);
	const char *const *fl = flagsets[sx_choose(sizeof flagsets / sizeof *flagsets, "flags")];
	int r = hx_compile(fl[0], fl[1], fl[2]);
	bool cb = false, q = false, we = false, link = !fl[0] || !strcmp(fl[0], "-q") || !strcmp(fl[0], "--werror");
	for (int i = 0; i < 3; i++) if (fl[i]) { cb |= !strcmp(fl[i], "--c-backend"); q |= !strcmp(fl[i], "-q"); we |= !strcmp(fl[i], "--werror"); }
	if (r) {
		sx_cover("rejected");
		sx_assert_(mio_errlen > 0, "rejected without a diagnostic");
		sx_assert_(!outputs(), "output written although the program was rejected");
		sx_assert_(!mllvm_verify_failed, "an accepted program fails IR verification");
	} else if (outputs()) sx_cover("accepted");
#ifdef JOINT
	bool err = hx_has("Compilation error"), warn = hx_has("Warning");
	if (r) sx_assert_(err || (we && warn), "rejected without an error"), sx_assert_(hx_has("a.sk: "), "the diagnostic does not name the file");
	else {
		sx_assert_(!err, "an error was printed but the exit status is success");
		sx_assert_(!(we && warn), "a program with a warning is accepted with --werror");
		sx_assert_(!(q && warn), "-q shows a warning");
		if (cb) sx_assert_(!mllvm_emitted && outputs() == 1, "success without exactly one C file");
		else sx_assert_(mllvm_emitted == 1 && mio_nfork == (link ? 1 : 0) && outputs() == 1 + (link ? 1 : 0), "success without exactly the requested output");
	}
#endif
#ifdef VERIFY
	if (!r) { const char *why = NULL; sx_assert_(mllvm_module && mllvm_verify(mllvm_module, &why), "the emitted module is not well formed"); sx_cover("verified"); }
#endif
}
