// Every sequence of up to NA command-line arguments: refused exactly when it
// contradicts itself, otherwise exactly the requested output under its name.
#include "hx.h"
#include "words.h"
#ifndef VOCAB
#define VOCAB "a.sk", "-c", "-S", "-E", "-g", "-q", "-O1", "-O2", "-O3", "-O4", "-O1x", "-O", "-o", "out", "-x", "--c-backend", "--werror", "--llvm-no-verify", "--color", "--", "-cq", "--bogus", "-h", "-v", "--help", "--version", "a.txt", ".sk", "d/b.sk", "-", "a.sk.x", ""
#endif
static const char *const vocab[] = { VOCAB };
enum { NV = sizeof vocab / sizeof *vocab };
static const char *const srcs[] = { "external f()\nf()\n", "external f()\nf()\nx := 1\n" }; // the second one deserves a warning
static bool is(const char *a, const char *b) { return !strcmp(a, b); }
static int want_exit = -1;
static int outputs(void) { int n = mllvm_emitted + mio_nexec; for (int i = 0; i < mio_nfiles; i++) n += mio_files[i].written; return n; }
static const char *l_obj, *l_bin, *l_extra[NA + 1]; static int l_nextra;
static void on_exec(void) {
	Words w; words_of(&mio_execs[0], &w);
	sx_assert_(mio_nexec == 1 && !w.odd && !strcmp(w.w[0], "cc"), "the linker command is not a plain command");
	sx_assert_(has_words(&w, 1, &l_obj) && has_words(&w, 2, (const char *[]){ "-o", l_bin }) && has_words(&w, l_nextra, l_extra), "the linker did not get the object, the output name and the extra arguments");
	sx_assert_(mllvm_emitted == 1, "the linker runs before the object is written");
	sx_cover("linked");
}
static void at_exit(int code) {
	sx_assert_(want_exit >= 0, "the compiler stopped although the arguments are fine");
	sx_assert_((code != 0) == (want_exit != 0), "wrong exit status");
	if (code) sx_assert_(!strncmp(mio_err, "skull: ", 7), "refused without a message");
	else sx_assert_(mio_outlen > 0 && !mio_errlen, "the help or version text is missing");
	sx_assert_(!outputs(), "output written although the arguments were refused");
	sx_cover("refused");
}
void harness(void) {
	char *argv[NA + 2]; int n = 1; argv[0] = "skull";
#ifdef SUBSET // any set of flags, in the order of the vocabulary or in reverse
	bool on[NV], rev = sx_choose(2, "reverse");
	for (int i = 0; i < NV; i++) on[i] = sx_choose(2, "flag");
	for (int k = 0; k < NV; k++) { int i = rev ? NV - 1 - k : k; if (on[i]) { argv[n++] = (char *)vocab[i]; if (!strcmp(vocab[i], "-o")) argv[n++] = "out"; } }
	if (sx_choose(2, "extra")) { argv[n++] = "--"; argv[n++] = "-lx"; argv[n++] = "y.c"; }
#else
	int na = (int)sx_choose(NA + 1, "nargs");
	for (int i = 0; i < na; i++) argv[n++] = (char *)vocab[sx_choose(NV, "arg")];
#endif
	argv[n] = NULL;
	bool warn = sx_choose(2, "src"); unsigned env = sx_choose(ENVS, "env");
	mio_color_env = env == 0 ? NULL : env == 1 ? "1" : env == 2 ? "0" : "";
	mio_add("a.sk", srcs[warn], strlen(srcs[warn])); mio_add("d/b.sk", srcs[warn], strlen(srcs[warn]));

	// what the arguments mean
	bool c = false, S = false, E = false, g = false, q = false, cb = false, we = false, nv = false, col = false; int O[4] = { 0 };
	const char *file = NULL, *out = NULL;  int nfile = 0; bool stop = false, fail = false, info = false;
	for (int i = 1; i < n && !stop; i++) {
		const char *a = argv[i]; bool *f = NULL;
		if (a[0] != '-') { file = a; nfile++; continue; }
		if (is(a, "-h") || is(a, "-v") || is(a, "--help") || is(a, "--version")) { info = stop = true; }
		else if (is(a, "-c")) f = &c; else if (is(a, "-S")) f = &S; else if (is(a, "-E")) f = &E; else if (is(a, "-g")) f = &g; else if (is(a, "-q")) f = &q;
		else if (is(a, "--c-backend")) f = &cb; else if (is(a, "--werror")) f = &we; else if (is(a, "--llvm-no-verify")) f = &nv;
		else if (is(a, "--color")) { if (mio_color_env) fail = stop = true; else f = &col; }
		else if (is(a, "-O1") || is(a, "-O2") || is(a, "-O3")) { if (O[a[2] - '0']++) fail = stop = true; }
		else if (is(a, "-o")) { if (out || i + 1 == n) fail = stop = true; else out = argv[++i]; }
		else if (is(a, "--")) { if (i + 1 == n) fail = true; for (i++; i < n; i++) if (*argv[i]) l_extra[l_nextra++] = argv[i]; stop = true; }
		else fail = stop = true;
		if (f) { if (*f) fail = stop = true; *f = true; }
	}
	if (n == 1) info = true;
	if (nfile > 1) sx_stop(); // what several file names mean is left open
	if (!info && !fail) {
		size_t l = file ? strlen(file) : 0;
		if (O[1] + O[2] + O[3] > 1 || (cb && nv) || (q && we) || (S && cb) || c + S + E > 1 || l < 4 || !is(file + l - 3, ".sk")) fail = true;
	}
	want_exit = info ? 0 : fail ? 1 : -1;
	mio_on_exit = at_exit;
	if (want_exit < 0 && !(cb || E || S || c)) { // look at the child process too
		mio_in_child = (int)sx_choose(2, "child");
		l_obj = out ? out : file[0] == 'd' ? "d/.b.sk.o" : ".a.sk.o"; l_bin = file[0] == 'd' ? "d/b" : "a";
		mio_on_exec = on_exec;
	}
#ifdef SX_NATIVE
	dprintf(2, "SOURCE 0\n"); for (int i = 0; i < n; i++) dprintf(2, "%s ", argv[i]); dprintf(2, "env=%u warn=%d\nEND-SOURCE\n", env, warn);
#endif
	int r = skull_cli_main(n, argv);
#ifdef SX_NATIVE
	dprintf(2, "STATUS %d\nstderr: %s\nstdout: %s\nemitted %d %s kind %d execs %d passes %s\n", r, mio_err, mio_out, mllvm_emitted, mllvm_emit_name, mllvm_emit_kind, mio_nexec, mllvm_passes);
	if (mio_nexec) dprintf(2, "exec %s\n", mio_execs[0].argv[2]);
#endif
	if (want_exit >= 0) { at_exit(r); return; }
	bool d = file[0] == 'd';
	const char *obj = out ? out : d ? "d/.b.sk.o" : ".a.sk.o";
	// warnings
	bool shown = hx_has("Warning"), colored = hx_has("\033[");
	if (warn && we) { sx_assert_(r != 0 && !outputs(), "a program with a warning was accepted with --werror"); sx_assert_(shown, "--werror without a message"); }
	else sx_assert_(shown == (warn && !q), "warnings are shown exactly when there are some and -q is not given");
	if (mio_errlen && !E) sx_assert_(colored == (warn && !q && (col || env == 1)), "messages are coloured exactly when asked for");
	if (warn && we) { sx_cover("werror"); return; }
	// an object file cannot go to standard output
	if (!cb && !E && !S && is(obj, "-")) { sx_assert_(r != 0 && !outputs(), "an object file went to standard output"); sx_cover("nostdout"); return; }
	sx_assert_(r == 0, "correct arguments were refused");
	sx_cover("accepted");
	// the output
	sx_assert_(cb || E || S || c || mio_nfork == 1, "the linker was not run once");
	sx_assert_(!(cb || E || S || c) || !mio_nfork, "the linker was run although no executable was asked for");
	if (cb) {
		sx_assert_(!mllvm_emitted && !mio_nexec, "the C back end produced something else than C");
		const char *name = out ? out : E ? "-" : d ? "d/.b.sk.c" : ".a.sk.c";
		if (is(name, "-")) sx_assert_(outputs() == 0 && strstr(mio_out, "int main"), "C code did not go to standard output");
		else { MioFile *f = mio_find(name); sx_assert_(outputs() == 1 && f && f->written && strstr(f->data, "int main"), "C code did not go to the requested file"); }
		return;
	}
	sx_assert_(mllvm_emitted == 1, "not exactly one output");
	char passes[16] = ""; if (O[1] | O[2] | O[3]) { strcpy(passes, "default<O?>"); passes[9] = O[1] ? '1' : O[2] ? '2' : '3'; }
	sx_assert_(is(mllvm_passes, passes), "another optimisation level than requested");
	if (E) {
		if (out && !is(out, "-")) sx_assert_(mllvm_emit_kind == 0 && is(mllvm_emit_name, out), "IR did not go to the requested file");
		else sx_assert_((mllvm_emit_kind == 3 && hx_has("; module")) || (mllvm_emit_kind == 0 && is(mllvm_emit_name, "-")), "IR was not printed");
		sx_assert_(outputs() == 1, "more than one output");
		return;
	}
	if (S) { sx_assert_(mllvm_emit_kind == 2 && is(mllvm_emit_name, out ? out : d ? "d/.b.sk.s" : ".a.sk.s") && outputs() == 1, "assembly did not go to the requested file"); return; }
	sx_assert_(mllvm_emit_kind == 1 && is(mllvm_emit_name, obj), "the object did not go to the requested file");
	if (c) { sx_assert_(outputs() == 1 && !mio_nremoved, "more than an object was produced"); return; }
	sx_assert_(mio_nfork == 1, "the linker was not run once");
	sx_assert_(mio_nremoved == 1 && is(mio_removed[0], obj), "the object was not removed after linking");
	sx_cover("linked");
}
