// Faults of files, code emission and processes: never a success status, always
// a message, and never an object left behind by a failed executable build.
#include "hx.h"
#include "words.h"
static int st; static int child(int n) { return st; }
static int in_child;
static void on_exit_(int c) { // the child whose exec failed
	sx_assert_(in_child == 2 && c != 0, "a child process that cannot run the linker reports success");
	sx_cover("execfail");
}
void harness(void) {
	enum { M_BIN, M_OBJ, M_ASM, M_IR, M_IRFILE, M_C, M_CFILE, M_OPT, NM };
	enum { F_NONE, F_MISSING, F_DENIED, F_DIR, F_READ, F_OUTDENIED, F_OUTDIR, F_EMIT, F_TARGET, F_OUTWRITE, F_FORK, F_WAIT, F_EXEC, F_BINDIR, F_REMOVE, NF };
	int m = (int)sx_choose(NM, "mode"), f1 = (int)sx_choose(NF, "fault"), f2 = (int)sx_choose(NF, "fault2");
	if (f2 && f2 <= f1) sx_stop(); // each pair once
	hx_s("external f()\nf()\n");
	MioFile *src = mio_add("a.sk", hx_src, hx_len);
	static const char *const outn[] = { ".a.sk.o", ".a.sk.o", ".a.sk.s", "-", "o", ".a.sk.c", "o", ".a.sk.o" };
	const char *o = outn[m];
	bool links = m == M_BIN || m == M_OPT, isc = m == M_C || m == M_CFILE, fail = false, linked = links;
	bool early = false; // nothing can be emitted
	st = 0; in_child = 0;
	int fs[2] = { f1, f2 };
	for (int i = 0; i < 2; i++) switch (fs[i]) {
	case F_MISSING: src->mode = 1; early = true; break;
	case F_DENIED: if (src->mode != 1) src->mode = 2; early = true; break;
	case F_DIR: src->is_dir = 1; early = true; break;
	case F_READ: src->fail_read = 1; early = true; break;
	case F_OUTDENIED: if (strcmp(o, "-")) { mio_add(o, "", 0)->mode = 2; early = true; } break;
	case F_OUTDIR: if (strcmp(o, "-")) { mio_add(o, "", 0)->is_dir = 1; if (f1 == F_OUTDENIED) mio_find(o)->mode = 2; early = true; } break;
	case F_EMIT: mllvm_fail_emit = 1; if (m == M_IR) sx_stop(); if (!isc && m != M_IR) early = true; break;
	case F_TARGET: mllvm_fail_target = 1; if (!isc && m != M_IR && m != M_IRFILE) early = true; break;
	case F_OUTWRITE: if (isc) { MioFile *x = mio_find(o); int md = x ? x->mode : 0, dr = x ? x->is_dir : 0; x = mio_add(o, "", 0); x->mode = md; x->is_dir = dr; x->fail_write = 1; fail = true; } break;
	case F_FORK: mio_fork_fails = 1; if (links) { fail = true; linked = false; } break;
	case F_WAIT: st = (int)sx_u32("status"); sx_assume((st != 0) & (((st & ~0xff00) == 0) | (((st & ~0xff) == 0) & ((st & 0x7f) != 0x7f) & ((st & 0x7f) != 0)))); if (links) fail = true; break; // any exit status or signal
	case F_EXEC: in_child = 2; break;
	case F_BINDIR: mio_add("a", "", 0)->is_dir = 1; if (links) { fail = true; linked = false; } break;
	case F_REMOVE: mio_remove_fails = 1; break;
	}
	fail |= early;
	mio_child_status = child; mio_in_child = in_child; mio_on_exit = on_exit_;
	char *argv[6] = { "skull", "a.sk" }; int n = 2;
	static const char *const fl[] = { NULL, "-c", "-S", "-E", "-E", "--c-backend", "--c-backend", "-O2" };
	if (fl[m]) argv[n++] = (char *)fl[m];
	if (!strcmp(o, "o")) { argv[n++] = "-o"; argv[n++] = "o"; }
	argv[n] = NULL;
#ifdef SX_NATIVE
	dprintf(2, "SOURCE 0\nmode %d faults %d %d status %x\nEND-SOURCE\n", m, f1, f2, st);
#endif
	int r = skull_cli_main(n, argv);
#ifdef SX_NATIVE
	dprintf(2, "STATUS %d\nstderr: %s\nremoved %d forks %d\n", r, mio_err, mio_nremoved, mio_nfork);
#endif
	if (in_child == 2 && links && linked && !early) sx_assert_(false, "the child process went on as if it were the compiler");
	if (fail) {
		sx_assert_(r != 0, "a failure is reported as success");
		sx_assert_(mio_errlen > 0 || (links && st && linked), "a failure without a message"); // the linker prints its own
		sx_cover("failed");
	} else {
		sx_assert_(r == 0, "a build without a fault fails");
		if (links) sx_assert_(mio_nfork == 1, "success without running the linker");
		else sx_assert_(mllvm_emitted + (mio_find(o) && mio_find(o)->written) == 1, "success without the output");
		sx_cover("fine");
	}
	if (early) sx_assert_(!mio_nfork && !mllvm_emitted, "the build goes on after a failure");
	if (links && !early) { // the object was written: it must be gone
		sx_assert_(mio_nremoved == 1 && !strcmp(mio_removed[0], o), "the object is left behind");
		sx_cover("removed");
	}
}
