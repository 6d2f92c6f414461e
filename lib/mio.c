// Model of the I/O and process functions. In sx builds these are the
// definitions of fopen() etc.; in native replay builds they are interposed
// with the linker's --wrap, so nothing touches the real file system.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include "mio.h"
#include "sx.h"
#undef errno
#ifdef SX_NATIVE
# define M(n) __wrap_##n
# define errno (*__errno_location())
#else
# define M(n) n
# define errno (*__errno_location())
static int the_errno;
int *__errno_location(void) { return &the_errno; }
static char f_in, f_out, f_err;
FILE *stdin = (FILE *)&f_in, *stdout = (FILE *)&f_out, *stderr = (FILE *)&f_err;
static char *env0[1]; char **environ = env0;
#endif

MioFile mio_files[16]; int mio_nfiles;
char mio_err[8192], mio_out[8192]; size_t mio_errlen, mio_outlen;
MioExec mio_execs[8]; int mio_nexec;
int (*mio_child_status)(int);
int mio_in_child, mio_fork_fails, mio_remove_fails, mio_nfork; void (*mio_on_exec)(void);
char mio_removed[8][256]; int mio_nremoved;
const char *mio_cwd = "/w";

typedef struct { MioFile *f; size_t pos; int used; int wr; int err; int eof; } Handle;
static Handle handles[16];

// "./x" is "x", and "a//b" is "a/b"
static const char *skip_dot(const char *p, int start) { for (;;) { if (start && p[0] == '.' && p[1] == '/') { p += 2; while (*p == '/') p++; } else if (p[0] == '/' && p[1] == '/') p++; else return p; } }
static int same_path(const char *a, const char *b) {
	for (int start = 1;; start = 0) { a = skip_dot(a, start); b = skip_dot(b, start); if (*a != *b) return 0; if (!*a) return 1; a++; b++; }
}
MioFile *mio_find(const char *name) {
	for (int i = 0; i < mio_nfiles; i++) if (same_path(mio_files[i].name, name)) return &mio_files[i];
	return NULL;
}
MioFile *mio_add(const char *name, const char *data, size_t len) {
	MioFile *f = mio_find(name);
	if (!f) { if (mio_nfiles == 16) sx_unmodeled("more than 16 files"); f = &mio_files[mio_nfiles++]; strncpy(f->name, name, sizeof f->name - 1); }
	f->data = malloc(len + 1);
	if (data) memcpy(f->data, data, len); 
	f->data[len] = 0;
	f->len = len; f->mode = 0; f->written = 0; f->is_dir = 0;
	return f;
}
static Handle *H(FILE *fp) {
	for (int i = 0; i < 16; i++) if ((FILE *)&handles[i] == fp) { if (!handles[i].used) sx_assert_(false, "stdio call on a closed file"); return &handles[i]; }
	sx_assert_(fp != NULL, "stdio call on NULL file");
	return NULL;
}
FILE *M(fopen)(const char *name, const char *mode) {
	int wr = mode[0] != 'r';
	MioFile *f = mio_find(name);
	if (!wr) {
		if (!f || f->mode == 1) { errno = ENOENT; return NULL; }
		if (f->mode == 2) { errno = EACCES; return NULL; }
	} else {
		if (f && f->mode == 2) { errno = EACCES; return NULL; }
		if (f && f->is_dir) { errno = EISDIR; return NULL; }
		f = mio_add(name, NULL, 0); f->written = 1; // fail_write stays
		if (mode[0] == 'a') sx_unmodeled("append mode");
	}
	for (int i = 0; i < 16; i++) if (!handles[i].used) { handles[i] = (Handle){ f, 0, 1, wr, 0, 0 }; return (FILE *)&handles[i]; }
	sx_unmodeled("more than 16 open files");
}
int M(fclose)(FILE *fp) { Handle *h = H(fp); if (h) { h->used = 0; if (h->wr && h->f->fail_write) { errno = ENOSPC; return EOF; } } return 0; }
int M(fseek)(FILE *fp, long off, int wh) {
	Handle *h = H(fp); if (!h) return -1;
	long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)h->pos : (long)h->f->len;
	h->pos = (size_t)(b + off); h->eof = 0;
	return 0;
}
long M(ftell)(FILE *fp) { Handle *h = H(fp); return h ? (long)h->pos : -1; }
void M(rewind)(FILE *fp) { Handle *h = H(fp); if (h) h->pos = 0; }
size_t M(fread)(void *p, size_t sz, size_t n, FILE *fp) {
	Handle *h = H(fp); if (!h) return 0;
	if (h->f->is_dir) { errno = EISDIR; h->err = 1; return 0; }
	size_t want = sz * n, have = h->f->len - h->pos;
	if (h->f->fail_read) { errno = EIO; h->err = 1; have /= 2; }
	size_t k = want < have ? want : have;
	memcpy(p, h->f->data + h->pos, k); h->pos += k;
	if (k < want && !h->err) h->eof = 1;
	return sz ? k / sz : 0;
}
int M(fgetc)(FILE *fp) { Handle *h = H(fp); if (!h || h->pos >= h->f->len) { if (h) h->eof = 1; return EOF; } return (unsigned char)h->f->data[h->pos++]; }
int M(feof)(FILE *fp) { Handle *h = H(fp); return h ? h->eof : 0; }
int M(ferror)(FILE *fp) { Handle *h = H(fp); return h ? h->err : 0; }
int M(fflush)(FILE *fp) { if (!fp || fp == stdout || fp == stderr) return 0; Handle *h = H(fp); if (h && h->wr && h->f->fail_write) { h->err = 1; errno = ENOSPC; return EOF; } return 0; }
static void emit(FILE *fp, const char *s, size_t n) {
	if (fp == stderr || fp == stdout) {
		char *b = fp == stderr ? mio_err : mio_out; size_t *l = fp == stderr ? &mio_errlen : &mio_outlen;
		for (size_t i = 0; i < n && *l < sizeof mio_err - 1; i++) b[(*l)++] = s[i];
		b[*l] = 0;
		return;
	}
	Handle *h = H(fp); if (!h) return;
	if (!h->wr) sx_assert_(false, "write to a file opened for reading");
	if (h->f->fail_write) return; // buffered, lost when the file is closed
	char *nd = malloc(h->f->len + n + 1);
	memcpy(nd, h->f->data, h->f->len); memcpy(nd + h->f->len, s, n); nd[h->f->len + n] = 0;
	free(h->f->data);
	h->f->data = nd; h->f->len += n;
}
size_t M(fwrite)(const void *p, size_t sz, size_t n, FILE *fp) { emit(fp, p, sz * n); return n; }
int M(vfprintf)(FILE *fp, const char *fmt, va_list ap) {
	va_list cp; va_copy(cp, ap);
	int n = vsnprintf(NULL, 0, fmt, cp); va_end(cp);
	char *b = malloc((size_t)n + 1);
	vsnprintf(b, (size_t)n + 1, fmt, ap); emit(fp, b, (size_t)n); free(b);
	return n;
}
int M(fprintf)(FILE *fp, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = M(vfprintf)(fp, fmt, ap); va_end(ap); return n; }
int M(printf)(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = M(vfprintf)(stdout, fmt, ap); va_end(ap); return n; }
int M(vprintf)(const char *fmt, va_list ap) { return M(vfprintf)(stdout, fmt, ap); }
int M(puts)(const char *s) { emit(stdout, s, strlen(s)); emit(stdout, "\n", 1); return 0; }
int M(fputs)(const char *s, FILE *fp) { emit(fp, s, strlen(s)); return 0; }
int M(fputc)(int c, FILE *fp) { char b = (char)c; emit(fp, &b, 1); return c; }
int M(putc)(int c, FILE *fp) { return M(fputc)(c, fp); }
int M(putchar)(int c) { return M(fputc)(c, stdout); }
void M(perror)(const char *s) { emit(stderr, s, strlen(s)); emit(stderr, ": error\n", 8); }
static MioFile *fds[8];
int M(open)(const char *name, int fl, ...) {
	MioFile *f = mio_find(name);
	if (!f || f->mode == 1) { errno = ENOENT; return -1; }
	if ((fl & O_DIRECTORY) && !f->is_dir) { errno = ENOTDIR; return -1; }
	if (f->mode == 2) { errno = EACCES; return -1; }
	for (int i = 0; i < 8; i++) if (!fds[i]) { fds[i] = f; return 100 + i; }
	sx_unmodeled("open files");
}
int M(openat)(int dfd, const char *name, int fl, ...) {
	if (name[0] == '/' || dfd == AT_FDCWD) return M(open)(name, fl);
	if (dfd < 100 || dfd > 107 || !fds[dfd - 100]) { errno = EBADF; return -1; }
	char path[300]; 
	size_t n = strlen(fds[dfd - 100]->name); memcpy(path, fds[dfd - 100]->name, n); path[n] = '/'; strcpy(path + n + 1, name);
	if (mio_find(path)) return M(open)(path, fl);
	if (fds[dfd - 100]->name[0] == '.' && n == 1) return M(open)(name, fl);
	errno = ENOENT; return -1;
}
int M(close)(int fd) { if (fd >= 100 && fd <= 107) fds[fd - 100] = NULL; return 0; }
FILE *M(fdopen)(int fd, const char *mode) { if (fd < 100 || fd > 107 || !fds[fd - 100]) { errno = EBADF; return NULL; } FILE *f = M(fopen)(fds[fd - 100]->name, mode); fds[fd - 100] = NULL; return f; }
int M(stat)(const char *restrict name, struct stat *restrict sb) {
	MioFile *f = mio_find(name);
	memset(sb, 0, sizeof *sb);
	if (!f || f->mode == 1) { errno = ENOENT; return -1; }
	sb->st_mode = f->is_dir ? S_IFDIR | 0755 : S_IFREG | 0644; sb->st_size = (off_t)f->len;
	return 0;
}
int M(lstat)(const char *restrict name, struct stat *restrict sb) { return M(stat)(name, sb); }
int M(access)(const char *name, int m) { (void)m; MioFile *f = mio_find(name); if (!f || f->mode == 1) { errno = ENOENT; return -1; } if (f->mode == 2) { errno = EACCES; return -1; } return 0; }
int M(faccessat)(int dfd, const char *name, int m, int fl) { (void)m; (void)fl; int fd = M(openat)(dfd, name, O_RDONLY); if (fd < 0) return -1; M(close)(fd); return 0; }
int M(remove)(const char *name) {
	if (mio_nremoved < 8) strncpy(mio_removed[mio_nremoved++], name, 255);
	if (mio_remove_fails) { errno = EACCES; return -1; }
	MioFile *f = mio_find(name); if (!f || f->mode == 1) { errno = ENOENT; return -1; }
	f->mode = 1; return 0;
}
int M(unlink)(const char *name) { return M(remove)(name); }
int M(rename)(const char *a, const char *b) { MioFile *f = mio_find(a); if (!f) { errno = ENOENT; return -1; } MioFile *g = mio_add(b, f->data, f->len); g->written = f->written; f->mode = 1; return 0; }
char *M(getcwd)(char *b, size_t n) { if (!b) { b = malloc(n ? n : strlen(mio_cwd) + 1); } else if (strlen(mio_cwd) + 1 > n) { errno = ERANGE; return NULL; } strcpy(b, mio_cwd); return b; }
pid_t M(fork)(void) { if (mio_fork_fails) { errno = EAGAIN; return -1; } mio_nfork++; return mio_in_child ? 0 : 4242; }
pid_t M(vfork)(void) { return M(fork)(); }
static void rec(const char *file, char *const argv[]) {
	if (mio_nexec >= 8) return;
	MioExec *e = &mio_execs[mio_nexec++];
	strncpy(e->file, file, sizeof e->file - 1);
	for (e->argc = 0; e->argc < 16 && argv[e->argc]; e->argc++) strncpy(e->argv[e->argc], argv[e->argc], 511);
}
int M(execvp)(const char *file, char *const argv[]) { rec(file, argv); if (mio_in_child == 2) { errno = ENOENT; return -1; } if (mio_on_exec) mio_on_exec(); sx_stop(); }
int M(execv)(const char *file, char *const argv[]) { return M(execvp)(file, argv); }
int M(execlp)(const char *file, const char *arg, ...) {
	char *argv[17]; int n = 0; va_list ap; va_start(ap, arg); argv[n++] = (char *)arg;
	while (n < 16 && (argv[n] = va_arg(ap, char *))) n++;
	argv[n] = NULL; va_end(ap); return M(execvp)(file, argv);
}
int M(execl)(const char *file, const char *arg, ...) {
	char *argv[17]; int n = 0; va_list ap; va_start(ap, arg); argv[n++] = (char *)arg;
	while (n < 16 && (argv[n] = va_arg(ap, char *))) n++;
	argv[n] = NULL; va_end(ap); return M(execvp)(file, argv);
}
static int nwait;
pid_t M(waitpid)(pid_t p, int *stt, int o) { (void)o; int v = mio_child_status ? mio_child_status(nwait) : 0; nwait++; if (stt) *stt = v; return p == -1 ? 4242 : p; }
pid_t M(wait)(int *stt) { return M(waitpid)(-1, stt, 0); }
int M(system)(const char *cmd) { char *argv[4] = { "sh", "-c", (char *)cmd, NULL }; rec("/bin/sh", argv); int v = mio_child_status ? mio_child_status(nwait) : 0; nwait++; return v; }
void (*mio_on_exit)(int);
#ifdef SX_NATIVE
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (!mio_on_exit) { sx_note("exit() called"); abort(); } mio_on_exit(c); sx_stop(); }
#else
void sx_exit_called(void) __attribute__((noreturn));
void exit(int c) { if (!mio_on_exit) sx_exit_called(); mio_on_exit(c); sx_stop(); }
#endif
// _exit(): only the child process of fork() uses it
void M(_exit)(int c) { if (!mio_on_exit) sx_assert_(false, "_exit() called"); mio_on_exit(c); sx_stop(); }
void M(_Exit)(int c) { M(_exit)(c); }
char *mio_color_env;
#ifdef SX_NATIVE
char *__real_getenv(const char *);
char *__wrap_getenv(const char *n) { if (!strcmp(n, "COLOR")) return mio_color_env; return __real_getenv(n); }
#else
char *getenv(const char *n) { return !strcmp(n, "COLOR") ? mio_color_env : NULL; }
#endif
#ifndef SX_NATIVE
char *setlocale(int c, const char *l) { (void)c; (void)l; return "C.UTF-8"; }
char *strerror(int e) { (void)e; return "error"; }
int isatty(int fd) { (void)fd; return 0; }
int fileno(FILE *f) { (void)f; return 2; }
#endif
