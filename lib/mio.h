// In-memory files, captured output and recorded processes.
#pragma once
#include <stddef.h>
typedef struct { char name[128]; char *data; size_t len; int mode; /* 0 ok, 1 ENOENT, 2 EACCES */ int written; int is_dir; int fail_read; /* reads return fewer bytes, with an error */ int fail_write; /* writes never reach the file */ } MioFile;
extern MioFile mio_files[16]; extern int mio_nfiles;
extern char mio_err[8192], mio_out[8192]; extern size_t mio_errlen, mio_outlen;
MioFile *mio_add(const char *name, const char *data, size_t len);
MioFile *mio_find(const char *name);
// processes
typedef struct { char argv[16][512]; int argc; char file[512]; } MioExec;
extern MioExec mio_execs[8]; extern int mio_nexec;
extern int (*mio_child_status)(int n); // wait status of the n-th child
extern int mio_in_child; // fork() returns in: 0 the parent, 1 the child, 2 the child and exec fails
extern int mio_nfork; extern void (*mio_on_exec)(void); // after a recorded exec in the child
extern int mio_fork_fails, mio_remove_fails;
extern void (*mio_on_exit)(int code); // exit() was called; the path ends when it returns
extern char *mio_color_env; // value of $COLOR
extern char mio_removed[8][256]; extern int mio_nremoved;
extern const char *mio_cwd;
