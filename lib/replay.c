// Native replay runtime: inputs come from the file named by SX_REPLAY, with one
// line per sx_sym call: "name#k elembits v0 v1 ...".
#define _GNU_SOURCE
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static struct { char *name; int bits; unsigned long *v; int n; } in[512];
static int nin = -1;
static struct { char name[64]; int k; } cnt[256];
static int ncnt;

void __real__exit(int) __attribute__((noreturn)); FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *); char *__real_getenv(const char *);
static void load(void) {
	nin = 0;
	const char *f = __real_getenv("SX_REPLAY");
	FILE *fp = f ? __real_fopen(f, "r") : NULL;
	if (!fp) return;
	char *line = NULL; size_t cap = 0;
	while (getline(&line, &cap, fp) > 0) {
		char *save, *t = strtok_r(line, " \n", &save);
		if (!t || *t == '/') continue;
		in[nin].name = strdup(t);
		t = strtok_r(NULL, " \n", &save); in[nin].bits = t ? atoi(t) : 8;
		in[nin].v = calloc(65536, sizeof(long));
		while ((t = strtok_r(NULL, " \n", &save))) in[nin].v[in[nin].n++] = strtoul(t, NULL, 10);
		nin++;
	}
	__real_fclose(fp);
	free(line);
}
void sx_sym(void *p, size_t elem, size_t count, const char *name) {
	if (nin < 0) load();
	int k = 0, i;
	for (i = 0; i < ncnt; i++) if (!strcmp(cnt[i].name, name)) { k = ++cnt[i].k; break; }
	if (i == ncnt) { snprintf(cnt[ncnt].name, 64, "%s", name); cnt[ncnt++].k = 0; }
	char full[128]; snprintf(full, sizeof full, "%s#%d", name, k);
	memset(p, 0, elem * count);
	for (i = 0; i < nin; i++) if (!strcmp(in[i].name, full))
		for (size_t j = 0; j < count && (int)j < in[i].n; j++) memcpy((char *)p + j * elem, &in[i].v[j], elem);
}
void sx_assume(bool c) { if (!c) { dprintf(2, "REPLAY-ASSUME-FALSE\n"); __real__exit(77); } }
void sx_assert_(bool c, const char *m) { if (!c) { dprintf(2, "REPLAY-ASSERT %s\n", m); __real__exit(42); } }
void sx_cover(const char *n) { (void)n; }
void sx_note(const char *t) { dprintf(2, "note: %s\n", t); }
uint64_t sx_concrete(uint64_t v) { return v; }
bool sx_is_symbolic(uint64_t v) { (void)v; return false; }
bool sx_possible(bool c) { return c; }
size_t sx_heap_live(void) { return 0; }
size_t sx_obj_size(const void *p) { (void)p; return (size_t)-1; }
void sx_print(const char *t) { if (__real_getenv("SX_PRINT")) dprintf(2, "%s\n", t); }
void sx_stop(void) { __real__exit(0); }
void sx_unmodeled(const char *w) { dprintf(2, "REPLAY-UNMODELED %s\n", w); __real__exit(78); }
void harness(void);
int main(void) { harness(); __real__exit(0); }
