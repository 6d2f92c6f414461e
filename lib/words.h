// The words a shell makes of a command line, or the arguments of a direct exec.
#pragma once
#include <string.h>
#include "mio.h"
#include "sx.h"
typedef struct { char w[24][96]; int n; bool odd; /* something a shell would interpret further */ } Words;
static void words_of(const MioExec *x, Words *o) {
	memset(o, 0, sizeof *o);
	const char *base = strrchr(x->argv[0], '/'); base = base ? base + 1 : x->argv[0];
	if (strcmp(base, "sh") || x->argc != 3 || strcmp(x->argv[1], "-c")) { // not a shell
		for (int i = 0; i < x->argc && i < 24; i++) strncpy(o->w[o->n++], x->argv[i], 95);
		return;
	}
	const char *p = x->argv[2];
	while (*p) {
		while (*p == ' ' || *p == '\t') p++;
		if (!*p) break;
		if (o->n == 24) sx_unmodeled("linker arguments");
		char *w = o->w[o->n++]; int k = 0, q = 0;
		for (; *p && (q || (*p != ' ' && *p != '\t')); p++) {
			if (k == 95) sx_unmodeled("long linker argument");
			if (q == '\'') { if (*p == '\'') q = 0; else w[k++] = *p; continue; }
			if (q == '"') {
				if (*p == '"') q = 0;
				else if (*p == '\\' && p[1] && strchr("\"\\$`", p[1])) w[k++] = *++p;
				else { if (*p == '$' || *p == '`') o->odd = true; w[k++] = *p; }
				continue;
			}
			if (*p == '\'' || *p == '"') q = *p;
			else if (*p == '\\' && p[1]) w[k++] = *++p;
			else { if (strchr("$`;&|<>()\n*?[#~", *p)) o->odd = true; w[k++] = *p; }
		}
		if (q) o->odd = true;
	}
}
static bool has_words(const Words *o, int n, const char *const *want) { // in this order, next to each other
	for (int i = 0; i + n <= o->n; i++) { int k = 0; while (k < n && !strcmp(o->w[i + k], want[k])) k++; if (k == n) return true; }
	return n == 0;
}
