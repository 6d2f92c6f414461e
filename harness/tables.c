// The map from names to symbols and the growable list, against a plain model.
#include "hx.h"
#include "skull/common/hashtable.h"
#include "skull/common/vector.h"
#ifdef MAP
#ifndef KL
#define KL 2
#endif
static char keys[NOPS][KL + 1]; static void *vals[NOPS]; static int n;
static bool same(const char *a, const char *b) { // without forking
	bool eq = true, over = false;
	for (int i = 0; i <= KL; i++) { eq &= over | (a[i] == b[i]); over |= (a[i] == 0) & (b[i] == 0); }
	return eq;
}
static int obj[NOPS];
void harness(void) {
	HashTable *t = make_ht();
#ifdef FILL // a full bucket first: all of these share one
	static char fk[FILL][3]; static int fo[FILL];
	for (int i = 0; i < FILL; i++) { fk[i][0] = (char)('A' + i); fk[i][1] = 'a'; sx_assert_(ht_add(t, fk[i], &fo[i]), "a new name was refused"); }
	char q[3]; sx_sym(q, 1, 2, "name"); q[2] = 0;
	void *w = NULL; for (int i = 0; i < FILL; i++) if ((q[0] == fk[i][0]) & (q[1] == 'a')) w = &fo[i];
	sx_assert_(ht_get(t, q) == w, "a lookup gives another value than was stored under the name");
	free_ht(t, NULL); sx_cover("end"); return;
#endif
	for (int i = 0; i < NOPS; i++) {
		char *k = keys[i];
#ifdef POOL // names that share buckets and prefixes
		static const char *const pool[] = { "", "a", "b", "xa", "ya", "x\xe1", "ab", "aba", "aab", "xab", "za" };
		strcpy(k, pool[sx_choose(sizeof pool / sizeof *pool, "key")]);
#else
		sx_sym(k, 1, KL, "key");
		k[KL] = 0;
#endif
		void *want = NULL; bool have = false;
		for (int j = 0; j < i; j++) if (vals[j] && same(keys[j], k)) { have = true; want = vals[j]; }
		sx_assert_(ht_get(t, k) == want, "a lookup gives another value than was stored under the name");
		if (sx_choose(2, "add")) {
			bool r = ht_add(t, k, &obj[i]);
			sx_assert_(r == !have, "an insertion is not reported as new exactly when it is");
			if (!have) vals[i] = &obj[i];
			sx_cover(have ? "again" : "new");
		}
		for (int j = 0; j <= i; j++) if (vals[j]) { sx_assert_(ht_get(t, keys[j]) == vals[j], "an entry got lost"); }
	}
	sx_assert_(!ht_add(t, "long key", NULL) && !ht_get(t, "long key"), "an empty value was stored");
	free_ht(t, NULL);
	sx_cover("end");
}
#else
static void *want[64]; static size_t nw; static uint64_t o[64];
void harness(void) {
	Vector *v = make_vector();
	sx_assert_(!vector_pop(v) && !vector_at(v, 0), "an empty list has an element");
	for (int r = 0; r < ROUNDS; r++) {
		unsigned p = sx_choose(MAXPUSH + 1, "push"), q = sx_choose(MAXPOP + 1, "pop");
		while (p--) { void *e = &o[sx_below(64, "el")]; vector_push(v, e); want[nw++] = e; }
		while (q--) { void *e = nw ? want[--nw] : NULL; sx_assert_(vector_pop(v) == e, "pop gives another element than the last one"); }
		sx_assert_(v->length == nw, "wrong length");
		for (size_t i = 0; i < nw; i++) sx_assert_(vector_at(v, i) == want[i], "an element changed");
		uint64_t far = sx_u64("far"); sx_assume(far >= nw);
		sx_assert_(vector_at(v, far) == NULL, "an element past the end");
	}
	if (sx_choose(2, "freeze")) {
		void **a = vector_freeze(v);
		vector_push(v, &o[0]);
		sx_assert_(!vector_pop(v), "a frozen list changed");
		sx_assert_(v->length == nw, "a frozen list changed");
		for (size_t i = 0; i < nw; i++) sx_assert_(a[i] == want[i], "an element changed by freezing");
		free_vector(v, NULL);
		if (a) free(a);
	} else free_vector(v, NULL);
	sx_cover("end");
}
#endif
