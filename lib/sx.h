// Interface between harnesses and the symbolic executor (sx) or, in a native
// replay build, the replay runtime (replay.c).
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <uchar.h>

// Make `count` elements of `elem` bytes at `p` symbolic (an input).
void sx_sym(void *p, size_t elem, size_t count, const char *name);
void sx_assume(bool cond);
void sx_assert_(bool cond, const char *msg);
void sx_cover(const char *name); // reachability witness
void sx_note(const char *text);  // attached to a counterexample of this path
uint64_t sx_concrete(uint64_t v); // fork until `v` has one value
bool sx_is_symbolic(uint64_t v);
bool sx_possible(bool cond);
size_t sx_heap_live(void);
size_t sx_obj_size(const void *p);
void sx_print(const char *text);
void sx_stop(void) __attribute__((noreturn)); // end this path (counts as completed)
void sx_unmodeled(const char *what) __attribute__((noreturn));

#define sx_assert(c) sx_assert_((c), #c)

static inline uint64_t sx_u64(const char *name) { uint64_t v; sx_sym(&v, 8, 1, name); return v; }
static inline uint32_t sx_u32(const char *name) { uint32_t v; sx_sym(&v, 4, 1, name); return v; }
static inline uint8_t sx_u8(const char *name) { uint8_t v; sx_sym(&v, 1, 1, name); return v; }
static inline double sx_double(const char *name) { double v; sx_sym(&v, 8, 1, name); return v; }
static inline bool sx_bool(const char *name) { uint8_t v; sx_sym(&v, 1, 1, name); sx_assume(v <= 1); return v; }
// A symbolic number below n (left symbolic).
static inline uint32_t sx_below(uint32_t n, const char *name) { uint32_t v; sx_sym(&v, 4, 1, name); sx_assume(v < n); return v; }
// A number below n; each value is a separate path.
static inline uint32_t sx_choose(uint32_t n, const char *name) {
	if (n > 256) return (uint32_t)sx_concrete(sx_below(n, name));
	uint8_t v; sx_sym(&v, 1, 1, name); sx_assume(v < n); return (uint32_t)sx_concrete(v);
}
