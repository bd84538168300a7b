/* Interface between property specifications and the ptai abstract interpreter.
 *
 * Specifications are compiled to IR and abstractly interpreted; they are never run.
 */
#ifndef AI_H
#define AI_H
#include <stddef.h>
#include <stdint.h>

/* Unknown values. */
uint64_t ai_u64(void);
uint32_t ai_u32(void);
uint16_t ai_u16(void);
uint8_t ai_u8(void);
int ai_int(void);
int ai_choice(void); /* 0 or 1, explored as separate partitions */

/* The @size bytes at @p get unknown content with provenance labels @labels. */
void ai_havoc(void *p, size_t size, const char *name, uint64_t labels);
/* A fresh object of (possibly unknown) @size bytes; its content is unknown. */
void *ai_region(size_t size, const char *name, uint64_t labels);
/* Stores through pointers into @p's object are violations from now on / no longer. */
void ai_readonly(const void *p, int on);
/* Heap objects as returned from malloc. */
void *ai_malloc(size_t size);
void ai_free(void *p);
int ai_is_heap(const void *p);
int ai_is_freed(const void *p);
size_t ai_objsize(const void *p); /* of the object @p points into */

void ai_assume(int cond);
/* Obligation: @cond holds in every abstract state reaching this point. */
void ai_assert(int cond, const char *rule);
/* Marks a point that must be reachable for the specification to be meaningful. */
void ai_reach(const char *name);
/* This point must be unreachable. */
void ai_never(const char *rule);

/* Obligation: the @size bytes at @p may be read / written (nothing happens). */
void ai_touch(const void *p, size_t size);
void ai_touchw(void *p, size_t size);
/* Remember the writes to @p's object from now on. */
void ai_track(const void *p);
/* Obligation: nothing has been written to @p's (tracked) object. */
void ai_assert_pristine(const void *p, const char *rule);
/* Obligation: exactly the @size bytes at @p of @p's (tracked) object have been written. */
void ai_assert_written(const void *p, size_t size, const char *rule);

/* Typestate attached to an address. */
void ai_ghost_set(const void *p, int key, uint64_t val);
uint64_t ai_ghost_get(const void *p, int key);

/* Record an edge of the lock order graph from every lock held (key 1) to @p. */
void ai_lock_edge(const void *p);

/* Obligation: the bytes carry none of the provenance @labels. */
void ai_assert_labels(const void *p, size_t size, uint64_t labels, const char *rule);
void ai_assert_vlabels(uint64_t v, uint64_t labels, const char *rule);
/* Obligation: the bytes of the two ranges are equal. */
void ai_assert_eq(const void *p, const void *q, size_t size, const char *rule);
/* Obligation: all live heap objects are reachable from the registered roots. */
void ai_root(const void *p);
void ai_assert_noleak(const char *rule);
/* Obligation on accesses: [p; p+size) only while ai_ghost_get(lock, key) != 0.  With AI_WRITES in @key on writes only. */
#define AI_WRITES 0x100
void ai_guard(const void *p, size_t size, const void *lock, int key, const char *rule);
void ai_guard_off(void);

/* Analysis control. */
enum {
	ai_ck_null = 1 << 0, ai_ck_bounds = 1 << 1, ai_ck_uaf = 1 << 2,
	ai_ck_div = 1 << 3, ai_ck_shift = 1 << 4, ai_ck_ro = 1 << 5,
	ai_ck_uninit = 1 << 6, ai_ck_free = 1 << 7,
	ai_ck_mem = ai_ck_null | ai_ck_bounds | ai_ck_uaf | ai_ck_ro | ai_ck_free
};
void ai_checks(int mask);
void ai_limits(int paths, int outs, int unroll);
/* Joins of paths keep relations between values (default) or only ranges and shared facts. */
void ai_relations(int on);
/* States with equal data but different constraints are kept apart up to this number. */
void ai_keep(int n);
/* Provenance label of uninitialized stack and heap memory. */
#define AI_UNINIT (1ull << 63)
void ai_print(uint64_t v);
void ai_dump(void);
uint64_t ai_split(uint64_t v, uint64_t lo, uint64_t hi);
#endif
