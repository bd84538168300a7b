/* Sections, section caches and images under failing allocations, files and locks: C09, C10, C11, C12, C13, C34.
 *
 * The pre-states are built by the library's own operations with failures switched off, and generalized afterwards
 * (any number of further references and mappings).  Then one operation runs with failures switched on.
 */
#include "model.h"
#include "pt_section.h"
#include "pt_section_posix.h"
#include "pt_section_file.h"
#include "pt_image_section_cache.h"
#include "pt_image.h"
#include "pt_msec_cache.h"
#include "pt_block_cache.h"
#include "intel-pt.h"

#ifndef KEEP
#define KEEP 1
#endif
#ifndef PROP
#define PROP 0
#endif
#define ON(p) (PROP == 0 || PROP == (p))

static struct pt_section *A, *B, *N; /* N: created by the operation itself */
static uint16_t xa, xb, ma, mb, ta;  /* references, mappings and attachments held outside of the containers */
static struct pt_image_section_cache *cache;
static struct pt_image *image, *image2;
static struct pt_msec_cache *msc;
static char *name, *name2;

static void failures(int on)
{
	ai_opt_malloc_fail = on;
	ai_opt_os_ok = !on;
	ai_opt_lock_fail = on && ON(9);
	if (!on)
		ai_opt_mmap = 1;
}

static void init(void)
{
	ai_checks(ON(13) ? ai_ck_mem : 0);
	ai_limits(20000, 20000, 200);
	ai_keep(KEEP);
	ai_opt_lock_off = !ON(9);
	failures(0);
	name = ai_region(FILENAME_MAX + 1, "file name", 0);
	ai_ghost_set(name, 77, 1);
	name2 = ai_region(FILENAME_MAX + 1, "other file name", 0);
	ai_ghost_set(name2, 77, 2);
	xa = xb = ma = mb = ta = 0;
	A = B = N = 0;
	cache = 0;
	image = image2 = 0;
	msc = 0;
}

static struct pt_section *mk(const char *name)
{
	struct pt_section *s = 0;
	int e = pt_mk_section(&s, name, ai_u64(), ai_u64());

	ai_assume(e == 0);
	return s;
}

static int map(struct pt_section *s, int how)
{
	int e;

	ai_opt_mmap = how;
	e = pt_section_map(s);
	ai_opt_mmap = 1;
	ai_assume(e == 0);
	return e;
}

/* ---- what the containers hold */
static unsigned refs(const struct pt_section *s)
{
	const struct pt_section_list *l;
	unsigned n = 0, i;

	if (cache)
		for (i = 0; i < cache->size; i++)
			n += cache->entries[i].section == s;
	if (image)
		for (l = image->sections; l; l = l->next)
			n += l->section.section == s;
	if (image2)
		for (l = image2->sections; l; l = l->next)
			n += l->section.section == s;
	if (msc)
		n += msc->msec.section == s;
	return n;
}
static unsigned attaches(const struct pt_section *s)
{
	unsigned n = 0, i;

	if (cache)
		for (i = 0; i < cache->size; i++)
			n += cache->entries[i].section == s;
	return n;
}
static unsigned maps(const struct pt_section *s)
{
	const struct pt_iscache_lru_entry *l;
	unsigned n = 0;

	if (cache)
		for (l = cache->lru; l; l = l->next)
			n += l->section == s;
	if (msc)
		n += msc->msec.section == s;
	return n;
}

static void guards(struct pt_section *s)
{
	if (!ON(11) || !s)
		return;
	ai_guard(&s->ucount, sizeof(s->ucount), &s->lock, 1, "the use count is accessed under the section's lock");
	ai_guard(&s->mcount, sizeof(s->mcount), &s->lock, 1, "the map count is accessed under the section's lock");
	ai_guard(&s->acount, sizeof(s->acount), &s->alock, 1, "the attach count is accessed under the attach lock");
	ai_guard(&s->iscache, sizeof(s->iscache), &s->alock, 1 | AI_WRITES, "the attached cache is changed under the attach lock");
	ai_guard(&s->mapping, sizeof(s->mapping), &s->lock, 1 | AI_WRITES, "the mapping is changed under the section's lock");
	ai_guard(&s->unmap, sizeof(s->unmap), &s->lock, 1 | AI_WRITES, "the mapping is changed under the section's lock");
	ai_guard(&s->read, sizeof(s->read), &s->lock, 1 | AI_WRITES, "the mapping is changed under the section's lock");
	ai_guard(&s->memsize, sizeof(s->memsize), &s->lock, 1 | AI_WRITES, "the mapping is changed under the section's lock");
	ai_guard(&s->bcache, sizeof(s->bcache), &s->lock, 1 | AI_WRITES, "the block cache is changed under the section's lock");
	if (s->mapping && s->read == pt_sec_file_read) {
		struct pt_sec_file_mapping *m = s->mapping;
		ai_guard(m->file, sizeof(*m->file), &m->lock, 1, "the position of a shared file is used under the file's lock");
	}
}
static void cguards(void)
{
	struct pt_iscache_lru_entry *l;

	if (!ON(11) || !cache)
		return;
	for (l = cache->lru; l; l = l->next)
		ai_guard(&l->size, sizeof(l->size), &cache->lock, 1, "the section cache's content is accessed under its lock");
#define G(f) ai_guard(&cache->f, sizeof(cache->f), &cache->lock, 1, "the section cache's content is accessed under its lock")
	G(entries);
	G(lru);
	G(limit);
	G(used);
	G(capacity);
	G(size);
#undef G
}

/* Add any number of references and mappings held elsewhere. */
static void generalize(int atleast)
{
	if (A) {
		unsigned r = refs(A), m = maps(A);
		if (ai_choice()) {
			xa = ai_u16();
			ai_assume(xa >= 1 && xa <= 65535 - r);
			if (A->mapping) {
				ma = ai_u16();
				ai_assume(ma <= 65535 - m);
				ai_assume(ma + m >= 1);
			}
		} else {
			ai_assume(!atleast && r > 0);
			xa = 0;
			ma = 0;
			ai_assume(!A->mapping || m > 0);
		}
		A->ucount = (uint16_t) (xa + r);
		A->mcount = (uint16_t) (ma + m);
	}
	if (B) {
		xb = B->ucount - refs(B);
		mb = B->mcount - maps(B);
	}
}

static void begin(void)
{
	guards(A);
	guards(B);
	cguards();
	failures(1);
}

static void one(struct pt_section *s, uint16_t x, uint16_t m, uint16_t t)
{
	unsigned r, mm;

	if (!s)
		return;
	r = refs(s);
	if (ai_is_freed(s)) {
		ai_assert(r == 0 && x == 0, "a section that is still referenced is not destroyed");
		return;
	}
	mm = maps(s);
	ai_assert(s->ucount == (uint16_t) (r + x), "the use count equals the number of references held");
	ai_assert(s->ucount != 0, "an unreferenced section is destroyed");
	ai_assert(s->mcount == (uint16_t) (mm + m), "the map count equals the number of mappings held");
	ai_assert((s->mcount != 0) == (s->mapping != 0), "a section is mapped exactly while it has mappers");
	ai_assert(s->mapping ? s->unmap && s->read && s->memsize : !s->unmap && !s->read && !s->memsize && !s->bcache,
		  "all or none of a mapping's functions are installed");
	ai_assert(s->acount == (uint16_t) (attaches(s) + t), "the attach count equals the number of attachments");
	ai_assert((s->acount != 0) == (s->iscache != 0), "the attached cache is set exactly while it is attached");
}

static void end(void)
{
	unsigned i;

	ai_guard_off();
	if (ON(9))
		ai_assert(ai_locks_held == 0, "every lock taken has been released");
	if (ON(12)) {
		one(A, xa, ma, ta);
		one(B, xb, mb, 0);
		if (cache)
			for (i = 0; i < cache->size; i++)
				if (cache->entries[i].section != A && cache->entries[i].section != B)
					one(cache->entries[i].section, 0, 0, 0);
		if (image) {
			struct pt_section_list *l;
			for (l = image->sections; l; l = l->next)
				if (l->section.section != A && l->section.section != B)
					one(l->section.section, 0, 0, 0);
		}
	}
	if (ON(34) && cache) {
		struct pt_iscache_lru_entry *l, *k;
		uint64_t sum = 0;

		for (l = cache->lru; l; l = l->next) {
			sum += l->size;
			for (k = l->next; k; k = k->next)
				ai_assert(k->section != l->section, "a section is cached at most once");
		}
		ai_assert(cache->used == sum, "the memory accounted for is that of the cached sections");
		ai_assert(cache->used <= cache->limit, "the cached sections stay within the limit");
	}
	if (ON(13)) {
		ai_assert(ai_fds_open == 0, "every file descriptor has been closed");
		if (A && xa)
			ai_root(A);
		if (B && xb)
			ai_root(B);
		if (N)
			ai_root(N);
		if (cache)
			ai_root(cache);
		if (image)
			ai_root(image);
		if (image2)
			ai_root(image2);
		ai_assert_noleak("what the operation acquired is released or still referenced");
	}
}

/* a name the containers may know or not */
static char *anyname(void)
{
	char *n;

	if (ai_choice())
		return name;
	if (ai_choice())
		return name2;
	n = ai_region(FILENAME_MAX + 1, "third file name", 0);
	ai_ghost_set(n, 77, 3);
	return n;
}

/* ---- sections */
static void lone(void)
{
	init();
	A = mk(name);
	if (ai_choice())
		map(A, ai_choice() ? 1 : 2);
	if (ai_choice()) {
		/* attached by someone who holds references */
		A->iscache = cache = pt_iscache_alloc(0);
		ai_assume(cache != 0);
		ta = ai_u16();
		ai_assume(ta >= 1);
		A->acount = ta;
	}
	generalize(1);
	ai_assume(xa >= ta);
	begin();
}

void spec_sec_mk(void)
{
	int e;

	init();
	failures(1);
	e = pt_mk_section(&N, name, ai_u64(), ai_u64());
	if (e == 0) {
		ai_reach("creating a section succeeds");
		if (ON(12))
			ai_assert(N->ucount == 1 && N->acount == 0 && N->mcount == 0 && !N->mapping && !N->iscache, "a new section has one user");
	} else {
		ai_reach("creating a section fails");
		if (ON(13))
			ai_assert(e < 0 && N == 0, "a failure is reported and no section handed out");
	}
	end();
}
void spec_sec_get(void)
{
	int e;
	lone();
	e = pt_section_get(A);
	if (e == 0) {
		ai_reach("get succeeds");
		xa += 1;
	}
	end();
}
void spec_sec_put(void)
{
	int e;
	lone();
	ai_assume(xa > ta && (xa > 1 || !ma));
	e = pt_section_put(A);
	if (e == 0) {
		ai_reach("put succeeds");
		xa -= 1;
	}
	/* the last user destroys the section */
	if (ON(12) && e == 0)
		ai_assert(ai_is_freed(A) == (xa == 0), "the last put destroys the section");
	end();
}
void spec_sec_attach(void)
{
	int e;
	lone();
	ai_assume(cache != 0);
	e = pt_section_attach(A, cache);
	if (e == 0) {
		ai_reach("attach succeeds");
		ta += 1;
		ai_assume(xa >= ta);
	}
	end();
}
void spec_sec_attach_first(void)
{
	struct pt_image_section_cache *c;
	int e;
	lone();
	ai_assume(cache == 0);
	c = ai_region(sizeof(*c), "another cache", 0);
	e = pt_section_attach(A, c);
	if (e == 0) {
		ai_reach("attach succeeds");
		ta += 1;
	}
	end();
}
void spec_sec_detach(void)
{
	int e;
	lone();
	ai_assume(cache != 0);
	e = pt_section_detach(A, cache);
	if (e == 0) {
		ai_reach("detach succeeds");
		ta -= 1;
	}
	end();
}
void spec_sec_map(void)
{
	int e;
	lone();
	ai_opt_mmap = 0;
	e = pt_section_map(A);
	if (e == 0) {
		ai_reach("map succeeds");
		ma += 1;
	}
	end();
}
void spec_sec_share(void)
{
	int e;
	lone();
	e = pt_section_map_share(A);
	if (e == 0) {
		ai_reach("map_share succeeds");
		ma += 1;
	}
	end();
}
void spec_sec_unmap(void)
{
	int e;
	lone();
	e = pt_section_unmap(A);
	if (e == 0) {
		ai_reach("unmap succeeds");
		ma -= 1;
	}
	end();
}
void spec_sec_memsize(void)
{
	uint64_t n;
	lone();
	(void) pt_section_memsize(A, &n);
	end();
}
void spec_sec_bcache(void)
{
	int e;
	lone();
	e = pt_section_alloc_bcache(A);
	if (e == 0)
		ai_reach("allocating a block cache succeeds");
	end();
}
void spec_sec_read(void)
{
	uint8_t buf[16];
	lone();
	(void) pt_section_read(A, buf, sizeof(buf), ai_u64());
	end();
}

/* ---- section cache */
static void caching(int atleast)
{
	int k;

	init();
	cache = pt_iscache_alloc(0);
	ai_assume(cache != 0);
	cache->limit = ai_u64();
	A = mk(name);
#ifdef SHAPE
	k = SHAPE;
#else
	k = ai_int();
	ai_assume(k >= 0 && k < 6);
	k = ai_split(k, 0, 5);
#endif
	if (k >= 1) {
		int e = pt_iscache_add(cache, A, ai_u64());
		ai_assume(e == 1);
	}
	if (k == 2) { /* the same section once more */
		int e = pt_iscache_add(cache, A, ai_u64());
		ai_assume(e == 2);
	}
	if (k >= 3)
		map(A, 1);
	if (k >= 4) {
		int e;
		B = mk(name2);
		e = pt_iscache_add(cache, B, ai_u64());
		ai_assume(e == 2);
		ai_assume(cache->entries[0].section == A && cache->entries[1].section == B); /* else it was recognized as A */
		e = pt_section_put(B);
		ai_assume(e == 0);
	}
	if (k == 5) {
		int e;
		map(B, 1); /* remains mapped if the cache keeps it */
		e = pt_section_unmap(B);
		ai_assume(e == 0);
	}
	if (k == 3)
		ai_reach("pre-state: the cached section is kept mapped");
	generalize(atleast);
	begin();
}

/* any identifier; the ones that may be valid separately */
static int isid(void)
{
	return (int) ai_split((uint64_t) (unsigned) ai_int(), 0, 3);
}

void spec_isc_alloc(void)
{
	init();
	failures(1);
	cache = pt_iscache_alloc(ai_choice() ? name : 0);
	if (cache)
		ai_reach("allocating a cache succeeds");
	end();
}
void spec_isc_free(void)
{
	caching(0);
	pt_iscache_free(cache);
	if (ON(13))
		ai_assert(ai_is_freed(cache) || ON(9), "the cache is freed");
	cache = 0;
	end();
}
void spec_isc_clear(void)
{
	caching(0);
	if (pt_iscache_clear(cache) == 0) {
		ai_reach("clearing a cache succeeds");
		ai_guard_off();
		ai_assert(cache->size == 0 && !cache->lru, "a cleared cache is empty");
	}
	end();
}
void spec_isc_add_same(void)
{
	caching(1);
	if (pt_iscache_add(cache, A, ai_u64()) > 0)
		ai_reach("adding a section succeeds");
	end();
}
void spec_isc_add_file(void)
{
	caching(0);
	if (pt_iscache_add_file(cache, anyname(), ai_u64(), ai_u64(), ai_u64()) > 0)
		ai_reach("adding a file succeeds");
	end();
}
void spec_isc_find(void)
{
	caching(0);
	(void) pt_iscache_find(cache, anyname(), ai_u64(), ai_u64(), ai_u64());
	end();
}
void spec_isc_lookup(void)
{
	struct pt_section *s = 0;
	uint64_t l;

	caching(0);
	if (pt_iscache_lookup(cache, &s, &l, isid()) == 0) {
		ai_reach("looking up a section succeeds");
		if (s == A)
			xa += 1;
		else
			xb += 1;
		ai_assert(s == A || s == B, "a cached section is returned");
	}
	end();
}
void spec_isc_limit(void)
{
	caching(0);
	if (pt_iscache_set_limit(cache, ai_u64()) == 0)
		ai_reach("setting the limit succeeds");
	end();
}
void spec_isc_read(void)
{
	uint8_t *buf;
	uint64_t n = ai_u64();

	caching(0);
	ai_opt_mmap = ai_choice();
	buf = ai_region(n, "buffer", 0);
	if (pt_iscache_read(cache, buf, n, isid(), ai_u64()) > 0)
		ai_reach("reading from a cache succeeds");
	end();
}
void spec_isc_map(void)
{
	caching(1);
	if (pt_section_map(A) == 0) {
		ai_reach("mapping a cached section succeeds");
		ma += 1;
	}
	end();
}
void spec_isc_bcache(void)
{
	caching(1);
	if (pt_section_alloc_bcache(A) == 0)
		ai_reach("allocating a block cache succeeds");
	end();
}

/* ---- images */
/* Whether two identifiers match is decided by C28; here it is any answer. */
int ai_model_pt_asid_match(const struct pt_asid *lhs, const struct pt_asid *rhs)
{
	ai_touch(lhs, sizeof(*lhs));
	ai_touch(rhs, sizeof(*rhs));
	return ai_choice();
}
/* the identifiers the public interface hands to images */
static int newisid(void)
{
	int i = ai_int();

	ai_assume(i >= 0);
	return i;
}
static struct pt_asid *asid(void)
{
	struct pt_asid *a = ai_region(sizeof(*a), "address space", 0);

	a->size = sizeof(*a);
	return a;
}
static void imaging(int atleast)
{
	int k, e;

	init();
	image = pt_image_alloc(0);
	ai_assume(image != 0);
	A = mk(name);
#ifdef SHAPE
	k = SHAPE;
#else
	k = ai_int();
	ai_assume(k >= 0 && k < 4);
	k = ai_split(k, 0, 3);
#endif
	if (k >= 1) {
		e = pt_image_add(image, A, asid(), ai_u64(), newisid());
		ai_assume(e == 0);
	}
	if (k >= 2) {
		struct pt_section_list *l;
		B = mk(name2);
		e = pt_image_add(image, B, asid(), ai_u64(), newisid());
		ai_assume(e == 0);
		e = pt_section_put(B);
		ai_assume(e == 0);
		/* shape 3: A has been removed partially or entirely */
		l = image->sections;
		ai_assume((k == 3) == (l->section.section == B || l->section.size != A->size));
	}
	if (ai_choice())
		map(A, 1);
	generalize(atleast);
	begin();
}

void spec_img_alloc(void)
{
	init();
	failures(1);
	image = pt_image_alloc(ai_choice() ? name : 0);
	if (image)
		ai_reach("allocating an image succeeds");
	end();
}
void spec_img_free(void)
{
	imaging(0);
	pt_image_free(image);
	image = 0;
	end();
}
void spec_img_add(void)
{
	imaging(1);
	if (pt_image_add(image, A, asid(), ai_u64(), newisid()) == 0)
		ai_reach("adding a section succeeds");
	end();
}
void spec_img_remove(void)
{
	imaging(1);
	if (pt_image_remove(image, A, asid(), ai_u64()) == 0)
		ai_reach("removing a section succeeds");
	end();
}
void spec_img_add_file(void)
{
	imaging(0);
	if (pt_image_add_file(image, anyname(), ai_u64(), ai_u64(), ai_choice() ? asid() : 0, ai_u64()) == 0)
		ai_reach("adding a file succeeds");
	end();
}
void spec_img_remove_by_filename(void)
{
	imaging(0);
	if (pt_image_remove_by_filename(image, anyname(), ai_choice() ? asid() : 0) > 0)
		ai_reach("removing by name succeeds");
	end();
}
void spec_img_remove_by_asid(void)
{
	imaging(0);
	if (pt_image_remove_by_asid(image, ai_choice() ? asid() : 0) > 0)
		ai_reach("removing by address space succeeds");
	end();
}
void spec_img_copy(void)
{
	imaging(0);
	failures(0);
	image2 = pt_image_alloc(0);
	ai_assume(image2 != 0);
	failures(1);
	if (pt_image_copy(image2, image) == 0)
		ai_reach("copying an image succeeds");
	end();
}
static int readmem(uint8_t *buffer, size_t size, const struct pt_asid *asid, uint64_t ip, void *context)
{
	return ai_int();
}
void spec_img_read(void)
{
	uint8_t buf[16];
	int isid;

	imaging(0);
	if (ai_choice())
		pt_image_set_callback(image, readmem, 0);
	ai_opt_mmap = ai_choice();
	if (pt_image_read(image, &isid, buf, sizeof(buf), asid(), ai_u64()) > 0)
		ai_reach("reading from an image succeeds");
	end();
}
void spec_img_find(void)
{
	struct pt_mapped_section ms;

	imaging(0);
	ms.section = 0;
	if (pt_image_find(image, &ms, asid(), ai_u64()) >= 0) {
		ai_reach("finding a section succeeds");
	}
	/* a negative isid is the caller's choice; tell by the result structure */
	if (ms.section == A && A)
		xa += 1;
	else if (ms.section && ms.section == B)
		xb += 1;
	end();
}
void spec_img_add_cached(void)
{
	int e;

	imaging(1);
	failures(0);
	cache = pt_iscache_alloc(0);
	ai_assume(cache != 0);
	xa = (uint16_t) ai_u8() + 1;
	A->ucount = xa + refs(A);
	A->mcount = ma + maps(A);
	e = pt_iscache_add(cache, A, ai_u64());
	ai_assume(e == 1);
	guards(A);
	cguards();
	failures(1);
	if (pt_image_add_cached(image, cache, isid(), ai_choice() ? asid() : 0) == 0)
		ai_reach("adding from a cache succeeds");
	end();
}

/* ---- the decoders' cache of the most recent section */
static void msecing(void)
{
	int e;

	imaging(0);
	failures(0);
	msc = ai_region(sizeof(*msc), "msec cache", 0);
	pt_msec_cache_init(msc);
	if (ai_choice()) {
		const struct pt_mapped_section *p;
		ai_assume(A->ucount < 60000 && A->mcount < 60000);
		e = pt_msec_cache_fill(msc, &p, image, asid(), ai_u64());
		ai_assume(e >= 0);
		ai_reach("pre-state: the msec cache is filled");
	}
	failures(1);
}
void spec_msc_fill(void)
{
	const struct pt_mapped_section *p;

	msecing();
	if (pt_msec_cache_fill(msc, &p, image, asid(), ai_u64()) >= 0)
		ai_reach("filling the msec cache succeeds");
	end();
}
void spec_msc_read(void)
{
	const struct pt_mapped_section *p;

	msecing();
	(void) pt_msec_cache_read(msc, &p, image, ai_u64());
	end();
}
void spec_msc_invalidate(void)
{
	msecing();
	if (pt_msec_cache_invalidate(msc) == 0)
		ai_assert(msc->msec.section == 0, "an invalidated msec cache is empty");
	end();
}
void spec_msc_fini(void)
{
	msecing();
	pt_msec_cache_fini(msc);
	msc->msec.section = 0;
	end();
}
