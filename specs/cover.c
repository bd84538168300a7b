/* What memory an image holds and what reading it gives: C14, C26, C33. */
#include "model.h"
#include "pt_section.h"
#include "pt_section_posix.h"
#include "pt_section_file.h"
#include "pt_mapped_section.h"
#include "pt_image_section_cache.h"
#include "pt_image.h"
#include "intel-pt.h"

#ifndef PROP
#define PROP 0
#endif
#define ON(p) (PROP == 0 || PROP == (p))

static struct pt_image *image;
static struct pt_section *A, *B, *N;
static char *name;

/* All sections are in one address space here; matching is decided by C28. */
int ai_model_pt_asid_match(const struct pt_asid *lhs, const struct pt_asid *rhs)
{
	ai_touch(lhs, sizeof(*lhs));
	ai_touch(rhs, sizeof(*rhs));
	return 1;
}
/* pos: where the last file access was */
static uint64_t fpos, flen;
int ai_model_fseek(FILE *f, long off, int whence)
{
	if (ai_choice())
		return -1;
	fpos = (uint64_t) off;
	return 0;
}

static void failures(int on)
{
	ai_opt_malloc_fail = on;
	ai_opt_os_ok = !on;
	ai_opt_lock_fail = 0;
	if (!on)
		ai_opt_mmap = 1;
}
static void init(void)
{
	ai_checks(ON(14) ? ai_ck_mem : 0);
	ai_limits(20000, 20000, 200);
	ai_keep(8);
	ai_opt_lock_off = 1;
	failures(0);
	name = ai_region(FILENAME_MAX + 1, "file name", 0);
	image = 0;
	A = B = N = 0;
}
static struct pt_section *mk(void)
{
	struct pt_section *s = 0;
	int e = pt_mk_section(&s, name, ai_u64(), ai_u64());

	ai_assume(e == 0);
	return s;
}
static struct pt_asid *asid(void)
{
	struct pt_asid *a = ai_region(sizeof(*a), "address space", 0);

	a->size = sizeof(*a);
	return a;
}
static int newisid(void)
{
	int i = ai_int();

	ai_assume(i >= 0);
	return i;
}

/* ---- reading */
static unsigned char trail[32]; /* keeps partitions apart */

/* the distinguished content of the first byte that should be read */
static uint8_t mark;
static void *expect;

static void domap(struct pt_section *s)
{
	int e;

	ai_opt_mmap = ai_choice() ? 1 : 2;
	e = pt_section_map(s);
	ai_assume(e == 0);
}
static void expecting(struct pt_section *s, uint64_t off)
{
	expect = 0;
	if (s->read == pt_sec_posix_read) {
		struct pt_sec_posix_mapping *m = s->mapping;
		expect = (uint8_t *) m->base + (s->offset & 0xfff) + off;
		ai_ghost_set(expect, 77, 5);
	}
	fpos = 0;
}
static void content(struct pt_section *s, uint8_t *buf, uint64_t off)
{
	if (!ON(33))
		return;
	if (expect)
		ai_assert(ai_ghost_get(buf, 77) == 5, "the bytes read are those at the section's offset in the file");
	else
		ai_assert(fpos == s->offset + off, "the bytes read are those at the section's offset in the file");
}

void spec_rd_section(void)
{
	uint16_t n = ai_u16();
	uint64_t off = ai_u64();
	uint8_t *buf;
	int r;

	init();
	A = mk();
	domap(A);
	if (ai_choice()) { /* bytes inside */
		ai_assume(n > 0);
		ai_assume(off < A->size);
		expecting(A, off);
	}
	buf = ai_region(n, "buffer", 0);
	failures(1);
	ai_track(buf);
	r = pt_section_read(A, buf, n, off);
	if (r > 0) {
		ai_reach("reading from a section succeeds");
		ai_assert(r <= n, "no more bytes are reported than were asked for");
		ai_assert(off < A->size, "bytes are read inside the section only");
		ai_assert((uint64_t) r <= A->size - off, "bytes are read inside the section only");
	}
	if (ON(14)) {
		if (r < 0)
			ai_assert_written(buf, 0, "what is reported is what was written");
	}
	if (r > 0 && expect)
		content(A, buf, off);
}

void spec_rd_msec(void)
{
	struct pt_mapped_section ms;
	uint16_t n = ai_u16();
	uint64_t addr = ai_u64();
	uint64_t v = ai_u64(), o = ai_u64(), sz = ai_u64();
	uint8_t *buf;
	int r, in;

	init();
	A = mk();
	domap(A);
	ai_assume(sz > 0);
	ai_assume(o < A->size);
	ai_assume(sz <= A->size - o);
	ai_assume(v + sz > v);
	pt_msec_init(&ms, A, asid(), v, o, sz);
	ai_assume(n > 0);
	in = ai_choice();
	if (in) {
		ai_assume(v <= addr);
		ai_assume(addr < v + sz);
		expecting(A, addr - v + o);
	} else {
		if (ai_choice()) {
			ai_assume(addr < v);
			trail[0] = 1;
		} else
			ai_assume(v + sz <= addr);
	}
	buf = ai_region(n, "buffer", 0);
	failures(1);
	r = pt_msec_read(&ms, buf, n, addr);
	if (r > 0) {
		ai_reach("reading from a mapped section succeeds");
		ai_assert(in, "bytes are read inside the section only");
		ai_assert(r <= n, "no more bytes are reported than were asked for");
		ai_assert((uint64_t) r <= sz - (addr - v), "bytes are read inside the section only");
		content(A, buf, addr - v + o);
	}
	if (in && r < 0)
		ai_assert(!expect, "mapped memory can be read");
}

static int readmem(uint8_t *buffer, size_t size, const struct pt_asid *asid, uint64_t ip, void *context)
{
	ai_touchw(buffer, size);
	return ai_int();
}
void spec_rd_image(void)
{
	uint16_t n = ai_u16();
	uint64_t addr = ai_u64();
	uint8_t *buf;
	int r, isid, e;

	init();
	image = pt_image_alloc(0);
	ai_assume(image != 0);
	if (ai_choice()) {
		A = mk();
		e = pt_image_add(image, A, asid(), ai_u64(), newisid());
		ai_assume(e == 0);
	}
	if (ai_choice())
		pt_image_set_callback(image, readmem, 0);
	failures(1);
	ai_opt_mmap = 0;
	buf = ai_region(n, "buffer", 0);
	r = pt_image_read(image, &isid, buf, n, asid(), addr);
	if (r > 0)
		ai_reach("reading from an image succeeds");
	ai_assert(r <= (int) n, "no more bytes are reported than were asked for");
}
void spec_rd_iscache(void)
{
	struct pt_image_section_cache *c;
	uint64_t n = ai_u64(), addr = ai_u64();
	uint8_t *buf;
	int r, id;

	init();
	c = pt_iscache_alloc(0);
	ai_assume(c != 0);
	A = mk();
	id = pt_iscache_add(c, A, ai_u64());
	ai_assume(id > 0);
	failures(1);
	ai_opt_mmap = 0;
	buf = ai_region(n, "buffer", 0);
	ai_assume(n > 0);
	r = pt_iscache_read(c, buf, n, ai_choice() ? id : ai_int(), addr);
	if (r > 0) {
		ai_reach("reading from a cache succeeds");
		ai_assert((uint64_t) r <= n, "no more bytes are reported than were asked for");
	}
}
void spec_rd_callback(void)
{
	uint16_t n = ai_u16();
	uint8_t *buf;
	int r, isid;

	init();
	image = pt_image_alloc(0);
	ai_assume(image != 0);
	pt_image_set_callback(image, readmem, 0);
	buf = ai_region(n, "buffer", 0);
	r = pt_image_read(image, &isid, buf, n, asid(), ai_u64());
	if (r > 0)
		ai_reach("reading through the callback succeeds");
	ai_assert(r <= (int) n, "a count larger than was asked for is not passed on");
}

/* ---- coverage: which byte of which file an address stands for */
static unsigned ntrail;
static void cover(const struct pt_image *img, uint64_t x, struct pt_section **s, uint64_t *fo)
{
	const struct pt_section_list *l;

	*s = 0;
	*fo = 0;
	for (l = img->sections; l; l = l->next) {
		const struct pt_mapped_section *m = &l->section;
		uint64_t b = m->vaddr, e = m->vaddr + m->size;
		/* keep the two ways of not being covered apart */
		if (x < b) {
			trail[ntrail++] = 1;
			continue;
		}
		if (e <= x) {
			trail[ntrail++] = 2;
			continue;
		}
		*s = m->section;
		*fo = x - b + m->offset;
		return;
	}
}
static struct pt_section *addone(struct pt_image *img, uint64_t *v)
{
	struct pt_section *s = mk();
	int e;

	ai_assume(s->size > 0);
	*v = ai_u64();
	ai_assume(*v + s->size > *v);
	e = pt_image_add(img, s, asid(), *v, newisid());
	ai_assume(e == 0);
	return s;
}
static uint64_t va, vb;
static void shaped(void)
{
	init();
	image = pt_image_alloc(0);
	ai_assume(image != 0);
	if (SHAPE >= 1)
		A = addone(image, &va);
	if (SHAPE >= 2)
		B = addone(image, &vb);
	if (SHAPE == 2) /* separate */
		ai_assume(image->sections->section.section == A && image->sections->section.size == A->size);
	if (SHAPE == 3) /* A is split or shortened */
		ai_assume(image->sections->section.size != A->size);
}
void spec_cov_add(void)
{
	struct pt_section *s, *t;
	uint64_t x = ai_u64(), fo, go, v = ai_u64();
	int e;

	shaped();
	cover(image, x, &s, &fo);
	N = mk();
	ai_assume(N->size > 0);
	ai_assume(v + N->size > v);
	failures(1);
	e = pt_image_add(image, N, asid(), v, newisid());
	cover(image, x, &t, &go);
	if (e == 0 && x >= v && x < v + N->size) {
		ai_reach("an address is covered by the added section");
		ai_assert(t == N && go == x - v, "the section added last determines the memory it covers");
	} else {
		if (e == 0)
			ai_reach("an address is not covered by the added section");
		else
			ai_reach("adding a section fails");
		ai_assert(t == s && (!s || go == fo), "other memory keeps its content");
	}
}
void spec_cov_copy(void)
{
	struct pt_image *dst;
	struct pt_section *s, *t;
	uint64_t x = ai_u64(), fo, go;
	int e;

	shaped();
	cover(image, x, &s, &fo);
	dst = pt_image_alloc(0);
	ai_assume(dst != 0);
	failures(1);
	e = pt_image_copy(dst, image);
	cover(dst, x, &t, &go);
	if (e == 0) {
		ai_reach("copying an image succeeds");
		ai_assert(t == s && (!s || go == fo), "a copied image has the same memory");
	}
	cover(image, x, &t, &go);
	ai_assert(t == s && (!s || go == fo), "the image copied from is not changed");
}
void spec_cov_remove(void)
{
	struct pt_section *s, *t;
	uint64_t x = ai_u64(), fo, go;
	int e;

	shaped();
	cover(image, x, &s, &fo);
	failures(1);
	e = pt_image_remove(image, A ? A : N, asid(), va);
	cover(image, x, &t, &go);
	if (t)
		ai_assert(t == s && go == fo, "other memory keeps its content");
	else if (s)
		ai_assert(s == A && e == 0, "only the removed section's memory disappears");
}
void spec_cov_fetch(void)
{
	struct pt_mapped_section ms;
	struct pt_section *s, *t;
	uint64_t x = ai_u64(), y = ai_u64(), fo, go;
	int e;

	shaped();
	cover(image, x, &s, &fo);
	e = pt_image_find(image, &ms, asid(), y);
	cover(image, x, &t, &go);
	ai_assert(t == s && (!s || go == fo), "looking up an address does not change the memory");
	cover(image, y, &t, &go);
	ai_assert((e >= 0) == (t != 0), "an address is found if and only if it is covered");
	if (e >= 0) {
		ai_reach("an address is found");
		ai_assert(ms.section == t && y - ms.vaddr + ms.offset == go, "the section that covers the address is found");
	}
}
