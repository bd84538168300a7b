/* The query, instruction and block decoders on top of modelled lower layers (C07, C08, C27).
 *
 * The event decoder delivers any event, the image any memory, the instruction decoder any instruction.
 */
#include "model.h"
#include "intel-pt.h"
#include "pt_query_decoder.h"
#include "pt_insn_decoder.h"
#include "pt_block_decoder.h"
#include "pt_block_cache.h"
#include "pt_msec_cache.h"
#include "pt_mapped_section.h"
#include "pt_image.h"
#include "pt_insn.h"
#include "pt_ild.h"

#define OLD (1ull << 40)
#ifndef SIZE
#define SIZE 0
#endif
#ifndef EVENT_LABELS
#define EVENT_LABELS 0
#endif
#ifndef PATHS
#define PATHS 20
#endif

static struct pt_mapped_section *msec;
static int sections;	/* section objects exist */

static int error(void)
{
	int e = ai_int();
	ai_assume(e <= -1 && e >= -27);
	return e;
}

/* An event the event decoder may deliver. */
static void any_event(struct pt_event *ev, uint64_t labels)
{
	ai_havoc(ev, sizeof(*ev), "event", labels);
#ifdef EVENT
	ev->type = EVENT;
#else
	ai_assume(ev->type <= ptev_trig);
#endif
}

int ai_model_pt_evt_next(struct pt_event_decoder *d, struct pt_event *ev, size_t size)
{
	if (!d || !ev)
		return -pte_invalid;
	ai_assert(size == sizeof(*ev), "events are fetched with their full size");
#ifdef BEFORE_EVENT
	BEFORE_EVENT;
#endif
	if (ai_choice())
		return error();
	any_event(ev, EVENT_LABELS);
	return 0;
}

#define QRY(fn, T) int ai_model_##fn(struct pt_query_decoder *d, T *out) { if (!d || !out) return -pte_invalid; if (ai_choice()) return error(); *out = (T) ai_u64(); return ai_int() & 0xff; }
#ifdef MODEL_QRY
int ai_model_pt_qry_event(struct pt_query_decoder *d, struct pt_event *ev, size_t size)
{
	if (!d || !ev)
		return -pte_invalid;
	ai_assert(size == sizeof(*ev), "events are fetched with their full size");
	if (ai_choice())
		return error();
	any_event(ev, 0);
	return ai_int() & 0xff;
}

QRY(pt_qry_cond_branch, int)
QRY(pt_qry_indirect_branch, uint64_t)
#endif

int ai_model_pt_msec_cache_read(struct pt_msec_cache *c, const struct pt_mapped_section **pm, struct pt_image *image, uint64_t vaddr)
{
	int isid;

	if (!c || !pm)
		return -pte_internal;
	if (ai_choice())
		return error();
	*pm = msec;
	isid = ai_int();
	ai_assume(isid >= 0);
	return isid;
}

int ai_model_pt_msec_cache_fill(struct pt_msec_cache *c, const struct pt_mapped_section **pm, struct pt_image *image, const struct pt_asid *asid, uint64_t vaddr)
{
	return ai_model_pt_msec_cache_read(c, pm, image, vaddr);
}

int ai_model_pt_msec_cache_invalidate(struct pt_msec_cache *c)
{
	if (!c)
		return -pte_internal;
	return ai_choice() ? 0 : error();
}

int ai_model_pt_section_read(const struct pt_section *s, uint8_t *buffer, uint16_t size, uint64_t offset)
{
	int n = ai_int();

	if (ai_choice())
		return error();
	ai_assume(n >= 1 && n <= size);
	ai_touchw(buffer, size);
	ai_havoc(buffer, size, "memory", 0);
	return n;
}

static int any_insn(struct pt_insn *insn, struct pt_insn_ext *iext)
{
	int n = ai_int();

	if (!insn || !iext)
		return -pte_internal;
	ai_assume(n >= 1 && n <= 15);
	insn->iclass = (enum pt_insn_class) ai_u32();
	ai_havoc(iext, sizeof(*iext), "iext", 0);
	if (ai_choice())
		return error();
	insn->size = (uint8_t) n;
	return n;
}

int ai_model_pt_ild_decode(struct pt_insn *insn, struct pt_insn_ext *iext)
{
	return any_insn(insn, iext);
}

int ai_model_pt_insn_decode(struct pt_insn *insn, struct pt_insn_ext *iext, struct pt_image *image, const struct pt_asid *asid)
{
	if (!insn || !iext)
		return -pte_internal;
	insn->isid = ai_int();
	ai_havoc(insn->raw, sizeof(insn->raw), "memory", 0);
	insn->truncated = ai_u8() & 1;
	return any_insn(insn, iext);
}

int ai_model_pt_insn_next_ip(uint64_t *pip, const struct pt_insn *insn, const struct pt_insn_ext *iext)
{
	if (!insn || !iext)
		return -pte_internal;
	if (ai_choice())
		return error();
	if (pip)
		*pip = ai_u64();
	return 0;
}

int ai_model_pt_insn_range_is_contiguous(uint64_t begin, uint64_t end, enum pt_exec_mode mode, struct pt_image *image, const struct pt_asid *asid, size_t steps)
{
	return ai_choice() ? (int) (ai_u32() & 1) : error();
}

int ai_model_pt_bcache_lookup(struct pt_bcache_entry *e, const struct pt_block_cache *c, uint64_t index)
{
	if (!e || !c)
		return -pte_internal;
	if (ai_choice())
		return error();
	ai_havoc(e, sizeof(*e), "bce", 0);
	ai_assume(e->mode != ptem_unknown);	/* the cache has been filled */
	return 0;
}

int ai_model_pt_bcache_add(struct pt_block_cache *c, uint64_t index, struct pt_bcache_entry e)
{
	if (!c)
		return -pte_internal;
	return ai_choice() ? 0 : error();
}

int ai_model_pt_section_alloc_bcache(struct pt_section *s) { return ai_choice() ? 0 : error(); }

int ai_model_pt_retstack_push(struct pt_retstack *r, uint64_t ip) { return r ? 0 : -pte_internal; }
int ai_model_pt_retstack_pop(struct pt_retstack *r, uint64_t *ip) { if (!r) return -pte_internal; if (ai_choice()) return -pte_retstack_empty; if (ip) *ip = ai_u64(); return 0; }

static void config(struct pt_config *c)
{
	uint8_t *buf;
	size_t n = ai_u64();

	ai_assume(n >= 1 && n < (1ull << 47));
	buf = ai_region(n, "trace", 0);
	ai_readonly(buf, 1);
	c->size = sizeof(*c);
	c->begin = buf;
	c->end = buf + n;
}

static void memory(void)
{
	struct pt_section *sec = ai_region(sizeof(*sec), "section", 0);

	#if BCACHE
	sec->bcache = ai_region(4096, "bcache", 0);
#else
	sec->bcache = NULL;
#endif
	msec = ai_region(sizeof(*msec), "mapped section", 0);
	msec->section = sec;
}

static struct pt_query_decoder *qry(uint64_t labels)
{
	struct pt_query_decoder *d = ai_region(sizeof(*d), "decoder", labels);

	config(&d->evdec.pacdec.config);
	return d;
}

static struct pt_insn_decoder *insn(uint64_t labels)
{
	struct pt_insn_decoder *d = ai_region(sizeof(*d), "decoder", labels);

	config(&d->query.evdec.pacdec.config);
	d->image = ai_choice() ? &d->default_image : ai_region(sizeof(*d->image), "image", 0);
	ai_assume(d->retstack.top <= pt_retstack_size && d->retstack.bottom <= pt_retstack_size);
	ai_assume(d->status >= 0);
	memory();
	return d;
}

static struct pt_block_decoder *blk(uint64_t labels)
{
	struct pt_block_decoder *d = ai_region(sizeof(*d), "decoder", labels);

#ifdef EVENT
	d->event.type = EVENT;
#else
	ai_assume(d->event.type <= ptev_trig);
#endif

	config(&d->evdec.pacdec.config);
	d->image = ai_choice() ? &d->default_image : ai_region(sizeof(*d->image), "image", 0);
	ai_assume(d->retstack.top <= pt_retstack_size && d->retstack.bottom <= pt_retstack_size);
	memory();
	return d;
}

static void checks(void)
{
	ai_checks(ai_ck_mem);
	ai_limits(PATHS, PATHS, 2);
}

/* C07, C27 */
void spec_size_qry_event(void)
{
	struct pt_query_decoder *d = qry(0);
	struct pt_event *ev = ai_region(SIZE, "event", OLD);
	int r;

	checks();
#ifdef EVENT
	d->event.type = EVENT;
#endif
	r = pt_qry_event(d, ev, SIZE);
	if (r >= 0) {
		ai_reach("an event");
		ai_assert_labels(ev, SIZE < sizeof(*ev) ? SIZE : sizeof(*ev), OLD, "all of the caller's event is filled in");
		ai_assert_labels(ev, SIZE, AI_UNINIT, "the event is defined");
	}
}

void spec_size_insn_event(void)
{
	struct pt_insn_decoder *d = insn(0);
	struct pt_event *ev = ai_region(SIZE, "event", OLD);
	int r;

	checks();
#ifdef EVENT
	d->event.type = EVENT;
#endif
	r = pt_insn_event(d, ev, SIZE);
	if (r >= 0) {
		ai_reach("an event");
		ai_assert_labels(ev, SIZE < sizeof(*ev) ? SIZE : sizeof(*ev), OLD, "all of the caller's event is filled in");
		ai_assert_labels(ev, SIZE, AI_UNINIT, "the event is defined");
	}
}

void spec_size_blk_event(void)
{
	struct pt_block_decoder *d = blk(0);
	struct pt_event *ev = ai_region(SIZE, "event", OLD);
	int r;

	checks();
#ifdef EVENT
	d->event.type = EVENT;
#endif
	r = pt_blk_event(d, ev, SIZE);
	if (r >= 0) {
		ai_reach("an event");
		ai_assert_labels(ev, SIZE < sizeof(*ev) ? SIZE : sizeof(*ev), OLD, "all of the caller's event is filled in");
		ai_assert_labels(ev, SIZE, AI_UNINIT, "the event is defined");
	}
}

void spec_size_insn_next(void)
{
	struct pt_insn_decoder *d = insn(0);
	struct pt_insn *out = ai_region(SIZE, "instruction", OLD);
	int r;

	checks();
	r = pt_insn_next(d, out, SIZE);
	if (r >= 0) {
		ai_reach("an instruction");
		ai_assert_labels(out, SIZE, OLD, "all of the caller's instruction is filled in");
		ai_assert_labels(out, SIZE, AI_UNINIT, "the instruction is defined");
	}
}

void spec_size_blk_next(void)
{
	struct pt_block_decoder *d = blk(0);
	struct pt_block *out = ai_region(SIZE, "block", OLD);
	int r;

	checks();
	r = pt_blk_next(d, out, SIZE);
	if (r >= 0) {
		ai_reach("a block");
		ai_assert_labels(out, SIZE, OLD, "all of the caller's block is filled in");
		ai_assert_labels(out, SIZE, AI_UNINIT, "the block is defined");
	}
}
