/* Reference counts of sideband contexts (C23) and failures in sideband operations (C13). */
#include "model.h"
#include "pt_sb_session.h"
#include "pt_sb_decoder.h"
#include "pt_sb_context.h"
#include "pt_sb_pevent.h"
#include "libipt-sb.h"
#include "intel-pt.h"

#ifndef TYPE
#define TYPE 0
#endif
#ifndef LISTED
#define LISTED 2
#endif
#ifndef KEEP
#define KEEP 1
#endif
#ifndef PROP
#define PROP 23
#endif

static struct pt_sb_session *session;
static struct pt_sb_decoder *decoder;
static struct pt_sb_pevent_priv *priv;
static struct pt_sb_context *ctx[3]; /* two that may be listed, one that was removed from the list */
static uint16_t ext[3];              /* references held elsewhere */

/* what these do to an image is not of interest here */
int ai_model_pt_image_copy(struct pt_image *image, const struct pt_image *src)
{
	ai_assert(image && !ai_is_freed(image), "an image is not used after release");
	ai_assert(!src || !ai_is_freed(src), "an image is not used after release");
	return ai_choice() ? 0 : ai_int();
}
int ai_model_pt_image_add_file(struct pt_image *image, const char *filename, uint64_t offset, uint64_t size, const struct pt_asid *asid, uint64_t vaddr)
{
	ai_assert(image && !ai_is_freed(image), "an image is not used after release");
	return ai_int();
}
int ai_model_pt_image_add_cached(struct pt_image *image, struct pt_image_section_cache *iscache, int isid, const struct pt_asid *asid)
{
	ai_assert(image && !ai_is_freed(image), "an image is not used after release");
	return ai_int();
}
int ai_model_pt_iscache_add_file(struct pt_image_section_cache *iscache, const char *filename, uint64_t offset, uint64_t size, uint64_t vaddr)
{
	return ai_int();
}

static int on_switch(const struct pt_sb_context *context, void *p)
{
	ai_assert(context && !ai_is_freed(context), "the context switched to exists");
	return ai_int();
}
static int on_error(int errcode, const char *filename, uint64_t offset, void *p)
{
	return ai_int();
}

static unsigned listed(const struct pt_sb_context *c)
{
	const struct pt_sb_context *l;
	unsigned n = 0, i = 0;

	for (l = session->contexts; l && i < 8; l = l->next, i++)
		n += l == c;
	ai_assert(!l, "the list of contexts ends");
	return n;
}
static unsigned held(const struct pt_sb_context *c)
{
	return priv ? (priv->context == c) + (priv->next_context == c) : 0;
}

static struct pt_sb_context *mkctx(void)
{
	struct pt_sb_context *c = pt_sb_ctx_alloc("x");

	ai_assume(c != 0);
	c->pid = ai_u32();
	c->abi = pt_sb_abi_unknown;
	return c;
}

#ifndef CTX
#define CTX 0 /* the channel's context: none, one of the listed ones, or the one removed from the list */
#endif
#ifndef NEXT
#define NEXT 0
#endif
static struct pt_sb_context *pick(int n)
{
	return n ? ctx[n - 1] : 0;
}

static void init(void)
{
	struct pt_sb_pevent_config pc;
	int i, e;

	ai_checks(ai_ck_mem);
	ai_limits(20000, 20000, 200);
	ai_keep(KEEP);
	ai_opt_malloc_fail = 0;
	ai_opt_os_ok = 1;
	session = pt_sb_alloc((struct pt_image_section_cache *) ((CTX + NEXT) % 2 ? ai_region(8, "section cache", 0) : 0));
	ai_assume(session != 0);
	for (i = 0; i < 3; i++)
		ctx[i] = 0;
	if (LISTED > 0) {
		ctx[0] = mkctx();
		session->contexts = ctx[0];
	}
	if (LISTED > 1) {
		ctx[1] = mkctx();
		ctx[0]->next = ctx[1];
		ai_assume(ctx[0]->pid != ctx[1]->pid);
	}
	ctx[2] = mkctx();
	memset(&pc, 0, sizeof(pc));
	pc.size = sizeof(pc);
	pc.filename = ai_region(4096, "file name", 0);
	pc.primary = 1;
	e = pt_sb_alloc_pevent_decoder(session, &pc);
	ai_assume(e == 0);
	decoder = session->waiting;
	session->waiting = 0;
	session->decoders = decoder;
	priv = decoder->priv;
	priv->context = pick(CTX);
	priv->next_context = pick(NEXT);
	ai_assume(!priv->context || priv->context != priv->next_context);
	for (i = 0; i < 3; i++)
		if (ctx[i]) {
			unsigned own = listed(ctx[i]) + held(ctx[i]);

			ext[i] = ai_u16();
			ai_assume(ext[i] + own > 0 && ext[i] + own <= UINT16_MAX);
			ctx[i]->ucount = (uint16_t) (ext[i] + own);
		}
	if (CTX)
		session->notify_switch_to = on_switch;
	if (NEXT)
		session->notify_error = on_error;
	ai_opt_malloc_fail = 1;
	ai_opt_os_ok = 0;
}

static void consistent(void)
{
	const struct pt_sb_context *c;
	int i;

	for (i = 0; i < 3; i++) {
		unsigned want;

		if (!ctx[i])
			continue;
		want = (session ? listed(ctx[i]) : 0) + held(ctx[i]) + ext[i];
		if (ai_is_freed(ctx[i])) {
			ai_assert(want == 0, "a context that is still referenced is not destroyed");
			ctx[i] = 0;
		} else {
			ai_assert(want != 0, "a context is destroyed with its last reference");
			ai_assert(ctx[i]->ucount == want, "the use count is the number of references");
			ai_assert(!ai_is_freed(ctx[i]->image), "a context keeps its image");
		}
	}
	if (session)
		for (c = session->contexts, i = 0; c && i < 8; c = c->next, i++)
			if (c != ctx[0] && c != ctx[1] && c != ctx[2])
				ai_assert(c->ucount == 1 + held(c), "a new context's use count is the number of references");
	/* whatever is reachable from here is not leaked */
	if (session)
		ai_root(session);
	if (priv)
		ai_root(priv);
	for (i = 0; i < 3; i++)
		if (ctx[i] && ext[i])
			ai_root(ctx[i]);
	ai_assert_noleak("nothing is leaked");
}

static void *rec(size_t n)
{
	void *p = ai_region(n, "record", 0);

	ai_readonly(p, 1);
	return p;
}

static void record(void)
{
	struct pev_event *ev = &priv->event;

	ai_havoc(ev, sizeof(*ev), "sideband record", 0);
	ev->type = TYPE;
	switch (TYPE) {
	case PERF_RECORD_MMAP: ev->record.mmap = rec(sizeof(struct pev_record_mmap) + 64); break;
	case PERF_RECORD_COMM: ev->record.comm = rec(sizeof(struct pev_record_comm) + 64); break;
	case PERF_RECORD_FORK: ev->record.fork = rec(sizeof(struct pev_record_fork)); break;
	case PERF_RECORD_MMAP2: ev->record.mmap2 = rec(sizeof(struct pev_record_mmap2) + 64); break;
	case PERF_RECORD_AUX: ev->record.aux = rec(sizeof(struct pev_record_aux)); break;
	case PERF_RECORD_ITRACE_START: ev->record.itrace_start = rec(sizeof(struct pev_record_itrace_start)); break;
	case PERF_RECORD_LOST: ev->record.lost = rec(sizeof(struct pev_record_lost)); break;
	case PERF_RECORD_SWITCH_CPU_WIDE: ev->record.switch_cpu_wide = rec(sizeof(struct pev_record_switch_cpu_wide)); break;
	default: ev->record.mmap = 0;
	}
	ev->sample.pid = ai_choice() ? rec(4) : 0;
	ev->sample.time = ai_choice() ? rec(8) : 0;
	ai_free(priv->begin);
	priv->begin = ai_malloc(64);
	priv->end = priv->begin + 64;
	priv->next = priv->begin + 8;
	priv->current = ai_choice() ? priv->begin : priv->next;
	priv->location = (enum pt_sb_pevent_loc) ai_int();
}

/* one record is applied, or a postponed context switch is */
void spec_ctx_apply(void)
{
	struct pt_event *event = ai_region(sizeof(*event), "event", 0);
	struct pt_image *before = ai_region(8, "image in use", 0), *image = before;
	int primary;

	init();
	primary = ai_choice();
	if (!primary)
		ai_assume(!priv->context && !priv->next_context);
	record();
	(void) decoder->apply(session, primary ? &image : 0, event, priv);
	if (image != before) {
		ai_assert(priv->context != 0, "the image switched to belongs to the current context");
		ai_assert(image == pt_sb_ctx_image(priv->context), "the image switched to belongs to the current context");
	}
	consistent();
	ai_reach("applied");
}

void spec_ctx_dtor(void)
{
	init();
	decoder->dtor(priv);
	decoder->priv = 0;
	decoder->dtor = 0;
	priv = 0;
	consistent();
	ai_reach("destroyed");
}

void spec_ctx_get_by_pid(void)
{
	struct pt_sb_context *c = 0;
	uint32_t pid = ai_u32();
	int e;

	init();
	e = pt_sb_get_context_by_pid(&c, session, pid);
	if (e >= 0) {
		ai_assert(c != 0 && c->pid == pid, "the context is the process's");
		ai_assert(listed(c) == 1, "the context is listed");
		ai_reach("got");
	}
	consistent();
}

void spec_ctx_find_by_pid(void)
{
	struct pt_sb_context *c = 0;
	uint32_t pid = ai_u32();
	int e;

	init();
	e = pt_sb_find_context_by_pid(&c, session, pid);
	ai_assert(e == 0, "looking for a context succeeds");
	if (c)
		ai_assert(c->pid == pid && listed(c) == 1, "the context is the process's");
	else
		ai_assert((!ctx[0] || ctx[0]->pid != pid) && (!ctx[1] || ctx[1]->pid != pid), "an existing context is found");
	ai_reach("searched");
	consistent();
}

void spec_ctx_remove(void)
{
	struct pt_sb_context *c;
	unsigned was;
	int e;

	init();
	c = pick(CTX);
	was = c ? listed(c) : 0;
	e = pt_sb_remove_context(session, c);
	if (e >= 0) {
		ai_assert(was == 1, "only a listed context is removed");
		ai_assert(listed(c) == 0, "a removed context is no longer listed");
		ai_reach("removed");
	} else
		ai_assert(!was, "a listed context can be removed");
	consistent();
}

void spec_ctx_getput(void)
{
	struct pt_sb_context *c;
	int i, e, get = ai_choice();

	init();
	i = CTX ? CTX - 1 : 2;
	c = ctx[i];
	if (!c)
		return;
	ai_assume(get || ext[i] > 0);
	e = get ? pt_sb_ctx_get(c) : pt_sb_ctx_put(c);
	if (e >= 0) {
		ext[i] = (uint16_t) (get ? ext[i] + 1 : ext[i] - 1);
		ai_reach("counted");
	} else
		ai_assert(get && c->ucount == UINT16_MAX, "only an overflow prevents counting a reference");
	consistent();
}

void spec_ctx_free(void)
{
	init();
	pt_sb_free(session);
	session = 0;
	priv = 0;
	consistent();
	ai_reach("freed");
}

/* allocating a decoder while memory is short or the file can not be read: nothing is leaked or released twice */
void spec_sbdec_alloc(void)
{
	struct pt_sb_pevent_config *pc = ai_region(sizeof(*pc), "configuration", 0);
	int e;

	ai_checks(ai_ck_mem);
	ai_opt_malloc_fail = 0;
	session = pt_sb_alloc(0);
	ai_assume(session != 0);
	ai_opt_malloc_fail = 1;
	ai_opt_os_ok = 0;
	pc->filename = ai_choice() ? 0 : ai_region(FILENAME_MAX + 1, "file name", 0);
	pc->sysroot = ai_choice() ? 0 : ai_region(FILENAME_MAX + 1, "system root", 0);
	pc->vdso_x64 = ai_choice() ? 0 : ai_region(FILENAME_MAX + 1, "64-bit vdso", 0);
	pc->vdso_x32 = ai_choice() ? 0 : ai_region(FILENAME_MAX + 1, "x32 vdso", 0);
	pc->vdso_ia32 = ai_choice() ? 0 : ai_region(FILENAME_MAX + 1, "32-bit vdso", 0);
	ai_readonly(pc, 1);
	e = pt_sb_alloc_pevent_decoder(session, pc);
	if (e < 0)
		ai_assert(session->waiting == 0, "a decoder that could not be allocated is not added");
	else {
		ai_assert(session->waiting != 0, "the decoder is added");
		ai_reach("allocated");
	}
	ai_root(session);
	ai_assert_noleak("nothing is leaked");
	pt_sb_free(session);
}

void spec_sbdec_session(void)
{
	ai_checks(ai_ck_mem);
	ai_opt_malloc_fail = 1;
	session = pt_sb_alloc(0);
	if (session) {
		pt_sb_free(session);
		ai_reach("allocated");
	}
	ai_assert_noleak("nothing is leaked");
}
