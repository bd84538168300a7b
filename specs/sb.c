/* Sideband sessions: the lists of decoders (C24). */
#include "model.h"
#include "pt_sb_session.h"
#include "pt_sb_decoder.h"
#include "pt_sb_context.h"
#include "libipt-sb.h"
#include "intel-pt.h"

#ifndef ACTIVE
#define ACTIVE 2
#endif
#ifndef FETCHES
#define FETCHES 2 /* per decoder */
#endif
#define MAXD 8

static struct pt_sb_session *session;
static struct pt_sb_decoder *dec[MAXD];
static unsigned ndec;

/* the decoder's callbacks: any result, any time */
static int cb_fetch(struct pt_sb_session *s, uint64_t *tsc, void *priv)
{
	uint64_t n = ai_ghost_get(priv, 1);

	ai_assert(s == session, "a callback gets its session");
	ai_assert(!ai_is_freed(priv), "no callback runs after the destructor");
	if (n >= FETCHES || ai_choice()) {
		int e = ai_choice() ? -pte_eos : ai_int();

		ai_assume(e < 0);
		ai_ghost_set(priv, 2, e == -pte_eos ? 1 : 2);
		return e;
	}
	ai_ghost_set(priv, 1, n + 1);
	*tsc = ai_u64();
	return 0;
}
static int some_error(void *priv)
{
	int e;

	if (ai_choice())
		return 0;
	e = ai_int();
	ai_assume(e < 0);
	ai_ghost_set(priv, 2, 2);
	return e;
}
static int cb_print(struct pt_sb_session *s, FILE *stream, uint32_t flags, void *priv)
{
	ai_assert(s == session, "a callback gets its session");
	return some_error(priv);
}
static int cb_apply(struct pt_sb_session *s, struct pt_image **image, const struct pt_event *event, void *priv)
{
	ai_assert(s == session, "a callback gets its session");
	return some_error(priv);
}
static void cb_dtor(void *priv)
{
	ai_assert(!ai_is_freed(priv), "each decoder is destroyed once");
	ai_free(priv);
}

static struct pt_sb_decoder *mk(struct pt_sb_decoder *next)
{
	struct pt_sb_decoder *d = ai_malloc(sizeof(*d));
	void *priv = ai_malloc(8);

	ai_havoc(d, sizeof(*d), "decoder", 0);
	ai_havoc(priv, 8, "decoder's data", 0);
	d->next = next;
	d->fetch = cb_fetch;
	d->print = cb_print;
	d->apply = cb_apply;
	d->dtor = cb_dtor;
	d->priv = priv;
	dec[ndec++] = d;
	return d;
}

static void init(unsigned active, unsigned waiting, unsigned retired, unsigned removed)
{
	unsigned i;

	ai_checks(ai_ck_mem);
	ai_limits(20000, 20000, 200);
	ai_keep(4);
	ai_opt_malloc_fail = 0;
	ndec = 0;
	session = pt_sb_alloc(0);
	ai_assume(session != 0);
	for (i = 0; i < active; i++) {
		session->decoders = mk(session->decoders);
		if (session->decoders->next)
			ai_assume(session->decoders->tsc <= session->decoders->next->tsc);
	}
	for (i = 0; i < waiting; i++)
		session->waiting = mk(session->waiting);
	for (i = 0; i < retired; i++)
		session->retired = mk(session->retired);
	for (i = 0; i < removed; i++)
		session->removed = mk(session->removed);
	ai_opt_malloc_fail = 1;
}

static unsigned on(const struct pt_sb_decoder *list, const struct pt_sb_decoder *d)
{
	unsigned n = 0, i = 0;

	for (; list && i <= ndec; list = list->next, i++)
		n += list == d;
	ai_assert(!list, "a list ends");
	return n;
}

static void ordered(void)
{
	const struct pt_sb_decoder *d;
	unsigned i = 0;

	for (d = session->decoders; d && d->next && i <= ndec; d = d->next, i++)
		ai_assert(d->tsc <= d->next->tsc, "active decoders are ordered by time");
}

static unsigned lists(const struct pt_sb_decoder *d)
{
	return on(session->decoders, d) + on(session->waiting, d) + on(session->retired, d) + on(session->removed, d);
}

static void consistent(void)
{
	unsigned i;

	for (i = 0; i < ndec; i++) {
		ai_assert(!ai_is_freed(dec[i]), "a decoder lives as long as its session");
		ai_assert(lists(dec[i]) == 1, "each decoder is on exactly one list");
	}
	ordered();
}

void spec_sb_event(void)
{
	struct pt_event *ev = ai_region(sizeof(*ev), "event", 0);
	struct pt_image *image = 0;
	int print = ACTIVE + FETCHES < 4 && ai_choice(), want = ACTIVE < 2 && ai_choice();
	unsigned i;

	init(ACTIVE, 1, ACTIVE < 2 ? 2 : 0, 1);
	ai_readonly(ev, 1);
	(void) pt_sb_event(session, want ? &image : 0, ev, sizeof(*ev), print ? (FILE *) ai_region(8, "stream", 0) : 0, ai_u32());
	consistent();
	for (i = 0; i < ndec; i++) {
		uint64_t fate = ai_ghost_get(dec[i]->priv, 2);

		if (fate == 2)
			ai_assert(on(session->removed, dec[i]) == 1, "a decoder that failed is removed");
		else if (fate == 1)
			ai_assert(on(session->retired, dec[i]) == 1, "a decoder that ran out of records is retired");
		else if (i < ACTIVE)
			ai_assert(on(session->decoders, dec[i]) == 1, "a decoder that has a next record stays active");
	}
	ai_reach("event presented");
}

void spec_sb_dump(void)
{
	init(ACTIVE, 1, 1, 1);
	(void) pt_sb_dump(session, (FILE *) ai_region(8, "stream", 0), ai_u32(), ai_u64());
	consistent();
	ai_reach("dumped");
}

void spec_sb_init(void)
{
	unsigned i, n;
	void *priv[MAXD];
	int e;

	init(1, ACTIVE, 1, 1);
	for (i = 0; i < ndec; i++)
		priv[i] = dec[i]->priv;
	e = pt_sb_init_decoders(session);
	ai_reach("initialized");
	ai_assert(e == 0, "initialization succeeds");
	ai_assert(session->waiting == 0, "no decoder is waiting any more");
	for (i = 0; i < ndec; i++) {
		n = lists(dec[i]);
		if (n == 0)
			ai_assert(ai_is_freed(dec[i]) && ai_is_freed(priv[i]), "a decoder that can not be started is destroyed");
		else
			ai_assert(n == 1 && !ai_is_freed(dec[i]), "each decoder is on exactly one list");
	}
	ordered();
}

void spec_sb_alloc(void)
{
	struct pt_sb_decoder_config *config = ai_region(sizeof(*config), "decoder configuration", 0);
	struct pt_sb_decoder *before;
	int e;

	init(1, ACTIVE, 1, 1);
	ai_readonly(config, 1);
	before = session->waiting;
	e = pt_sb_alloc_decoder(session, config);
	if (e < 0)
		ai_assert(session->waiting == before, "a failing allocation adds nothing");
	else {
		ai_assert(session->waiting != 0 && on(before, session->waiting) == 0, "the new decoder is waiting");
		ai_assert(session->waiting->priv == config->priv, "the new decoder has the data it was given");
		dec[ndec++] = session->waiting;
		ai_reach("added");
	}
	consistent();
}

void spec_sb_free(void)
{
	unsigned i;
	void *priv[MAXD];

	init(ACTIVE, 1, 2, 1);
	for (i = 0; i < ndec; i++)
		priv[i] = dec[i]->priv;
	pt_sb_free(session);
	for (i = 0; i < ndec; i++) {
		ai_assert(ai_is_freed(dec[i]), "each decoder is released");
		ai_assert(ai_is_freed(priv[i]), "each decoder's destructor runs");
	}
	ai_assert(ai_is_freed(session), "the session is released");
	ai_assert_noleak("nothing is left of the session");
	ai_reach("freed");
}
