/* Sideband records: C21 (bounds) and C22 (round trip). */
#include "model.h"
#include "pevent.h"
#include "intel-pt.h"

#ifndef TYPE
#define TYPE 0 /* any type the library does not know */
#endif
#ifndef LEN
#define LEN 0
#endif
#define STRING (TYPE == 1 || TYPE == 3 || TYPE == 10) /* MMAP, COMM, MMAP2 */

static struct pev_config *config;

#ifdef LONG
static uint64_t length; /* of the string, unknown */
#endif

/* strings are followed byte by byte here */
size_t ai_model_strnlen(const char *s, size_t max)
{
	size_t n;

#ifdef LONG
	ai_touch(s, length < max ? length + 1 : max);
	return length < max ? length : max;
#endif
	for (n = 0; n < max; n++)
		if (!s[n])
			break;
	return n;
}

#define SCONF 2
#ifndef SC
#define SC 1
#endif
static void configure(void)
{
	ai_checks(ai_ck_mem | ai_ck_shift | ai_ck_div);
	ai_limits(20000, 20000, 100);
	ai_keep(8);
	config = ai_region(sizeof(*config), "configuration", 0);
	ai_assume(config->time_shift < 64);
	config->sample_config = 0;
	if (SC && ai_choice()) {
		struct pev_sample_config *sc = ai_region(sizeof(*sc) + SCONF * sizeof(sc->stypes[0]), "sample configuration", 0);

		sc->nstypes = (uint32_t) ai_split(ai_u64(), 0, SCONF);
		ai_assume(sc->nstypes <= SCONF);
		ai_readonly(sc, 1);
		config->sample_config = sc;
	}
	ai_readonly(config, 1);
}

/* ---- reading */
static void of_type(const struct perf_event_header *h, uint64_t size)
{
	if (size < sizeof(*h))
		return;
	if (TYPE)
		ai_assume(h->type == TYPE);
	else
		ai_assume((h->type != 1 && h->type != 2 && h->type != 3 && h->type != 4 && h->type != 5 && h->type != 6 && h->type != 7 &&
			   h->type != 10 && h->type != 11 && h->type != 12 && h->type != 13 && h->type != 14 && h->type != 15));
}

static void inside(const void *p, size_t size, const uint8_t *begin, int n, const char *what)
{
	if (!p)
		return;
	ai_assert((const uint8_t *) p >= begin && (const uint8_t *) p + size <= begin + n, what);
}

static size_t record_size(uint32_t type)
{
	switch (type) {
	case PERF_RECORD_MMAP: return sizeof(struct pev_record_mmap);
	case PERF_RECORD_LOST: return sizeof(struct pev_record_lost);
	case PERF_RECORD_COMM: return sizeof(struct pev_record_comm);
	case PERF_RECORD_EXIT: return sizeof(struct pev_record_exit);
	case PERF_RECORD_THROTTLE:
	case PERF_RECORD_UNTHROTTLE: return sizeof(struct pev_record_throttle);
	case PERF_RECORD_FORK: return sizeof(struct pev_record_fork);
	case PERF_RECORD_MMAP2: return sizeof(struct pev_record_mmap2);
	case PERF_RECORD_AUX: return sizeof(struct pev_record_aux);
	case PERF_RECORD_ITRACE_START: return sizeof(struct pev_record_itrace_start);
	case PERF_RECORD_LOST_SAMPLES: return sizeof(struct pev_record_lost_samples);
	case PERF_RECORD_SWITCH_CPU_WIDE: return sizeof(struct pev_record_switch_cpu_wide);
	default: return 0;
	}
}

static void results(const struct pev_event *ev, const uint8_t *begin, int n)
{
	size_t rs = record_size(ev->type);

	if (rs) {
		ai_assert(ev->record.mmap != 0, "the record is provided");
		inside(ev->record.mmap, rs, begin, n, "the record lies inside the bytes consumed");
	} else
		ai_assert(ev->record.mmap == 0, "there is no record where the type has none");
	inside(ev->sample.pid, 4, begin, n, "the pid sample lies inside the bytes consumed");
	inside(ev->sample.tid, 4, begin, n, "the tid sample lies inside the bytes consumed");
	inside(ev->sample.time, 8, begin, n, "the time sample lies inside the bytes consumed");
	inside(ev->sample.id, 8, begin, n, "the id sample lies inside the bytes consumed");
	inside(ev->sample.stream_id, 8, begin, n, "the stream id sample lies inside the bytes consumed");
	inside(ev->sample.cpu, 4, begin, n, "the cpu sample lies inside the bytes consumed");
	inside(ev->sample.identifier, 8, begin, n, "the identifier sample lies inside the bytes consumed");
}

/* any type, any size, any content: only the bytes of the buffer are looked at */
void spec_pev_read_any(void)
{
	uint64_t size = ai_u64();
	struct pev_event ev;
	uint8_t *begin;

	configure();
	ai_limits(20000, 20000, 2);
	ai_assume(size <= 1ull << 40);
	begin = ai_region(size, "sideband buffer", 0);
	of_type((const struct perf_event_header *) begin, size);
	ai_readonly(begin, 1);
	ai_havoc(&ev, sizeof(ev), "event", 0);
	(void) pev_read(&ev, begin, begin + size, config);
	ai_reach("done");
}

/* records without strings */
void spec_pev_read_fixed(void)
{
	uint64_t size = ai_u64();
	const struct perf_event_header *h;
	struct pev_event ev;
	uint8_t *begin;
	int n;

	configure();
	ai_assume(size <= 1ull << 40);
	begin = ai_region(size, "sideband buffer", 0);
	ai_readonly(begin, 1);
	h = (const struct perf_event_header *) begin;
	of_type(h, size);
	ai_havoc(&ev, sizeof(ev), "event", 0);
	n = pev_read(&ev, begin, begin + size, config);
	if (n < 0)
		return;
	ai_reach("read");
	ai_assert((size_t) n >= sizeof(*h) && (uint64_t) n <= size, "the size lies inside the buffer");
	ai_assert(n == h->size, "the size is the one in the header");
	ai_assert(ev.type == h->type && ev.misc == h->misc, "type and flags are those in the header");
	results(&ev, begin, n);
}

/* records with strings: header sizes up to the largest string plus all samples, for strings of LEN bytes */
#if STRING
void spec_pev_read_string(void)
{
	uint64_t size = ai_u64(), i;
	struct perf_event_header *h;
	struct pev_event ev;
	const char *name;
	uint8_t *begin;
	size_t rs;
	int n, found = 0;

	configure();
	ai_assume(size <= 1ull << 40);
	begin = ai_region(size, "sideband buffer", 0);
	h = (struct perf_event_header *) begin;
	if (size >= sizeof(*h)) {
		h->type = TYPE;
		h->size = LEN;
	}
	ai_readonly(begin, 1);
	ai_havoc(&ev, sizeof(ev), "event", 0);
	n = pev_read(&ev, begin, begin + size, config);
	if (n < 0)
		return;
	ai_assert(n == LEN && size >= LEN, "the size is the one in the header");
	results(&ev, begin, n);
	rs = record_size(TYPE);
	name = (const char *) (begin + sizeof(*h) + rs);
	ai_assert((const uint8_t *) ev.record.mmap == begin + sizeof(*h), "the record follows the header");
	for (i = 0; i < LEN - sizeof(*h) - rs; i++)
		if (!name[i]) {
			found = 1;
			break;
		}
	ai_assert(found, "the string ends inside the record");
	inside(ev.sample.pid, 0, begin + sizeof(*h) + rs + i, 1 << 20, "the samples lie behind the string");
	inside(ev.sample.time, 0, begin + sizeof(*h) + rs + i, 1 << 20, "the samples lie behind the string");
}
#endif

/* ---- writing: every subset of the samples, with records and strings of any content */
static uint32_t *pid, *tid, *cpu;
static uint64_t *tim, *sid, *stream, *ident;
static uint64_t samples; /* the samples in use */

static void *value(size_t size, const char *what)
{
	void *p = ai_region(size, what, 0);

	ai_readonly(p, 1);
	return p;
}

static struct pev_event *event(uint64_t mask)
{
	struct pev_event *ev = ai_region(sizeof(*ev), "event", 0);
	size_t rs = record_size(TYPE ? TYPE : ev->type), i;

	if (TYPE)
		ev->type = TYPE;
	else
		ai_assume((ev->type != 1 && ev->type != 2 && ev->type != 3 && ev->type != 4 && ev->type != 5 && ev->type != 6 && ev->type != 7 &&
			   ev->type != 10 && ev->type != 11 && ev->type != 12 && ev->type != 13 && ev->type != 14 && ev->type != 15));
	ev->record.mmap = 0;
#ifdef LONG
	length = ai_u64();
	ai_assume(length < 1ull << 40);
	ev->record.mmap = value(rs + length + 1, "record");
	if (0)
#endif
	if (STRING) {
		char *r = ai_region(rs + LEN + 1, "record", 0);

		for (i = 0; i < LEN; i++)
			ai_assume(r[rs + i] != 0);
		r[rs + LEN] = 0;
		ai_readonly(r, 1);
		ev->record.mmap = (struct pev_record_mmap *) r;
	}
	if (rs && !STRING)
		ev->record.mmap = value(rs, "record");
	samples = mask;
	ev->sample.pid = ev->sample.tid = ev->sample.cpu = 0;
	ev->sample.time = ev->sample.id = ev->sample.stream_id = ev->sample.identifier = 0;
	if (mask & PERF_SAMPLE_TID) {
		ev->sample.pid = value(4, "pid");
		ev->sample.tid = value(4, "tid");
	}
	if (mask & PERF_SAMPLE_TIME)
		ev->sample.time = value(8, "time");
	if (mask & PERF_SAMPLE_ID)
		ev->sample.id = value(8, "id");
	if (mask & PERF_SAMPLE_STREAM_ID)
		ev->sample.stream_id = value(8, "stream id");
	if (mask & PERF_SAMPLE_CPU)
		ev->sample.cpu = value(4, "cpu");
	if (mask & PERF_SAMPLE_IDENTIFIER)
		ev->sample.identifier = value(8, "identifier");
	ai_readonly(ev, 1);
	return ev;
}

static uint64_t some_samples(void)
{
	uint64_t m = 0;

	if (ai_choice()) m |= PERF_SAMPLE_TID;
	if (ai_choice()) m |= PERF_SAMPLE_TIME;
	if (ai_choice()) m |= PERF_SAMPLE_ID;
	if (ai_choice()) m |= PERF_SAMPLE_STREAM_ID;
	if (ai_choice()) m |= PERF_SAMPLE_CPU;
	if (ai_choice()) m |= PERF_SAMPLE_IDENTIFIER;
	return m;
}

void spec_pev_write(void)
{
	uint64_t size = ai_u64();
	struct pev_event *ev;
	uint8_t *buffer;
	int n;

	configure();
	ai_assume(size <= 1ull << 40);
	ev = event(some_samples());
	buffer = ai_region(size, "sideband buffer", 0);
	ai_track(buffer);
	n = pev_write(ev, buffer, buffer + size, config);
	if (n < 0)
		return;
	ai_assert((uint64_t) n <= size, "no more is written than fits");
#ifdef LONG
	ai_reach("written");
	ai_assert(n <= UINT16_MAX, "the size fits into the header");
	ai_assert(((const struct perf_event_header *) buffer)->size == n, "the header holds the size");
	return;
#endif
	ai_assert_written(buffer, n, "exactly the reported number of bytes is written");
}

static void same(const void *a, const void *b, size_t size, const char *what)
{
	ai_assert((a == 0) == (b == 0), what);
	if (a)
		ai_assert_eq(a, b, size, what);
}

void spec_pev_round_trip(void)
{
	const struct perf_event_header *h;
	struct pev_event *ev, *got;
	uint8_t *buffer;
	uint64_t want;
	int n, r, e;

	configure();
	/* The identifier is known to be present, or there is no per-identifier configuration. */
	if (config->sample_config)
		ai_assume((config->sample_type & PERF_SAMPLE_IDENTIFIER) != 0);
	ai_assume(config->time_mult != 0 && config->size >= sizeof(*config));
	ev = event(some_samples());
	buffer = ai_region(256, "sideband buffer", 0);
	n = pev_write(ev, buffer, buffer + 256, config);
	if (n < 0)
		return;
	h = (const struct perf_event_header *) buffer;
	ai_assert(h->size == n, "the header holds the size");
	got = ai_region(sizeof(*got), "event read back", 0);
	ai_readonly(buffer, 1);
	r = pev_read(got, buffer, buffer + 256, config);
	ai_reach("read back");
	ai_assert(r == n, "reading consumes the bytes written");
	ai_assert(got->type == ev->type && got->misc == ev->misc, "type and flags are the same");
	same(ev->record.mmap, got->record.mmap, STRING ? record_size(TYPE) + LEN + 1 : record_size(TYPE), "the record is the same");
	same(ev->sample.pid, got->sample.pid, 4, "the pid is the same");
	same(ev->sample.tid, got->sample.tid, 4, "the tid is the same");
	same(ev->sample.time, got->sample.time, 8, "the time is the same");
	same(ev->sample.id, got->sample.id, 8, "the id is the same");
	same(ev->sample.stream_id, got->sample.stream_id, 8, "the stream id is the same");
	same(ev->sample.cpu, got->sample.cpu, 4, "the cpu is the same");
	same(ev->sample.identifier, got->sample.identifier, 8, "the identifier is the same");
	want = 0;
	if (ev->sample.time) {
		e = pev_time_to_tsc(&want, *ev->sample.time, config);
		ai_assert(e == 0, "the time converts");
	}
	ai_assert(got->sample.tsc == want, "the TSC is the time's");
}
