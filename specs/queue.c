/* Event queue, TNT cache, return stack: C16. */
#include "model.h"
#include "pt_event_queue.h"
#include "pt_tnt_cache.h"
#include "pt_retstack.h"
#include "intel-pt.h"

#define CHECKS() do { ai_checks(ai_ck_mem | ai_ck_div | ai_ck_shift); ai_limits(100000, 100000, 200); } while (0)

static unsigned below(unsigned n)
{
	unsigned v = ai_u32();

	ai_assume(v < n);
	return (unsigned) ai_split(v, 0, n - 1);
}

/* ---- event queue */
enum { cap = evq_max - 2 }; /* one gap for the last dequeued event, one to tell full from empty */
static struct pt_event_queue *q, *old;
static unsigned b, c;
static uint32_t evb;

#ifndef LO
#define LO 0
#define HI evq_max
#endif

static void evq_any(unsigned maxc)
{
	CHECKS();
	q = ai_region(sizeof(*q), "event queue", 0);
	old = ai_region(sizeof(*old), "copy of the event queue", 0);
	b = LO + below(HI - LO);
	c = below(maxc + 1);
	evb = ai_u32();
	q->begin = (uint8_t) b;
	q->end = (uint8_t) ((b + c) % evq_max);
	*old = *q;
}
#define AT(qq, bb, i) (&(qq)->queue[((bb) + (i)) % evq_max])

static void evq_same(const char *dummy)
{
	ai_assert_eq(q, old, sizeof(*q), "the queue is unchanged");
}

void spec_evq_enqueue(void)
{
	struct pt_event zero, *ev;
	unsigned i;

	evq_any(cap);
	memset(&zero, 0, sizeof(zero));
	ev = pt_evq_enqueue(q, evb);
	if (c == cap) {
		ai_reach("the queue may be full");
		ai_assert(!ev, "a full queue reports overflow");
		evq_same("");
		return;
	}
	ai_reach("the queue may have space");
	ai_assert(ev != 0, "a queue with space accepts an event");
	ai_assert(q->begin == b, "the first event stays first");
	ai_assert(q->end == (b + c + 1) % evq_max, "one event is added at the end");
	ai_assert(ev == &AT(q, b, c)->event, "the new event is the last event");
	ai_assert(AT(q, b, c)->binding == evb, "the new event has the given binding");
	ai_assert_eq(ev, &zero, sizeof(*ev), "the new event is cleared");
	for (i = 0; i < c; i++)
		ai_assert_eq(AT(q, b, i), AT(old, b, i), sizeof(struct pt_evq_entry), "queued events are unchanged");
	/* the slot before the first event holds the last dequeued event */
	ai_assert_eq(AT(q, b, evq_max - 1), AT(old, b, evq_max - 1), sizeof(struct pt_evq_entry), "the last dequeued event is unchanged");
}

void spec_evq_dequeue(void)
{
	struct pt_event *ev;
	unsigned i, j;

	evq_any(cap);
	ev = pt_evq_dequeue(q, evb);
	for (j = 0; j < c; j++)
		if (AT(old, b, j)->binding & evb)
			break;
	if (j == c) {
		ai_reach("there may be no matching event");
		ai_assert(!ev, "nothing is dequeued when no event matches");
		evq_same("");
		return;
	}
	ai_reach("there may be a matching event");
	ai_assert(ev != 0, "a matching event is dequeued");
	ai_assert_eq(ev, &AT(old, b, j)->event, sizeof(*ev), "the first matching event is dequeued");
	ai_assert((q->end + evq_max - q->begin) % evq_max == c - 1, "one event is removed");
	for (i = 0; i < c - 1; i++)
		ai_assert_eq(AT(q, q->begin, i), AT(old, b, i < j ? i : i + 1), sizeof(struct pt_evq_entry), "the other events keep their order");
	/* must survive the next enqueue */
	ai_assert(ev == &AT(q, q->begin, evq_max - 1)->event, "the dequeued event stays available");
}

void spec_evq_requeue(void)
{
	struct pt_event ev, copy, *rev;
	unsigned i;

	evq_any(cap);
	ai_havoc(&ev, sizeof(ev), "event", 0);
	copy = ev;
	rev = pt_evq_requeue(q, &ev, evb);
	if (c == cap) {
		ai_assert(!rev, "a full queue reports overflow");
		evq_same("");
		return;
	}
	ai_assert(rev != 0, "a queue with space accepts an event");
	ai_assert(q->begin == b, "the first event stays first");
	ai_assert(q->end == (b + c + 1) % evq_max, "one event is added at the end");
	ai_assert(rev == &AT(q, b, c)->event, "the requeued event is the last event");
	ai_assert(AT(q, b, c)->binding == evb, "the requeued event has the given binding");
	ai_assert_eq(rev, &copy, sizeof(copy), "the requeued event is unchanged");
	for (i = 0; i < c; i++)
		ai_assert_eq(AT(q, b, i), AT(old, b, i), sizeof(struct pt_evq_entry), "queued events are unchanged");
}

void spec_evq_queries(void)
{
	struct pt_event *ev, *found;
	unsigned i, j;
	int type = ai_int(), empty, pending;

	evq_any(6);
	ev = pt_evq_peek(q, evb);
	evq_same("");
	empty = pt_evq_empty(q, evb);
	pending = pt_evq_pending(q, evb);
	evq_same("");
	for (j = 0; j < c; j++)
		if (AT(old, b, j)->binding & evb)
			break;
	if (j == c) {
		ai_reach("there may be no matching event");
		ai_assert(!ev, "peek finds nothing if no event matches");
		ai_assert(empty == 1, "the queue is empty if no event matches");
		ai_assert(pending == 0, "nothing is pending if no event matches");
	} else {
		ai_reach("there may be a matching event");
		ai_assert(ev == &AT(q, b, j)->event, "peek finds the first matching event");
		ai_assert(empty == 0, "the queue is not empty if an event matches");
		ai_assert(pending == 1, "a matching event is pending");
	}
}

void spec_evq_find(void)
{
	struct pt_event *found;
	unsigned i;
	int type = ai_int();

	evq_any(5);
	found = pt_evq_find(q, evb, (enum pt_event_type) type);
	evq_same("");
	for (i = 0; i < c; i++)
		if ((AT(old, b, i)->binding & evb) && AT(old, b, i)->event.type == (enum pt_event_type) type)
			break;
	if (i == c)
		ai_assert(!found, "find returns nothing if no event matches");
	else
		ai_assert(found == &AT(q, b, i)->event, "find returns the first event of that type and binding");
}

void spec_evq_misc(void)
{
	struct pt_event zero, *ev;

	evq_any(cap);
	memset(&zero, 0, sizeof(zero));
	if (ai_choice()) {
		ev = pt_evq_standalone(q);
		ai_assert(ev == &q->standalone, "the standalone event is provided");
		ai_assert_eq(ev, &zero, sizeof(*ev), "the standalone event is cleared");
		ai_assert_eq(q->queue, old->queue, sizeof(q->queue), "queued events are unchanged");
		ai_assert(q->begin == b && q->end == (b + c) % evq_max, "the queue is unchanged");
	} else {
		if (ai_choice())
			pt_evq_init(q);
		else
			ai_assert(pt_evq_clear(q) == 0, "a queue can be cleared");
		ai_assert(q->begin == q->end, "a cleared queue is empty");
		ai_assert(pt_evq_empty(q, 0xffffffff) == 1, "a cleared queue is empty");
	}
}

/* Any indices, even corrupt ones: stays within its storage. */
void spec_evq_storage(void)
{
	struct pt_event_queue *e;
	struct pt_event ev;

	ai_checks(ai_ck_mem | ai_ck_div | ai_ck_shift);
	ai_limits(30, 30, 2);
	e = ai_region(sizeof(*e), "event queue", 0);
	switch (below(6)) {
	case 0: (void) pt_evq_enqueue(e, ai_u32()); break;
	case 1: (void) pt_evq_dequeue(e, ai_u32()); break;
	case 2: (void) pt_evq_peek(e, ai_u32()); break;
	case 3: (void) pt_evq_find(e, ai_u32(), ai_int()); break;
	case 4: (void) pt_evq_empty(e, ai_u32()); break;
	case 5: ai_havoc(&ev, sizeof(ev), "event", 0); (void) pt_evq_requeue(e, &ev, ai_u32()); break;
	}
}

/* ---- TNT cache: @c bits, the next one in bit @c - 1 of tnt */
static struct pt_tnt_cache *tc, told;

static void tnt_any(void)
{
	CHECKS();
	tc = ai_region(sizeof(*tc), "TNT cache", 0);
	c = below(65);
	tc->index = c ? 1ull << (c - 1) : 0ull;
	told = *tc;
}
void spec_tnt_query(void)
{
	int bit;

	tnt_any();
	ai_assert(pt_tnt_cache_is_empty(tc) == (c == 0), "the cache knows when it is empty");
	bit = pt_tnt_cache_query(tc);
	if (!c) {
		ai_reach("the cache may be empty");
		ai_assert(bit == -pte_bad_query, "an empty cache reports an error");
		ai_assert(tc->tnt == told.tnt && tc->index == 0, "the cache is unchanged");
	} else {
		ai_reach("the cache may hold bits");
		ai_assert(bit == (int) ((told.tnt >> (c - 1)) & 1), "the oldest bit is returned");
		ai_assert(tc->index == (c > 1 ? 1ull << (c - 2) : 0ull), "one bit is consumed");
		if (c > 1)
			ai_assert((tc->tnt & ((1ull << (c - 1)) - 1)) == (told.tnt & ((1ull << (c - 1)) - 1)), "the other bits stay");
	}
}
void spec_tnt_add(void)
{
	uint64_t bits = ai_u64();
	unsigned size, k;
	int status;

	tnt_any();
	size = below(64);
	status = pt_tnt_cache_add(tc, bits, (uint8_t) size);
	if (c + size > 64) {
		ai_reach("the cache may overflow");
		ai_assert(status == -pte_overflow, "an overflow is reported");
		ai_assert(tc->tnt == told.tnt && tc->index == told.index, "the cache is unchanged");
		return;
	}
	ai_reach("the cache may have space");
	ai_assert(status == 0, "bits that fit are accepted");
	k = c + size;
	ai_assert(tc->index == (k ? 1ull << (k - 1) : 0ull), "the cache holds the old and the new bits");
	if (size)
		ai_assert((tc->tnt & ((1ull << size) - 1)) == (bits & ((1ull << size) - 1)), "the new bits come last");
	if (c)
		ai_assert((((tc->tnt >> size) ^ told.tnt) & (c == 64 ? ~0ull : (1ull << c) - 1)) == 0, "the old bits come first");
}
void spec_tnt_init(void)
{
	tnt_any();
	pt_tnt_cache_init(tc);
	ai_assert(pt_tnt_cache_is_empty(tc) == 1, "a new cache is empty");
}

/* ---- return stack */
static struct pt_retstack *rs, *rold;
enum { rmod = pt_retstack_size + 1 };

static void rs_any(void)
{
	CHECKS();
	rs = ai_region(sizeof(*rs), "return stack", 0);
	rold = ai_region(sizeof(*rold), "copy of the return stack", 0);
	b = below(rmod);
	c = below(rmod);
	rs->bottom = (uint8_t) b;
	rs->top = (uint8_t) ((b + c) % rmod);
	*rold = *rs;
}
static void rs_kept(unsigned from, unsigned to) /* entries from..to-1 above bottom */
{
	unsigned lo = (b + from) % rmod, n = to - from;

	if (!n)
		return;
	if (lo + n <= rmod)
		ai_assert_eq(&rs->stack[lo], &rold->stack[lo], n * sizeof(uint64_t), "the other addresses stay in order");
	else {
		ai_assert_eq(&rs->stack[lo], &rold->stack[lo], (rmod - lo) * sizeof(uint64_t), "the other addresses stay in order");
		ai_assert_eq(rs->stack, rold->stack, (lo + n - rmod) * sizeof(uint64_t), "the other addresses stay in order");
	}
}
void spec_rs_push(void)
{
	uint64_t ip = ai_u64();

	rs_any();
	ai_assert(pt_retstack_push(rs, ip) == 0, "an address can always be pushed");
	ai_assert(rs->top < rmod && rs->bottom < rmod, "the indices stay inside the stack");
	ai_assert(rs->stack[(rs->top + rmod - 1) % rmod] == ip, "the pushed address is on top");
	ai_assert(rs->top == (b + c + 1) % rmod, "one address is added on top");
	if (c == pt_retstack_size) {
		ai_reach("the stack may be full");
		ai_assert(rs->bottom == (b + 1) % rmod, "a full stack drops its oldest address");
		rs_kept(1, c);
	} else {
		ai_reach("the stack may have space");
		ai_assert(rs->bottom == b, "a stack with space keeps its oldest address");
		rs_kept(0, c);
	}
}
void spec_rs_pop(void)
{
	uint64_t ip = 1;
	int status, want = ai_choice();

	rs_any();
	ai_assert(pt_retstack_is_empty(rs) == (c == 0), "the stack knows when it is empty");
	status = pt_retstack_pop(rs, want ? &ip : 0);
	ai_assert(rs->bottom == b, "the oldest address stays");
	if (!c) {
		ai_reach("the stack may be empty");
		ai_assert(status == -pte_retstack_empty, "an empty stack reports an error");
		ai_assert(rs->top == b, "an empty stack stays empty");
	} else {
		ai_reach("the stack may hold addresses");
		ai_assert(status == 0, "a non-empty stack provides an address");
		if (want)
			ai_assert(ip == rold->stack[(b + c - 1) % rmod], "the last pushed address is popped");
		ai_assert(rs->top == (b + c - 1) % rmod, "one address is removed");
		rs_kept(0, c - 1);
	}
}
void spec_rs_init(void)
{
	rs_any();
	pt_retstack_init(rs);
	ai_assert(pt_retstack_is_empty(rs) == 1, "a new stack is empty");
	ai_assert(rs->top < rmod, "the indices stay inside the stack");
}
