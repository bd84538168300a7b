/* Synchronizing forgets everything decoded before (C08).
 *
 * Every byte of the decoder carries the label OLD; its configuration and its position in the trace do not.  After a
 * successful synchronization no part of the state that is in use may be computed from a byte with this label.
 */
static void before_event(void);
#define BEFORE_EVENT before_event()
#define EVENT_LABELS OLD
#include "flow.c"
#include <string.h>
#include "pt_event_decoder.h"
#include "pt_packet_decoder.h"

static int fresh;	/* synchronized, nothing decoded yet */
static unsigned old_bit(void)
{
	unsigned v;

	ai_havoc(&v, sizeof(v), "old flag", OLD);
	return v & 1;
}

static void done(void)
{
	ai_assume(0);
}

static const uint8_t *trace_begin;
static size_t trace_size;

static void pconfig(struct pt_config *c)
{
	uint8_t *buf;
	size_t n = ai_u64();

	ai_assume(n >= 1 && n < (1ull << 47));
	buf = ai_region(n, "trace", 0);
	ai_havoc(c, sizeof(*c), "config", 0);
	c->size = sizeof(*c);
	c->begin = buf;
	c->end = buf + n;
	c->decode.callback = NULL;
	trace_begin = buf;
	trace_size = n;
}

static void place(struct pt_packet_decoder *d)
{
	size_t pos = ai_u64();

	ai_assume(pos < trace_size);
	d->pos = trace_begin + pos;
	d->sync = d->pos;
}

static int placed(struct pt_packet_decoder *d)
{
	if (ai_choice())
		return error();
	place(d);
	fresh = 1;
	return 0;
}

/* A field in use; through a copy, to see bit-fields on their own. */
#define FRESH(v, what) do { __typeof__((v) + 0) ai_v = (v); ai_assert_labels(&ai_v, sizeof(ai_v), OLD, what); } while (0)
#define FRESHS(v, what) ai_assert_labels(&(v), sizeof(v), OLD, what)

#ifdef HOW
#define SYNC(fn, ...) (HOW == 0 ? fn##_forward(__VA_ARGS__) : HOW == 1 ? fn##_backward(__VA_ARGS__) : fn##_set(__VA_ARGS__, ai_u64()))
#endif

static void fresh_ip(const struct pt_last_ip *ip)
{
	FRESH(ip->have_ip, "whether there is a last IP");
	FRESH(ip->suppressed, "whether the last IP is suppressed");
	FRESHS(ip->ip, "the last IP");
}

static void fresh_time(const struct pt_time *t)
{
	FRESH(t->have_tsc, "whether there is a time");
	FRESH(t->have_cbr, "whether there is a core:bus ratio");
	FRESH(t->have_tma, "whether there is a TMA");
	FRESH(t->have_mtc, "whether there is an MTC");
	FRESHS(t->tsc, "the time");
	FRESHS(t->base, "the base time");
	FRESHS(t->fc, "the fast counter");
	FRESHS(t->ctc, "the CTC");
	FRESHS(t->ctc_cyc, "the CTC at the last CYC");
	FRESH(t->cbr, "the core:bus ratio");
	FRESHS(t->lost_mtc, "the lost MTC count");
	FRESHS(t->lost_cyc, "the lost CYC count");
}

#if LEVEL == 1
/* ---- the event decoder on top of the packet decoder */
int ai_model_pt_pkt_sync_forward(struct pt_packet_decoder *d) { return placed(d); }
int ai_model_pt_pkt_sync_backward(struct pt_packet_decoder *d) { return placed(d); }
int ai_model_pt_pkt_sync_set(struct pt_packet_decoder *d, uint64_t offset) { return placed(d); }
static struct pt_event_decoder *evt;

int ai_model_pt_pkt_next(struct pt_packet_decoder *p, struct pt_packet *packet, size_t size)
{
	struct pt_event_decoder *d = evt;

	if (fresh) {
		fresh = 0;
		ai_reach("synchronized");
		fresh_ip(&d->ip);
		fresh_time(&d->time);
		FRESHS(d->tcal, "the calibration");
		FRESHS(d->evq.begin, "the event queue");
		FRESHS(d->evq.end, "the event queue");
		FRESHS(d->status, "the status");
		ai_assert(!d->event, "there is no current event");
		FRESH(d->enabled, "whether tracing is enabled");
		FRESH(d->bound, "whether an event is bound");
		FRESH(d->mode_exec_valid, "whether there is a mode.exec");
		if (ai_choice())
			done();
	}
	/* Backward: this position does not do, another one is tried. */
	d->enabled = old_bit();
	d->bound = old_bit();
	d->mode_exec_valid = old_bit();
	ai_havoc(&d->ip, sizeof(d->ip), "ip", OLD);
	ai_havoc(&d->time, sizeof(d->time), "time", OLD);
	ai_havoc(&d->tcal, sizeof(d->tcal), "tcal", OLD);
	return error();
}

void spec_sync_evt(void)
{
	struct pt_event_decoder *d = ai_region(sizeof(*d), "decoder", OLD);

	memset(d, 0, sizeof(*d));
	ai_havoc(&d->ip, sizeof(d->ip), "ip", OLD);
	ai_havoc(&d->time, sizeof(d->time), "time", OLD);
	ai_havoc(&d->tcal, sizeof(d->tcal), "tcal", OLD);
	ai_havoc(&d->evq.begin, sizeof(d->evq.begin), "begin", OLD);
	ai_havoc(&d->evq.end, sizeof(d->evq.end), "end", OLD);
	ai_havoc(&d->status, sizeof(d->status), "status", OLD);
	d->event = ai_choice() ? &d->evq.standalone : NULL;
	d->enabled = old_bit();
	d->bound = old_bit();
	d->mode_exec_valid = old_bit();
	pconfig(&d->pacdec.config);
	ai_havoc(&d->flags, sizeof(d->flags), "flags", 0);
	place(&d->pacdec);
	evt = d;
	checks();
	(void) SYNC(pt_evt_sync, d);
}
#endif

#if LEVEL == 1
static void before_event(void) {}
#endif

#if LEVEL == 2 || LEVEL == 4
static int evt_synced(struct pt_event_decoder *d)
{
	struct pt_packet_decoder p = d->pacdec;

	if (ai_choice())
		return error();
	fresh = 1;
	place(&p);
	d->pacdec = p;
	return 0;
}
int ai_model_pt_evt_sync_forward(struct pt_event_decoder *d) { return evt_synced(d); }
int ai_model_pt_evt_sync_backward(struct pt_event_decoder *d) { return evt_synced(d); }
int ai_model_pt_evt_sync_set(struct pt_event_decoder *d, uint64_t offset) { return evt_synced(d); }
#endif

#if LEVEL == 2
static struct pt_query_decoder *qryd;

/* The first event after synchronizing is about to be fetched. */
static void before_event(void)
{
	struct pt_query_decoder *d = qryd;

	if (!fresh)
		return;
	fresh = 0;
	ai_reach("synchronized");
	FRESHS(d->tnt.tnt, "the TNT cache");
	FRESHS(d->tnt.index, "the TNT cache");
	fresh_time(&d->last_time);
	if (ai_choice())
		done();
	ai_havoc(&d->tnt, sizeof(d->tnt), "tnt", OLD);
	ai_havoc(&d->last_time, sizeof(d->last_time), "last time", OLD);
}

void spec_sync_qry(void)
{
	struct pt_query_decoder *d = ai_region(sizeof(*d), "decoder", OLD);
	uint64_t *ip = ai_region(sizeof(*ip), "IP", OLD);
	int r;

	pconfig(&d->evdec.pacdec.config);
	ai_havoc(&d->flags, sizeof(d->flags), "flags", 0);
	place(&d->evdec.pacdec);
	qryd = d;
	checks();
	r = HOW == 0 ? pt_qry_sync_forward(d, ip) : HOW == 1 ? pt_qry_sync_backward(d, ip) : pt_qry_sync_set(d, ip, ai_u64());
	if (r >= 0)
		FRESHS(d->status, "the status");
}
#endif

static void old_asid(struct pt_asid *a)
{
	ai_havoc(&a->cr3, sizeof(a->cr3), "CR3", OLD);
	ai_havoc(&a->vmcs, sizeof(a->vmcs), "VMCS", OLD);
}

/* State shared by the instruction and the block decoder.  What is only valid when a flag says so is left out: the flags are not. */
#define OLDFLOW(d) do { \
	ai_havoc(&(d)->ip, sizeof((d)->ip), "ip", OLD); \
	ai_havoc(&(d)->mode, sizeof((d)->mode), "mode", OLD); \
	ai_havoc(&(d)->status, sizeof((d)->status), "status", OLD); \
	ai_havoc(&(d)->retstack.top, sizeof((d)->retstack.top), "top", OLD); \
	ai_havoc(&(d)->retstack.bottom, sizeof((d)->retstack.bottom), "bottom", OLD); \
	old_asid(&(d)->asid); \
	(d)->enabled = old_bit(); \
	(d)->speculative = old_bit(); \
	(d)->has_icnt = old_bit(); \
	(d)->process_insn = old_bit(); \
	(d)->bound_paging = old_bit(); \
	(d)->bound_vmcs = old_bit(); \
	(d)->bound_ptwrite = old_bit(); \
	(d)->bound_iret = old_bit(); \
	(d)->bound_vmentry = old_bit(); \
	(d)->bound_uiret = old_bit(); \
} while (0)

#define FLOW(d) do { \
	FRESHS((d)->ip, "the IP"); \
	FRESHS((d)->mode, "the execution mode"); \
	FRESHS((d)->retstack.top, "the return stack"); \
	FRESHS((d)->retstack.bottom, "the return stack"); \
	FRESHS((d)->asid.cr3, "the CR3"); \
	FRESHS((d)->asid.vmcs, "the VMCS"); \
	FRESH((d)->enabled, "whether tracing is enabled"); \
	FRESH((d)->speculative, "whether execution is speculative"); \
	FRESH((d)->has_icnt, "whether there is an instruction count"); \
	FRESH((d)->process_insn, "whether an instruction is pending"); \
	FRESH((d)->bound_paging, "whether a paging event is bound"); \
	FRESH((d)->bound_vmcs, "whether a VMCS event is bound"); \
	FRESH((d)->bound_ptwrite, "whether a PTWRITE event is bound"); \
	FRESH((d)->bound_iret, "whether an IRET event is bound"); \
	FRESH((d)->bound_vmentry, "whether a VM entry event is bound"); \
	FRESH((d)->bound_uiret, "whether a UIRET event is bound"); \
} while (0)

#if LEVEL == 3
static void before_event(void) {}

static int qry_synced(struct pt_query_decoder *d, uint64_t *ip)
{
	int r = ai_int();

	if (ai_choice())
		return error();
	place(&d->evdec.pacdec);
	ai_assume(r >= 0 && r < 256);
	if (!(r & pts_ip_suppressed))
		*ip = ai_u64();
	return r;
}
int ai_model_pt_qry_sync_forward(struct pt_query_decoder *d, uint64_t *ip) { return qry_synced(d, ip); }
int ai_model_pt_qry_sync_backward(struct pt_query_decoder *d, uint64_t *ip) { return qry_synced(d, ip); }
int ai_model_pt_qry_sync_set(struct pt_query_decoder *d, uint64_t *ip, uint64_t offset) { return qry_synced(d, ip); }

void spec_sync_insn(void)
{
	struct pt_insn_decoder *d = ai_region(sizeof(*d), "decoder", 0);
	int r;

	memset(d, 0, sizeof(*d));
	OLDFLOW(d);
	d->process_event = old_bit();
	pconfig(&d->query.evdec.pacdec.config);
	place(&d->query.evdec.pacdec);
	ai_havoc(&d->flags, sizeof(d->flags), "flags", 0);
	d->image = ai_region(sizeof(*d->image), "image", 0);
	memory();
	checks();
	r = SYNC(pt_insn_sync, d);
	if (r >= 0) {
		ai_reach("synchronized");
		FRESHS(d->status, "the status");
		FRESH(d->process_event, "whether an event is pending");
		FLOW(d);
	}
}
#endif

#if LEVEL == 4
static struct pt_block_decoder *blkd;

static void before_event(void)
{
	struct pt_block_decoder *d = blkd;

	if (!fresh)
		return;
	fresh = 0;
	ai_reach("synchronized");
	FLOW(d);
	FRESH(d->has_tsc, "whether there is a time");
	FRESHS(d->tsc, "the time");
	FRESHS(d->lost_mtc, "the lost MTC count");
	FRESHS(d->lost_cyc, "the lost CYC count");
	FRESHS(d->cbr, "the core:bus ratio");
	if (ai_choice())
		done();
	OLDFLOW(d);
}

int ai_model_pt_blk_proceed_trailing_event(struct pt_block_decoder *d, struct pt_block *block)
{
	return ai_choice() ? error() : 0;
}

void spec_sync_blk(void)
{
	struct pt_block_decoder *d = ai_region(sizeof(*d), "decoder", 0);
	int r;

	memset(d, 0, sizeof(*d));
	OLDFLOW(d);
	d->has_tsc = old_bit();
	ai_havoc(&d->tsc, sizeof(d->tsc), "tsc", OLD);
	ai_havoc(&d->lost_mtc, sizeof(d->lost_mtc), "lost_mtc", OLD);
	ai_havoc(&d->lost_cyc, sizeof(d->lost_cyc), "lost_cyc", OLD);
	ai_havoc(&d->cbr, sizeof(d->cbr), "cbr", OLD);
	ai_havoc(&d->event, sizeof(d->event), "event", OLD);
	pconfig(&d->evdec.pacdec.config);
	place(&d->evdec.pacdec);
	ai_havoc(&d->flags, sizeof(d->flags), "flags", 0);
	d->image = ai_region(sizeof(*d->image), "image", 0);
	memory();
	blkd = d;
	checks();
	(void) SYNC(pt_blk_sync, d);
}
#endif
