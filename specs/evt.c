/* The event decoder: one call to pt_evt_next() (C05, C07, C13, C27).
 *
 * The packet decoder is replaced by a model that delivers any packet; time tracking by one that delivers any time.
 * TYPE: the kind of the current packet.  FRESH: the decoder has just been synchronized.  NEXT: there are more packets.
 */
#include "model.h"
#include "intel-pt.h"
#include "pt_event_decoder.h"

#ifndef FRESH
#define FRESH 1
#endif
#ifndef NEXT
#define NEXT 0
#endif
#ifndef CFE
#define CFE pt_cfe_intr
#endif
#ifndef SIZE
#define SIZE sizeof(struct pt_event)
#endif

static struct pt_event_decoder *dec;
static uint8_t *buf;
static size_t bufsize;

static void payload(struct pt_packet *p)
{
	ai_havoc(&p->payload, sizeof(p->payload), "payload", 0);
#if FRESH
	/* What a correct packet decoder lets through. */
	switch (p->type) {
	case ppt_fup: case ppt_tip: case ppt_tip_pge: case ppt_tip_pgd: {
		p->payload.ip.ipc = ai_choice() ? pt_ipc_suppressed : ai_choice() ? pt_ipc_update_16 : ai_choice() ? pt_ipc_sext_48 : pt_ipc_full;
		break;
	}
	case ppt_mode:
		p->payload.mode.leaf = ai_choice() ? pt_mol_exec : pt_mol_tsx;
		break;
	case ppt_cfe:
		p->payload.cfe.type = (enum pt_cfe_type) CFE;
		if (CFE == pt_cfe_rsm || CFE == pt_cfe_sipi)
			p->payload.cfe.ip = 0;
		break;
	case ppt_trig:
		p->payload.trig.icnt = 0;
		if (p->payload.trig.ip)
			p->payload.trig.icntv = 1;
		break;
	case ppt_evd:
		p->payload.evd.type = ai_choice() ? pt_evd_cr2 : pt_evd_vmxq;
		break;
	case ppt_cbr:
		ai_assume(p->payload.cbr.ratio != 0);
		break;
	case ppt_ptw:
		ai_assume(p->payload.ptw.plc <= 1);
		break;
	case ppt_tnt_8: case ppt_tnt_64:
		ai_assume(p->payload.tnt.bit_size >= 1 && p->payload.tnt.bit_size <= 47);
		break;
	default:
		break;
	}
#endif
}

int ai_model_pt_pkt_next(struct pt_packet_decoder *d, struct pt_packet *packet, size_t size)
{
#if NEXT
	if (ai_choice()) {
		uint64_t adv = ai_u64();

		packet->type = (enum pt_packet_type) ai_u32();
		ai_assume(packet->type >= ppt_unknown && packet->type <= ppt_trig);
		packet->size = ai_u8();
		payload(packet);
		return packet->size;
	}
#endif
	return NEXT && ai_choice() ? -pte_bad_packet : -pte_eos;
}

/* Time tracking: C20 and C36. */
#if FRESH
#define STATUS() 0
#else
#define STATUS() (ai_choice() ? 0 : -pte_bad_config)
#endif
int ai_model_pt_time_query_tsc(uint64_t *tsc, uint32_t *m, uint32_t *c, const struct pt_time *t)
{
	if (!tsc || !t)
		return -pte_internal;
	*tsc = ai_u64();
	if (m)
		*m = ai_u32();
	if (c)
		*c = ai_u32();
	return ai_choice() ? 0 : -pte_no_time;
}
#define TIME(fn, pkt) int ai_model_##fn(struct pt_time *t, const struct pkt *p, const struct pt_config *c) { if (!t || !p || !c) return -pte_internal; ai_havoc(t, sizeof(*t), "time", 0); return STATUS(); }
#define TCAL(fn, pkt) int ai_model_##fn(struct pt_time_cal *t, const struct pkt *p, const struct pt_config *c) { if (!t || !p || !c) return -pte_internal; ai_havoc(t, sizeof(*t), "tcal", 0); return STATUS(); }
TIME(pt_time_update_tsc, pt_packet_tsc)
TIME(pt_time_update_cbr, pt_packet_cbr)
TIME(pt_time_update_tma, pt_packet_tma)
TIME(pt_time_update_mtc, pt_packet_mtc)
TCAL(pt_tcal_update_tsc, pt_packet_tsc)
TCAL(pt_tcal_header_tsc, pt_packet_tsc)
TCAL(pt_tcal_update_cbr, pt_packet_cbr)
TCAL(pt_tcal_header_cbr, pt_packet_cbr)
TCAL(pt_tcal_update_tma, pt_packet_tma)
TCAL(pt_tcal_update_mtc, pt_packet_mtc)
TCAL(pt_tcal_update_cyc, pt_packet_cyc)
int ai_model_pt_time_update_cyc(struct pt_time *t, const struct pt_packet_cyc *p, const struct pt_config *c, uint64_t fcr)
{
	if (!t || !p || !c)
		return -pte_internal;
	ai_havoc(t, sizeof(*t), "time", 0);
	return STATUS();
}
int ai_model_pt_tcal_update_psb(struct pt_time_cal *t, const struct pt_config *c) { ai_havoc(t, sizeof(*t), "tcal", 0); return STATUS(); }
int ai_model_pt_tcal_update_ovf(struct pt_time_cal *t, const struct pt_config *c) { ai_havoc(t, sizeof(*t), "tcal", 0); return STATUS(); }
int ai_model_pt_tcal_fcr(uint64_t *fcr, const struct pt_time_cal *t) { *fcr = ai_u64(); return ai_choice() ? 0 : -pte_no_cbr; }

static void init(void)
{
	size_t pos, sync;

	ai_checks(ai_ck_mem | ai_ck_shift | ai_ck_div);
	ai_limits(4000, 4000, 40);
	dec = ai_region(sizeof(*dec), "decoder", 0);
	bufsize = ai_u64();
	ai_assume(bufsize >= 1 && bufsize < (1ull << 47));
	buf = ai_region(bufsize, "trace", 0);
	ai_readonly(buf, 1);
	pos = ai_u64(); sync = ai_u64();
	ai_assume(sync <= pos && pos <= bufsize);
	dec->pacdec.config.size = sizeof(struct pt_config);
	dec->pacdec.config.begin = buf;
	dec->pacdec.config.end = buf + bufsize;
	dec->pacdec.pos = buf + pos;
	dec->pacdec.sync = buf + sync;
	dec->event = NULL;
	dec->status = 0;
#if FRESH
	pt_evq_init(&dec->evq);
	dec->bound = 0;
	memset(&dec->pacdec.config.errata, 0, sizeof(dec->pacdec.config.errata));
#else
	ai_assume(dec->evq.begin < evq_max && dec->evq.end < evq_max);
#endif
}

/* C05: no packet is refused because of its kind. */
void spec_evt_kind(void)
{
	struct pt_event event;
	int r;

	init();
	dec->packet.type = TYPE;
	payload(&dec->packet);
	r = pt_evt_next(dec, &event, sizeof(event));
	ai_assert(r != -pte_bad_opc && r != -pte_bad_packet && r != -pte_internal, "the event decoder knows the packet");
	ai_reach("the packet was decoded");
}

/* C07, C27: the caller's event of SIZE bytes */
#define OLD (1ull << 40)
void spec_evt_size(void)
{
	struct pt_event *event;
	int r;

	init();
#if FRESH
	/* what earlier events left behind in the queue's free slots */
	ai_havoc(&dec->evq.standalone, sizeof(dec->evq.standalone), "earlier event", OLD);
	ai_havoc(dec->evq.queue, sizeof(dec->evq.queue), "earlier events", OLD);
#endif
	ai_limits(200, 200, 40);
	dec->packet.type = TYPE;
	payload(&dec->packet);
	event = ai_region(SIZE, "event", OLD);
	r = pt_evt_next(dec, event, SIZE);
	if (r < 0)
		return;
	ai_reach("an event");
	ai_assert_labels(event, SIZE, OLD, "every byte of the caller's event is filled in");
	ai_assert_labels(event, SIZE, AI_UNINIT, "every byte of the caller's event is defined");
}

#if !FRESH
/* Any packet in any state. */
void spec_evt_any(void)
{
	struct pt_event event;

	init();
	payload(&dec->packet);
#ifdef TYPE
	dec->packet.type = TYPE;
#endif
	(void) pt_evt_next(dec, &event, sizeof(event));
	ai_reach("an event or an error");
}
#endif
