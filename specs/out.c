/* What the library hands to and takes from the caller (C07, C27). */
#include "model.h"
#include "intel-pt.h"
#include "pt_asid.h"
#include "pt_config.h"
#include "pt_packet_decoder.h"
#include "pt_event_decoder.h"
#include "pt_query_decoder.h"
#include "pt_insn_decoder.h"
#include "pt_block_decoder.h"
#include "pt_encoder.h"
#include "pt_image.h"
#include <string.h>

#define OLD (1ull << 40)
#ifndef SIZE
#define SIZE 16
#endif

static void checks(void)
{
	ai_checks(ai_ck_mem);
	ai_limits(40, 40, 70);
}

static void config(struct pt_config *c)
{
	uint8_t *buf;
	size_t n = ai_u64();

	ai_assume(n >= 1 && n < (1ull << 47));
	buf = ai_region(n, "trace", 0);
	c->size = sizeof(*c);
	c->begin = buf;
	c->end = buf + n;
	c->decode.callback = NULL;
}

static void place(struct pt_packet_decoder *d)
{
	size_t pos = ai_u64(), sync = ai_u64(), n;

	config(&d->config);
	n = d->config.end - d->config.begin;
	ai_assume(sync <= pos && pos <= n);
	d->pos = d->config.begin + pos;
	d->sync = d->config.begin + sync;
}

/* The caller's structure of SIZE bytes is filled in completely. */
static void filled(const void *p)
{
	ai_assert_labels(p, SIZE, OLD, "every byte of the caller's structure is filled in");
	ai_assert_labels(p, SIZE, AI_UNINIT, "every byte of the caller's structure is defined");
}

#define out(p, name) do { \
	ai_assert_labels((p), sizeof(*(p)), OLD, name " is stored"); \
	ai_assert_labels((p), sizeof(*(p)), AI_UNINIT, name " is defined"); \
} while (0)
#define place_for(p) ai_havoc((p), sizeof(*(p)), "the caller's variable", OLD)

void spec_size_pkt(void)
{
	struct pt_packet_decoder *d = ai_region(sizeof(*d), "decoder", 0);
	struct pt_packet *packet = ai_region(SIZE, "packet", OLD);
	int r;

	checks();
	place(d);
	r = pt_pkt_next(d, packet, SIZE);
	if (r > 0) {
		ai_reach("a packet");
		/* The packet decoder does not provide the payload bytes that a packet of its type does not use. */
		ai_assert_labels(packet, SIZE < 5 ? SIZE : 5, OLD, "the packet's type and size are filled in");
		ai_assert_labels(packet, SIZE < 5 ? SIZE : 5, AI_UNINIT, "the packet's type and size are defined");
		if (SIZE > sizeof(*packet)) {
			ai_assert_labels((uint8_t *) packet + sizeof(*packet), SIZE - sizeof(*packet), OLD, "what the library does not know is cleared");
			ai_assert_labels((uint8_t *) packet + sizeof(*packet), SIZE - sizeof(*packet), AI_UNINIT, "what the library does not know is cleared");
		}
	}
}

/* The payload of a packet of type TYPE. */
#ifdef TYPE
#define field(f) do { \
	ai_assert_vlabels((uint64_t) (f), OLD, "the payload of the packet is filled in"); \
	ai_assert_vlabels((uint64_t) (f), AI_UNINIT, "the payload of the packet is defined"); \
} while (0)
void spec_out_payload(void)
{
	struct pt_packet_decoder *d = ai_region(sizeof(*d), "decoder", 0);
	struct pt_packet *p = ai_region(sizeof(*p), "packet", OLD);

	checks();
	ai_limits(2000, 2000, 70);
	place(d);
	if (pt_pkt_next(d, p, sizeof(*p)) <= 0 || p->type != TYPE)
		return;
	ai_reach("a packet of this type");
	switch (TYPE) {
	case ppt_tnt_8: case ppt_tnt_64: field(p->payload.tnt.bit_size); field(p->payload.tnt.payload); break;
	case ppt_fup: case ppt_tip: case ppt_tip_pge: case ppt_tip_pgd: field(p->payload.ip.ipc); field(p->payload.ip.ip); break;
	case ppt_mode:
		field(p->payload.mode.leaf);
		if (p->payload.mode.leaf == pt_mol_exec) {
			field(p->payload.mode.bits.exec.csl); field(p->payload.mode.bits.exec.csd); field(p->payload.mode.bits.exec.iflag);
		} else {
			field(p->payload.mode.bits.tsx.intx); field(p->payload.mode.bits.tsx.abrt);
		}
		break;
	case ppt_pip: field(p->payload.pip.cr3); field(p->payload.pip.nr); break;
	case ppt_tsc: field(p->payload.tsc.tsc); break;
	case ppt_cbr: field(p->payload.cbr.ratio); break;
	case ppt_tma: field(p->payload.tma.ctc); field(p->payload.tma.fc); break;
	case ppt_mtc: field(p->payload.mtc.ctc); break;
	case ppt_cyc: field(p->payload.cyc.value); break;
	case ppt_vmcs: field(p->payload.vmcs.base); break;
	case ppt_mnt: field(p->payload.mnt.payload); break;
	case ppt_exstop: field(p->payload.exstop.ip); break;
	case ppt_mwait: field(p->payload.mwait.hints); field(p->payload.mwait.ext); break;
	case ppt_pwre: field(p->payload.pwre.state); field(p->payload.pwre.sub_state); field(p->payload.pwre.hw); break;
	case ppt_pwrx: field(p->payload.pwrx.last); field(p->payload.pwrx.deepest); field(p->payload.pwrx.interrupt); field(p->payload.pwrx.store); field(p->payload.pwrx.autonomous); break;
	case ppt_ptw: field(p->payload.ptw.payload); field(p->payload.ptw.plc); field(p->payload.ptw.ip); break;
	case ppt_cfe: field(p->payload.cfe.type); field(p->payload.cfe.vector); field(p->payload.cfe.ip); break;
	case ppt_evd: field(p->payload.evd.type); field(p->payload.evd.payload); break;
	case ppt_trig: field(p->payload.trig.trbv); if (p->payload.trig.icntv) field(p->payload.trig.icnt); field(p->payload.trig.ip); field(p->payload.trig.icntv); field(p->payload.trig.mult); break;
	default: break;
	}
}
#endif

/* The size of the caller's structure is not known. */
void spec_size_pkt_any(void)
{
	struct pt_packet_decoder *d = ai_region(sizeof(*d), "decoder", 0);
	size_t size = ai_u64();
	struct pt_packet *packet;

	checks();
	ai_assume(size <= 0x10000);
	packet = ai_region(size, "packet", 0);
	place(d);
	if (pt_pkt_next(d, packet, size) > 0)
		ai_reach("a packet");
}

void spec_size_asid_to(void)
{
	struct pt_asid *user = ai_region(SIZE, "asid", OLD);
	struct pt_asid asid;
	size_t known = SIZE < sizeof(asid) ? SIZE : sizeof(asid);
	int r;

	checks();
	ai_havoc(&asid, sizeof(asid), "asid", 0);
	r = pt_asid_to_user(user, &asid, SIZE);
	if (r < 0) {
		ai_assert_labels(user, SIZE, ~OLD, "a structure without room for its size is refused untouched");
		ai_assert(SIZE < sizeof(asid.size), "a structure with room for its size is filled in");
	} else {
		ai_assert(user->size == known, "the structure says how much of it has been filled in");
		ai_assert_labels(user, known, OLD, "as much as its size says is filled in");
		ai_assert_eq((uint8_t *) user + sizeof(user->size), (uint8_t *) &asid + sizeof(asid.size), known - sizeof(asid.size), "the identifier's fields are copied");
	}
}

void spec_size_asid_from(void)
{
	struct pt_asid *user = ai_region(SIZE, "asid", 0);
	struct pt_asid asid;

	checks();
	ai_readonly(user, 1);
	user = ai_choice() ? user : NULL;
	if (user) {
		ai_readonly(user, 0);
		user->size = SIZE;
		ai_readonly(user, 1);
	}
	ai_havoc(&asid, sizeof(asid), "asid", OLD);
	if (pt_asid_from_user(&asid, user) >= 0) {
		ai_reach("an identifier");
		ai_assert_labels(&asid, sizeof(asid), OLD, "no part of the identifier is left over");
		ai_assert_labels(&asid, sizeof(asid), AI_UNINIT, "the identifier is defined");
		ai_assert(asid.size == sizeof(asid), "the identifier has the library's size");
		if (user && (SIZE & 7) && SIZE < sizeof(asid))
			return; /* part of a field */
		if (!user || SIZE < offsetof(struct pt_asid, cr3) + 8)
			ai_assert(asid.cr3 == pt_asid_no_cr3, "what the caller did not provide is not set");
		else
			ai_assert(asid.cr3 == user->cr3, "what the caller provides is taken over");
		if (!user || SIZE < offsetof(struct pt_asid, vmcs) + 8)
			ai_assert(asid.vmcs == pt_asid_no_vmcs, "what the caller did not provide is not set");
		else
			ai_assert(asid.vmcs == user->vmcs, "what the caller provides is taken over");
	}
}

void spec_size_config(void)
{
	struct pt_config *user = ai_region(SIZE, "config", 0), config;
	size_t known = SIZE < sizeof(config) ? SIZE : sizeof(config), i;
	int r;

	checks();
	user->size = SIZE;
	ai_readonly(user, 1);
	ai_havoc(&config, sizeof(config), "config", OLD);
	r = pt_config_from_user(&config, user);
	if (r >= 0) {
		ai_reach("a configuration");
		ai_assert_labels(&config, sizeof(config), OLD, "no part of the configuration is left over");
		ai_assert_labels(&config, sizeof(config), AI_UNINIT, "the configuration is defined");
		ai_assert_eq((uint8_t *) &config + sizeof(config.size), (uint8_t *) user + sizeof(config.size), known - sizeof(config.size), "what the caller provides is taken over");
		for (i = known; i < sizeof(config); i++)
			ai_assert(((uint8_t *) &config)[i] == 0, "what the caller did not provide reads as zero");
		ai_assert(config.begin && config.end && config.begin <= config.end, "the trace buffer is valid");
	}
}

/* Allocating a decoder reads no more of the configuration than its size says. */
#ifdef ALLOC
void spec_size_alloc(void)
{
	struct pt_config *user = ai_region(SIZE, "config", 0);
	uint8_t *buf;
	size_t n = ai_u64();

	checks();
	ai_assume(n < (1ull << 47));
	buf = ai_region(n, "trace", 0);
	if (SIZE >= 24) {
		user->begin = buf;
		user->end = buf + n;
	}
	if (SIZE >= 8)
		user->size = SIZE;
	ai_readonly(user, 1);
	if (SIZE >= 8 && ALLOC(user))
		ai_reach("a decoder");
}
#endif

/* New events start out defined. */
void spec_out_evq(void)
{
	struct pt_event_queue *q = ai_region(sizeof(*q), "event queue", OLD);
	struct pt_event *ev;

	ai_checks(ai_ck_mem);
	ai_limits(400, 400, 70);
	q->begin = ai_u8();
	q->end = ai_u8();
	ai_assume(q->begin < evq_max && q->end < evq_max);
	q->end = (uint8_t) ai_split(q->end, 0, evq_max - 1);
	if (ai_choice())
		ev = pt_evq_standalone(q);
	else
		ev = pt_evq_enqueue(q, ai_u32());
	if (ev) {
		ai_reach("a new event");
		ai_assert_labels(ev, sizeof(*ev), OLD, "every byte of a new event is filled in");
		ai_assert_labels(ev, sizeof(*ev), AI_UNINIT, "every byte of a new event is defined");
	}
}

/* The simple results. */
void spec_out_pkt(void)
{
	struct pt_packet_decoder *d = ai_region(sizeof(*d), "decoder", 0);
	uint64_t offset;

	checks();
	place(d);
	place_for(&offset);
	if (pt_pkt_get_offset(d, &offset) >= 0) { ai_reach("offset"); out(&offset, "the offset"); }
	place_for(&offset);
	if (pt_pkt_get_sync_offset(d, &offset) >= 0) { ai_reach("sync offset"); out(&offset, "the sync offset"); }
}

void spec_out_enc(void)
{
	struct pt_encoder *d = ai_region(sizeof(*d), "encoder", 0);
	uint64_t offset;

	checks();
	config(&d->config);
	d->pos = d->config.begin;
	place_for(&offset);
	if (pt_enc_get_offset(d, &offset) >= 0) { ai_reach("offset"); out(&offset, "the offset"); }
}

void spec_out_evt(void)
{
	struct pt_event_decoder *d = ai_region(sizeof(*d), "decoder", 0);
	uint64_t offset;

	checks();
	place(&d->pacdec);
	place_for(&offset);
	if (pt_evt_get_offset(d, &offset) >= 0) { ai_reach("offset"); out(&offset, "the offset"); }
	place_for(&offset);
	if (pt_evt_get_sync_offset(d, &offset) >= 0) { ai_reach("sync offset"); out(&offset, "the sync offset"); }
}

int ai_model_pt_evt_next(struct pt_event_decoder *d, struct pt_event *ev, size_t size)
{
	int e = ai_int();

	if (ai_choice()) {
		ai_assume(e < 0);
		return e;
	}
	ai_havoc(ev, size, "event", 0);
	ai_assume(ev->type <= ptev_trig);
	return 0;
}
static int synced(void)
{
	int e = ai_int();
	ai_assume(e <= 0);
	return e;
}
int ai_model_pt_evt_sync_forward(struct pt_event_decoder *d) { return synced(); }
int ai_model_pt_evt_sync_backward(struct pt_event_decoder *d) { return synced(); }
int ai_model_pt_evt_sync_set(struct pt_event_decoder *d, uint64_t offset) { return synced(); }

#define TIMES(d, fn) do { \
	uint64_t t; uint32_t m, c; \
	place_for(&t); place_for(&m); place_for(&c); \
	if (fn##_time(d, &t, &m, &c) >= 0) { ai_reach("time"); out(&t, "the time"); out(&m, "the lost MTC count"); out(&c, "the lost CYC count"); } \
	place_for(&t); \
	if (fn##_time(d, &t, NULL, NULL) >= 0) { ai_reach("time only"); out(&t, "the time"); } \
	place_for(&m); \
	if (fn##_core_bus_ratio(d, &m) >= 0) { ai_reach("core:bus ratio"); out(&m, "the core:bus ratio"); } \
	place_for(&t); \
	if (fn##_get_offset(d, &t) >= 0) { ai_reach("offset"); out(&t, "the offset"); } \
	place_for(&t); \
	if (fn##_get_sync_offset(d, &t) >= 0) { ai_reach("sync offset"); out(&t, "the sync offset"); } \
} while (0)

void spec_out_qry_time(void)
{
	struct pt_query_decoder *d = ai_region(sizeof(*d), "decoder", 0);

	checks();
	place(&d->evdec.pacdec);
	TIMES(d, pt_qry);
}

void spec_out_insn_time(void)
{
	struct pt_insn_decoder *d = ai_region(sizeof(*d), "decoder", 0);

	checks();
	place(&d->query.evdec.pacdec);
	TIMES(d, pt_insn);
}

void spec_out_blk_time(void)
{
	struct pt_block_decoder *d = ai_region(sizeof(*d), "decoder", 0);

	checks();
	place(&d->evdec.pacdec);
	TIMES(d, pt_blk);
}

static struct pt_query_decoder *qry(void)
{
	struct pt_query_decoder *d = ai_region(sizeof(*d), "decoder", 0);

	checks();
	place(&d->evdec.pacdec);
	ai_assume(d->event.type <= ptev_trig);
	return d;
}

void spec_out_qry_cond(void)
{
	struct pt_query_decoder *d = qry();
	int taken;

	place_for(&taken);
	if (pt_qry_cond_branch(d, &taken) >= 0) {
		ai_reach("a branch");
		out(&taken, "the direction");
		ai_assert(taken == 0 || taken == 1, "a branch is taken or it is not");
	}
}

void spec_out_qry_ind(void)
{
	struct pt_query_decoder *d = qry();
	uint64_t ip;
	int r;

	place_for(&ip);
	r = pt_qry_indirect_branch(d, &ip);
	if (r >= 0) {
		if (r & pts_ip_suppressed) {
			ai_reach("no destination");
		} else {
			ai_reach("a destination");
			out(&ip, "the destination");
		}
	}
}

void spec_out_qry_sync(void)
{
	struct pt_query_decoder *d = qry();
	uint64_t ip;
	int r;

	place_for(&ip);
	switch (ai_choice() ? 0 : ai_choice() ? 1 : 2) {
	case 0: r = pt_qry_sync_forward(d, &ip); break;
	case 1: r = pt_qry_sync_backward(d, &ip); break;
	default: r = pt_qry_sync_set(d, &ip, ai_u64()); break;
	}
	if (r >= 0) {
		if (r & pts_ip_suppressed) {
			ai_reach("no start address");
		} else {
			ai_reach("a start address");
			out(&ip, "the start address");
		}
	}
}

/* C36: without a TSC there is no time, without a CBR no ratio, whichever decoder is asked. */
#define NOTIME(fn) do { \
	uint64_t t; uint32_t m, c; \
	ai_assert(fn##_time(d, &t, ai_choice() ? &m : NULL, ai_choice() ? &c : NULL) == -pte_no_time, "there is no time before the first TSC packet"); \
	ai_reach("no time"); \
} while (0)
#define NOCBR(fn) do { \
	uint32_t m; \
	ai_assert(fn##_core_bus_ratio(d, &m) == -pte_no_cbr, "there is no core:bus ratio before the first CBR packet"); \
	ai_reach("no ratio"); \
} while (0)

void spec_notime_qry(void)
{
	struct pt_query_decoder *d = ai_region(sizeof(*d), "decoder", 0);

	checks();
	memset(d, 0, sizeof(*d));
	place(&d->evdec.pacdec);
	NOTIME(pt_qry);
	NOCBR(pt_qry);
}

void spec_notime_insn(void)
{
	struct pt_insn_decoder *d = ai_region(sizeof(*d), "decoder", 0);

	checks();
	memset(d, 0, sizeof(*d));
	place(&d->query.evdec.pacdec);
	NOTIME(pt_insn);
	NOCBR(pt_insn);
}

void spec_notime_blk(void)
{
	struct pt_block_decoder *d = ai_region(sizeof(*d), "decoder", 0);

	checks();
	memset(d, 0, sizeof(*d));
	place(&d->evdec.pacdec);
	NOTIME(pt_blk);
	NOCBR(pt_blk);
}
