/* The packet encoder: C03, C04. */
#include "model.h"
#include "pt_encoder.h"
#include "pt_packet_decoder.h"
#include "pt_opcodes.h"
#include "intel-pt.h"

static uint8_t *buf, *pos;
static size_t n;

static struct pt_encoder *spec_encoder(void)
{
	struct pt_encoder *enc;
	size_t off = ai_u64();

	n = ai_u64();
	ai_assume(n < (1ull << 48));
	ai_assume(off <= n);
	buf = ai_region(n, "trace buffer", 0);
	ai_track(buf);
	enc = ai_region(sizeof(*enc), "encoder", 0);
	enc->config.begin = buf;
	enc->config.end = buf + n;
	enc->pos = pos = buf + off;
	ai_checks(ai_ck_mem | ai_ck_div | ai_ck_shift);
	ai_limits(800, 800, 70);
	ai_keep(8);
	return enc;
}

static void spec_result(struct pt_encoder *enc, int status)
{
	if (status < 0) {
		ai_reach("a packet may be rejected");
		ai_assert(enc->pos == pos, "a failed write leaves the position unchanged");
		ai_assert_pristine(buf, "a failed write leaves the buffer unchanged");
	} else {
		ai_reach("a packet may be written");
		ai_assert(status > 0, "a packet has a positive size");
		ai_assert(enc->pos == pos + status, "the position advances by exactly the returned size");
		ai_assert_written(pos, status, "exactly the returned number of bytes is written at the position");
	}
	ai_assert(buf <= enc->pos && enc->pos <= buf + n, "the position stays inside the buffer");
}

static struct pt_packet *spec_packet(int type)
{
	struct pt_packet *packet = ai_region(sizeof(*packet), "packet", 0);

	packet->type = type;
	if (type == ppt_tnt_8 || type == ppt_tnt_64)
		packet->payload.tnt.bit_size = ai_split(packet->payload.tnt.bit_size, 0, 48);
	if (type == ppt_tnt_64)
		ai_assume(packet->payload.tnt.bit_size != 0);
	ai_readonly(packet, 1);
	return packet;
}

/* C03: any packet */
void spec_enc_next(void)
{
	struct pt_encoder *enc = spec_encoder();

	spec_result(enc, pt_enc_next(enc, spec_packet(ai_int())));
}

/* C03: the position */
void spec_enc_sync_set(void)
{
	struct pt_encoder *enc = spec_encoder();
	uint64_t offset = ai_u64(), back;
	int status;

	status = pt_enc_sync_set(enc, offset);
	if (status < 0) {
		ai_reach("an offset may be rejected");
		ai_assert(n < offset, "every offset inside the buffer is accepted");
		ai_assert(status == -pte_eos, "an offset outside the buffer is reported as end of buffer");
		ai_assert(enc->pos == pos, "a rejected offset leaves the position unchanged");
	} else {
		ai_reach("an offset may be accepted");
		ai_assert(offset <= n, "the position stays inside the buffer");
		ai_assert(enc->pos == buf + offset, "the position is set to the given offset");
		ai_assert(pt_enc_get_offset(enc, &back) == 0, "the offset is available");
		ai_assert(back == offset, "the reported offset is the one that was set");
	}
	ai_assert_pristine(buf, "changing the position writes nothing");
}

/* C03: convenience functions */
#define ENC(name, call)                                                        \
	void spec_encode_##name(void)                                          \
	{                                                                      \
		struct pt_encoder *enc = spec_encoder();                       \
		spec_result(enc, call);                                        \
	}
ENC(pad, pt_encode_pad(enc))
ENC(psb, pt_encode_psb(enc))
ENC(psbend, pt_encode_psbend(enc))
ENC(tip, pt_encode_tip(enc, ai_u64(), ai_int()))
ENC(tnt_8, pt_encode_tnt_8(enc, ai_u8(), ai_int()))
ENC(tnt_64, pt_encode_tnt_64(enc, ai_u64(), ai_int()))
ENC(tip_pge, pt_encode_tip_pge(enc, ai_u64(), ai_int()))
ENC(tip_pgd, pt_encode_tip_pgd(enc, ai_u64(), ai_int()))
ENC(fup, pt_encode_fup(enc, ai_u64(), ai_int()))
ENC(pip, pt_encode_pip(enc, ai_u64(), ai_u8()))
ENC(ovf, pt_encode_ovf(enc))
ENC(mode_exec, pt_encode_mode_exec(enc, ai_int()))
ENC(mode_tsx, pt_encode_mode_tsx(enc, ai_u8()))
ENC(tsc, pt_encode_tsc(enc, ai_u64()))
ENC(cbr, pt_encode_cbr(enc, ai_u8()))
ENC(tma, pt_encode_tma(enc, ai_u16(), ai_u16()))
ENC(mtc, pt_encode_mtc(enc, ai_u8()))
ENC(cyc, pt_encode_cyc(enc, ai_u32()))
ENC(stop, pt_encode_stop(enc))
ENC(vmcs, pt_encode_vmcs(enc, ai_u64()))
ENC(mnt, pt_encode_mnt(enc, ai_u64()))

/* C04: write, then read. */
static void spec_rt(int type, void (*check)(const struct pt_packet *, const struct pt_packet *))
{
	struct pt_encoder *enc = spec_encoder();
	struct pt_packet *packet = spec_packet(type);
	struct pt_packet_decoder *dec;
	struct pt_packet back;
	int size, status;

	size = pt_enc_next(enc, packet);
	if (size < 0)
		return;
	ai_reach("a packet may be written");
	dec = ai_region(sizeof(*dec), "decoder", 0);
	memset(dec, 0, sizeof(*dec));
	dec->config.begin = buf;
	dec->config.end = buf + n;
	dec->pos = dec->sync = pos;
	status = pt_pkt_next(dec, &back, sizeof(back));
	ai_assert(status == size, "the packet that was written can be read back with the same size");
	ai_assert(back.size == size, "the packet size is the number of bytes written");
	ai_assert(back.type == (enum pt_packet_type) type, "the packet type is read back");
	if (check)
		check(packet, &back);
}
#define RT(name, body)                                                         \
	static void check_##name(const struct pt_packet *w, const struct pt_packet *r) { body } \
	void spec_rt_##name(void) { spec_rt(ppt_##name, check_##name); }
#define SAME(a, b, what) ai_assert((a) == (b), what " is read back")
#define BOOL(a, b, what) ai_assert(!(a) == !(b), what " is read back")

RT(pad, )
RT(psb, )
RT(psbend, )
RT(stop, )
RT(ovf, )
#define IP(name)                                                               \
	RT(name,                                                               \
	SAME(r->payload.ip.ipc, w->payload.ip.ipc, "the IP compression");      \
	switch (w->payload.ip.ipc) {                                           \
	case pt_ipc_suppressed: break;                                         \
	case pt_ipc_update_16: SAME(r->payload.ip.ip, w->payload.ip.ip & 0xffffull, "the 16-bit IP"); break; \
	case pt_ipc_update_32: SAME(r->payload.ip.ip, w->payload.ip.ip & 0xffffffffull, "the 32-bit IP"); break; \
	case pt_ipc_update_48: case pt_ipc_sext_48:                            \
		SAME(r->payload.ip.ip, w->payload.ip.ip & 0xffffffffffffull, "the 48-bit IP"); break; \
	case pt_ipc_full: SAME(r->payload.ip.ip, w->payload.ip.ip, "the full IP"); break; \
	default: ai_never("packets with an invalid IP compression are rejected"); } )
IP(fup)
IP(tip)
IP(tip_pge)
IP(tip_pgd)
RT(tnt_8, SAME(r->payload.tnt.bit_size, w->payload.tnt.bit_size, "the number of TNT bits");
	SAME(r->payload.tnt.payload, w->payload.tnt.payload, "the TNT payload");)
RT(tnt_64, SAME(r->payload.tnt.bit_size, w->payload.tnt.bit_size, "the number of TNT bits");
	SAME(r->payload.tnt.payload, w->payload.tnt.payload, "the TNT payload");)
RT(mode, SAME(r->payload.mode.leaf, w->payload.mode.leaf, "the mode leaf");
	if (w->payload.mode.leaf == pt_mol_exec) {
		SAME(r->payload.mode.bits.exec.csl, w->payload.mode.bits.exec.csl, "CS.L");
		SAME(r->payload.mode.bits.exec.csd, w->payload.mode.bits.exec.csd, "CS.D");
		SAME(r->payload.mode.bits.exec.iflag, w->payload.mode.bits.exec.iflag, "IF");
	} else {
		SAME(r->payload.mode.bits.tsx.intx, w->payload.mode.bits.tsx.intx, "InTX");
		SAME(r->payload.mode.bits.tsx.abrt, w->payload.mode.bits.tsx.abrt, "TXAbort");
	})
RT(pip, SAME(r->payload.pip.cr3, w->payload.pip.cr3 & 0xfffffffffffe0ull, "CR3");
	SAME(r->payload.pip.nr, w->payload.pip.nr, "the non-root bit");)
RT(tsc, SAME(r->payload.tsc.tsc, w->payload.tsc.tsc & 0xffffffffffffffull, "the TSC");)
RT(cbr, SAME(r->payload.cbr.ratio, w->payload.cbr.ratio, "the core:bus ratio");)
RT(tma, SAME(r->payload.tma.ctc, w->payload.tma.ctc, "the CTC"); SAME(r->payload.tma.fc, w->payload.tma.fc, "the fast counter");)
RT(mtc, SAME(r->payload.mtc.ctc, w->payload.mtc.ctc, "the CTC");)
RT(cyc, SAME(r->payload.cyc.value, w->payload.cyc.value, "the cycle count");)
RT(vmcs, SAME(r->payload.vmcs.base, w->payload.vmcs.base & 0xffffffffff000ull, "the VMCS base");)
RT(mnt, SAME(r->payload.mnt.payload, w->payload.mnt.payload, "the MNT payload");)
RT(exstop, SAME(r->payload.exstop.ip, w->payload.exstop.ip, "the IP bit");)
RT(mwait, SAME(r->payload.mwait.hints, w->payload.mwait.hints, "the MWAIT hints"); SAME(r->payload.mwait.ext, w->payload.mwait.ext, "the MWAIT extensions");)
RT(pwre, SAME(r->payload.pwre.state, w->payload.pwre.state & 0xf, "the C-state"); SAME(r->payload.pwre.sub_state, w->payload.pwre.sub_state & 0xf, "the C-sub-state");
	SAME(r->payload.pwre.hw, w->payload.pwre.hw, "the h/w bit");)
RT(pwrx, SAME(r->payload.pwrx.last, w->payload.pwrx.last & 0xf, "the last C-state"); SAME(r->payload.pwrx.deepest, w->payload.pwrx.deepest & 0xf, "the deepest C-state");
	SAME(r->payload.pwrx.interrupt, w->payload.pwrx.interrupt, "the interrupt wake reason");
	SAME(r->payload.pwrx.store, w->payload.pwrx.store, "the store wake reason");
	SAME(r->payload.pwrx.autonomous, w->payload.pwrx.autonomous, "the autonomous wake reason");)
RT(ptw, SAME(r->payload.ptw.plc, w->payload.ptw.plc, "the payload size code"); SAME(r->payload.ptw.ip, w->payload.ptw.ip, "the IP bit");
	if (w->payload.ptw.plc == 0) SAME(r->payload.ptw.payload, w->payload.ptw.payload & 0xffffffffull, "the 32-bit payload");
	else SAME(r->payload.ptw.payload, w->payload.ptw.payload, "the 64-bit payload");)
RT(cfe, SAME(r->payload.cfe.type, w->payload.cfe.type & 0x1f, "the event type"); SAME(r->payload.cfe.vector, w->payload.cfe.vector, "the vector");
	SAME(r->payload.cfe.ip, w->payload.cfe.ip, "the IP bit");)
RT(evd, SAME(r->payload.evd.type, w->payload.evd.type & 0x1f, "the event data type"); SAME(r->payload.evd.payload, w->payload.evd.payload, "the event data");)
RT(trig, SAME(r->payload.trig.trbv, w->payload.trig.trbv, "the trigger vector"); SAME(r->payload.trig.ip, w->payload.trig.ip, "the IP bit");
	SAME(r->payload.trig.icntv, w->payload.trig.icntv, "the ICNTV bit"); SAME(r->payload.trig.mult, w->payload.trig.mult, "the MULT bit");
	if (w->payload.trig.icntv) SAME(r->payload.trig.icnt, w->payload.trig.icnt, "the instruction count");)
