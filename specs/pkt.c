/* The packet decoder: C01, C02, C29. */
#include "model.h"
#include "pt_packet_decoder.h"
#include "pt_packet.h"
#include "pt_sync.h"
#include "intel-pt.h"

static int spec_unknown(struct pt_packet_unknown *unknown, const struct pt_config *config,
			const uint8_t *pos, void *context)
{
	return ai_int();
}

static uint8_t *buf;
static size_t n;

/* Any trace buffer, any configuration, any position the decoder may be at. */
static struct pt_packet_decoder *spec_decoder(int synced)
{
	struct pt_packet_decoder *dec;

	n = ai_u64();
	ai_assume(n < (1ull << 48));
	buf = ai_region(n, "trace buffer", 0);
	ai_readonly(buf, 1);
	dec = ai_region(sizeof(*dec), "decoder", 0);
	dec->config.begin = buf;
	dec->config.end = buf + n;
	dec->config.decode.callback = ai_choice() ? spec_unknown : 0;
	if (synced || ai_choice()) {
		size_t off = ai_u64(), soff = ai_u64();
		ai_assume(off <= n);
		ai_assume(soff <= n);
		dec->pos = buf + off;
		dec->sync = ai_choice() ? buf + off : buf + soff;
	} else {
		dec->pos = 0;
		dec->sync = 0;
	}
	ai_checks(ai_ck_mem | ai_ck_div | ai_ck_shift);
	ai_limits(synced ? 400 : 800, synced ? 400 : 800, synced ? 70 : 0);
	return dec;
}

static void spec_inv(struct pt_packet_decoder *dec)
{
	if (dec->pos) {
		ai_assert(buf <= dec->pos, "the position stays inside the trace buffer");
		ai_assert(dec->pos <= buf + n, "the position stays inside the trace buffer");
	}
	if (dec->sync) {
		ai_assert(buf <= dec->sync, "the sync point stays inside the trace buffer");
		ai_assert(dec->sync <= buf + n, "the sync point stays inside the trace buffer");
	}
}

/* C01, C02 */
void spec_pkt_next(void)
{
	struct pt_packet_decoder *dec = spec_decoder(1);
	const uint8_t *pos = dec->pos;
	struct pt_packet pkt;
	int status;

	status = pt_pkt_next(dec, &pkt, sizeof(pkt));
	spec_inv(dec);
	if (status < 0) {
		ai_reach("a packet read may fail");
		ai_assert(dec->pos == pos, "a failed packet read leaves the position unchanged");
	} else {
		ai_reach("a packet read may succeed");
		ai_assert(pkt.size == status, "the returned size is the packet's size");
		if (pkt.type != ppt_unknown)
			ai_assert(status > 0, "a decoded packet has a positive size");
		if (!dec->config.errata.skd007)
			ai_assert(dec->pos == pos + status, "the position advances by exactly the returned size");
		else
			ai_assert(pos + status <= dec->pos, "the position advances by at least the returned size");
	}
}

/* Not synchronized: no packet. */
void spec_pkt_next_nosync(void)
{
	struct pt_packet_decoder *dec = spec_decoder(1);
	struct pt_packet pkt;

	dec->pos = 0;
	dec->sync = 0;
	ai_assert(pt_pkt_next(dec, &pkt, sizeof(pkt)) == -pte_nosync, "reading packets requires synchronization");
}

static void spec_psb(const uint8_t *pos)
{
	int i;

	for (i = 0; i < 16; i++)
		ai_assert(pos[i] == ((i & 1) ? 0x82 : 0x02), "synchronization stops at a complete PSB pattern");
}

static void spec_sync(int (*op)(struct pt_packet_decoder *), const char *ok)
{
	struct pt_packet_decoder *dec = spec_decoder(0);
	const uint8_t *pos = dec->pos, *sync = dec->sync;
	int status;

	status = op(dec);
	spec_inv(dec);
	if (status < 0) {
		ai_assert(status == -pte_eos, "searching for a PSB fails only at the end of the trace");
		ai_assert(dec->pos == pos, "a failed search leaves the position unchanged");
		ai_assert(dec->sync == sync, "a failed search leaves the sync point unchanged");
		ai_reach("a search may fail");
	} else {
		ai_assert(dec->pos == dec->sync, "synchronization sets position and sync point");
		spec_psb(dec->pos);
		ai_reach("a search may succeed");
	}
}
void spec_pkt_sync_forward(void) { spec_sync(pt_pkt_sync_forward, ""); }
void spec_pkt_sync_backward(void) { spec_sync(pt_pkt_sync_backward, ""); }

void spec_pkt_sync_set(void)
{
	struct pt_packet_decoder *dec = spec_decoder(0);
	const uint8_t *pos = dec->pos, *sync = dec->sync;
	uint64_t offset = ai_u64(), back;
	int status;

	status = pt_pkt_sync_set(dec, offset);
	spec_inv(dec);
	if (status < 0) {
		ai_reach("an offset may be rejected");
		ai_assert(status == -pte_eos, "an offset outside the buffer is reported as end of trace");
		ai_assert(dec->pos == pos, "a rejected offset leaves the position unchanged");
		ai_assert(dec->sync == sync, "a rejected offset leaves the sync point unchanged");
	} else {
		ai_reach("an offset may be accepted");
		ai_assert(dec->pos == buf + offset, "the position is set to the given offset");
		ai_assert(dec->sync == buf + offset, "the sync point is set to the given offset");
		ai_assert(pt_pkt_get_offset(dec, &back) == 0, "the offset is available after synchronization");
		ai_assert(back == offset, "the reported offset is the one that was set");
		ai_assert(pt_pkt_get_sync_offset(dec, &back) == 0, "the sync offset is available after synchronization");
		ai_assert(back == offset, "the reported sync offset is the one that was set");
	}
}

void spec_pkt_sync_set_accepts(void)
{
	struct pt_packet_decoder *dec = spec_decoder(0);
	uint64_t offset = ai_u64();

	ai_assume(offset <= n);
	ai_assert(pt_pkt_sync_set(dec, offset) == 0, "every offset inside the buffer is accepted");
}
