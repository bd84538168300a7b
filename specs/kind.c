/* C05: the encoder and the packet decoder know every kind of packet. */
#include "model.h"
#include "intel-pt.h"
#include "pt_packet_decoder.h"
#include "pt_encoder.h"

void spec_kind_encode(void)
{
	struct pt_encoder *enc = ai_region(sizeof(*enc), "encoder", 0);
	struct pt_packet packet;
	uint8_t *buf = ai_region(64, "buffer", 0);
	int r;

	ai_limits(4000, 4000, 100);
	enc->config.size = sizeof(enc->config);
	enc->config.begin = buf;
	enc->config.end = buf + 64;
	enc->pos = buf;
	ai_havoc(&packet, sizeof(packet), "packet", 0);
	packet.type = (enum pt_packet_type) TYPE;
	if (packet.type == ppt_ptw)
		ai_assume(packet.payload.ptw.plc <= 1);
	r = pt_enc_next(enc, &packet);
	ai_assert(r != -pte_bad_opc && r != -pte_internal, "the encoder knows the packet");
	if (r > 0)
		ai_reach("the packet was encoded");
}

void spec_kind_decode(void)
{
	struct pt_packet_decoder *dec = ai_region(sizeof(*dec), "decoder", 0);
	uint8_t *buf = ai_region(64, "trace", 0);
	struct pt_packet packet;
	int r;

	ai_limits(4000, 4000, 100);
	dec->config.size = sizeof(dec->config);
	dec->config.begin = buf;
	dec->config.end = buf + 64;
	dec->config.decode.callback = NULL;
	dec->pos = dec->sync = buf;
	r = pt_pkt_next(dec, &packet, sizeof(packet));
	if (r > 0 && packet.type == (enum pt_packet_type) TYPE)
		ai_reach("the packet was decoded");
}
