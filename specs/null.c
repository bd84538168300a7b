/* C06: a missing argument is rejected: no NULL dereference, nothing is modified. */
#include "model.h"
#include "intel-pt.h"
#include "pt_encoder.h"
#include "pt_packet_decoder.h"
#include "pt_event_decoder.h"
#include "pt_query_decoder.h"
#include "pt_insn_decoder.h"
#include "pt_block_decoder.h"
#include "pt_image.h"
#include "pt_image_section_cache.h"

/* An argument that must not be touched. */
static void *arg(size_t size, const char *name)
{
	void *p = ai_region(size, name, 0);

	ai_readonly(p, 1);
	return p;
}
#define ARG(type) ((type *) arg(sizeof(type), #type))
#define REJECT(call) do { int s_ = (call); ai_assert(s_ == -pte_invalid, "a missing argument is rejected: " #call); } while (0)
#define NOTHING(call) ai_assert((call) == NULL, "there is nothing to return: " #call)

void spec_null_misc(void)
{
	struct pt_errata *errata = ARG(struct pt_errata);
	struct pt_cpu *cpu = ARG(struct pt_cpu);

	REJECT(pt_cpu_errata(NULL, cpu));
	REJECT(pt_cpu_errata(errata, NULL));
	REJECT(pt_cpu_errata(NULL, NULL));
	ai_reach("done");
}

void spec_null_enc(void)
{
	struct pt_encoder *e = ARG(struct pt_encoder);
	uint64_t *offset = ARG(uint64_t);
	struct pt_packet *packet = ARG(struct pt_packet);

	NOTHING(pt_alloc_encoder(NULL));
	pt_free_encoder(NULL);
	REJECT(pt_enc_sync_set(NULL, ai_u64()));
	REJECT(pt_enc_get_offset(NULL, offset));
	REJECT(pt_enc_get_offset(e, NULL));
	NOTHING(pt_enc_get_config(NULL));
	REJECT(pt_enc_next(NULL, packet));
	REJECT(pt_enc_next(e, NULL));
	ai_reach("done");
}

void spec_null_pkt(void)
{
	struct pt_packet_decoder *d = ARG(struct pt_packet_decoder);
	uint64_t *offset = ARG(uint64_t);
	struct pt_packet *packet = ARG(struct pt_packet);

	NOTHING(pt_pkt_alloc_decoder(NULL));
	pt_pkt_free_decoder(NULL);
	REJECT(pt_pkt_sync_forward(NULL));
	REJECT(pt_pkt_sync_backward(NULL));
	REJECT(pt_pkt_sync_set(NULL, ai_u64()));
	REJECT(pt_pkt_get_offset(NULL, offset));
	REJECT(pt_pkt_get_offset(d, NULL));
	REJECT(pt_pkt_get_sync_offset(NULL, offset));
	REJECT(pt_pkt_get_sync_offset(d, NULL));
	NOTHING(pt_pkt_get_config(NULL));
	REJECT(pt_pkt_next(NULL, packet, ai_u64()));
	REJECT(pt_pkt_next(d, NULL, ai_u64()));
	ai_reach("done");
}

void spec_null_evt(void)
{
	struct pt_event_decoder *d = ARG(struct pt_event_decoder);
	uint64_t *offset = ARG(uint64_t);
	struct pt_event *event = ARG(struct pt_event);

	NOTHING(pt_evt_alloc_decoder(NULL));
	pt_evt_free_decoder(NULL);
	REJECT(pt_evt_sync_forward(NULL));
	REJECT(pt_evt_sync_backward(NULL));
	REJECT(pt_evt_sync_set(NULL, ai_u64()));
	REJECT(pt_evt_get_offset(NULL, offset));
	REJECT(pt_evt_get_offset(d, NULL));
	REJECT(pt_evt_get_sync_offset(NULL, offset));
	REJECT(pt_evt_get_sync_offset(d, NULL));
	NOTHING(pt_evt_get_config(NULL));
	REJECT(pt_evt_next(NULL, event, ai_u64()));
	REJECT(pt_evt_next(d, NULL, ai_u64()));
	ai_reach("done");
}

void spec_null_qry(void)
{
	struct pt_query_decoder *d = ARG(struct pt_query_decoder);
	uint64_t *u64 = ARG(uint64_t);
	uint32_t *u32 = ARG(uint32_t);
	int *taken = ARG(int);
	struct pt_event *event = ARG(struct pt_event);

	NOTHING(pt_qry_alloc_decoder(NULL));
	pt_qry_free_decoder(NULL);
	REJECT(pt_qry_sync_forward(NULL, u64));
	REJECT(pt_qry_sync_backward(NULL, u64));
	REJECT(pt_qry_sync_set(NULL, u64, ai_u64()));
	REJECT(pt_qry_get_offset(NULL, u64));
	REJECT(pt_qry_get_offset(d, NULL));
	REJECT(pt_qry_get_sync_offset(NULL, u64));
	REJECT(pt_qry_get_sync_offset(d, NULL));
	NOTHING(pt_qry_get_config(NULL));
	REJECT(pt_qry_cond_branch(NULL, taken));
	REJECT(pt_qry_cond_branch(d, NULL));
	REJECT(pt_qry_indirect_branch(NULL, u64));
	REJECT(pt_qry_indirect_branch(d, NULL));
	REJECT(pt_qry_event(NULL, event, ai_u64()));
	REJECT(pt_qry_event(d, NULL, ai_u64()));
	REJECT(pt_qry_time(NULL, u64, u32, u32));
	REJECT(pt_qry_time(d, NULL, u32, u32));
	REJECT(pt_qry_core_bus_ratio(NULL, u32));
	REJECT(pt_qry_core_bus_ratio(d, NULL));
	ai_reach("done");
}

void spec_null_img(void)
{
	struct pt_image_section_cache *c = ARG(struct pt_image_section_cache);
	struct pt_image *i = ARG(struct pt_image);
	char *name = arg(8, "name");
	uint8_t *buffer = arg(16, "buffer");
	struct pt_asid *asid = ARG(struct pt_asid);

	pt_iscache_free(NULL);
	REJECT(pt_iscache_set_limit(NULL, ai_u64()));
	NOTHING(pt_iscache_name(NULL));
	REJECT(pt_iscache_add_file(NULL, name, ai_u64(), ai_u64(), ai_u64()));
	REJECT(pt_iscache_add_file(c, NULL, ai_u64(), ai_u64(), ai_u64()));
	REJECT(pt_iscache_read(NULL, buffer, ai_u64(), ai_int(), ai_u64()));
	REJECT(pt_iscache_read(c, NULL, ai_u64(), ai_int(), ai_u64()));
	pt_image_free(NULL);
	NOTHING(pt_image_name(NULL));
	REJECT(pt_image_add_file(NULL, name, ai_u64(), ai_u64(), asid, ai_u64()));
	REJECT(pt_image_add_file(NULL, name, ai_u64(), ai_u64(), NULL, ai_u64()));
	REJECT(pt_image_add_file(i, NULL, ai_u64(), ai_u64(), asid, ai_u64()));
	REJECT(pt_image_add_cached(NULL, c, ai_int(), asid));
	REJECT(pt_image_add_cached(i, NULL, ai_int(), asid));
	REJECT(pt_image_copy(NULL, i));
	REJECT(pt_image_copy(i, NULL));
	REJECT(pt_image_copy(NULL, NULL));
	REJECT(pt_image_remove_by_filename(NULL, name, asid));
	REJECT(pt_image_remove_by_filename(i, NULL, asid));
	REJECT(pt_image_remove_by_asid(NULL, asid));
	REJECT(pt_image_set_callback(NULL, NULL, NULL));
	ai_reach("done");
}

void spec_null_insn(void)
{
	struct pt_insn_decoder *d = ARG(struct pt_insn_decoder);
	struct pt_image *i = ARG(struct pt_image);
	uint64_t *u64 = ARG(uint64_t);
	uint32_t *u32 = ARG(uint32_t);
	struct pt_event *event = ARG(struct pt_event);
	struct pt_insn *insn = ARG(struct pt_insn);
	struct pt_asid *asid = ARG(struct pt_asid);

	NOTHING(pt_insn_alloc_decoder(NULL));
	pt_insn_free_decoder(NULL);
	REJECT(pt_insn_sync_forward(NULL));
	REJECT(pt_insn_sync_backward(NULL));
	REJECT(pt_insn_sync_set(NULL, ai_u64()));
	REJECT(pt_insn_get_offset(NULL, u64));
	REJECT(pt_insn_get_offset(d, NULL));
	REJECT(pt_insn_get_sync_offset(NULL, u64));
	REJECT(pt_insn_get_sync_offset(d, NULL));
	NOTHING(pt_insn_get_image(NULL));
	REJECT(pt_insn_set_image(NULL, i));
	NOTHING(pt_insn_get_config(NULL));
	REJECT(pt_insn_time(NULL, u64, u32, u32));
	REJECT(pt_insn_time(d, NULL, u32, u32));
	REJECT(pt_insn_core_bus_ratio(NULL, u32));
	REJECT(pt_insn_core_bus_ratio(d, NULL));
	REJECT(pt_insn_asid(NULL, asid, ai_u64()));
	REJECT(pt_insn_asid(d, NULL, ai_u64()));
	REJECT(pt_insn_next(NULL, insn, ai_u64()));
	REJECT(pt_insn_next(d, NULL, ai_u64()));
	REJECT(pt_insn_event(NULL, event, ai_u64()));
	REJECT(pt_insn_event(d, NULL, ai_u64()));
	ai_reach("done");
}

void spec_null_blk(void)
{
	struct pt_block_decoder *d = ARG(struct pt_block_decoder);
	struct pt_image *i = ARG(struct pt_image);
	uint64_t *u64 = ARG(uint64_t);
	uint32_t *u32 = ARG(uint32_t);
	struct pt_event *event = ARG(struct pt_event);
	struct pt_block *block = ARG(struct pt_block);
	struct pt_asid *asid = ARG(struct pt_asid);

	NOTHING(pt_blk_alloc_decoder(NULL));
	pt_blk_free_decoder(NULL);
	REJECT(pt_blk_sync_forward(NULL));
	REJECT(pt_blk_sync_backward(NULL));
	REJECT(pt_blk_sync_set(NULL, ai_u64()));
	REJECT(pt_blk_get_offset(NULL, u64));
	REJECT(pt_blk_get_offset(d, NULL));
	REJECT(pt_blk_get_sync_offset(NULL, u64));
	REJECT(pt_blk_get_sync_offset(d, NULL));
	NOTHING(pt_blk_get_image(NULL));
	REJECT(pt_blk_set_image(NULL, i));
	NOTHING(pt_blk_get_config(NULL));
	REJECT(pt_blk_time(NULL, u64, u32, u32));
	REJECT(pt_blk_time(d, NULL, u32, u32));
	REJECT(pt_blk_core_bus_ratio(NULL, u32));
	REJECT(pt_blk_core_bus_ratio(d, NULL));
	REJECT(pt_blk_asid(NULL, asid, ai_u64()));
	REJECT(pt_blk_asid(d, NULL, ai_u64()));
	REJECT(pt_blk_next(NULL, block, ai_u64()));
	REJECT(pt_blk_next(d, NULL, ai_u64()));
	REJECT(pt_blk_event(NULL, event, ai_u64()));
	REJECT(pt_blk_event(d, NULL, ai_u64()));
	ai_reach("done");
}
