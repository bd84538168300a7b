/* C06 for the sideband and the perf event library. */
#include "model.h"
#include "libipt-sb.h"
#include "pt_sb_session.h"
#include "pt_sb_context.h"
#include "pevent.h"

static void *arg(size_t size, const char *name)
{
	void *p = ai_region(size, name, 0);

	ai_readonly(p, 1);
	return p;
}
#define ARG(type) ((type *) arg(sizeof(type), #type))
#define REJECT(call) do { int s_ = (call); ai_assert(s_ == -pte_invalid, "a missing argument is rejected: " #call); } while (0)
#define FAIL(call) do { int s_ = (call); ai_assert(s_ < 0, "a missing argument is rejected: " #call); } while (0)
#define NOTHING(call) ai_assert((call) == NULL, "there is nothing to return: " #call)

void spec_null_sb(void)
{
	struct pt_sb_session *s = ARG(struct pt_sb_session);
	struct pt_sb_context *c = ARG(struct pt_sb_context), **pc = ARG(struct pt_sb_context *);
	struct pt_image **image = ARG(struct pt_image *);
	struct pt_event *event = ARG(struct pt_event);
	struct pt_sb_decoder_config *config = ARG(struct pt_sb_decoder_config);
	struct pt_sb_pevent_config *pconfig = ARG(struct pt_sb_pevent_config);
	char *name = arg(8, "name");
	FILE *stream = arg(16, "stream");

	pt_sb_free(NULL);
	NOTHING(pt_sb_iscache(NULL));
	NOTHING(pt_sb_kernel_image(NULL));
	NOTHING(pt_sb_notify_error(NULL, NULL, NULL));
	NOTHING(pt_sb_notify_switch(NULL, NULL, NULL));
	REJECT(pt_sb_init_decoders(NULL));
	REJECT(pt_sb_event(NULL, image, event, ai_u64(), stream, ai_u32()));
	REJECT(pt_sb_event(s, image, NULL, ai_u64(), stream, ai_u32()));
	REJECT(pt_sb_dump(NULL, stream, ai_u32(), ai_u64()));
	REJECT(pt_sb_dump(s, NULL, ai_u32(), ai_u64()));
	REJECT(pt_sb_ctx_get(NULL));
	REJECT(pt_sb_ctx_put(NULL));
	NOTHING(pt_sb_ctx_image(NULL));
	FAIL(pt_sb_ctx_mmap(s, NULL, name, ai_u64(), ai_u64(), ai_u64()));
	FAIL(pt_sb_ctx_switch_to(NULL, s, c));
	FAIL(pt_sb_ctx_switch_to(image, NULL, c));
	FAIL(pt_sb_ctx_switch_to(image, s, NULL));
	REJECT(pt_sb_get_context_by_pid(NULL, s, ai_u32()));
	REJECT(pt_sb_get_context_by_pid(pc, NULL, ai_u32()));
	REJECT(pt_sb_find_context_by_pid(NULL, s, ai_u32()));
	REJECT(pt_sb_find_context_by_pid(pc, NULL, ai_u32()));
	REJECT(pt_sb_remove_context(NULL, c));
	REJECT(pt_sb_remove_context(s, NULL));
	REJECT(pt_sb_alloc_decoder(NULL, config));
	REJECT(pt_sb_alloc_decoder(s, NULL));
	REJECT(pt_sb_alloc_pevent_decoder(NULL, pconfig));
	REJECT(pt_sb_alloc_pevent_decoder(s, NULL));
	ai_reach("done");
}

void spec_null_pev(void)
{
	uint64_t *u64 = ARG(uint64_t);
	struct pev_config *config = ARG(struct pev_config);
	struct pev_event *event = ARG(struct pev_event);
	uint8_t *b = arg(64, "buffer"), *e = b + 64;

	FAIL(pev_time_to_tsc(NULL, ai_u64(), config));
	FAIL(pev_time_to_tsc(u64, ai_u64(), NULL));
	FAIL(pev_time_from_tsc(NULL, ai_u64(), config));
	FAIL(pev_time_from_tsc(u64, ai_u64(), NULL));
	FAIL(pev_read(NULL, b, e, config));
	FAIL(pev_read(event, NULL, e, config));
	FAIL(pev_read(event, b, e, NULL));
	FAIL(pev_write(NULL, b, e, config));
	FAIL(pev_write(event, NULL, e, config));
	FAIL(pev_write(event, b, e, NULL));
	ai_reach("done");
}
