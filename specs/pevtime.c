/* Conversion between perf time and TSC: C20. */
#include "model.h"
#include "pevent.h"
#include "intel-pt.h"

static struct pev_config *config;

static void init(void)
{
	ai_checks(ai_ck_mem | ai_ck_shift | ai_ck_div);
	config = ai_region(sizeof(*config), "configuration", 0);
	ai_assume(config->time_shift < 64);
	ai_readonly(config, 1);
}

void spec_pev_to(void)
{
	uint64_t tsc = 42;

	init();
	if (pev_time_to_tsc(&tsc, ai_u64(), config) >= 0)
		ai_reach("converted to TSC");
	else
		ai_assert(tsc == 42, "a failing conversion stores nothing");
}

void spec_pev_from(void)
{
	uint64_t time = 42;

	init();
	if (pev_time_from_tsc(&time, ai_u64(), config) >= 0)
		ai_reach("converted from TSC");
	else
		ai_assert(time == 42, "a failing conversion stores nothing");
}
