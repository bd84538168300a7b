/* Time and calibration: C20 and C36. */
#include "model.h"
#include "pt_time.h"
#include "pt_config.h"
#include "intel-pt.h"
#include <string.h>

static struct pt_time *tim, *old;
static struct pt_time_cal *tcal, *otcal;
static struct pt_config *config;

/* Any time and calibration state; a configuration with the documented field values. */
static void init(void)
{
	ai_checks(ai_ck_mem | ai_ck_shift | ai_ck_div);
	ai_limits(400, 400, 8);
	ai_keep(4);
	tim = ai_region(sizeof(*tim), "time", 0);
	tcal = ai_region(sizeof(*tcal), "calibration", 0);
	config = ai_region(sizeof(*config), "configuration", 0);
	old = ai_region(sizeof(*old), "previous time", 0);
	otcal = ai_region(sizeof(*otcal), "previous calibration", 0);
	memcpy(old, tim, sizeof(*old));
	memcpy(otcal, tcal, sizeof(*otcal));
	ai_assume(config->mtc_freq <= 15);
	ai_readonly(config, 1);
}

static void same_tsc(const char *rule)
{
	(void) rule;
	ai_assert(tim->tsc == old->tsc && tim->have_tsc == old->have_tsc, "only TSC, MTC, and CYC packets change the time");
}

static void same_lost(void)
{
	ai_assert(tim->lost_mtc == old->lost_mtc && tim->lost_cyc == old->lost_cyc, "the lost counts only change with packets that are lost or recover");
}

static void same_cbr(void)
{
	ai_assert(tim->have_cbr == old->have_cbr && tim->cbr == old->cbr, "only CBR packets change the core:bus ratio");
}

void spec_time_init(void)
{
	uint64_t tsc;
	uint32_t m, c, cbr;

	init();
	pt_time_init(tim);
	ai_assert(pt_time_query_tsc(&tsc, &m, &c, tim) == -pte_no_time, "there is no time before the first TSC packet");
	ai_assert(pt_time_query_cbr(&cbr, tim) == -pte_no_cbr, "there is no core:bus ratio before the first CBR packet");
	pt_tcal_init(tcal);
	ai_assert(pt_tcal_fcr(&tsc, tcal) == -pte_no_time, "there is no ratio before calibration");
}

void spec_time_query(void)
{
	uint64_t tsc;
	uint32_t m, c, cbr, *pm = ai_choice() ? &m : (void *) 0, *pc = ai_choice() ? &c : (void *) 0;
	int r;

	init();
	ai_readonly(tim, 1);
	r = pt_time_query_tsc(&tsc, pm, pc, tim);
	ai_assert(r == (tim->have_tsc ? 0 : -pte_no_time), "the time query succeeds exactly if there was a TSC packet");
	ai_assert(tsc == tim->tsc, "the time query gives the current time");
	if (pm)
		ai_assert(m == tim->lost_mtc, "the time query gives the number of lost MTC packets");
	if (pc)
		ai_assert(c == tim->lost_cyc, "the time query gives the number of lost CYC packets");
	r = pt_time_query_cbr(&cbr, tim);
	ai_assert(r == (tim->have_cbr ? 0 : -pte_no_cbr), "the ratio query succeeds exactly if there was a CBR packet");
	if (!r)
		ai_assert(cbr == tim->cbr, "the ratio query gives the current ratio");
}

void spec_time_tsc(void)
{
	struct pt_packet_tsc packet;
	uint64_t tsc;
	uint32_t m, c;

	init();
	packet.tsc = ai_u64();
	ai_assert(pt_time_update_tsc(tim, &packet, config) == 0, "TSC packets are always accepted");
	ai_assert(pt_time_query_tsc(&tsc, &m, &c, tim) == 0, "there is a time after a TSC packet");
	ai_assert(tsc == packet.tsc, "a TSC packet sets the time");
	ai_assert(m == 0 && c == 0, "a TSC packet recovers from losses");
	same_cbr();
	ai_reach("TSC");
}

void spec_time_cbr(void)
{
	struct pt_packet_cbr packet;
	uint32_t cbr;
	int r;

	init();
	packet.ratio = ai_u8();
	r = pt_time_update_cbr(tim, &packet, config);
	ai_assert((r >= 0) == (packet.ratio != 0), "exactly CBR packets with a ratio are accepted");
	same_tsc(0);
	same_lost();
	if (r >= 0) {
		ai_reach("CBR");
		ai_assert(pt_time_query_cbr(&cbr, tim) == 0, "there is a core:bus ratio after a CBR packet");
		ai_assert(cbr == packet.ratio, "a CBR packet sets the core:bus ratio");
	} else
		same_cbr();
}

void spec_time_tma(void)
{
	struct pt_packet_tma packet;
	int r;

	init();
	packet.ctc = ai_u16();
	packet.fc = ai_u16();
	r = pt_time_update_tma(tim, &packet, config);
	same_tsc(0);
	same_lost();
	same_cbr();
	if (r < 0) {
		ai_reach("TMA refused");
		ai_assert_eq(tim, old, sizeof(*tim), "a refused TMA packet changes nothing");
	} else {
		ai_reach("TMA");
		ai_assert(old->have_tsc && !old->have_tma, "TMA packets are accepted once after a TSC packet");
	}
}

void spec_time_mtc(void)
{
	struct pt_packet_mtc packet;
	int r, ignored;

	init();
	packet.ctc = ai_u8();
	ignored = old->have_tsc && !old->have_tma;
	r = pt_time_update_mtc(tim, &packet, config);
	same_cbr();
	ai_assert(tim->have_tsc == old->have_tsc, "MTC packets give no absolute time");
	if (ignored) {
		ai_assert(r == 0, "MTC packets between TSC and TMA are ignored");
		ai_assert_eq(tim, old, sizeof(*tim), "MTC packets between TSC and TMA are ignored");
		return;
	}
	if (r < 0) {
		ai_reach("MTC refused");
		ai_assert(tim->tsc == old->tsc, "a refused MTC packet leaves the time unchanged");
		if (r == -pte_bad_packet)
			ai_assert(tim->lost_mtc == old->lost_mtc + 1, "a bad MTC packet is counted as lost");
	} else {
		ai_reach("MTC");
		ai_assert(tim->lost_mtc == old->lost_mtc, "an accepted MTC packet is not counted as lost");
		ai_assert(tim->lost_cyc == 0, "an MTC packet recovers from CYC losses");
	}
}

void spec_time_cyc(void)
{
	struct pt_packet_cyc packet;
	uint64_t fcr = ai_u64();
	int r;

	init();
	packet.value = ai_u64();
	r = pt_time_update_cyc(tim, &packet, config, fcr);
	same_cbr();
	ai_assert(tim->have_tsc == old->have_tsc, "CYC packets give no absolute time");
	ai_assert(tim->lost_mtc == old->lost_mtc, "CYC packets do not lose MTC packets");
	if (!fcr) {
		ai_assert(r == 0, "CYC packets are ignored without calibration");
		ai_assert(tim->tsc == old->tsc, "CYC packets are ignored without calibration");
		ai_assert(tim->lost_cyc == old->lost_cyc + 1, "CYC packets without calibration are counted as lost");
	} else {
		ai_assert(tim->lost_cyc == old->lost_cyc, "CYC packets with calibration are not counted as lost");
		if (r < 0)
			ai_assert(tim->tsc == old->tsc, "a refused CYC packet leaves the time unchanged");
		else
			ai_reach("CYC");
	}
}

/* Calibration. */
static void same_fcr(void)
{
	ai_assert(tcal->fcr == otcal->fcr && tcal->min_fcr == otcal->min_fcr && tcal->max_fcr == otcal->max_fcr, "a refused packet leaves the calibration unchanged");
}

static void cal_ok(int r)
{
	if (r >= 0 && tcal->fcr != otcal->fcr) {
		uint64_t fcr;

		ai_reach("calibrated");
		ai_assert(pt_tcal_fcr(&fcr, tcal) == 0, "there is a ratio after calibration");
		ai_assert(fcr == tcal->fcr, "the ratio query gives the calibrated ratio");
	}
}

void spec_tcal_set(void)
{
	uint64_t fcr = ai_u64(), x;

	init();
	ai_assert(pt_tcal_set_fcr(tcal, fcr) == 0, "a ratio can always be set");
	ai_assert(pt_tcal_fcr(&x, tcal) == 0, "there is a ratio after calibration");
	ai_assert(x == fcr, "the ratio query gives the calibrated ratio");
}

void spec_tcal_header_tsc(void)
{
	struct pt_packet_tsc packet;
	int r;

	init();
	packet.tsc = ai_u64();
	ai_assume(packet.tsc < 1ull << 56);
	r = pt_tcal_header_tsc(tcal, &packet, config);
	if (r < 0)
		same_fcr();
	cal_ok(r);
}

void spec_tcal_tsc(void)
{
	struct pt_packet_tsc packet;

	init();
	packet.tsc = ai_u64();
	pt_tcal_update_tsc(tcal, &packet, config);
	same_fcr();
}

void spec_tcal_header_cbr(void)
{
	struct pt_packet_cbr packet;
	int r;

	init();
	packet.ratio = ai_u8();
	r = pt_tcal_header_cbr(tcal, &packet, config);
	if (r < 0)
		same_fcr();
	cal_ok(r);
}

void spec_tcal_cbr(void)
{
	struct pt_packet_cbr packet;
	uint64_t fcr;
	int r;

	init();
	packet.ratio = ai_u8();
	r = pt_tcal_update_cbr(tcal, &packet, config);
	if (!config->nom_freq)
		ai_assert(pt_tcal_fcr(&fcr, tcal) == -pte_no_time, "a frequency change discards the calibration");
	if (r >= 0 && config->nom_freq)
		ai_assert(pt_tcal_fcr(&fcr, tcal) == 0, "a frequency change to a known frequency calibrates");
}

void spec_tcal_mtc(void)
{
	struct pt_packet_mtc packet;
	int r;

	init();
	packet.ctc = ai_u8();
	r = pt_tcal_update_mtc(tcal, &packet, config);
	if (r < 0)
		same_fcr();
	cal_ok(r);
}

void spec_tcal_cyc(void)
{
	struct pt_packet_cyc packet;

	init();
	packet.value = ai_u64();
	pt_tcal_update_cyc(tcal, &packet, config);
	same_fcr();
	ai_assert(tcal->cyc_mtc == otcal->cyc_mtc + packet.value && tcal->cyc_tsc == otcal->cyc_tsc + packet.value, "cycles accumulate until the next calibration");
}

void spec_tcal_other(void)
{
	struct pt_packet_tma packet;

	init();
	packet.ctc = ai_u16();
	packet.fc = ai_u16();
	switch (ai_choice() ? 0 : ai_choice() ? 1 : 2) {
	case 0: pt_tcal_update_tma(tcal, &packet, config); break;
	case 1: pt_tcal_update_psb(tcal, config); break;
	case 2:
		pt_tcal_update_ovf(tcal, config);
		ai_assert(tcal->cyc_mtc == 0 && tcal->cyc_tsc == 0 && !tcal->have_mtc && tcal->tsc == 0, "an overflow restarts the calibration periods");
		break;
	}
	same_fcr();
}

/* With fixed ratios the arithmetic is linear. */
#ifndef FREQ
#define FREQ 3
#endif
void spec_time_mtc_step(void)
{
	struct pt_packet_mtc packet;
	uint32_t ctc, last, delta;
	uint64_t base;
	int r;

	init();
	packet.ctc = ai_u8();
	ai_readonly(config, 0);
	config->cpuid_0x15_eax = 1;
	config->cpuid_0x15_ebx = 5;
	config->mtc_freq = FREQ;
	tim->have_tsc = 1;
	tim->have_tma = 1;
	tim->have_mtc = 1;
	last = tim->ctc;
	ai_assume(last < (256u << FREQ));
	base = tim->base;
	ctc = packet.ctc * (1u << FREQ);
	delta = ctc >= last ? ctc - last : ctc + (256u << FREQ) - last;
	r = pt_time_update_mtc(tim, &packet, config);
	ai_assert(r == 0, "MTC packets are used once time and CTC are known");
	ai_assert(tim->tsc == base + 5ull * delta, "an MTC packet advances the time by the CTC ticks since the last one times the ratio");
	ai_assert(tim->base == tim->tsc && tim->fc == 0, "an MTC packet restarts cycle counting");
	ai_assert(tim->ctc == ctc, "the CTC of the last MTC packet is kept");
}

void spec_time_cyc_step(void)
{
	struct pt_packet_cyc packet;
	uint64_t base, fc;
	int r;

	init();
	packet.value = ai_u64();
	ai_assume(packet.value < 1ull << 40);
	if (ai_choice())
		ai_assume(tim->fc != 0);
	else
		tim->ctc_cyc = tim->ctc;
	base = tim->base;
	fc = tim->fc;
	r = pt_time_update_cyc(tim, &packet, config, 1ull << pt_tcal_fcr_shr);
	ai_assert(r == 0, "CYC packets are used once calibrated");
	ai_assert(tim->fc == fc + packet.value, "CYC packets accumulate in the fast counter");
	ai_assert(tim->tsc == base + fc + packet.value, "a CYC packet advances the time by its cycles times the calibrated ratio");
}
