/* Last IP (C17) and address space identifiers (C28, C07). */
#include "model.h"
#include "pt_last_ip.h"
#include "pt_asid.h"
#include "intel-pt.h"

#define CHECKS() do { ai_checks(ai_ck_mem | ai_ck_div | ai_ck_shift); ai_limits(4000, 4000, 64); } while (0)

static struct pt_last_ip *lip, old;
static struct pt_packet_ip pkt;

static uint64_t mask(unsigned bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }

void spec_lip_update(void)
{
	int status, ipc = ai_int();
	uint64_t want;

	CHECKS();
	lip = ai_region(sizeof(*lip), "last ip", 0);
	old = *lip;
	ai_havoc(&pkt, sizeof(pkt), "ip packet", 0);
	pkt.ipc = (enum pt_ip_compression) ipc;
	ai_readonly(&pkt, 1);
	status = pt_last_ip_update_ip(lip, &pkt, 0);
	switch (ipc) {
	case pt_ipc_suppressed:
		ai_reach("suppressed");
		ai_assert(status == 0, "a suppressed IP is accepted");
		ai_assert(lip->ip == old.ip && lip->have_ip == old.have_ip, "a suppressed IP keeps the last IP");
		ai_assert(lip->suppressed == 1, "a suppressed IP is remembered as such");
		return;
	case pt_ipc_update_16: want = (old.ip & ~mask(16)) | (pkt.ip & mask(16)); break;
	case pt_ipc_update_32: want = (old.ip & ~mask(32)) | (pkt.ip & mask(32)); break;
	case pt_ipc_update_48: want = (old.ip & ~mask(48)) | (pkt.ip & mask(48)); break;
	case pt_ipc_sext_48: want = (uint64_t) ((int64_t) (pkt.ip << 16) >> 16); break;
	case pt_ipc_full: want = pkt.ip; break;
	default:
		ai_reach("invalid compression");
		ai_assert(status == -pte_bad_packet, "an invalid compression is rejected");
		ai_assert_eq(lip, &old, sizeof(old), "an invalid compression leaves the last IP unchanged");
		return;
	}
	ai_reach("update");
	ai_assert(status == 0, "an IP update is accepted");
	ai_assert(lip->ip == want, "exactly the bits the packet supplies are replaced");
	ai_assert(lip->have_ip == 1 && lip->suppressed == 0, "there is a last IP after an update");
}

void spec_lip_query(void)
{
	uint64_t ip = ai_u64(), before = ip;
	int status, want = ai_choice();

	CHECKS();
	lip = ai_region(sizeof(*lip), "last ip", 0);
	old = *lip;
	ai_readonly(lip, 1);
	status = pt_last_ip_query(want ? &ip : 0, lip);
	if (!old.have_ip) {
		ai_reach("no ip");
		ai_assert(status == -pte_noip, "a missing last IP is reported");
	} else if (old.suppressed) {
		ai_reach("suppressed");
		ai_assert(status == -pte_ip_suppressed, "a suppressed last IP is reported");
	} else {
		ai_reach("ip");
		ai_assert(status == 0, "the last IP is provided");
		ai_assert(ip == (want ? old.ip : before), "the last IP is provided");
	}
	if (!want)
		ai_assert(ip == before, "nothing else is written");
}

void spec_lip_init(void)
{
	CHECKS();
	lip = ai_region(sizeof(*lip), "last ip", 0);
	pt_last_ip_init(lip);
	ai_assert(pt_last_ip_query(0, lip) == -pte_noip, "a new last IP has no IP");
	ai_assert(lip->suppressed == 0, "a new last IP is not suppressed");
}

void spec_lip_args(void)
{
	CHECKS();
	ai_havoc(&pkt, sizeof(pkt), "ip packet", 0);
	lip = ai_region(sizeof(*lip), "last ip", 0);
	ai_readonly(lip, 1);
	pt_last_ip_init(0);
	ai_assert(pt_last_ip_query(0, 0) == -pte_internal, "a missing last IP is an internal error");
	ai_assert(pt_last_ip_update_ip(0, &pkt, 0) == -pte_internal, "a missing last IP is an internal error");
	ai_assert(pt_last_ip_update_ip(lip, 0, 0) == -pte_internal, "a missing packet is an internal error");
}

/* ---- asid */
void spec_asid_match(void)
{
	struct pt_asid *l, *r;
	int cr3, vmcs, m;

	CHECKS();
	ai_keep(64);
	l = ai_region(sizeof(*l), "lhs", 0);
	r = ai_region(sizeof(*r), "rhs", 0);
	ai_readonly(l, 1);
	ai_readonly(r, 1);
	m = pt_asid_match(l, r);
	cr3 = l->cr3 == r->cr3 || l->cr3 == pt_asid_no_cr3 || r->cr3 == pt_asid_no_cr3;
	vmcs = l->vmcs == r->vmcs || l->vmcs == pt_asid_no_vmcs || r->vmcs == pt_asid_no_vmcs;
	if (cr3 && vmcs) {
		ai_reach("matching");
		ai_assert(m == 1, "equal or unset identifiers match");
	} else {
		ai_reach("not matching");
		ai_assert(m == 0, "different identifiers do not match");
	}
	ai_assert(pt_asid_match(0, r) == -pte_internal && pt_asid_match(l, 0) == -pte_internal, "a missing identifier is an internal error");
}

void spec_asid_init(void)
{
	struct pt_asid a;

	CHECKS();
	pt_asid_init(&a);
	ai_assert(a.size == sizeof(a) && a.cr3 == pt_asid_no_cr3 && a.vmcs == pt_asid_no_vmcs, "a new identifier has its fields unset");
}

/* every size a caller's structure may have; content beyond ours is ignored */
void spec_asid_from_user(void)
{
	struct pt_asid asid, none, *user;
	uint64_t n = ai_u64(), have;
	uint8_t *bytes;
	unsigned i;

	CHECKS();
	none.size = sizeof(none);
	none.cr3 = pt_asid_no_cr3;
	none.vmcs = pt_asid_no_vmcs;
	ai_havoc(&asid, sizeof(asid), "asid", 0);
	if (ai_choice()) {
		ai_assert(pt_asid_from_user(&asid, 0) == 0, "no identifier can be converted");
		ai_assert(asid.size == sizeof(asid) && asid.cr3 == none.cr3 && asid.vmcs == none.vmcs, "no identifier converts to unset fields");
		return;
	}
	ai_assume(n >= sizeof(user->size) && n < (1ull << 40));
	user = ai_region(n, "caller's asid", 0);
	ai_readonly(user, 1);
	ai_assume(user->size <= n);
	have = user->size;
	if (have < sizeof(asid))
		have = ai_split(have, 0, sizeof(asid) - 1);
	else {
		have = sizeof(asid);
		ai_reach("large caller structure");
	}
	ai_assert(pt_asid_from_user(&asid, user) == 0, "an identifier can be converted");
	ai_assert(asid.size == sizeof(asid), "the converted identifier has our size");
	for (i = sizeof(asid.size); i < sizeof(asid); i++) {
		if (i < have)
			ai_assert_eq((uint8_t *) &asid + i, (uint8_t *) user + i, 1, "fields the caller provided are taken");
		else
			ai_assert_eq((uint8_t *) &asid + i, (uint8_t *) &none + i, 1, "fields the caller did not provide are unset");
	}
}

void spec_asid_to_user(void)
{
	struct pt_asid asid, *user;
	uint64_t n = ai_u64(), have;
	unsigned i;
	int status;

	CHECKS();
	ai_havoc(&asid, sizeof(asid), "asid", 0);
	ai_readonly(&asid, 1);
	ai_assume(n < (1ull << 40));
	if (n < sizeof(asid))
		n = ai_split(n, 0, sizeof(asid) - 1);
	user = ai_region(n, "caller's asid", 0);
	ai_track(user);
	status = pt_asid_to_user(user, &asid, n);
	if (n < sizeof(asid.size)) {
		ai_reach("too small");
		ai_assert(status == -pte_invalid, "a structure without room for its size is rejected");
		ai_assert_pristine(user, "a rejected structure is not written");
		return;
	}
	ai_assert(status == 0, "an identifier can be provided");
	have = n < sizeof(asid) ? n : sizeof(asid);
	ai_assert(user->size == have, "the provided size is reported");
	for (i = sizeof(asid.size); i < have; i++)
		ai_assert_eq((uint8_t *) user + i, (uint8_t *) &asid + i, 1, "the fields are provided");
}
