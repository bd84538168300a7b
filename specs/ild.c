/* The instruction length decoder: C15 and C35. */
#include "model.h"
#include "pt_ild.h"
#include "pt_insn.h"
#include "intel-pt.h"

#ifndef LIM
#define LIM 2500
#endif
#ifndef SIZE
#define SIZE 15
#endif
#ifndef MODE
#define MODE ptem_64bit
#endif

static struct pt_insn *insn;
static struct pt_insn_ext *iext;

static void init(int size)
{
	int i;

	ai_checks(ai_ck_mem | ai_ck_shift | ai_ck_div);
	ai_limits(LIM, LIM, 200);
	ai_keep(1);
	ai_relations(0);
	insn = ai_region(sizeof(*insn), "instruction", 0);
	iext = ai_region(sizeof(*iext), "instruction details", 0);
	for (i = 0; i < 15; i++)
		ai_havoc(&insn->raw[i], 1, "raw", i < size ? 0 : 1);
	insn->size = size;
	insn->iclass = ptic_unknown;
	iext->iclass = PTI_INST_INVALID;
	iext->variant.branch.is_direct = 0;
	iext->variant.branch.displacement = 0;
	if (size < 15)
		ai_guard(&insn->raw[size], 15 - size, insn, 99, "only the bytes provided are read");
	ai_guard(&insn->raw[14] + 1, sizeof(*insn) - ((char *) &insn->raw[15] - (char *) insn) , insn, 98, "the instruction's flags are not touched");
}

void spec_ild_decode(void)
{
	int r, mode, n = SIZE;

	init(n);
	ai_guard_off();
	if (n < 15)
		ai_guard(&insn->raw[n], 15 - n, insn, 99, "only the bytes provided are read");
	mode = MODE;

	insn->mode = mode;
	r = pt_ild_decode(insn, iext);
	ai_guard_off();
	if (r >= 0) {
#if SIZE >= 1
		ai_reach("decoding succeeds");
#endif
		ai_assert(insn->size >= 1, "the size of an instruction is not zero");
		ai_assert(insn->size <= n, "the size of an instruction is at most the number of bytes provided");
		ai_assert_vlabels((uint64_t) iext->variant.branch.displacement, 1, "a displacement comes from the bytes provided");
	}
#if SIZE < 15
	else
		ai_reach("decoding fails");
#endif
}

/* ---- C15: reading the bytes of an instruction piece by piece */

#ifdef INSN
static int reads;

int ai_model_pt_image_read(struct pt_image *image, int *isid, uint8_t *buffer,
			   uint16_t size, const struct pt_asid *asid, uint64_t addr)
{
	int n;

	(void) image;
	(void) asid;

	ai_assert(buffer >= insn->raw && buffer + size <= insn->raw + sizeof(insn->raw), "memory is read into the instruction's bytes");
	ai_assert(addr == insn->ip + (uint64_t) (buffer - insn->raw), "the bytes read follow those read before");
	*isid = ai_int();
	if (ai_choice()) {
		n = ai_int();
		ai_assume(n < 0 && n > -100);
		return n;
	}
	n = ai_int();
	ai_assume(0 <= n && n <= size);
	ai_touchw(buffer, n);
	if (reads < 2)
		reads++;
	return n;
}

int ai_model_pt_ild_decode(struct pt_insn *in, struct pt_insn_ext *ext)
{
	ai_assert(in->size <= sizeof(in->raw), "at most the instruction's bytes are decoded");
	(void) ext;
	if (ai_choice()) {
		uint8_t n = ai_u8();

		ai_assume(1 <= n && n <= in->size);
		in->size = n;
		if (ai_choice())
			return -pte_bad_insn;
		in->iclass = ptic_other;
		return 0;
	}
	return ai_choice() ? -pte_bad_insn : -pte_internal;
}

void spec_insn_decode(void)
{
	struct pt_asid asid;
	int r;

	ai_checks(ai_ck_mem | ai_ck_shift | ai_ck_div);
	ai_limits(400, 400, 40);
	ai_keep(4);
	insn = ai_region(sizeof(*insn), "instruction", 0);
	iext = ai_region(sizeof(*iext), "instruction details", 0);
	insn->truncated = 0;
	insn->ip = ai_u64();
	reads = 0;
	r = pt_insn_decode(insn, iext, (void *) 0, &asid);
	if (r >= 0) {
		ai_reach("an instruction is read and decoded");
		ai_assert(insn->size >= 1 && insn->size <= sizeof(insn->raw), "the size of an instruction lies between one and fifteen");
		if (reads < 2)
			ai_assert(!insn->truncated, "an instruction read in one piece is not marked truncated");
		if (reads > 1) {
			ai_reach("an instruction is read in pieces");
			ai_assert(insn->truncated, "an instruction read in pieces is marked truncated");
		}
	}
}

#endif

/* ---- C35: the branch instructions of the architecture */

enum kind {
	k_none,		/* no operands in the instruction */
	k_rel8,
	k_relz,		/* 16 or 32 bits, 32 bits in 64-bit mode */
	k_imm8,
	k_imm16,
	k_far,		/* segment selector and offset */
	k_modrm,	/* register or memory operand */
	k_mem,		/* memory operand */
	k_abs64,
	k_any		/* not checked */
};
enum { m16 = 1, m32 = 2, m64 = 4, mall = 7 };

struct rule {
	uint8_t n, op[3];
	int reg;	/* opcode extension or -1 */
	enum kind kind;
	enum pt_insn_class iclass;
	int modes;
	pti_inst_enum_t ext;	/* PTI_INST_INVALID: not checked */
	uint8_t pfx;	/* mandatory prefix */
};

static const struct rule rules[] = {
	{ 1, { 0x70 }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x71 }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x72 }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x73 }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x74 }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x75 }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x76 }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x77 }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x78 }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x79 }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x7a }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x7b }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x7c }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x7d }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x7e }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0x7f }, -1, k_rel8, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x80 }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x81 }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x82 }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x83 }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x84 }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x85 }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x86 }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x87 }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x88 }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x89 }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x8a }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x8b }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x8c }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x8d }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x8e }, -1, k_relz, ptic_cond_jump, mall },
	{ 2, { 0x0f, 0x8f }, -1, k_relz, ptic_cond_jump, mall },
	{ 1, { 0xe0 }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0xe1 }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0xe2 }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0xe3 }, -1, k_rel8, ptic_cond_jump, mall },
	{ 1, { 0xe8 }, -1, k_relz, ptic_call, mall },
	{ 1, { 0xe9 }, -1, k_relz, ptic_jump, mall },
	{ 1, { 0xeb }, -1, k_rel8, ptic_jump, mall },
	{ 1, { 0x9a }, -1, k_far, ptic_far_call, m16 | m32 },
	{ 1, { 0xea }, -1, k_far, ptic_far_jump, m16 | m32 },
	{ 1, { 0xff }, 2, k_modrm, ptic_call, mall },
	{ 1, { 0xff }, 3, k_mem, ptic_far_call, mall },
	{ 1, { 0xff }, 4, k_modrm, ptic_jump, mall },
	{ 1, { 0xff }, 5, k_mem, ptic_far_jump, mall },
	{ 1, { 0xc2 }, -1, k_imm16, ptic_return, mall },
	{ 1, { 0xc3 }, -1, k_none, ptic_return, mall },
	{ 1, { 0xca }, -1, k_imm16, ptic_far_return, mall },
	{ 1, { 0xcb }, -1, k_none, ptic_far_return, mall },
	{ 1, { 0xcf }, -1, k_none, ptic_far_return, mall, PTI_INST_IRET },
	{ 1, { 0xcc }, -1, k_none, ptic_far_call, mall },
	{ 1, { 0xcd }, -1, k_imm8, ptic_far_call, mall },
	{ 1, { 0xce }, -1, k_none, ptic_far_call, m16 | m32 },
	{ 1, { 0xf1 }, -1, k_none, ptic_far_call, mall },
	{ 2, { 0x0f, 0x05 }, -1, k_none, ptic_far_call, m64, PTI_INST_SYSCALL },
	{ 2, { 0x0f, 0x07 }, -1, k_none, ptic_far_return, m64, PTI_INST_SYSRET },
	{ 2, { 0x0f, 0x34 }, -1, k_none, ptic_far_call, mall, PTI_INST_SYSENTER },
	{ 2, { 0x0f, 0x35 }, -1, k_none, ptic_far_return, mall, PTI_INST_SYSEXIT },
	{ 3, { 0x0f, 0x01, 0xc1 }, -1, k_none, ptic_far_call, mall },
	{ 3, { 0x0f, 0x01, 0xc2 }, -1, k_none, ptic_far_return, mall, PTI_INST_VMLAUNCH },
	{ 3, { 0x0f, 0x01, 0xc3 }, -1, k_none, ptic_far_return, mall, PTI_INST_VMRESUME },
	{ 3, { 0x0f, 0x01, 0xec }, -1, k_none, ptic_far_return, m64, PTI_INST_UIRET, 0xf3 },
	{ 3, { 0x0f, 0x01, 0xca }, -1, k_none, ptic_far_return, m64, PTI_INST_ERETU, 0xf3 },
	{ 3, { 0x0f, 0x01, 0xca }, -1, k_none, ptic_far_return, m64, PTI_INST_ERETS, 0xf2 },
	{ 2, { 0x0f, 0xae }, 4, k_modrm, ptic_ptwrite, m32 | m64, PTI_INST_PTWRITE, 0xf3 },
	{ 2, { 0x0f, 0xc7 }, 6, k_mem, ptic_other, m32 | m64, PTI_INST_VMPTRLD, 0xff },
	{ 3, { 0xd5, 0x00, 0xa1 }, -1, k_abs64, ptic_jump, m64, PTI_INST_JMPABS, 0xff }
};
enum { nrules = sizeof(rules) / sizeof(*rules) };

static const uint8_t prefixes[][3] = {
	{ 0 }, { 1, 0x66 }, { 1, 0x67 }, { 1, 0x2e }, { 1, 0x3e }, { 1, 0xf2 }, { 1, 0xf3 },
	{ 2, 0x66, 0x67 }, { 1, 0x48 }, { 1, 0x41 }, { 2, 0xf2, 0x48 }, { 2, 0x66, 0x41 }
};
enum { npfx = sizeof(prefixes) / sizeof(*prefixes) };

/* A ModRM byte: explored value by value. */
static uint8_t any_byte(void)
{
	int i;

	for (i = 0; i < 255; i++)
		if (ai_choice())
			break;
	return i;
}

/* The size of a memory or register operand's encoding including the ModRM byte. */
static int modrm_size(const uint8_t *p, int asz)
{
	int mod = p[0] >> 6, rm = p[0] & 7;

	if (mod == 3)
		return 1;
	if (asz == 2) {
		if (mod == 0)
			return rm == 6 ? 3 : 1;
		return mod == 1 ? 2 : 3;
	}
	if (rm == 4) {
		if (mod == 0)
			return (p[1] & 7) == 5 ? 6 : 2;
		return mod == 1 ? 3 : 6;
	}
	if (mod == 0)
		return rm == 5 ? 5 : 1;
	return mod == 1 ? 2 : 5;
}

static int64_t disp8(const uint8_t *p)
{
	return (int8_t) p[0];
}

static int64_t disp16(const uint8_t *p)
{
	return (int16_t) (uint16_t) (p[0] | (p[1] << 8));
}

static int64_t disp32(const uint8_t *p)
{
	return (int32_t) ((uint32_t) p[0] | ((uint32_t) p[1] << 8) | ((uint32_t) p[2] << 16) | ((uint32_t) p[3] << 24));
}

static void check_rule(const struct rule *rule, const uint8_t *pfx)
{
	int i, n, r, osz, asz, size, direct;
	int64_t disp;
	uint64_t ip;

	if (!(rule->modes & (1 << (MODE - 1))))
		return;
	if (rule->pfx && (rule->pfx == 0xff ? pfx[0] : pfx[0] != 1 || pfx[1] != rule->pfx))
		return;
	/* REX prefixes only exist in 64-bit mode. */
	if (MODE != ptem_64bit)
		for (i = 1; i <= pfx[0]; i++)
			if ((pfx[i] & 0xf0) == 0x40)
				return;

	init(15);
	ai_guard_off();
	insn->mode = MODE;
	n = 0;
	osz = asz = 0;
	for (i = 1; i <= pfx[0]; i++) {
		if (pfx[i] == 0x66)
			osz = 1;
		if (pfx[i] == 0x67)
			asz = 1;
		insn->raw[n++] = pfx[i];
	}
	for (i = 0; i < rule->n; i++)
		insn->raw[n++] = rule->op[i];
	if (rule->reg >= 0) {
		insn->raw[n] = any_byte();
		ai_assume(((insn->raw[n] >> 3) & 7) == rule->reg);
		if (rule->kind == k_mem)
			ai_assume(insn->raw[n] >> 6 != 3);
	}
	osz = MODE == ptem_64bit ? 4 : (MODE == ptem_32bit) != osz ? 4 : 2;
	asz = MODE == ptem_64bit ? 4 : (MODE == ptem_32bit) != asz ? 4 : 2;
	direct = 0;
	disp = 0;
	size = n;
	switch (rule->kind) {
	case k_none: case k_any: break;
	case k_rel8: size = n + 1; direct = 1; disp = disp8(&insn->raw[n]); break;
	case k_relz: size = n + osz; direct = 1; disp = osz == 4 ? disp32(&insn->raw[n]) : disp16(&insn->raw[n]); break;
	case k_imm8: size = n + 1; break;
	case k_imm16: size = n + 2; break;
	case k_far: size = n + osz + 2; break;
	case k_modrm: case k_mem: size = n + modrm_size(&insn->raw[n], asz); break;
	case k_abs64:
		size = n + 8;
		direct = 1;
		disp = (int64_t) (((uint64_t) disp32(&insn->raw[n]) & 0xffffffff) | ((uint64_t) disp32(&insn->raw[n + 4]) << 32));
		break;
	}

	r = pt_ild_decode(insn, iext);
	ai_assert(r >= 0, "a branch instruction is decoded");
	if (r < 0)
		return;
	ai_reach("a branch instruction is decoded");
	ai_assert(insn->size == size, "the size of a branch instruction is as architected");
	ai_assert(insn->iclass == rule->iclass, "a branch instruction is classified as architected");
	if (rule->ext != PTI_INST_INVALID)
		ai_assert(iext->iclass == rule->ext, "an instruction with special meaning is recognised");
	if (rule->iclass != ptic_ptwrite && rule->iclass != ptic_other) {
		ai_assert(pt_insn_is_branch(insn, iext) != 0, "a branch is known to be one");
		ai_assert((pt_insn_is_far_branch(insn, iext) != 0) == (rule->iclass == ptic_far_call || rule->iclass == ptic_far_return || rule->iclass == ptic_far_jump), "a far branch is known to be one");
	} else
		ai_assert(pt_insn_is_branch(insn, iext) == 0, "an instruction that does not branch is not taken for a branch");
	if (rule->iclass == ptic_call || rule->iclass == ptic_jump || rule->iclass == ptic_cond_jump) {
		ai_assert(iext->variant.branch.is_direct == direct, "direct and indirect branches are told apart");
		if (direct)
			ai_assert(iext->variant.branch.displacement == disp, "the displacement of a direct branch is as architected");
	}
	r = pt_insn_next_ip(&ip, insn, iext);
	if ((rule->iclass == ptic_call || rule->iclass == ptic_jump) && direct && rule->kind != k_abs64) {
		ai_assert(r >= 0, "the target of a direct branch is known");
		if (r >= 0)
			ai_assert(ip == insn->ip + size + disp, "the target of a direct branch is the next instruction plus displacement");
	} else if (rule->iclass == ptic_ptwrite || rule->iclass == ptic_other) {
		ai_assert(r >= 0 && ip == insn->ip + size, "an instruction that does not branch is followed by the next one");
	} else
		ai_assert(r < 0, "the target of other branches is not known");
}

/* Instructions are distributed over the entries. */
#ifdef PARTS
void spec_branch(void)
{
	int i, k;

	ai_limits(LIM, LIM, 300);
	for (i = PART; i < nrules; i += PARTS)
		for (k = 0; k < npfx; k++)
			if (ai_choice()) {
				check_rule(&rules[i], prefixes[k]);
				return;
			}
}

/* All other opcodes. */
static int is_prefix(int op)
{
	switch (op) {
	case 0x0f: case 0x26: case 0x2e: case 0x36: case 0x3e: case 0x64: case 0x65: case 0x66: case 0x67: case 0xf0: case 0xf2: case 0xf3:
		return 1;
	}
	return MODE == ptem_64bit && ((op & 0xf0) == 0x40 || op == 0xd5);
}

static void check_other(int map, int op)
{
	int i, n = 0, r, ff = map == 0 && op == 0xff, x01 = map == 1 && op == 0x01;
	uint8_t x;

	if (map == 0 && is_prefix(op))
		return;
	for (i = 0; i < nrules; i++)
		if ((rules[i].modes & (1 << (MODE - 1))) && rules[i].n == map + 1 && rules[i].op[map] == op && rules[i].reg < 0 && !rules[i].pfx)
			return;
	/* System calls outside of 64-bit mode exist on some implementations. */
	if (map == 1 && (op == 0x05 || op == 0x07))
		return;
	/* Escapes to further opcode maps. */
	if (map == 1 && (op == 0x38 || op == 0x3a))
		return;

	init(15);
	ai_guard_off();
	insn->mode = MODE;
	if (map)
		insn->raw[n++] = 0x0f;
	insn->raw[n++] = op;
	if (ff || (map == 1 && op == 0x22))
		insn->raw[n] = any_byte();
	x = insn->raw[n];
	if (ff)
		ai_assume(((x >> 3) & 7) < 2 || ((x >> 3) & 7) > 5);
	if (x01)
		ai_assume(x != 0xc1 && x != 0xc2 && x != 0xc3 && x != 0xec && x != 0xca);
	r = pt_ild_decode(insn, iext);
	if (r < 0)
		return;
	ai_reach("another instruction is decoded");
	ai_assert(insn->iclass == ptic_other, "no other instruction is taken for a branch or PTWRITE");
	ai_assert(pt_insn_is_branch(insn, iext) == 0, "an instruction that does not branch is not taken for a branch");
	if (map == 1 && op == 0x22) {
		ai_assert((iext->iclass == PTI_INST_MOV_CR3) == (((x >> 3) & 7) == 3), "exactly writes to CR3 are recognised");
		ai_assert((pt_insn_changes_cr3(insn, iext) != 0) == (((x >> 3) & 7) == 3), "exactly writes to CR3 change CR3");
	} else
		ai_assert(!pt_insn_changes_cr3(insn, iext), "exactly writes to CR3 change CR3");
}

void spec_other(void)
{
	int i;

	ai_limits(LIM, LIM, 300);
	for (i = PART; i < 512; i += PARTS)
		if (ai_choice()) {
			check_other(i >> 8, i & 0xff);
			return;
		}
}
#endif
