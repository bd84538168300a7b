"""Which analyses decide which property."""

import queries

COMMON_ASSUMPTIONS = [
    "The sources are analysed as clang 18 lowers them for x86-64 Linux in the configuration libipt's own CMake files select "
    "(FEATURE_ELF, FEATURE_THREADS on); objects are at most 2^48 bytes and do not wrap the address space.",
    "The models of libc and of the operating system in specs/libc.c over-approximate the real functions.",
    "An implicit conversion or wrap-around of an unsigned integer is not itself an error; its consequences are.",
]

AI = "abstract interpretation (joins, widening, trace partitioning; no solver, nothing is executed) of the current tree's LLVM IR"


def u(spec, entry, groups=("libipt",), **kw):
    d = {"spec": spec, "entry": entry, "groups": list(groups)}
    d.update(kw)
    return d


CHECKS = {}


def check(pid, explanation, units=(), queries=(), assumptions=(), technique=None, note=None, **kw):
    CHECKS[pid] = {
        **kw,
        "explanation": explanation, "units": list(units), "queries": list(queries), "assumptions": list(assumptions),
        "technique": technique or "static analysis: abstract interpretation of the LLVM IR with intervals, known bits, linear relations and object typestate",
        "note": note or "Decided for all inputs within the stated pre-state; trusts the abstract interpreter (ptai), the libc models and clang's lowering.",
    }


PKT = ["spec_pkt_next", "spec_pkt_next_nosync", "spec_pkt_sync_forward", "spec_pkt_sync_backward", "spec_pkt_sync_set"]
check("C01",
      AI + ". Pre-state: a trace buffer of any size with any content, a decoder at any position in it, any configuration and "
      "unknown-packet callback. Every load reachable from the packet decoder's operations is an obligation to stay inside "
      "[begin; end), and after each operation position and sync point must lie in [begin; end].",
      [u("pkt.c", e) for e in PKT])
check("C02",
      AI + ". Same pre-state as C01; obligations relate return value, packet size and position after success and failure.",
      [u("pkt.c", "spec_pkt_next"), u("pkt.c", "spec_pkt_next_nosync")])
check("C29",
      AI + ". Pre-state: any buffer, any start position or none. On success 16 obligations state that the bytes at the new "
      "position are the PSB pattern; a failure must be -pte_eos with an unchanged decoder; setting an offset succeeds for "
      "exactly the offsets inside the buffer.",
      [u("pkt.c", e) for e in ("spec_pkt_sync_forward", "spec_pkt_sync_backward", "spec_pkt_sync_set", "spec_pkt_sync_set_accepts")])

ENC = ["spec_encode_" + x for x in "pad psb psbend tip tnt_8 tnt_64 tip_pge tip_pgd fup pip ovf mode_exec mode_tsx tsc cbr tma mtc cyc stop vmcs mnt".split()]
check("C03",
      AI + ". Pre-state: an encoder at any position of a buffer of any size, any packet (every type value, every payload). A shadow "
      "of the buffer records every byte written on each abstract path: obligations are that a failing call leaves the shadow "
      "empty and the position unchanged, and a successful one has marked exactly the returned number of bytes at the old position.",
      [u("enc.c", e) for e in ["spec_enc_next", "spec_enc_sync_set"] + ENC])
RT = ["spec_rt_" + x for x in ("pad psb psbend stop ovf fup tip tip_pge tip_pgd tnt_8 tnt_64 mode pip tsc cbr tma mtc cyc vmcs mnt exstop mwait pwre "
                               "pwrx ptw cfe evd trig").split()]
check("C04",
      AI + ". The encoder and the packet decoder are interpreted in sequence on a shared abstract buffer for every packet type with a "
      "symbolic payload; obligations compare type, size and each payload field bit by bit (known-bits/bit-provenance domain). "
      "The number of TNT bits is partitioned (1..47), everything else stays symbolic.",
      [u("enc.c", e) for e in RT])
QUEUE = ["spec_evq_" + x for x in "enqueue dequeue requeue queries find misc storage".split()] + \
        ["spec_tnt_" + x for x in "query add init".split()] + ["spec_rs_" + x for x in "push pop init".split()]
check("C16",
      AI + ". Pre-state: the container in every reachable fill state (each begin index and element count, or bit count, is its own "
      "partition) with unknown elements. After one arbitrary operation the new content is compared element by element with what the "
      "documented order demands, as equality of abstract memory; so by induction it holds for every history. A separate entry "
      "starts from arbitrary, even corrupt indices and only has the storage-bounds obligations.",
      [u("queue.c", e) for e in QUEUE])
check("C17",
      AI + ". Pre-state: any last IP, any packet IP, any value of the compression field (every enumerator and every other int). "
      "Obligations compare the resulting IP bit by bit with the bits of the packet and of the previous IP.",
      [u("misc.c", "spec_lip_" + x) for x in ("update", "query", "init", "args")])
check("C28",
      AI + ". Pre-state: two identifiers with unknown CR3/VMCS; a caller structure of any size with any size field not larger than it. "
      "Obligations state the match table and, byte by byte, which part of a converted identifier comes from the caller.",
      [u("misc.c", "spec_asid_" + x) for x in ("match", "init", "from_user", "to_user")])


# ---- sections, section caches, images, msec caches (specs/mem.c)
SEC = ["spec_sec_" + x for x in "mk get put attach attach_first detach map share unmap memsize bcache read".split()]
ISC = ["spec_isc_" + x for x in "alloc free clear add_same add_file find lookup limit read map bcache".split()]
IMG = ["spec_img_" + x for x in "alloc free add remove add_file remove_by_filename remove_by_asid copy read find add_cached".split()]
MSC = ["spec_msc_" + x for x in "fill read invalidate fini".split()]


def mem(prop, sec=True, isc=True, img=True, skip=()):
    d = "PROP=%d" % prop
    out = []

    def add(e, k=None, cost=0):
        if (e, k) not in skip and e not in skip:
            out.append(u("mem.c", e, defines=[d] if k is None else [d, "SHAPE=%d" % k], cost=cost))
    if sec:
        for e in SEC:
            add(e)
    if isc:
        for e in ISC:
            for k in range(1 if e == "spec_isc_alloc" else 6):
                add(e, k, k if e in ("spec_isc_add_file", "spec_isc_read") else 0)
    if img:
        heavy = ("spec_img_add_file", "spec_img_read", "spec_img_add_cached", "spec_msc_fill")
        for e in IMG + MSC:
            for k in range(1 if e == "spec_img_alloc" else 2 if e in heavy else 4):
                add(e, k, 10 * k if e in ("spec_img_add", "spec_img_copy") else 0)
    return out


MEMPRE = (". Pre-state: built by the library's own operations and then generalized: a section that is mapped or not, a section cache with "
          "zero to two entries in every arrangement of its list of kept mappings, an image with zero to two sections (separate, "
          "overlapping, displaced), an empty or filled msec cache, and any number of further references and mappings held elsewhere. "
          "Then one operation with any arguments runs while every allocation, file operation and system call may fail")
check("C09", AI + MEMPRE + ", and every lock operation may fail too. Obligations: no lock is held on return, no lock is taken twice or released "
      "without being held.", mem(9, skip=[("spec_isc_add_file", 5), ("spec_isc_add_file", 4)] + [(e, k) for e in ("spec_img_add", "spec_img_copy") for k in (2, 3)]))
check("C10", AI + MEMPRE + ". Every acquisition of a lock while others are held is an edge of the lock-order graph over lock classes; the "
      "graph must have no cycle.", mem(10), lock_order=True)
check("C11", AI + MEMPRE + ". Every load and store of a field shared between threads is an obligation to hold the lock that protects it.", mem(11))
check("C12", AI + MEMPRE + ". After it, the use, map and attach counts of every section equal the references, mappings and attachments that "
      "exist, and a section is destroyed exactly when its last user is gone.", mem(12))
SBDEC = [u("sbctx.c", e, groups=("libipt", "sideband", "pevent")) for e in ("spec_sbdec_alloc", "spec_sbdec_session")]
check("C13", AI + MEMPRE + ". Every access is an obligation to stay inside a live object; at the end every object allocated must be reachable "
      "from the operation's results and every file closed. Allocating sideband sessions and decoders is analysed the same way.", mem(13) + SBDEC)
check("C34", AI + MEMPRE + ". After it the memory accounted for equals the sum over the kept sections, stays within the limit, and no section is "
      "kept twice.", mem(34, img=False, sec=False))


RD = ["spec_rd_section", "spec_rd_msec", "spec_rd_image", "spec_rd_iscache"]
check("C14", AI + ". Pre-state: a section of any file offset and size, mapped into memory or read from the file, or contained in an image or section cache; "
      "any address, offset, length; a caller buffer of exactly that length. Every access is an obligation to stay inside section mapping and buffer, "
      "and the reported count is at most what was asked for and what the section holds behind the address.",
      [u("cover.c", e, defines=["PROP=14", "SHAPE=0"]) for e in RD])
check("C26", AI + ". Both callbacks return any int. Obligations: a read-memory count above the request is not passed on; an unknown packet's size moves the "
      "packet decoder only within the buffer.",
      [u("cover.c", "spec_rd_callback", defines=["PROP=26", "SHAPE=0"]), u("pkt.c", "spec_pkt_next"), u("pkt.c", "spec_pkt_next_nosync")])
COV = ["spec_cov_" + x for x in "add copy remove fetch".split()]
check("C33", AI + ". Pre-state: an image with zero to two sections, the second separate from or displacing parts of the first, and an arbitrary address. The address's "
      "section and file offset before and after the operation are compared symbolically (linear relations over vaddr, size and offset); reads are "
      "traced to the source address in the mapping or the file position.",
      [u("cover.c", e, defines=["PROP=33", "SHAPE=%d" % k], cost=k if e == "spec_cov_add" else 0) for e in COV for k in range(4)] +
      [u("cover.c", e, defines=["PROP=33", "SHAPE=0"]) for e in ("spec_rd_section", "spec_rd_msec")])

# ---- the instruction length decoder (specs/ild.c)
check("C15", AI + ". For every number of bytes provided (0..15) and execution mode: the bytes are unknown, each read is an obligation to lie within the bytes "
      "provided and each table access to lie in its table; the reported size lies in 1..provided. Recursion over prefixes is analysed per prefix "
      "length. Another entry fetches an instruction in arbitrary pieces.",
      [u("ild.c", "spec_ild_decode", defines=["SIZE=%d" % n, "MODE=%d" % m], cost=n) for n in range(16) for m in (1, 2, 3)] +
      [u("ild.c", "spec_insn_decode", defines=["INSN", "SIZE=15", "MODE=3"])])
check("C35", AI + ". An independent table of the architecture's branch instructions (opcode, operand encoding, class) is crossed with prefixes and execution "
      "modes; operand bytes are unknown. Obligations: size, class, directness, displacement and next IP; every other one- and two-byte opcode is no "
      "branch.",
      [u("ild.c", e, defines=["SIZE=15", "MODE=%d" % m, "PARTS=4", "PART=%d" % p]) for e in ("spec_branch", "spec_other") for m in (1, 2, 3) for p in range(4)])

# ---- time and calibration (specs/time.c)
TIME = ["spec_time_" + x for x in "init query tsc cbr tma mtc cyc".split()] + ["spec_tcal_" + x for x in "set header_tsc tsc header_cbr cbr mtc cyc other".split()]
check("C20", AI + ". Pre-state: any time and calibration state, any packet payload, any configuration whose fields have documented values (MTC frequency 0..15, "
      "time shift below 64). Every division and shift reachable from time tracking and from the perf time conversions is an obligation.",
      [u("time.c", e) for e in TIME] + [u("pevtime.c", e, groups=("pevent",)) for e in ("spec_pev_to", "spec_pev_from")],
      assumptions=["IA32_RTIT_CTL.MTCFreq is a 4-bit field and perf's time_shift is below 64; configurations outside of that are not analysed."], skip_kinds=("assert", "equal", "unreachable"))
check("C36", AI + ". Pre-state as for C20. Obligations relate time, lost counts and calibration before and after each timing packet; the arithmetic of MTC and CYC "
      "is compared as linear expressions for fixed clock ratios and every MTC frequency.",
      [u("time.c", e) for e in TIME] + [u("out.c", "spec_notime_" + e) for e in ("qry", "insn", "blk")] + [u("time.c", e, defines=["FREQ=%d" % f]) for f in range(16) for e in (["spec_time_mtc_step"] + (["spec_time_cyc_step"] if f == 0 else []))],
      skip_kinds=("shift", "div", "division", "bounds-read", "bounds-write"))

# ---- sideband records (specs/pev.c)
PEV = [0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15]
PEVS = {1: 40, 3: 16, 10: 72}


def pev(entry, t, n=0, **kw):
    return u("pev.c", entry, groups=("pevent",), defines=["TYPE=%d" % t, "LEN=%d" % n] + list(kw.get("d", ())), cost=kw.get("cost", 0))


check("C21", AI + ". Per record type: reading with a buffer of any size and content, any configuration with up to two per-identifier sample types; every load is "
      "an obligation to stay inside the buffer, and the record, the string's end and each sample must lie inside the bytes consumed. Writing with "
      "every subset of samples and a buffer of any size; a shadow of the buffer shows which bytes have been written.",
      [pev("spec_pev_read_any", t, cost=10 * (t in PEVS)) for t in PEV] + [pev("spec_pev_read_fixed", t) for t in PEV if t not in PEVS] +
      [pev("spec_pev_read_string", t, n + b, d=["SC=0"]) for t, b in PEVS.items() for n in (-8, 0, 1, 7, 8, 9, 16, 23, 24)] +
      [pev("spec_pev_write", t) for t in PEV] + [pev("spec_pev_write", t, n) for t in PEVS for n in range(1, 10)] +
      [pev("spec_pev_write", t, d=["LONG"]) for t in PEVS],
      assumptions=["perf's time_shift is below 64. Strings are followed byte by byte up to 24 bytes when reading and 9 when writing; longer ones have bounds obligations only."])
check("C22", AI + ". pev_write and pev_read are interpreted in sequence for every record type, every subset of samples, strings of zero to nine bytes and symbolic "
      "payloads; each field read back is compared byte by byte with the one written.",
      [pev("spec_pev_round_trip", t) for t in PEV if t] + [pev("spec_pev_round_trip", t, n) for t in PEVS for n in range(1, 10)],
      assumptions=["A configuration with per-identifier sample types has the identifier in its common sample type, as perf requires."])

# ---- sideband sessions and contexts (specs/sb.c, specs/sbctx.c)
SB = ("libipt", "sideband", "pevent")


def sb(spec, entry, cost=0, **kw):
    return u(spec, entry, groups=SB, defines=["%s=%d" % x for x in kw.items()], cost=cost)


CTXS = [(c, n) for c in range(4) for n in range(4) if c == 0 or c != n]
check("C23", AI + ". Pre-state: a session with two listed contexts and one that was removed from the list; a channel whose current and pending context is "
      "any of them or none; any number of further references held elsewhere. Applying one record of every kind (or a pending switch) for any trace "
      "event, and each context operation, must leave every use count equal to the references that exist, destroy a context exactly when none is left, "
      "and leak nothing. Copying and populating images is abstracted.",
      [sb("sbctx.c", "spec_ctx_apply", TYPE=t, CTX=c, NEXT=n, cost=t in (1, 10)) for t in (0, 1, 2, 3, 7, 10, 11, 12, 14, 15) for c, n in CTXS] +
      [sb("sbctx.c", "spec_ctx_" + e, CTX=c, NEXT=n) for e in ("dtor", "free") for c, n in CTXS] +
      [sb("sbctx.c", "spec_ctx_" + e, CTX=c) for e in ("get_by_pid", "find_by_pid", "remove", "getput") for c in range(4)])
check("C24", AI + ". Pre-state: a session with up to three active decoders at any times in order, and waiting, retired and removed ones; the decoders' callbacks return "
      "any result and any next time. After presenting an event, dumping, starting, adding a decoder, each decoder is on exactly one list (the one its last "
      "result demands) and the active list is ordered; freeing destroys each once.",
      [sb("sb.c", "spec_sb_event", ACTIVE=a, FETCHES=f, cost=a * f) for a, f in ((0, 1), (1, 2), (2, 1), (2, 2), (3, 1))] +
      [sb("sb.c", "spec_sb_" + e, ACTIVE=a, FETCHES=1 if a == 3 else 2) for e in ("dump", "init", "alloc", "free") for a in range(4)],
      assumptions=["Each decoder's fetch callback succeeds at most twice (once with three decoders) while one event is presented; each round of the loop "
                   "starts from a state that is itself among the pre-states."])

check("C19", "Interprocedural constant propagation over the LLVM IR (phi, select and branch conditions included): the constants each public function can return. "
      "Negative ones must be negations of an enumerator of pt_error_code, functions documented to return zero must not return a positive one, functions documented to "
      "return status flags must not return one that is not a combination of them. A clang-query lint over the syntax trees of libipt and the sideband library: no enumerator "
      "of pt_error_code is returned, assigned or compared as an int status without being negated. pt_errstr is interpreted for every enumerator of the current tree: each "
      "has a text of its own that differs from all others and from that of an undefined code.",
      [], [queries.q_returns, queries.q_lint, queries.q_errstr],
      ["Status values computed by arithmetic other than negation (status flags combined by |) are not followed by the constant propagation."],
      technique="static analysis: interprocedural constant propagation over LLVM IR, clang-query lint, abstract interpretation of pt_errstr",
      note="Decided for every constant that flows to a public function's result; trusts the documented result kinds recorded in tools/queries.py and clang's lowering.")
check("C25", "Two dataflow queries over the whole program's LLVM IR. No mutable global state: every global variable of libipt, the sideband and the pevent library is constant or "
      "neither written, stored, passed on nor returned anywhere, and no C library function with process-wide state is called. Input is never modified: the pointers into the trace "
      "buffer (loads of pt_config.begin/end and everything derived from them through fields, locals, arguments, results and indirect calls, to a fixpoint) and the const "
      "configuration parameters are tracked from every exported decoder function; no store, memory intrinsic or C library call writes through one.",
      [], [queries.q_globals, queries.q_input],
      ["The encoder is excluded: writing to its buffer is its purpose (C03)."],
      technique="static analysis: whole-program taint and global-variable queries over LLVM IR",
      note="Flow-insensitive and field-based, so decided for all inputs and schedules; locations are abstracted by structure field.")

check("C18", "For every call in libipt, the sideband and the pevent library whose callee may return negative constants (interprocedural constant propagation), the paths behind the "
      "call are walked with the set of errors still possible, filtered by every comparison and switch on the status: on each path the caller must return the error or another "
      "negative value, store it, or hand it on. Errors the design absorbs are listed as rules in tools/queries.py (end of trace, unmapped memory, missing query data, best-effort "
      "clean-up, errata heuristics, calibration); ignored results of clean-up operations are accepted where another error is being reported.",
      [], [queries.q_drops],
      ["Statuses kept in structure fields for later (deferred errors) count as reported where they are stored; their later delivery is not followed.",
       "Errors are the negative constants of the code itself; those the C library or a user callback invents are not included."],
      technique="static analysis: path-sensitive error-propagation dataflow over LLVM IR",
      note="Decided per call site over all paths behind it; a status stored into an object counts as reported.")

check("C06", AI + ". Every public function of libipt, the sideband and the perf event library is called with each required pointer missing in turn, the other arguments unknown and "
      "read-only: the documented error (or NULL) comes back, no NULL pointer is dereferenced, and no store to any argument is possible on the way.",
      [u("null.c", "spec_null_" + x) for x in ("misc", "enc", "pkt", "evt", "qry", "img", "insn", "blk")] +
      [u("nullsb.c", "spec_null_" + x, ("libipt", "sideband", "pevent")) for x in ("sb", "pev")],
      errors_are="a call with a missing argument is rejected")

check("C05", "The packet types are read from the debug information of the current tree's IR (every enumerator of enum pt_packet_type, and of enum pt_cfe_type for control flow events). "
      "For each, by abstract interpretation: pt_enc_next with a packet of that type and unknown valid payload can encode it and can not answer bad opcode or internal error; "
      "pt_pkt_next on an unknown buffer can produce a packet of that type; pt_evt_next with that packet as its current packet (any payload the packet decoder lets through, "
      "time tracking and following packets modelled) can not answer bad opcode, bad packet or internal error.",
      [], [queries.q_kinds],
      ["The event decoder is entered freshly synchronized with the packet as its current one and no packet behind it: errors that depend on a longer history are C13's and C18's."],
      technique="static analysis: abstract interpretation over LLVM IR, one case per enumerator found in debug information",
      note="The set of kinds comes from the tree, so a kind that is added without support is reported.")

EXCHANGE = ("By abstract interpretation of the public functions that exchange structures, in any decoder state, with the caller's structure an object of exactly the stated size: "
            "sizes from zero bytes to beyond the library's own structure, including the middle of fields, and (for packets) an unknown size. Provenance labels mark the caller's old bytes and "
            "uninitialized memory. pt_pkt_next and pt_evt_next are entered once per packet type found in the debug information; pt_insn_next, pt_insn_event, pt_blk_next, pt_blk_event and "
            "pt_qry_event run on models of the layers below (any event, any instruction, any memory)")
check("C07", EXCHANGE + ". No access lies outside the caller's object; all of its known part is filled in, the unknown part cleared where that is promised; address space identifiers and "
      "configurations take over what the caller's size covers and default the rest.",
      [], [queries.q_exchange(False)],
      ["The lower layers are modelled for the query, instruction and block decoders; the block cache is absent."],
      note="Sizes are enumerated around all boundaries; the code's behaviour depends on the size only through comparisons with its own sizes.")
SYNC = [(1, "evt"), (2, "qry"), (3, "insn"), (4, "blk")]
check("C08", AI + ". Per decoder layer and way of synchronizing: every part of the decoder's state carries a provenance label when the function is called; when the "
      "layer below has been synchronized and the first packet or event is about to be fetched (for the instruction decoder: on return), no part in use carries it. "
      "Searching backward, each further attempt starts as clean as the first.",
      [u("sync.c", "spec_sync_" + e, defines=["LEVEL=%d" % l, "HOW=%d" % h, "PATHS=100", "BCACHE=0"] + (["MODEL_QRY=1"] if l == 3 else []), cost=5)
       for l, e in SYNC for h in (0, 1, 2)],
      assumptions=["The part of the state behind a validity flag (instruction count, pending instruction, mode.exec, return stack entries, queued events) is dead while the flag, "
                   "which is checked, is clear.", "Each layer is analysed with the layer below modelled; the packet decoder's only state is its position."],
      note="Labels follow data; the resets are unconditional, a control dependence on old state shows as a joined value carrying the label.")
check("C27", EXCHANGE + ". On success no byte of the known part carries the label of the caller's old content or of uninitialized memory; the same for the simple results "
      "(offsets, times, ratios, branch directions and destinations, start addresses) and every payload field of every packet type.",
      [], [queries.q_exchange(True)],
      ["Decoder objects are taken to hold defined data: their definedness after allocation and synchronization is C08's."],
      note="Provenance labels over-approximate: a byte is accepted only if on every path it was written from defined data.")
