#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so it stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=obs or [], hook_needed=None)))

L = "libipt/src/"
prop("C01", "Packet decoding never reads outside the trace buffer",
 "Whatever bytes the trace buffer [begin; end) holds and wherever inside it the packet decoder is positioned, synchronizing and decoding packets read no byte outside [begin; end). After every call, successful or not, the decoder's position still lies within [begin; end].",
 ["inputs"], "all trace contents, all buffer sizes, all positions, all packet kinds and errata settings",
 "Tests decode a few well-formed packets at the start of a 4K buffer; truncation is tried for one length per packet and an over-read inside the fixture's buffer is invisible.",
 [L+"pt_packet.c", L+"pt_packet_decoder.c", L+"pt_sync.c"],
 [("per-packet size check against the buffer end before the payload is read", L+"pt_packet.c"), ("bounded PSB search", L+"pt_sync.c")],
 [("pos", "current position, begin <= pos <= end", "struct pt_packet_decoder")], ["pt_pkt_next", "pt_pkt_sync_forward", "pt_pkt_sync_backward", "pt_pkt_sync_set"])
prop("C02", "A packet read advances by exactly the packet's size or not at all",
 "A successful packet read returns a size that equals the returned packet's size field and the distance the decoder's position moved (with the SKD007 workaround enabled, the position may additionally skip the CBR packets that erratum inserts). The size is greater than zero for every packet the library decodes itself; for bytes it does not know, the user's callback chooses it. A failing packet read leaves the position where it was, so retrying gives the same answer and reading to the end always terminates.",
 ["inputs", "histories"], "all trace contents, positions and packet kinds",
 "Tests compare sizes for a handful of payloads per packet; nothing checks the failing paths' position.",
 [L+"pt_packet_decoder.c", L+"pt_packet.c"],
 [("position update after a complete decode", L+"pt_packet_decoder.c:pt_pkt_next")], None, ["pt_pkt_next", "pt_pkt_get_offset"])
prop("C03", "Packet encoding is bounded by the buffer and all-or-nothing",
 "The encoder writes only bytes within [begin; end) of its configured buffer, starting at its current position. When it reports an error it has written nothing and not moved; when it succeeds it has written, and moved by, exactly the number of bytes it returns.",
 ["inputs"], "all packets (every type, every payload), all buffer sizes and positions",
 "Tests encode a few payloads into a large buffer; only one short-buffer case per packet is tried.",
 [L+"pt_encoder.c"], [("space reservation before writing", L+"pt_encoder.c")], [("pos", "write position", "struct pt_encoder")], ["pt_enc_next", "pt_enc_get_offset"])
prop("C04", "What the encoder writes, the packet decoder reads back",
 "For every packet the encoder accepts (TNT packets holding at least one bit), decoding the bytes it wrote yields the same packet type, the same size and the same value in every payload bit that the packet format carries.",
 ["inputs"], "all packet types and all values of all payload fields",
 "Round-trip tests exist for sampled payload values only; a wrong mask or shift on unsampled bits passes.",
 [L+"pt_encoder.c", L+"pt_packet.c", L+"pt_packet_decoder.c", "libipt/internal/include/pt_opcodes.h"],
 [("field masks, shifts and opcodes shared by both sides", "libipt/internal/include/pt_opcodes.h")], None, ["pt_enc_next", "pt_pkt_next"])
prop("C05", "Every packet kind is supported by encoder, packet decoder and event decoder",
 "Every packet type the public interface defines can be encoded and can come out of the packet decoder, and the event decoder never fails with an internal error or a bad-opcode/bad-packet error merely because of the kind of a packet the packet decoder produced.",
 ["inputs"], "all packet types in all decoder states",
 "The event decoder tests visit chosen packet sequences; most (type, state) pairs are never exercised.",
 [L+"pt_encoder.c", L+"pt_packet_decoder.c", L+"pt_event_decoder.c"],
 [("packet type dispatch", L+"pt_event_decoder.c")], None, ["pt_enc_next", "pt_pkt_next", "pt_evt_next"])
prop("C06", "Missing arguments are rejected without side effects",
 "Calling a public function with a NULL handle or a NULL output pointer that the function requires returns the documented error (or NULL) and neither dereferences a NULL pointer nor modifies anything. Releasing NULL is a no-op.",
 ["inputs"], "every public function, every required pointer argument, any value of the other arguments and any object state",
 "Tests cover NULL for a subset of the functions, each with one fixed state of the other arguments.",
 ["libipt/include/intel-pt.h.in", "sideband/include/libipt-sb.h.in", L], [("argument checks at the API boundary", L)], None, ["all exported functions"])
prop("C07", "Structures exchanged with other library versions respect the caller's size",
 "When the caller passes a structure together with its size, the library reads and writes only within that many bytes of it, whatever the size is. Fields a larger structure of the caller's has beyond what the library knows are zero-filled in packets, instructions, blocks and the event decoder's events, and excluded by the reported size in address-space identifiers; configuration fields the caller did not provide read as zero.",
 ["inputs", "configurations"], "all sizes the caller may pass, for packets, events, instructions, blocks and configurations",
 "Tests pass one smaller and one larger size for some of the functions.",
 [L+"pt_packet_decoder.c", L+"pt_event_decoder.c", L+"pt_query_decoder.c", L+"pt_insn_decoder.c", L+"pt_block_decoder.c", L+"pt_config.c"],
 [("size-limited copy helpers", L)], None, ["pt_pkt_next", "pt_evt_next", "pt_qry_event", "pt_insn_next", "pt_insn_event", "pt_blk_next", "pt_blk_event", "pt_*_alloc_decoder", "pt_cpu_errata"])
prop("C08", "Synchronizing forgets everything decoded before",
 "After a decoder has been synchronized at a position, nothing it subsequently reports depends on what it decoded before: the whole decode state (last IP, TNT, time, pending events, return stack, ...) is that of a freshly allocated decoder synchronized at the same position.",
 ["histories"], "all decoder histories before the synchronization, all decoder kinds",
 "Tests synchronize fresh decoders or re-synchronize after one short history and look at a few fields.",
 [L+"pt_packet_decoder.c", L+"pt_event_decoder.c", L+"pt_query_decoder.c", L+"pt_insn_decoder.c", L+"pt_block_decoder.c"],
 [("decoder reset on sync", L)], None, ["pt_evt_sync_*", "pt_qry_sync_*", "pt_insn_sync_*", "pt_blk_sync_*"])
prop("C09", "Every lock taken is released exactly once",
 "Every public operation, on success and on every error path including allocation and locking failures, returns with exactly the locks held that were held when it was called: no lock is left locked, unlocked twice, unlocked without being held, or re-acquired by its holder.",
 ["inputs", "fault_sequences", "schedules"], "all paths through image sections, section caches and images, with any lock, file or memory operation failing",
 "Error paths (failing mutex, failing map, failing allocation) are not reachable from the tests, and a leaked lock only shows as a deadlock of a later call.",
 [L+"pt_section.c", L+"pt_section_file.c", L+"pt_image_section_cache.c", L+"posix/pt_section_posix.c"],
 [("lock/unlock helpers and goto-style cleanup", L+"pt_section.c")], [("lock", "section use/map counts", "struct pt_section"), ("alock", "section attach list", "struct pt_section"), ("lock", "cache contents", "struct pt_image_section_cache"), ("lock", "file position", "struct pt_sec_file_mapping")], ["pt_section_*", "pt_iscache_*", "pt_image_*"])
prop("C10", "Locks are always acquired in one global order",
 "No two operations can acquire two of the library's locks in opposite orders, so threads sharing sections and section caches can not deadlock.",
 ["schedules"], "all interleavings of all operations sharing sections and caches",
 "A deadlock needs two threads to meet in a window of a few instructions; the threaded tests sample schedules.",
 [L+"pt_section.c", L+"pt_section_file.c", L+"pt_image_section_cache.c", L+"pt_image.c"],
 [("lock order attach lock before section lock before cache lock", L+"pt_section.c")], None, ["pt_section_*", "pt_iscache_*", "pt_image_*"])
prop("C11", "State shared between threads is only touched under its lock",
 "The use and map counts, mapping, and attached caches of a section, the contents of a section cache, and the position of a shared file are read and written only while the lock protecting them is held, once the object is shared.",
 ["schedules"], "all interleavings of all operations sharing sections and caches",
 "A data race is only visible under particular schedules; the threaded tests sample a few and run without a race detector.",
 [L+"pt_section.c", L+"pt_section_file.c", L+"pt_image_section_cache.c", L+"posix/pt_section_posix.c"],
 [("critical sections", L)], None, ["pt_section_*", "pt_iscache_*"])
prop("C12", "References to sections are taken and dropped in pairs",
 "Every operation leaves the number of references, mappings and attachments it holds on an image section equal to what it stores: what a failing operation took it gives back, what a successful operation stored it keeps exactly one of, and removing or freeing a container gives back exactly what it held.",
 ["inputs", "fault_sequences", "histories"], "all paths incl. failures of any nested operation, any number of sections in image or cache",
 "Tests run the success path and a few injected failures; leaks and double puts on other paths do not fail a test.",
 [L+"pt_section.c", L+"pt_image.c", L+"pt_image_section_cache.c", L+"pt_msec_cache.c"],
 [("get/put, map/unmap, attach/detach", L+"pt_section.c")], None, ["pt_image_*", "pt_iscache_*", "pt_msec_cache_*"])
prop("C13", "Failures neither leak, crash, nor free twice",
 "If memory allocation or a file operation fails at any point of a public operation, the operation reports an error without dereferencing NULL, without leaking what it had acquired (memory, files, mappings), and without releasing anything twice or using it after release.",
 ["fault_sequences", "inputs"], "every allocation or file operation failing at every point of section, section cache, image and msec cache operations",
 "Tests never make malloc, fopen, fstat, mmap or mtx_init fail.",
 [L], [("error-path cleanup", L)], None, ["pt_section_*", "pt_iscache_*", "pt_image_*", "pt_msec_cache_*"])
prop("C14", "Reading image memory stays inside section and caller buffer",
 "Reading memory through a section, section cache or image accesses only bytes of the section that contains the address, writes at most as many bytes as were asked for and never more than it reports, for every address, offset and length including those that wrap around.",
 ["inputs"], "all section sizes and offsets, all addresses and lengths",
 "Tests read at a few offsets; wrap-around is tried at one or two values.",
 [L+"pt_section.c", L+"pt_section_file.c", L+"posix/pt_section_posix.c", L+"pt_image.c", L+"pt_image_section_cache.c", "libipt/internal/include/pt_mapped_section.h"],
 [("offset and size clipping", L+"posix/pt_section_posix.c")], None, ["pt_section_read", "pt_iscache_read", "pt_image_read"])
prop("C15", "The instruction length decoder stays inside the bytes it was given",
 "Decoding an instruction reads only the bytes provided and only inside the decoder's tables, for every byte sequence and execution mode, and on success reports a size of at least one and at most the number of bytes provided, with any branch displacement taken from within the instruction.",
 ["inputs"], "all byte sequences up to 15 bytes (and shorter), all execution modes",
 "Tests list a few hundred encodings; the encoding space is astronomically larger and over-reads within the fixture array are invisible.",
 [L+"pt_ild.c", "libipt/internal/include/pti-*.h"], [("max_bytes checks", L+"pt_ild.c")], None, ["pt_ild_decode"])
prop("C16", "Internal stacks and queues stay within their storage and keep order",
 "The event queue, the TNT cache and the return stack never access storage beyond their capacity, report overflow or emptiness instead, and return what was put into them in the documented order: first-in-first-out for events and TNT bits, last-in-first-out with oldest entry dropped for return addresses.",
 ["histories"], "all sequences of operations from any reachable state",
 "Tests apply short sequences near the empty and full states only.",
 [L+"pt_event_queue.c", L+"pt_tnt_cache.c", L+"pt_retstack.c"], [("index wrap and full/empty checks", L)], None, ["pt_evq_*", "pt_tnt_cache_*", "pt_retstack_*"])
prop("C17", "IP compression is resolved exactly as specified",
 "Updating the last IP from a packet takes precisely the bits the packet's compression supplies and keeps the others (16-, 32- and 48-bit updates), sign-extends 48-bit IPs, replaces full IPs, and reports suppressed when the packet carried none; invalid compression modes are rejected and leave it unchanged.",
 ["inputs"], "all previous IPs, all payloads, all compression modes",
 "Tests use a few constants.", [L+"pt_last_ip.c"], [("pt_last_ip_update_ip", L+"pt_last_ip.c")], None, ["pt_last_ip_update_ip", "pt_last_ip_query"])
prop("C18", "No internal failure is dropped",
 "When an internal operation reports an error, every function that called it reports an error as well, unless the error is one of the conditions the design absorbs (end of trace, unmapped memory, best-effort cleanup and similar documented cases); no status is computed and then ignored.",
 ["inputs", "fault_sequences"], "all call sites of fallible functions, all error codes",
 "Tests reach few error returns; dropping an error leaves passing tests passing.",
 [L, "sideband/src", "pevent/src"], [("if (errcode < 0) return errcode", L)], None, ["all fallible functions"])
prop("C19", "Errors are reported as documented negative codes with a text for each",
 "Every value a public function returns as an error is the negation of a defined error code, never a positive error value, and the error text function has a distinct text for every defined code.",
 ["inputs"], "all error returns of all public functions",
 "Tests assert specific codes on sampled failures.", [L, "libipt/include/intel-pt.h.in"], [("enum pt_error_code, pt_errstr", L+"pt_error.c")], None, ["all exported functions", "pt_errstr"])
prop("C20", "Time computations never divide by zero or shift out of range",
 "For every calibration state, every configuration with documented field values (MTC frequency 0 to 15, time shift below 64) and every sequence of timing packets, time tracking performs no division by zero and no shift by the operand's width or more; when information is missing it reports an error or lost counts instead.",
 ["inputs", "histories", "configurations"], "all time/calibration states, all packet payloads, all configurations the library accepts",
 "Tests use a few frequencies and never degenerate configurations.", [L+"pt_time.c", "pevent/src/pevent.c"], [("zero checks before division", L+"pt_time.c")], None, ["pt_time_update_*", "pt_tcal_update_*", "pev_time_to_tsc", "pev_time_from_tsc"])
prop("C21", "Sideband records are read and written within their buffer",
 "Reading a perf_event record examines only bytes inside the given buffer and, on success, every record, string and sample it hands out lies within the record's own size; writing one stays inside the given buffer and returns exactly the number of bytes written.",
 ["inputs"], "all buffer contents and sizes, all record types and sample configurations",
 "Tests read and write a few well-formed records.", ["pevent/src/pevent.c", "pevent/include/pevent.h"], [("header size and end checks", "pevent/src/pevent.c")], None, ["pev_read", "pev_write"])
prop("C22", "Sideband records survive a write/read round trip",
 "Reading back a perf_event record that was written with the same configuration yields the same type, flags, record contents and samples, and consumes exactly the bytes written.",
 ["inputs"], "all record types, all sample masks, all field values",
 "Tests sample record contents and a subset of the sample masks.", ["pevent/src/pevent.c"], [("record and sample layout shared by reader and writer", "pevent/src/pevent.c")], None, ["pev_read", "pev_write"])
prop("C23", "Sideband contexts are reference counted without leaks",
 "Each holder of a process context (session list, current and pending context of a channel) owns exactly one reference; a context is destroyed exactly when its last reference is dropped and is never used afterwards, on every path including errors and canceled switches.",
 ["histories", "fault_sequences"], "all sequences of fork/exec/exit/switch records and events, with any operation failing",
 "There are no tests for the sideband library.", ["sideband/src/pt_sb_context.c", "sideband/src/pt_sb_session.c", "sideband/src/pt_sb_pevent.c"], [("pt_sb_ctx_get/put", "sideband/src/pt_sb_context.c")], None, ["pt_sb_ctx_get", "pt_sb_ctx_put", "pt_sb_remove_context", "pt_sb_event"])
prop("C24", "A sideband channel is always on exactly one of the session's lists",
 "Presenting an event or dumping sideband never loses a sideband decoder and never enters one twice: each decoder is on exactly one of the waiting, active, retired and removed lists, the active list stays ordered by time, a decoder that ran out of records while an event was presented is retired, one whose callbacks failed is removed, and freeing the session releases each decoder once.",
 ["histories", "inputs"], "all results of the decoder callbacks, any number of decoders",
 "There are no tests for the sideband library.", ["sideband/src/pt_sb_session.c"], [("list moves", "sideband/src/pt_sb_session.c")], None, ["pt_sb_init_decoders", "pt_sb_event", "pt_sb_dump", "pt_sb_free"])
prop("C25", "Decoders share nothing and never modify their input",
 "Decoding modifies neither the trace buffer nor the caller's configuration, and the library keeps no mutable global state, so separate decoders can run in parallel on the same trace without influencing each other.",
 ["schedules", "inputs"], "all library functions, all inputs",
 "Tests run single decoders and do not compare the buffer afterwards.", [L, "libipt/internal/include"], [("const-correct trace access, per-decoder state", L)], None, ["all exported functions"])
prop("C26", "Callback results are validated before use",
 "A packet size reported by the unknown-packet callback, and a byte count reported by the read-memory callback, are used only if they lie within what the library asked for; anything else is reported as an error and never moves the decoder or fills a buffer beyond its bounds.",
 ["inputs"], "all values the callbacks may return", "Tests return one or two values.",
 [L+"pt_packet.c", L+"pt_image.c"], [("size check after the callback", L+"pt_packet.c")], None, ["pt_pkt_next", "pt_image_read"])
prop("C27", "Everything handed to the caller is defined",
 "On success every byte of the structures and values a public function fills in, up to the size exchanged and the size the library knows, has been written by that call from defined data: no uninitialized or leftover memory is reported. Of a packet these are its type, its size and the payload of its type.",
 ["inputs", "histories"], "all successful returns of the packet, event, query, instruction and block interfaces",
 "Tests compare chosen fields; stale or uninitialized bytes rarely differ in a fixture.", [L], [("initialization of result structures", L)], None, ["pt_pkt_next", "pt_evt_next", "pt_insn_next", "pt_blk_next", "pt_*_asid", "pt_qry_time"])
prop("C28", "Address-space matching treats unknown identifiers as wildcards",
 "Two address-space identifiers match exactly if each of CR3 and VMCS is equal or not set on at least one side; an identifier converted from the caller's has unset fields exactly where the caller's (smaller) structure did not provide them.",
 ["inputs"], "all identifiers and structure sizes", "Tests use a few constants.", [L+"pt_asid.c"], [("pt_asid_match", L+"pt_asid.c")], None, ["pt_asid_match", "pt_asid_from_user", "pt_asid_to_user"])
prop("C29", "Synchronization only stops at a PSB pattern inside the buffer",
 "Searching forward or backward for a synchronization point either reports the end of the trace or positions the decoder at the start of a complete PSB pattern that lies inside the buffer; setting the position explicitly accepts exactly the offsets inside the buffer.",
 ["inputs"], "all buffer contents, sizes and start positions", "Tests place one or two PSBs.",
 [L+"pt_sync.c", L+"pt_packet_decoder.c"], [("pattern search", L+"pt_sync.c")], None, ["pt_pkt_sync_forward", "pt_pkt_sync_backward", "pt_pkt_sync_set"])
prop("C30", "Reconstructed control flow equals the executed control flow",
 "The sequence of instructions (or blocks) the decoders report for a trace is the sequence the traced program executed.",
 ["inputs", "histories", "programs"], "all programs and traces",
 "A trace/image pair per behaviour would be needed; the tests hold none for the flow layers.",
 [L+"pt_insn_decoder.c", L+"pt_block_decoder.c", L+"pt_insn.c"], [("event/trace/image interpretation", L)], None, ["pt_insn_next", "pt_blk_next"])
prop("C31", "Estimated time is monotonic and accurate",
 "The time reported with decoded items never decreases and lies within the precision the enabled timing packets allow.",
 ["inputs", "histories"], "all packet sequences", "Tests check a few computed values.",
 [L+"pt_time.c"], [("time and calibration update", L+"pt_time.c")], None, ["pt_insn_time", "pt_blk_time", "pt_qry_time"])
prop("C32", "Concurrent section and cache operations are linearizable",
 "Concurrent use of shared sections and caches gives the results of some sequential order of the operations.",
 ["schedules"], "all interleavings", "Threaded tests sample schedules.",
 [L+"pt_section.c", L+"pt_image_section_cache.c"], [("locks", L)], None, ["pt_iscache_*"])
prop("C33", "An image maps every address to the right byte of the right file",
 "Every address covered by a section last added at v stands for that section's byte at the address minus v, whatever overlapped before; adding, copying, looking up and removing change no other address's content, a failed addition changes none; and reading an address gives the file's byte at the section's file offset plus that distance.",
 ["inputs", "histories", "fault_sequences"], "all addresses, section sizes, file offsets and overlap arrangements of up to three sections, with any allocation failing",
 "Tests check a few overlap arrangements with fixed addresses; copying displaced sections is not tested at all.",
 [L+"pt_image.c", L+"pt_section.c", "libipt/internal/include/pt_mapped_section.h", L+"posix/pt_section_posix.c", L+"pt_section_file.c"],
 [("splitting of overlapped sections", L+"pt_image.c")], [("sections", "list of mapped sections", "struct pt_image")], ["pt_image_add", "pt_image_copy", "pt_image_remove", "pt_image_find", "pt_image_read"])
prop("C34", "The section cache's memory accounting matches what it keeps mapped",
 "After every section cache operation the memory the cache accounts for equals the sum of the sizes of the mapped sections it keeps, stays within the configured limit, and each section is kept at most once.",
 ["histories", "inputs"], "all operations on a cache, all limits including zero and sizes near the limit, any nested operation failing",
 "Tests keep one or two sections under convenient limits; an accounting drift shows only after many operations as ever growing or never reused memory.",
 [L+"pt_image_section_cache.c", L+"pt_section.c"], [("lru list and used/limit", L+"pt_image_section_cache.c")],
 [("used", "accounted memory", "struct pt_image_section_cache"), ("lru", "kept mappings", "struct pt_image_section_cache")], ["pt_iscache_set_limit", "pt_iscache_notify_map", "pt_iscache_notify_resize", "pt_iscache_read"])
prop("C35", "Branch instructions are recognised, measured and targeted as architected",
 "For every branch instruction of the architecture (near and far calls, jumps, returns, conditional jumps, software interrupts, system call and virtual-machine entries and exits), with any operand bytes and with operand-size, address-size, segment/hint, repeat and REX prefixes, instruction decode reports the architected size and class, and for direct branches the architected displacement, so that the next IP is the end of the instruction plus the sign-extended displacement. No other legacy one-byte or two-byte opcode is reported as a branch, and exactly the writes to CR3 are recognised as changing CR3.",
 ["inputs"], "all listed opcodes, all operand bytes, the listed prefixes, all execution modes",
 "Tests hold one or two encodings per instruction with fixed operand bytes and hardly any prefixes.",
 [L+"pt_ild.c", L+"pt_insn.c", "libipt/internal/include/pti-disp.h", "libipt/internal/include/pti-imm.h", "libipt/internal/include/pti-modrm.h"],
 [("opcode tables and classification", L+"pt_ild.c")], None, ["pt_ild_decode", "pt_insn_next_ip", "pt_insn_next", "pt_blk_next"])
prop("C36", "Time follows the timing packets",
 "A TSC packet sets the time to its payload and clears the counts of lost packets; until the first TSC packet time queries report that there is no time, and until the first CBR packet ratio queries report that there is no ratio. An MTC packet advances the time by the elapsed CTC ticks (correcting one wrap-around) times the configured ratio, a CYC packet by its cycles times the calibrated ratio; TMA and CBR packets never change the time. A packet that is refused leaves the time unchanged; an unusable MTC packet and a CYC packet without calibration are each counted as lost once, and nothing else changes the counts upwards. The calibrated ratio is available exactly after calibration and refused packets leave it unchanged.",
 ["inputs", "histories"], "all time and calibration states, all timing packet payloads, all documented configurations",
 "Tests drive a handful of packet sequences with fixed payloads and one MTC frequency.",
 [L+"pt_time.c"], [("time and calibration update functions", L+"pt_time.c")], [("tsc", "current time", "struct pt_time"), ("lost_mtc/lost_cyc", "counts of lost packets", "struct pt_time"), ("fcr", "calibrated ratio", "struct pt_time_cal")],
 ["pt_time_query_tsc", "pt_time_query_cbr", "pt_evt_time", "pt_qry_time", "pt_insn_time", "pt_blk_time"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
