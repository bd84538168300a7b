From 510db4523b3d0fd529191c99a4da948c2d130233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 01/16] fix: libipt: report eos instead of an internal error
 when no PSB fits

Synchronizing forward from a sync point less than a PSB away from the end of
the trace moved the search position beyond the end and resulted in
-pte_internal where -pte_eos is documented.
---
 libipt/src/pt_packet_decoder.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index bdabb03..3a2599e 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -101,8 +101,13 @@ int pt_pkt_sync_forward(struct pt_packet_decoder *decoder)
 	if (!pos)
 		pos = begin;
 
-	if (pos == sync)
+	if (pos == sync) {
+		/* There is no room for another PSB. */
+		if (decoder->config.end < pos + ptps_psb)
+			return -pte_eos;
+
 		pos += ptps_psb;
+	}
 
 	if (pos < begin)
 		return -pte_internal;
-- 
2.43.0


From 26d0fdc7f710e016f023cb521bb83091f2a64261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 02/16] fix: libipt: do not extend a corrupt TMA packet beyond
 the trace (SKZ84)

The erratum workaround skips one byte more than a TMA packet.  That byte need
not be inside the trace buffer.
---
 libipt/src/pt_packet_decoder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index 3a2599e..e0e6f7c 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -524,6 +524,8 @@ static int pt_pkt_decode_tma(struct pt_packet_decoder *decoder,
 		if (decoder->config.errata.skz84
 		    && (size == -pte_bad_packet)) {
 			size = ptps_tma + 1;
+			if (decoder->config.end < decoder->pos + size)
+				return -pte_eos;
 
 			packet->type = ppt_invalid;
 			packet->size = (uint8_t) size;
-- 
2.43.0


From b5662852e35dd525bbae2fd4d34f4f6124e84361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 03/16] fix: libipt: reject TNT-8 packets the encoder can not
 represent

An empty TNT-8 packet was encoded as the first byte of an extended opcode and
payload bits beyond the packet's bit size overwrote the stop bit.
---
 libipt/src/pt_encoder.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_encoder.c b/libipt/src/pt_encoder.c
index a84f0d6..2b82013 100644
--- a/libipt/src/pt_encoder.c
+++ b/libipt/src/pt_encoder.c
@@ -325,7 +325,12 @@ int pt_enc_next(struct pt_encoder *encoder, const struct pt_packet *packet)
 	case ppt_tnt_8: {
 		uint8_t opc, stop;
 
-		if (packet->payload.tnt.bit_size >= 7)
+		if (!packet->payload.tnt.bit_size ||
+		    packet->payload.tnt.bit_size >= 7)
+			return -pte_bad_packet;
+
+		if (packet->payload.tnt.payload >>
+		    packet->payload.tnt.bit_size)
 			return -pte_bad_packet;
 
 		errcode = pt_reserve(encoder, ptps_tnt_8);
-- 
2.43.0


From 5843a6cf93c2169283a2ba58240d43ae567c2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 04/16] fix: libipt: return a negative error code from
 pt_encode_ip

The internal error was returned as a positive value, which callers take for a
packet size.
---
 libipt/src/pt_encoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_encoder.c b/libipt/src/pt_encoder.c
index 2b82013..2eecbbb 100644
--- a/libipt/src/pt_encoder.c
+++ b/libipt/src/pt_encoder.c
@@ -225,7 +225,7 @@ static int pt_encode_ip(struct pt_encoder *encoder, enum pt_opcode op,
 	int size, errcode;
 
 	if (!encoder || !packet)
-		return pte_internal;
+		return -pte_internal;
 
 	size = pt_ipc_size(packet->ipc);
 	if (size < 0)
-- 
2.43.0


From 117bef9c7b3f2ae7720dcaf66da0e78be5d5b3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 05/16] fix: libipt: decode CYC packets that use all 64 bits of
 the cycle counter

The encoder accepts cycle counts of up to 64 bit.  The decoder rejected the
packet if the last extension byte reached beyond bit 64 even though the bits
beyond are zero.
---
 libipt/src/pt_packet.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libipt/src/pt_packet.c b/libipt/src/pt_packet.c
index a10d052..509be80 100644
--- a/libipt/src/pt_packet.c
+++ b/libipt/src/pt_packet.c
@@ -419,13 +419,16 @@ int pt_pkt_read_cyc(struct pt_packet_cyc *packet, const uint8_t *pos,
 		ext = bits & pt_opm_cycx_ext;
 
 		bits >>= pt_opm_cycx_shr;
-		bits <<= shl;
 
-		shl += (8 - pt_opm_cycx_shr);
-		if (sizeof(value) * 8 < shl)
+		/* Check if the payload exceeds the cycle counter. */
+		if (sizeof(value) * 8 <= shl)
+			return -pte_bad_packet;
+
+		if (((bits << shl) >> shl) != bits)
 			return -pte_bad_packet;
 
-		value |= bits;
+		value |= bits << shl;
+		shl += (8 - pt_opm_cycx_shr);
 	}
 
 	packet->value = value;
-- 
2.43.0


From e30bdfe2dfe123e25529a4e7a8832c3f310c2660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 06/16] fix: reject read-memory callback results larger than
 requested

The count returned by the read-memory callback was passed on unchecked.
The instruction flow decoders truncate it to 8 bits and use it as the
number of valid bytes in a 15-byte buffer, so a larger count made the
instruction length decoder read beyond that buffer.
---
 libipt/src/pt_image.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index bcc1e58..44203a0 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -459,6 +459,7 @@ static int pt_image_read_callback(struct pt_image *image, int *isid,
 				  const struct pt_asid *asid, uint64_t addr)
 {
 	read_memory_callback_t *callback;
+	int status;
 
 	if (!image || !isid)
 		return -pte_internal;
@@ -469,7 +470,13 @@ static int pt_image_read_callback(struct pt_image *image, int *isid,
 
 	*isid = 0;
 
-	return callback(buffer, size, asid, addr, image->readmem.context);
+	status = callback(buffer, size, asid, addr, image->readmem.context);
+
+	/* The callback must not provide more than we asked for. */
+	if ((int) size < status)
+		return -pte_bad_image;
+
+	return status;
 }
 
 /* Check whether a mapped section contains an address.
-- 
2.43.0


From d6cff9eb878566a27a061331087c2f8366ac97fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 07/16] fix: copy only the parts of a section an image uses

pt_image_copy() added each list entry's section as a whole, although
sections that were partially displaced by others are only used in part.
The copied image had different memory than the original.
---
 libipt/src/pt_image.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index 44203a0..3007439 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -133,21 +133,23 @@ const char *pt_image_name(const struct pt_image *image)
 	return image->name;
 }
 
-int pt_image_add(struct pt_image *image, struct pt_section *section,
-		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+/* Add @size bytes of @section starting at @offset at @vaddr. */
+static int pt_image_add_range(struct pt_image *image,
+			      struct pt_section *section,
+			      const struct pt_asid *asid, uint64_t vaddr,
+			      uint64_t offset, uint64_t size, int isid)
 {
 	struct pt_section_list **list, *next, *removed, *new;
-	uint64_t size, begin, end;
+	uint64_t begin, end;
 	int errcode;
 
 	if (!image || !section)
 		return -pte_internal;
 
-	size = pt_section_size(section);
 	begin = vaddr;
 	end = begin + size;
 
-	next = pt_mk_section_list(section, asid, begin, 0ull, size, isid);
+	next = pt_mk_section_list(section, asid, begin, offset, size, isid);
 	if (!next)
 		return -pte_nomem;
 
@@ -245,6 +247,16 @@ int pt_image_add(struct pt_image *image, struct pt_section *section,
 	return 0;
 }
 
+int pt_image_add(struct pt_image *image, struct pt_section *section,
+		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+{
+	if (!section)
+		return -pte_internal;
+
+	return pt_image_add_range(image, section, asid, vaddr, 0ull,
+				  pt_section_size(section), isid);
+}
+
 int pt_image_remove(struct pt_image *image, struct pt_section *section,
 		    const struct pt_asid *asid, uint64_t vaddr)
 {
@@ -339,10 +351,11 @@ int pt_image_copy(struct pt_image *image, const struct pt_image *src)
 	for (list = src->sections; list; list = list->next) {
 		int errcode;
 
-		errcode = pt_image_add(image, list->section.section,
-				       &list->section.asid,
-				       list->section.vaddr,
-				       list->isid);
+		errcode = pt_image_add_range(image, list->section.section,
+					     &list->section.asid,
+					     list->section.vaddr,
+					     list->section.offset,
+					     list->section.size, list->isid);
 		if (errcode < 0)
 			ignored += 1;
 	}
-- 
2.43.0


From 9460aa7494729d17185f43093ab9735ad56949df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 08/16] fix: require an opcode byte behind a REX2 prefix

prefix_rex2() consumes two bytes and then reads the opcode, but it only
checked for two available bytes, so the opcode could be read from beyond
the bytes that were provided for the instruction.
---
 libipt/src/pt_ild.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libipt/src/pt_ild.c b/libipt/src/pt_ild.c
index 6e3c970..0811e41 100644
--- a/libipt/src/pt_ild.c
+++ b/libipt/src/pt_ild.c
@@ -1106,11 +1106,11 @@ static int prefix_rex2(struct pt_ild *ild, uint8_t length, uint8_t rex)
 
 	max_bytes = ild->max_bytes;
 
-	/* We need at least 2 bytes
-	 * - 1 for the prefix payload.
+	/* We need at least 3 bytes
+	 * - 2 for the REX2 prefix and payload and
 	 * - 1 for the opcode.
 	 */
-	if (max_bytes < (length + 2))
+	if (max_bytes < (length + 3))
 		return -pte_bad_insn;
 
 	payload = get_byte(ild, length + 1);
-- 
2.43.0


From 725a9c297c9adcf2593aa3b806cc601fe6a2b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 09/16] fix: initialize the reserved half of a CPU sample when
 writing a sideband record

pev_write() skipped the four reserved bytes behind the cpu number, so it reported
more bytes as written than it wrote and passed on leftover buffer content.
---
 pevent/src/pevent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pevent/src/pevent.c b/pevent/src/pevent.c
index 48a003f..b843bd3 100644
--- a/pevent/src/pevent.c
+++ b/pevent/src/pevent.c
@@ -512,7 +512,7 @@ static int write_samples(uint8_t **stream, const struct pev_event *event,
 			return -pte_bad_packet;
 
 		write(stream, event->sample.cpu, sizeof(*event->sample.cpu));
-		*stream += sizeof(uint32_t);
+		clear(stream, sizeof(uint32_t));
 	}
 
 	if (sample_type & PERF_SAMPLE_IDENTIFIER) {
-- 
2.43.0


From 789d5959a6498578f90b2723d97ef814646a0fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:21 +0000
Subject: [PATCH 10/16] fix: do not free the caller's structure when
 initializing a sideband decoder fails

pt_sb_pevent_init() ran the destructor on the structure its caller provided when
copying one of the file names failed.  pt_sb_alloc_pevent_decoder() then freed it
a second time.
---
 sideband/src/pt_sb_pevent.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 83dac5e..2a58859 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -225,12 +225,10 @@ static int pt_sb_pevent_find_vdso(const char **pvdso,
 	return 0;
 }
 
-static void pt_sb_pevent_dtor(void *priv_arg)
+static void pt_sb_pevent_fini(struct pt_sb_pevent_priv *priv)
 {
-	struct pt_sb_pevent_priv *priv;
 	struct pt_sb_context *context;
 
-	priv = (struct pt_sb_pevent_priv *) priv_arg;
 	if (!priv)
 		return;
 
@@ -248,6 +246,11 @@ static void pt_sb_pevent_dtor(void *priv_arg)
 	free(priv->vdso_x32);
 	free(priv->vdso_ia32);
 	free(priv->begin);
+}
+
+static void pt_sb_pevent_dtor(void *priv)
+{
+	pt_sb_pevent_fini((struct pt_sb_pevent_priv *) priv);
 	free(priv);
 }
 
@@ -313,31 +316,31 @@ int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 
 	errcode = pt_sb_pevent_init_path(&priv->filename, filename);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->sysroot, config->sysroot);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_x64, config->vdso_x64);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_x32, config->vdso_x32);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_ia32, config->vdso_ia32);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
-- 
2.43.0


From 2054e0312d1d3d996be10424866b4c699d6e8ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 11/16] fix: release everything a sideband decoder owns when it
 cannot be added

pt_sb_alloc_pevent_decoder() leaked the sideband data and the file names when
pt_sb_alloc_decoder() failed.
---
 sideband/src/pt_sb_pevent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 2a58859..74d13bc 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -1801,7 +1801,7 @@ int pt_sb_alloc_pevent_decoder(struct pt_sb_session *session,
 
 	errcode = pt_sb_alloc_decoder(session, &config);
 	if (errcode < 0)
-		free(priv);
+		pt_sb_pevent_dtor(priv);
 
 	return errcode;
 }
-- 
2.43.0


From 034afd989534340ec9663aa73e5bcccb6a3c9a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 12/16] fix: libipt: fail iscache allocation when its
 initialization fails

---
 libipt/src/pt_image_section_cache.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index 4310313..1b30718 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -852,8 +852,16 @@ struct pt_image_section_cache *pt_iscache_alloc(const char *name)
 	struct pt_image_section_cache *iscache;
 
 	iscache = malloc(sizeof(*iscache));
-	if (iscache)
-		pt_iscache_init(iscache, name);
+	if (iscache) {
+		int errcode;
+
+		errcode = pt_iscache_init(iscache, name);
+		if (errcode < 0) {
+			free(iscache->name);
+			free(iscache);
+			return NULL;
+		}
+	}
 
 	return iscache;
 }
-- 
2.43.0


From dab215647a5857bfbbabe88e0a79fa5776e6e64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:03 +0000
Subject: [PATCH 13/16] fix: pevent: reject a missing configuration when
 reading a record

---
 pevent/src/pevent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pevent/src/pevent.c b/pevent/src/pevent.c
index b843bd3..53d0d15 100644
--- a/pevent/src/pevent.c
+++ b/pevent/src/pevent.c
@@ -244,7 +244,7 @@ int pev_read(struct pev_event *event, const uint8_t *begin, const uint8_t *end,
 	const uint8_t *pos;
 	int size;
 
-	if (!event || !begin || end < begin)
+	if (!event || !begin || !config || end < begin)
 		return -pte_internal;
 
 	pos = begin;
-- 
2.43.0


From f32aaa4d6bf691b5879ad2767175fa4b1a87320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 14/16] fix: libipt: accept missing lost packet counters in
 pt_blk_time

They are documented to be optional; the instruction flow and query decoders
accept NULL.
---
 libipt/src/pt_block_decoder.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index a02378b..d84d88d 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -631,12 +631,16 @@ pt_blk_get_config(const struct pt_block_decoder *decoder)
 int pt_blk_time(struct pt_block_decoder *decoder, uint64_t *time,
 		uint32_t *lost_mtc, uint32_t *lost_cyc)
 {
-	if (!decoder || !time || !lost_mtc || !lost_cyc)
+	if (!decoder || !time)
 		return -pte_invalid;
 
 	*time = decoder->tsc;
-	*lost_mtc = decoder->lost_mtc;
-	*lost_cyc = decoder->lost_cyc;
+
+	if (lost_mtc)
+		*lost_mtc = decoder->lost_mtc;
+
+	if (lost_cyc)
+		*lost_cyc = decoder->lost_cyc;
 
 	return 0;
 }
-- 
2.43.0


From d815c288319ae571cc318a39c14442cad2d5a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 15/16] fix: libipt: report relative time from pt_blk_time

Without a TSC packet, the time is relative and pt_blk_time() is documented to
return -pte_no_time like its instruction flow and query decoder counterparts.
---
 libipt/src/pt_block_decoder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index d84d88d..a6707e6 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -642,6 +642,9 @@ int pt_blk_time(struct pt_block_decoder *decoder, uint64_t *time,
 	if (lost_cyc)
 		*lost_cyc = decoder->lost_cyc;
 
+	if (!decoder->has_tsc)
+		return -pte_no_time;
+
 	return 0;
 }
 
-- 
2.43.0


From a932978778decee97a36377282111d28fcee548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 16/16] fix: libipt: report a missing core:bus ratio from
 pt_blk_core_bus_ratio

---
 libipt/internal/include/pt_block_decoder.h | 3 +++
 libipt/src/pt_block_decoder.c              | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/libipt/internal/include/pt_block_decoder.h b/libipt/internal/include/pt_block_decoder.h
index 87205c2..afa6e81 100644
--- a/libipt/internal/include/pt_block_decoder.h
+++ b/libipt/internal/include/pt_block_decoder.h
@@ -132,6 +132,9 @@ struct pt_block_decoder {
 	/* - whether @tsc tracks wall-clock time. */
 	uint32_t has_tsc:1;
 
+	/* - whether @cbr is valid. */
+	uint32_t has_cbr:1;
+
 	/* - whether @icnt is valid. */
 	uint32_t has_icnt:1;
 
diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index a6707e6..8855366 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -195,6 +195,7 @@ static int pt_blk_reset(struct pt_block_decoder *decoder)
 	decoder->enabled = 0;
 	decoder->speculative = 0;
 	decoder->has_tsc = 0;
+	decoder->has_cbr = 0;
 	decoder->has_icnt = 0;
 	decoder->process_insn = 0;
 	decoder->bound_paging = 0;
@@ -653,6 +654,9 @@ int pt_blk_core_bus_ratio(struct pt_block_decoder *decoder, uint32_t *cbr)
 	if (!decoder || !cbr)
 		return -pte_invalid;
 
+	if (!decoder->has_cbr)
+		return -pte_no_cbr;
+
 	*cbr = decoder->cbr;
 
 	return 0;
@@ -4135,6 +4139,7 @@ static int pt_blk_process_cbr(struct pt_block_decoder *decoder,
 		return -pte_internal;
 
 	decoder->cbr = ev->variant.cbr.ratio;
+	decoder->has_cbr = 1;
 
 	return 0;
 }
-- 
2.43.0

