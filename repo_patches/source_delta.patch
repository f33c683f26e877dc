From bcdc5ff7c41b89dc98a2d7c78d57660cbbec7b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:50 +0000
Subject: [PATCH 01/14] fix: report write errors on closing rdiff output files
 and stdout

---
 src/fileutil.c |  5 ++++-
 src/librsync.h |  7 +++++--
 src/rdiff.c    | 14 +++++++++++---
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/fileutil.c b/src/fileutil.c
index 676d2d0..aab4a4b 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -119,8 +119,11 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
 
 int rs_file_close(FILE *f)
 {
-    if ((f == stdin) || (f == stdout))
+    if (f == stdin)
         return 0;
+    /* Leave stdout open, but make sure everything was written. */
+    if (f == stdout)
+        return fflush(f);
     return fclose(f);
 }
 
diff --git a/src/librsync.h b/src/librsync.h
index fec8fed..e8cc64b 100644
--- a/src/librsync.h
+++ b/src/librsync.h
@@ -538,9 +538,12 @@ LIBRSYNC_EXPORT FILE *rs_file_open(char const *filename, char const *mode,
 
 /** Close a file with special handling for stdin or stdout.
  *
- * This will not actually close the file if it is stdin or stdout.
+ * This will not actually close the file if it is stdin or stdout, but it will
+ * flush stdout.
  *
- * \param file - the stdio file to close. */
+ * \param file - the stdio file to close.
+ *
+ * \return 0 on success, or EOF if the remaining output could not be written. */
 LIBRSYNC_EXPORT int rs_file_close(FILE *file);
 
 /** Get the size of a file.
diff --git a/src/rdiff.c b/src/rdiff.c
index 29ca892..c0c2320 100644
--- a/src/rdiff.c
+++ b/src/rdiff.c
@@ -190,6 +190,14 @@ static void rdiff_options(poptContext opcon)
     }
 }
 
+/** Close an output file, turning a late write error into a failed result. */
+static rs_result rdiff_close_output(FILE *f, rs_result result)
+{
+    if (rs_file_close(f) && result == RS_DONE)
+        result = RS_IO_ERROR;
+    return result;
+}
+
 /** Generate signature from remaining command line arguments. */
 static rs_result rdiff_sig(poptContext opcon)
 {
@@ -223,7 +231,7 @@ static rs_result rdiff_sig(poptContext opcon)
         rs_sig_file(basis_file, sig_file, block_len, strong_len, sig_magic,
                     &stats);
 
-    rs_file_close(sig_file);
+    result = rdiff_close_output(sig_file, result);
     rs_file_close(basis_file);
     if (result != RS_DONE)
         return result;
@@ -266,7 +274,7 @@ static rs_result rdiff_delta(poptContext opcon)
 
     result = rs_delta_file(sumset, new_file, delta_file, &stats);
 
-    rs_file_close(delta_file);
+    result = rdiff_close_output(delta_file, result);
     rs_file_close(new_file);
     rs_file_close(sig_file);
 
@@ -302,7 +310,7 @@ static rs_result rdiff_patch(poptContext opcon)
 
     result = rs_patch_file(basis_file, delta_file, new_file, &stats);
 
-    rs_file_close(new_file);
+    result = rdiff_close_output(new_file, result);
     rs_file_close(delta_file);
     rs_file_close(basis_file);
 
-- 
2.43.0


From a2abc8d3994d0dba4d8092f3b4c1be0e720b535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:14 +0000
Subject: [PATCH 02/14] fix: reject block lengths the format cannot hold and
 avoid overflowing file buffer sizes

---
 src/job.h    |  4 ++--
 src/mksum.c  |  4 ++--
 src/sumset.c |  6 ++++++
 src/whole.c  | 12 ++++++++++--
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/job.h b/src/job.h
index fb22461..e6e1ed2 100644
--- a/src/job.h
+++ b/src/job.h
@@ -61,8 +61,8 @@ struct rs_job {
     /* Arguments for initializing the signature used by mksum.c and readsums.c.
      */
     int sig_magic;
-    int sig_block_len;
-    int sig_strong_len;
+    size_t sig_block_len;
+    size_t sig_strong_len;
 
     /** The size of the signature file if available. Used by loadsums.c when
      * initializing the signature to preallocate memory. */
diff --git a/src/mksum.c b/src/mksum.c
index a7bcf84..04d5243 100644
--- a/src/mksum.c
+++ b/src/mksum.c
@@ -116,7 +116,7 @@ rs_job_t *rs_sig_begin(size_t block_len, size_t strong_len,
     job->signature = rs_alloc_struct(rs_signature_t);
     job->job_owns_sig = 1;
     job->sig_magic = sig_magic;
-    job->sig_block_len = (int)block_len;
-    job->sig_strong_len = (int)strong_len;
+    job->sig_block_len = block_len;
+    job->sig_strong_len = strong_len;
     return job;
 }
diff --git a/src/sumset.c b/src/sumset.c
index 5a87261..cfefa54 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -21,6 +21,7 @@
  */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 #include "librsync.h"
@@ -146,6 +147,11 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
     }
     if (*block_len == 0)
         *block_len = rec_block_len;
+    /* The signature format stores block_len as a signed 32bit integer. */
+    if (*block_len > INT32_MAX) {
+        rs_error("invalid block_len=" FMT_SIZE, *block_len);
+        return RS_PARAM_ERROR;
+    }
     /* The recommended strong_len assumes the worst case new_fsize = old_fsize
        + 16MB with no matches. This results in comparing a block at every byte
        offset against all the blocks in the signature, or new_fsize*block_num
diff --git a/src/whole.c b/src/whole.c
index ebce253..f3daae6 100644
--- a/src/whole.c
+++ b/src/whole.c
@@ -28,6 +28,7 @@
                                */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include "librsync.h"
@@ -40,6 +41,12 @@
 /** Whole file IO buffer sizes. */
 LIBRSYNC_EXPORT int rs_inbuflen = 0, rs_outbuflen = 0;
 
+/** Get the buffer size for 4 items, limited to what fits in an int. */
+static int rs_whole_buflen(size_t len)
+{
+    return len < INT_MAX / 4 ? 4 * (int)len : INT_MAX;
+}
+
 rs_result rs_whole_run(rs_job_t *job, FILE *in_file, FILE *out_file,
                        int inbuflen, int outbuflen)
 {
@@ -78,7 +85,7 @@ rs_result rs_sig_file(FILE *old_file, FILE *sig_file, size_t block_len,
         return r;
     job = rs_sig_begin(block_len, strong_len, sig_magic);
     /* Size inbuf for 4 blocks, outbuf for header + 4 blocksums. */
-    r = rs_whole_run(job, old_file, sig_file, 4 * (int)block_len,
+    r = rs_whole_run(job, old_file, sig_file, rs_whole_buflen(block_len),
                      12 + 4 * (4 + (int)strong_len));
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
@@ -114,7 +121,8 @@ rs_result rs_delta_file(rs_signature_t *sig, FILE *new_file, FILE *delta_file,
     job = rs_delta_begin(sig);
     /* Size inbuf for 4*(CMD + 1 block), outbuf for 4*CMD. */
     r = rs_whole_run(job, new_file, delta_file,
-                     4 * (MAX_DELTA_CMD + sig->block_len), 4 * MAX_DELTA_CMD);
+                     rs_whole_buflen((size_t)MAX_DELTA_CMD + sig->block_len),
+                     4 * MAX_DELTA_CMD);
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
     rs_job_free(job);
-- 
2.43.0


From 377e06eba456c678e3c476c04850ce45eb6d7946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:28 +0000
Subject: [PATCH 03/14] fix: keep recommended signature parameters within the
 format's limits for all file sizes

---
 src/sumset.c | 28 ++++++++++++++++++----------
 src/util.c   |  6 +++---
 src/util.h   |  2 +-
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/sumset.c b/src/sumset.c
index cfefa54..bd8fcb6 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -142,8 +142,10 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
     if (old_fsize < 0) {
         rec_block_len = RS_DEFAULT_BLOCK_LEN;
     } else {
-        rec_block_len =
-            old_fsize <= 256 * 256 ? 256 : rs_long_sqrt(old_fsize) & ~127;
+        rs_long_t root = rs_long_sqrt(old_fsize);
+        if (root > INT32_MAX)
+            root = INT32_MAX;
+        rec_block_len = old_fsize <= 256 * 256 ? 256 : root & ~127;
     }
     if (*block_len == 0)
         *block_len = rec_block_len;
@@ -165,22 +167,28 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
     if (old_fsize < 0) {
         min_strong_len = RS_DEFAULT_MIN_STRONG_LEN;
     } else {
-        min_strong_len =
-            2 + (rs_long_ln2(old_fsize + ((rs_long_t)1 << 24)) +
-                 rs_long_ln2(old_fsize / *block_len + 1) + 7) / 8;
+        /* Take care not to overflow for sizes close to the rs_long_t limit. */
+        rs_long_t new_fsize = old_fsize < INT64_MAX - ((rs_long_t)1 << 24) ?
+            old_fsize + ((rs_long_t)1 << 24) : INT64_MAX;
+        rs_long_t block_num = old_fsize / *block_len;
+        min_strong_len = 2 + (rs_long_ln2(new_fsize) +
+                              rs_long_ln2(block_num < INT64_MAX ?
+                                          block_num + 1 : block_num) + 7) / 8;
     }
+    if (min_strong_len > max_strong_len)
+        min_strong_len = max_strong_len;
     if (*strong_len == 0)
         *strong_len = max_strong_len;
     else if (*strong_len == -1)
         *strong_len = min_strong_len;
-    else if (old_fsize >= 0 && *strong_len < min_strong_len) {
-        rs_warn("strong_len=" FMT_SIZE " smaller than recommended minimum "
-                FMT_SIZE " for old_fsize=" FMT_LONG " with block_len=" FMT_SIZE,
-                *strong_len, min_strong_len, old_fsize, *block_len);
-    } else if (*strong_len > max_strong_len) {
+    else if (*strong_len > max_strong_len) {
         rs_error("invalid strong_len=" FMT_SIZE " for magic=%#x", *strong_len,
                  (int)*magic);
         return RS_PARAM_ERROR;
+    } else if (old_fsize >= 0 && *strong_len < min_strong_len) {
+        rs_warn("strong_len=" FMT_SIZE " smaller than recommended minimum "
+                FMT_SIZE " for old_fsize=" FMT_LONG " with block_len=" FMT_SIZE,
+                *strong_len, min_strong_len, old_fsize, *block_len);
     }
     rs_sig_args_check(*magic, *block_len, *strong_len);
     return RS_DONE;
diff --git a/src/util.c b/src/util.c
index f1e5550..627d1b6 100644
--- a/src/util.c
+++ b/src/util.c
@@ -76,7 +76,7 @@ int rs_long_ln2(rs_long_t v)
     return n;
 }
 
-int rs_long_sqrt(rs_long_t v)
+rs_long_t rs_long_sqrt(rs_long_t v)
 {
     rs_long_t n, b;
 
@@ -87,8 +87,8 @@ int rs_long_sqrt(rs_long_t v)
         /* Set the bit in the answer n. */
         n |= b;
         /* If n^2 is too big, clear the bit. */
-        if (n * n > v)
+        if (n > v / n)
             n ^= b;
     }
-    return (int)n;
+    return n;
 }
diff --git a/src/util.h b/src/util.h
index 704458b..14819c7 100644
--- a/src/util.h
+++ b/src/util.h
@@ -35,7 +35,7 @@ void *rs_alloc_struct0(size_t size, char const *name);
 void rs_bzero(void *buf, size_t size);
 
 int rs_long_ln2(rs_long_t v);
-int rs_long_sqrt(rs_long_t v);
+rs_long_t rs_long_sqrt(rs_long_t v);
 
 /** Allocate and zero-fill an instance of TYPE. */
 #  define rs_alloc_struct(type)				\
-- 
2.43.0


From 8473de837fd4a382a2848d4a384d2167d14486d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:53 +0000
Subject: [PATCH 04/14] fix: keep rs_format_stats() inside a buffer too small
 for the text

---
 src/stats.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/stats.c b/src/stats.c
index 5fabb8d..5e6f90e 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -37,6 +37,12 @@ int rs_log_stats(rs_stats_t const *stats)
     return 0;
 }
 
+/** Limit an output offset to the size of the buffer after truncated output. */
+static int rs_stats_clip(int len, size_t size)
+{
+    return (size_t)len > size ? (int)size : len;
+}
+
 char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
 {
     char const *op = stats->op;
@@ -46,7 +52,7 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
     if (!op)
         op = "noop";
 
-    len = snprintf(buf, size, "%s statistics: ", op);
+    len = rs_stats_clip(snprintf(buf, size, "%s statistics: ", op), size);
 
     if (stats->lit_cmds) {
         len +=
@@ -54,6 +60,7 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      "literal[%d cmds, " FMT_LONG " bytes, " FMT_LONG
                      " cmdbytes] ", stats->lit_cmds, stats->lit_bytes,
                      stats->lit_cmdbytes);
+        len = rs_stats_clip(len, size);
     }
 
     if (stats->sig_cmds) {
@@ -61,6 +68,7 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
             snprintf(buf + len, size - (size_t)len,
                      "in-place-signature[" FMT_LONG " cmds, " FMT_LONG
                      " bytes] ", stats->sig_cmds, stats->sig_bytes);
+        len = rs_stats_clip(len, size);
     }
 
     if (stats->copy_cmds || stats->false_matches) {
@@ -70,6 +78,7 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      " cmdbytes, %d false]", stats->copy_cmds,
                      stats->copy_bytes, stats->copy_cmdbytes,
                      stats->false_matches);
+        len = rs_stats_clip(len, size);
     }
 
     if (stats->sig_blocks) {
@@ -77,6 +86,7 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
             snprintf(buf + len, size - (size_t)len,
                      "signature[" FMT_LONG " blocks, " FMT_SIZE
                      " bytes per block]", stats->sig_blocks, stats->block_len);
+        len = rs_stats_clip(len, size);
     }
 
     sec = (int)(stats->end - stats->start);
-- 
2.43.0


From cc17d2586e683af79bd6230b2e89fcf7c7bf0520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:57 +0000
Subject: [PATCH 05/14] fix: rs_unbase64() returned a byte too many for
 unpadded input

---
 src/base64.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index 873746e..8055920 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -31,11 +31,11 @@ size_t rs_unbase64(char *s)
 {
     char const *b64 =
         "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-    int bit_offset, byte_offset, idx, i, n;
+    int bit_offset, byte_offset, idx, i;
     unsigned char *d = (unsigned char *)s;
     char *p;
 
-    n = i = 0;
+    i = 0;
 
     while (*s && (p = strchr(b64, *s))) {
         idx = (int)(p - b64);
@@ -44,16 +44,15 @@ size_t rs_unbase64(char *s)
         d[byte_offset] &= (unsigned char)~((1 << (8 - bit_offset)) - 1);
         if (bit_offset < 3) {
             d[byte_offset] |= (unsigned char)(idx << (2 - bit_offset));
-            n = byte_offset + 1;
         } else {
             d[byte_offset] |= (unsigned char)(idx >> (bit_offset - 2));
             d[byte_offset + 1] = (unsigned char)(idx << (8 - (bit_offset - 2)));
-            n = byte_offset + 2;
         }
         s++;
         i++;
     }
-    return n;
+    /* Left-over bits at the end do not make up another byte. */
+    return (size_t)(i * 6 / 8);
 }
 
 /** Encode a buffer as base64 - simple and slow algorithm. */
-- 
2.43.0


From 5066d163d4e96a0687f2edb8472b8c5ae8337a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:14 +0000
Subject: [PATCH 06/14] fix: do not overwrite an existing but unreadable output
 file without force

---
 src/fileutil.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fileutil.c b/src/fileutil.c
index aab4a4b..9a2146b 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -81,6 +81,7 @@
 FILE *rs_file_open(char const *filename, char const *mode, int force)
 {
     FILE *f;
+    struct stat st;
     int is_write;
 
     is_write = mode[0] == 'w';
@@ -100,10 +101,9 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
     }
 
     if (!force && is_write) {
-        if ((f = fopen(filename, "rb"))) {
+        if (stat(filename, &st) == 0) {
             // File exists
             rs_error("File exists \"%s\", aborting!", filename);
-            fclose(f);
             exit(RS_IO_ERROR);
         }
     }
-- 
2.43.0


From 819831c9f1cc1f74233c44f4bd435bbb5eade083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:14 +0000
Subject: [PATCH 07/14] fix: keep slack delta literal lengths within int for
 inputs over 2 GB

---
 src/delta.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/delta.c b/src/delta.c
index de65a8c..513fd21 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -90,6 +90,7 @@
 
 #include "config.h"             /* IWYU pragma: keep */
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "librsync.h"
 #include "job.h"
@@ -368,6 +369,9 @@ static rs_result rs_delta_s_slack(rs_job_t *job)
 {
     size_t avail = rs_scoop_avail(job);
 
+    /* A literal command's length must fit in an int. */
+    if (avail > INT_MAX)
+        avail = INT_MAX;
     if (avail) {
         rs_trace("emit slack delta for " FMT_SIZE " available bytes", avail);
         rs_emit_literal_cmd(job, (int)avail);
-- 
2.43.0


From 02b557b3ba68ee31e5a4b2cb8de810f8f27b03b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:18 +0000
Subject: [PATCH 08/14] fix: let a blocked copy callback block the patch job
 instead of failing it

---
 src/job.c   | 3 ++-
 src/job.h   | 3 +++
 src/patch.c | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/job.c b/src/job.c
index 462e772..0ef6537 100644
--- a/src/job.c
+++ b/src/job.c
@@ -92,8 +92,9 @@ rs_result rs_job_iter(rs_job_t *job, rs_buffers_t *buffers)
 
     orig_in = buffers->avail_in;
     orig_out = buffers->avail_out;
+    job->copy_blocked = 0;
     result = rs_job_work(job, buffers);
-    if (result == RS_BLOCKED || result == RS_DONE)
+    if ((result == RS_BLOCKED && !job->copy_blocked) || result == RS_DONE)
         if ((orig_in == buffers->avail_in) && (orig_out == buffers->avail_out)
             && orig_in && orig_out) {
             rs_error("internal error: job made no progress " "[orig_in="
diff --git a/src/job.h b/src/job.h
index e6e1ed2..33086a3 100644
--- a/src/job.h
+++ b/src/job.h
@@ -119,6 +119,9 @@ struct rs_job {
     /** Callback used to copy data from the basis into the output. */
     rs_copy_cb *copy_cb;
     void *copy_arg;
+
+    /** Flag indicating that copy_cb blocked, so no progress is expected. */
+    int copy_blocked;
 };
 
 rs_job_t *rs_job_new(const char *, rs_result (*statefn)(rs_job_t *));
diff --git a/src/patch.c b/src/patch.c
index 7e353d9..c8ad3a1 100644
--- a/src/patch.c
+++ b/src/patch.c
@@ -175,6 +175,7 @@ static rs_result rs_patch_s_copying(rs_job_t *job)
     result = (job->copy_cb) (job->copy_arg, job->basis_pos, &len, &ptr);
     if (result != RS_DONE) {
         rs_trace("copy callback returned %s", rs_strerror(result));
+        job->copy_blocked = (result == RS_BLOCKED);
         return result;
     }
     rs_trace("got " FMT_SIZE " bytes back from basis callback", len);
-- 
2.43.0


From 4d1e9d63dacb9a07d2f381bd00f737eb9f4f151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:36 +0000
Subject: [PATCH 09/14] fix: reject a zero magic number when loading a
 signature

---
 src/readsums.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/readsums.c b/src/readsums.c
index 61ba84a..da98900 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -127,6 +127,11 @@ static rs_result rs_loadsig_s_magic(rs_job_t *job)
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
     rs_trace("got signature magic %#x", l);
+    /* rs_signature_init() would take zero as a request for the default. */
+    if (l == 0) {
+        rs_error("signature magic number is zero");
+        return RS_BAD_MAGIC;
+    }
     job->sig_magic = l;
     job->statefn = rs_loadsig_s_blocklen;
     return RS_RUNNING;
-- 
2.43.0


From 0b85e96dc4ce58e22f1b7fe2cdf17c112a592bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:08 +0000
Subject: [PATCH 10/14] fix: do not match blocks whose different weak sums
 share a hash value

---
 src/sumset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sumset.c b/src/sumset.c
index bd8fcb6..b0026a0 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -64,6 +64,9 @@ static void rs_block_match_init(rs_block_match_t *match, rs_signature_t *sig,
 static inline int rs_block_match_cmp(rs_block_match_t *match,
                                      const rs_block_sig_t *block_sig)
 {
+    /* Different weak sums can share a hash, zero is not used as one. */
+    if (match->block_sig.weak_sum != block_sig->weak_sum)
+        return 1;
     /* If buf is not NULL, the strong sum is yet to be calculated. */
     if (match->buf) {
 #ifndef HASHTABLE_NSTATS
-- 
2.43.0


From 553d7a0a7bdb6eee926a96f22d0da73a05caea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:09 +0000
Subject: [PATCH 11/14] fix: consume matched input held back by blocked output
 so the delta job makes progress

---
 src/delta.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/delta.c b/src/delta.c
index 513fd21..d1be437 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -134,6 +134,10 @@ static rs_result rs_delta_s_scan(rs_job_t *job)
     /* read the input into the scoop */
     if ((result = rs_getinput(job, block_len)) != RS_DONE)
         return result;
+    /* consume match data that was held back when output was blocked, so that
+       what stays unconsumed is always short enough to be scooped */
+    if (job->basis_len && job->scan_pos)
+        result = rs_processmatch(job);
     /* while output is not blocked and there is a block of data */
     while ((result == RS_DONE) && ((job->scan_pos + block_len) < job->scan_len)) {
         /* check if this block matches */
-- 
2.43.0


From e4fb96f8da80695b4e1b32bbb798d677108178cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:57 +0000
Subject: [PATCH 12/14] fix: size the hash table of very large signatures
 without integer overflow

Computing the table size for more than 214748364 blocks overflowed int, so
the table came out too small and its blocks were not found.
---
 src/hashtable.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hashtable.c b/src/hashtable.c
index ff3f29c..2f554f4 100644
--- a/src/hashtable.c
+++ b/src/hashtable.c
@@ -19,6 +19,7 @@
  * Foundation, Inc., 675 Mass Ave, Cambridge, MA 02139, USA.
  */
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "hashtable.h"
 
@@ -37,12 +38,17 @@ hashtable_t *_hashtable_new(int size)
 {
     hashtable_t *t;
     unsigned size2, bits2;
+    long long need;
 
     /* Adjust requested size to account for max load factor. */
-    size = 1 + size * HASHTABLE_LOADFACTOR_DEN / HASHTABLE_LOADFACTOR_NUM;
+    need = 1 + (long long)size * HASHTABLE_LOADFACTOR_DEN /
+        HASHTABLE_LOADFACTOR_NUM;
     /* Use next power of 2 larger than the requested size and get mask bits. */
-    for (size2 = 2, bits2 = 1; (int)size2 < size; size2 <<= 1, bits2++) ;
-    if (!(t = calloc(1, sizeof(hashtable_t)+ size2 * sizeof(unsigned))))
+    for (size2 = 2, bits2 = 1; size2 < need; size2 <<= 1, bits2++)
+        if (size2 > INT_MAX / 2)
+            return NULL;
+    if (!(t =
+          calloc(1, sizeof(hashtable_t)+ (size_t)size2 * sizeof(unsigned))))
         return NULL;
     if (!(t->etable = calloc(size2, sizeof(void *)))) {
         _hashtable_free(t);
-- 
2.43.0


From 2b0696214a2a55033b47f96300ba00b2006f58a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 13/14] fix: do not let unprocessed input pile up in the delta
 job's scoop

When output was slow, every rs_job_iter() call on a delta job with data in
its scoop took all the offered input, although it could only emit a little
of what it already had. With input buffers larger than the space given for
output, the scoop grew with the length of the stream. Take more input only
when the scoop holds less than is needed to scan it.
---
 src/delta.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/delta.c b/src/delta.c
index d1be437..1c8a4f0 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -154,8 +154,11 @@ static rs_result rs_delta_s_scan(rs_job_t *job)
     }
     /* if we completed OK */
     if (result == RS_DONE) {
-        /* if we reached eof, we can flush the last fragment */
-        if (job->stream->eof_in) {
+        /* if there is input we have not taken yet, carry on with that */
+        if (job->scan_len < rs_scoop_avail(job)) {
+            return RS_RUNNING;
+            /* if we reached eof, we can flush the last fragment */
+        } else if (job->stream->eof_in) {
             job->statefn = rs_delta_s_flush;
             return RS_RUNNING;
         } else {
@@ -219,6 +222,9 @@ static inline rs_result rs_getinput(rs_job_t *job, size_t block_len)
     job->scan_len = rs_scoop_avail(job);
     if (job->scan_len < min_len && !job->stream->eof_in)
         job->scan_len = min_len;
+    /* If the scoop already has enough, don't let more input accumulate. */
+    else if (job->scoop_avail >= min_len)
+        job->scan_len = job->scoop_avail;
     return rs_scoop_readahead(job, job->scan_len, (void **)&job->scan_buf);
 }
 
-- 
2.43.0


From 58487f492b13aa33232ff3501cd99eb8fdbe7fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:45 +0000
Subject: [PATCH 14/14] fix: give reserved command kinds a name for trace
 messages

Reading a reserved command byte with debug tracing passed a null pointer
for a %s conversion, which is undefined behaviour.
---
 src/command.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/command.c b/src/command.c
index 20b2b54..d9128d1 100644
--- a/src/command.c
+++ b/src/command.c
@@ -30,6 +30,7 @@ struct rs_op_kind_name const rs_op_kind_names[] = {
     {"LITERAL", RS_KIND_LITERAL},
     {"SIGNATURE", RS_KIND_SIGNATURE},
     {"CHECKSUM", RS_KIND_CHECKSUM},
+    {"RESERVED", RS_KIND_RESERVED},
     {"INVALID", RS_KIND_INVALID},
     {NULL, 0}
 };
-- 
2.43.0

