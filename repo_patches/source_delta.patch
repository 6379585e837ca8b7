From 93a6e875e550123e9db9b41c05d2d78cd73a42fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 01/85] fix: deleting metadata corrupts the entries and parts
 behind it

bpak_del_meta zeroed the old location of a moved entry after moving it, which
wiped the entry's own data whenever it was larger than the deleted one, and
with a full metadata table it cleared the first part header.
---
 lib/bpak.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index ddf7625..08d2bb3 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -80,30 +80,35 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 BPAK_EXPORT void bpak_del_meta(struct bpak_header *hdr,
                                struct bpak_meta_header *meta)
 {
-    struct bpak_meta_header *next_meta = meta + 1;
+    struct bpak_meta_header *last_meta = &(hdr->meta[BPAK_MAX_META - 1]);
+    struct bpak_meta_header *next_meta;
     uint16_t offset_adjust = meta->size;
+    size_t data_end = meta->offset;
+    size_t old_data_end = meta->offset + meta->size;
 
     offset_adjust = BPAK_META_ALIGN_SIZE(offset_adjust);
 
-    while(meta != &(hdr->meta[BPAK_MAX_META - 1])) {
-        if (next_meta->id != 0) {
-            memmove(&(hdr->metadata[next_meta->offset - offset_adjust]),
-                    &(hdr->metadata[next_meta->offset]),
-                    next_meta->size);
-            memset(&(hdr->metadata[next_meta->offset]), 0, next_meta->size);
+    while (meta != last_meta && (meta + 1)->id != 0) {
+        next_meta = meta + 1;
+        old_data_end = next_meta->offset + next_meta->size;
 
-            next_meta->offset -= offset_adjust;
-        }
-
-        memcpy(meta, next_meta, sizeof(*meta));
+        memmove(&(hdr->metadata[next_meta->offset - offset_adjust]),
+                &(hdr->metadata[next_meta->offset]),
+                next_meta->size);
 
-        if (!meta->id)
-            break;
+        next_meta->offset -= offset_adjust;
+        data_end = next_meta->offset + next_meta->size;
 
-        meta = next_meta++;
+        memcpy(meta, next_meta, sizeof(*meta));
+        meta = next_meta;
     }
 
-    memset(next_meta, 0, sizeof(*next_meta));
+    /* Clear the part of the metadata area that is no longer in use and the
+     * header that was vacated at the end of the table */
+    if (old_data_end > data_end)
+        memset(&(hdr->metadata[data_end]), 0, old_data_end - data_end);
+
+    memset(meta, 0, sizeof(*meta));
 }
 
 BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
-- 
2.43.0


From b21571e4a72cf88d1f4aec9400bc39c9da617a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 02/85] fix: a refused metadata entry must not stay in the
 header

bpak_add_meta filled in the table slot before finding out that the metadata
area has no room, leaving an entry that points outside of it.
---
 lib/bpak.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index 08d2bb3..b1551d0 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -56,12 +56,13 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 
     bpak_foreach_meta (hdr, m) {
         if (!m->id) {
+            if ((new_offset + size) > BPAK_METADATA_BYTES)
+                return -BPAK_NO_SPACE_LEFT;
+
             m->id = id;
             m->offset = new_offset;
             m->size = size;
             m->part_id_ref = part_ref_id;
-            if ((m->offset + m->size) > BPAK_METADATA_BYTES)
-                return -BPAK_NO_SPACE_LEFT;
 
             *meta = m;
             return BPAK_OK;
-- 
2.43.0


From 43fc592b45fafcd8945d66dca54f909cd5c6aeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 03/85] fix: opening a file too short for a header must not
 overwrite it

---
 lib/pkg.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 2f11cc2..8a9948c 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -46,8 +46,15 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
     size_t read_bytes = fread(&pkg->header, 1, sizeof(pkg->header), pkg->fp);
 
+    /* A file that has some content, but not enough for a header, is not a
+     * package and must be left alone */
+    if (read_bytes != 0 && read_bytes != sizeof(pkg->header)) {
+        rc = -BPAK_SIZE_ERROR;
+        goto err_close_io;
+    }
+
     /* Initialize and write BPAK header when new files are created */
-    if (read_bytes != sizeof(pkg->header)) {
+    if (read_bytes == 0) {
         rc = bpak_init_header(&pkg->header);
         if (rc != BPAK_OK) {
             goto err_close_io;
-- 
2.43.0


From 45cc57b6db1a2abb443c042eacad70fe0512453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 04/85] fix: the size of a package includes the padding of its
 parts

---
 lib/pkg.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 8a9948c..307770f 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -163,10 +163,7 @@ BPAK_EXPORT size_t bpak_pkg_size(struct bpak_package *pkg)
     size_t transport_size = 0;
 
     bpak_foreach_part (&pkg->header, p) {
-        if (p->flags & BPAK_FLAG_TRANSPORT)
-            transport_size += p->transport_size;
-        else
-            transport_size += p->size;
+        transport_size += bpak_part_size(p);
     }
 
     transport_size += sizeof(struct bpak_header);
-- 
2.43.0


From fef45b73601497e9b548634127ed9ca6fcac3c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 05/85] fix: extracting a transport coded part must not cut it
 short

---
 lib/pkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 307770f..b3f232a 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -449,7 +449,7 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
     }
 
     char copy_buffer[BPAK_CHUNK_BUFFER_LENGTH];
-    size_t bytes_to_copy = bpak_part_size(part) - part->pad_bytes;
+    size_t bytes_to_copy = bpak_part_size_wo_pad(part);
     size_t chunk_to_write = 0;
     size_t chunk_read = 0;
 
-- 
2.43.0


From 9df163e810f3cb2daf4429eacffde206bb2d1590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 06/85] fix: pad key parts with zeroes instead of stack
 contents

---
 lib/pkg_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 38f132e..e7d8718 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -341,8 +341,8 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     }
 
     /* Write zero padding */
-    uint8_t zero = 0;
-    if (fwrite(&zero, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
+    uint8_t zeroes[BPAK_PART_ALIGN] = { 0 };
+    if (fwrite(zeroes, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
         rc = -BPAK_WRITE_ERROR;
         goto err_free_key_out;
     }
-- 
2.43.0


From 8237ad64e255a79f0e07fc09dcecb14c7fdb8594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 07/85] fix: deleting a transport coded part shifts the decoded
 offsets correctly

---
 lib/pkg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index b3f232a..72628b0 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -489,6 +489,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     int rc = BPAK_OK;
     uint64_t p_offset;
     size_t p_size;
+    uint64_t p_decoded_size;
     struct bpak_header *h = bpak_pkg_header(pkg);
     struct bpak_part_header *part = NULL;
 
@@ -502,6 +503,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
     p_offset = bpak_part_offset(h, part);
     p_size = bpak_part_size(part);
+    p_decoded_size = part->size + part->pad_bytes;
 
     bpak_del_part(h, part);
     uint64_t bytes_to_process = 0;
@@ -511,7 +513,8 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
         if (!part->id)
             break;
 
-        part->offset -= p_size;
+        /* 'offset' is the position in the decoded stream */
+        part->offset -= p_decoded_size;
         bytes_to_process += bpak_part_size(part);
     }
 
-- 
2.43.0


From ba05992a2ee3f36523741a006173875dd7b84175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 08/85] fix: deleting a part hangs when data follows the last
 part or the file is short

---
 lib/pkg.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 72628b0..9e8b88c 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -545,15 +545,11 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
         size_t chunk_length =
             BPAK_MIN(bytes_to_process, sizeof(copy_buffer));
-        size_t chunk_read = fread(copy_buffer, 1, BPAK_CHUNK_BUFFER_LENGTH, pkg->fp);
+        size_t chunk_read = fread(copy_buffer, 1, chunk_length, pkg->fp);
 
         if (chunk_read != chunk_length) {
-            rc = ferror(pkg->fp);
-            if (rc != 0) {
-                bpak_printf(0, "%s: Error: Couldn't read file: %d\n",
-                            __func__, rc);
-                return -BPAK_READ_ERROR;
-            }
+            bpak_printf(0, "%s: Error: Couldn't read file\n", __func__);
+            return -BPAK_READ_ERROR;
         }
 
         if (fseek(pkg->fp, write_offset, SEEK_SET) != 0 ||
-- 
2.43.0


From 6c9f81398dde8ffb0e8744387eb02c2f9a634e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 09/85] fix: parts added behind a transport coded part are
 written where they are read

---
 lib/pkg_create.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index e7d8718..a33e202 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -48,6 +48,7 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     uint8_t block_buf[BPAK_CHUNK_BUFFER_LENGTH];
     size_t chunk_sz;
     uint64_t new_offset = sizeof(*h);
+    uint64_t data_offset = sizeof(*h);
 
     if (stat(filename, &statbuf) != 0) {
         bpak_printf(0, "Error: Can't open file '%s'\n", filename);
@@ -121,6 +122,7 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
 
     bpak_foreach_part (h, p) {
         new_offset += (p->size + p->pad_bytes);
+        data_offset += bpak_part_size(p);
     }
 
     /* Add salt */
@@ -168,7 +170,7 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     p->pad_bytes =
         0; /* Merkle tree is multiples of 4kByte, no padding needed */
 
-    rc = fseek(pkg->fp, new_offset, SEEK_SET);
+    rc = fseek(pkg->fp, data_offset, SEEK_SET);
 
     if (rc != BPAK_OK) {
         bpak_printf(0, "Could not seek to new pos\n");
@@ -206,6 +208,7 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     struct bpak_part_header *p = NULL;
     struct stat statbuf;
     uint64_t new_offset = sizeof(struct bpak_header);
+    uint64_t data_offset = sizeof(struct bpak_header);
     char chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
 
     if (stat(filename, &statbuf) != 0) {
@@ -219,6 +222,7 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
 
     bpak_foreach_part (h, p) {
         new_offset += (p->size + p->pad_bytes);
+        data_offset += bpak_part_size(p);
     }
 
     rc = bpak_add_part(h, bpak_id(part_name), &p);
@@ -238,7 +242,7 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     else
         p->pad_bytes = 0;
 
-    rc = fseek(pkg->fp, new_offset, SEEK_SET);
+    rc = fseek(pkg->fp, data_offset, SEEK_SET);
 
     if (rc != 0) {
         bpak_printf(0, "Error: Could not seek to new pos\n");
@@ -298,6 +302,7 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     struct bpak_header *h = bpak_pkg_header(pkg);
     struct bpak_part_header *p = NULL;
     uint64_t new_offset = sizeof(struct bpak_header);
+    uint64_t data_offset = sizeof(struct bpak_header);
 
     rc = bpak_crypto_load_public_key(filename, &key);
 
@@ -307,6 +312,7 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     /* Write header */
     bpak_foreach_part (h, p) {
         new_offset += (p->size + p->pad_bytes);
+        data_offset += bpak_part_size(p);
     }
 
     rc = bpak_add_part(h, bpak_id(part_name), &p);
@@ -326,7 +332,7 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     else
         p->pad_bytes = 0;
 
-    rc = fseek(pkg->fp, new_offset, SEEK_SET);
+    rc = fseek(pkg->fp, data_offset, SEEK_SET);
 
     if (rc != 0) {
         bpak_printf(0, "Could not seek to new pos\n");
-- 
2.43.0


From e6ff07e7677d5d8a2fc260b296388d9dc2faeef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 10/85] fix: a failed add must leave the package as it was

---
 lib/pkg_create.c | 89 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 75 insertions(+), 14 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index a33e202..97379c5 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -21,6 +21,25 @@
 #include <bpak/crc.h>
 #include <bpak/crypto.h>
 
+/* Bring the package back to what it was before a part was added to it */
+static void undo_add(struct bpak_package *pkg, const struct bpak_header *header,
+                     long file_size)
+{
+    memcpy(&pkg->header, header, sizeof(*header));
+
+    if (bpak_pkg_write_header(pkg) != BPAK_OK || fflush(pkg->fp) != 0 ||
+        ftruncate(fileno(pkg->fp), file_size) != 0)
+        bpak_printf(0, "Error: Could not restore package\n");
+}
+
+static long file_size(FILE *fp)
+{
+    if (fseek(fp, 0, SEEK_END) != 0)
+        return -1;
+
+    return ftell(fp);
+}
+
 #if BPAK_CONFIG_MERKLE == 1
 static ssize_t merkle_wr(off_t offset, uint8_t *buf, size_t size, void *priv)
 {
@@ -49,22 +68,31 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     size_t chunk_sz;
     uint64_t new_offset = sizeof(*h);
     uint64_t data_offset = sizeof(*h);
+    struct bpak_header old_header;
+    long old_size;
 
     if (stat(filename, &statbuf) != 0) {
         bpak_printf(0, "Error: Can't open file '%s'\n", filename);
         return -BPAK_FILE_NOT_FOUND;
     }
 
-    rc = bpak_pkg_add_file(pkg, filename, part_name, flags);
-
-    if (rc != 0)
-        return rc;
-
     ssize_t merkle_sz = bpak_merkle_compute_size(statbuf.st_size);
 
     if (merkle_sz < 0)
         return merkle_sz;
 
+    old_size = file_size(pkg->fp);
+
+    if (old_size < 0)
+        return -BPAK_SEEK_ERROR;
+
+    memcpy(&old_header, h, sizeof(old_header));
+
+    rc = bpak_pkg_add_file(pkg, filename, part_name, flags);
+
+    if (rc != 0)
+        return rc;
+
     char *merkle_buf = bpak_calloc(merkle_sz, 1);
 
     memset(merkle_buf, 0, merkle_sz);
@@ -91,6 +119,9 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
                           true,
                           merkle_buf);
 
+    if (rc != BPAK_OK)
+        goto err_free_buf_out;
+
     FILE *fp = fopen(filename, "rb");
 
     if (fp == NULL) {
@@ -194,6 +225,8 @@ err_close_fp_out:
     fclose(fp);
 err_free_buf_out:
     bpak_free(merkle_buf);
+    if (rc != BPAK_OK)
+        undo_add(pkg, &old_header, old_size);
     return rc;
 }
 
@@ -217,6 +250,13 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     }
 
     FILE *in_fp = NULL;
+    struct bpak_header old_header;
+    long old_size = file_size(pkg->fp);
+
+    if (old_size < 0)
+        return -BPAK_SEEK_ERROR;
+
+    memcpy(&old_header, h, sizeof(old_header));
 
     bpak_printf(1, "Adding %s <%s>\n", part_name, filename);
 
@@ -246,7 +286,8 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
 
     if (rc != 0) {
         bpak_printf(0, "Error: Could not seek to new pos\n");
-        return -BPAK_SEEK_ERROR;
+        rc = -BPAK_SEEK_ERROR;
+        goto err_undo;
     }
 
     uint64_t bytes_to_write = p->size;
@@ -255,11 +296,17 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
 
     if (!in_fp) {
         bpak_printf(0, "Could not open input file: %s\n", filename);
-        return -BPAK_FILE_NOT_FOUND;
+        rc = -BPAK_FILE_NOT_FOUND;
+        goto err_undo;
     }
 
     while (bytes_to_write) {
-        size_t read_bytes = fread(chunk_buffer, 1, sizeof(chunk_buffer), in_fp);
+        size_t chunk_length = BPAK_MIN(bytes_to_write, sizeof(chunk_buffer));
+        size_t read_bytes = fread(chunk_buffer, 1, chunk_length, in_fp);
+        if (read_bytes != chunk_length) {
+            rc = -BPAK_READ_ERROR;
+            break;
+        }
         if (fwrite(chunk_buffer, 1, read_bytes, pkg->fp) != read_bytes) {
             rc = -BPAK_WRITE_ERROR;
             break;
@@ -291,6 +338,9 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
 
 err_close_fp:
     fclose(in_fp);
+err_undo:
+    if (rc != BPAK_OK)
+        undo_add(pkg, &old_header, old_size);
     return rc;
 }
 
@@ -303,12 +353,23 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     struct bpak_part_header *p = NULL;
     uint64_t new_offset = sizeof(struct bpak_header);
     uint64_t data_offset = sizeof(struct bpak_header);
+    struct bpak_header old_header;
+    long old_size;
 
     rc = bpak_crypto_load_public_key(filename, &key);
 
     if (rc != BPAK_OK)
         return rc;
 
+    old_size = file_size(pkg->fp);
+
+    if (old_size < 0) {
+        rc = -BPAK_SEEK_ERROR;
+        goto err_free_key_out;
+    }
+
+    memcpy(&old_header, h, sizeof(old_header));
+
     /* Write header */
     bpak_foreach_part (h, p) {
         new_offset += (p->size + p->pad_bytes);
@@ -337,34 +398,34 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     if (rc != 0) {
         bpak_printf(0, "Could not seek to new pos\n");
         rc = -BPAK_SEEK_ERROR;
-        goto err_free_key_out;
+        goto err_undo;
     }
 
     /* Write key data */
     if (fwrite(key->data, 1, key->size, pkg->fp) != key->size) {
         rc = -BPAK_WRITE_ERROR;
-        goto err_free_key_out;
+        goto err_undo;
     }
 
     /* Write zero padding */
     uint8_t zeroes[BPAK_PART_ALIGN] = { 0 };
     if (fwrite(zeroes, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
         rc = -BPAK_WRITE_ERROR;
-        goto err_free_key_out;
+        goto err_undo;
     }
 
     rc = bpak_pkg_update_hash(pkg, NULL, NULL);
 
     if (rc != BPAK_OK) {
         bpak_printf(0, "Error: Could not update payload hash\n");
-        goto err_free_key_out;
+        goto err_undo;
     }
 
     rc = bpak_pkg_write_header(pkg);
 
+err_undo:
     if (rc != BPAK_OK)
-        goto err_free_key_out;
-
+        undo_add(pkg, &old_header, old_size);
 err_free_key_out:
     free(key);
     return rc;
-- 
2.43.0


From a6219bc558266172061b0d59dd7259cae5a07344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 11/85] fix: refuse a raw signature that does not fit in the
 header

---
 lib/pkg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 9e8b88c..28350f1 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -197,6 +197,9 @@ BPAK_EXPORT int bpak_pkg_write_raw_signature(struct bpak_package *pkg,
                                              const uint8_t *signature,
                                              size_t size)
 {
+    if (size > sizeof(pkg->header.signature))
+        return -BPAK_SIZE_ERROR;
+
     memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
     memcpy(pkg->header.signature, signature, size);
     pkg->header.signature_sz = size;
-- 
2.43.0


From 3f9164e28002eaeb6ec990a31c4e86600baddcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 12/85] fix: report a failed header hash computation

---
 lib/verify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/verify.c b/lib/verify.c
index 8be98db..f20f60f 100644
--- a/lib/verify.c
+++ b/lib/verify.c
@@ -55,7 +55,7 @@ BPAK_EXPORT int bpak_verify_compute_header_hash(struct bpak_header *header,
 
 err_free_hash_ctx_out:
     bpak_hash_free(&hash_ctx);
-    return BPAK_OK;
+    return rc;
 }
 
 BPAK_EXPORT int bpak_verify_compute_payload_hash(struct bpak_header *header,
-- 
2.43.0


From a5fb948321c2b9ffc8ec8cc7c38aaed7d7c54df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 13/85] fix: hash trees of four levels are refused by the tree
 writer

---
 lib/merkle.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/merkle.c b/lib/merkle.c
index 6fe9efe..aea48d6 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -69,16 +69,15 @@ BPAK_EXPORT int bpak_merkle_init(struct bpak_merkle_context *ctx,
     /* Compute the length of each level and the total length of the hash tree */
     level_length = input_data_length;
     do {
+        if (level >= BPAK_MERKLE_MAX_LEVELS)
+            return -BPAK_NO_SPACE_LEFT;
+
         level_length = (level_length >> BPAK_MERKLE_BLOCK_BITS) * 32;
         pad_bytes = (~level_length + 1) & (BPAK_MERKLE_BLOCK_SZ - 1);
         level_length += pad_bytes;
         ctx->level_length[level] = level_length;
         ctx->hash_tree_length += level_length;
         level = level + 1;
-
-        if (level >= BPAK_MERKLE_MAX_LEVELS)
-            return -BPAK_NO_SPACE_LEFT;
-
     } while (level_length != BPAK_MERKLE_BLOCK_SZ);
 
     ctx->no_of_levels = level;
-- 
2.43.0


From b89149a16c6c4e9bb93be338355ef6d36c69162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 14/85] fix: refuse patches with negative lengths

---
 lib/bspatch.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 6389961..cdf5894 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -89,6 +89,13 @@ process_more:
                     ctx->adjust,
                     bytes_available);
 
+        if ((ctx->diff_count < 0) || (ctx->extra_count < 0)) {
+            bpak_printf(0, "Error: Negative length in patch\n");
+            ctx->state = BPAK_PATCH_STATE_ERROR;
+            rc = -BPAK_SIZE_ERROR;
+            break;
+        }
+
         ctx->state = BPAK_PATCH_STATE_APPLY_DIFF;
 
         if (bytes_available)
-- 
2.43.0


From 8cf768f41e6ecf117478df55992f195945f5c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 15/85] fix: a patch must not read in front of the origin

---
 lib/bspatch.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index cdf5894..ff64a96 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -109,11 +109,14 @@ process_more:
         ctx->diff_count -= data_to_process;
         bytes_available -= data_to_process;
 
-        ssize_t nread =
-            ctx->read_origin(ctx->origin_offset + ctx->origin_position,
-                             ctx->patch_buffer,
-                             data_to_process,
-                             ctx->user_priv);
+        ssize_t nread = 0;
+
+        if ((data_to_process > 0) && (ctx->origin_position >= 0)) {
+            nread = ctx->read_origin(ctx->origin_offset + ctx->origin_position,
+                                     ctx->patch_buffer,
+                                     data_to_process,
+                                     ctx->user_priv);
+        }
 
         if (nread != data_to_process) {
             bpak_printf(0,
-- 
2.43.0


From 182ec16e84e9d4b7c934180fa3e3a5c79879f263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 16/85] fix: an incomplete patch is reported as applied, and
 the result depends on how it is cut into chunks

---
 lib/bspatch.c | 52 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index ff64a96..3fd06b6 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -316,8 +316,6 @@ static int bspatch_lzma_write(struct bpak_bspatch_context *ctx, uint8_t *buffer,
         }
     }
 
-    ctx->input_position += length;
-
     return BPAK_OK;
 }
 #endif
@@ -334,13 +332,6 @@ static int bspatch_hs_write(struct bpak_bspatch_context *ctx, uint8_t *buffer,
     HSD_finish_res fres = 0;
     heatshrink_decoder *hsd = &ctx->decompressor.hsd;
 
-    if (ctx->input_position >= ctx->input_length) {
-        bpak_printf(0,
-                    "Error: Tried to write %lu extra bytes, ignoring\n",
-                    length);
-        return -1;
-    }
-
     do {
         sres = heatshrink_decoder_sink(hsd,
                                        &buffer[sunk],
@@ -351,7 +342,6 @@ static int bspatch_hs_write(struct bpak_bspatch_context *ctx, uint8_t *buffer,
             return -BPAK_DECOMPRESSOR_ERROR;
 
         sunk += sink_sz;
-        ctx->input_position += sink_sz;
 
         do {
 poll_more:
@@ -372,7 +362,8 @@ poll_more:
 
         } while (pres == HSDR_POLL_MORE);
 
-        if (ctx->input_position == ctx->input_length) {
+        /* No more input after this chunk */
+        if ((sunk == length) && (ctx->input_position == ctx->input_length)) {
             fres = heatshrink_decoder_finish(hsd);
 
             if (fres == HSDR_FINISH_MORE)
@@ -426,24 +417,44 @@ BPAK_EXPORT int bpak_bspatch_write(struct bpak_bspatch_context *ctx,
                                    uint8_t *buffer, size_t length)
 {
     int rc;
+
+    if (ctx->state == BPAK_PATCH_STATE_ERROR)
+        return -BPAK_FAILED;
+
+    if (length == 0)
+        return BPAK_OK;
+
+    if (length > ctx->input_length - ctx->input_position) {
+        bpak_printf(0,
+                    "Error: Tried to write %zu bytes, %zu left\n",
+                    length,
+                    ctx->input_length - ctx->input_position);
+        ctx->state = BPAK_PATCH_STATE_ERROR;
+        return -BPAK_SIZE_ERROR;
+    }
+
+    ctx->input_position += length;
+
     switch (ctx->compression) {
     case BPAK_COMPRESSION_NONE:
         rc = bspatch_write(ctx, buffer, length);
-        return rc;
         break;
     case BPAK_COMPRESSION_HS:
-        return bspatch_hs_write(ctx, buffer, length);
+        rc = bspatch_hs_write(ctx, buffer, length);
         break;
 #if BPAK_CONFIG_LZMA == 1
     case BPAK_COMPRESSION_LZMA:
-        return bspatch_lzma_write(ctx, buffer, length);
+        rc = bspatch_lzma_write(ctx, buffer, length);
         break;
 #endif
     default:
-        return -BPAK_NOT_SUPPORTED;
+        rc = -BPAK_NOT_SUPPORTED;
     }
 
-    return BPAK_OK;
+    if (rc != BPAK_OK)
+        ctx->state = BPAK_PATCH_STATE_ERROR;
+
+    return rc;
 }
 
 BPAK_EXPORT ssize_t bpak_bspatch_final(struct bpak_bspatch_context *ctx)
@@ -469,6 +480,15 @@ BPAK_EXPORT ssize_t bpak_bspatch_final(struct bpak_bspatch_context *ctx)
         return -BPAK_NOT_SUPPORTED;
     }
 
+    /* All of the patch must be there, and the last block must be complete */
+    if ((ctx->input_position != ctx->input_length) ||
+        (ctx->ctrl_buf_count % BPAK_BSPATCH_CTRL_BUFFER_LENGTH != 0) ||
+        (ctx->diff_count != 0) || (ctx->extra_count != 0)) {
+        bpak_printf(0, "Error: Patch data is incomplete\n");
+        ctx->state = BPAK_PATCH_STATE_ERROR;
+        return -BPAK_SIZE_ERROR;
+    }
+
     return ctx->output_position;
 }
 
-- 
2.43.0


From f17b2ad77867a6c72a07184c1c20eb4c39c1c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 17/85] fix: patching with an empty work buffer never ends

---
 lib/bspatch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 3fd06b6..dc01da0 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -388,7 +388,7 @@ BPAK_EXPORT int bpak_bspatch_init(struct bpak_bspatch_context *ctx,
 
     memset(ctx, 0, sizeof(*ctx));
 
-    if (buffer_length % 2 != 0)
+    if ((buffer_length == 0) || (buffer_length % 2 != 0))
         return -BPAK_SIZE_ERROR;
 
     ctx->patch_buffer = &buffer[0];
-- 
2.43.0


From 3e5c66ca9383c808e81535df60545e887ba2e638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 18/85] fix: an origin of another package identity is accepted
 by the decoder

---
 lib/transport_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 935cf40..6677878 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -184,7 +184,7 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
     if (rc != BPAK_OK)
         return rc;
 
-    patch_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+    patch_package_uuid = bpak_get_meta_ptr(ctx->patch_header, meta, uint8_t);
 
     if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
         return -BPAK_PACKAGE_UUID_MISMATCH;
-- 
2.43.0


From eea097f8a01c8591b1908284f5ea51c7170d415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 19/85] fix: encoding crashes when the package identity is
 missing

---
 lib/transport_encode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index b7dfbb4..cc9c4fa 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -368,21 +368,21 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
                            0,
                            &meta);
 
-        origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
-
         if (rc != BPAK_OK)
             return rc;
 
+        origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+
         rc = bpak_get_meta(input_header,
                            BPAK_ID_BPAK_PACKAGE,
                            0,
                            &meta);
 
-        patch_package_uuid = bpak_get_meta_ptr(input_header, meta, uint8_t);
-
         if (rc != BPAK_OK)
             return rc;
 
+        patch_package_uuid = bpak_get_meta_ptr(input_header, meta, uint8_t);
+
         if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
             return -BPAK_PACKAGE_UUID_MISMATCH;
     }
-- 
2.43.0


From df25d7959d6223f941a43f9222576e72d0508d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 20/85] fix: encoding a package with coded parts drops their
 data

---
 lib/transport_encode.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index cc9c4fa..63fe074 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -258,9 +258,13 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
                 part_ref_id,
                 alg_id);
 
-    /* Already processed for transport ?*/
+    /* Already processed for transport, the coded data is carried as it is */
     if ((output_part->flags & BPAK_FLAG_TRANSPORT))
-        return BPAK_OK;
+        return transport_copy(input_header,
+                              output_header,
+                              part_ref_id,
+                              input_fp,
+                              output_fp);
 
     bpak_printf(1,
                 "Initializing alg, input size %li bytes\n",
-- 
2.43.0


From 441e7d53e7042ac7c8461d104e052bd0c39cce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 21/85] fix: only diffed parts need a counterpart in the origin

---
 lib/pkg.c              | 13 -------------
 lib/transport_decode.c | 11 +++++++++++
 lib/transport_encode.c | 31 +++++++++----------------------
 3 files changed, 20 insertions(+), 35 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 28350f1..ee0d8ce 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -270,7 +270,6 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
     int rc;
 
     struct bpak_header *patch_header = bpak_pkg_header(input);
-    struct bpak_part_header *origin_part = NULL;
     struct bpak_transport_decode decode_ctx;
     uint8_t chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
     uint8_t decode_buffer[BPAK_CHUNK_BUFFER_LENGTH];
@@ -328,18 +327,6 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         if (part->id == 0)
             break;
 
-        /* Compute origin and output offsets */
-        if (origin != NULL) {
-            rc = bpak_get_part(&origin->header, part->id, &origin_part);
-
-            if (rc != BPAK_OK) {
-                bpak_printf(0,
-                            "Error could not get part with ref %x\n",
-                            part->id);
-                goto err_out;
-            }
-        }
-
         rc = bpak_transport_decode_start(&decode_ctx, part);
 
         if (rc != BPAK_OK) {
diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 6677878..fed198d 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -233,6 +233,17 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
             return -BPAK_PATCH_READ_ORIGIN_ERROR;
         }
 
+        struct bpak_part_header *origin_part = NULL;
+
+        rc = bpak_get_part(ctx->origin_header, part->id, &origin_part);
+
+        if (rc != BPAK_OK) {
+            bpak_printf(0,
+                        "Error could not get part with ref %x\n",
+                        part->id);
+            return rc;
+        }
+
         size_t patch_input_length = bpak_part_size(part);
         bpak_printf(2, "Patch input length: %zu\n", patch_input_length);
 
diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index 63fe074..16b3755 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -241,17 +241,6 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
         return rc;
     }
 
-    if (origin_header != NULL) {
-        rc = bpak_get_part(origin_header, part_ref_id, &origin_part);
-
-        if (rc != BPAK_OK) {
-            bpak_printf(0,
-                        "Error could not get part with ref %x\n",
-                        part_ref_id);
-            return rc;
-        }
-    }
-
     alg_id = tm->alg_id_encode;
     bpak_printf(2,
                 "Encoding part 0x%x using encoder 0x%x\n",
@@ -270,17 +259,6 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
                 "Initializing alg, input size %li bytes\n",
                 bpak_part_size(input_part));
 
-    if (origin_header != NULL && origin_fp != NULL) {
-        rc = fseek(origin_fp,
-                   bpak_part_offset(origin_header, origin_part),
-                   SEEK_SET);
-
-        if (rc != 0) {
-            bpak_printf(0, "%s: Error, could not seek origin stream", __func__);
-            return rc;
-        }
-    }
-
     rc = fseek(input_fp, bpak_part_offset(input_header, input_part), SEEK_SET);
 
     if (rc != BPAK_OK) {
@@ -307,6 +285,15 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
             goto err_out;
         }
 
+        rc = bpak_get_part(origin_header, part_ref_id, &origin_part);
+
+        if (rc != BPAK_OK) {
+            bpak_printf(0,
+                        "Error could not get part with ref %x\n",
+                        part_ref_id);
+            goto err_out;
+        }
+
         enum bpak_compression compression = BPAK_COMPRESSION_NONE;
 
         if (alg_id == BPAK_ID_BSDIFF)
-- 
2.43.0


From 2827c55dc01d24bdcaac7e8ff71753029f6f31ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 22/85] fix: a part that was not copied completely is reported
 as decoded

---
 lib/transport_decode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index fed198d..de8d497 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -310,6 +310,9 @@ bpak_transport_decode_write_chunk(struct bpak_transport_decode *ctx,
     } break;
     case 0: /* Copy data */
     {
+        if (length > (size_t)(bpak_part_size(ctx->part) - ctx->copy_offset))
+            return -BPAK_SIZE_ERROR;
+
         off_t write_offset = bpak_part_offset(ctx->patch_header, ctx->part) -
                              sizeof(struct bpak_header) + ctx->output_offset +
                              ctx->copy_offset;
@@ -350,7 +353,7 @@ BPAK_EXPORT int bpak_transport_decode_finish(struct bpak_transport_decode *ctx)
         break;
 #endif
     case 0: /* Copy data */
-        output_length = bpak_part_size(ctx->part);
+        output_length = ctx->copy_offset;
         break;
     default:
         return -BPAK_NOT_SUPPORTED;
-- 
2.43.0


From 0f2f0fa7dacbb97b447611f2d34112491d3bbcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 23/85] fix: a regenerated hash tree must not be written
 outside its part

---
 lib/transport_decode.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index de8d497..124fb85 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -60,6 +60,13 @@ static ssize_t merkle_generate(struct bpak_transport_decode *ctx)
         return rc;
     }
 
+    /* The tree is written to the output of this part and must fit exactly */
+    if (bpak_merkle_compute_size(bpak_part_size(fs_part)) !=
+        (ssize_t)(ctx->part->size + ctx->part->pad_bytes)) {
+        bpak_printf(0, "Error: Hash tree does not fit its part\n");
+        return -BPAK_SIZE_ERROR;
+    }
+
     off_t output_offset = bpak_part_offset(ctx->patch_header, ctx->part) -
                           sizeof(struct bpak_header) + ctx->output_offset;
 
-- 
2.43.0


From bed00c68333503e4de406929780defe82743234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 24/85] fix: a regenerated hash tree is accepted whatever its
 root hash

---
 lib/transport_decode.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 124fb85..753f1d3 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -132,7 +132,19 @@ static ssize_t merkle_generate(struct bpak_transport_decode *ctx)
         return rc;
     }
 
-    // TODO: Check roothash?
+    /* The tree must be the one the header speaks of */
+    if (bpak_get_meta(ctx->patch_header,
+                      BPAK_ID_MERKLE_ROOT_HASH,
+                      fs_id,
+                      &meta) == BPAK_OK) {
+        if (memcmp(bpak_get_meta_ptr(ctx->patch_header, meta, uint8_t),
+                   roothash,
+                   sizeof(roothash)) != 0) {
+            bpak_printf(0, "Error: Root hash of part 0x%x differs\n", fs_id);
+            return -BPAK_BAD_ROOT_HASH;
+        }
+    }
+
     return bpak_merkle_get_size(&ctx->decoders.merkle);
 }
 
-- 
2.43.0


From 63efe1bd136c1442cf72847762322e90a61323a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 25/85] fix: a patch must stay within its part and the origin
 of its part

---
 lib/transport_decode.c | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 753f1d3..bbce7cd 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -150,6 +150,40 @@ static ssize_t merkle_generate(struct bpak_transport_decode *ctx)
 
 #endif // BPAK_CONFIG_MERKLE
 
+/* A patch may only read the origin of its part, and only write its part */
+static ssize_t patch_read_origin(off_t offset, uint8_t *buffer, size_t length,
+                                 void *user)
+{
+    struct bpak_transport_decode *ctx = (struct bpak_transport_decode *)user;
+    struct bpak_part_header *origin_part = NULL;
+
+    if (bpak_get_part(ctx->origin_header, ctx->part->id, &origin_part) != BPAK_OK)
+        return -BPAK_PATCH_READ_ORIGIN_ERROR;
+
+    off_t begin = bpak_part_offset(ctx->origin_header, origin_part) -
+                  sizeof(struct bpak_header) + ctx->origin_offset;
+    off_t end = begin + bpak_part_size(origin_part);
+
+    if ((offset < begin) || (offset > end) || (length > (size_t)(end - offset)))
+        return -BPAK_PATCH_READ_ORIGIN_ERROR;
+
+    return ctx->read_origin(offset, buffer, length, ctx->user);
+}
+
+static ssize_t patch_write_output(off_t offset, uint8_t *buffer, size_t length,
+                                  void *user)
+{
+    struct bpak_transport_decode *ctx = (struct bpak_transport_decode *)user;
+    off_t begin = bpak_part_offset(ctx->patch_header, ctx->part) -
+                  sizeof(struct bpak_header) + ctx->output_offset;
+    off_t end = begin + ctx->part->size + ctx->part->pad_bytes;
+
+    if ((offset < begin) || (offset > end) || (length > (size_t)(end - offset)))
+        return -BPAK_PATCH_WRITE_ERROR;
+
+    return ctx->write_output(offset, buffer, length, ctx->user);
+}
+
 BPAK_EXPORT int bpak_transport_decode_init(
     struct bpak_transport_decode *ctx, uint8_t *buffer, size_t buffer_length,
     struct bpak_header *patch_header, bpak_io_t write_output,
@@ -288,12 +322,12 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
                                ctx->buffer,
                                ctx->buffer_length,
                                patch_input_length,
-                               ctx->read_origin,
+                               patch_read_origin,
                                origin_offset,
-                               ctx->write_output,
+                               patch_write_output,
                                output_offset,
                                compression,
-                               ctx->user);
+                               ctx);
 
     } break;
 #if BPAK_CONFIG_MERKLE == 1
-- 
2.43.0


From 5edccb3adeb1c5928aedbf0e2da90523ce910f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 26/85] fix: diffing reads behind the suffix array and refuses
 an empty origin

---
 lib/bsdiff.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/bsdiff.c b/lib/bsdiff.c
index e1b9fa8..6a030d5 100644
--- a/lib/bsdiff.c
+++ b/lib/bsdiff.c
@@ -625,7 +625,8 @@ BPAK_EXPORT int bpak_bsdiff_init(struct bpak_bsdiff_context *ctx,
     if (rc != BPAK_OK)
         return rc;
 
-    ctx->suffix_array = bpak_calloc(origin_length, sizeof(int64_t));
+    /* One more than there are suffixes, the last one is the empty suffix */
+    ctx->suffix_array = bpak_calloc(origin_length + 1, sizeof(int64_t));
 
     if (!ctx->suffix_array) {
         rc = -BPAK_FAILED;
@@ -638,7 +639,12 @@ BPAK_EXPORT int bpak_bsdiff_init(struct bpak_bsdiff_context *ctx,
                 ctx->suffix_array,
                 origin_length);
 
-    rc = sais(ctx->origin_data, ctx->suffix_array, origin_length);
+    ctx->suffix_array[origin_length] = origin_length;
+
+    if (origin_length > 0)
+        rc = sais(ctx->origin_data, ctx->suffix_array, origin_length);
+    else
+        rc = 0;
 
     if (rc != 0) {
         bpak_printf(0, "SAIS computation failed (%i)\n", rc);
-- 
2.43.0


From f2bb8601e78f43e58793e55951f75c08862988a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 27/85] fix: encoding crashes on a package that is cut short

---
 lib/transport_encode.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index 16b3755..d9f0c5f 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -142,6 +142,10 @@ static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
     if (target_file_sz == -1)
         return -BPAK_SEEK_ERROR;
 
+    if ((target_offset > target_file_sz) ||
+        (target_length > (size_t)(target_file_sz - target_offset)))
+        return -BPAK_READ_ERROR;
+
     target_data_mmap =
         mmap(NULL, target_file_sz, PROT_READ, MAP_SHARED, target_fd, 0);
 
@@ -167,6 +171,12 @@ static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
         goto err_munmap_target;
     }
 
+    if ((origin_offset > origin_file_sz) ||
+        (origin_length > (size_t)(origin_file_sz - origin_offset))) {
+        rc = -BPAK_READ_ERROR;
+        goto err_munmap_target;
+    }
+
     origin_data_mmap =
         mmap(NULL, origin_file_sz, PROT_READ, MAP_SHARED, origin_fd, 0);
 
-- 
2.43.0


From 53be279f9df49209e21a41ccfb64f44ae958c91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 28/85] fix: keys of more than 512 bytes overflow the key
 buffer when loaded from a keystore

---
 lib/keystore_load_from_file.c | 12 +++++++++++-
 lib/mbedtls_wrapper.c         |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/keystore_load_from_file.c b/lib/keystore_load_from_file.c
index 87e07db..5dfad74 100644
--- a/lib/keystore_load_from_file.c
+++ b/lib/keystore_load_from_file.c
@@ -22,7 +22,7 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
                                                  struct bpak_key **output)
 {
     int rc;
-    uint8_t key_buffer[512];
+    uint8_t key_buffer[1024];
     struct bpak_package pkg;
     struct bpak_part_header *key_part = NULL;
     struct bpak_meta_header *meta = NULL;
@@ -47,6 +47,11 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
     if (rc != BPAK_OK)
         goto err_close_pkg_out;
 
+    if (meta->size < sizeof(bpak_id_t)) {
+        rc = -BPAK_SIZE_ERROR;
+        goto err_close_pkg_out;
+    }
+
     keystore_provider_id = bpak_get_meta_ptr(&pkg.header, meta, bpak_id_t);
 
     if (*keystore_provider_id != keystore_id) {
@@ -61,6 +66,11 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
 
     key_length = bpak_part_size_wo_pad(key_part);
 
+    if (key_length > sizeof(key_buffer)) {
+        rc = -BPAK_BUFFER_TOO_SMALL;
+        goto err_close_pkg_out;
+    }
+
     if (fseek(pkg.fp, bpak_part_offset(&pkg.header, key_part), SEEK_SET) != 0) {
         rc = -BPAK_SEEK_ERROR;
         goto err_close_pkg_out;
diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 905dc94..2300da6 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -435,7 +435,7 @@ int bpak_mbed_parse_public_key(const uint8_t *buffer, size_t length,
 {
     int rc = BPAK_OK;
     struct bpak_key *key = NULL;
-    uint8_t key_buffer[512];
+    uint8_t key_buffer[1024];
     enum bpak_key_kind kind;
     mbedtls_pk_context ctx;
     mbedtls_pk_init(&ctx);
-- 
2.43.0


From d15ef637121cd2e87143a7af3a112fac864e2131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 29/85] fix: converting to hex writes behind the buffer

---
 lib/utils.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index d32597e..8bd49fc 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -25,14 +25,15 @@ BPAK_EXPORT int bpak_bin2hex(uint8_t *data, size_t data_sz, char *buf,
     size_t i = data_sz;
     size_t n = 0;
 
+    /* Two digits for every byte and a terminating zero */
+    if ((buf_sz == 0) || (data_sz > (buf_sz - 1) / 2))
+        return -1;
+
     for (i = 0; i < data_sz; i++) {
         b = data[i];
         b = (b >> 4) & 0x0F;
         buf[n++] = (b > 9) ? ('a' + (b - 10)) : ('0' + b);
 
-        if (n > buf_sz)
-            return -1;
-
         b = data[i];
         b = b & 0x0F;
         buf[n++] = (b > 9) ? ('a' + (b - 10)) : ('0' + b);
-- 
2.43.0


From 40b44b83d5e34a4986c9f116098390c18ced95e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 30/85] fix: a version metadata is turned into an unterminated
 string

Also report it when a uuid or hash does not fit in the caller's buffer.
---
 lib/utils.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index 8bd49fc..dd77777 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -72,7 +72,7 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
         snprintf(buf, size, "%" PRIx32, *id_ptr);
     } else if (m->id == BPAK_ID_BPAK_PACKAGE) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_uuid_to_string(byte_ptr, buf, size);
+        return bpak_uuid_to_string(byte_ptr, buf, size);
     } else if (m->id == BPAK_ID_BPAK_TRANSPORT) {
         struct bpak_transport_meta *transport_meta =
             bpak_get_meta_ptr(h, m, struct bpak_transport_meta);
@@ -84,20 +84,23 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
                  transport_meta->alg_id_decode);
     } else if (m->id == BPAK_ID_MERKLE_SALT) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_bin2hex(byte_ptr, 32, buf, size);
+        return bpak_bin2hex(byte_ptr, 32, buf, size);
     } else if (m->id == BPAK_ID_MERKLE_ROOT_HASH) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_bin2hex(byte_ptr, 32, buf, size);
+        return bpak_bin2hex(byte_ptr, 32, buf, size);
     } else if (m->id == BPAK_ID_PB_LOAD_ADDR) {
         uint64_t *entry_addr = bpak_get_meta_ptr(h, m, uint64_t);
         snprintf(buf, size, "Entry: 0x%08" PRIX64, *entry_addr);
     } else if (m->id == BPAK_ID_BPAK_VERSION) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
 
-        if (m->size > size)
+        size_t length = strnlen((char *)byte_ptr, m->size);
+
+        if (length >= size)
             return -BPAK_SIZE_ERROR;
 
-        memcpy(buf, byte_ptr, m->size);
+        memcpy(buf, byte_ptr, length);
+        buf[length] = 0;
     } else if (m->id == BPAK_ID_KEYSTORE_PROVIDER_ID) {
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
         snprintf(buf, size, "0x%" PRIx32, *id_ptr);
-- 
2.43.0


From 71eeb2a023eca27e803a82a314b07f24b042fdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 31/85] fix: show prints no hash for 512 bit hashes and stale
 text for unprintable metadata

---
 src/show.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/show.c b/src/show.c
index 4a6b859..56cc038 100644
--- a/src/show.c
+++ b/src/show.c
@@ -37,7 +37,7 @@ int action_show(int argc, char **argv)
     bpak_id_t part_id = 0;
     bpak_id_t part_hash_id = 0;
     bpak_id_t meta_id = 0;
-    char hash_str[128];
+    char hash_str[BPAK_HASH_MAX_LENGTH * 2 + 1];
 
     struct option long_options[] = {
         { "help", no_argument, 0, 'h' },
@@ -127,7 +127,11 @@ int action_show(int argc, char **argv)
                     if (part_id != m->part_id_ref)
                         continue;
 
-                bpak_meta_to_string(h, m, string_output, sizeof(string_output));
+                if (bpak_meta_to_string(h,
+                                        m,
+                                        string_output,
+                                        sizeof(string_output)) != BPAK_OK)
+                    string_output[0] = 0;
                 if (strlen(string_output))
                     printf("%s\n", string_output);
 
@@ -209,7 +213,11 @@ int action_show(int argc, char **argv)
 
     bpak_foreach_meta (h, m) {
         if (m->id) {
-            bpak_meta_to_string(h, m, string_output, sizeof(string_output));
+            if (bpak_meta_to_string(h,
+                                    m,
+                                    string_output,
+                                    sizeof(string_output)) != BPAK_OK)
+                string_output[0] = 0;
             printf("    %8.8x   %-3u    %-20s ",
                    m->id,
                    m->size,
-- 
2.43.0


From b3e2c3ef1d44dab2123130fff5230c9b4d1ef95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 32/85] fix: compare misses size differences and fails
 depending on the last part

Entries and parts of different sizes were compared by the size in the
first file, parts found only in the second file were printed as removed,
a missing entry dereferenced a null pointer and the exit status was the
result of the last lookup.
---
 src/compare.c | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/compare.c b/src/compare.c
index b550cd3..998bcc7 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -120,7 +120,7 @@ int action_compare(int argc, char **argv)
     printf("-   : Exists in file 1 but not in file 2\n");
     printf("*   : Exists in both but data differs\n\n");
 
-    char string_output[64];
+    char string_output[128];
     struct bpak_header *h1p = &h1;
     struct bpak_header *h2p = &h2;
     struct bpak_meta_header *meta = NULL;
@@ -151,15 +151,12 @@ int action_compare(int argc, char **argv)
         rc = bpak_get_meta(h2p, m->id, m->part_id_ref, &meta);
 
         /* Missing in file 2? */
-        if (rc != BPAK_OK)
+        if (rc != BPAK_OK) {
             removed = true;
+        } else {
+            data2 = bpak_get_meta_ptr(h2p, meta, char);
 
-        data2 = bpak_get_meta_ptr(h2p, meta, char);
-
-        if (!data1 || !data2) {
-            removed = true;
-        } else if (rc == BPAK_OK) {
-            if (memcmp(data1, data2, m->size) != 0)
+            if (meta->size != m->size || memcmp(data1, data2, m->size) != 0)
                 change = true;
         }
 
@@ -173,7 +170,11 @@ int action_compare(int argc, char **argv)
             printf("=");
         }
 
-        bpak_meta_to_string(h1p, m, string_output, sizeof(string_output));
+        if (bpak_meta_to_string(h1p,
+                                m,
+                                string_output,
+                                sizeof(string_output)) != BPAK_OK)
+            string_output[0] = 0;
         printf("   %8.8x   %-3u    %-20s %s\n",
                m->id,
                m->size,
@@ -199,7 +200,11 @@ int action_compare(int argc, char **argv)
         /* Missing in file 1? */
         if (rc != BPAK_OK) {
             printf(RED_YL);
-            bpak_meta_to_string(h2p, m, string_output, sizeof(string_output));
+            if (bpak_meta_to_string(h2p,
+                                    m,
+                                    string_output,
+                                    sizeof(string_output)) != BPAK_OK)
+                string_output[0] = 0;
             printf("+   %8.8x   %-3u    %-20s %s\n",
                    m->id,
                    m->size,
@@ -239,7 +244,7 @@ int action_compare(int argc, char **argv)
                 if (rc != 0) {
                     fprintf(stderr, "Error: Seek failed\n");
                     rc = -BPAK_SEEK_ERROR;
-                    break;
+                    goto err_close_fp2_out;
                 }
 
                 rc = fseek(fp2, bpak_part_offset(h2p, p2), SEEK_SET);
@@ -247,11 +252,16 @@ int action_compare(int argc, char **argv)
                 if (rc != 0) {
                     fprintf(stderr, "Error: Seek failed\n");
                     rc = -BPAK_SEEK_ERROR;
-                    break;
+                    goto err_close_fp2_out;
                 }
 
                 size_t data_to_compare = bpak_part_size(p);
 
+                if (bpak_part_size(p2) != data_to_compare) {
+                    change = true;
+                    data_to_compare = 0;
+                }
+
                 while (data_to_compare) {
                     size_t chunk = (data_to_compare > sizeof(chunk1))
                                        ? sizeof(chunk1)
@@ -318,7 +328,7 @@ int action_compare(int argc, char **argv)
 
             if (rc != BPAK_OK) {
                 printf(RED_YL);
-                printf("-");
+                printf("+");
 
                 if (p->flags & BPAK_FLAG_EXCLUDE_FROM_HASH)
                     flags_str[0] = 'h';
@@ -347,6 +357,8 @@ int action_compare(int argc, char **argv)
         }
     }
 
+    /* The comparison is complete, differences are not an error */
+    rc = BPAK_OK;
 err_close_fp2_out:
     fclose(fp2);
 err_close_fp1_out:
-- 
2.43.0


From 150158b68f13fd2a29f6867eb98e0704b50e3dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 33/85] fix: transport uses an uninitialised origin and leaves
 the output open

Without --origin the address of an uninitialised package was passed on.
Also accept the short option -D.
---
 src/transport.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 8b1a6c2..c4789bc 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -51,7 +51,7 @@ int action_transport(int argc, char **argv)
 
     while ((opt = getopt_long(argc,
                               argv,
-                              "hvao:s:O:e:d:EGr:",
+                              "hvao:s:O:e:d:EDGr:",
                               long_options,
                               &long_index)) != -1) {
         switch (opt) {
@@ -114,6 +114,7 @@ int action_transport(int argc, char **argv)
     struct bpak_package input;
     struct bpak_package output;
     struct bpak_package origin;
+    bool output_open = false;
 
     rc = bpak_pkg_open(&input, filename, "rb+");
 
@@ -127,6 +128,7 @@ int action_transport(int argc, char **argv)
 
         if (rc != BPAK_OK) {
             fprintf(stderr, "Error: Could not open package %s\n", origin_file);
+            bpak_pkg_close(&input);
             return rc;
         }
     }
@@ -146,15 +148,19 @@ int action_transport(int argc, char **argv)
                     output_file);
             goto err_out;
         }
+
+        output_open = true;
     }
 
     if (encode_flag) {
-        rc = bpak_pkg_transport_encode(&input, &output, &origin);
+        rc = bpak_pkg_transport_encode(&input,
+                                       &output,
+                                       origin_file ? &origin : NULL);
     } else if (decode_flag) {
         rc = bpak_pkg_transport_decode(
             &input, /* Input package or 'patch' */
             &output,
-            &origin); /* Origin data to use for patch operation*/
+            origin_file ? &origin : NULL); /* Origin data to use for patch operation*/
     } else if (add_flag && encoder_alg && decoder_alg) {
         rc = bpak_add_transport_meta(&input.header,
                                      part_ref,
@@ -179,6 +185,10 @@ int action_transport(int argc, char **argv)
 err_out:
     bpak_pkg_close(&input);
 
+    if (output_open) {
+        bpak_pkg_close(&output);
+    }
+
     if (origin_file) {
         bpak_pkg_close(&origin);
     }
-- 
2.43.0


From 6dcef8468d1a0875ae9349458f96c927c8255189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:08 +0000
Subject: [PATCH 34/85] fix: metadata from files that are too large is cut
 short silently

---
 src/add.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/add.c b/src/add.c
index f920938..c648dc8 100644
--- a/src/add.c
+++ b/src/add.c
@@ -28,7 +28,8 @@ int action_add(int argc, char **argv)
     int opt;
     int long_index = 0;
     uint32_t flags = 0;
-    char metadata_input[BPAK_METADATA_BYTES] = { 0 };
+    /* One extra byte, the encoders need a terminated string */
+    char metadata_input[BPAK_METADATA_BYTES + 1] = { 0 };
     size_t metadata_input_length = 0;
     const char *filename = NULL;
     const char *part_name = NULL;
@@ -143,7 +144,7 @@ int action_add(int argc, char **argv)
 
         if (from_string) {
             metadata_input_length = strlen(from_string) + 1;
-            if (metadata_input_length > sizeof(metadata_input)) {
+            if (metadata_input_length > BPAK_METADATA_BYTES) {
                 rc = -BPAK_NO_SPACE_LEFT;
                 goto err_close_pkg_out;
             }
@@ -166,6 +167,12 @@ int action_add(int argc, char **argv)
                 rc = -BPAK_FAILED;
                 goto err_close_pkg_out;
             }
+
+            if (metadata_input_length > BPAK_METADATA_BYTES) {
+                fprintf(stderr, "Error: '%s' is too large\n", from_file);
+                rc = -BPAK_NO_SPACE_LEFT;
+                goto err_close_pkg_out;
+            }
         }
 
         if (encoder) {
-- 
2.43.0


From 22abefefbc1d09549abb6027c1a07d4b5c81e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 35/85] fix: add and sign crash when the input file or key is
 not given

---
 src/add.c  | 5 +++++
 src/sign.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/add.c b/src/add.c
index c648dc8..55954d9 100644
--- a/src/add.c
+++ b/src/add.c
@@ -123,6 +123,11 @@ int action_add(int argc, char **argv)
         return -1;
     }
 
+    if (part_name && !meta_name && !from_file) {
+        fprintf(stderr, "Error: --part requires --from-file\n");
+        return -1;
+    }
+
     struct bpak_package pkg;
 
     rc = bpak_pkg_open(&pkg, filename, "r+");
diff --git a/src/sign.c b/src/sign.c
index e09c8c9..809ec1c 100644
--- a/src/sign.c
+++ b/src/sign.c
@@ -75,6 +75,11 @@ int action_sign(int argc, char **argv)
         return -1;
     }
 
+    if (!signature_file && !key_source) {
+        fprintf(stderr, "Error: Either --key or --signature is required\n");
+        return -1;
+    }
+
     rc = bpak_pkg_open(&pkg, filename, "r+");
 
     if (rc != BPAK_OK) {
-- 
2.43.0


From 60cf8ee2d2f4aa465c6b72e47c154a4e72fc5cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 36/85] fix: unused part slots are taken for the data part of a
 hash tree

---
 lib/utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/utils.c b/lib/utils.c
index dd77777..a11715f 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -126,6 +126,9 @@ BPAK_EXPORT bpak_id_t bpak_hash_tree_id_to_part_id(struct bpak_header *header,
                                                   bpak_id_t part_id)
 {
     bpak_foreach_part (header, part) {
+        if (!part->id)
+            continue;
+
         if (bpak_crc32(part->id, (uint8_t *)"-hash-tree", 10) == part_id) {
             return part->id;
         }
-- 
2.43.0


From a3af213a54a4549a13b6afce303a142ee9326bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 37/85] fix: a hash tree over more or less data than announced
 is accepted

More data was written behind the tree, less data gave a root hash.
---
 lib/merkle.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/merkle.c b/lib/merkle.c
index aea48d6..a0c5a8b 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -123,6 +123,15 @@ BPAK_EXPORT size_t bpak_merkle_get_size(struct bpak_merkle_context *ctx)
     return ctx->hash_tree_length;
 }
 
+/* Number of data bytes that have not been processed yet */
+static size_t merkle_bytes_left(struct bpak_merkle_context *ctx)
+{
+    size_t blocks = ctx->input_chunk_counter / BPAK_MERKLE_HASH_BYTES;
+
+    return ctx->input_data_length - blocks * BPAK_MERKLE_BLOCK_SZ -
+           (BPAK_MERKLE_BLOCK_SZ - ctx->block_byte_counter);
+}
+
 BPAK_EXPORT int bpak_merkle_write_chunk(struct bpak_merkle_context *ctx,
                                         uint8_t *buffer, size_t length)
 {
@@ -131,6 +140,10 @@ BPAK_EXPORT int bpak_merkle_write_chunk(struct bpak_merkle_context *ctx,
     size_t chunk_length;
     uint8_t *chunk_buffer = buffer;
 
+    /* More data than announced would be written outside of the tree */
+    if (length > merkle_bytes_left(ctx))
+        return -BPAK_SIZE_ERROR;
+
     while (data_to_process > 0) {
         if (ctx->block_byte_counter == BPAK_MERKLE_BLOCK_SZ) {
             rc = bpak_hash_init(&ctx->running_hash, BPAK_HASH_SHA256);
@@ -206,6 +219,9 @@ BPAK_EXPORT int bpak_merkle_finish(struct bpak_merkle_context *ctx,
     ssize_t n_read;
     ssize_t n_written;
 
+    if (merkle_bytes_left(ctx) != 0)
+        return -BPAK_NEEDS_MORE_DATA;
+
     if (ctx->finished) {
         memcpy(roothash, ctx->buffer, 32);
         return BPAK_OK;
-- 
2.43.0


From 4efc1987796c658fbb0d94074193e59fc5f922d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:18 +0000
Subject: [PATCH 38/85] fix: decoding a package without parts loses its header

---
 lib/pkg.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index ee0d8ce..a5def87 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -318,6 +318,17 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         }
     }
 
+    /* A package without parts consists of its header alone */
+    ssize_t header_bytes = decode_write_output_header(0,
+                                                      (uint8_t *)patch_header,
+                                                      sizeof(*patch_header),
+                                                      &decode_private);
+
+    if (header_bytes != sizeof(*patch_header)) {
+        rc = -BPAK_WRITE_ERROR;
+        goto err_out;
+    }
+
     if (fseek(input->fp, sizeof(struct bpak_header), SEEK_SET) != 0) {
         bpak_printf(0, "%s: Error, could not seek input stream", __func__);
         return -BPAK_SEEK_ERROR;
-- 
2.43.0


From f1e0dbefd1f91abb64177ed1580f644cb7e660ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 39/85] fix: copying an oversized part runs over the part
 behind it

---
 lib/transport_decode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index bbce7cd..31ec472 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -366,6 +366,10 @@ bpak_transport_decode_write_chunk(struct bpak_transport_decode *ctx,
         if (length > (size_t)(bpak_part_size(ctx->part) - ctx->copy_offset))
             return -BPAK_SIZE_ERROR;
 
+        /* What is copied must not run over the end of the decoded part */
+        if (length > ctx->part->size + ctx->part->pad_bytes - ctx->copy_offset)
+            return -BPAK_SIZE_ERROR;
+
         off_t write_offset = bpak_part_offset(ctx->patch_header, ctx->part) -
                              sizeof(struct bpak_header) + ctx->output_offset +
                              ctx->copy_offset;
-- 
2.43.0


From 531d94e00d3e42bcf3eebc227cde7558fd9ff8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:23 +0000
Subject: [PATCH 40/85] fix: a package that can not be read is not an empty one

---
 lib/pkg.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index a5def87..94dfd44 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -46,6 +46,15 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
     size_t read_bytes = fread(&pkg->header, 1, sizeof(pkg->header), pkg->fp);
 
+    /* A file that has content which could not be read is not an empty one */
+    struct stat statbuf;
+
+    if (read_bytes == 0 &&
+        (fstat(fileno(pkg->fp), &statbuf) != 0 || statbuf.st_size != 0)) {
+        rc = -BPAK_READ_ERROR;
+        goto err_close_io;
+    }
+
     /* A file that has some content, but not enough for a header, is not a
      * package and must be left alone */
     if (read_bytes != 0 && read_bytes != sizeof(pkg->header)) {
-- 
2.43.0


From f06efd66b28cb7521b6576c8e835fb749fcb36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:27 +0000
Subject: [PATCH 41/85] fix: report a header that does not reach the file

---
 lib/pkg.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 94dfd44..ef128d6 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -199,6 +199,12 @@ BPAK_EXPORT int bpak_pkg_write_header(struct bpak_package *pkg)
         return -BPAK_WRITE_ERROR;
     }
 
+    /* What is still buffered may fail to reach the file */
+    if (fflush(pkg->fp) != 0) {
+        bpak_printf(0, "%s: Write failed\n", __func__);
+        return -BPAK_WRITE_ERROR;
+    }
+
     return BPAK_OK;
 }
 
@@ -586,8 +592,6 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
         return rc;
     }
 
-    fflush(pkg->fp);
-
     size_t new_size = sizeof(struct bpak_header);
 
     bpak_foreach_part(h, p) {
@@ -637,8 +641,6 @@ BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_
         return rc;
     }
 
-    fflush(pkg->fp);
-
     if (ftruncate(fileno(pkg->fp), sizeof(struct bpak_header)) != 0) {
         bpak_printf(0, "%s: Error: Couldn't truncate file: %s\n",
                     __func__, strerror(errno));
-- 
2.43.0


From 9eae4f9c99ca420e89662d9a0dc336dbdf28492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:31 +0000
Subject: [PATCH 42/85] fix: report transport output that does not reach the
 file

---
 lib/pkg.c              | 4 ++++
 lib/transport_encode.c | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index ef128d6..1b9faa2 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -403,6 +403,10 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         }
     }
 
+    /* What is still buffered may fail to reach the file */
+    if (fflush(output->fp) != 0)
+        rc = -BPAK_WRITE_ERROR;
+
 err_out:
     bpak_transport_decode_free(&decode_ctx);
     return rc;
diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index d9f0c5f..0a4ffe5 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -442,9 +442,9 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
 
     written = fwrite(output_header, 1, sizeof(*output_header), output_fp);
 
-    if (written != sizeof(*output_header)) {
+    if (written != sizeof(*output_header) || fflush(output_fp) != 0) {
         bpak_printf(0, "Error: could not write header");
-        rc = -1;
+        rc = -BPAK_WRITE_ERROR;
     }
 
 err_out:
-- 
2.43.0


From 5872ded378031d41e0c01051bc7a021d1cbff503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:35 +0000
Subject: [PATCH 43/85] fix: show: print no hash when it can not be computed

---
 src/show.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/show.c b/src/show.c
index 56cc038..60f28f6 100644
--- a/src/show.c
+++ b/src/show.c
@@ -193,7 +193,10 @@ int action_show(int argc, char **argv)
         goto err_pkg_close;
     } else if (text_hash_output) {
         hash_size = sizeof(hash_output);
-        bpak_pkg_update_hash(&pkg, hash_output, &hash_size);
+        rc = bpak_pkg_update_hash(&pkg, hash_output, &hash_size);
+
+        if (rc != BPAK_OK)
+            goto err_pkg_close;
 
         for (unsigned int i = 0; i < hash_size; i++)
             printf("%2.2x", hash_output[i] & 0xFF);
-- 
2.43.0


From 56d1da1523549c2710a379b0df6b31a8e6c8554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 44/85] fix: extract: report data that does not reach the file

---
 lib/pkg.c     | 3 ++-
 src/extract.c | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 1b9faa2..121cb85 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -497,7 +497,8 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
 
 err_close_fp_out:
     if ((fp != stdout) && (fp != NULL)) {
-        fclose(fp);
+        if (fclose(fp) != 0 && rc == BPAK_OK)
+            rc = -BPAK_WRITE_ERROR;
     }
 
     return rc;
diff --git a/src/extract.c b/src/extract.c
index 12923f8..8c22214 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -149,7 +149,10 @@ int action_extract(int argc, char **argv)
 
 err_close_fp_out:
     if ((fp != stdout) && (fp != NULL)) {
-        fclose(fp);
+        if (fclose(fp) != 0 && rc == BPAK_OK) {
+            fprintf(stderr, "Error: write error\n");
+            rc = -BPAK_WRITE_ERROR;
+        }
     }
 err_close_pkg_out:
     bpak_pkg_close(&pkg);
-- 
2.43.0


From 0fcd7a64e0b2a02e359d28d6642202d9a44d1463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 45/85] fix: set: report a header that does not reach the file

---
 src/set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set.c b/src/set.c
index b6adc80..4cb5d9f 100644
--- a/src/set.c
+++ b/src/set.c
@@ -255,7 +255,7 @@ int action_set(int argc, char **argv)
         goto err_close_fp_out;
     }
 
-    if (fwrite(h, 1, sizeof(*h), fp) != sizeof(*h)) {
+    if (fwrite(h, 1, sizeof(*h), fp) != sizeof(*h) || fflush(fp) != 0) {
         rc = -BPAK_WRITE_ERROR;
         goto err_close_fp_out;
     }
-- 
2.43.0


From 8d2651e5de2e814e73efbd5a36782b5c7a9a0c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:20 +0000
Subject: [PATCH 46/85] fix: sign, add: an input file that can not be read is
 not an empty one

---
 src/add.c  | 7 +++++++
 src/sign.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/add.c b/src/add.c
index 55954d9..e94dd68 100644
--- a/src/add.c
+++ b/src/add.c
@@ -165,6 +165,13 @@ int action_add(int argc, char **argv)
             metadata_input_length = fread(metadata_input, 1,
                                     sizeof(metadata_input), meta_in_fp);
 
+            if (ferror(meta_in_fp)) {
+                fprintf(stderr, "Error: Could not read '%s'\n", from_file);
+                fclose(meta_in_fp);
+                rc = -BPAK_READ_ERROR;
+                goto err_close_pkg_out;
+            }
+
             fclose(meta_in_fp);
 
             if (metadata_input_length == 0) {
diff --git a/src/sign.c b/src/sign.c
index 809ec1c..13fb3e3 100644
--- a/src/sign.c
+++ b/src/sign.c
@@ -99,6 +99,13 @@ int action_sign(int argc, char **argv)
         }
         size = fread(sig, 1, sizeof(sig), sig_fp);
 
+        if (ferror(sig_fp)) {
+            fprintf(stderr, "Error: Could not read '%s'\n", signature_file);
+            fclose(sig_fp);
+            rc = -BPAK_READ_ERROR;
+            goto err_out;
+        }
+
         fclose(sig_fp);
         if (bpak_get_verbosity()) {
             printf("Loaded signature %zu bytes\n", size);
-- 
2.43.0


From 62576b3f2a144308414d96717d3ff12bff62e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:33 +0000
Subject: [PATCH 47/85] fix: report output that can not be written

---
 src/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.c b/src/main.c
index e2ebaab..80d87ae 100644
--- a/src/main.c
+++ b/src/main.c
@@ -124,6 +124,11 @@ int main(int argc, char **argv)
         return -1;
     }
 
+    /* Output that does not reach its destination is not a success */
+    if ((fflush(stdout) != 0 || ferror(stdout)) && rc == BPAK_OK) {
+        rc = -BPAK_WRITE_ERROR;
+    }
+
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: %s (%i)\n", bpak_error_string(rc), rc);
     }
-- 
2.43.0


From 65ca17df09bf1b9ed725101a044579e7195778b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:43 +0000
Subject: [PATCH 48/85] fix: generate: a keystore id that is too short is not
 an id

---
 src/generate.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index 44da58f..b8e4102 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -149,6 +149,13 @@ int action_generate(int argc, char **argv)
             goto err_free_io_out;
         }
 
+        if (meta->size < sizeof(*keystore_provider_id)) {
+            rc = -BPAK_SIZE_ERROR;
+            fprintf(stderr,
+                    "Error: Could not read keystore-provider-id meta\n");
+            goto err_free_io_out;
+        }
+
         keystore_provider_id = bpak_get_meta_ptr(h, meta, uint32_t);
 
         int key_index = 0;
-- 
2.43.0


From 4fc5bfc8b2e36ac176a0b865bd2529672742a05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 49/85] fix: keys on other curves are taken for prime256v1 keys

---
 lib/mbedtls_wrapper.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 2300da6..5761534 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -273,6 +273,20 @@ err_free_crypto_ctx_out:
     return rc;
 }
 
+/* The length alone does not tell a supported curve from other ones */
+static bool supported_curve(const mbedtls_pk_context *ctx)
+{
+#if MBEDTLS_VERSION_MAJOR >= 3
+    mbedtls_ecp_group_id id = mbedtls_pk_ec(*ctx)->MBEDTLS_PRIVATE(grp).id;
+#else
+    mbedtls_ecp_group_id id = mbedtls_pk_ec(*ctx)->grp.id;
+#endif
+
+    return (id == MBEDTLS_ECP_DP_SECP256R1) ||
+           (id == MBEDTLS_ECP_DP_SECP384R1) ||
+           (id == MBEDTLS_ECP_DP_SECP521R1);
+}
+
 int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
 {
     int rc = BPAK_OK;
@@ -291,7 +305,8 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     struct bpak_key *key = bpak_calloc(sizeof(struct bpak_key) + len, 1);
     key->size = len;
 
-    if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
+    if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0 &&
+        supported_curve(&ctx)) {
         switch (mbedtls_pk_get_bitlen(&ctx)) {
         case 256:
             key->kind = BPAK_KEY_PUB_PRIME256v1;
@@ -383,7 +398,8 @@ int bpak_mbed_load_private_key(const char *filename, struct bpak_key **output)
 
     key->size = len;
 
-    if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
+    if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0 &&
+        supported_curve(&ctx)) {
         switch (mbedtls_pk_get_bitlen(&ctx)) {
         case 256:
             key->kind = BPAK_KEY_PRI_PRIME256v1;
@@ -447,7 +463,8 @@ int bpak_mbed_parse_public_key(const uint8_t *buffer, size_t length,
         goto err_free_ctx_out;
     }
 
-    if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
+    if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0 &&
+        supported_curve(&ctx)) {
         switch (mbedtls_pk_get_bitlen(&ctx)) {
         case 256:
             kind = BPAK_KEY_PUB_PRIME256v1;
-- 
2.43.0


From 0f63e374cb00a1fe866c67716b8126dc5065511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 50/85] fix: metadata that is too short is printed with the
 bytes behind it

---
 lib/utils.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/lib/utils.c b/lib/utils.c
index a11715f..b56273e 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -57,6 +57,27 @@ BPAK_EXPORT int bpak_uuid_to_string(const uint8_t *data, char *buf, size_t size)
     return BPAK_OK;
 }
 
+/* Number of bytes the printed form of a known kind of metadata is made of */
+static size_t meta_min_size(bpak_id_t id)
+{
+    switch (id) {
+    case BPAK_ID_BPAK_KEY_ID:
+    case BPAK_ID_BPAK_KEY_STORE:
+    case BPAK_ID_KEYSTORE_PROVIDER_ID:
+        return sizeof(bpak_id_t);
+    case BPAK_ID_BPAK_TRANSPORT:
+    case BPAK_ID_PB_LOAD_ADDR:
+        return 8;
+    case BPAK_ID_BPAK_PACKAGE:
+        return 16;
+    case BPAK_ID_MERKLE_SALT:
+    case BPAK_ID_MERKLE_ROOT_HASH:
+        return 32;
+    default:
+        return 0;
+    }
+}
+
 BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
                                     struct bpak_meta_header *m, char *buf,
                                     size_t size)
@@ -64,6 +85,9 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
     bpak_id_t *id_ptr = NULL;
     uint8_t *byte_ptr = NULL;
 
+    if (m->size < meta_min_size(m->id))
+        return -BPAK_SIZE_ERROR;
+
     if (m->id == BPAK_ID_BPAK_KEY_ID) {
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
         snprintf(buf, size, "%" PRIx32, *id_ptr);
-- 
2.43.0


From 865850f890b291c6a7dda8f7c6426e3196dae1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:26 +0000
Subject: [PATCH 51/85] fix: set ignores --key-id and --keystore-id when there
 is a --meta

---
 src/set.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/set.c b/src/set.c
index 4cb5d9f..c0cfeb8 100644
--- a/src/set.c
+++ b/src/set.c
@@ -227,8 +227,11 @@ int action_set(int argc, char **argv)
         } else {
             rc = -BPAK_FAILED;
             fprintf(stderr, "Error: Unknown encoder\n");
+            goto err_close_fp_out;
         }
-    } else if (key_id_flag || keystore_id_flag) {
+    }
+
+    if (key_id_flag || keystore_id_flag) {
 
         if (key_id_flag) {
             h->key_id = key_id;
@@ -245,9 +248,6 @@ int action_set(int argc, char **argv)
                 printf("Setting keystore-id to  0x%08x\n", keystore_id);
             }
         }
-    } else {
-        rc = -BPAK_FAILED;
-        fprintf(stderr, "Error: Don't know what to do\n");
     }
 
     if (fseek(fp, 0, SEEK_SET) != 0) {
-- 
2.43.0


From 148305d84f1a5d4ee3a2af23803b6fb20f9953d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 52/85] fix: names that begin with 0x are taken for other ids

---
 src/main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 80d87ae..4052a56 100644
--- a/src/main.c
+++ b/src/main.c
@@ -26,14 +26,15 @@ int bpak_printf(int verbosity, const char *fmt, ...)
 
 bpak_id_t bpak_get_id_for_name_or_ref(char *arg)
 {
-    uint32_t id;
+    unsigned long id;
     char *endptr = NULL;
 
     if (strncmp(arg, "0x", 2) == 0) {
         errno = 0;
 
         id = strtoul(arg, &endptr, 16);
-        if (endptr != arg && errno == 0) {
+        if (endptr != arg && *endptr == 0 && errno == 0 &&
+            id <= UINT32_MAX) {
             return id;
         }
     }
-- 
2.43.0


From 1436b614aa2a11e73083ac327e52ba311151ba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 53/85] fix: integers with something behind them are accepted

---
 src/add.c | 4 ++--
 src/set.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/add.c b/src/add.c
index e94dd68..af4854c 100644
--- a/src/add.c
+++ b/src/add.c
@@ -222,8 +222,8 @@ int action_add(int argc, char **argv)
                 errno = 0;
                 uint64_t value = strtol(metadata_input, &endptr, 0);
 
-                if (endptr == metadata_input ||
-                    errno != 0) {
+                if (endptr == metadata_input || errno != 0 ||
+                    endptr[strspn(endptr, " \t\r\n")] != 0) {
                     rc = -BPAK_FAILED;
                     fprintf(stderr, "Error: Could not parse input as a number");
                     goto err_close_pkg_out;
diff --git a/src/set.c b/src/set.c
index c0cfeb8..e012639 100644
--- a/src/set.c
+++ b/src/set.c
@@ -208,8 +208,8 @@ int action_set(int argc, char **argv)
             errno = 0;
             uint64_t value = strtol(from_string, &endptr, 0);
 
-            if (endptr == from_string ||
-                errno != 0) {
+            if (endptr == from_string || errno != 0 ||
+                endptr[strspn(endptr, " \t\r\n")] != 0) {
                 rc = -BPAK_FAILED;
                 fprintf(stderr, "Error: Could not parse input as a number");
                 goto err_close_fp_out;
-- 
2.43.0


From 04d026b55dc9c2ab712c8ef7f95bf841d80e6b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 54/85] fix: an unknown generator is reported as success

---
 src/generate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index b8e4102..f167410 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -280,6 +280,9 @@ err_free_io_out:
         fclose(fp);
 err_free_header_out:
         free(h);
+    } else {
+        fprintf(stderr, "Error: Unknown generator '%s'\n", generator);
+        rc = -BPAK_FAILED;
     }
 
     return rc;
-- 
2.43.0


From 1912720ba7a010483ac98f116e64f6423dc2b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 55/85] fix: open packages that are only read for reading

---
 src/extract.c   | 2 +-
 src/sign.c      | 2 +-
 src/transport.c | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 8c22214..6a33092 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -95,7 +95,7 @@ int action_extract(int argc, char **argv)
 
     struct bpak_package pkg;
 
-    rc = bpak_pkg_open(&pkg, filename, "r+");
+    rc = bpak_pkg_open(&pkg, filename, "rb");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package\n");
diff --git a/src/sign.c b/src/sign.c
index 13fb3e3..2417f73 100644
--- a/src/sign.c
+++ b/src/sign.c
@@ -182,7 +182,7 @@ int action_verify(int argc, char **argv)
         return -1;
     }
 
-    rc = bpak_pkg_open(&pkg, filename, "r+");
+    rc = bpak_pkg_open(&pkg, filename, "rb");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package\n");
diff --git a/src/transport.c b/src/transport.c
index c4789bc..608aca9 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -116,7 +116,7 @@ int action_transport(int argc, char **argv)
     struct bpak_package origin;
     bool output_open = false;
 
-    rc = bpak_pkg_open(&input, filename, "rb+");
+    rc = bpak_pkg_open(&input, filename, add_flag ? "rb+" : "rb");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package %s\n", filename);
@@ -124,7 +124,7 @@ int action_transport(int argc, char **argv)
     }
 
     if (origin_file) {
-        rc = bpak_pkg_open(&origin, origin_file, "rb+");
+        rc = bpak_pkg_open(&origin, origin_file, "rb");
 
         if (rc != BPAK_OK) {
             fprintf(stderr, "Error: Could not open package %s\n", origin_file);
-- 
2.43.0


From 74b08702649d4a851b6cb121c96681cb24cf9a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 56/85] fix: a package that could not be opened is closed twice

---
 lib/pkg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 121cb85..943f345 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -102,6 +102,7 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
 err_close_io:
     fclose(pkg->fp);
+    pkg->fp = NULL;
     return rc;
 }
 
-- 
2.43.0


From cd61d9b8cfe6c3dcedb9bfdf310821089ce6e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:34 +0000
Subject: [PATCH 57/85] fix: decoding changes the header of the input and not
 that of the output

---
 lib/pkg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 943f345..92db337 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -285,12 +285,14 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 {
     int rc;
 
-    struct bpak_header *patch_header = bpak_pkg_header(input);
+    /* Decoding updates the header, which is the one of the output from here on */
+    struct bpak_header *patch_header = bpak_pkg_header(output);
     struct bpak_transport_decode decode_ctx;
     uint8_t chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
     uint8_t decode_buffer[BPAK_CHUNK_BUFFER_LENGTH];
     struct decode_private decode_private;
 
+    memcpy(patch_header, bpak_pkg_header(input), sizeof(*patch_header));
     memset(&decode_private, 0, sizeof(struct decode_private));
     decode_private.output_fp = output->fp;
     if (origin != NULL)
-- 
2.43.0


From 2b3cd9b4293974690e2e428779c05d5bd04a70a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:37 +0000
Subject: [PATCH 58/85] fix: parts and metadata with the id 0 are lost

---
 lib/bpak.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/bpak.c b/lib/bpak.c
index b1551d0..6f643a8 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -54,6 +54,10 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 {
     uint16_t new_offset = 0;
 
+    /* Zero marks a free slot */
+    if (!id)
+        return -BPAK_NOT_SUPPORTED;
+
     bpak_foreach_meta (hdr, m) {
         if (!m->id) {
             if ((new_offset + size) > BPAK_METADATA_BYTES)
@@ -128,6 +132,10 @@ BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
 BPAK_EXPORT int bpak_add_part(struct bpak_header *hdr, bpak_id_t id,
                               struct bpak_part_header **part)
 {
+    /* Zero marks a free slot */
+    if (!id)
+        return -BPAK_NOT_SUPPORTED;
+
     bpak_foreach_part (hdr, p) {
         if (!p->id) {
             p->id = id;
-- 
2.43.0


From 98a64eb663d16012a9fd736f931ed3f72a981b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:41 +0000
Subject: [PATCH 59/85] fix: deleting an attribute from python crashes

---
 python/meta.c    | 9 +++++++--
 python/package.c | 8 ++++----
 python/part.c    | 2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/python/meta.c b/python/meta.c
index 21f34cd..35c2845 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -65,7 +65,7 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
     struct bpak_meta_header *m;
 
-    if (!PyLong_Check(value)) {
+    if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
     }
@@ -117,7 +117,7 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
     struct bpak_meta_header *m;
 
     if (value != Py_None) {
-        if (!PyLong_Check(value)) {
+        if (value == NULL || !PyLong_Check(value)) {
             PyErr_SetString(PyExc_TypeError, "type mismatch");
             return -1;
         }
@@ -207,6 +207,11 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
     char *new_data = NULL;
     bool was_unicode = false;
 
+    if (value == NULL) {
+        PyErr_SetString(PyExc_TypeError, "data can not be deleted");
+        return -1;
+    }
+
     if (PyUnicode_Check(value)) {
         PyObject *bytes = PyUnicode_AsASCIIString(value);
         if (!bytes) {
diff --git a/python/package.c b/python/package.c
index c30fbcd..13a7b32 100644
--- a/python/package.c
+++ b/python/package.c
@@ -475,7 +475,7 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
-    if (!PyLong_Check(value)) {
+    if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
     }
@@ -515,7 +515,7 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
-    if (!PyLong_Check(value)) {
+    if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
     }
@@ -555,7 +555,7 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
-    if (!PyLong_Check(value)) {
+    if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
     }
@@ -644,7 +644,7 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
-    if (!PyLong_Check(value)) {
+    if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
     }
diff --git a/python/part.c b/python/part.c
index 0a30d97..20bd671 100644
--- a/python/part.c
+++ b/python/part.c
@@ -64,7 +64,7 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
     struct bpak_header *h = bpak_pkg_header(&part->package->pkg);
     struct bpak_part_header *p;
 
-    if (!PyLong_Check(value)) {
+    if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
     }
-- 
2.43.0


From ab163116395613981aa280b24c39f4cf111220e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:45 +0000
Subject: [PATCH 60/85] fix: using a closed package from python crashes

---
 python/package.c        | 50 +++++++++++++++++++++++++++++++++++++++++
 python/python_wrapper.c | 10 +++++++++
 python/python_wrapper.h |  3 +++
 3 files changed, 63 insertions(+)

diff --git a/python/package.c b/python/package.c
index 13a7b32..5d6b58b 100644
--- a/python/package.c
+++ b/python/package.c
@@ -9,6 +9,16 @@
 
 #include "python_wrapper.h"
 
+bool package_is_open(BPAKPackage *package)
+{
+    if (package->pkg.fp == NULL) {
+        PyErr_SetString(PyExc_ValueError, "package is not open");
+        return false;
+    }
+
+    return true;
+}
+
 int package_write_header(BPAKPackage *package, bool update_hash)
 {
     int rc = 0;
@@ -100,6 +110,10 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
     struct bpak_key *key = NULL;
     static char *kwlist[] = {"verify_key_path", NULL};
 
+    if (!package_is_open(self)) {
+        return NULL;
+    }
+
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
                                      "O&:verify",
@@ -143,6 +157,10 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
     static char *kwlist[] = {"sign_key_path", NULL};
     BPAKPackage *package = (BPAKPackage *)self;
 
+    if (!package_is_open(package)) {
+        return NULL;
+    }
+
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
                                      "O&:verify",
@@ -182,6 +200,10 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
     PyObject *filename;
     int with_merkle_tree = 0;
 
+    if (!package_is_open(package)) {
+        return NULL;
+    }
+
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
                                      "sO&|p:add_file",
@@ -234,6 +256,10 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
     const char *part_name = NULL;
     PyObject *filename;
 
+    if (!package_is_open(package)) {
+        return NULL;
+    }
+
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
                                      "sO&:add_key",
@@ -282,6 +308,10 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
     PyObject *data = NULL;
     Py_ssize_t size = -1;
 
+    if (!package_is_open(package)) {
+        return NULL;
+    }
+
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
                                      "I|IOn:add_meta",
@@ -475,6 +505,10 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
@@ -515,6 +549,10 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
@@ -555,6 +593,10 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
@@ -599,6 +641,10 @@ static int package_set_signature(PyObject *self, PyObject *value,
     Py_ssize_t signature_sz;
     BPAKPackage *package = (BPAKPackage *)self;
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     /* Handle clearing / del */
     if (value == NULL || value == Py_None) {
         bpak_pkg_write_raw_signature(&package->pkg, empty_signature, 0);
@@ -644,6 +690,10 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index 161b48e..5c55f02 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -83,6 +83,11 @@ static PyObject *m_transport_encode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    if (!package_is_open(input) || !package_is_open(output) ||
+        (origin && !package_is_open(origin))) {
+        return NULL;
+    }
+
     rc = bpak_pkg_transport_encode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
@@ -119,6 +124,11 @@ static PyObject *m_transport_decode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    if (!package_is_open(input) || !package_is_open(output) ||
+        (origin && !package_is_open(origin))) {
+        return NULL;
+    }
+
     rc = bpak_pkg_transport_decode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
diff --git a/python/python_wrapper.h b/python/python_wrapper.h
index 641ac16..10caaef 100644
--- a/python/python_wrapper.h
+++ b/python/python_wrapper.h
@@ -29,6 +29,9 @@ extern PyTypeObject BPAKMetaType;
 
 extern PyObject *BPAKPackageError;
 
+/* Sets an exception unless the package is open */
+bool package_is_open(BPAKPackage *package);
+
 int package_write_header(BPAKPackage *package, bool update_hash);
 
 PyObject *part_allocate(BPAKPackage *package, bpak_id_t part_id);
-- 
2.43.0


From a546d2f96db1f2cf0b06311c338f23ce94119de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 61/85] fix: python packages asked for their parts or metadata
 are never closed

---
 python/package.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/package.c b/python/package.c
index 5d6b58b..3dab3b9 100644
--- a/python/package.c
+++ b/python/package.c
@@ -760,6 +760,7 @@ static PyObject *package_get_parts(PyObject *self, void *closure)
         }
 
         rc = PyList_Append(list, part);
+        Py_DECREF(part);
         if (rc < 0) {
             Py_DECREF(list);
 
@@ -801,6 +802,7 @@ static PyObject *package_get_meta_list(PyObject *self, void *closure)
         }
 
         rc = PyList_Append(list, meta);
+        Py_DECREF(meta);
         if (rc < 0) {
             Py_DECREF(list);
 
-- 
2.43.0


From b2f43f821fd00b84b6a7b08f8776994758a39038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:53 +0000
Subject: [PATCH 62/85] fix: python log functions are used after they are gone

---
 python/python_wrapper.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index 5c55f02..56a236f 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -22,7 +22,15 @@ int bpak_printf(int verbosity, const char *fmt, ...)
     va_end(args);
 
     if (log_func != Py_None) {
-        PyObject_CallFunction(log_func, "(is)", verbosity, log_buf);
+        PyObject *result =
+            PyObject_CallFunction(log_func, "(is)", verbosity, log_buf);
+
+        /* Who is logging can not pass on an exception */
+        if (result == NULL) {
+            PyErr_WriteUnraisable(log_func);
+        }
+
+        Py_XDECREF(result);
     }
 
     return BPAK_OK;
@@ -49,13 +57,22 @@ static PyObject *m_set_log_func(PyObject *module, PyObject *args,
 {
     int rc;
     static char *kwlist[] = {"log_func", NULL};
+    PyObject *new_func;
+    PyObject *old_func = log_func;
     (void)module;
 
-    rc = PyArg_ParseTupleAndKeywords(args, kwds, "O", kwlist, &log_func);
+    rc = PyArg_ParseTupleAndKeywords(args, kwds, "O", kwlist, &new_func);
     if (!rc) {
         return NULL;
     }
 
+    Py_INCREF(new_func);
+    log_func = new_func;
+
+    if (old_func != Py_None) {
+        Py_DECREF(old_func);
+    }
+
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From ac648932a6857a4eb632eec126c480cd6439ddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 63/85] fix: changing hash_kind from python leaves a wrong
 payload hash

---
 python/package.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/python/package.c b/python/package.c
index 3dab3b9..601d3f7 100644
--- a/python/package.c
+++ b/python/package.c
@@ -501,7 +501,7 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc;
-    int hash_kind;
+    unsigned long hash_kind;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
@@ -519,7 +519,24 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
-    h->hash_kind = (uint32_t)hash_kind;
+    uint8_t previous = h->hash_kind;
+
+    if (hash_kind < BPAK_HASH_SHA256 || hash_kind > BPAK_HASH_SHA512) {
+        PyErr_SetString(PyExc_ValueError, "unknown hash kind");
+        return -1;
+    }
+
+    h->hash_kind = hash_kind;
+
+    /* The payload hash is of the new kind from here on */
+    rc = bpak_pkg_update_hash(&package->pkg, NULL, NULL);
+
+    if (rc != BPAK_OK) {
+        h->hash_kind = previous;
+        PyErr_Format(BPAKPackageError, "could not compute payload hash: %s",
+                bpak_error_string(rc));
+        return -1;
+    }
 
     rc = package_write_header(package, false);
 
-- 
2.43.0


From 4fc81ee5b9ad57ce01018fe4338e730ddda4f0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:02 +0000
Subject: [PATCH 64/85] fix: python takes integers beyond 32 bits modulo 2^32

---
 python/meta.c           | 32 ++++---------------------
 python/package.c        | 53 ++++++++++++++++-------------------------
 python/part.c           | 14 ++---------
 python/python_wrapper.c | 24 +++++++++++++++++++
 python/python_wrapper.h |  4 ++++
 5 files changed, 55 insertions(+), 72 deletions(-)

diff --git a/python/meta.c b/python/meta.c
index 35c2845..6cce324 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -60,22 +60,12 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc = 0;
-    unsigned int meta_id;
+    bpak_id_t meta_id;
     BPAKMeta *meta = (BPAKMeta *)self;
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
     struct bpak_meta_header *m;
 
-    if (value == NULL || !PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    meta_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
-        return -1;
-    }
-    if (((uint32_t)meta_id) != meta_id) {
-        PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
+    if (!uint32_converter(value, &meta_id)) {
         return -1;
     }
 
@@ -111,25 +101,13 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc = 0;
-    unsigned int part_ref = 0;
+    bpak_id_t part_ref = 0;
     BPAKMeta *meta = (BPAKMeta *)self;
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
     struct bpak_meta_header *m;
 
-    if (value != Py_None) {
-        if (value == NULL || !PyLong_Check(value)) {
-            PyErr_SetString(PyExc_TypeError, "type mismatch");
-            return -1;
-        }
-
-        part_ref = PyLong_AsUnsignedLong(value);
-        if (PyErr_Occurred()) {
-            return -1;
-        }
-        if (((uint32_t)part_ref) != part_ref) {
-            PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
-            return -1;
-        }
+    if (value != Py_None && !uint32_converter(value, &part_ref)) {
+        return -1;
     }
 
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
diff --git a/python/package.c b/python/package.c
index 601d3f7..eee5862 100644
--- a/python/package.c
+++ b/python/package.c
@@ -314,10 +314,10 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
 
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
-                                     "I|IOn:add_meta",
+                                     "O&|O&On:add_meta",
                                      kwlist,
-                                     &meta_id,
-                                     &part_ref,
+                                     uint32_converter, &meta_id,
+                                     uint32_converter, &part_ref,
                                      &data,
                                      &size);
 
@@ -411,9 +411,9 @@ static PyObject *package_get_part(PyObject *self, PyObject *args, PyObject *kwds
 
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
-                                     "I:get_part",
+                                     "O&:get_part",
                                      kwlist,
-                                     &part_id);
+                                     uint32_converter, &part_id);
 
     if (!rc) {
         return NULL;
@@ -440,10 +440,10 @@ static PyObject *package_get_meta(PyObject *self, PyObject *args, PyObject *kwds
 
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
-                                     "I|I:get_meta",
+                                     "O&|O&:get_meta",
                                      kwlist,
-                                     &meta_id,
-                                     &part_ref);
+                                     uint32_converter, &meta_id,
+                                     uint32_converter, &part_ref);
 
     if (!rc) {
         return NULL;
@@ -562,7 +562,7 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc;
-    int key_id;
+    uint32_t key_id;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
@@ -570,17 +570,11 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
-    if (value == NULL || !PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    key_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (!uint32_converter(value, &key_id)) {
         return -1;
     }
 
-    h->key_id = (uint32_t)key_id;
+    h->key_id = key_id;
 
     rc = package_write_header(package, false);
 
@@ -606,7 +600,7 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
 {
     (void)closure;
     int rc;
-    int keystore_id;
+    uint32_t keystore_id;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
@@ -614,17 +608,11 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
         return -1;
     }
 
-    if (value == NULL || !PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    keystore_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (!uint32_converter(value, &keystore_id)) {
         return -1;
     }
 
-    h->keystore_id = (uint32_t)keystore_id;
+    h->keystore_id = keystore_id;
 
     rc = package_write_header(package, false);
 
@@ -703,7 +691,7 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
 {
     (void)closure;
     int rc;
-    int signature_kind;
+    uint32_t signature_kind;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
@@ -711,17 +699,16 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
         return -1;
     }
 
-    if (value == NULL || !PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
+    if (!uint32_converter(value, &signature_kind)) {
+        return -1;
     }
 
-    signature_kind = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (signature_kind > UINT8_MAX) {
+        PyErr_SetString(PyExc_ValueError, "unknown signature kind");
         return -1;
     }
 
-    h->signature_kind = (uint32_t)signature_kind;
+    h->signature_kind = signature_kind;
 
     rc = package_write_header(package, false);
 
diff --git a/python/part.c b/python/part.c
index 20bd671..bdbde99 100644
--- a/python/part.c
+++ b/python/part.c
@@ -59,22 +59,12 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc = 0;
-    unsigned int part_id;
+    bpak_id_t part_id;
     BPAKPart *part = (BPAKPart *)self;
     struct bpak_header *h = bpak_pkg_header(&part->package->pkg);
     struct bpak_part_header *p;
 
-    if (value == NULL || !PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    part_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
-        return -1;
-    }
-    if (((uint32_t)part_id) != part_id) {
-        PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
+    if (!uint32_converter(value, &part_id)) {
         return -1;
     }
 
diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index 56a236f..ade7225 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -11,6 +11,30 @@
 #include "python_wrapper.h"
 
 PyObject *BPAKPackageError;
+
+int uint32_converter(PyObject *value, void *output)
+{
+    unsigned long long number;
+
+    if (value == NULL || !PyLong_Check(value)) {
+        PyErr_SetString(PyExc_TypeError, "type mismatch");
+        return 0;
+    }
+
+    number = PyLong_AsUnsignedLongLong(value);
+    if (PyErr_Occurred()) {
+        return 0;
+    }
+    if (number > UINT32_MAX) {
+        PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
+        return 0;
+    }
+
+    *(uint32_t *)output = number;
+
+    return 1;
+}
+
 static PyObject *log_func = Py_None;
 
 int bpak_printf(int verbosity, const char *fmt, ...)
diff --git a/python/python_wrapper.h b/python/python_wrapper.h
index 10caaef..109f168 100644
--- a/python/python_wrapper.h
+++ b/python/python_wrapper.h
@@ -34,6 +34,10 @@ bool package_is_open(BPAKPackage *package);
 
 int package_write_header(BPAKPackage *package, bool update_hash);
 
+/* Converts a 32-bit unsigned integer; false, with an exception set, when the
+ * object is not one.  Also used with the O& format. */
+int uint32_converter(PyObject *value, void *output);
+
 PyObject *part_allocate(BPAKPackage *package, bpak_id_t part_id);
 PyObject *meta_allocate(BPAKPackage *package, bpak_id_t meta_id, bpak_id_t part_ref);
 
-- 
2.43.0


From 5d34cca278e8ab1e3eb568b9475c74d465351fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:05 +0000
Subject: [PATCH 65/85] fix: parts and metadata can be renamed to ids in use or
 0 from python

---
 python/meta.c | 27 +++++++++++++++++++++++++++
 python/part.c | 12 ++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/python/meta.c b/python/meta.c
index 6cce324..e500172 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -48,6 +48,25 @@ static PyObject *meta_repr(PyObject *self)
             meta->meta_id, meta->part_ref, m->size);
 }
 
+/* Sets an exception unless 'm' can have this id and reference */
+static bool meta_key_is_free(struct bpak_header *h, struct bpak_meta_header *m,
+                             bpak_id_t meta_id, bpak_id_t part_ref)
+{
+    struct bpak_meta_header *other;
+
+    if (!meta_id) {
+        PyErr_SetString(PyExc_ValueError, "0 is not an id");
+        return false;
+    }
+
+    if (bpak_get_meta(h, meta_id, part_ref, &other) == BPAK_OK && other != m) {
+        PyErr_SetString(PyExc_ValueError, "metadata exists");
+        return false;
+    }
+
+    return true;
+}
+
 static PyObject *meta_get_id(PyObject *self, void *closure)
 {
     (void)closure;
@@ -76,6 +95,10 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    if (!meta_key_is_free(h, m, meta_id, m->part_id_ref)) {
+        return -1;
+    }
+
     m->id = meta_id;
     meta->meta_id = meta_id;
 
@@ -117,6 +140,10 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    if (!meta_key_is_free(h, m, m->id, part_ref)) {
+        return -1;
+    }
+
     m->part_id_ref = part_ref;
     meta->part_ref = part_ref;
 
diff --git a/python/part.c b/python/part.c
index bdbde99..51790c1 100644
--- a/python/part.c
+++ b/python/part.c
@@ -75,6 +75,18 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_part_header *other;
+
+    if (!part_id) {
+        PyErr_SetString(PyExc_ValueError, "0 is not an id");
+        return -1;
+    }
+
+    if (bpak_get_part(h, part_id, &other) == BPAK_OK && other != p) {
+        PyErr_SetString(PyExc_ValueError, "part exists");
+        return -1;
+    }
+
     p->id = part_id;
     part->part_id = part_id;
 
-- 
2.43.0


From dffe767e665abd60e79475d269fcb9ce77ada352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:09 +0000
Subject: [PATCH 66/85] fix: python add_meta with a size of 64 kB and more

---
 python/package.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/package.c b/python/package.c
index eee5862..8aa5684 100644
--- a/python/package.c
+++ b/python/package.c
@@ -361,7 +361,8 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         }
     }
 
-    rc = bpak_add_meta(h, meta_id, part_ref, size, &meta);
+    rc = size > BPAK_METADATA_BYTES ? -BPAK_NO_SPACE_LEFT :
+            bpak_add_meta(h, meta_id, part_ref, size, &meta);
     if (rc != BPAK_OK) {
         PyErr_Format(BPAKPackageError, "failed to add metadata: %s",
                 bpak_error_string(rc));
@@ -385,9 +386,8 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
 
     rc = package_write_header(package, false);
     if (rc != BPAK_OK) {
-        PyErr_Format(PyExc_IOError, "could not write header: %s",
+        return PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
-        goto err_out;
     }
 
     return meta_allocate(package, meta->id, meta->part_id_ref);
-- 
2.43.0


From 99ed9aeab14cef81c58f3f9fa0b7cbb74b9b0f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 67/85] fix: empty parts can not be read from python

---
 python/part.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/part.c b/python/part.c
index 51790c1..5899dc9 100644
--- a/python/part.c
+++ b/python/part.c
@@ -183,8 +183,8 @@ static PyObject *part_read_data(PyObject *self, PyObject *Py_UNUSED(ignored))
                 strerror(ferror(fp)));
     }
 
-    read_size = fread(PyBytes_AsString(bytes), part_size, 1, fp);
-    if (read_size != 1) {
+    read_size = fread(PyBytes_AsString(bytes), 1, part_size, fp);
+    if (read_size != part_size) {
         Py_DECREF(bytes);
         return PyErr_Format(PyExc_IOError, "failed to read: %s",
                 strerror(ferror(fp)));
-- 
2.43.0


From 16a4a743713e2c78ad18c0e83a0ca79b0a82be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:17 +0000
Subject: [PATCH 68/85] fix: python signature: memory behind the header, and
 clearing that fails in silence

---
 python/package.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/python/package.c b/python/package.c
index 8aa5684..096a419 100644
--- a/python/package.c
+++ b/python/package.c
@@ -630,9 +630,13 @@ static PyObject *package_get_signature(PyObject *self, void *closure)
     (void)closure;
     BPAKPackage *package = (BPAKPackage *)self;
 
-    return Py_BuildValue("y#",
-                         package->pkg.header.signature,
-                         package->pkg.header.signature_sz);
+    Py_ssize_t size = package->pkg.header.signature_sz;
+
+    if (size > BPAK_SIGNATURE_MAX_BYTES) {
+        size = BPAK_SIGNATURE_MAX_BYTES;
+    }
+
+    return Py_BuildValue("y#", package->pkg.header.signature, size);
 }
 
 static int package_set_signature(PyObject *self, PyObject *value,
@@ -652,7 +656,14 @@ static int package_set_signature(PyObject *self, PyObject *value,
 
     /* Handle clearing / del */
     if (value == NULL || value == Py_None) {
-        bpak_pkg_write_raw_signature(&package->pkg, empty_signature, 0);
+        rc = bpak_pkg_write_raw_signature(&package->pkg, empty_signature, 0);
+
+        if (rc != BPAK_OK) {
+            PyErr_Format(BPAKPackageError, "failed to clear signature: %s",
+                    bpak_error_string(rc));
+            return -1;
+        }
+
         return 0;
     }
 
-- 
2.43.0


From 37077a7b23d230cbd11b4e5e2fc648e3a8dc7608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:21 +0000
Subject: [PATCH 69/85] fix: initialising a python package again loses its file

---
 python/package.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/package.c b/python/package.c
index 096a419..fcc1ac9 100644
--- a/python/package.c
+++ b/python/package.c
@@ -80,6 +80,9 @@ static int package_init(BPAKPackage *self, PyObject *args, PyObject *kwds)
         return -1;
     }
 
+    /* May have been open before */
+    bpak_pkg_close(&self->pkg);
+
     rc = bpak_pkg_open(&self->pkg, PyBytes_AsString(filename_ascii), mode);
 
     Py_DECREF(filename_ascii);
-- 
2.43.0


From 407d0a31b5c4ab2c49a69077f3458eb7568c7b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:20 +0000
Subject: [PATCH 70/85] fix: looking for the id 0 finds free slots

---
 lib/bpak.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index 6f643a8..4d0e54e 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -18,6 +18,12 @@ static int bpak_get_meta_int(struct bpak_header *hdr, bpak_id_t id,
                              bpak_id_t part_id_ref, bool match_partref,
                              struct bpak_meta_header **meta)
 {
+    *meta = NULL;
+
+    /* Zero marks a free slot */
+    if (!id)
+        return -BPAK_NOT_FOUND;
+
     bpak_foreach_meta (hdr, m) {
         if (m->id == id) {
             if (match_partref) {
@@ -31,7 +37,6 @@ static int bpak_get_meta_int(struct bpak_header *hdr, bpak_id_t id,
         }
     }
 
-    *meta = NULL;
     return -BPAK_NOT_FOUND;
 }
 
@@ -119,6 +124,10 @@ BPAK_EXPORT void bpak_del_meta(struct bpak_header *hdr,
 BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
                               struct bpak_part_header **part)
 {
+    /* Zero marks a free slot */
+    if (!id)
+        return -BPAK_NOT_FOUND;
+
     bpak_foreach_part (hdr, p) {
         if (p->id == id) {
             (*part) = p;
-- 
2.43.0


From 120dd1c77ab9ea7f7a70924f50704509220a0dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 71/85] fix: show finds free slots for names with the id 0

---
 src/show.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/show.c b/src/show.c
index 60f28f6..8a65744 100644
--- a/src/show.c
+++ b/src/show.c
@@ -122,7 +122,7 @@ int action_show(int argc, char **argv)
         rc = -BPAK_MISSING_META_DATA;
 
         bpak_foreach_meta (h, m) {
-            if (m->id == meta_id) {
+            if (m->id && m->id == meta_id) {
                 if (part_name)
                     if (part_id != m->part_id_ref)
                         continue;
@@ -151,7 +151,7 @@ int action_show(int argc, char **argv)
         rc = -BPAK_NOT_FOUND;
 
         bpak_foreach_part (h, p) {
-            if (p->id == part_id) {
+            if (p->id && p->id == part_id) {
                 printf("Found 0x%x, %"PRIu64" bytes\n", p->id, p->size);
                 rc = BPAK_OK;
                 break;
-- 
2.43.0


From d9c7229cf8e26cf56ed139595ae54892ff2059fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:43 +0000
Subject: [PATCH 72/85] fix: release an added key through bpak_free

---
 lib/pkg_create.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 97379c5..6e46738 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -427,6 +427,6 @@ err_undo:
     if (rc != BPAK_OK)
         undo_add(pkg, &old_header, old_size);
 err_free_key_out:
-    free(key);
+    bpak_free(key);
     return rc;
 }
-- 
2.43.0


From 8c63618c732e983d23d8ed6edc6f650bf995f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:50 +0000
Subject: [PATCH 73/85] fix: handle an allocation failure when adding a hash
 tree

---
 lib/pkg_create.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 6e46738..9cb7df9 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -95,6 +95,11 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
 
     char *merkle_buf = bpak_calloc(merkle_sz, 1);
 
+    if (merkle_buf == NULL) {
+        undo_add(pkg, &old_header, old_size);
+        return -BPAK_FAILED;
+    }
+
     memset(merkle_buf, 0, merkle_sz);
 
     bpak_printf(1, "Allocated %li bytes for merkle tree\n", merkle_sz);
-- 
2.43.0


From ba1593ae11788066823a17cfc5ba370e36efcbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:57 +0000
Subject: [PATCH 74/85] fix: allocate the lzma decoder with the allocator that
 releases it

---
 lib/bspatch.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index dc01da0..b5b4f12 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -230,14 +230,16 @@ static int decompressor_init(struct bpak_bspatch_context *ctx)
     case BPAK_COMPRESSION_LZMA: {
         lzma_stream *strm = &ctx->decompressor.lzma_stream;
 
+        /* Must be set first, the buffers are released through it */
+        strm->allocator = &lzma_alloc;
+
         lzma_ret ret = lzma_stream_decoder(strm, UINT64_MAX, LZMA_CONCATENATED);
 
         if (ret != LZMA_OK) {
             bpak_printf(0, "lzma init error (%u)\n", ret);
+            lzma_end(strm);
             return -BPAK_DECOMPRESSOR_ERROR;
         }
-
-        strm->allocator = &lzma_alloc;
     } break;
 #endif
     default:
-- 
2.43.0


From 3461f20937c761acd640d4fda4db6bebd03cb4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:07 +0000
Subject: [PATCH 75/85] fix: allocate the lzma encoder with the allocator that
 releases it

---
 lib/bsdiff.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/bsdiff.c b/lib/bsdiff.c
index 6a030d5..0d628a1 100644
--- a/lib/bsdiff.c
+++ b/lib/bsdiff.c
@@ -343,7 +343,12 @@ static int compressor_init(struct bpak_bsdiff_context *ctx)
     case BPAK_COMPRESSION_LZMA: {
         lzma_stream *stream;
         stream = bpak_calloc(sizeof(lzma_stream), 1);
-        ctx->compressor_priv = stream;
+
+        if (stream == NULL)
+            return -BPAK_FAILED;
+
+        /* Must be set first, the buffers are released through it */
+        stream->allocator = &lzma_alloc;
 
         lzma_options_lzma opt_lzma2;
         if (lzma_lzma_preset(&opt_lzma2, LZMA_PRESET_DEFAULT)) {
@@ -359,13 +364,13 @@ static int compressor_init(struct bpak_bsdiff_context *ctx)
 
         lzma_ret ret = lzma_stream_encoder(stream, filters, LZMA_CHECK_CRC64);
 
-        if (ret != LZMA_OK)
+        if (ret != LZMA_OK) {
+            lzma_end(stream);
+            bpak_free(stream);
             return -BPAK_COMPRESSOR_ERROR;
+        }
 
-        if (stream == NULL)
-            return -BPAK_FAILED;
-
-        stream->allocator = &lzma_alloc;
+        ctx->compressor_priv = stream;
     } break;
 #endif
     default:
-- 
2.43.0


From 71da8d00c848793b1782f0cf289e0020900f76c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:15 +0000
Subject: [PATCH 76/85] fix: release the parsed key when loading a public key

---
 lib/mbedtls_wrapper.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 5761534..87be63b 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -303,6 +303,12 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     }
 
     struct bpak_key *key = bpak_calloc(sizeof(struct bpak_key) + len, 1);
+
+    if (key == NULL) {
+        rc = -BPAK_FAILED;
+        goto err_free_ctx;
+    }
+
     key->size = len;
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0 &&
@@ -335,6 +341,7 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
 
     memcpy(key->data, &tmp[sizeof(tmp) - len], len);
     (*output) = key;
+    mbedtls_pk_free(&ctx);
     return BPAK_OK;
 
 err_free_key_out:
-- 
2.43.0


From 578e0b145b2b329f84f618e705f0d96da1a52d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:39 +0000
Subject: [PATCH 77/85] fix: release decoded file names in the python module

---
 python/package.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/package.c b/python/package.c
index fcc1ac9..75abfca 100644
--- a/python/package.c
+++ b/python/package.c
@@ -76,6 +76,7 @@ static int package_init(BPAKPackage *self, PyObject *args, PyObject *kwds)
     }
 
     PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
+    Py_DECREF(filename);
     if (!filename_ascii) {
         return -1;
     }
@@ -129,6 +130,7 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
     }
 
     PyObject *filename_ascii = PyUnicode_AsASCIIString(verify_key_filename);
+    Py_DECREF(verify_key_filename);
     if (!filename_ascii) {
         return NULL;
     }
@@ -176,6 +178,7 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
     }
 
     PyObject *filename_ascii = PyUnicode_AsASCIIString(sign_key_filename);
+    Py_DECREF(sign_key_filename);
     if (!filename_ascii) {
         return NULL;
     }
@@ -221,6 +224,7 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
     }
 
     PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
+    Py_DECREF(filename);
     if (!filename_ascii) {
         return NULL;
     }
@@ -276,6 +280,7 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
     }
 
     PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
+    Py_DECREF(filename);
     if (!filename_ascii) {
         return NULL;
     }
-- 
2.43.0


From 2b4ec2e0ccf056dcdad2f00e2cd3d6d51d97ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:45 +0000
Subject: [PATCH 78/85] fix: release the decoder of a part that failed to
 decode

---
 lib/pkg.c              |  3 ++-
 lib/transport_decode.c | 22 +++++++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 92db337..e9313bd 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -376,7 +376,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 
             if (bytes_read != chunk_length) {
                 bpak_printf(0, "%s: bytes_read != chunk_length\n", __func__);
-                return -BPAK_READ_ERROR;
+                rc = -BPAK_READ_ERROR;
+                goto err_out;
             }
 
             rc = bpak_transport_decode_write_chunk(&decode_ctx,
diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 31ec472..c001873 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -184,6 +184,23 @@ static ssize_t patch_write_output(off_t offset, uint8_t *buffer, size_t length,
     return ctx->write_output(offset, buffer, length, ctx->user);
 }
 
+/* Release what the decoder of the current part holds, if anything */
+static void decoder_release(struct bpak_transport_decode *ctx)
+{
+    switch (ctx->decoder_id) {
+    case BPAK_ID_BSPATCH_NO_COMP:
+    case BPAK_ID_BSPATCH_LZMA:
+    case BPAK_ID_BSPATCH:
+        bpak_bspatch_free(&ctx->decoders.bspatch);
+        break;
+    default:
+        break;
+    }
+
+    memset(&ctx->decoders, 0, sizeof(ctx->decoders));
+    ctx->decoder_id = 0;
+}
+
 BPAK_EXPORT int bpak_transport_decode_init(
     struct bpak_transport_decode *ctx, uint8_t *buffer, size_t buffer_length,
     struct bpak_header *patch_header, bpak_io_t write_output,
@@ -262,8 +279,8 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
     if (bytes_written != sizeof(struct bpak_header))
         return -BPAK_WRITE_ERROR;
 
+    decoder_release(ctx);
     ctx->part = part;
-    ctx->decoder_id = 0;
 
     /* Check if there is any transport meta data for this part in the header */
     if (part->flags & BPAK_FLAG_TRANSPORT) {
@@ -448,6 +465,5 @@ BPAK_EXPORT int bpak_transport_decode_finish(struct bpak_transport_decode *ctx)
 
 BPAK_EXPORT void bpak_transport_decode_free(struct bpak_transport_decode *ctx)
 {
-    /* Nothing to implement so far */
-    (void)ctx;
+    decoder_release(ctx);
 }
-- 
2.43.0


From 9d0d6f1fb4ef8151a214405d2e79588a7a17cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:02 +0000
Subject: [PATCH 79/85] fix: let go of the hash of every block of an upper tree
 level

---
 lib/merkle.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/merkle.c b/lib/merkle.c
index a0c5a8b..823379b 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -275,26 +275,23 @@ BPAK_EXPORT int bpak_merkle_finish(struct bpak_merkle_context *ctx,
             if (rc != BPAK_OK)
                 goto err_free_hash_ctx_out;
 
+            bpak_hash_free(&ctx->running_hash);
+
             n_written = ctx->wr(ctx->offset + output_offset,
                                 ctx->buffer,
                                 sizeof(ctx->buffer),
                                 ctx->priv);
 
-            if (n_written < 0) {
-                rc = n_written;
-                goto err_free_hash_ctx_out;
-            }
-            if (n_written != sizeof(ctx->buffer)) {
-                rc = -BPAK_WRITE_ERROR;
-                goto err_free_hash_ctx_out;
-            }
+            if (n_written < 0)
+                return n_written;
+            if (n_written != sizeof(ctx->buffer))
+                return -BPAK_WRITE_ERROR;
 
             output_offset += n_written;
             input_offset += BPAK_MERKLE_BLOCK_SZ;
         }
     }
 
-    bpak_hash_free(&ctx->running_hash);
     /* Compute the root hash, which is the hash of the top level */
     bpak_printf(2, "Computing root hash\n");
     rc = bpak_hash_init(&ctx->running_hash, BPAK_HASH_SHA256);
-- 
2.43.0


From e0bb4a417f2680609841324cfe096af55e7ce891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:05 +0000
Subject: [PATCH 80/85] fix: keep the signature in the handle when signing
 fails

---
 lib/pkg_sign.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/pkg_sign.c b/lib/pkg_sign.c
index 9cd2002..d4964e3 100644
--- a/lib/pkg_sign.c
+++ b/lib/pkg_sign.c
@@ -24,6 +24,8 @@ BPAK_EXPORT int bpak_pkg_sign(struct bpak_package *pkg,
     struct bpak_key *sign_key = NULL;
     uint8_t hash_output[BPAK_HASH_MAX_LENGTH];
     size_t hash_size = sizeof(hash_output);
+    uint8_t signature[sizeof(pkg->header.signature)];
+    size_t signature_length = sizeof(signature);
 
     rc = bpak_pkg_update_hash(pkg, (char *)hash_output, &hash_size);
 
@@ -36,20 +38,19 @@ BPAK_EXPORT int bpak_pkg_sign(struct bpak_package *pkg,
         return rc;
     }
 
-    memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
-
-    size_t signature_length = sizeof(pkg->header.signature);
+    memset(signature, 0, sizeof(signature));
 
     rc = bpak_crypto_sign(hash_output,
                           hash_size,
                           pkg->header.hash_kind,
                           sign_key,
-                          pkg->header.signature,
+                          signature,
                           &signature_length);
 
     if (rc != BPAK_OK)
         goto err_free_key_out;
 
+    memcpy(pkg->header.signature, signature, sizeof(signature));
     pkg->header.signature_sz = (uint16_t)signature_length;
 
     rc = bpak_pkg_write_header(pkg);
-- 
2.43.0


From bd7dcdc7ba6aa0404c00b422525213f5ebf5e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:14 +0000
Subject: [PATCH 81/85] fix: keep the payload hash in the handle when computing
 it fails

---
 lib/pkg.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index e9313bd..fafe004 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -129,20 +129,34 @@ static ssize_t pkg_read_payload(off_t offset, uint8_t *buf, size_t length,
     return read_bytes;
 }
 
-BPAK_EXPORT int bpak_pkg_update_hash(struct bpak_package *pkg, char *output,
-                                     size_t *size)
+/* The header keeps its payload hash if the new one can't be computed */
+static int update_payload_hash(struct bpak_package *pkg,
+                               bpak_io_t read_payload, void *user)
 {
+    uint8_t hash[sizeof(pkg->header.payload_hash)];
+    size_t hash_size = sizeof(hash);
     int rc;
 
-    size_t hash_size = sizeof(pkg->header.payload_hash);
-
     rc = bpak_verify_compute_payload_hash(&pkg->header,
-                                          pkg_read_payload,
+                                          read_payload,
                                           sizeof(struct bpak_header),
-                                          (void *)pkg->fp,
-                                          pkg->header.payload_hash,
+                                          user,
+                                          hash,
                                           &hash_size);
 
+    if (rc == BPAK_OK)
+        memcpy(pkg->header.payload_hash, hash, hash_size);
+
+    return rc;
+}
+
+BPAK_EXPORT int bpak_pkg_update_hash(struct bpak_package *pkg, char *output,
+                                     size_t *size)
+{
+    int rc;
+
+    rc = update_payload_hash(pkg, pkg_read_payload, (void *)pkg->fp);
+
     if (rc != BPAK_OK)
         return rc;
 
-- 
2.43.0


From 85eb044bd05993f5e3f9118352b6ef9eefb26758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:18 +0000
Subject: [PATCH 82/85] fix: compute the payload hash before parts are deleted

---
 lib/pkg.c | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index fafe004..b7bfd02 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -522,6 +522,24 @@ err_close_fp_out:
     return rc;
 }
 
+struct read_without_private {
+    FILE *fp;
+    uint64_t offset; /* Start of the data that is left out */
+    uint64_t length;
+};
+
+/* Reads the payload as it will be when some data has been taken out */
+static ssize_t pkg_read_without(off_t offset, uint8_t *buf, size_t size,
+                                void *user)
+{
+    struct read_without_private *priv = (struct read_without_private *)user;
+
+    if ((uint64_t)offset >= priv->offset)
+        offset += priv->length;
+
+    return pkg_read_payload(offset, buf, size, priv->fp);
+}
+
 BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
                                      bpak_id_t part_id, bool remove_meta)
 {
@@ -531,6 +549,8 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     uint64_t p_decoded_size;
     struct bpak_header *h = bpak_pkg_header(pkg);
     struct bpak_part_header *part = NULL;
+    struct bpak_header old_header;
+    struct read_without_private read_without;
 
     bpak_printf(1, "Deleting 0x%08x\n", part_id);
 
@@ -540,6 +560,8 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
         return rc;
     }
 
+    memcpy(&old_header, h, sizeof(old_header));
+
     p_offset = bpak_part_offset(h, part);
     p_size = bpak_part_size(part);
     p_decoded_size = part->size + part->pad_bytes;
@@ -568,6 +590,18 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
         }
     }
 
+    /* Nothing is changed in the file before the new hash is known */
+    read_without.fp = pkg->fp;
+    read_without.offset = p_offset;
+    read_without.length = p_size;
+
+    rc = update_payload_hash(pkg, pkg_read_without, &read_without);
+    if (rc != BPAK_OK) {
+        bpak_printf(0, "%s: Error: Could not update payload hash\n", __func__);
+        memcpy(h, &old_header, sizeof(old_header));
+        return rc;
+    }
+
     /* Move the actual data, range [p_offset+p_size  end) to [p_offset  end-p_size)
      * and then truncate the file
      */
@@ -603,12 +637,6 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
         write_offset += chunk_read;
     }
 
-    rc = bpak_pkg_update_hash(pkg, NULL, NULL);
-    if (rc != BPAK_OK) {
-        bpak_printf(0, "%s: Error: Could not update payload hash\n", __func__);
-        return rc;
-    }
-
     rc = bpak_pkg_write_header(pkg);
     if (rc != BPAK_OK) {
         bpak_printf(0, "%s: Error: Could not write header\n", __func__);
@@ -636,8 +664,11 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_meta)
 {
     struct bpak_header *h = bpak_pkg_header(pkg);
+    struct bpak_header old_header;
     int rc;
 
+    memcpy(&old_header, h, sizeof(old_header));
+
     /* Clear out all parts data */
     memset(h->parts, 0, sizeof(h->parts));
 
@@ -655,6 +686,7 @@ BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_
     rc = bpak_pkg_update_hash(pkg, NULL, NULL);
     if (rc != BPAK_OK) {
         bpak_printf(0, "%s: Error: Could not update payload hash\n", __func__);
+        memcpy(h, &old_header, sizeof(old_header));
         return rc;
     }
 
-- 
2.43.0


From ca95d5972401568b393b2f6a6dec962b6a2cb363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:30 +0000
Subject: [PATCH 83/85] fix: answer the root hash again when a tree is finished
 twice

---
 lib/merkle.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/merkle.c b/lib/merkle.c
index 823379b..3211fe1 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -329,7 +329,12 @@ BPAK_EXPORT int bpak_merkle_finish(struct bpak_merkle_context *ctx,
         input_offset += chunk_length;
     }
 
-    rc = bpak_hash_final(&ctx->running_hash, roothash, 32, NULL);
+    rc = bpak_hash_final(&ctx->running_hash, ctx->buffer, 32, NULL);
+
+    if (rc != BPAK_OK)
+        goto err_free_hash_ctx_out;
+
+    memcpy(roothash, ctx->buffer, 32);
     ctx->finished = true;
 
 err_free_hash_ctx_out:
-- 
2.43.0


From a9d7d93498a415e18ebc568ca429136cf1874f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:33 +0000
Subject: [PATCH 84/85] fix: start a block of a hash tree over when hashing it
 fails

---
 lib/merkle.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/merkle.c b/lib/merkle.c
index 3211fe1..9687c78 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -204,6 +204,8 @@ BPAK_EXPORT int bpak_merkle_write_chunk(struct bpak_merkle_context *ctx,
 
     return BPAK_OK;
 err_free_hash_ctx_out:
+    /* The hash is gone: the block starts over */
+    ctx->block_byte_counter = BPAK_MERKLE_BLOCK_SZ;
     bpak_hash_free(&ctx->running_hash);
     return rc;
 }
-- 
2.43.0


From 84c2dbc11b24591a15732d3085fa2f94eeec84c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:48 +0000
Subject: [PATCH 85/85] fix: python: closing a package while it is being worked
 on

---
 python/package.c        | 72 ++++++++++++++++++++++++++++-------------
 python/python_wrapper.c |  5 +++
 python/python_wrapper.h |  4 +++
 3 files changed, 58 insertions(+), 23 deletions(-)

diff --git a/python/package.c b/python/package.c
index 75abfca..35f7bd2 100644
--- a/python/package.c
+++ b/python/package.c
@@ -36,6 +36,17 @@ int package_write_header(BPAKPackage *package, bool update_hash)
     return rc;
 }
 
+static bool package_may_close(void)
+{
+    if (log_func_running) {
+        PyErr_SetString(PyExc_ValueError,
+                        "package can not be closed by the log function");
+        return false;
+    }
+
+    return true;
+}
+
 static PyObject *package_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 {
     (void)args;
@@ -81,6 +92,11 @@ static int package_init(BPAKPackage *self, PyObject *args, PyObject *kwds)
         return -1;
     }
 
+    if (!package_may_close()) {
+        Py_DECREF(filename_ascii);
+        return -1;
+    }
+
     /* May have been open before */
     bpak_pkg_close(&self->pkg);
 
@@ -100,6 +116,10 @@ static PyObject *package_close(PyObject *self, PyObject *Py_UNUSED(args))
 {
     BPAKPackage *package = (BPAKPackage *)self;
 
+    if (!package_may_close()) {
+        return NULL;
+    }
+
     bpak_pkg_close(&package->pkg);
     memset(&package->pkg, 0, sizeof(package->pkg));
 
@@ -114,10 +134,6 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
     struct bpak_key *key = NULL;
     static char *kwlist[] = {"verify_key_path", NULL};
 
-    if (!package_is_open(self)) {
-        return NULL;
-    }
-
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
                                      "O&:verify",
@@ -135,6 +151,12 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
         return NULL;
     }
 
+    /* Not before: converting the arguments may close the package */
+    if (!package_is_open(self)) {
+        Py_DECREF(filename_ascii);
+        return NULL;
+    }
+
     rc = bpak_crypto_load_public_key(PyBytes_AsString(filename_ascii), &key);
 
     Py_DECREF(filename_ascii);
@@ -162,10 +184,6 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
     static char *kwlist[] = {"sign_key_path", NULL};
     BPAKPackage *package = (BPAKPackage *)self;
 
-    if (!package_is_open(package)) {
-        return NULL;
-    }
-
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
                                      "O&:verify",
@@ -183,6 +201,12 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
+    /* Not before: converting the arguments may close the package */
+    if (!package_is_open(package)) {
+        Py_DECREF(filename_ascii);
+        return NULL;
+    }
+
     rc = bpak_pkg_sign(&package->pkg, PyBytes_AsString(filename_ascii));
 
     Py_DECREF(filename_ascii);
@@ -206,10 +230,6 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
     PyObject *filename;
     int with_merkle_tree = 0;
 
-    if (!package_is_open(package)) {
-        return NULL;
-    }
-
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
                                      "sO&|p:add_file",
@@ -229,6 +249,12 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
+    /* Not before: converting the arguments may close the package */
+    if (!package_is_open(package)) {
+        Py_DECREF(filename_ascii);
+        return NULL;
+    }
+
     if (with_merkle_tree) {
         rc = bpak_pkg_add_file_with_merkle_tree(&package->pkg,
                 PyBytes_AsString(filename_ascii), part_name, 0);
@@ -263,10 +289,6 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
     const char *part_name = NULL;
     PyObject *filename;
 
-    if (!package_is_open(package)) {
-        return NULL;
-    }
-
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
                                      "sO&:add_key",
@@ -285,6 +307,12 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
+    /* Not before: converting the arguments may close the package */
+    if (!package_is_open(package)) {
+        Py_DECREF(filename_ascii);
+        return NULL;
+    }
+
 
     rc = bpak_pkg_add_key(&package->pkg, PyBytes_AsString(filename_ascii), part_name, 0);
 
@@ -316,10 +344,6 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
     PyObject *data = NULL;
     Py_ssize_t size = -1;
 
-    if (!package_is_open(package)) {
-        return NULL;
-    }
-
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
                                      "O&|O&On:add_meta",
@@ -333,6 +357,10 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
+    if (!package_is_open(package)) {
+        return NULL;
+    }
+
     if (!data && size < 0) {
         return PyErr_Format(PyExc_TypeError, "must specify either initial data or size");
     }
@@ -475,9 +503,7 @@ static PyObject *package_enter(PyObject *self, PyObject *Py_UNUSED(args))
 
 static PyObject *package_exit(PyObject *self, PyObject *args)
 {
-    package_close(self, args);
-
-    Py_RETURN_NONE;
+    return package_close(self, args);
 }
 
 /* Getters and setters */
diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index ade7225..a27389e 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -36,6 +36,7 @@ int uint32_converter(PyObject *value, void *output)
 }
 
 static PyObject *log_func = Py_None;
+bool log_func_running = false;
 
 int bpak_printf(int verbosity, const char *fmt, ...)
 {
@@ -46,8 +47,12 @@ int bpak_printf(int verbosity, const char *fmt, ...)
     va_end(args);
 
     if (log_func != Py_None) {
+        bool was_running = log_func_running;
+
+        log_func_running = true;
         PyObject *result =
             PyObject_CallFunction(log_func, "(is)", verbosity, log_buf);
+        log_func_running = was_running;
 
         /* Who is logging can not pass on an exception */
         if (result == NULL) {
diff --git a/python/python_wrapper.h b/python/python_wrapper.h
index 109f168..fd6312d 100644
--- a/python/python_wrapper.h
+++ b/python/python_wrapper.h
@@ -29,6 +29,10 @@ extern PyTypeObject BPAKMetaType;
 
 extern PyObject *BPAKPackageError;
 
+/* True while the log function runs: a package may be in the middle of an
+ * operation, and can not be closed */
+extern bool log_func_running;
+
 /* Sets an exception unless the package is open */
 bool package_is_open(BPAKPackage *package);
 
-- 
2.43.0

