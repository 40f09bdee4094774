From 34d1e1dc43ab188f0faf426854b282ac864c7f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:53 +0000
Subject: [PATCH 001/164] fix: evfs_path_basename() reads before the start of
 an empty path

---
 src/evfs_path.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index b36e66d..408e2e4 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -95,15 +95,12 @@ Returns:
 int evfs_path_basename(const char *path, StringRange *tail) {
   if(PTR_CHECK(path) || PTR_CHECK(tail)) return EVFS_ERR_BAD_ARG;
   const char *end = (char *)path + strlen(path);
-  const char *pos = end - 1;
+  const char *pos = end;
 
   // Look for rightmost delimiter
-  while(pos > path && !char_match(*pos, EVFS_PATH_SEPS)) // Skip basename
+  while(pos > path && !char_match(*(pos-1), EVFS_PATH_SEPS)) // Skip basename
     pos--;
 
-  if(char_match(*pos, EVFS_PATH_SEPS))
-    pos++;
-
   range_init(tail, pos, end-pos);
 
   return EVFS_OK;
-- 
2.43.0


From 743ce4ca9f301551a88a74ebd8cce595cc125147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:53 +0000
Subject: [PATCH 002/164] fix: evfs_path_extname() treats leading periods as an
 extension

---
 src/evfs_path.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 408e2e4..3d01680 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -135,7 +135,12 @@ int evfs_path_extname(const char *path, StringRange *ext) {
     }
   }
 
-  if(pos > ext->start) { // Extension found
+  // Leading periods are part of the root name: "..foo" and "..." have no extension
+  const char *name = ext->start;
+  while(name < ext->end && *name == '.')
+    name++;
+
+  if(pos > name) { // Extension found
     ext->start = pos;
   } else { // Return empty range
     ext->start = ext->end;
-- 
2.43.0


From 91499bf7f8aa07ebb5d006d878ae75cdfbfe3d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:53 +0000
Subject: [PATCH 003/164] fix: evfs_path_dirname() leaves redundant trailing
 separators

---
 src/evfs_path.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 3d01680..32f3295 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -167,6 +167,10 @@ int evfs_vfs_path_dirname(Evfs *vfs, const char *path, StringRange *head) {
     pos++;
   }
 
+  // Drop any redundant separators left at the end of a non-root path
+  while(pos > path + range_size(&root) && char_match(*(pos-1), EVFS_PATH_SEPS))
+    pos--;
+
   range_init(head, path, pos - path);
 
   return  EVFS_OK;
-- 
2.43.0


From e39eeee20c1335a706548661dd1dac002c35f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:53 +0000
Subject: [PATCH 004/164] fix: path normalization takes any segment starting
 with '..' as a parent reference

---
 src/evfs_path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 32f3295..88d99ef 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -307,7 +307,7 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
 
     // Skip '.' segments
     if(!(range_size(&token) == 1 && *token.start == '.')) {
-      if(!strncmp(token.start, "..", 2)) { // Token is '..', Remove previous segment
+      if(range_eq(&token, "..")) { // Token is '..', Remove previous segment
         // Search back through mask for most recent kept segment and remove it
         // We preserve ".." segments if no preceding non-".." segment is found
         found_prev_dir = false;
@@ -429,7 +429,7 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
     // Add tokens except for '.'
     if(!(range_size(&token) == 1 && *token.start == '.')) {
       // Pop stack if token is '..' unless the stack is empty
-      if(!strncmp(token.start, "..", 2)) {
+      if(range_eq(&token, "..")) {
         if(stack_head > preserved_parent_ref+1) {
           stack_head--;
         } else if(!is_absolute) { // Relative paths need leading ".." preserved
-- 
2.43.0


From 4fe769d2f30ac157ddf1bd40c573c5de1d36ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:53 +0000
Subject: [PATCH 005/164] fix: normalizing a drive relative path can lose the
 drive

---
 src/evfs_path.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 88d99ef..453bba2 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -289,8 +289,7 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
   const char *path_start = path;
   StringRange root;
   bool is_absolute = vfs->m_path_root_component(vfs, path, &root);
-  if(is_absolute)
-    path_start += range_size(&root);
+  path_start += range_size(&root);
 
   // Iterate over each segment of path
   StringRange token;
@@ -342,8 +341,8 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
 
   bool truncated = false;
 
-  // If absolute path add root prefix
-  if(is_absolute) {
+  // Add root prefix (A relative path can have a drive letter)
+  if(range_size(&root) > 0) {
 
     // Copy the un-normalized root
     if(append_normalized_root(vfs, &norm_r, &root))
@@ -400,8 +399,7 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
   const char *path_start = path;
   StringRange root;
   bool is_absolute = vfs->m_path_root_component(vfs, path, &root);
-  if(is_absolute)
-    path_start += range_size(&root);
+  path_start += range_size(&root);
 
 
   // Iterate over each segment of path
@@ -449,8 +447,8 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
   // Assemble the stacked tokens into a path
   bool truncated = false;
 
-  // If absolute path add root prefix
-  if(is_absolute) {
+  // Add root prefix (A relative path can have a drive letter)
+  if(range_size(&root) > 0) {
     if(append_normalized_root(vfs, normalized, &root))
       truncated = true;
   }
-- 
2.43.0


From a187c77f6aabb0e0a995dd823e613829b776e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:53 +0000
Subject: [PATCH 006/164] fix: evfs_path_join() silently drops the last
 character when the output is one byte short

---
 src/evfs_path.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 453bba2..84eaaaa 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -199,26 +199,28 @@ int evfs_vfs_path_join(Evfs *vfs, StringRange *head, StringRange *tail, StringRa
 
   size_t head_len = range_strlen(head);
   size_t tail_len = range_strlen(tail);
+
+  // Join with the separator
+  // If head is empty no separator
+  // If head is only a root component we don't need to add an extra separator
+  StringRange root;
+  vfs->m_path_root_component(vfs, head->start, &root);
+  bool add_sep = head_len > 0 && head_len != (size_t)range_size(&root);
+
   // We need to fit in the joined string, possibly with a new separator
-  size_t joined_len = head_len + 1 + tail_len;
+  size_t joined_len = head_len + (add_sep ? 1 : 0) + tail_len;
 
 
 #ifndef ALLOW_LONG_PATHS
   if(ASSERT(joined_len < EVFS_MAX_PATH, "joined string too long")) return EVFS_ERR_OVERFLOW;
 #endif
 
-  if(ASSERT(joined_len <= (size_t)range_size(&joined_a), "joined string too long")) return EVFS_ERR_OVERFLOW;
+  if(ASSERT(joined_len < (size_t)range_size(&joined_a), "joined string too long")) return EVFS_ERR_OVERFLOW;
 
 
   range_cat_range(&joined_a, head);
 
-  // Join with the separator
-  // If head is empty no separator
-  // If head is only a root component we don't need to add an extra separator
-  StringRange root;
-  vfs->m_path_root_component(vfs, head->start, &root);
-
-  if(head_len > 0 && head_len != (size_t)range_size(&root))
+  if(add_sep)
     range_cat_char(&joined_a, EVFS_DIR_SEP);
 
   if(tail_len > 0)
-- 
2.43.0


From 54ac2c6ee47b433de2011b7e4a8476b027391b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:01 +0000
Subject: [PATCH 007/164] fix: evfs_make_path_range() modifies the range passed
 by the caller

---
 src/evfs.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 8c3d0aa..899f73e 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -696,13 +696,17 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
   range_init(&cur_path_r, cur_path, path_len+1);
 
   size_t limit = path_len;
+  const char *path_start = path->start; // Don't modify caller's range
 
   // Add root separator for absolute paths
   StringRange root;
   bool is_absolute = vfs->m_path_root_component(vfs, path->start, &root);
   if(is_absolute) {
+    if(root.end > path->end) // Redundant separators can continue beyond the range
+      root.end = path->end;
+
     // Skip over the root component
-    path->start += range_size(&root);
+    path_start += range_size(&root);
     limit -= range_size(&root);
     range_cat_range(&cur_path_r, &root); // Add root component to the buffer
   }
@@ -710,7 +714,7 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
 
   // Iterate over each segment of path creating any non-existant directories
   StringRange token;
-  bool new_tok = range_token_limit(path->start, EVFS_PATH_SEPS, &token, &limit);
+  bool new_tok = range_token_limit(path_start, EVFS_PATH_SEPS, &token, &limit);
   while(new_tok) {
     range_cat_range(&cur_path_r, &token); // Append new token
     EvfsInfo info;
-- 
2.43.0


From 250e89100484110b3d3177aaea4b4b2559ce4857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:01 +0000
Subject: [PATCH 008/164] fix: evfs_make_path() reports success when the path
 is an existing file

---
 src/evfs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evfs.c b/src/evfs.c
index 899f73e..3635066 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -729,6 +729,9 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
     } else if(err != EVFS_OK) { // Can't get status of segment
       rval = err;
       goto cleanup;
+    } else if(!(info.type & EVFS_FILE_DIR)) { // A file is in the way
+      rval = EVFS_ERR_NO_PATH;
+      goto cleanup;
     }
 
     range_cat_char(&cur_path_r, EVFS_DIR_SEP);
-- 
2.43.0


From c14643c71c10c976404db77e24ff2fbe0e2f2892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:01 +0000
Subject: [PATCH 009/164] fix: range_token_limit() scans beyond its limit and
 returns empty tokens

---
 src/util/range_strings.c | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 2980afd..1c3246c 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -1054,25 +1054,20 @@ bool range_token_limit(const char *str, const char *delim, StringRange *token, s
 
 
   // Skip leading delimiters
-  size_t consumed = strspn(str, delim);
+  size_t consumed = 0;
+  while(consumed < *limit && str[consumed] != '\0' && strchr(delim, str[consumed]))
+    consumed++;
+
   str += consumed;
-  if(*str == '\0') // No more tokens
+  if(consumed == *limit || *str == '\0') // No more tokens
     return false;
 
   // Get token length
-  size_t tok_len = strcspn(str, delim);
-  if(consumed + tok_len > *limit) {// Truncate token
-    if(consumed <= *limit)
-      tok_len = *limit - consumed;
-    else
-      tok_len = 0;
-  }
-  consumed += tok_len;
-
-  if(consumed > *limit)
-    consumed = *limit;
+  size_t tok_len = 0;
+  while(consumed + tok_len < *limit && str[tok_len] != '\0' && !strchr(delim, str[tok_len]))
+    tok_len++;
 
-  *limit -= consumed;
+  *limit -= consumed + tok_len;
 
   // Save token
   token->start = (char *)str;
-- 
2.43.0


From 113fab09ebb96fbfccea98c584721bb901fb4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 010/164] fix: evfs_copy_to_file() hides an error closing the
 destination

---
 src/evfs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/evfs.c b/src/evfs.c
index 3635066..800fb22 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -941,7 +941,10 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
     evfs_free(buf);
 
 cleanup:
-  evfs_file_close(dest_fh);
+  ; // Data may not reach the destination until it is closed
+  int close_rval = evfs_file_close(dest_fh);
+  if(rval == EVFS_OK)
+    rval = close_rval;
 
   return rval;
 }
-- 
2.43.0


From 4ff5b6b1f9fa508acdae654202ba710abb66e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 011/164] fix: evfs_copy_to_file() ignores the buffer passed by
 the caller

---
 include/evfs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/evfs.h b/include/evfs.h
index c687258..19ffc8f 100644
--- a/include/evfs.h
+++ b/include/evfs.h
@@ -348,7 +348,7 @@ static inline int evfs_vfs_ctrl(int op, void *arg) {
 int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size, const char *vfs_name);
 
 static inline int evfs_copy_to_file(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size) {
-  return evfs_copy_to_file_ex(dest_path, fh, NULL, 0, NULL);
+  return evfs_copy_to_file_ex(dest_path, fh, buf, buf_size, NULL);
 }
 
 
-- 
2.43.0


From 96a68d7a532498b84fa32215128a9aef202055bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 012/164] fix: glob_match() never returns when a range ends at
 the last character code

---
 src/util/glob.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/glob.c b/src/util/glob.c
index efda6d7..88c5b5b 100644
--- a/src/util/glob.c
+++ b/src/util/glob.c
@@ -68,7 +68,7 @@ typedef struct {
 
 static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
   const char *rng_pos;
-  char ch, end_ch;
+  char end_ch;
   bool invert = false;
 
   if(*(pat_pos+1) == '!') {
@@ -85,7 +85,7 @@ static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
         break;
       }
 
-      for(ch = *rng_pos; ch <= end_ch; ch++) { // Add all chars in span
+      for(int ch = *rng_pos; ch <= end_ch; ch++) { // Add all chars in span
         ADD_TO_SET(cs, ch);
       }
       rng_pos += 2;
-- 
2.43.0


From 609ed85714eafc696bfa92803dd7b42abc09c690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 013/164] fix: glob_match() reads past the end of the string or
 pattern on character ranges

---
 src/util/glob.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/glob.c b/src/util/glob.c
index 88c5b5b..c417c3e 100644
--- a/src/util/glob.c
+++ b/src/util/glob.c
@@ -168,7 +168,7 @@ bool glob_match(const char *pattern, const char *str, const char *dir_separators
       case '[': // Character range
         memset(&cs, 0, sizeof(cs));
         pat_pos = parse_range_def(pat_pos, &cs);
-        if(CHAR_IS_IN_SET(&cs, s_ch)) {
+        if(*pat_pos == ']' && s_ch != '\0' && CHAR_IS_IN_SET(&cs, s_ch)) {
           str_pos++;
           pat_pos++;
           continue;
-- 
2.43.0


From a00fe86c90c5cf383151aefc57d8b5db5fec86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 014/164] fix: dhash reads and writes beyond value objects that
 are not a multiple of the pointer size

---
 include/evfs/util/dhash.h |  3 ++-
 src/util/dhash.c          | 24 +++++++++++-------------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/evfs/util/dhash.h b/include/evfs/util/dhash.h
index e432506..33d712e 100644
--- a/include/evfs/util/dhash.h
+++ b/include/evfs/util/dhash.h
@@ -108,7 +108,8 @@ typedef struct dhash {
 #endif
 
   // Configuration
-  size_t          value_size;   // Bytes per entry value
+  size_t          value_size;   // Bytes per entry value padded for alignment
+  size_t          item_size;    // Bytes in the value objects passed by the user
   size_t          max_storage;  // Max bytes to use for bucket array
 
   // Callbacks
diff --git a/src/util/dhash.c b/src/util/dhash.c
index 1a57bf2..36a9488 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -391,6 +391,7 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
       .prime_ix     = prime_ix,
 #endif
       .value_size   = value_size,
+      .item_size    = config->value_size,
       .max_storage  = config->max_storage,
       .ctx          = ctx,
       .destroy_item = config->destroy_item,
@@ -701,7 +702,7 @@ bool dh_lookup(dhash *hash, dhKey key, void *value) {
 
   if(entry && !WAS_DELETED(entry)) { // Found match
     if(value)
-      memcpy(value, &entry->value_obj, hash->value_size);
+      memcpy(value, &entry->value_obj, hash->item_size);
     return true;
   }
 
@@ -747,14 +748,11 @@ bool dh_lookup_in_place(dhash *hash, dhKey key, void **value) {
 // ******************** Storage ********************
 
 // Exchange value objects for Robin Hood algo.
-static inline void swap_values(uintptr_t * restrict v1, uintptr_t * restrict v2, size_t value_size) {
-  uintptr_t temp;
+// The value may come from the user so only swap its real size without padding.
+static inline void swap_values(uint8_t * restrict v1, uint8_t * restrict v2, size_t item_size) {
+  uint8_t temp;
 
-  // The value size is rounded up to a multiple of uintptr_t alignment so this
-  // will never have a remainder.
-  value_size /= sizeof(uintptr_t);
-
-  for(size_t i = 0; i < value_size; i++) {
+  for(size_t i = 0; i < item_size; i++) {
     temp = v1[i];
     v1[i] = v2[i];
     v2[i] = temp;
@@ -781,7 +779,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
       entry->ikey = ikey;
 #endif
       entry->key = key;
-      memcpy(&entry->value_obj, value, hash->value_size);
+      memcpy(&entry->value_obj, value, hash->item_size);
 
       SET_PROBE_COUNT(entry, probes);
       hash->used_buckets++;
@@ -803,7 +801,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
 
       hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
       entry->key = key;
-      memcpy(&entry->value_obj, value, hash->value_size);
+      memcpy(&entry->value_obj, value, hash->item_size);
       return true;
     }
 
@@ -814,7 +812,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
         entry->ikey = ikey;
 #endif
         entry->key = key;
-        memcpy(&entry->value_obj, value, hash->value_size);
+        memcpy(&entry->value_obj, value, hash->item_size);
 
         CLEAR_DELETED(entry); // Clear tombstone
         SET_PROBE_COUNT(entry, probes);
@@ -839,7 +837,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
       key    = titem.key;
       probes = PROBE_COUNT(&titem);
 
-      swap_values((uintptr_t *)&entry->value_obj, (uintptr_t *)value, hash->value_size);
+      swap_values((uint8_t *)&entry->value_obj, (uint8_t *)value, hash->item_size);
     }
 
     // Continue linear probe
@@ -974,7 +972,7 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     // Return removed value if caller wants to manage it, otherwise destroy it
     // after we finish internal bookkeeping.
     if(value)
-      memcpy(value, &entry->value_obj, hash->value_size);
+      memcpy(value, &entry->value_obj, hash->item_size);
 
 #ifdef DH_USE_MEMOIZED_HASH
     entry->ikey = 0;
-- 
2.43.0


From 33c38477239ae11b6d777fb5f774fd0267404a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 015/164] fix: dhash overruns an external storage buffer
 smaller than the minimum bucket count

---
 src/util/dhash.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index 36a9488..4c63c4a 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -317,12 +317,12 @@ static inline dhBucketEntry *dh__get_entry(dhash *hash, dhBucketIndex b) {
 static bool dh__alloc_buckets(dhash *hash, size_t new_num_buckets) {
 
 #ifndef DH_USE_2X_GROWTH
-#  define DH_MIN_BUCKETS   s_prime_modulus[0]
+#  define DH_MIN_BUCKETS   (size_t)s_prime_modulus[0]
 #else
-#  define DH_MIN_BUCKETS   4
+#  define DH_MIN_BUCKETS   (size_t)4
 #endif
 
-  new_num_buckets = MAX(new_num_buckets, (size_t)DH_MIN_BUCKETS);
+  new_num_buckets = MAX(new_num_buckets, DH_MIN_BUCKETS);
 
   size_t bucket_size = sizeof(dhBucketEntry) + hash->value_size;
   size_t new_size = new_num_buckets * bucket_size;
@@ -409,6 +409,11 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
       size_t bucket_size = sizeof(dhBucketEntry) + value_size;
       size_t ext_buckets = config->max_storage / bucket_size;
 
+      if(ext_buckets < DH_MIN_BUCKETS) { // Storage is too small for any hash
+        hash->buckets = NULL;
+        return false;
+      }
+
       // Set largest bucket count for our growth scheme
 #ifndef DH_USE_2X_GROWTH
       hash->prime_ix = get_closest_prime_index_below(ext_buckets);
-- 
2.43.0


From 0aab62bad2db5b3d4979e1d3609ff82e8a9eade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 016/164] fix: dh_remove() passes an empty key to the
 destroy_item() callback

---
 src/util/dhash.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index 4c63c4a..df84eb8 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -979,6 +979,8 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     if(value)
       memcpy(value, &entry->value_obj, hash->item_size);
 
+    dhKey old_key = entry->key; // Needed by the owner to identify the item
+
 #ifdef DH_USE_MEMOIZED_HASH
     entry->ikey = 0;
 #endif
@@ -990,7 +992,7 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     hash->used_buckets--;
 
     if(!value)
-      hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
+      hash->destroy_item(old_key, &entry->value_obj, hash->ctx);
 
     memset(&entry->value_obj, 0, hash->value_size);
 
-- 
2.43.0


From ad979dd7afcf5463a018d1c60bf7d2cba46745ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:40 +0000
Subject: [PATCH 017/164] fix: dh_reserve_capacity() can reserve one entry less
 than requested

---
 src/util/dhash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index df84eb8..96b677f 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -1082,7 +1082,7 @@ bool dh_reserve_capacity(dhash *hash, size_t add_capacity) {
 
   // Add space for extra buckets
   const size_t lfactor = MAX_LOAD_FACTOR(128UL); // Get the numerator
-  size_t new_buckets = (hash_capacity + add_capacity) * 128UL / lfactor;
+  size_t new_buckets = ((hash_capacity + add_capacity) * 128UL + lfactor-1) / lfactor; // Round up
 
   return dh__grow(hash, new_buckets);
 }
-- 
2.43.0


From d69a33ba80f3608c9340981c9b48e327151e1449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 018/164] fix: dh_insert() can match a removed entry and lose
 the new value

---
 src/util/dhash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index 96b677f..14c0c5d 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -791,7 +791,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
       return true;
     }
 
-    if(
+    if(!WAS_DELETED(entry) &&
 #ifdef DH_USE_MEMOIZED_HASH
         entry->ikey == ikey &&
 #endif
-- 
2.43.0


From d1ede3b2f08fb80c9eb459b3b23660ef084cb63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 019/164] fix: string range appends write past the end of a
 full range

---
 src/util/range_strings.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 1c3246c..00d8fcf 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -206,7 +206,7 @@ int range_copy_str(AppendRange *rng, const char *str, bool truncate) {
   rval = src - str; // Number of bytes copied
 
   if(!done) { // Truncated
-    if(truncate) {
+    if(truncate && dest > rng->start) {
       dest--;
       *dest = '\0';
       rval = -(rval-1);
@@ -321,7 +321,7 @@ int range_cat_str(AppendRange *rng, const char *str) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start && rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strlen(src)); // Add uncopied bytes
   }
@@ -361,7 +361,7 @@ int range_cat_str_no_nul(AppendRange *rng, const char *str) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start && rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strlen(src)); // Add uncopied bytes
   }
@@ -410,7 +410,7 @@ int range_cat_range(AppendRange *rng, StringRange *src_rng) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start && rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strnlen(src, src_rng->end - src)); // Add uncopied bytes
   }
@@ -459,7 +459,7 @@ int range_cat_range_no_nul(AppendRange *rng, StringRange *src_rng) {
   if(done) {
     rng->start = dest;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start && rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strnlen(src, src_rng->end - src)); // Add uncopied bytes
   }
-- 
2.43.0


From e7042fbeeb520d418bd1751ac76387baed166081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 020/164] fix: range_cat_str_no_nul() overwrites the last
 character on the next append

---
 src/util/range_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 00d8fcf..a1fba9b 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -359,7 +359,7 @@ int range_cat_str_no_nul(AppendRange *rng, const char *str) {
   rval = src - str; // Number of bytes copied
 
   if(done) {
-    rng->start = dest-1;
+    rng->start = dest;
   } else { // Truncated
     if(rng->start && rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
-- 
2.43.0


From f6daaa669e46f82b17675788a8dad8abc254e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 021/164] fix: range_cat_int() overflows on INT32_MIN

---
 src/util/range_strings.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index a1fba9b..c88fa51 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -557,12 +557,13 @@ Returns:
 */
 int range_cat_int(AppendRange *rng, int32_t n) {
   int s_chars = 0;
+  uint32_t magnitude = (uint32_t)n;
   if(n < 0) {
-    n = -n; // NOTE: Does not work with INT_MIN
+    magnitude = 0 - magnitude; // Unsigned negation also works with INT_MIN
     s_chars = range_cat_char(rng, '-');
   }
 
-  int n_chars = range_cat_uint(rng, n);
+  int n_chars = range_cat_uint(rng, magnitude);
   if(n_chars < 0 && s_chars > 0)
     s_chars = -s_chars;
 
-- 
2.43.0


From 448993a7e229ab53c42ac6cf68bd2f412edc9e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 022/164] fix: jail shim acts on the wrong file when a path is
 too long to convert

---
 src/shim_jail.c | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index 70f3b2d..98e2d66 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -81,17 +81,19 @@ typedef struct JailDir_s {
 
 
 // Convert a jailed path into a real path on the base VFS
-static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
+static int unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
   AppendRange real_r = *(AppendRange *)real_path;
 
   // Start with jail root
-  range_cat_str(&real_r, shim_data->jail_root);
-  range_cat_char(&real_r, EVFS_DIR_SEP);
+  if(range_cat_str(&real_r, shim_data->jail_root) < 0 || range_cat_char(&real_r, EVFS_DIR_SEP) < 0)
+    return EVFS_ERR_TOO_LONG;
 
   // Convert path to absolute within the jail subtree
-  evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  if(status != EVFS_OK)
+    return status;
 
 //  DPRINT("Unjail: '%.*s'", RANGE_FMT(real_path));
 
@@ -106,6 +108,7 @@ static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   }
 
 //  DPRINT("\t\t'%.*s'", RANGE_FMT(real_path));
+  return EVFS_OK;
 }
 
 
@@ -276,9 +279,10 @@ static int jail__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
   UNLOCK();
   
   if(status == EVFS_OK) {
@@ -304,9 +308,10 @@ static int jail__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
+  if(status == EVFS_OK)
+    status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
   UNLOCK();
 
   return status;
@@ -320,9 +325,10 @@ static int jail__delete(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -335,13 +341,15 @@ static int jail__rename(Evfs *vfs, const char *old_path, const char *new_path) {
 
   LOCK();
   StringRange real_old_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, old_path, &real_old_path_r);
+  int status = unjail_path(vfs, old_path, &real_old_path_r);
 
   char real_new_path[EVFS_MAX_PATH];
   StringRange real_new_path_r = RANGE_FROM_ARRAY(real_new_path);
-  unjail_path(vfs, new_path, &real_new_path_r);
+  if(status == EVFS_OK)
+    status = unjail_path(vfs, new_path, &real_new_path_r);
 
-  int status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
   UNLOCK();
 
   return status;
@@ -354,9 +362,10 @@ static int jail__make_dir(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -374,9 +383,10 @@ static int jail__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
   UNLOCK();
 
   if(status == EVFS_OK) {
-- 
2.43.0


From 7f4363c48ce45b90a0c3ae86a3e1658aa1fd8dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 023/164] fix: jail shim returns a truncated current directory
 without an error

---
 src/shim_jail.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index 98e2d66..2fa4e32 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -411,9 +411,9 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   JailData *fs_data = (JailData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
   
-  range_cat_str(&r, fs_data->cur_dir);
+  int status = range_cat_str(&r, fs_data->cur_dir) < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
   range_terminate(&r);
-  return EVFS_OK;
+  return status;
 }
 
 
-- 
2.43.0


From c8c9e90269611d5959ecaafe833def7527795a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 024/164] fix: jail shim sets a truncated or undefined current
 directory when the path is too long

---
 src/shim_jail.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index 2fa4e32..a6812c8 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -418,6 +418,21 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 
 
 
+// Replace the current directory, leaving it unchanged if the normalized path doesn't fit
+static int change_cur_dir(Evfs *vfs, const char *path) {
+  JailData *shim_data = (JailData *)vfs->fs_data;
+
+  char new_dir[EVFS_MAX_PATH];
+  StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
+
+  int status = evfs_vfs_path_normalize(vfs, path, &new_dir_r);
+  if(status == EVFS_OK)
+    strlcpy(shim_data->cur_dir, new_dir, sizeof(shim_data->cur_dir));
+
+  return status;
+}
+
+
 static int jail__set_cur_dir(Evfs *vfs, const char *path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
@@ -426,8 +441,7 @@ static int jail__set_cur_dir(Evfs *vfs, const char *path) {
     if(!evfs__vfs_existing_dir(vfs, path))
       return EVFS_ERR_NO_PATH;
 
-    strlcpy(shim_data->cur_dir, path, sizeof(shim_data->cur_dir));
-    shim_data->cur_dir[sizeof(shim_data->cur_dir)-1] = '\0';
+    return change_cur_dir(vfs, path);
 
   } else { // Path is relative: Join it to the existing directory
     StringRange head, tail, joined;
@@ -443,21 +457,19 @@ static int jail__set_cur_dir(Evfs *vfs, const char *path) {
 
     range_init(&joined, joined_path, joined_size);
 
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    int status = evfs_vfs_path_join(vfs, &head, &tail, &joined);
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+    if(status == EVFS_OK && !evfs__vfs_existing_dir(vfs, joined_path))
+      status = EVFS_ERR_NO_PATH;
 
     // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+    if(status == EVFS_OK)
+      status = change_cur_dir(vfs, joined_path);
 
     evfs_free(joined_path);
+    return status;
   }
-
-  return EVFS_OK;
 }
 
 
-- 
2.43.0


From 1923f12f852890668b62abcbe3a61bba207fce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 025/164] fix: evfs_register_jail() uses an undefined root when
 its path cannot be converted

---
 src/shim_jail.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index a6812c8..d679582 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -528,7 +528,8 @@ int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const cha
   // Convert jail root to absolute
   char abs_root[EVFS_MAX_PATH];
   StringRange abs_root_r = RANGE_FROM_ARRAY(abs_root);
-  evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  int status = evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  if(status != EVFS_OK) return status;
 
   // Construct a new VFS
   // We have four objects allocated together [Evfs][JailData][char[]][char[]]
-- 
2.43.0


From 42912fc9253732367f6241e347c131fd6e36c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 026/164] fix: trace shim misreports negative seek offsets

---
 src/shim_trace.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shim_trace.c b/src/shim_trace.c
index 497dbb5..6e9a7c7 100644
--- a/src/shim_trace.c
+++ b/src/shim_trace.c
@@ -231,7 +231,7 @@ static int trace__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
   }
 
   trace_printf(shim_data, TP("%s.m_seek(" HL_NAME ", offset=%ld, origin=%s)"),
-               shim_data->vfs_name, fil->filename, offset, org_name);
+               shim_data->vfs_name, fil->filename, (long)offset, org_name);
   int status = fil->base_file->methods->m_seek(fil->base_file, offset, origin);
   trace_print_result(shim_data, evfs_err_name(status), status);
 
-- 
2.43.0


From d5df8a09d18d3ffc385109cf9d510c2b4b96b6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 027/164] fix: jail shim mishandles drive relative paths when
 changing directory

---
 src/shim_jail.c | 54 +++++++++----------------------------------------
 1 file changed, 10 insertions(+), 44 deletions(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index d679582..31ac65f 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -418,58 +418,24 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 
 
 
-// Replace the current directory, leaving it unchanged if the normalized path doesn't fit
-static int change_cur_dir(Evfs *vfs, const char *path) {
+static int jail__set_cur_dir(Evfs *vfs, const char *path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
+  // Resolve against the existing directory
   char new_dir[EVFS_MAX_PATH];
   StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
 
-  int status = evfs_vfs_path_normalize(vfs, path, &new_dir_r);
-  if(status == EVFS_OK)
-    strlcpy(shim_data->cur_dir, new_dir, sizeof(shim_data->cur_dir));
-
-  return status;
-}
-
-
-static int jail__set_cur_dir(Evfs *vfs, const char *path) {
-  JailData *shim_data = (JailData *)vfs->fs_data;
-
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-
-    return change_cur_dir(vfs, path);
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-
-    range_init(&head, shim_data->cur_dir, sizeof(shim_data->cur_dir));
-    range_init(&tail, (char *)path, strlen(path));
-
-    // Note: evfs__vfs_existing_dir() below is going to take the lock (via jail__stat) so
-    //       we have to malloc a buffer.
-    size_t joined_size = strlen(shim_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    int status = evfs_vfs_path_join(vfs, &head, &tail, &joined);
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
+  if(status != EVFS_OK)
+    return status;
 
-    // Confirm the path exists
-    if(status == EVFS_OK && !evfs__vfs_existing_dir(vfs, joined_path))
-      status = EVFS_ERR_NO_PATH;
+  // Confirm the path exists
+  if(!evfs__vfs_existing_dir(vfs, new_dir))
+    return EVFS_ERR_NO_PATH;
 
-    // Overwrite old cur_dir
-    if(status == EVFS_OK)
-      status = change_cur_dir(vfs, joined_path);
+  strlcpy(shim_data->cur_dir, new_dir, sizeof(shim_data->cur_dir));
 
-    evfs_free(joined_path);
-    return status;
-  }
+  return EVFS_OK;
 }
 
 
-- 
2.43.0


From d38b3081a919ee257019863385a34d193441ee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 028/164] fix: rotate shim leaves the container state of plain
 files undefined

---
 src/shim_rotate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 8d6f611..36de7cb 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1246,6 +1246,7 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   Evfs *base_vfs = shim_data->base_vfs;
 
   fil->shim_data = shim_data;
+  fil->rot_state = NULL;  // Only set for containers
 
   fil->base_file = (EvfsFile *)NEXT_OBJ(fil);  // We have two objects allocated together [RotateFile][<base VFS file size>]
 
-- 
2.43.0


From 5d424b264a97f2348f53d14896e6e8c593fb790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 029/164] fix: reading a full rotate container never reaches
 the end of the file

---
 src/shim_rotate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 36de7cb..6e8ac24 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -890,7 +890,8 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
     int status = EVFS_OK;
 
     // We may have more than one chunk's worth of data to read
-    while(size > 0) {
+    // A full container wraps around to its first chunk so we have to stop at the end
+    while(size > 0 && rs->base.file_pos < rs->base.total_size) {
       ChunkPos rpos = get_chunk_pos(rs, rs->base.file_pos);
 
       //DPRINT("rptr: %ld, rpos: %d:%d,  active: %d", rs->base.file_pos, rpos.chunk_num, rpos.offset, rs->base.active_chunk);
-- 
2.43.0


From 581d806884492d458300a7961033583cbc5fcaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 030/164] fix: rotate shim writes to the wrong chunk when a
 container is full or a write spans chunks

---
 src/shim_rotate.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 6e8ac24..973569c 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -412,6 +412,18 @@ static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, ev
 }
 
 
+// A write needs a new chunk when it starts after the end chunk
+static bool needs_new_chunk(RotateState *rs, evfs_off_t write_pos) {
+  if(rs->base.total_size == 0) return true;
+
+  int last_chunk = rs->end_chunk.chunk - rs->start_chunk.chunk;
+  if(last_chunk < 0)
+    last_chunk += rs->cfg.max_chunks;
+
+  return write_pos / rs->cfg.chunk_size > last_chunk;
+}
+
+
 static inline void incr_chunk(RotateState *rs, ChunkId *id) {
   id->chunk++;
   if(id->chunk >= (int)rs->cfg.max_chunks) {
@@ -477,8 +489,7 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
 
 // Method
 static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
-  bool is_empty = rs->start_chunk.chunk == rs->end_chunk.chunk &&
-                  !chunk_exists(base_vfs, &rs->base, rs->end_chunk, NULL);
+  bool is_empty = rs->base.total_size == 0;
   ChunkId next = rs->end_chunk;
 
   //DPRINT("ROT append  empty:%c", is_empty ? 'T':'f');
@@ -959,12 +970,15 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
       ChunkPos wpos = get_chunk_pos(rs, cur_write_pos(&rs->base));
 
       // If the chunk doesn't exist we need to create it
-      if(!chunk_exists(base_vfs, &rs->base, wpos.chunk_num, NULL)) {
+      if(needs_new_chunk(rs, cur_write_pos(&rs->base))) {
+        deactivate_chunk(&rs->base);
         status = append_new_chunk(base_vfs, rs, &new_chunk);
         if(status != EVFS_OK) return status;
 
+        // The position moves when the start chunk is evicted
+        wpos = get_chunk_pos(rs, cur_write_pos(&rs->base));
+
         // Set new active chunk
-        deactivate_chunk(&rs->base);
         rs->base.active_chunk = wpos.chunk_num;
         rs->base.active_chunk_fh = new_chunk;
       }
@@ -991,15 +1005,6 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
         wrote += wrote_chunk;
         rs->base.total_size += wrote_chunk;
       }
-
-      // Check if we have more chunks to write
-      if(size > 0) {
-        status = append_new_chunk(base_vfs, rs, &new_chunk);
-        if(status != EVFS_OK) return status;
-        deactivate_chunk(&rs->base);
-        rs->base.active_chunk = wpos.chunk_num;
-        rs->base.active_chunk_fh = new_chunk;
-      }
     }
 
     if(status != EVFS_OK)
-- 
2.43.0


From e5c8df097db71545a0aca674bdadac692e420f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 031/164] fix: overwriting data in a rotate container increases
 its size

---
 src/shim_rotate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 973569c..1988990 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1001,9 +1001,11 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
       if(wrote_chunk > 0) {
         cbuf += wrote_chunk;
         size -= wrote_chunk;
+        evfs_off_t write_end = cur_write_pos(&rs->base) + wrote_chunk;
         incr_write_pos(&rs->base, wrote_chunk);
         wrote += wrote_chunk;
-        rs->base.total_size += wrote_chunk;
+        if(write_end > rs->base.total_size)
+          rs->base.total_size = write_end;
       }
     }
 
-- 
2.43.0


From a947bdae70f86db20f33087dd2b9c362ab95cd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 032/164] fix: rotate shim never returns from a failing write

---
 src/shim_rotate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 1988990..c908546 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1006,6 +1006,9 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
         wrote += wrote_chunk;
         if(write_end > rs->base.total_size)
           rs->base.total_size = write_end;
+      } else { // Nothing more can be written
+        status = wrote_chunk;
+        break;
       }
     }
 
-- 
2.43.0


From a39a710c8cd66152e4cfa2f818a214146792633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 033/164] fix: rotate shim ignores errors while rotating a
 container

---
 src/shim_rotate.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index c908546..a57abfb 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -502,7 +502,8 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
 
     // Remove the old start chunk on wrap around
     if(next.chunk == rs->start_chunk.chunk) {
-      evict_chunk(base_vfs, &rs->base, rs->start_chunk, NULL);
+      int evict_status = evict_chunk(base_vfs, &rs->base, rs->start_chunk, NULL);
+      if(evict_status != EVFS_OK) return evict_status;
 
       incr_chunk(rs, &rs->start_chunk);
 
@@ -512,11 +513,9 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
       else
         rs->base.file_pos = 0;
     }
-
-    rs->end_chunk = next;
   }
 
-  //DPRINT("ROT: Append new chunk: %d_%d", rs->end_chunk.chunk, rs->end_chunk.gen);
+  //DPRINT("ROT: Append new chunk: %d_%d", next.chunk, next.gen);
 
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(rs->base.buf);
@@ -536,6 +535,9 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
 
   UNLOCK(rs->base.buf);
 
+  if(status == EVFS_OK)
+    rs->end_chunk = next;
+
   return status;
 }
 
-- 
2.43.0


From e84b061bf3f173f84f80d882165f94b6ac1661e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 034/164] fix: rotate shim deletes a chunk while it is open

---
 src/shim_rotate.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index a57abfb..743b960 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -381,9 +381,23 @@ static ChunkPos get_chunk_pos(RotateState *rs, evfs_off_t logical_off) {
 
 
 
+static inline void deactivate_chunk(MultipartState *ms) {
+  // Shutdown current active chunk
+  if(ms->active_chunk_fh) {
+    evfs_file_close(ms->active_chunk_fh);
+    ms->active_chunk_fh = NULL;
+    ms->active_chunk.chunk = -1;
+  }
+}
+
+
 static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
   //DPRINT("EVICT: %d_%d", chunk_num.chunk, chunk_num.gen);
 
+  // The chunk can't stay open
+  if(ms->active_chunk.chunk == chunk_num.chunk)
+    deactivate_chunk(ms);
+
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(ms->buf);
   char *joined = ms->buf->tmp_path;
@@ -441,16 +455,6 @@ static inline ChunkId next_chunk(RotateState *rs) {
 }
 
 
-static inline void deactivate_chunk(MultipartState *ms) {
-  // Shutdown current active chunk
-  if(ms->active_chunk_fh) {
-    evfs_file_close(ms->active_chunk_fh);
-    ms->active_chunk_fh = NULL;
-    ms->active_chunk.chunk = -1;
-  }
-}
-
-
 static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num) {
   //DPRINT("ROT Activate chunk: %d_%d", chunk_num.chunk, chunk_num.gen);
 
-- 
2.43.0


From b4c9e580f1a35b20e0c23291fd60a66803eef4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 035/164] fix: trimming a rotate container loses track of its
 chunks on errors

---
 src/shim_rotate.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 743b960..e416a16 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -765,7 +765,7 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
   // We need to round down to the nearest chunk size
   int trim_chunks = trim_bytes / rs->cfg.chunk_size;
 
-  if(trim_chunks == 0) // No change
+  if(trim_chunks <= 0 || rs->base.total_size == 0) // No change
     return 0;
 
   ChunkId trim_start, trim_end;
@@ -804,15 +804,16 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
   }
 
   // Fix up state
-  if(cur_chunk.chunk == rs->end_chunk.chunk) { // All chunks removed
+  if(status == EVFS_OK && cur_chunk.chunk == rs->end_chunk.chunk) { // All chunks removed
     rs->base.total_size = 0; // Just to be sure this is correct
     rs->start_chunk = (ChunkId){0,0};
     rs->end_chunk = (ChunkId){0,0};
     rs->base.file_pos = 0;
 
   } else { // Partial trim
-    incr_chunk(rs, &cur_chunk);
-    rs->start_chunk = cur_chunk;
+    if(status == EVFS_OK)
+      incr_chunk(rs, &cur_chunk);
+    rs->start_chunk = cur_chunk; // This is the chunk that wasn't removed if there was an error
 
     if(rs->base.file_pos > trimmed_size)
       rs->base.file_pos -= trimmed_size;
-- 
2.43.0


From 20c9b2761f505abdc5b54a463ad610bcc0d4d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 036/164] fix: truncating a rotate container hides errors

---
 src/shim_rotate.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index e416a16..a9446b1 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1088,8 +1088,9 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
       if(ASSERT(delete_bytes < chunk_size, "Truncation error; Excess remainder"))
         return EVFS_ERR_CORRUPTION;
 
-      evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
-      rs->base.total_size -= delete_bytes;
+      status = evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
+      if(status == EVFS_OK)
+        rs->base.total_size -= delete_bytes;
     }
 
     if(rs->base.total_size == 0) { // Restart chunk sequence
@@ -1098,10 +1099,10 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     }
 
     // Adjust position
-    if(rs->base.file_pos > size)
-      rs->base.file_pos = size;
+    if(rs->base.file_pos > rs->base.total_size)
+      rs->base.file_pos = rs->base.total_size;
 
-    if(ASSERT(size == rs->base.total_size, "failed truncation: size=%ld  total=%ld", size, rs->base.total_size))
+    if(status == EVFS_OK && ASSERT(size == rs->base.total_size, "failed truncation: size=%ld  total=%ld", size, rs->base.total_size))
       status = EVFS_ERR_CORRUPTION;
 
   }
-- 
2.43.0


From afcf8ff31b4a5c8bf1f5ab6e9c48c923f5652448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 037/164] fix: rotate containers cannot be created or opened
 when the geometry is transferred in parts

---
 src/shim_rotate.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index a9446b1..f3cc0ec 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -242,6 +242,33 @@ static void incr_write_pos(MultipartState *ms, evfs_off_t offset) {
 
 
 
+// Reads and writes can be partial so we have to continue until the whole struct is transferred
+static ptrdiff_t write_struct(EvfsFile *fh, const void *obj, size_t size) {
+  size_t wrote = 0;
+
+  while(wrote < size) {
+    ptrdiff_t status = evfs_file_write(fh, (const char *)obj + wrote, size - wrote);
+    if(status <= 0) return status;
+    wrote += status;
+  }
+
+  return wrote;
+}
+
+
+static ptrdiff_t read_struct(EvfsFile *fh, void *obj, size_t size) {
+  size_t read = 0;
+
+  while(read < size) {
+    ptrdiff_t status = evfs_file_read(fh, (char *)obj + read, size - read);
+    if(status <= 0) return status;
+    read += status;
+  }
+
+  return read;
+}
+
+
 // Method
 static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig *cfg) {
   // Create the multipart container directory
@@ -264,7 +291,7 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
     .version = CUR_MULTI_ROTATE_VERSION
   };
 
-  status = evfs_file_write(dat_fh, &hdr, sizeof(hdr));
+  status = write_struct(dat_fh, &hdr, sizeof(hdr));
 
   if(status > 0) {
     // Write geometry
@@ -273,7 +300,7 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
       .max_chunks = cfg->max_chunks
     };
 
-    status = evfs_file_write(dat_fh, &geom, sizeof(geom));
+    status = write_struct(dat_fh, &geom, sizeof(geom));
 
   }
 
@@ -682,7 +709,7 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
   // Read header
   MultipartHeader hdr;
 
-  status = evfs_file_read(dat_fh, &hdr, sizeof(hdr));
+  status = read_struct(dat_fh, &hdr, sizeof(hdr));
   if(status != sizeof(MultipartHeader)) {
     status = EVFS_ERR_INVALID;
     goto cleanup2;
@@ -696,7 +723,7 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
 
   // Read geometry
   RotateGeometry geom;
-  status = evfs_file_read(dat_fh, &geom, sizeof(geom));
+  status = read_struct(dat_fh, &geom, sizeof(geom));
   if(status != sizeof(RotateGeometry)) {
     status = EVFS_ERR_INVALID;
     goto cleanup2;
-- 
2.43.0


From e88854e10ad5dc2d885ed5a9ebdb4bd9d83143b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 038/164] fix: rotate shim leaves a broken container behind
 when its creation fails

---
 src/shim_rotate.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index f3cc0ec..21f5eb4 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -282,7 +282,10 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
 
   EvfsFile *dat_fh;
   status = evfs_vfs_open(base_vfs, joined, &dat_fh, EVFS_WRITE | EVFS_OVERWRITE);
-  if(status != EVFS_OK) return status;
+  if(status != EVFS_OK) {
+    base_vfs->m_delete(base_vfs, path);
+    return status;
+  }
 
   // Write header
   MultipartHeader hdr = {
@@ -304,9 +307,16 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
 
   }
 
-  evfs_file_close(dat_fh);
+  int close_status = evfs_file_close(dat_fh);
+
+  if(status == sizeof(RotateGeometry) && close_status == EVFS_OK)
+    return EVFS_OK;
+
+  // Don't leave an incomplete container behind
+  base_vfs->m_delete(base_vfs, joined);
+  base_vfs->m_delete(base_vfs, path);
 
-  return status == sizeof(RotateGeometry) ? EVFS_OK : EVFS_ERR;
+  return status < 0 ? status : EVFS_ERR;
 }
 
 
-- 
2.43.0


From 5da571607b71146bd1afeeb0f0fac81932faec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 039/164] fix: rotate shim uses a container with invalid
 geometry or chunk names

---
 src/shim_rotate.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 21f5eb4..42d2560 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -586,7 +586,8 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
 static ChunkId parse_chunk_name(const char *name) {
   ChunkId id = {-1,0};
 
-  if(strlen(name) == 12) {
+  if(strlen(name) == 12 && strspn(&name[1], "0123456789") == 5
+    && name[6] == '_' && (name[7] == '0' || name[7] == '1')) {
     id.chunk = strtol(&name[1], NULL, 10);
     id.gen = name[7] - '0';
 
@@ -623,6 +624,9 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
     EvfsInfo info;
     while(evfs_dir_find(dh, "c*.cnk", &info) == EVFS_OK) {
       ChunkId id = parse_chunk_name(info.name);
+      if(id.chunk < 0 || id.chunk >= (int)rs->cfg.max_chunks) // Not a chunk
+        continue;
+
       bool exists = chunk_exists(base_vfs, &rs->base, id, &chunk_size);
 
       // It's possible a 0-length chunk was leftover from a previous
@@ -739,6 +743,13 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
     goto cleanup2;
   }
 
+  // Chunk math depends on valid geometry
+  if(geom.max_chunks < 2 || geom.max_chunks > MULTIPART_MAX_CHUNK
+    || geom.chunk_size < MULTIPART_MIN_CHUNK_SIZE) {
+    status = EVFS_ERR_INVALID;
+    goto cleanup2;
+  }
+
   // Copy geometry fields
   rs->cfg.chunk_size = geom.chunk_size;
   rs->cfg.max_chunks = geom.max_chunks;
-- 
2.43.0


From 1d35275b8de07f9a413069c2a7f2fb79fbd084ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 040/164] fix: opening a rotate container ignores errors
 scanning its chunks

---
 src/shim_rotate.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 42d2560..aba61f3 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -620,9 +620,10 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
 
   // Scan chunks
   EvfsDir *dh;
-  if(evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh) == EVFS_OK) {
+  status = evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh);
+  if(status == EVFS_OK) {
     EvfsInfo info;
-    while(evfs_dir_find(dh, "c*.cnk", &info) == EVFS_OK) {
+    while((status = evfs_dir_find(dh, "c*.cnk", &info)) == EVFS_OK) {
       ChunkId id = parse_chunk_name(info.name);
       if(id.chunk < 0 || id.chunk >= (int)rs->cfg.max_chunks) // Not a chunk
         continue;
@@ -650,8 +651,13 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
 
     }
     evfs_dir_close(dh);
+
+    if(status == EVFS_DONE) // All chunks were found
+      status = EVFS_OK;
   }
 
+  if(status != EVFS_OK) return status;
+
   if(gen_span[0].end >= 0 || gen_span[1].end >= 0) { // Found chunk files
     if(gen_span[0].end >= 0 && gen_span[1].end >= 0) { // Both generations present
       if(gen_span[0].start < gen_span[1].start) { // Gen 0 is newer
@@ -776,7 +782,8 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
 
   status = discover_chunk_sequence(base_vfs, rs);
 
-  fh->rot_state = rs;
+  if(status == EVFS_OK)
+    fh->rot_state = rs;
 
 cleanup2:
   evfs_file_close(dat_fh);
-- 
2.43.0


From c582bbcada91050797ab7969de4eae6ebdc9a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 041/164] fix: deleting a rotate container never returns when
 its directory cannot be read

---
 src/shim_rotate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index aba61f3..5451b32 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -328,9 +328,9 @@ static int clear_container(Evfs *base_vfs, const char *path) {
   int status = evfs_vfs_open_dir(base_vfs, path, &dh);
   if(status != EVFS_OK) return status;
 
-  while(evfs_dir_read(dh, &info) != EVFS_DONE) {
+  while(evfs_dir_read(dh, &info) == EVFS_OK) {
     // Check for dir dots
-    if(info.name[0] == '.') continue;
+    if(!strcmp(info.name, ".") || !strcmp(info.name, "..")) continue;
 
     char joined[EVFS_MAX_PATH];
     StringRange joined_r = RANGE_FROM_ARRAY(joined);
-- 
2.43.0


From 1201e3b97f9236b4f9f432cdc6603d7b2c51ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 042/164] fix: opening a rotate container drops chunks that
 cannot be checked

---
 src/shim_rotate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 5451b32..f574d9c 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -629,6 +629,10 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
         continue;
 
       bool exists = chunk_exists(base_vfs, &rs->base, id, &chunk_size);
+      if(!exists) { // Don't continue with a partial sequence
+        status = EVFS_ERR_IO;
+        break;
+      }
 
       // It's possible a 0-length chunk was leftover from a previous
       // power failure. We'll clean it up now. This should just leave
-- 
2.43.0


From 699000bf4b51731f5b0e7f44ae2aa4b1b40a147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 043/164] fix: rotate shim reports the end of the file on read
 errors

---
 src/shim_rotate.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index f574d9c..0b1334a 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -973,21 +973,25 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
 
       //DPRINT("rptr: %ld, rpos: %d:%d,  active: %d", rs->base.file_pos, rpos.chunk_num, rpos.offset, rs->base.active_chunk);
 
-      // If the chunk doesn't exist we are out of chunks to read
+      // There must be a chunk before the end of the file
       evfs_off_t chunk_size;
-      if(!chunk_exists(base_vfs, &rs->base, rpos.chunk_num, &chunk_size))
+      if(!chunk_exists(base_vfs, &rs->base, rpos.chunk_num, &chunk_size)) {
+        status = EVFS_ERR_IO;
         break;
+      }
 
       if(rpos.chunk_num.chunk != rs->base.active_chunk.chunk) {
         status = activate_chunk(base_vfs, &rs->base, rpos.chunk_num);
-        if(status != EVFS_OK) return status;
+        if(status != EVFS_OK) break;
       }
 
       if(rpos.offset >= chunk_size) // Nothing left to read
         break;
 
       // Seek into this chunk
-      evfs_file_seek(rs->base.active_chunk_fh, rpos.offset, EVFS_SEEK_TO);
+      status = evfs_file_seek(rs->base.active_chunk_fh, rpos.offset, EVFS_SEEK_TO);
+      if(status != EVFS_OK) break;
+
       evfs_off_t remain_space = chunk_size - rpos.offset;
       size_t read_size = MIN((evfs_off_t)size, remain_space);
 
@@ -998,12 +1002,14 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
         rs->base.file_pos += read_chunk;
         read += read_chunk;
       } else { // Chunk is prematurely empty
-        return EVFS_ERR_IO;
+        status = read_chunk < 0 ? read_chunk : EVFS_ERR_IO;
+        break;
       }
 
     }
 
-    if(status != EVFS_OK)
+    // Data read before an error is still valid
+    if(status != EVFS_OK && read == 0)
       read = status;
 
   }
-- 
2.43.0


From 74474702d9bbda554e84e92bbc9169bbc69c4cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 044/164] fix: rotate shim overwrites the wrong data when it
 cannot seek in a chunk

---
 src/shim_rotate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 0b1334a..a5c29d9 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1061,7 +1061,8 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
       }
 
       // Seek into this chunk
-      evfs_file_seek(rs->base.active_chunk_fh, wpos.offset, EVFS_SEEK_TO);
+      status = evfs_file_seek(rs->base.active_chunk_fh, wpos.offset, EVFS_SEEK_TO);
+      if(status != EVFS_OK) break;
 
       evfs_off_t free_space = rs->cfg.chunk_size - wpos.offset;
       if(ASSERT(free_space != 0, "No free space to write in chunk")) // This shouldn't happen
-- 
2.43.0


From 9f933cc113854a19e194807dcf9061d369b6dff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 045/164] fix: truncating a rotate container misinterprets
 errors in the chunk size

---
 src/shim_rotate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index a5c29d9..3d62eb8 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1118,6 +1118,8 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     if(status != EVFS_OK) return EVFS_ERR_CORRUPTION;
 
     evfs_off_t chunk_size = evfs_file_size(rs->base.active_chunk_fh);
+    if(chunk_size < 0) return chunk_size;
+
     int delete_chunks;
 
     if(delete_bytes >= chunk_size)
@@ -1148,6 +1150,7 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
       if(status != EVFS_OK) return EVFS_ERR_CORRUPTION;
 
       chunk_size = evfs_file_size(rs->base.active_chunk_fh);
+      if(chunk_size < 0) return chunk_size;
 
       // We should already have handled full chunks above and only
       // have a portion less than chunk_size left to truncate.
-- 
2.43.0


From 64dd6a4440aaa1aec4a3f32523dbbf1b2d97fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 046/164] fix: rotate shim accepts chunk sizes beyond the range
 of file offsets

---
 src/shim_rotate.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 3d62eb8..a51a696 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -95,6 +95,9 @@ EVFS_CMD_SET_ROTATE_CFG as the operation evfs_vfs_ctrl().
 // Protect against chunks too small and thrashing the filesystem
 #define MULTIPART_MIN_CHUNK_SIZE  32
 
+// Chunk sizes have to work as an evfs_off_t
+#define MULTIPART_MAX_CHUNK_SIZE  INT32_MAX
+
 // MSVC
 #ifdef _MSC_VER
 #  define PACKED_BEGIN   __pragma(pack(push, 1))
@@ -755,7 +758,8 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
 
   // Chunk math depends on valid geometry
   if(geom.max_chunks < 2 || geom.max_chunks > MULTIPART_MAX_CHUNK
-    || geom.chunk_size < MULTIPART_MIN_CHUNK_SIZE) {
+    || geom.chunk_size < MULTIPART_MIN_CHUNK_SIZE
+    || geom.chunk_size > MULTIPART_MAX_CHUNK_SIZE) {
     status = EVFS_ERR_INVALID;
     goto cleanup2;
   }
@@ -804,7 +808,8 @@ static int set_rotate_config(Evfs *vfs, RotateConfig *cfg) {
   // Validate the config settings
   if(cfg->max_chunks < 2
     || cfg->max_chunks > MULTIPART_MAX_CHUNK
-    || cfg->chunk_size < MULTIPART_MIN_CHUNK_SIZE)
+    || cfg->chunk_size < MULTIPART_MIN_CHUNK_SIZE
+    || cfg->chunk_size > MULTIPART_MAX_CHUNK_SIZE)
     return EVFS_ERR_INVALID;
 
   RotateData *shim_data = (RotateData *)vfs->fs_data; 
-- 
2.43.0


From f91dbc3eca9f53b44c65563f7ab698ef3504d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 047/164] fix: opening a rotate container ignores EVFS_NO_EXIST
 and EVFS_OVERWRITE

---
 src/shim_rotate.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index a51a696..f01d4f5 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1355,12 +1355,20 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   } else {
     // Open or create a container
     status = EVFS_OK;
-    if(!exists) // Create new container
+    if(exists && (flags & EVFS_NO_EXIST))
+      status = EVFS_ERR_EXISTS;
+    else if(!exists) // Create new container
       status = init_rotate_container(base_vfs, path, &shim_data->cfg);
 
     if(status == EVFS_OK)
       status = open_rotate_container(vfs, path, fil, flags);
 
+    // Discard existing contents
+    if(status == EVFS_OK && exists && (flags & EVFS_OVERWRITE)) {
+      status = rotate__file_truncate(fh, 0);
+      if(status != EVFS_OK)
+        rotate__file_close(fh);
+    }
   }
 
   if(status == EVFS_OK) {
-- 
2.43.0


From 139927a67984f44fb4f54c6b0a83d293e7a9e583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 048/164] fix: rotate shim creates a container when a missing
 file is opened for reading

---
 src/shim_rotate.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index f01d4f5..99b1564 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1357,6 +1357,8 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
     status = EVFS_OK;
     if(exists && (flags & EVFS_NO_EXIST))
       status = EVFS_ERR_EXISTS;
+    else if(!exists && !(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)))
+      status = EVFS_ERR_NO_FILE;
     else if(!exists) // Create new container
       status = init_rotate_container(base_vfs, path, &shim_data->cfg);
 
-- 
2.43.0


From d881bcfe01f1ba3db2e91e01bad1298ad38a8925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 049/164] fix: rotate shim modifies containers opened only for
 reading

---
 src/shim_rotate.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 99b1564..73dcb5c 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -238,6 +238,12 @@ static evfs_off_t cur_write_pos(MultipartState *ms) {
 }
 
 
+// Containers opened just for reading must not change
+static bool can_modify(RotateState *rs) {
+  return rs->base.flags & ~EVFS_READ;
+}
+
+
 static void incr_write_pos(MultipartState *ms, evfs_off_t offset) {
   if(!(ms->flags & EVFS_APPEND))
     ms->file_pos += offset;
@@ -822,6 +828,8 @@ static int set_rotate_config(Evfs *vfs, RotateConfig *cfg) {
 // Trim chunks from start of file
 static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
   RotateState *rs = fil->rot_state;
+  if(!can_modify(rs)) return EVFS_ERR_AUTH;
+
   RotateData *shim_data = fil->shim_data;
   Evfs *base_vfs = shim_data->base_vfs;
 
@@ -1033,6 +1041,8 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
 
   } else { // Write to rotate container
     RotateState *rs = fil->rot_state;
+    if(!can_modify(rs)) return EVFS_ERR_AUTH;
+
     RotateData *shim_data = fil->shim_data;
     Evfs *base_vfs = shim_data->base_vfs;
 
@@ -1108,6 +1118,8 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   } else { // Rotate container
     RotateState *rs = fil->rot_state;
+    if(!can_modify(rs)) return EVFS_ERR_AUTH;
+
     RotateData *shim_data = fil->shim_data;
     Evfs *base_vfs = shim_data->base_vfs;
 
-- 
2.43.0


From db2b4f5d14532d048b136da235a7575012d08a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 050/164] fix: rotate shim uses undefined paths when a
 container path is too long

---
 src/shim_rotate.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 73dcb5c..a3cc737 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -84,6 +84,9 @@ EVFS_CMD_SET_ROTATE_CFG as the operation evfs_vfs_ctrl().
 
 #define MULTIPART_GEOMETRY_FILE  "geom.dat"
 
+// Longest name in a container: "c00000_0.cnk"
+#define MULTIPART_MAX_NAME       12
+
 #define EVFS_MULTI_MAGIC         0x53465645
 #define EVFS_MULTI_ROTATE_TYPE   0x01
 
@@ -364,7 +367,8 @@ static bool is_rotate_file(Evfs *base_vfs, const char *path) {
   // Multipart info file needs to exist
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
-  evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  if(evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r) != EVFS_OK)
+    return false;
 
   status = base_vfs->m_stat(base_vfs, joined, &info);
   return status == EVFS_OK;
@@ -1367,7 +1371,9 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   } else {
     // Open or create a container
     status = EVFS_OK;
-    if(exists && (flags & EVFS_NO_EXIST))
+    if(strlen(path) + MULTIPART_MAX_NAME + 2 > EVFS_MAX_PATH) // Chunk paths won't fit
+      status = EVFS_ERR_TOO_LONG;
+    else if(exists && (flags & EVFS_NO_EXIST))
       status = EVFS_ERR_EXISTS;
     else if(!exists && !(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)))
       status = EVFS_ERR_NO_FILE;
-- 
2.43.0


From ca26d628115fe310478d511bb6c6093bf39004aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:43 +0000
Subject: [PATCH 051/164] fix: stdio opened directories as files

---
 src/stdio_fs.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index b9b8f56..6dba9ac 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -326,8 +326,18 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   fil->fs_data = fs_data;
   fil->fp = fopen(path, mode);
 
-  if(fil->fp)
+  if(fil->fp) {
+#ifdef EVFS_USE_STDIO_POSIX
+    // fopen() succeeds on directories when reading
+    struct stat fs;
+    if(fstat(fileno(fil->fp), &fs) == 0 && S_ISDIR(fs.st_mode)) {
+      fclose(fil->fp);
+      fil->fp = NULL;
+      return EVFS_ERR_IS_DIR;
+    }
+#endif
     return EVFS_OK;
+  }
 
 #ifdef EVFS_USE_STDIO_POSIX
   return translate_error(errno);
-- 
2.43.0


From 46562624aed2997bf81deb4b8a1c877244cfa4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 052/164] fix: stdio reverse seeks went past the end of file

---
 src/stdio_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 6dba9ac..33ef99e 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -164,7 +164,7 @@ static int stdio__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
   switch(origin) {
     case EVFS_SEEK_TO:   sorg = SEEK_SET; break;
     case EVFS_SEEK_REL:  sorg = SEEK_CUR; break;
-    case EVFS_SEEK_REV:  sorg = SEEK_END; break;
+    case EVFS_SEEK_REV:  sorg = SEEK_END; offset = -offset; break;
     default:
       break;
   }
-- 
2.43.0


From 0f0dde49d724f190353e49f554e96cdad84dcbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 053/164] fix: stdio created files with EVFS_NO_EXIST while
 read only

---
 src/stdio_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 33ef99e..ec0331b 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -282,7 +282,7 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_stdio_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND | EVFS_NO_EXIST)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   // Build mode string from flags
-- 
2.43.0


From 9b78487edbae030523897b6ad56f6da0945d069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 054/164] fix: stdio hid read and write errors

---
 src/stdio_fs.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index ec0331b..3e78b95 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -104,7 +104,15 @@ static int stdio__file_close(EvfsFile *fh) {
 
 static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
   StdioFile *fil = (StdioFile *)fh;
-  return (ptrdiff_t)fread(buf, 1, size, fil->fp);
+  size_t count = fread(buf, 1, size, fil->fp);
+
+  if(count < size && ferror(fil->fp)) {
+    clearerr(fil->fp);
+    if(count == 0)
+      return EVFS_ERR_IO;
+  }
+
+  return (ptrdiff_t)count;
 }
 
 static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
@@ -113,8 +121,15 @@ static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  size_t count = fwrite(buf, 1, size, fil->fp);
+
+  if(count < size && ferror(fil->fp)) {
+    clearerr(fil->fp);
+    if(count == 0)
+      return EVFS_ERR_IO;
+  }
 
-  return (ptrdiff_t)fwrite(buf, 1, size, fil->fp);
+  return (ptrdiff_t)count;
 }
 
 static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
-- 
2.43.0


From 5e05646f828fae341a5c2ccc15bf6130666437bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 055/164] fix: stdio hid errors when closing a file

---
 src/stdio_fs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 3e78b95..67cc448 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -97,9 +97,9 @@ static int stdio__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int stdio__file_close(EvfsFile *fh) {
   StdioFile *fil = (StdioFile *)fh;
-  fclose(fil->fp);
+  int err = fclose(fil->fp);
   fil->fp = NULL;
-  return EVFS_OK;
+  return simple_error(err);
 }
 
 static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
-- 
2.43.0


From 41c2bcecb50fadf477e9f1cb71f7fd9ac8e06e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 056/164] fix: stdio discarded existing content with EVFS_WRITE
 | EVFS_OPEN_OR_NEW

---
 src/stdio_fs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 67cc448..d6a1b0e 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -306,12 +306,12 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   if(flags & EVFS_APPEND)
     mode[mode_pos++] = 'a';
-  else if((flags & EVFS_OVERWRITE) || (flags & EVFS_NO_EXIST) || ((flags & EVFS_WRITE) && !(flags & EVFS_READ)))
+  else if((flags & EVFS_OVERWRITE) || (flags & EVFS_NO_EXIST) || ((flags & EVFS_WRITE) && !(flags & (EVFS_READ | EVFS_OPEN_OR_NEW))))
     mode[mode_pos++] = 'w';
   else // Default to reading
     mode[mode_pos++] = 'r';
 
-  if((flags & EVFS_WRITE) && (flags & EVFS_READ))
+  if((flags & EVFS_WRITE) && ((flags & EVFS_READ) || mode[0] == 'r'))
     mode[mode_pos++] = '+';
 
   mode[mode_pos++] = 'b'; // Always use binary mode
-- 
2.43.0


From 16b72ebe53dfbd954fc71987c1890bce807631a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 057/164] fix: stdio ignored EVFS_NO_EXIST when appending

---
 src/stdio_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index d6a1b0e..ffc68d1 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -317,7 +317,7 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   mode[mode_pos++] = 'b'; // Always use binary mode
 
 #if(__STDC_VERSION__ >= 201112L)
-  if(mode[0] == 'w' && (flags & EVFS_NO_EXIST))
+  if(mode[0] != 'r' && (flags & EVFS_NO_EXIST))
     mode[mode_pos++] = 'x';
 #else
 #  warning "C11 is needed to support EVFS_NO_EXIST for evfs_stdio driver"
-- 
2.43.0


From bee5b733b982ce34062ce1cdd87eb57ca42c4475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 058/164] fix: stdio truncated files without flushing buffered
 data

---
 src/stdio_fs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index ffc68d1..a3f349d 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -139,6 +139,10 @@ static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  // Buffered data must not be written out after the size has changed
+  if(fflush(fil->fp) != 0)
+    return EVFS_ERR_IO;
+
   return simple_error(ftruncate(fileno(fil->fp), size));
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
-- 
2.43.0


From 808197defdb948cc21b12e96bf60fd2bb8f9f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 059/164] fix: stdio did not report the end of file after
 seeking

---
 src/stdio_fs.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index a3f349d..9393acc 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -198,6 +198,14 @@ static evfs_off_t stdio__file_tell(EvfsFile *fh) {
 
 static bool stdio__file_eof(EvfsFile *fh) {
   StdioFile *fil = (StdioFile *)fh;
+
+#ifdef EVFS_USE_STDIO_POSIX
+  // feof() is only set after trying to read past the end
+  struct stat s;
+  if(fstat(fileno(fil->fp), &s) == 0 && S_ISREG(s.st_mode))
+    return ftell(fil->fp) >= s.st_size;
+#endif
+
   return feof(fil->fp) != 0;
 }
 
-- 
2.43.0


From af04589d3dd3ee48da0ae01884ab224088bc4147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:55 +0000
Subject: [PATCH 060/164] fix: stdio mixed up the position when switching
 between reading and writing

---
 src/stdio_fs.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 9393acc..08436ff 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -48,6 +48,7 @@ typedef struct StdioFile_s {
   EvfsFile base;
   StdioData *fs_data;
   FILE *fp;
+  char last_op; // 'r' after reading, 'w' after writing
 } StdioFile;
 
 
@@ -102,8 +103,19 @@ static int stdio__file_close(EvfsFile *fh) {
   return simple_error(err);
 }
 
+// The C library requires positioning between a read and a write
+static bool stdio__switch_op(StdioFile *fil, char op) {
+  bool switched = fil->last_op != 0 && fil->last_op != op;
+
+  fil->last_op = op;
+  return !switched || fseek(fil->fp, 0, SEEK_CUR) == 0;
+}
+
 static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
   StdioFile *fil = (StdioFile *)fh;
+  if(!stdio__switch_op(fil, 'r'))
+    return EVFS_ERR_IO;
+
   size_t count = fread(buf, 1, size, fil->fp);
 
   if(count < size && ferror(fil->fp)) {
@@ -121,6 +133,9 @@ static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  if(!stdio__switch_op(fil, 'w'))
+    return EVFS_ERR_IO;
+
   size_t count = fwrite(buf, 1, size, fil->fp);
 
   if(count < size && ferror(fil->fp)) {
-- 
2.43.0


From aab083f6840b319d13ab3c33433ba7e91bdb854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 061/164] fix: stdio could not read data added by extending a
 file

---
 src/stdio_fs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 08436ff..54c3d43 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -158,6 +158,7 @@ static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
   if(fflush(fil->fp) != 0)
     return EVFS_ERR_IO;
 
+  clearerr(fil->fp); // The end of file may have moved
   return simple_error(ftruncate(fileno(fil->fp), size));
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
-- 
2.43.0


From 5e8da74f9d435bdbf5c9c21ed121a555c1bf825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 062/164] fix: tar filesystems crashed on archives without
 files

---
 src/tar_fs.c      | 37 +++++++++++++++++++++----------------
 src/tar_rsrc_fs.c | 37 +++++++++++++++++++++----------------
 2 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 9311e12..edf3137 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -155,7 +155,7 @@ static void destroy_hashed_file(dhKey key, void *value, void *ctx) {
 
 static int tarfs__index_hash_init(EvfsTarIndex *ht, int total_files, size_t total_path_len) {
   dhConfig s_hash_init = {
-    .init_buckets = total_files,
+    .init_buckets = total_files > 0 ? total_files : 1,
     .value_size   = sizeof(EvfsTarEntry),
 
     .destroy_item = destroy_hashed_file,
@@ -163,12 +163,17 @@ static int tarfs__index_hash_init(EvfsTarIndex *ht, int total_files, size_t tota
     .is_equal     = dh_equal_hash_keys_string
   };
 
-  ht->keys = evfs_malloc(total_path_len);
+  ht->keys = evfs_malloc(total_path_len + 1); // Can't be empty
   if(MEM_CHECK(ht->keys)) return EVFS_ERR_ALLOC;
 
 
-  int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR;
-  return err;
+  if(!dh_init(&ht->hash_table, &s_hash_init, NULL)) {
+    evfs_free(ht->keys);
+    ht->keys = NULL;
+    return EVFS_ERR_ALLOC;
+  }
+
+  return EVFS_OK;
 }
 
 
@@ -180,12 +185,10 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 
 
 static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
-  if(!tar_iter_begin(tar_it)) return EVFS_ERR;
-
   size_t total_path_len = 0;
   int total_files = 0;
   // Scan the tar file to count files and determine total string storage for keys
-  do {
+  for(bool valid = tar_iter_begin(tar_it); valid; valid = tar_iter_next(tar_it)) {
     // Only index plain files and directories
     if(tar_it->cur_header.type_flag != TAR_TYPE_NORMAL_FILE &&
        tar_it->cur_header.type_flag != TAR_TYPE_DIRECTORY) continue;
@@ -193,8 +196,7 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
     total_files++;
     total_path_len += strlen((char *)tar_it->cur_header.file_name) +
                       strlen((char *)tar_it->cur_header.file_prefix) + 1;
-
-  } while(tar_iter_next(tar_it));
+  }
 
 
   // Prepare the hash index
@@ -206,9 +208,7 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
   range_init(&keys_r, ht->keys, total_path_len);
 
   // Build the index
-  tar_iter_begin(tar_it);
-
-  do {
+  for(bool valid = tar_iter_begin(tar_it); valid; valid = tar_iter_next(tar_it)) {
     // Only index plain files and directories
     if(tar_it->cur_header.type_flag != TAR_TYPE_NORMAL_FILE &&
        tar_it->cur_header.type_flag != TAR_TYPE_DIRECTORY) continue;
@@ -237,10 +237,11 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
       ((char *)key.data)[--key.length] = '\0';
     }
 
-    if(!dh_insert(&ht->hash_table, key, &entry))
+    if(!dh_insert(&ht->hash_table, key, &entry)) {
+      tarfs__index_hash_free(ht);
       return EVFS_ERR;
-
-  } while(tar_iter_next(tar_it));
+    }
+  }
 
 
   return EVFS_OK;
@@ -562,7 +563,11 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
   TarFileIterator tar_it;
   tar_iter_init(&tar_it, fs_data->tar_file);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int err = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(err != EVFS_OK) {
+    evfs_free(new_vfs);
+    return err;
+  }
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 15854db..9e257fe 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -165,7 +165,7 @@ static void destroy_hashed_file(dhKey key, void *value, void *ctx) {
 
 static int tarfs__index_hash_init(EvfsTarIndex *ht, int total_files, size_t total_path_len) {
   dhConfig s_hash_init = {
-    .init_buckets = total_files,
+    .init_buckets = total_files > 0 ? total_files : 1,
     .value_size   = sizeof(EvfsTarEntry),
 
     .destroy_item = destroy_hashed_file,
@@ -173,12 +173,17 @@ static int tarfs__index_hash_init(EvfsTarIndex *ht, int total_files, size_t tota
     .is_equal     = dh_equal_hash_keys_string
   };
 
-  ht->keys = evfs_malloc(total_path_len);
+  ht->keys = evfs_malloc(total_path_len + 1); // Can't be empty
   if(MEM_CHECK(ht->keys)) return EVFS_ERR_ALLOC;
 
 
-  int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR;
-  return err;
+  if(!dh_init(&ht->hash_table, &s_hash_init, NULL)) {
+    evfs_free(ht->keys);
+    ht->keys = NULL;
+    return EVFS_ERR_ALLOC;
+  }
+
+  return EVFS_OK;
 }
 
 
@@ -190,12 +195,10 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 
 
 static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
-  if(!tar_rsrc_iter_begin(tar_it)) return EVFS_ERR;
-
   size_t total_path_len = 0;
   int total_files = 0;
   // Scan the tar file to count files and determine total string storage for keys
-  do {
+  for(bool valid = tar_rsrc_iter_begin(tar_it); valid; valid = tar_rsrc_iter_next(tar_it)) {
     // Only index plain files and directories
     if(tar_it->cur_header->type_flag != TAR_TYPE_NORMAL_FILE &&
        tar_it->cur_header->type_flag != TAR_TYPE_DIRECTORY) continue;
@@ -203,8 +206,7 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
     total_files++;
     total_path_len += strlen((char *)tar_it->cur_header->file_name) +
                       strlen((char *)tar_it->cur_header->file_prefix) + 1;
-
-  } while(tar_rsrc_iter_next(tar_it));
+  }
 
 
   // Prepare the hash index
@@ -216,9 +218,7 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
   range_init(&keys_r, ht->keys, total_path_len);
 
   // Build the index
-  tar_rsrc_iter_begin(tar_it);
-
-  do {
+  for(bool valid = tar_rsrc_iter_begin(tar_it); valid; valid = tar_rsrc_iter_next(tar_it)) {
     // Only index plain files and directories
     if(tar_it->cur_header->type_flag != TAR_TYPE_NORMAL_FILE &&
        tar_it->cur_header->type_flag != TAR_TYPE_DIRECTORY) continue;
@@ -247,10 +247,11 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
       ((char *)key.data)[--key.length] = '\0';
     }
 
-    if(!dh_insert(&ht->hash_table, key, &entry))
+    if(!dh_insert(&ht->hash_table, key, &entry)) {
+      tarfs__index_hash_free(ht);
       return EVFS_ERR;
-
-  } while(tar_rsrc_iter_next(tar_it));
+    }
+  }
 
 
   return EVFS_OK;
@@ -586,7 +587,11 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
   TarRsrcIterator tar_it;
   tar_rsrc_iter_init(&tar_it, resource, resource_len);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int err = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(err != EVFS_OK) {
+    evfs_free(new_vfs);
+    return err;
+  }
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
-- 
2.43.0


From 0e3e04d45dfab1fc7121f16b703b58a744a7e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 063/164] fix: tar filesystems misread full name fields and
 joined the prefix without a separator

---
 include/evfs/tar_common.h | 32 ++++++++++++++++++++++++++++++++
 src/tar_fs.c              | 15 +++++----------
 src/tar_rsrc_fs.c         | 15 +++++----------
 3 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/include/evfs/tar_common.h b/include/evfs/tar_common.h
index ef39e36..5711339 100644
--- a/include/evfs/tar_common.h
+++ b/include/evfs/tar_common.h
@@ -1,6 +1,9 @@
 #ifndef TAR_COMMON_H
 #define TAR_COMMON_H
 
+#include <stdint.h>
+#include <string.h>
+
 #define TAR_BLOCK_SIZE 512
 #define TAR_HEADER_SIZE 500
 
@@ -43,6 +46,35 @@ typedef struct TarHeader
 #define TAR_TYPE_EXT         'x'
 
 
+// Full path of an archived file: [prefix/]name NUL
+#define TAR_MAX_PATH_LEN  (TAR_FILE_PREFIX_LEN + 1 + TAR_FILE_NAME_LEN + 1)
+
+// Build the path for an archive entry. Returns its length.
+// The name fields are only NUL terminated when they aren't completely filled.
+static inline size_t tar_header_path(const TarHeader *header, char *path) {
+  size_t prefix_len = strnlen((const char *)header->file_prefix, TAR_FILE_PREFIX_LEN);
+  size_t name_len = strnlen((const char *)header->file_name, TAR_FILE_NAME_LEN);
+  size_t len = 0;
+
+  if(prefix_len > 0) {
+    memcpy(path, header->file_prefix, prefix_len);
+    path[prefix_len] = '/';
+    len = prefix_len + 1;
+  }
+
+  memcpy(&path[len], header->file_name, name_len);
+  len += name_len;
+
+  // Directories have a trailing slash
+  if(header->type_flag == TAR_TYPE_DIRECTORY) {
+    while(len > 0 && path[len-1] == '/')
+      len--;
+  }
+
+  path[len] = '\0';
+  return len;
+}
+
 
 #endif // TAR_COMMON_H
 
diff --git a/src/tar_fs.c b/src/tar_fs.c
index edf3137..cab2a56 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -187,6 +187,7 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
   size_t total_path_len = 0;
   int total_files = 0;
+  char path[TAR_MAX_PATH_LEN];
   // Scan the tar file to count files and determine total string storage for keys
   for(bool valid = tar_iter_begin(tar_it); valid; valid = tar_iter_next(tar_it)) {
     // Only index plain files and directories
@@ -194,8 +195,7 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
        tar_it->cur_header.type_flag != TAR_TYPE_DIRECTORY) continue;
 
     total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header.file_name) +
-                      strlen((char *)tar_it->cur_header.file_prefix) + 1;
+    total_path_len += tar_header_path(&tar_it->cur_header, path) + 1;
   }
 
 
@@ -216,12 +216,10 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 
     dhKey key;
 
+    tar_header_path(&tar_it->cur_header, path);
+
     key.data = keys_r.start;
-    key.length = 0;
-    if(tar_it->cur_header.file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_prefix);
-// FIXME: Add path sep
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_name);
+    key.length = range_cat_str(&keys_r, path);
     range_cat_char(&keys_r,'\0');
 
     EvfsTarEntry entry;
@@ -232,9 +230,6 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
     } else {  // Directory entry
       entry.header_offset = -1;
       entry.file_size = -1;
-
-      // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
     }
 
     if(!dh_insert(&ht->hash_table, key, &entry)) {
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 9e257fe..501c404 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -197,6 +197,7 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
   size_t total_path_len = 0;
   int total_files = 0;
+  char path[TAR_MAX_PATH_LEN];
   // Scan the tar file to count files and determine total string storage for keys
   for(bool valid = tar_rsrc_iter_begin(tar_it); valid; valid = tar_rsrc_iter_next(tar_it)) {
     // Only index plain files and directories
@@ -204,8 +205,7 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
        tar_it->cur_header->type_flag != TAR_TYPE_DIRECTORY) continue;
 
     total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header->file_name) +
-                      strlen((char *)tar_it->cur_header->file_prefix) + 1;
+    total_path_len += tar_header_path(tar_it->cur_header, path) + 1;
   }
 
 
@@ -226,12 +226,10 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
 
     dhKey key;
 
-    key.data = keys_r.start;
-    key.length = 0;
-    if(tar_it->cur_header->file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_prefix);
+    tar_header_path(tar_it->cur_header, path);
 
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_name);
+    key.data = keys_r.start;
+    key.length = range_cat_str(&keys_r, path);
     range_cat_char(&keys_r,'\0');
 
     EvfsTarEntry entry;
@@ -242,9 +240,6 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
     } else {  // Directory entry
       entry.header_offset = -1;
       entry.file_size = -1;
-
-      // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
     }
 
     if(!dh_insert(&ht->hash_table, key, &entry)) {
-- 
2.43.0


From 729f8968d1e35bc2d2ed78778bdcf6b453ee62df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 064/164] fix: tar filesystems could not find files archived
 with a leading ./

---
 include/evfs/tar_common.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/evfs/tar_common.h b/include/evfs/tar_common.h
index 5711339..7082d17 100644
--- a/include/evfs/tar_common.h
+++ b/include/evfs/tar_common.h
@@ -72,6 +72,14 @@ static inline size_t tar_header_path(const TarHeader *header, char *path) {
   }
 
   path[len] = '\0';
+
+  // Archives of the current directory have paths starting with "./"
+  char *start = path;
+  while(start[0] == '/' || (start[0] == '.' && (start[1] == '/' || start[1] == '\0')))
+    start++;
+
+  len -= start - path;
+  memmove(path, start, len+1);
   return len;
 }
 
-- 
2.43.0


From e1e74ed2b8b0d7d2eb4b7b16f2d31d827e13a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 065/164] fix: tar filesystems did not normalize absolute paths

---
 src/tar_fs.c      | 21 ++++++---------------
 src/tar_rsrc_fs.c | 21 ++++++---------------
 2 files changed, 12 insertions(+), 30 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index cab2a56..0f79354 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -376,14 +376,9 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
     return EVFS_ERR_NO_SUPPORT;
 
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path); // Relative paths are converted and absolute paths normalized
+  err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
+  FREE_ABS(abs_path);
 
   if(entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
@@ -408,13 +403,9 @@ static int tarfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   EvfsTarEntry entry;
   int err;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path); // Relative paths are converted and absolute paths normalized
+  err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
+  FREE_ABS(abs_path);
 
   memset(info, 0, sizeof(*info));
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 501c404..c131ee3 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -397,14 +397,9 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
     return EVFS_ERR_NO_SUPPORT;
 
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path); // Relative paths are converted and absolute paths normalized
+  err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
+  FREE_ABS(abs_path);
 
   if(entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
@@ -429,13 +424,9 @@ static int tarfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   EvfsTarEntry entry;
   int err;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path); // Relative paths are converted and absolute paths normalized
+  err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
+  FREE_ABS(abs_path);
 
   memset(info, 0, sizeof(*info));
 
-- 
2.43.0


From 84f7cf8d78168953e6d11761b5eebf1bcb21ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 066/164] fix: tar filesystems used an undefined entry for
 missing files

---
 src/tar_fs.c      | 2 +-
 src/tar_rsrc_fs.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 0f79354..b452af6 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -380,7 +380,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
   FREE_ABS(abs_path);
 
-  if(entry.header_offset < 0)
+  if(err == EVFS_OK && entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
 
   if(err == EVFS_OK) {
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index c131ee3..be614a7 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -401,7 +401,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
   FREE_ABS(abs_path);
 
-  if(entry.header_offset < 0)
+  if(err == EVFS_OK && entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
 
   if(err == EVFS_OK) {
-- 
2.43.0


From de4601afb12f3e4304db369e9daa7da2c3d51f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 067/164] fix: tar filesystems ignored EVFS_NO_EXIST

---
 src/tar_fs.c      | 2 +-
 src/tar_rsrc_fs.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index b452af6..29a9bcb 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -372,7 +372,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_tarfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND | EVFS_NO_EXIST))
     return EVFS_ERR_NO_SUPPORT;
 
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index be614a7..89b67a1 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -393,7 +393,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_tarfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND | EVFS_NO_EXIST))
     return EVFS_ERR_NO_SUPPORT;
 
 
-- 
2.43.0


From bed470972630148214f14b0015c3d61988d27b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 068/164] fix: tar filesystems had no root directory

---
 src/tar_fs.c      | 6 ++++++
 src/tar_rsrc_fs.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 29a9bcb..3ac911a 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -246,6 +246,12 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTarEntry *entry) {
   if(path[0] != '/') return false; // All paths must be absolute
 
+  if(path[1] == '\0') { // The root directory may not be in the archive
+    entry->header_offset = -1;
+    entry->file_size = -1;
+    return true;
+  }
+
   dhKey key;
 
   key.data = &path[1];
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 89b67a1..61d1353 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -256,6 +256,12 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
 static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTarEntry *entry) {
   if(path[0] != '/') return false; // All paths must be absolute
 
+  if(path[1] == '\0') { // The root directory may not be in the archive
+    entry->header_offset = -1;
+    entry->file_size = -1;
+    return true;
+  }
+
   dhKey key;
 
   key.data = &path[1];
-- 
2.43.0


From 33a6ebc905a36fd88f0f364dd188f4205736c6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 069/164] fix: tar filesystems kept denormal paths as the
 current directory

---
 src/tar_fs.c      | 5 +++--
 src/tar_rsrc_fs.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 3ac911a..850749e 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -448,8 +448,9 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
     if(!evfs__vfs_existing_dir(vfs, path))
       return EVFS_ERR_NO_PATH;
   
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
+    StringRange cur_dir;
+    range_init(&cur_dir, fs_data->cur_dir, EVFS_MAX_PATH);
+    return evfs_vfs_path_normalize(vfs, path, &cur_dir);
 
   } else { // Path is relative: Join it to the existing directory
     StringRange head, tail, joined;
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 61d1353..fc57798 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -469,8 +469,9 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
     if(!evfs__vfs_existing_dir(vfs, path))
       return EVFS_ERR_NO_PATH;
   
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
+    StringRange cur_dir;
+    range_init(&cur_dir, fs_data->cur_dir, EVFS_MAX_PATH);
+    return evfs_vfs_path_normalize(vfs, path, &cur_dir);
 
   } else { // Path is relative: Join it to the existing directory
     StringRange head, tail, joined;
-- 
2.43.0


From d0706a2bcf4badbdb77dfc91d8b0dae6466cf8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 070/164] fix: tar filesystem lost data after failed and
 partial reads

---
 src/tar_fs.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 850749e..ad31a64 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -288,9 +288,13 @@ static ptrdiff_t tarfs__file_read(EvfsFile *fh, void *buf, size_t size) {
     size = remaining;
 
   LOCK();
-  evfs_file_seek(fs_data->tar_file, fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos, EVFS_SEEK_TO);
-  fil->read_pos += size;
-  ptrdiff_t rval = evfs_file_read(fs_data->tar_file, buf, size);
+  ptrdiff_t rval = evfs_file_seek(fs_data->tar_file,
+                                  fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos, EVFS_SEEK_TO);
+  if(rval == EVFS_OK)
+    rval = evfs_file_read(fs_data->tar_file, buf, size);
+
+  if(rval > 0)
+    fil->read_pos += rval;
   UNLOCK();
 
   return rval;
-- 
2.43.0


From 590511f256ef1a1bd44af4de0ed42433b88618e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 071/164] fix: tar filesystem hid files when reads of the
 archive were partial or failed

---
 include/evfs/tar_iter.h |  1 +
 src/tar_fs.c            |  6 ++++++
 src/tar_iter.c          | 22 +++++++++++++++++-----
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/evfs/tar_iter.h b/include/evfs/tar_iter.h
index dade3a0..0fa0aa5 100644
--- a/include/evfs/tar_iter.h
+++ b/include/evfs/tar_iter.h
@@ -12,6 +12,7 @@ typedef struct TarFileIterator {
 
   evfs_off_t header_offset;  // Offset within tar file
   evfs_off_t file_size;      // Size of current archived file
+  int        status;         // Error from reading the archive
 
 } TarFileIterator;
 
diff --git a/src/tar_fs.c b/src/tar_fs.c
index ad31a64..43d2f44 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -199,6 +199,8 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
   }
 
 
+  if(tar_it->status != EVFS_OK) return tar_it->status;
+
   // Prepare the hash index
   int err = tarfs__index_hash_init(ht, total_files, total_path_len);
   if(err != EVFS_OK) return err;
@@ -238,6 +240,10 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
     }
   }
 
+  if(tar_it->status != EVFS_OK) {
+    tarfs__index_hash_free(ht);
+    return tar_it->status;
+  }
 
   return EVFS_OK;
 }
diff --git a/src/tar_iter.c b/src/tar_iter.c
index b00db91..1247619 100644
--- a/src/tar_iter.c
+++ b/src/tar_iter.c
@@ -70,12 +70,22 @@ static bool tar__valid_header(TarHeader *header) {
 static bool tar__get_header(TarFileIterator *tar_it, TarHeader *header) {
   tar_it->header_offset = evfs_file_tell(tar_it->fd);
 
-  if(evfs_file_read(tar_it->fd, header, TAR_HEADER_SIZE) != TAR_HEADER_SIZE)
-    goto fail;
+  size_t header_len = 0;
+  while(header_len < TAR_HEADER_SIZE) { // Reads may be partial
+    ptrdiff_t read_len = evfs_file_read(tar_it->fd, (char *)header + header_len,
+                                        TAR_HEADER_SIZE - header_len);
+    if(read_len < 0)
+      tar_it->status = read_len;
+    if(read_len <= 0)
+      goto fail;
+
+    header_len += read_len;
+  }
 
   if(tar__valid_header(header)) {
     // Seek to start of next 512 byte TAR block for file data
-    if(evfs_file_seek(tar_it->fd, TAR_BLOCK_SIZE - TAR_HEADER_SIZE, EVFS_SEEK_REL) != EVFS_OK)
+    tar_it->status = evfs_file_seek(tar_it->fd, TAR_BLOCK_SIZE - TAR_HEADER_SIZE, EVFS_SEEK_REL);
+    if(tar_it->status != EVFS_OK)
       goto fail;
 
     // Extract fields
@@ -93,7 +103,8 @@ fail:
 
 
 bool tar_iter_seek(TarFileIterator *tar_it, evfs_off_t offset) {
-  if(evfs_file_seek(tar_it->fd, offset, EVFS_SEEK_TO) != EVFS_OK)
+  tar_it->status = evfs_file_seek(tar_it->fd, offset, EVFS_SEEK_TO);
+  if(tar_it->status != EVFS_OK)
     return false;
 
   return tar__get_header(tar_it, &tar_it->cur_header);
@@ -105,7 +116,8 @@ bool tar_iter_next(TarFileIterator *tar_it) {
   evfs_off_t file_blocks = (tar_it->file_size + TAR_BLOCK_SIZE-1) / TAR_BLOCK_SIZE;
   evfs_off_t next_header = tar_it->header_offset + (file_blocks+1) * TAR_BLOCK_SIZE;
 
-  if(evfs_file_seek(tar_it->fd, next_header, EVFS_SEEK_TO) != EVFS_OK)
+  tar_it->status = evfs_file_seek(tar_it->fd, next_header, EVFS_SEEK_TO);
+  if(tar_it->status != EVFS_OK)
     return false;
 
   return tar__get_header(tar_it, &tar_it->cur_header);
-- 
2.43.0


From a4355562fee321f337d2371c5bbf8b27a79dc17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 072/164] fix: tar iterators accepted sizes that do not fit in
 the archive

---
 src/tar_iter.c      |  7 ++++++-
 src/tar_iter_rsrc.c | 13 +++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/tar_iter.c b/src/tar_iter.c
index 1247619..79fcb59 100644
--- a/src/tar_iter.c
+++ b/src/tar_iter.c
@@ -90,7 +90,12 @@ static bool tar__get_header(TarFileIterator *tar_it, TarHeader *header) {
 
     // Extract fields
     // Only supporting NUL terminated octal with '0' padding
-    tar_it->file_size = strtol((const char *)header->size, NULL, 8);
+    long file_size = strtol((const char *)header->size, NULL, 8);
+    evfs_off_t data_len = evfs_file_size(tar_it->fd) - tar_iter_file_offset(tar_it);
+    if(file_size < 0 || file_size > data_len)
+      goto fail;
+
+    tar_it->file_size = file_size;
     return true;
   }
 
diff --git a/src/tar_iter_rsrc.c b/src/tar_iter_rsrc.c
index b3120a7..8471adf 100644
--- a/src/tar_iter_rsrc.c
+++ b/src/tar_iter_rsrc.c
@@ -66,6 +66,10 @@ static bool tar__valid_header(TarHeader *header) {
 static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
   tar_it->header_offset = tar_it->read_pos - tar_it->resource;
 
+  if(tar_it->header_offset > tar_it->resource_len ||
+     tar_it->resource_len - tar_it->header_offset < TAR_BLOCK_SIZE)
+    goto fail;
+
   tar_it->cur_header = (TarHeader *)tar_it->read_pos;
   tar_it->read_pos += TAR_HEADER_SIZE;
   if(tar__valid_header(tar_it->cur_header)) {
@@ -74,10 +78,15 @@ static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
 
     // Extract fields
     // Only supporting NUL terminated octal with '0' padding
-    tar_it->file_size = strtol((const char *)tar_it->cur_header->size, NULL, 8);
-    return true;
+    long file_size = strtol((const char *)tar_it->cur_header->size, NULL, 8);
+    size_t data_len = tar_it->resource_len - tar_rsrc_iter_file_offset(tar_it);
+    if(file_size >= 0 && (size_t)file_size <= data_len) {
+      tar_it->file_size = file_size;
+      return true;
+    }
   }
 
+fail:
   tar_it->cur_header = NULL;
   tar_it->header_offset = 0;
   tar_it->file_size = 0;
-- 
2.43.0


From b9f921f6de6e99b3f58c3d1ab188a9fa926fd161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 073/164] fix: tar filesystems did not recognize POSIX ustar
 archives

---
 src/tar_iter.c      | 4 +++-
 src/tar_iter_rsrc.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tar_iter.c b/src/tar_iter.c
index 79fcb59..6089664 100644
--- a/src/tar_iter.c
+++ b/src/tar_iter.c
@@ -43,7 +43,9 @@ void tar_iter_close(TarFileIterator *tar_it) {
 
 static bool tar__valid_header(TarHeader *header) {
   // Only support ustar format
-  if(strcmp((const char *)header->magic, "ustar  ") != 0) return false;
+  // GNU archives have "ustar  " and POSIX archives "ustar" with a NUL
+  if(memcmp(header->magic, "ustar ", sizeof(header->magic)) != 0 &&
+     memcmp(header->magic, "ustar", sizeof(header->magic)) != 0) return false;
   
   // Compute the checksum
   uint8_t *raw_header = (uint8_t *)header;
diff --git a/src/tar_iter_rsrc.c b/src/tar_iter_rsrc.c
index 8471adf..643e06e 100644
--- a/src/tar_iter_rsrc.c
+++ b/src/tar_iter_rsrc.c
@@ -39,7 +39,9 @@ void tar_rsrc_iter_init(TarRsrcIterator *tar_it, uint8_t *resource, size_t resou
 
 static bool tar__valid_header(TarHeader *header) {
   // Only support ustar format
-  if(strcmp((const char *)header->magic, "ustar  ") != 0) return false;
+  // GNU archives have "ustar  " and POSIX archives "ustar" with a NUL
+  if(memcmp(header->magic, "ustar ", sizeof(header->magic)) != 0 &&
+     memcmp(header->magic, "ustar", sizeof(header->magic)) != 0) return false;
   
   // Compute the checksum
   uint8_t *raw_header = (uint8_t *)header;
-- 
2.43.0


From b4bc91d3d51d370d5725f1842b3780a8bdb9e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 074/164] fix: filesystem drivers stayed locked after failing
 to build an absolute path

---
 src/littlefs_fs.c | 13 ++++++++++++-
 src/romfs_fs.c    | 13 ++++++++++++-
 src/tar_fs.c      | 13 ++++++++++++-
 src/tar_rsrc_fs.c | 13 ++++++++++++-
 4 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index d84866a..c5bca61 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -132,9 +132,20 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
+    return EVFS_OK;
+  }
+
+  // The caller won't use FREE_ABS() after an error
+#ifdef EVFS_USE_LITTLEFS_SHARED_BUFFER
+  if(!force_malloc) {
+    UNLOCK();
+    return status;
+  }
+#endif
 
+  evfs_free(abs_path);
   return status;
 }
 
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 279cf7c..28a1dd2 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -118,9 +118,20 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
+    return EVFS_OK;
+  }
+
+  // The caller won't use FREE_ABS() after an error
+#ifdef EVFS_USE_ROMFS_SHARED_BUFFER
+  if(!force_malloc) {
+    UNLOCK();
+    return status;
+  }
+#endif
 
+  evfs_free(abs_path);
   return status;
 }
 
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 43d2f44..b3024bf 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -123,9 +123,20 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
+    return EVFS_OK;
+  }
+
+  // The caller won't use FREE_ABS() after an error
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+  if(!force_malloc) {
+    UNLOCK();
+    return status;
+  }
+#endif
 
+  evfs_free(abs_path);
   return status;
 }
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index fc57798..49e156d 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -133,9 +133,20 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
+    return EVFS_OK;
+  }
+
+  // The caller won't use FREE_ABS() after an error
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+  if(!force_malloc) {
+    UNLOCK();
+    return status;
+  }
+#endif
 
+  evfs_free(abs_path);
   return status;
 }
 
-- 
2.43.0


From 27a48e44b98f1e4e8f71f5f66c1ce8316ce3f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:44 +0000
Subject: [PATCH 075/164] fix: Romfs did not normalize absolute paths

---
 src/romfs_fs.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 28a1dd2..60a5f8f 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -351,14 +351,9 @@ static inline int romfs__lookup_path(Evfs *vfs, RomfsData *fs_data, const char *
                                     RomfsFileHead *hdr) {
   int status;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    status = romfs_lookup_abs_path(&fs_data->romfs, path, hdr);
-
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    status = romfs_lookup_abs_path(&fs_data->romfs, abs_path, hdr);
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path); // Relative paths are converted and absolute paths normalized
+  status = romfs_lookup_abs_path(&fs_data->romfs, abs_path, hdr);
+  FREE_ABS(abs_path);
 
   return status;
 }
@@ -456,8 +451,9 @@ static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
     if(!evfs__vfs_existing_dir(vfs, path))
       return EVFS_ERR_NO_PATH;
 
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
+    StringRange cur_dir;
+    range_init(&cur_dir, fs_data->cur_dir, EVFS_MAX_PATH);
+    return evfs_vfs_path_normalize(vfs, path, &cur_dir);
 
   } else { // Path is relative: Join it to the existing directory
     StringRange head, tail, joined;
-- 
2.43.0


From 1dbbc5b11faa73281cf93f65e02a1043b3f529a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:44 +0000
Subject: [PATCH 076/164] fix: Romfs ignored EVFS_NO_EXIST

---
 src/romfs_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 60a5f8f..a498359 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -366,7 +366,7 @@ static int romfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_romfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND | EVFS_NO_EXIST))
     return EVFS_ERR_NO_SUPPORT;
 
 
-- 
2.43.0


From 6b720017078a34fa7ec59eb809bb8a25876994a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:44 +0000
Subject: [PATCH 077/164] fix: Romfs lost data after failed and partial reads

---
 src/romfs_fs.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index a498359..98f68dc 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -201,7 +201,8 @@ static ptrdiff_t romfs__file_read(EvfsFile *fh, void *buf, size_t size) {
   LOCK();
   evfs_off_t data_offset = FILE_OFFSET(&fil->hdr) + fil->hdr.header_len + fil->read_pos;
   ptrdiff_t rval = romfs_read(&fs_data->romfs, data_offset, buf, size);
-  fil->read_pos += size;
+  if(rval > 0)
+    fil->read_pos += rval;
   UNLOCK();
 
   //DPRINT("## READ: @ %ld,  %ld  '%02X'", fil->read_pos-size, size, *((uint8_t *)buf));
@@ -603,8 +604,23 @@ static void romfs_unmount_image(Romfs *fs) {
 
 static ptrdiff_t romfs_read_image(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
   EvfsFile *image = (EvfsFile *)fs->ctx;
-  evfs_file_seek(image, offset, EVFS_SEEK_TO);
-  return evfs_file_read(image, buf, size);
+  int status = evfs_file_seek(image, offset, EVFS_SEEK_TO);
+  if(status != EVFS_OK)
+    return status;
+
+  // Headers need to be complete but reads may be partial
+  size_t total = 0;
+  while(total < size) {
+    ptrdiff_t read_len = evfs_file_read(image, (char *)buf + total, size - total);
+    if(read_len < 0)
+      return read_len;
+    if(read_len == 0)
+      break;
+
+    total += read_len;
+  }
+
+  return total;
 }
 
 
-- 
2.43.0


From 13ea0f33570621a100bcc6dc61af142a5e3ad514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:44 +0000
Subject: [PATCH 078/164] fix: Romfs assumed that directories start with their
 dot entries

---
 src/romfs_common.c | 22 ++++++++++++++++------
 src/romfs_fs.c     | 25 ++++++++++++-------------
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 0e163f1..f41248a 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -261,6 +261,11 @@ static void romfs__fast_index_free(RomfsIndex *ht) {
 
 
 
+static inline bool is_dot_entry(RomfsFileHead *hdr) {
+  return !strcmp(hdr->file_name, ".") || !strcmp(hdr->file_name, "..");
+}
+
+
 static int romfs__get_next_file(Romfs *fs, RomfsFileHead *cur_file, evfs_off_t *cur_file_offset) {
   *cur_file_offset = FILE_OFFSET(cur_file);
   if(*cur_file_offset == 0)
@@ -290,12 +295,8 @@ static int romfs__get_dir(Romfs *fs, const char *path, RomfsFileHead *hdr,
 
   if(status == EVFS_OK) {
     // Get first file in directory
-    romfs_read_file_header(fs, hdr->spec_info, hdr) ? EVFS_OK : EVFS_ERR;
-
-    // Skip hard link entries
-    romfs__get_next_file(fs, hdr, cur_file_offset);
-
-    status = romfs__get_next_file(fs, hdr, cur_file_offset);
+    *cur_file_offset = hdr->spec_info;
+    status = romfs_read_file_header(fs, hdr->spec_info, hdr) ? EVFS_OK : EVFS_ERR;
   }
 
   return status;
@@ -318,6 +319,11 @@ static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int
   do {
     if(status == EVFS_OK) {
       //DPRINT("  '%s'  %08X  %08X", cur_file.file_name, cur_file_offset, FILE_OFFSET(&cur_file));
+      if(is_dot_entry(&cur_file)) {
+        status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
+        continue;
+      }
+
       (*total_files)++;
 
       if(FILE_TYPE(&cur_file) == FILE_TYPE_DIRECTORY) {
@@ -379,6 +385,10 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
   do {
     if(status == EVFS_OK) {
       //DPRINT("  '%s'", cur_file.file_name);
+      if(is_dot_entry(&cur_file)) {
+        status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
+        continue;
+      }
 
       if(FILE_TYPE(&cur_file) == FILE_TYPE_DIRECTORY) {
         // Build path to sub directory
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 98f68dc..1d82522 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -293,24 +293,23 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &dir->cur_file);
     next_entry = dir->cur_file.spec_info;
     dir->is_reset = false;
-
-    if(fs_data->cfg_no_dir_dots) { // Skip over hard links
-      romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file); // Skip "."
-      romfs_read_file_header(&fs_data->romfs, FILE_OFFSET(&dir->cur_file), &dir->cur_file); // Skip ".."
-      next_entry = FILE_OFFSET(&dir->cur_file);
-    }
-
   } else { // Already initialized
     next_entry = FILE_OFFSET(&dir->cur_file);
   }
 
-  if(next_entry > 0) {
-    dir->cur_file_offset = next_entry;
-    status = romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file) ? EVFS_OK : EVFS_DONE;
+  do {
+    if(next_entry > 0) {
+      dir->cur_file_offset = next_entry;
+      status = romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file) ? EVFS_OK : EVFS_DONE;
+      next_entry = FILE_OFFSET(&dir->cur_file);
 
-  } else { // Iteration complete
-    status = EVFS_DONE;
-  }
+    } else { // Iteration complete
+      status = EVFS_DONE;
+    }
+
+    // Skip over dir dots if configured
+  } while(status == EVFS_OK && fs_data->cfg_no_dir_dots &&
+          (!strcmp(dir->cur_file.file_name, ".") || !strcmp(dir->cur_file.file_name, "..")));
 
 
   memset(info, 0, sizeof(*info));
-- 
2.43.0


From b5bb8b98deb0cccecfa4e727fb72a3ae6fceb2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:44 +0000
Subject: [PATCH 079/164] fix: Romfs could not open hard linked files and
 listed them as directories

---
 include/evfs/romfs_common.h |  4 ++++
 src/romfs_common.c          | 27 ++++++++++++++++++---------
 src/romfs_fs.c              | 10 ++++++----
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/include/evfs/romfs_common.h b/include/evfs/romfs_common.h
index 0fcc3d7..8c02930 100644
--- a/include/evfs/romfs_common.h
+++ b/include/evfs/romfs_common.h
@@ -26,6 +26,9 @@
 #define FILE_TYPE_FIFO          7
 
 
+// Limit for chains of hard links
+#define ROMFS_MAX_LINKS  4
+
 // Header for file entries
 typedef struct RomfsFileHead {
   uint32_t offset; // next file header in binary format
@@ -88,6 +91,7 @@ int romfs_init(Romfs *fs, RomfsConfig *cfg);
 
 
 bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr);
+bool romfs_follow_link(Romfs *fs, RomfsFileHead *hdr);
 
 
 static inline ptrdiff_t romfs_read(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
diff --git a/src/romfs_common.c b/src/romfs_common.c
index f41248a..2e1885d 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -51,6 +51,22 @@ bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   return true;
 }
 
+// Replace a hard link with the header of its target
+// The offset field must have the position of the header
+bool romfs_follow_link(Romfs *fs, RomfsFileHead *hdr) {
+  for(int hops = 0; FILE_TYPE(hdr) == FILE_TYPE_HARD_LINK; hops++) {
+    evfs_off_t target = hdr->spec_info;
+
+    if(hops >= ROMFS_MAX_LINKS || !romfs_read_file_header(fs, target, hdr))
+      return false;
+
+    hdr->offset = target | FILE_MODE(hdr);
+  }
+
+  return true;
+}
+
+
 // Scan a directory for file from a path
 static bool romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *element, RomfsFileHead *hdr) {
   evfs_off_t cur_hdr = dir_pos;
@@ -61,7 +77,7 @@ static bool romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *el
 
     if(range_eq(element, hdr->file_name)) {
       hdr->offset = cur_hdr | FILE_MODE(hdr); // Replace with offset of the element
-      return true;
+      return romfs_follow_link(fs, hdr);
     }
 
     cur_hdr = FILE_OFFSET(hdr);
@@ -85,7 +101,7 @@ static int romfs__fast_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHea
     romfs_read_file_header(fs, entry, hdr);
     //DPRINT("## FAST LOOKUP: @ %08X %08X %s -> '%s'", entry, FILE_OFFSET(hdr), path, hdr->file_name);
     hdr->offset = entry | FILE_MODE(hdr); // Replace with offset of the element
-    status = EVFS_OK;
+    status = romfs_follow_link(fs, hdr) ? EVFS_OK : EVFS_ERR_NO_PATH;
   } else {
     status = EVFS_ERR_NO_PATH;
   }
@@ -134,13 +150,6 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
       file_type = FILE_TYPE(hdr);
       switch(file_type) {
 
-      case FILE_TYPE_HARD_LINK:
-        dir_pos = hdr->spec_info;  // Follow link dest
-        romfs_read_file_header(fs, dir_pos, hdr); // Reparse header (should never fail)
-        dir_pos = hdr->spec_info; // First file in dir
-        //DPRINT("FOLLOW LINK: %08X", dir_pos);
-        break;
-
       case FILE_TYPE_DIRECTORY:
         dir_pos = hdr->spec_info; // First file in dir
         //DPRINT("FOLLOW DIR: %.*s  %08X --> %08X", RANGE_FMT(&element), FILE_OFFSET(hdr), dir_pos);
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 1d82522..e75b203 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -315,11 +315,13 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
   memset(info, 0, sizeof(*info));
 
   if(status == EVFS_OK) {
+    RomfsFileHead target = dir->cur_file;
+    romfs_follow_link(&fs_data->romfs, &target);
+
     info->name = dir->cur_file.file_name;
-    info->size = dir->cur_file.size;
+    info->size = target.size;
 
-    int file_type = FILE_TYPE(&dir->cur_file);
-    if(file_type == FILE_TYPE_DIRECTORY || file_type == FILE_TYPE_HARD_LINK)
+    if(FILE_TYPE(&target) == FILE_TYPE_DIRECTORY)
       info->type |= EVFS_FILE_DIR;
   }
 
@@ -397,7 +399,7 @@ static int romfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
     info->size = hdr.size;
 
     int file_type = FILE_TYPE(&hdr);
-    if(file_type == FILE_TYPE_DIRECTORY || file_type == FILE_TYPE_HARD_LINK)
+    if(file_type == FILE_TYPE_DIRECTORY)
       info->type |= EVFS_FILE_DIR;
   }
 
-- 
2.43.0


From 6afe6a288d7b4352be3fa90b5b53b8e4961ee78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:44 +0000
Subject: [PATCH 080/164] fix: Romfs lookups of the root directory returned the
 position of its second entry

---
 src/romfs_common.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 2e1885d..a41f2a5 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -139,7 +139,11 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
   bool end_scan;
 
   if(status != EVFS_OK) { // Assume this is the root path
-    return romfs_read_file_header(fs, dir_pos, hdr) ? EVFS_OK : EVFS_ERR_NO_PATH;
+    if(!romfs_read_file_header(fs, dir_pos, hdr))
+      return EVFS_ERR_NO_PATH;
+
+    hdr->offset = dir_pos | FILE_MODE(hdr);
+    return EVFS_OK;
   }
 
   while(status == EVFS_OK) {
-- 
2.43.0


From 438a655a95cefba66085c30ce75e3a8726bbf701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:44 +0000
Subject: [PATCH 081/164] fix: failed Romfs registration leaked memory

---
 src/romfs_fs.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index e75b203..b4f0fc0 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -589,8 +589,13 @@ static int evfs__register_romfs_cfg(const char *vfs_name, RomfsConfig *cfg, bool
     .unmount    = romfs_unmount_image
   };*/
   int status = romfs_init(&fs_data->romfs, cfg);
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
+#ifdef USE_ROMFS_LOCK
+    evfs__lock_destroy(&fs_data->romfs_lock);
+#endif
+    evfs_free(new_vfs);
     return status;
+  }
 
   return evfs_register(new_vfs, default_vfs);
 }
-- 
2.43.0


From 85b2a4dbdbe5ef50d815a4ef245cfbcf7845f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:44 +0000
Subject: [PATCH 082/164] fix: Romfs accepted headers and sizes outside of the
 image

---
 src/romfs_common.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index a41f2a5..ef5a039 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -28,6 +28,9 @@ static inline int file_header_len(RomfsFileHead *hdr) {
 bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   memset(hdr, 0, sizeof(*hdr));
 
+  if(hdr_pos < 0 || hdr_pos >= fs->total_size)
+    return false;
+
   ptrdiff_t buf_len = romfs_read(fs, hdr_pos, hdr, sizeof(*hdr));
   if(buf_len < ROMFS_MIN_HEADER_SIZE)
     return false;
@@ -48,6 +51,11 @@ bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   hdr->size         = get_unaligned_be(&hdr->size);
   hdr->header_len   = header_len; // Overwrite checksum
 
+  // File data must be inside the image
+  if(header_len > fs->total_size - hdr_pos ||
+     hdr->size > (uint32_t)(fs->total_size - hdr_pos - header_len))
+    return false;
+
   return true;
 }
 
@@ -202,7 +210,7 @@ static int romfs__validate(Romfs *fs) {
   if(get_unaligned_le(&buf[0]) == 0x6D6F722D && get_unaligned_le(&buf[1]) == 0x2D736631) {
     uint32_t fs_bytes = get_unaligned_be(&buf[2]);
 
-    if(ASSERT((evfs_off_t)fs_bytes <= fs->total_size, "Invalid Romfs size"))
+    if(ASSERT(fs_bytes <= (uint32_t)fs->total_size, "Invalid Romfs size"))
       return EVFS_ERR_INVALID;
 
     // Iterate over chunks to verify checksum
-- 
2.43.0


From d33aa9cd39b9c596c7550d8140cf06aca195764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:07 +0000
Subject: [PATCH 083/164] fix: Romfs never ended on images with cyclic lists or
 directories

---
 include/evfs/romfs_common.h |  5 +++
 src/romfs_common.c          | 71 +++++++++++++++++++++++++++----------
 src/romfs_fs.c              |  7 +++-
 3 files changed, 63 insertions(+), 20 deletions(-)

diff --git a/include/evfs/romfs_common.h b/include/evfs/romfs_common.h
index 8c02930..6fb5e8c 100644
--- a/include/evfs/romfs_common.h
+++ b/include/evfs/romfs_common.h
@@ -104,6 +104,11 @@ static inline int romfs_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHe
 
 void romfs_unmount(Romfs *fs);
 
+// Upper limit for the number of entries in an image
+static inline evfs_off_t romfs_max_entries(Romfs *fs) {
+  return fs->total_size / 16;
+}
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/romfs_common.c b/src/romfs_common.c
index ef5a039..36f34f2 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -79,7 +79,10 @@ bool romfs_follow_link(Romfs *fs, RomfsFileHead *hdr) {
 static bool romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *element, RomfsFileHead *hdr) {
   evfs_off_t cur_hdr = dir_pos;
 
-  while(cur_hdr != 0) {
+  for(evfs_off_t entries = 0; cur_hdr != 0; entries++) {
+    if(entries > romfs_max_entries(fs)) // Cyclic list
+      break;
+
     if(!romfs_read_file_header(fs, cur_hdr, hdr))
       break;
 
@@ -269,8 +272,13 @@ static int romfs__fast_index_init(RomfsIndex *ht, int total_files, size_t total_
   if(MEM_CHECK(ht->keys)) return EVFS_ERR_ALLOC;
 
 
-  int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR;
-  return err;
+  if(!dh_init(&ht->hash_table, &s_hash_init, NULL)) {
+    evfs_free(ht->keys);
+    ht->keys = NULL;
+    return EVFS_ERR_ALLOC;
+  }
+
+  return EVFS_OK;
 }
 
 
@@ -326,34 +334,45 @@ static int romfs__get_dir(Romfs *fs, const char *path, RomfsFileHead *hdr,
 
 
 
+// Damaged directories are indexed up to the first bad entry
+static inline int romfs__end_dir(int status) {
+  return (status == EVFS_DONE || status == EVFS_ERR || status == EVFS_ERR_NO_PATH) ? EVFS_OK : status;
+}
+
+
 // Recursively scan the filesystem and collect stats on all paths
-static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int *total_files) {
+static int scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, evfs_off_t *total_files,
+                         size_t *total_path_len) {
   RomfsFileHead cur_file;
   evfs_off_t    cur_file_offset;
   int status;
 
-  size_t total_path_len = 0;
-
   status = romfs__get_dir(fs, path, &cur_file, &cur_file_offset, NULL);
   //DPRINT("OPEN DIR: %s %d", path, status);
 
   do {
     if(status == EVFS_OK) {
       //DPRINT("  '%s'  %08X  %08X", cur_file.file_name, cur_file_offset, FILE_OFFSET(&cur_file));
+      if(++(*total_files) > romfs_max_entries(fs)) // Cyclic list or directory
+        return EVFS_ERR_INVALID;
+
       if(is_dot_entry(&cur_file)) {
         status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
         continue;
       }
 
-      (*total_files)++;
-
       if(FILE_TYPE(&cur_file) == FILE_TYPE_DIRECTORY) {
         // Build path to sub directory
         size_t new_prefix_len = prefix_len + 1 + strlen(cur_file.file_name);
-        total_path_len += new_prefix_len; // Entry for the directory
+        if(new_prefix_len >= EVFS_MAX_PATH) { // Not accessible
+          status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
+          continue;
+        }
+
+        *total_path_len += new_prefix_len; // Entry for the directory
 
         char *sub_path = malloc(new_prefix_len+1);
-        if(MEM_CHECK(sub_path)) return 0;
+        if(MEM_CHECK(sub_path)) return EVFS_ERR_ALLOC;
 
         AppendRange sub_path_r;
         range_init(&sub_path_r, sub_path, new_prefix_len+1);
@@ -362,18 +381,20 @@ static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int
         range_cat_str(&sub_path_r, cur_file.file_name);
 
         //DPRINT("SUB PATH: '%s'  %08X", sub_path, cur_file_offset);
-        total_path_len += scan_dir_tree(fs, sub_path, new_prefix_len, total_files);
+        status = scan_dir_tree(fs, sub_path, new_prefix_len, total_files, total_path_len);
         free(sub_path);
+        if(status != EVFS_OK)
+          return status;
 
       } else { // Normal file
-        total_path_len += prefix_len + 1 + strlen(cur_file.file_name);
+        *total_path_len += prefix_len + 1 + strlen(cur_file.file_name);
       }
 
       status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
     }
   } while(status == EVFS_OK);
 
-  return total_path_len;
+  return romfs__end_dir(status);
 }
 
 
@@ -414,6 +435,10 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
       if(FILE_TYPE(&cur_file) == FILE_TYPE_DIRECTORY) {
         // Build path to sub directory
         size_t new_prefix_len = prefix_len + 1 + strlen(cur_file.file_name);
+        if(new_prefix_len >= EVFS_MAX_PATH) { // Not accessible
+          status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
+          continue;
+        }
 
         char *sub_path = malloc(new_prefix_len+1);
         if(MEM_CHECK(sub_path)) return EVFS_ERR_ALLOC;
@@ -426,8 +451,10 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
 
         //DPRINT("SUB PATH: '%s'", sub_path);
 
-        index_dir_tree(fs, sub_path, new_prefix_len, ht, keys_r);
+        status = index_dir_tree(fs, sub_path, new_prefix_len, ht, keys_r);
         free(sub_path);
+        if(status != EVFS_OK)
+          return status;
 
       } else { // Normal file
         // Prepare key
@@ -452,7 +479,7 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
     }
   } while(status == EVFS_OK);
 
-  return EVFS_OK;
+  return romfs__end_dir(status);
 }
 
 
@@ -461,9 +488,12 @@ static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
   int status;
 
   size_t total_path_len = 0;
-  int total_files = 0;
+  evfs_off_t total_files = 0;
+
+  status = scan_dir_tree(fs, "", 0, &total_files, &total_path_len);
+  if(status != EVFS_OK)
+    return status;
 
-  total_path_len = scan_dir_tree(fs, "", 0, &total_files);
   // Add space for root entry
   total_files++;
   total_path_len += 1;
@@ -477,7 +507,10 @@ static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
     status = index_dir_tree(fs, "", 0, ht, &keys_r);
     //dump_array((uint8_t *)ht->keys, total_path_len);
 
-    fs->lookup_abs_path = romfs__fast_lookup_abs_path;
+    if(status == EVFS_OK)
+      fs->lookup_abs_path = romfs__fast_lookup_abs_path;
+    else
+      romfs__fast_index_free(ht);
   }
 
   return status;
@@ -499,7 +532,7 @@ int romfs_init(Romfs *fs, RomfsConfig *cfg) {
 
 #ifdef EVFS_USE_ROMFS_FAST_INDEX
   if(status == EVFS_OK) {
-    romfs__build_index(fs, &fs->fast_index);
+    status = romfs__build_index(fs, &fs->fast_index);
   }
 #endif
 
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index b4f0fc0..4686fea 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -82,6 +82,7 @@ typedef struct RomfsDir {
   evfs_off_t    dir_pos;
   evfs_off_t    cur_file_offset; // Iterator position
   RomfsFileHead cur_file;
+  evfs_off_t    entries; // Entries read since last reset
   bool          is_reset;
 } RomfsDir;
 
@@ -292,13 +293,17 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
   if(dir->is_reset) { // Init iterator
     romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &dir->cur_file);
     next_entry = dir->cur_file.spec_info;
+    dir->entries = 0;
     dir->is_reset = false;
   } else { // Already initialized
     next_entry = FILE_OFFSET(&dir->cur_file);
   }
 
   do {
-    if(next_entry > 0) {
+    if(dir->entries++ > romfs_max_entries(&fs_data->romfs)) { // Cyclic list
+      status = EVFS_ERR_CORRUPTION;
+
+    } else if(next_entry > 0) {
       dir->cur_file_offset = next_entry;
       status = romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file) ? EVFS_OK : EVFS_DONE;
       next_entry = FILE_OFFSET(&dir->cur_file);
-- 
2.43.0


From e2c389b2f8b83b0433d85cff11ddc1c812636708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:07 +0000
Subject: [PATCH 084/164] fix: Romfs hid read errors

---
 include/evfs/romfs_common.h |  4 +--
 src/romfs_common.c          | 69 +++++++++++++++++++++++--------------
 src/romfs_fs.c              | 47 ++++++++++++++++---------
 3 files changed, 76 insertions(+), 44 deletions(-)

diff --git a/include/evfs/romfs_common.h b/include/evfs/romfs_common.h
index 6fb5e8c..e902fdc 100644
--- a/include/evfs/romfs_common.h
+++ b/include/evfs/romfs_common.h
@@ -90,8 +90,8 @@ extern "C" {
 int romfs_init(Romfs *fs, RomfsConfig *cfg);
 
 
-bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr);
-bool romfs_follow_link(Romfs *fs, RomfsFileHead *hdr);
+int romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr);
+int romfs_follow_link(Romfs *fs, RomfsFileHead *hdr);
 
 
 static inline ptrdiff_t romfs_read(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
diff --git a/src/romfs_common.c b/src/romfs_common.c
index 36f34f2..cdbb792 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -25,15 +25,17 @@ static inline int file_header_len(RomfsFileHead *hdr) {
 
 
 // Read Romfs file header from image
-bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
+int romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   memset(hdr, 0, sizeof(*hdr));
 
   if(hdr_pos < 0 || hdr_pos >= fs->total_size)
-    return false;
+    return EVFS_ERR_CORRUPTION;
 
   ptrdiff_t buf_len = romfs_read(fs, hdr_pos, hdr, sizeof(*hdr));
+  if(buf_len < 0)
+    return buf_len;
   if(buf_len < ROMFS_MIN_HEADER_SIZE)
-    return false;
+    return EVFS_ERR_CORRUPTION;
 
   int header_len = file_header_len(hdr);
 
@@ -44,7 +46,7 @@ bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   }
 
   if(checksum != 0)
-    return false;
+    return EVFS_ERR_CORRUPTION;
 
   hdr->offset       = get_unaligned_be(&hdr->offset);
   hdr->spec_info    = get_unaligned_be(&hdr->spec_info);
@@ -54,37 +56,42 @@ bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   // File data must be inside the image
   if(header_len > fs->total_size - hdr_pos ||
      hdr->size > (uint32_t)(fs->total_size - hdr_pos - header_len))
-    return false;
+    return EVFS_ERR_CORRUPTION;
 
-  return true;
+  return EVFS_OK;
 }
 
 // Replace a hard link with the header of its target
 // The offset field must have the position of the header
-bool romfs_follow_link(Romfs *fs, RomfsFileHead *hdr) {
+int romfs_follow_link(Romfs *fs, RomfsFileHead *hdr) {
   for(int hops = 0; FILE_TYPE(hdr) == FILE_TYPE_HARD_LINK; hops++) {
     evfs_off_t target = hdr->spec_info;
 
-    if(hops >= ROMFS_MAX_LINKS || !romfs_read_file_header(fs, target, hdr))
-      return false;
+    if(hops >= ROMFS_MAX_LINKS)
+      return EVFS_ERR_CORRUPTION;
+
+    int status = romfs_read_file_header(fs, target, hdr);
+    if(status != EVFS_OK)
+      return status;
 
     hdr->offset = target | FILE_MODE(hdr);
   }
 
-  return true;
+  return EVFS_OK;
 }
 
 
 // Scan a directory for file from a path
-static bool romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *element, RomfsFileHead *hdr) {
+static int romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *element, RomfsFileHead *hdr) {
   evfs_off_t cur_hdr = dir_pos;
 
   for(evfs_off_t entries = 0; cur_hdr != 0; entries++) {
     if(entries > romfs_max_entries(fs)) // Cyclic list
-      break;
+      return EVFS_ERR_CORRUPTION;
 
-    if(!romfs_read_file_header(fs, cur_hdr, hdr))
-      break;
+    int status = romfs_read_file_header(fs, cur_hdr, hdr);
+    if(status != EVFS_OK)
+      return status;
 
     if(range_eq(element, hdr->file_name)) {
       hdr->offset = cur_hdr | FILE_MODE(hdr); // Replace with offset of the element
@@ -94,7 +101,7 @@ static bool romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *el
     cur_hdr = FILE_OFFSET(hdr);
   }
 
-  return false;
+  return EVFS_ERR_NO_PATH;
 }
 
 #ifdef EVFS_USE_ROMFS_FAST_INDEX
@@ -109,10 +116,12 @@ static int romfs__fast_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHea
 
   alignas(uintptr_t) evfs_off_t entry;
   if(dh_lookup(&fs->fast_index.hash_table, key, &entry)) {
-    romfs_read_file_header(fs, entry, hdr);
+    status = romfs_read_file_header(fs, entry, hdr);
     //DPRINT("## FAST LOOKUP: @ %08X %08X %s -> '%s'", entry, FILE_OFFSET(hdr), path, hdr->file_name);
-    hdr->offset = entry | FILE_MODE(hdr); // Replace with offset of the element
-    status = romfs_follow_link(fs, hdr) ? EVFS_OK : EVFS_ERR_NO_PATH;
+    if(status == EVFS_OK) {
+      hdr->offset = entry | FILE_MODE(hdr); // Replace with offset of the element
+      status = romfs_follow_link(fs, hdr);
+    }
   } else {
     status = EVFS_ERR_NO_PATH;
   }
@@ -150,8 +159,9 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
   bool end_scan;
 
   if(status != EVFS_OK) { // Assume this is the root path
-    if(!romfs_read_file_header(fs, dir_pos, hdr))
-      return EVFS_ERR_NO_PATH;
+    status = romfs_read_file_header(fs, dir_pos, hdr);
+    if(status != EVFS_OK)
+      return status;
 
     hdr->offset = dir_pos | FILE_MODE(hdr);
     return EVFS_OK;
@@ -161,7 +171,8 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
     int file_type = -1;
     end_scan = false;
 
-    if(romfs__find_path_elem(fs, dir_pos, &element, hdr)) {
+    status = romfs__find_path_elem(fs, dir_pos, &element, hdr);
+    if(status == EVFS_OK) {
       file_type = FILE_TYPE(hdr);
       switch(file_type) {
 
@@ -176,7 +187,7 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
       }
 
     } else { // No match for element
-      return EVFS_ERR_NO_PATH;
+      return status;
     }
 
     status = romfs__scan_path(NULL, &element); // Get next element in path
@@ -206,6 +217,8 @@ static int romfs__validate(Romfs *fs) {
 
   ptrdiff_t buf_len = romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf));
   chunk_pos += CHUNK_LEN;
+  if(buf_len < 0)
+    return buf_len;
   if(ASSERT(buf_len >= ROMFS_MIN_HEADER_SIZE, "Romfs too small"))
     return EVFS_ERR_INVALID;
 
@@ -227,7 +240,9 @@ static int romfs__validate(Romfs *fs) {
 
       buf_len = romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf));
       chunk_pos += CHUNK_LEN;
-      if(buf_len <= 0)
+      if(buf_len < 0)
+        return buf_len;
+      if(buf_len == 0)
         break;
     }
 
@@ -235,6 +250,8 @@ static int romfs__validate(Romfs *fs) {
       // Read first chunk again
       chunk_pos = 0;
       buf_len = romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf));
+      if(buf_len < 0)
+        return buf_len;
 
       char *vol_name = (char *)&buf[4];
       //DPRINT("VOLUME: '%s'", vol_name);
@@ -300,7 +317,7 @@ static int romfs__get_next_file(Romfs *fs, RomfsFileHead *cur_file, evfs_off_t *
   if(*cur_file_offset == 0)
     return EVFS_DONE;
 
-  return romfs_read_file_header(fs, *cur_file_offset, cur_file) ? EVFS_OK : EVFS_ERR;
+  return romfs_read_file_header(fs, *cur_file_offset, cur_file);
 }
 
 
@@ -325,7 +342,7 @@ static int romfs__get_dir(Romfs *fs, const char *path, RomfsFileHead *hdr,
   if(status == EVFS_OK) {
     // Get first file in directory
     *cur_file_offset = hdr->spec_info;
-    status = romfs_read_file_header(fs, hdr->spec_info, hdr) ? EVFS_OK : EVFS_ERR;
+    status = romfs_read_file_header(fs, hdr->spec_info, hdr);
   }
 
   return status;
@@ -336,7 +353,7 @@ static int romfs__get_dir(Romfs *fs, const char *path, RomfsFileHead *hdr,
 
 // Damaged directories are indexed up to the first bad entry
 static inline int romfs__end_dir(int status) {
-  return (status == EVFS_DONE || status == EVFS_ERR || status == EVFS_ERR_NO_PATH) ? EVFS_OK : status;
+  return (status == EVFS_DONE || status == EVFS_ERR_CORRUPTION || status == EVFS_ERR_NO_PATH) ? EVFS_OK : status;
 }
 
 
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 4686fea..bb7ca53 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -288,25 +288,44 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   int status;
   evfs_off_t next_entry;
+  RomfsFileHead cur_file, target;
+
+  memset(info, 0, sizeof(*info));
 
   // Advance to next directory
   if(dir->is_reset) { // Init iterator
-    romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &dir->cur_file);
-    next_entry = dir->cur_file.spec_info;
+    status = romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &dir->cur_file);
+    if(status != EVFS_OK)
+      return status;
+
+    dir->cur_file.offset = dir->cur_file.spec_info; // Next is the first entry
     dir->entries = 0;
     dir->is_reset = false;
-  } else { // Already initialized
-    next_entry = FILE_OFFSET(&dir->cur_file);
   }
 
   do {
-    if(dir->entries++ > romfs_max_entries(&fs_data->romfs)) { // Cyclic list
+    next_entry = FILE_OFFSET(&dir->cur_file);
+
+    if(dir->entries > romfs_max_entries(&fs_data->romfs)) { // Cyclic list
       status = EVFS_ERR_CORRUPTION;
 
     } else if(next_entry > 0) {
-      dir->cur_file_offset = next_entry;
-      status = romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file) ? EVFS_OK : EVFS_DONE;
-      next_entry = FILE_OFFSET(&dir->cur_file);
+      status = romfs_read_file_header(&fs_data->romfs, next_entry, &cur_file);
+      if(status == EVFS_OK) {
+        target = cur_file;
+        status = romfs_follow_link(&fs_data->romfs, &target);
+        if(status == EVFS_ERR_CORRUPTION) { // Broken link
+          target.size = 0;
+          target.offset = 0;
+          status = EVFS_OK;
+        }
+      }
+
+      if(status == EVFS_OK) { // Position is kept to repeat failed reads
+        dir->entries++;
+        dir->cur_file_offset = next_entry;
+        dir->cur_file = cur_file;
+      }
 
     } else { // Iteration complete
       status = EVFS_DONE;
@@ -316,13 +335,7 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
   } while(status == EVFS_OK && fs_data->cfg_no_dir_dots &&
           (!strcmp(dir->cur_file.file_name, ".") || !strcmp(dir->cur_file.file_name, "..")));
 
-
-  memset(info, 0, sizeof(*info));
-
   if(status == EVFS_OK) {
-    RomfsFileHead target = dir->cur_file;
-    romfs_follow_link(&fs_data->romfs, &target);
-
     info->name = dir->cur_file.file_name;
     info->size = target.size;
 
@@ -383,7 +396,7 @@ static int romfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   // Must be a plain file
   int file_type = FILE_TYPE(&fil->hdr);
-  if(file_type != FILE_TYPE_REGULAR_FILE) {
+  if(status == EVFS_ERR_NO_PATH || (status == EVFS_OK && file_type != FILE_TYPE_REGULAR_FILE)) {
     status = EVFS_ERR_NO_FILE;
   }
 
@@ -668,8 +681,10 @@ static void romfs_unmount_rsrc(Romfs *fs) {
 ptrdiff_t romfs_read_rsrc(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
   uint8_t *fs_base = (uint8_t *)fs->ctx;
 
-  if(offset >= fs->total_size || offset < 0)
+  if(offset < 0)
     return EVFS_ERR_OVERFLOW;
+  if(offset >= fs->total_size) // End of image
+    return 0;
 
   evfs_off_t remain = fs->total_size - offset;
   size = MIN((evfs_off_t)size, remain);
-- 
2.43.0


From ac6321208ba3ecb487a413f1684b48eb8abcfd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:52 +0000
Subject: [PATCH 085/164] fix: Romfs names without a terminator were read past
 their end

---
 src/romfs_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index cdbb792..d6eac16 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -37,6 +37,9 @@ int romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   if(buf_len < ROMFS_MIN_HEADER_SIZE)
     return EVFS_ERR_CORRUPTION;
 
+  if(strnlen(hdr->file_name, EVFS_ROMFS_MAX_NAME_LEN) == EVFS_ROMFS_MAX_NAME_LEN) // Unterminated name
+    return EVFS_ERR_CORRUPTION;
+
   int header_len = file_header_len(hdr);
 
   // Verify checksum
-- 
2.43.0


From 2725622422699e0bc6bf9ce09fbb632831dd7de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:15 +0000
Subject: [PATCH 086/164] fix: FatFs images on other volumes than 0 were
 formatted and mounted on volume 0

---
 src/fatfs_image.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 914fbd1..ae97446 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -72,7 +72,7 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
       char drive_path[3];
       char buf[FF_MAX_SS*4];
 
-      snprintf(drive_path, 2, "%hhu", pdrv);
+      snprintf(drive_path, sizeof(drive_path), "%u:", pdrv % 10u);
 
       FRESULT err = f_mkfs(drive_path, NULL, buf, COUNT_OF(buf));
       status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
@@ -111,7 +111,7 @@ int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
 
 
   char drive_path[3];
-  snprintf(drive_path, 2, "%hhu", pdrv);
+  snprintf(drive_path, sizeof(drive_path), "%u:", pdrv % 10u);
 
   FRESULT err = f_mount(&img->fs, drive_path, 1);
   status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
@@ -135,7 +135,7 @@ void fatfs_unmount_image(uint8_t pdrv) {
   FatfsImage *img = get_image_data(pdrv);
 
   char drive_path[3];
-  snprintf(drive_path, 2, "%hhu", pdrv);
+  snprintf(drive_path, sizeof(drive_path), "%u:", pdrv % 10u);
   f_unmount(drive_path);
 
   evfs_file_close(img->fh);
-- 
2.43.0


From 0dee1bdbc1ed5364eebd00d5eea41b18d6770cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:15 +0000
Subject: [PATCH 087/164] fix: FatFs volume numbers beyond the configured range
 were used

---
 src/fatfs_image.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index ae97446..0480b44 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -29,7 +29,7 @@ Embedded Virtual Filesystem
 static FatfsImage s_fatfs_image_data[FF_VOLUMES] = {0};
 
 static inline FatfsImage *get_image_data(BYTE pdrv) {
-  return &s_fatfs_image_data[pdrv];
+  return pdrv < FF_VOLUMES ? &s_fatfs_image_data[pdrv] : NULL;
 }
 
 
@@ -104,6 +104,8 @@ int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
   if(PTR_CHECK(img_path)) return EVFS_ERR_BAD_ARG;
   FatfsImage *img = get_image_data(pdrv);
 
+  if(PTR_CHECK(img)) return EVFS_ERR;
+
   // Open the image
   int status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
   if(status != EVFS_OK)
@@ -133,12 +135,14 @@ Args:
 */
 void fatfs_unmount_image(uint8_t pdrv) {
   FatfsImage *img = get_image_data(pdrv);
+  if(!img || !img->fh) return; // Not mounted
 
   char drive_path[3];
   snprintf(drive_path, sizeof(drive_path), "%u:", pdrv % 10u);
   f_unmount(drive_path);
 
   evfs_file_close(img->fh);
+  img->fh = NULL;
 }
 
 
@@ -150,12 +154,12 @@ void fatfs_unmount_image(uint8_t pdrv) {
 
 DSTATUS disk_initialize(BYTE pdrv) {
   FatfsImage *img = get_image_data(pdrv);
-  return img ? 0 : STA_NOINIT;
+  return img && img->fh ? 0 : STA_NOINIT;
 }
 
 DSTATUS disk_status(BYTE pdrv) {
   FatfsImage *img = get_image_data(pdrv);
-  return img ? 0 : STA_NOINIT;
+  return img && img->fh ? 0 : STA_NOINIT;
 }
 
 DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
-- 
2.43.0


From 297995f83739ffd843b17d9bab75fae7ac9006cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:15 +0000
Subject: [PATCH 088/164] fix: failed FatFs mount left a volume with a closed
 image

---
 src/fatfs_image.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 0480b44..595a5d9 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -118,8 +118,11 @@ int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
   FRESULT err = f_mount(&img->fs, drive_path, 1);
   status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
 
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
+    f_unmount(drive_path);
     evfs_file_close(img->fh);
+    img->fh = NULL;
+  }
 
   return status;
 }
-- 
2.43.0


From c85397b65a5c25110a08d9309f2f4fa2ca09040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:16 +0000
Subject: [PATCH 089/164] fix: FatFs image I/O ignored seek errors and failed
 on partial transfers

---
 src/fatfs_image.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 595a5d9..7101280 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -168,19 +168,41 @@ DSTATUS disk_status(BYTE pdrv) {
 DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
 
-  evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO);
-  ptrdiff_t read = evfs_file_read(img->fh, buff, count * FF_MAX_SS);
+  if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
+    return RES_ERROR;
+
+  // Reads may be partial
+  size_t remaining = (size_t)count * FF_MAX_SS;
+  while(remaining > 0) {
+    ptrdiff_t read = evfs_file_read(img->fh, buff, remaining);
+    if(read <= 0)
+      return RES_ERROR;
+
+    buff += read;
+    remaining -= read;
+  }
 
-  return read == (count * FF_MAX_SS) ? RES_OK : RES_ERROR;
+  return RES_OK;
 }
 
 DRESULT disk_write(BYTE pdrv, const BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
 
-  evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO);
-  ptrdiff_t wrote = evfs_file_write(img->fh, buff, count * FF_MAX_SS);
+  if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
+    return RES_ERROR;
+
+  // Writes may be partial
+  size_t remaining = (size_t)count * FF_MAX_SS;
+  while(remaining > 0) {
+    ptrdiff_t wrote = evfs_file_write(img->fh, buff, remaining);
+    if(wrote <= 0)
+      return RES_ERROR;
+
+    buff += wrote;
+    remaining -= wrote;
+  }
 
-  return wrote == (count * FF_MAX_SS) ? RES_OK : RES_ERROR;
+  return RES_OK;
 }
 
 
-- 
2.43.0


From 079b3c7a674a950098f5f8116dfc0e3a0ca205b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:16 +0000
Subject: [PATCH 090/164] fix: fatfs_make_image ignored errors and left
 unformatted images behind

---
 src/fatfs_image.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 7101280..efae87c 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -58,17 +58,25 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
 
   if(status == EVFS_OK) {
     // Expand image file to match configuration data
-    evfs_file_seek(img->fh, img_size - 1, EVFS_SEEK_TO);
+    status = img_size > 0 ? evfs_file_seek(img->fh, img_size - 1, EVFS_SEEK_TO) : EVFS_ERR_BAD_ARG;
 
-    char force_data[] = "\0";
-    status = evfs_file_write(img->fh, force_data, sizeof(char));
-    if(status > 0) {
-#if FF_FS_READONLY == 0
-      // Reopen for formatting
-      evfs_file_close(img->fh);
-      evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
+    if(status == EVFS_OK) {
+      char force_data[] = "\0";
+      status = evfs_file_write(img->fh, force_data, sizeof(char));
+      status = (status == sizeof(char)) ? EVFS_OK : (status < 0 ? status : EVFS_ERR_FS_FULL);
+    }
 
+    int close_status = evfs_file_close(img->fh);
+    img->fh = NULL;
+    if(status == EVFS_OK)
+      status = close_status;
+
+#if FF_FS_READONLY == 0
+    // Reopen for formatting
+    if(status == EVFS_OK)
+      status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
 
+    if(status == EVFS_OK) {
       char drive_path[3];
       char buf[FF_MAX_SS*4];
 
@@ -76,12 +84,18 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
 
       FRESULT err = f_mkfs(drive_path, NULL, buf, COUNT_OF(buf));
       status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
+
+      close_status = evfs_file_close(img->fh);
+      if(status == EVFS_OK)
+        status = close_status;
+    }
 #else
+    if(status == EVFS_OK)
       status = EVFS_ERR_NO_SUPPORT;
 #endif
-    }
 
-    evfs_file_close(img->fh);
+    if(status != EVFS_OK) // Don't keep an unusable image
+      evfs_delete(img_path);
   }
 
   img->fh = NULL;
-- 
2.43.0


From 84392ef0c6b33d57bf7f2760b3a1dba71dd4a7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:16 +0000
Subject: [PATCH 091/164] fix: FatFs instances all accessed the current volume

---
 src/fatfs_fs.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index e5c15cb..951820c 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -55,6 +55,15 @@ typedef struct FatfsDir_s {
 
 
 
+// FatFs resolves paths without a drive on its current volume
+static inline void select_volume(FatfsData *fs_data) {
+#if FF_FS_RPATH >= 1 && FF_VOLUMES >= 2
+  char drive[3] = {'0' + fs_data->pdrv, ':', '\0'};
+  f_chdrive(drive);
+#endif
+}
+
+
 // Common error code conversions
 static int translate_error(int err) {
   switch(err) {
@@ -357,6 +366,8 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   fil->fs_data = fs_data;
   fil->pdrv = fs_data->pdrv;
   
+  select_volume(fs_data);
+
   FRESULT status;
   status = f_open(&fil->fil, path, fs_flags);
 
@@ -369,6 +380,7 @@ static int fatfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
 
   FRESULT status;
 
+  select_volume(fs_data);
   status = f_stat(path, &fs_data->info);
 
   memset(info, 0, sizeof(*info));
@@ -393,6 +405,7 @@ static int fatfs__delete(Evfs *vfs, const char *path) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  select_volume(fs_data);
   status = f_unlink(path);
   return translate_error(status);
 #else
@@ -408,6 +421,7 @@ static int fatfs__rename(Evfs *vfs, const char *old_path, const char *new_path)
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  select_volume(fs_data);
   status = f_rename(old_path, new_path);
   return translate_error(status);
 #else
@@ -424,6 +438,7 @@ static int fatfs__make_dir(Evfs *vfs, const char *path) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  select_volume(fs_data);
   status = f_mkdir(path);
   return translate_error(status);
 #else
@@ -443,6 +458,7 @@ static int fatfs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   FRESULT status;
 
+  select_volume(fs_data);
   status = f_opendir(&dir->dir, path);
   return translate_error(status);
 
@@ -451,11 +467,17 @@ static int fatfs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
 
 static int fatfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
+  FatfsData *fs_data = (FatfsData *)vfs->fs_data;
+
+  select_volume(fs_data);
   FRESULT status = f_getcwd((char *)cur_dir->start, range_size(cur_dir));
   return translate_error(status);
 }
 
 static int fatfs__set_cur_dir(Evfs *vfs, const char *path) {
+  FatfsData *fs_data = (FatfsData *)vfs->fs_data;
+
+  select_volume(fs_data);
   FRESULT status = f_chdir(path);
   return translate_error(status);
 }
-- 
2.43.0


From 908265aadcb73523e74b42a209e387d84feee267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:16 +0000
Subject: [PATCH 092/164] fix: FatFs hid errors when closing files

---
 src/fatfs_fs.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 951820c..88f8999 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -121,8 +121,7 @@ static int fatfs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int fatfs__file_close(EvfsFile *fh) {
   FatfsFile *fil = (FatfsFile *)fh;
-  f_close(&fil->fil);
-  return EVFS_OK;
+  return translate_error(f_close(&fil->fil));
 }
 
 static ptrdiff_t fatfs__file_read(EvfsFile *fh, void *buf, size_t size) {
-- 
2.43.0


From d1a053933fbbe26f380124f3dbbf32339997c3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:17 +0000
Subject: [PATCH 093/164] fix: FatFs writes to a full volume looked successful

---
 src/fatfs_fs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 88f8999..c370136 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -148,8 +148,8 @@ static ptrdiff_t fatfs__file_write(EvfsFile *fh, const void *buf, size_t size) {
   FRESULT status = f_write(&fil->fil, buf, size, &wrote);
   ptrdiff_t rval = translate_error(status);
 
-  if(rval == EVFS_OK && wrote > 0)
-    rval = wrote;
+  if(rval == EVFS_OK)
+    rval = (wrote > 0 || size == 0) ? (ptrdiff_t)wrote : EVFS_ERR_FS_FULL;
 
   return rval;
 #else
-- 
2.43.0


From 958438ec0bccae84d25a4119a09046980105d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:17 +0000
Subject: [PATCH 094/164] fix: FatFs truncation removed the last byte and hid
 errors

---
 src/fatfs_fs.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index c370136..5f8f5d9 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -168,8 +168,8 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   // f_lseek() can grow files in write mode which we don't want to do here.
   evfs_off_t file_size = f_size(&fil->fil);
-  if(size >= file_size)
-    size = file_size-1;
+  if(size > file_size)
+    size = file_size;
 
   if(cur_pos > size)
     cur_pos = size;
@@ -179,7 +179,9 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
     status = f_truncate(&fil->fil);
 
   // Restore original position
-  f_lseek(&fil->fil, cur_pos);
+  FRESULT seek_status = f_lseek(&fil->fil, cur_pos);
+  if(status == FR_OK)
+    status = seek_status;
 
   return translate_error(status);
 #else
-- 
2.43.0


From c46a2399edb6df1e2cf7e335be0d96910b1b636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:17 +0000
Subject: [PATCH 095/164] fix: FatFs directory read errors looked like the end
 of the directory

---
 src/fatfs_fs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 5f8f5d9..a30cdbd 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -324,6 +324,9 @@ static int fatfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     info->name = NULL;
   }
 
+  if(status != FR_OK)
+    return translate_error(status);
+
   return info->name ? EVFS_OK : EVFS_DONE;
 }
 
-- 
2.43.0


From 7faef0d152b0cc8bab06ac99ced9e32ba33f4e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:17 +0000
Subject: [PATCH 096/164] fix: FatFs had no information about the root
 directory

---
 src/fatfs_fs.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index a30cdbd..1194e2c 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -389,6 +389,15 @@ static int fatfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
 
   memset(info, 0, sizeof(*info));
 
+  if(status == FR_INVALID_NAME) { // Origin directories have no entry
+    DIR dir;
+    if(f_opendir(&dir, path) == FR_OK) {
+      f_closedir(&dir);
+      info->type |= EVFS_FILE_DIR;
+      return EVFS_OK;
+    }
+  }
+
   if(status == FR_OK) {
     info->name = fs_data->info.fname;
     info->size = fs_data->info.fsize;
-- 
2.43.0


From 534005d0175c896f96e1c893fb62611dabcec023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:17 +0000
Subject: [PATCH 097/164] fix: FatFs created files while read only

---
 src/fatfs_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 1194e2c..c864d7e 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -355,7 +355,7 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_fatfs_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   BYTE fs_flags = 0;
-- 
2.43.0


From d5c17aca02ea51c7a77dbc973d96766b2e11a8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 098/164] fix: FatFs images smaller than 256 KiB could not be
 mounted after formatting

The erase block size is measured in sectors. Reporting the sector size in
bytes aligned the data area to 512 sectors, leaving no room on small images.
---
 src/fatfs_image.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index efae87c..e4c5144 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -248,8 +248,8 @@ DRESULT disk_ioctl(BYTE pdrv, BYTE cmd, void* buff) {
 
   case GET_BLOCK_SIZE:    // Get erase block size (needed at FF_USE_MKFS == 1)
     {
-      WORD *ss = (WORD *)buff;
-      *ss = FF_MAX_SS;
+      DWORD *sectors = (DWORD *)buff;
+      *sectors = 1; // Measured in sectors, not bytes
       return RES_OK;
     }
     break;
-- 
2.43.0


From a4d5f6e836945c68a7a223ddd3c0703fc5bcdc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:10 +0000
Subject: [PATCH 099/164] fix: FatFs instances for volumes which don't exist
 accessed another volume

---
 src/fatfs_fs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index c864d7e..d3ad650 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -547,6 +547,7 @@ Returns:
 */
 int evfs_register_fatfs(const char *vfs_name, uint8_t pdrv, bool default_vfs) {
   if(PTR_CHECK(vfs_name)) return EVFS_ERR_BAD_ARG;
+  if(pdrv >= FF_VOLUMES) return EVFS_ERR_BAD_ARG;
   Evfs *new_vfs;
   FatfsData *fs_data;
 
-- 
2.43.0


From f3bd596c7f7d2f7a19a7f48f708a95c366ab951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:11 +0000
Subject: [PATCH 100/164] fix: concurrent registrations could lose or duplicate
 file systems

---
 src/evfs.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 800fb22..91723a1 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -243,6 +243,22 @@ static bool default__path_root_component(Evfs *vfs, const char *path, StringRang
 // ******************** VFS registration ********************
 
 
+// Search for a VFS by name. The library lock must be held
+static Evfs *find_registered_vfs(const char *vfs_name) {
+  Evfs *rval = NULL;
+  Evfs *cur_vfs = s_vfs_list;
+
+  while(cur_vfs) {
+    if(!strcmp(cur_vfs->vfs_name, vfs_name))
+      rval = cur_vfs;
+
+    cur_vfs = cur_vfs->next;
+  }
+
+  return rval;
+}
+
+
 /*
 Search for a VFS by name
 
@@ -254,17 +270,9 @@ Returns:
 */
 Evfs *evfs_find_vfs(const char *vfs_name) {
   if(PTR_CHECK(vfs_name)) return NULL;
-  Evfs *rval = NULL;
 
   LOCK();
-  Evfs *cur_vfs = s_vfs_list;
-
-  while(cur_vfs) {
-    if(!strcmp(cur_vfs->vfs_name, vfs_name))
-      rval = cur_vfs;
-
-    cur_vfs = cur_vfs->next;
-  }
+  Evfs *rval = find_registered_vfs(vfs_name);
   UNLOCK();
 
   return rval;
@@ -337,11 +345,11 @@ int evfs_register(Evfs *vfs, bool make_default) {
   if(!s_evfs_initialized) THROW(EVFS_ERR_INIT);
 
 
+  LOCK();
   if(s_vfs_list) { // Prepend entry to existing list
     // Check if this VFS is already registered
-    Evfs *existing_vfs = evfs_find_vfs(vfs->vfs_name);
+    Evfs *existing_vfs = find_registered_vfs(vfs->vfs_name);
 
-    LOCK();
     if(!existing_vfs) { // Add a New VFS
       vfs->next = s_vfs_list;
       s_vfs_list = vfs;
@@ -372,7 +380,6 @@ int evfs_register(Evfs *vfs, bool make_default) {
     }
 
   } else { // First VFS entry
-    LOCK();
     s_default_vfs = vfs; // First entry must be the default
     s_vfs_list = vfs;
 
-- 
2.43.0


From 6a5895b391ec83ad1d35f6b0a2b2561e741a48ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:11 +0000
Subject: [PATCH 101/164] fix: the default file system was read without holding
 the lock

---
 src/evfs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/evfs.c b/src/evfs.c
index 91723a1..14f1740 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -286,8 +286,11 @@ static Evfs *evfs__get_vfs(const char *vfs_name) {
   if(vfs_name)
     vfs = evfs_find_vfs(vfs_name);
 
-  if(!vfs) // No name provided or not found in registered list
+  if(!vfs) { // No name provided or not found in registered list
+    LOCK();
     vfs = s_default_vfs;
+    UNLOCK();
+  }
 
   return vfs;
 }
-- 
2.43.0


From 15fe5bec3dd7f497cb72b76e5e0bb85d583c225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:11 +0000
Subject: [PATCH 102/164] fix: unregistering all file systems walked the list
 without holding the lock

---
 src/evfs.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 14f1740..f7b4de0 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -466,14 +466,16 @@ int evfs_unregister(Evfs *vfs) {
 Unregister all registered VFS objects
 */
 void evfs_unregister_all(void) {
-  Evfs *cur_vfs = s_vfs_list;
-  Evfs *next_vfs;
+  Evfs *cur_vfs;
 
-  while(cur_vfs) {
-    next_vfs = cur_vfs->next;
-    evfs_unregister(cur_vfs);
-    cur_vfs = next_vfs;
-  }
+  do {
+    LOCK();
+    cur_vfs = s_vfs_list;
+    UNLOCK();
+
+    if(cur_vfs)
+      evfs_unregister(cur_vfs);
+  } while(cur_vfs);
 }
 
 
-- 
2.43.0


From 4e03ef1c3f364088bf90b6ae46a5e07bf606e046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:48 +0000
Subject: [PATCH 103/164] fix: romfs image reads from different threads were
 not serialized

---
 src/romfs_fs.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index bb7ca53..c8654cd 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -32,7 +32,8 @@ Embedded Virtual Filesystem
 ///////////////////////////////////////////////////////////////////////////////////
 
 // Shared buffer needs lock if threading is enabled
-#if defined EVFS_USE_ROMFS_SHARED_BUFFER && defined EVFS_USE_THREADING
+// We also need a lock for normal read operations in a threaded system
+#if defined EVFS_USE_THREADING
 #  define USE_ROMFS_LOCK
 #endif
 
@@ -56,7 +57,7 @@ typedef struct RomfsData {
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
 #endif
 #ifdef USE_ROMFS_LOCK
-  EvfsLock  romfs_lock; // Serialize access to shared abs_path buffer
+  EvfsLock  romfs_lock; // Serialize access to the image and the shared abs_path buffer
 #endif
 
   Romfs romfs;
@@ -292,11 +293,15 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   memset(info, 0, sizeof(*info));
 
+  LOCK();
+
   // Advance to next directory
   if(dir->is_reset) { // Init iterator
     status = romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &dir->cur_file);
-    if(status != EVFS_OK)
+    if(status != EVFS_OK) {
+      UNLOCK();
       return status;
+    }
 
     dir->cur_file.offset = dir->cur_file.spec_info; // Next is the first entry
     dir->entries = 0;
@@ -335,6 +340,8 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
   } while(status == EVFS_OK && fs_data->cfg_no_dir_dots &&
           (!strcmp(dir->cur_file.file_name, ".") || !strcmp(dir->cur_file.file_name, "..")));
 
+  UNLOCK();
+
   if(status == EVFS_OK) {
     info->name = dir->cur_file.file_name;
     info->size = target.size;
@@ -372,7 +379,13 @@ static inline int romfs__lookup_path(Evfs *vfs, RomfsData *fs_data, const char *
   int status;
 
   MAKE_ABS(path, abs_path); // Relative paths are converted and absolute paths normalized
+#ifdef EVFS_USE_ROMFS_SHARED_BUFFER
+  status = romfs_lookup_abs_path(&fs_data->romfs, abs_path, hdr); // Already locked
+#else
+  LOCK();
   status = romfs_lookup_abs_path(&fs_data->romfs, abs_path, hdr);
+  UNLOCK();
+#endif
   FREE_ABS(abs_path);
 
   return status;
-- 
2.43.0


From ad9516effcb8d2c81d42b1310005238a4dc4c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:07 +0000
Subject: [PATCH 104/164] fix: changes of the current directory could be seen
 half done by other threads

---
 src/romfs_fs.c    | 22 +++++++++++++++++++---
 src/shim_jail.c   | 10 ++++++++++
 src/tar_fs.c      | 21 ++++++++++++++++++---
 src/tar_rsrc_fs.c | 21 ++++++++++++++++++---
 4 files changed, 65 insertions(+), 9 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index c8654cd..911a594 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -53,6 +53,7 @@ typedef struct RomfsData {
   Evfs       *vfs;
 
   char      cur_dir[EVFS_MAX_PATH];
+  EvfsLock  dir_lock; // Serialize access to cur_dir
 #ifdef EVFS_USE_ROMFS_SHARED_BUFFER
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
 #endif
@@ -110,7 +111,7 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
     *absolute = NULL;
 
     if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-      abs_size += strlen(fs_data->cur_dir) + 1;
+      abs_size += EVFS_MAX_PATH;
 
     abs_path = evfs_malloc(abs_size);
     if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
@@ -469,7 +470,9 @@ static int romfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
+  evfs__lock(&fs_data->dir_lock);
   range_cat_str(&r, fs_data->cur_dir);
+  evfs__unlock(&fs_data->dir_lock);
   range_terminate(&r);
   return EVFS_OK;
 }
@@ -486,7 +489,10 @@ static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
 
     StringRange cur_dir;
     range_init(&cur_dir, fs_data->cur_dir, EVFS_MAX_PATH);
-    return evfs_vfs_path_normalize(vfs, path, &cur_dir);
+    evfs__lock(&fs_data->dir_lock);
+    int status = evfs_vfs_path_normalize(vfs, path, &cur_dir);
+    evfs__unlock(&fs_data->dir_lock);
+    return status;
 
   } else { // Path is relative: Join it to the existing directory
     StringRange head, tail, joined;
@@ -494,13 +500,15 @@ static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
     range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
     range_init(&tail, (char *)path, strlen(path));
 
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
+    size_t joined_size = EVFS_MAX_PATH + strlen(path) + 1;
     char *joined_path = evfs_malloc(joined_size);
     if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
 
     range_init(&joined, joined_path, joined_size);
 
+    evfs__lock(&fs_data->dir_lock);
     evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    evfs__unlock(&fs_data->dir_lock);
 
     // We must normalize now because the fast index can't handle denormal paths
     range_init(&joined, joined_path, joined_size);
@@ -514,7 +522,9 @@ static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
 
     // Overwrite old cur_dir
     range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
+    evfs__lock(&fs_data->dir_lock);
     range_cat_str((AppendRange *)&head, joined_path);
+    evfs__unlock(&fs_data->dir_lock);
 
     evfs_free(joined_path);
   }
@@ -533,6 +543,7 @@ static int romfs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
 #ifdef USE_ROMFS_LOCK
       evfs__lock_destroy(&fs_data->romfs_lock);
 #endif
+      evfs__lock_destroy(&fs_data->dir_lock);
 
       evfs_free(vfs);
       return EVFS_OK; break;
@@ -611,6 +622,10 @@ static int evfs__register_romfs_cfg(const char *vfs_name, RomfsConfig *cfg, bool
     THROW(EVFS_ERR_INIT);
   }
 #endif
+  if(evfs__lock_init(&fs_data->dir_lock) != EVFS_OK) {
+    evfs_free(new_vfs);
+    THROW(EVFS_ERR_INIT);
+  }
 
 
 /*  RomfsConfig cfg = {
@@ -624,6 +639,7 @@ static int evfs__register_romfs_cfg(const char *vfs_name, RomfsConfig *cfg, bool
 #ifdef USE_ROMFS_LOCK
     evfs__lock_destroy(&fs_data->romfs_lock);
 #endif
+    evfs__lock_destroy(&fs_data->dir_lock);
     evfs_free(new_vfs);
     return status;
   }
diff --git a/src/shim_jail.c b/src/shim_jail.c
index 31ac65f..7a208ed 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -59,6 +59,7 @@ typedef struct JailData_s {
 
   const char *jail_root;                // Absolute dir for jail in containing VFS
   char        cur_dir[EVFS_MAX_PATH];   // CWD within jailed environment
+  EvfsLock    dir_lock; // Serialize access to cur_dir
 
   char        tmp_path[EVFS_MAX_PATH]; // Shared buffer for unjailed paths
 #ifdef USE_JAIL_LOCK
@@ -411,7 +412,9 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   JailData *fs_data = (JailData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
   
+  evfs__lock(&fs_data->dir_lock);
   int status = range_cat_str(&r, fs_data->cur_dir) < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
+  evfs__unlock(&fs_data->dir_lock);
   range_terminate(&r);
   return status;
 }
@@ -433,7 +436,9 @@ static int jail__set_cur_dir(Evfs *vfs, const char *path) {
   if(!evfs__vfs_existing_dir(vfs, new_dir))
     return EVFS_ERR_NO_PATH;
 
+  evfs__lock(&shim_data->dir_lock);
   strlcpy(shim_data->cur_dir, new_dir, sizeof(shim_data->cur_dir));
+  evfs__unlock(&shim_data->dir_lock);
 
   return EVFS_OK;
 }
@@ -450,6 +455,7 @@ static int jail__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
 #ifdef USE_JAIL_LOCK
       evfs__lock_destroy(&shim_data->jail_lock);
 #endif
+      evfs__lock_destroy(&shim_data->dir_lock);
       evfs_free(vfs); // Free this trace VFS
       return EVFS_OK;
   }
@@ -540,6 +546,10 @@ int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const cha
     THROW(EVFS_ERR_INIT);
   }
 #endif
+  if(evfs__lock_init(&shim_data->dir_lock) != EVFS_OK) {
+    evfs_free(shim_vfs);
+    THROW(EVFS_ERR_INIT);
+  }
 
   return evfs_register(shim_vfs, default_vfs);
 }
diff --git a/src/tar_fs.c b/src/tar_fs.c
index b3024bf..04a36fc 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -67,6 +67,7 @@ typedef struct TarfsData {
   EvfsTarIndex tar_index;
 
   char      cur_dir[EVFS_MAX_PATH];
+  EvfsLock  dir_lock; // Serialize access to cur_dir
 #ifdef EVFS_USE_TARFS_SHARED_BUFFER
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
 #endif
@@ -112,7 +113,7 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
     *absolute = NULL;
 
     if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-      abs_size += strlen(fs_data->cur_dir) + 1;
+      abs_size += EVFS_MAX_PATH;
 
     abs_path = evfs_malloc(abs_size);
     if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
@@ -454,7 +455,9 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
+  evfs__lock(&fs_data->dir_lock);
   range_cat_str(&r, fs_data->cur_dir);
+  evfs__unlock(&fs_data->dir_lock);
   range_terminate(&r);
   return EVFS_OK;
 }
@@ -471,7 +474,10 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
   
     StringRange cur_dir;
     range_init(&cur_dir, fs_data->cur_dir, EVFS_MAX_PATH);
-    return evfs_vfs_path_normalize(vfs, path, &cur_dir);
+    evfs__lock(&fs_data->dir_lock);
+    int status = evfs_vfs_path_normalize(vfs, path, &cur_dir);
+    evfs__unlock(&fs_data->dir_lock);
+    return status;
 
   } else { // Path is relative: Join it to the existing directory
     StringRange head, tail, joined;
@@ -479,13 +485,15 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
     range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
     range_init(&tail, (char *)path, strlen(path));
     
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
+    size_t joined_size = EVFS_MAX_PATH + strlen(path) + 1;
     char *joined_path = evfs_malloc(joined_size);
     if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
 
     range_init(&joined, joined_path, joined_size);
 
+    evfs__lock(&fs_data->dir_lock);
     evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    evfs__unlock(&fs_data->dir_lock);
 
     // Confirm the path exists
     if(!evfs__vfs_existing_dir(vfs, joined_path)) {
@@ -494,7 +502,9 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
     }
 
     // Overwrite old cur_dir
+    evfs__lock(&fs_data->dir_lock);
     evfs_vfs_path_normalize(vfs, joined_path, &head);
+    evfs__unlock(&fs_data->dir_lock);
 
     evfs_free(joined_path);
   }
@@ -515,6 +525,7 @@ static int tarfs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
 #ifdef USE_TARFS_LOCK
       evfs__lock_destroy(&fs_data->tfs_lock);
 #endif
+      evfs__lock_destroy(&fs_data->dir_lock);
       evfs_free(vfs);
       return EVFS_OK; break;
 
@@ -604,6 +615,10 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
     THROW(EVFS_ERR_INIT);
   }
 #endif
+  if(evfs__lock_init(&fs_data->dir_lock) != EVFS_OK) {
+    evfs_free(new_vfs);
+    THROW(EVFS_ERR_INIT);
+  }
 
   return evfs_register(new_vfs, default_vfs);
 }
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 49e156d..c1dba8e 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -77,6 +77,7 @@ typedef struct TarfsData {
   EvfsTarIndex tar_index;
 
   char      cur_dir[EVFS_MAX_PATH];
+  EvfsLock  dir_lock; // Serialize access to cur_dir
 #ifdef EVFS_USE_TARFS_SHARED_BUFFER
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
 #endif
@@ -122,7 +123,7 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
     *absolute = NULL;
 
     if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-      abs_size += strlen(fs_data->cur_dir) + 1;
+      abs_size += EVFS_MAX_PATH;
 
     abs_path = evfs_malloc(abs_size);
     if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
@@ -465,7 +466,9 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
+  evfs__lock(&fs_data->dir_lock);
   range_cat_str(&r, fs_data->cur_dir);
+  evfs__unlock(&fs_data->dir_lock);
   range_terminate(&r);
   return EVFS_OK;
 }
@@ -482,7 +485,10 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
   
     StringRange cur_dir;
     range_init(&cur_dir, fs_data->cur_dir, EVFS_MAX_PATH);
-    return evfs_vfs_path_normalize(vfs, path, &cur_dir);
+    evfs__lock(&fs_data->dir_lock);
+    int status = evfs_vfs_path_normalize(vfs, path, &cur_dir);
+    evfs__unlock(&fs_data->dir_lock);
+    return status;
 
   } else { // Path is relative: Join it to the existing directory
     StringRange head, tail, joined;
@@ -490,13 +496,15 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
     range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
     range_init(&tail, (char *)path, strlen(path));
     
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
+    size_t joined_size = EVFS_MAX_PATH + strlen(path) + 1;
     char *joined_path = evfs_malloc(joined_size);
     if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
 
     range_init(&joined, joined_path, joined_size);
 
+    evfs__lock(&fs_data->dir_lock);
     evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    evfs__unlock(&fs_data->dir_lock);
 
     // Confirm the path exists
     if(!evfs__vfs_existing_dir(vfs, joined_path)) {
@@ -505,7 +513,9 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
     }
 
     // Overwrite old cur_dir
+    evfs__lock(&fs_data->dir_lock);
     evfs_vfs_path_normalize(vfs, joined_path, &head);
+    evfs__unlock(&fs_data->dir_lock);
 
     evfs_free(joined_path);
   }
@@ -525,6 +535,7 @@ static int tarfs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
 #ifdef USE_TARFS_LOCK
       evfs__lock_destroy(&fs_data->tfs_lock);
 #endif
+      evfs__lock_destroy(&fs_data->dir_lock);
       evfs_free(vfs);
       return EVFS_OK; break;
 
@@ -618,6 +629,10 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
     THROW(EVFS_ERR_INIT);
   }
 #endif
+  if(evfs__lock_init(&fs_data->dir_lock) != EVFS_OK) {
+    evfs_free(new_vfs);
+    THROW(EVFS_ERR_INIT);
+  }
 
   return evfs_register(new_vfs, default_vfs);
 }
-- 
2.43.0


From c6026ac49c297a9bad3a989af15949906471236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 105/164] fix: littlefs seeks from the end of a file went past
 it

---
 src/littlefs_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index c5bca61..61a60e2 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -221,7 +221,7 @@ static int littlefs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir orig
   switch(origin) {
     case EVFS_SEEK_TO:   sorg = LFS_SEEK_SET; break;
     case EVFS_SEEK_REL:  sorg = LFS_SEEK_CUR; break;
-    case EVFS_SEEK_REV:  sorg = LFS_SEEK_END; break;
+    case EVFS_SEEK_REV:  sorg = LFS_SEEK_END; offset = -offset; break;
     default:
       break;
   }
-- 
2.43.0


From 813d513e2f54ff9976150222d163ec76bf8ddebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 106/164] fix: littlefs ignored EVFS_NO_EXIST when creating
 files

---
 src/littlefs_fs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 61a60e2..afbca49 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -321,7 +321,7 @@ static int littlefs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags)
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_littlefs_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   int lfs_flags = 0;
@@ -329,7 +329,7 @@ static int littlefs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags)
   if(flags & EVFS_READ)        lfs_flags |= LFS_O_RDONLY; 
   if(flags & EVFS_WRITE)       lfs_flags |= LFS_O_WRONLY;
   if(flags & EVFS_OPEN_OR_NEW) lfs_flags |= LFS_O_CREAT;
-  if(flags & EVFS_NO_EXIST)    lfs_flags |= LFS_O_EXCL;
+  if(flags & EVFS_NO_EXIST)    lfs_flags |= (LFS_O_EXCL | LFS_O_CREAT);
   if(flags & EVFS_OVERWRITE)   lfs_flags |= (LFS_O_TRUNC | LFS_O_CREAT);
   if(flags & EVFS_APPEND)      lfs_flags |= LFS_O_APPEND;
 
-- 
2.43.0


From 2c7d38c1d6842515ecd42c4aa2b9acb985082353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 107/164] fix: littlefs errors while closing files and reading
 directories were not reported

---
 src/littlefs_fs.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index afbca49..d58c7eb 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -174,8 +174,7 @@ static int littlefs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int littlefs__file_close(EvfsFile *fh) {
   LittlefsFile *fil = (LittlefsFile *)fh;
-  lfs_file_close(fil->lfs, &fil->fil);
-  return EVFS_OK;
+  return translate_error(lfs_file_close(fil->lfs, &fil->fil));
 }
 
 static ptrdiff_t littlefs__file_read(EvfsFile *fh, void *buf, size_t size) {
@@ -292,14 +291,16 @@ static int littlefs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     info->name = NULL;
   }
 
+  if(status < 0)
+    return translate_error(status);
+
   return status > 0 ? EVFS_OK : EVFS_DONE;
 }
 
 
 static int littlefs__dir_rewind(EvfsDir *dh) {
   LittlefsDir *dir = (LittlefsDir *)dh;
-  lfs_dir_rewind(dir->fs_data->lfs, &dir->dir);
-  return EVFS_OK;
+  return simple_error(lfs_dir_rewind(dir->fs_data->lfs, &dir->dir));
 }
 
 
-- 
2.43.0


From 1b3a8c0ec96e04d03aabc0a514c64ca46f709288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 108/164] fix: littlefs absolute paths were passed on without
 normalization

---
 src/littlefs_fs.c | 75 ++++++++++++++++-------------------------------
 1 file changed, 26 insertions(+), 49 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index d58c7eb..d17a347 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -101,6 +101,7 @@ static ptrdiff_t translate_error(int err) {
 
 
 // Helper to convert relative paths into absolute for the lfs API
+// Absolute paths are normalized
 // Returned path must be freed
 static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool force_malloc) {
   LittlefsData *fs_data = (LittlefsData *)vfs->fs_data;
@@ -339,13 +340,9 @@ static int littlefs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags)
   
   int status;
   
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    status = lfs_file_open(fil->lfs, &fil->fil, path, lfs_flags);
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    status = lfs_file_open(fil->lfs, &fil->fil, abs_path, lfs_flags);
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path);
+  status = lfs_file_open(fil->lfs, &fil->fil, abs_path, lfs_flags);
+  FREE_ABS(abs_path);
 
   return translate_error(status);  
 }
@@ -356,13 +353,9 @@ static int littlefs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
 
   int status;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    status = lfs_stat(fs_data->lfs, path, &fs_data->info);
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    status = lfs_stat(fs_data->lfs, abs_path, &fs_data->info);
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path);
+  status = lfs_stat(fs_data->lfs, abs_path, &fs_data->info);
+  FREE_ABS(abs_path);
 
   memset(info, 0, sizeof(*info));
 
@@ -383,13 +376,9 @@ static int littlefs__delete(Evfs *vfs, const char *path) {
 
   int status;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    status = lfs_remove(fs_data->lfs, path);
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    status = lfs_remove(fs_data->lfs, abs_path);
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path);
+  status = lfs_remove(fs_data->lfs, abs_path);
+  FREE_ABS(abs_path);
 
   return simple_error(status);
 }
@@ -402,24 +391,20 @@ static int littlefs__rename(Evfs *vfs, const char *old_path, const char *new_pat
 
   int status;
 
-  if(evfs_vfs_path_is_absolute(vfs, old_path) && evfs_vfs_path_is_absolute(vfs, new_path)) {
-    status = lfs_rename(fs_data->lfs, old_path, new_path);
-  } else { // Convert relative path
-    MAKE_ABS(old_path, abs_old_path);
-
-    // Can't use the macro because of extra cleanup requirement
-    char *abs_new_path;
-    status = make_absolute_path(vfs, new_path, &abs_new_path, /*force_malloc*/ true);
-    if(status != EVFS_OK) {
-      FREE_ABS(abs_old_path);
-      return status;
-    }
+  MAKE_ABS(old_path, abs_old_path);
 
-    status = lfs_rename(fs_data->lfs, abs_old_path, abs_new_path);
+  // Can't use the macro because of extra cleanup requirement
+  char *abs_new_path;
+  status = make_absolute_path(vfs, new_path, &abs_new_path, /*force_malloc*/ true);
+  if(status != EVFS_OK) {
     FREE_ABS(abs_old_path);
-    evfs_free(abs_new_path);
+    return status;
   }
 
+  status = lfs_rename(fs_data->lfs, abs_old_path, abs_new_path);
+  FREE_ABS(abs_old_path);
+  evfs_free(abs_new_path);
+
   return simple_error(status);
 }
 
@@ -432,13 +417,9 @@ static int littlefs__make_dir(Evfs *vfs, const char *path) {
 
   int status;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    status = lfs_mkdir(fs_data->lfs, path);
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    status = lfs_mkdir(fs_data->lfs, abs_path);
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path);
+  status = lfs_mkdir(fs_data->lfs, abs_path);
+  FREE_ABS(abs_path);
 
   return translate_error(status);
 }
@@ -455,13 +436,9 @@ static int littlefs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   int status;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    status = lfs_dir_open(fs_data->lfs, &dir->dir, path);
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    status = lfs_dir_open(fs_data->lfs, &dir->dir, abs_path);
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path);
+  status = lfs_dir_open(fs_data->lfs, &dir->dir, abs_path);
+  FREE_ABS(abs_path);
 
   return translate_error(status);
 
-- 
2.43.0


From 5762ab7701bd9e3eb5030cb9cb159cec020a8cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 109/164] fix: littlefs current directories were cut off and
 stored without normalization

---
 src/littlefs_fs.c | 48 ++++++++++++++---------------------------------
 1 file changed, 14 insertions(+), 34 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index d17a347..27f2c11 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -42,7 +42,7 @@ Embedded Virtual Filesystem
 typedef struct LittlefsData_s {
   lfs_t    *lfs;
   struct lfs_info info;
-  char      cur_dir[LFS_NAME_MAX];
+  char      cur_dir[EVFS_MAX_PATH];
 #ifdef EVFS_USE_LITTLEFS_SHARED_BUFFER
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
 #endif
@@ -460,41 +460,21 @@ static int littlefs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int littlefs__set_cur_dir(Evfs *vfs, const char *path) {
   LittlefsData *fs_data = (LittlefsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, LFS_NAME_MAX-1);
-    fs_data->cur_dir[LFS_NAME_MAX-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, LFS_NAME_MAX);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
-
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+  char *abs_path;
+  int status = make_absolute_path(vfs, path, &abs_path, /*force_malloc*/ true);
+  if(status != EVFS_OK)
+    return status;
 
-    evfs_free(joined_path);
-  }
+  // Confirm the path exists
+  if(!evfs__vfs_existing_dir(vfs, abs_path))
+    status = EVFS_ERR_NO_PATH;
+  else if(strlen(abs_path) >= COUNT_OF(fs_data->cur_dir))
+    status = EVFS_ERR_TOO_LONG;
+  else // Overwrite old cur_dir
+    strcpy(fs_data->cur_dir, abs_path);
 
-  return EVFS_OK;
+  evfs_free(abs_path);
+  return status;
 }
 
 
-- 
2.43.0


From 42866bd3711b9e60e771721a13a0d850c894e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 110/164] fix: littlefs file accesses which the open mode
 excludes ended in an assertion of littlefs

---
 src/littlefs_fs.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 27f2c11..8768ea6 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -60,6 +60,7 @@ typedef struct LittlefsFile_s {
   LittlefsData *fs_data;
   lfs_t *lfs;
   lfs_file_t fil;
+  int flags; // Open flags
 } LittlefsFile;
 
 
@@ -180,6 +181,9 @@ static int littlefs__file_close(EvfsFile *fh) {
 
 static ptrdiff_t littlefs__file_read(EvfsFile *fh, void *buf, size_t size) {
   LittlefsFile *fil = (LittlefsFile *)fh;
+
+  if(!(fil->flags & EVFS_READ)) return EVFS_ERR_DISABLED;
+
   lfs_ssize_t read = lfs_file_read(fil->lfs, &fil->fil, buf, size);
   return translate_error(read);
 }
@@ -190,6 +194,8 @@ static ptrdiff_t littlefs__file_write(EvfsFile *fh, const void *buf, size_t size
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  if(!(fil->flags & EVFS_WRITE)) return EVFS_ERR_DISABLED;
+
   lfs_ssize_t wrote = lfs_file_write(fil->lfs, &fil->fil, buf, size);
   return translate_error(wrote);
 }
@@ -200,6 +206,8 @@ static int littlefs__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  if(!(fil->flags & EVFS_WRITE)) return EVFS_ERR_DISABLED;
+
   return simple_error(lfs_file_truncate(fil->lfs, &fil->fil, size));
 }
 
@@ -337,6 +345,7 @@ static int littlefs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags)
 
   fil->fs_data = fs_data;
   fil->lfs = fs_data->lfs;
+  fil->flags = flags;
   
   int status;
   
-- 
2.43.0


From 69bf070c5c381f5a41ea648eeeefd779dc725e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 111/164] fix: littlefs stat results could be replaced by those
 of another thread

---
 src/littlefs_fs.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 8768ea6..57ae9c2 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -41,7 +41,6 @@ Embedded Virtual Filesystem
 
 typedef struct LittlefsData_s {
   lfs_t    *lfs;
-  struct lfs_info info;
   char      cur_dir[EVFS_MAX_PATH];
 #ifdef EVFS_USE_LITTLEFS_SHARED_BUFFER
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
@@ -361,16 +360,17 @@ static int littlefs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   LittlefsData *fs_data = (LittlefsData *)vfs->fs_data;
 
   int status;
+  struct lfs_info lfs_info;
 
   MAKE_ABS(path, abs_path);
-  status = lfs_stat(fs_data->lfs, abs_path, &fs_data->info);
+  status = lfs_stat(fs_data->lfs, abs_path, &lfs_info);
   FREE_ABS(abs_path);
 
   memset(info, 0, sizeof(*info));
 
   if(status >= 0) {  
-    info->size = fs_data->info.size;
-    if(fs_data->info.type & LFS_TYPE_DIR)
+    info->size = lfs_info.size;
+    if(lfs_info.type & LFS_TYPE_DIR)
       info->type |= EVFS_FILE_DIR;
 
   }
-- 
2.43.0


From 2a10ae033ed5ce9ad2d882068350fb523dc79875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 112/164] fix: changes of the current littlefs directory could
 be seen half done by other threads

---
 src/littlefs_fs.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 57ae9c2..f1ef672 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -42,6 +42,7 @@ Embedded Virtual Filesystem
 typedef struct LittlefsData_s {
   lfs_t    *lfs;
   char      cur_dir[EVFS_MAX_PATH];
+  EvfsLock  dir_lock; // Serialize access to cur_dir
 #ifdef EVFS_USE_LITTLEFS_SHARED_BUFFER
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
 #endif
@@ -123,7 +124,7 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
     *absolute = NULL;
 
     if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-      abs_size += strlen(fs_data->cur_dir) + 1;
+      abs_size += EVFS_MAX_PATH;
 
     abs_path = evfs_malloc(abs_size);
     if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
@@ -459,7 +460,9 @@ static int littlefs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   LittlefsData *fs_data = (LittlefsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
+  evfs__lock(&fs_data->dir_lock);
   range_cat_str(&r, fs_data->cur_dir);
+  evfs__unlock(&fs_data->dir_lock);
   range_terminate(&r);
   return EVFS_OK;
 }
@@ -479,8 +482,11 @@ static int littlefs__set_cur_dir(Evfs *vfs, const char *path) {
     status = EVFS_ERR_NO_PATH;
   else if(strlen(abs_path) >= COUNT_OF(fs_data->cur_dir))
     status = EVFS_ERR_TOO_LONG;
-  else // Overwrite old cur_dir
+  else { // Overwrite old cur_dir
+    evfs__lock(&fs_data->dir_lock);
     strcpy(fs_data->cur_dir, abs_path);
+    evfs__unlock(&fs_data->dir_lock);
+  }
 
   evfs_free(abs_path);
   return status;
@@ -496,6 +502,7 @@ static int littlefs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
 #ifdef USE_LFS_LOCK
       evfs__lock_destroy(&fs_data->lfs_lock);
 #endif
+      evfs__lock_destroy(&fs_data->dir_lock);
       evfs_free(vfs);
       return EVFS_OK; break;
 
@@ -593,6 +600,10 @@ int evfs_register_littlefs(const char *vfs_name, lfs_t *lfs, bool default_vfs) {
     THROW(EVFS_ERR_INIT);
   }
 #endif
+  if(evfs__lock_init(&fs_data->dir_lock) != EVFS_OK) {
+    evfs_free(new_vfs);
+    THROW(EVFS_ERR_INIT);
+  }
 
   return evfs_register(new_vfs, default_vfs);
 }
-- 
2.43.0


From 357907b19468eef4cd6d49c4e145573454790729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 113/164] fix: littlefs image accesses ignored failed seeks and
 partial transfers

---
 src/littlefs_image.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index 2e395ed..bbaa903 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -128,10 +128,20 @@ int littlefs_image_read(const struct lfs_config *cfg, lfs_block_t block,
 
   LittlefsImage *img = cfg->context;
 
-  evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO);
-  ptrdiff_t read = evfs_file_read(img->fh, buffer, size);
+  if(evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO) != EVFS_OK)
+    return LFS_ERR_IO;
 
-  return read == size ? LFS_ERR_OK : LFS_ERR_IO;
+  uint8_t *pos = buffer;
+  while(size > 0) {
+    ptrdiff_t read = evfs_file_read(img->fh, pos, size);
+    if(read <= 0)
+      return LFS_ERR_IO;
+
+    pos += read;
+    size -= read;
+  }
+
+  return LFS_ERR_OK;
 }
 
 int littlefs_image_prog(const struct lfs_config *cfg, lfs_block_t block,
@@ -139,10 +149,20 @@ int littlefs_image_prog(const struct lfs_config *cfg, lfs_block_t block,
 
   LittlefsImage *img = cfg->context;
 
-  evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO);
+  if(evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO) != EVFS_OK)
+    return LFS_ERR_IO;
 
-  ptrdiff_t wrote = evfs_file_write(img->fh, buffer, size);
-  return wrote == size ? LFS_ERR_OK : LFS_ERR_IO;
+  const uint8_t *pos = buffer;
+  while(size > 0) {
+    ptrdiff_t wrote = evfs_file_write(img->fh, pos, size);
+    if(wrote <= 0)
+      return LFS_ERR_IO;
+
+    pos += wrote;
+    size -= wrote;
+  }
+
+  return LFS_ERR_OK;
 }
 
 
-- 
2.43.0


From 614322f5621b162124067040ed336876ff226023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 114/164] fix: littlefs_make_image hid errors and left
 unformatted images behind

---
 src/littlefs_image.c | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index bbaa903..cf9f492 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -40,27 +40,45 @@ int littlefs_make_image(const char *img_path, struct lfs_config *cfg) {
 
   if(PTR_CHECK(img)) return EVFS_ERR;
 
+  uint64_t img_size = (uint64_t)cfg->block_size * cfg->block_count;
+  if(img_size == 0 || img_size > INT32_MAX) return EVFS_ERR_BAD_ARG;
+
   int status = evfs_open(img_path, &img->fh, EVFS_WRITE | EVFS_NO_EXIST);
+  if(status != EVFS_OK) {
+    img->fh = NULL;
+    return status;
+  }
 
+  // Expand image file to match configuration data
+  status = evfs_file_seek(img->fh, img_size - 1, EVFS_SEEK_TO);
   if(status == EVFS_OK) {
-    // Expand image file to match configuration data
-    evfs_file_seek(img->fh, cfg->block_size*cfg->block_count - 1, EVFS_SEEK_TO);
+    ptrdiff_t wrote = evfs_file_write(img->fh, "", 1);
+    if(wrote != 1)
+      status = wrote < 0 ? (int)wrote : EVFS_ERR_IO;
+  }
+
+  int close_status = evfs_file_close(img->fh);
+  if(status == EVFS_OK)
+    status = close_status;
 
-    char force_data[] = "\0";
-    status = evfs_file_write(img->fh, force_data, sizeof(char));
-    if(status > 0) {
-      // Reopen for formatting
-      evfs_file_close(img->fh);
-      status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
+  // Reopen for formatting
+  if(status == EVFS_OK) {
+    status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
 
+    if(status == EVFS_OK) {
       lfs_t lfs;
       status = (lfs_format(&lfs, cfg) == LFS_ERR_OK) ? EVFS_OK : EVFS_ERR;
-    }
-
-    evfs_file_close(img->fh);
 
+      close_status = evfs_file_close(img->fh);
+      if(status == EVFS_OK)
+        status = close_status;
+    }
   }
 
+  // Don't leave an unusable image
+  if(status != EVFS_OK)
+    evfs_delete(img_path);
+
   img->fh = NULL;
   return status;
 }
-- 
2.43.0


From 71995febee80dc51a535692d1207448cb62d75f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 115/164] fix: littlefs_mount_image and littlefs_unmount_image
 kept references to closed files

---
 src/littlefs_image.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index cf9f492..0473ec7 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -101,21 +101,27 @@ int littlefs_mount_image(const char *img_path, struct lfs_config *cfg, lfs_t *lf
 
   // Open the image
   int status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
+    img->fh = NULL;
     return status;
+  }
 
   // Confirm the image size matches the config
-  evfs_off_t expect_size = cfg->block_size * cfg->block_count;
-  if(evfs_file_size(img->fh) != expect_size) {
+  uint64_t expect_size = (uint64_t)cfg->block_size * cfg->block_count;
+  evfs_off_t img_size = evfs_file_size(img->fh);
+  if(img_size < 0 || (uint64_t)img_size != expect_size) {
     evfs_file_close(img->fh);
+    img->fh = NULL;
     return EVFS_ERR;
   }
 
   status = lfs_mount(lfs, cfg); // Mount the filesystem
   status = (status == LFS_ERR_OK) ? EVFS_OK : EVFS_ERR;
 
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
     evfs_file_close(img->fh);
+    img->fh = NULL;
+  }
 
   return status;
 }
@@ -133,6 +139,7 @@ void littlefs_unmount_image(lfs_t *lfs) {
 
   lfs_unmount(lfs);
   evfs_file_close(img->fh);
+  img->fh = NULL;
 }
 
 
-- 
2.43.0


From 6eb72a35426d9757e950c9edd9a57209d3f50644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 116/164] fix: relative paths were too long for drivers that
 allocate the absolute path

---
 src/littlefs_fs.c | 5 +++++
 src/romfs_fs.c    | 5 +++++
 src/tar_fs.c      | 5 +++++
 src/tar_rsrc_fs.c | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index f1ef672..7753414 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -126,6 +126,11 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
     if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
       abs_size += EVFS_MAX_PATH;
 
+#ifndef ALLOW_LONG_PATHS
+    if(abs_size > EVFS_MAX_PATH) // Limit for evfs_vfs_path_absolute()
+      abs_size = EVFS_MAX_PATH;
+#endif
+
     abs_path = evfs_malloc(abs_size);
     if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
   }
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 911a594..aef17f4 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -113,6 +113,11 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
     if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
       abs_size += EVFS_MAX_PATH;
 
+#ifndef ALLOW_LONG_PATHS
+    if(abs_size > EVFS_MAX_PATH) // Limit for evfs_vfs_path_absolute()
+      abs_size = EVFS_MAX_PATH;
+#endif
+
     abs_path = evfs_malloc(abs_size);
     if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
   }
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 04a36fc..ffe5adf 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -115,6 +115,11 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
     if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
       abs_size += EVFS_MAX_PATH;
 
+#ifndef ALLOW_LONG_PATHS
+    if(abs_size > EVFS_MAX_PATH) // Limit for evfs_vfs_path_absolute()
+      abs_size = EVFS_MAX_PATH;
+#endif
+
     abs_path = evfs_malloc(abs_size);
     if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
   }
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index c1dba8e..f7f35c7 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -125,6 +125,11 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
     if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
       abs_size += EVFS_MAX_PATH;
 
+#ifndef ALLOW_LONG_PATHS
+    if(abs_size > EVFS_MAX_PATH) // Limit for evfs_vfs_path_absolute()
+      abs_size = EVFS_MAX_PATH;
+#endif
+
     abs_path = evfs_malloc(abs_size);
     if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
   }
-- 
2.43.0


From 80f6dfb75c021968bb4824a17a9b9453b54423e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 117/164] fix: littlefs appended beyond the end of a file whose
 position was past it

---
 src/littlefs_fs.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 7753414..b53d630 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -201,6 +201,13 @@ static ptrdiff_t littlefs__file_write(EvfsFile *fh, const void *buf, size_t size
 
   if(!(fil->flags & EVFS_WRITE)) return EVFS_ERR_DISABLED;
 
+  // Littlefs only moves the position forward
+  if(fil->flags & EVFS_APPEND) {
+    lfs_soff_t pos = lfs_file_seek(fil->lfs, &fil->fil, 0, LFS_SEEK_END);
+    if(pos < 0)
+      return translate_error(pos);
+  }
+
   lfs_ssize_t wrote = lfs_file_write(fil->lfs, &fil->fil, buf, size);
   return translate_error(wrote);
 }
-- 
2.43.0


From eae41a08bfe9a4e15a1ebe3d7b2a1f7aa142a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 118/164] fix: archive indexes that ran out of memory reported
 an unspecified error

---
 src/romfs_common.c | 4 ++--
 src/tar_fs.c       | 2 +-
 src/tar_rsrc_fs.c  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index d6eac16..49ea22e 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -440,7 +440,7 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
   range_cat_char(keys_r,'\0');
 
   if(!dh_insert(&ht->hash_table, key, &entry))
-    return EVFS_ERR;
+    return EVFS_ERR_ALLOC;
 
   //DPRINT("## INDEX DIR: '%s' @ %08X", key.data, entry);
 
@@ -490,7 +490,7 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
 
         entry = cur_file_offset;
         if(!dh_insert(&ht->hash_table, key, &entry))
-          return EVFS_ERR;
+          return EVFS_ERR_ALLOC;
 
         //DPRINT("## INDEX FIL: %s @ %08X", key.data, entry);
       }
diff --git a/src/tar_fs.c b/src/tar_fs.c
index ffe5adf..e052842 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -253,7 +253,7 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 
     if(!dh_insert(&ht->hash_table, key, &entry)) {
       tarfs__index_hash_free(ht);
-      return EVFS_ERR;
+      return EVFS_ERR_ALLOC;
     }
   }
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index f7f35c7..f1556cd 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -261,7 +261,7 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
 
     if(!dh_insert(&ht->hash_table, key, &entry)) {
       tarfs__index_hash_free(ht);
-      return EVFS_ERR;
+      return EVFS_ERR_ALLOC;
     }
   }
 
-- 
2.43.0


From 9aeef9ce4c02a80545aa955f46ae6fe5b9de9667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 119/164] fix: FatFs stat of an origin directory hid errors of
 reading it

---
 src/fatfs_fs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index d3ad650..04b8385 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -391,7 +391,8 @@ static int fatfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
 
   if(status == FR_INVALID_NAME) { // Origin directories have no entry
     DIR dir;
-    if(f_opendir(&dir, path) == FR_OK) {
+    status = f_opendir(&dir, path);
+    if(status == FR_OK) {
       f_closedir(&dir);
       info->type |= EVFS_FILE_DIR;
       return EVFS_OK;
-- 
2.43.0


From 5949f28fed055d1f774f50326ae2bb1691e2f918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 120/164] fix: changing to a directory that cannot be examined
 was reported as a missing directory

---
 src/evfs.c          | 13 +++++++------
 src/evfs_internal.h |  2 +-
 src/littlefs_fs.c   |  8 ++++----
 src/romfs_fs.c      |  9 +++++----
 src/shim_jail.c     |  5 +++--
 src/tar_fs.c        |  9 +++++----
 src/tar_rsrc_fs.c   |  9 +++++----
 7 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index f7b4de0..9661d38 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -157,14 +157,15 @@ const char *evfs_cmd_name(int cmd) {
 // ******************** Internal use ********************
 
 
-// True when path is a directory
-bool evfs__vfs_existing_dir(Evfs *vfs, const char *path) {
+// Confirm that path is a directory
+int evfs__vfs_check_dir(Evfs *vfs, const char *path) {
   EvfsInfo info;
-  if(vfs->m_stat(vfs, path, &info) == EVFS_OK) {
-    return info.type & EVFS_FILE_DIR;
-  }
+  int status = vfs->m_stat(vfs, path, &info);
+
+  if(status == EVFS_ERR_ALLOC || status == EVFS_ERR_IO) // We can't tell
+    return status;
 
-  return false;
+  return (status == EVFS_OK && (info.type & EVFS_FILE_DIR)) ? EVFS_OK : EVFS_ERR_NO_PATH;
 }
 
 
diff --git a/src/evfs_internal.h b/src/evfs_internal.h
index c790f39..5f78a53 100644
--- a/src/evfs_internal.h
+++ b/src/evfs_internal.h
@@ -154,7 +154,7 @@ static inline int evfs__nop(EvfsLock *(l)) { return 0; }
 
 void evfs__lib_init(void);  // Called by evfs__init_once()
 
-bool evfs__vfs_existing_dir(Evfs *vfs, const char *path);
+int evfs__vfs_check_dir(Evfs *vfs, const char *path);
 evfs_off_t evfs__absolute_offset(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin);
 char *evfs__vmprintf(const char *fmt, va_list args);
 
diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index b53d630..9c5430b 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -490,11 +490,11 @@ static int littlefs__set_cur_dir(Evfs *vfs, const char *path) {
     return status;
 
   // Confirm the path exists
-  if(!evfs__vfs_existing_dir(vfs, abs_path))
-    status = EVFS_ERR_NO_PATH;
-  else if(strlen(abs_path) >= COUNT_OF(fs_data->cur_dir))
+  status = evfs__vfs_check_dir(vfs, abs_path);
+  if(status == EVFS_OK && strlen(abs_path) >= COUNT_OF(fs_data->cur_dir))
     status = EVFS_ERR_TOO_LONG;
-  else { // Overwrite old cur_dir
+
+  if(status == EVFS_OK) { // Overwrite old cur_dir
     evfs__lock(&fs_data->dir_lock);
     strcpy(fs_data->cur_dir, abs_path);
     evfs__unlock(&fs_data->dir_lock);
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index aef17f4..ba0043a 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -489,8 +489,8 @@ static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
 
   if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
+    int err = evfs__vfs_check_dir(vfs, path);
+    if(err != EVFS_OK) return err;
 
     StringRange cur_dir;
     range_init(&cur_dir, fs_data->cur_dir, EVFS_MAX_PATH);
@@ -520,9 +520,10 @@ static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
     evfs_vfs_path_normalize(vfs, joined_path, &joined);
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
+    int err = evfs__vfs_check_dir(vfs, joined_path);
+    if(err != EVFS_OK) {
       evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
+      return err;
     }
 
     // Overwrite old cur_dir
diff --git a/src/shim_jail.c b/src/shim_jail.c
index 7a208ed..0a7bf71 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -433,8 +433,9 @@ static int jail__set_cur_dir(Evfs *vfs, const char *path) {
     return status;
 
   // Confirm the path exists
-  if(!evfs__vfs_existing_dir(vfs, new_dir))
-    return EVFS_ERR_NO_PATH;
+  status = evfs__vfs_check_dir(vfs, new_dir);
+  if(status != EVFS_OK)
+    return status;
 
   evfs__lock(&shim_data->dir_lock);
   strlcpy(shim_data->cur_dir, new_dir, sizeof(shim_data->cur_dir));
diff --git a/src/tar_fs.c b/src/tar_fs.c
index e052842..98e6fed 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -474,8 +474,8 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
 
   if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
+    int err = evfs__vfs_check_dir(vfs, path);
+    if(err != EVFS_OK) return err;
   
     StringRange cur_dir;
     range_init(&cur_dir, fs_data->cur_dir, EVFS_MAX_PATH);
@@ -501,9 +501,10 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
     evfs__unlock(&fs_data->dir_lock);
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
+    int err = evfs__vfs_check_dir(vfs, joined_path);
+    if(err != EVFS_OK) {
       evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
+      return err;
     }
 
     // Overwrite old cur_dir
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index f1556cd..d942958 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -485,8 +485,8 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
 
   if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
+    int err = evfs__vfs_check_dir(vfs, path);
+    if(err != EVFS_OK) return err;
   
     StringRange cur_dir;
     range_init(&cur_dir, fs_data->cur_dir, EVFS_MAX_PATH);
@@ -512,9 +512,10 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
     evfs__unlock(&fs_data->dir_lock);
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
+    int err = evfs__vfs_check_dir(vfs, joined_path);
+    if(err != EVFS_OK) {
       evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
+      return err;
     }
 
     // Overwrite old cur_dir
-- 
2.43.0


From 41c0bb49e545c30262e31c25e256110529dd073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 121/164] fix: evfs_copy_to_file left an empty file when it
 could not allocate its buffer

---
 src/evfs.c | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 9661d38..aab71f7 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -910,26 +910,22 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
   Evfs *vfs = evfs__get_vfs(vfs_name);
   if(!vfs) THROW(EVFS_ERR_NO_VFS);
 
-  EvfsFile *dest_fh;
-  int flags = EVFS_WRITE | EVFS_NO_EXIST;
-
-  int rval = evfs_vfs_open(vfs, dest_path, &dest_fh, flags);
-  if(rval != EVFS_OK) return rval;
-
-
   bool alloc_buf = false;
 
   if(!buf) { // Allocate a buffer
     buf_size = MAX(buf_size, MIN_COPY_BUF_SIZE);
     buf = evfs_malloc(buf_size);
-    if(MEM_CHECK(buf)) {
-      rval = EVFS_ERR_ALLOC;
-      goto cleanup;
-    }
+    if(MEM_CHECK(buf)) return EVFS_ERR_ALLOC;
 
     alloc_buf = true;
   }
 
+  EvfsFile *dest_fh;
+  int flags = EVFS_WRITE | EVFS_NO_EXIST;
+
+  int rval = evfs_vfs_open(vfs, dest_path, &dest_fh, flags);
+  if(rval != EVFS_OK) goto cleanup;
+
   size_t copy_size = evfs_file_size(fh);
 
   while(copy_size > 0) {
@@ -949,16 +945,15 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
     copy_size -= read;
   }
 
-
-  if(alloc_buf)
-    evfs_free(buf);
-
-cleanup:
-  ; // Data may not reach the destination until it is closed
+  // Data may not reach the destination until it is closed
   int close_rval = evfs_file_close(dest_fh);
   if(rval == EVFS_OK)
     rval = close_rval;
 
+cleanup:
+  if(alloc_buf)
+    evfs_free(buf);
+
   return rval;
 }
 
-- 
2.43.0


From 067feffb650a9811ec647389d74f29d0328757b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 122/164] fix: paths were not normalized when there was no
 memory for a long root

---
 src/evfs_path.c | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 84eaaaa..7dda25c 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -46,8 +46,7 @@ static bool normalize_root_component(Evfs *vfs, char *path, StringRange *root) {
 }
 
 
-static bool append_normalized_root(Evfs *vfs, AppendRange *dest, StringRange *root) {
-  bool truncated = false;
+static int append_normalized_root(Evfs *vfs, AppendRange *dest, StringRange *root, bool *truncated) {
 
   // Copy the un-normalized root
   if(range_size(root) < 16) {
@@ -55,28 +54,23 @@ static bool append_normalized_root(Evfs *vfs, AppendRange *dest, StringRange *ro
     strncpy(root_buf, root->start, range_size(root));
     normalize_root_component(vfs, root_buf, root);
     if(range_cat_range_no_nul(dest, root) < 0)
-      truncated = true;
+      *truncated = true;
 
   } else { // Fallback to malloc
     char *root_norm = evfs_malloc(range_size(root)+1);
-    if(MEM_CHECK(root_norm)) { // Failed malloc
-      // Just append the root without normalization
-      if(range_cat_range_no_nul(dest, root) < 0)
-        truncated = true;
+    if(MEM_CHECK(root_norm)) return EVFS_ERR_ALLOC;
 
-    } else { // Success
-      memset(root_norm, 0, range_size(root)+1);
-      strncpy(root_norm, root->start, range_size(root));
-      normalize_root_component(vfs, root_norm, root);
+    memset(root_norm, 0, range_size(root)+1);
+    strncpy(root_norm, root->start, range_size(root));
+    normalize_root_component(vfs, root_norm, root);
 
-      if(range_cat_range_no_nul(dest, root) < 0)
-        truncated = true;
+    if(range_cat_range_no_nul(dest, root) < 0)
+      *truncated = true;
 
-      evfs_free(root_norm);
-    }
+    evfs_free(root_norm);
   }
 
-  return truncated;
+  return EVFS_OK;
 }
 
 
@@ -347,9 +341,8 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
   if(range_size(&root) > 0) {
 
     // Copy the un-normalized root
-    if(append_normalized_root(vfs, &norm_r, &root))
-      truncated = true;
-
+    int err = append_normalized_root(vfs, &norm_r, &root, &truncated);
+    if(err != EVFS_OK) return err;
   }
 
   if(last_seg >= 0) {
@@ -451,8 +444,11 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
 
   // Add root prefix (A relative path can have a drive letter)
   if(range_size(&root) > 0) {
-    if(append_normalized_root(vfs, normalized, &root))
-      truncated = true;
+    int err = append_normalized_root(vfs, normalized, &root, &truncated);
+    if(err != EVFS_OK) {
+      evfs_free(tok_stack);
+      return err;
+    }
   }
 
   // It's possible that the path and normalized range overlap so we defer inserting
-- 
2.43.0


From 6d88fc564f0ce82bae7c72291e78a6324f483305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 123/164] fix: truncating a rotate container reported every
 failure to reach a chunk as corruption

---
 src/shim_rotate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index a3cc737..cbd87cc 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1136,7 +1136,7 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     evfs_off_t delete_bytes = rs->base.total_size - size;
 
     status = activate_chunk(base_vfs, &rs->base, rs->end_chunk);
-    if(status != EVFS_OK) return EVFS_ERR_CORRUPTION;
+    if(status != EVFS_OK) return status;
 
     evfs_off_t chunk_size = evfs_file_size(rs->base.active_chunk_fh);
     if(chunk_size < 0) return chunk_size;
@@ -1168,7 +1168,7 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     if(delete_bytes > 0 && status == EVFS_OK) {
       // Truncate new end chunk
       status = activate_chunk(base_vfs, &rs->base, rs->end_chunk);
-      if(status != EVFS_OK) return EVFS_ERR_CORRUPTION;
+      if(status != EVFS_OK) return status;
 
       chunk_size = evfs_file_size(rs->base.active_chunk_fh);
       if(chunk_size < 0) return chunk_size;
-- 
2.43.0


From fd63bbd88bf650cdcd7fb029fee14726d02f4575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 124/164] fix: powers of two and logarithms of small numbers
 shifted by the word size

---
 src/util/intmath.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index d5eb0d0..60c0506 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -58,6 +58,9 @@ static int clz(unsigned x) {
 #endif
 
 uint32_t ceil_pow2(uint32_t x) {
+  if(x <= 1)  // clz(0) is undefined
+    return 1;
+
   return 1ul << (32 - clz(x - 1));
 }
 
@@ -108,7 +111,7 @@ int32_t log2_fixed(uint32_t n, unsigned fp_exp) {
   int32_t l2_int = -zeros;
 
   // Extract fraction scaled by 2^32 so it is left justified
-  uint32_t frac = n << (zeros + 1);
+  uint32_t frac = n << zeros << 1;  // Not a single shift as zeros can be 31
   int ix = frac >> ((8*sizeof frac) - LOG2_TABLE_BITS); // Index into table with upper bits of fraction
   int32_t l2_frac = log2_table[ix];
 
-- 
2.43.0


From 679a82e4c7495bc79eb4e3c4417cba7ead308b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 125/164] fix: conversion of large fixed point values to
 integer overflowed

---
 src/util/intmath.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index 60c0506..bd7e2ce 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -212,8 +212,12 @@ Returns:
   Integral part of fp_value with rounded up fraction removed
 */
 unsigned ufixed_to_uint(unsigned fp_value, unsigned fp_scale) {
-  fp_value += fp_scale/2;  // Round up
-  return fp_value / fp_scale;
+  unsigned integer = fp_value / fp_scale;
+
+  if(fp_value % fp_scale >= fp_scale - fp_scale/2)  // Round up
+    integer++;
+
+  return integer;
 }
 
 
@@ -228,9 +232,16 @@ Returns:
   Integral part of fp_value with rounded up fraction removed
 */
 int fixed_to_int(int fp_value, unsigned fp_scale) {
-  int half = (int)fp_scale/2;
-  fp_value += (fp_value < 0) ? -half : half; // Round to +/- infinity
-  return fp_value / (int)fp_scale;
+  int half = (int)fp_scale - (int)fp_scale/2;
+  int integer = fp_value / (int)fp_scale;
+  int frac = fp_value % (int)fp_scale;
+
+  if(frac >= half)  // Round to +/- infinity
+    integer++;
+  else if(-frac >= half)
+    integer--;
+
+  return integer;
 }
 
 
-- 
2.43.0


From 59e5ae8610bd41fec5e9ae88f297d22765e17a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 126/164] fix: rounding fixed point numbers lost carries and
 the sign of small values

---
 src/util/intmath.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index bd7e2ce..feb22d2 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -307,6 +307,7 @@ Returns:
 int fixed_base10_adjust(long *integer, long *frac, int frac_digits, int frac_places) {
   long vi = *integer;
   long vf = *frac;
+  bool negative = vi < 0 || vf < 0;
 
   if(vf < 0)  vf = -vf; // Remove sign on fraction to simplify rounding
 
@@ -321,27 +322,28 @@ int fixed_base10_adjust(long *integer, long *frac, int frac_digits, int frac_pla
     // Reduce digits if fraction is larger than requested decimal places
     while(frac_digits > frac_places+1) { // Initial scale down without rounding
       vf /= 10;
+      scale_b10 /= 10;
       frac_digits--;
     }
 
     if(frac_digits > frac_places) { // Final adjust with rounding
       vf += 5;  // Start round to +/- infinity in last decimal place
 
-      if(vf > scale_b10) { // Rounded into integer
-        vi++;
-        vf = 0; // No fraction part
-        frac_digits = 0;
+      // Finish last adjustment
+      vf /= 10;
+      scale_b10 /= 10;
+      frac_digits--;
 
-      } else {  // Finish last adjustment
-        vf /= 10;
-        frac_digits--;
+      if(vf >= scale_b10) { // Rounded into integer
+        vi += (negative ? -1 : 1);
+        vf = 0;
       }
     }
 
   } else if(frac_places == 0) { // No fraction part
     // Check for rounding into integer
-    if(vf + scale_b10/2 >= scale_b10)  // Round up in 1/10ths place
-      vi += (vi < 0 ? -1 : 1);  // Overflow into integer
+    if(frac_digits > 0 && vf + scale_b10/2 >= scale_b10)  // Round up in 1/10ths place
+      vi += (negative ? -1 : 1);  // Overflow into integer
 
     vf = 0;
     frac_digits = 0;
@@ -349,7 +351,7 @@ int fixed_base10_adjust(long *integer, long *frac, int frac_digits, int frac_pla
 
   *integer = vi;
 
-  if(vi < 0) vf = -vf; // Restore sign on fraction
+  if(negative) vf = -vf; // Restore sign on fraction
   *frac = vf;
   return frac_digits;
 }
-- 
2.43.0


From 93d170db59b016fd869877a0138e0ee82945ff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 127/164] fix: SI scaling ignored negative exponents between
 prefixes and overflowed at the last prefix

---
 src/util/intmath.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index feb22d2..9253096 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -414,6 +414,9 @@ long to_fixed_si(long value, int value_exp, unsigned fp_scale, char *si_prefix,
   const char *prefix_pos;
 
   int value_exp_si = (value_exp / 3) * 3; // Pick nearest prefix below the value exponent
+  if(value_exp_si > value_exp)  // Negative exponents are truncated upward
+    value_exp_si -= 3;
+
   // Need to prescale by 10x or 100x if exponent not already a multiple of 3
   for(int i = 0; i < (value_exp - value_exp_si); i++) {
     value *= 10;
@@ -427,15 +430,13 @@ long to_fixed_si(long value, int value_exp, unsigned fp_scale, char *si_prefix,
 
   // Find the correct prefix
   unsigned long min_val = 1;
-  unsigned long max_val;
   while(*prefix_pos != '\0') {
-    max_val = min_val * si_pow; // Next thousands
-
-    if((unsigned long)value < max_val || prefix_pos[1] == '\0')
+    // Divide since the next thousands may not be representable
+    if((unsigned long)value / si_pow < min_val || prefix_pos[1] == '\0')
       break;
 
     prefix_pos++;
-    min_val = max_val;
+    min_val *= si_pow; // Next thousands
   }
 
   *si_prefix = (*prefix_pos == ' ') ? '\0' : *prefix_pos;
-- 
2.43.0


From 5b54d9badabdd6f79083984080fb6eb61bea6c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 128/164] fix: interpolation between distant points overflowed

---
 src/util/intmath.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index 9253096..743cc64 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -512,7 +512,7 @@ unsigned long isqrt_fixed(unsigned long fp_value, unsigned fp_exp) {
 
 // Linear interpolate between two points in Q1.15 format. Interpolant is in Q0.16
 static inline int16_t lin_interp(int16_t a0, int16_t a1, uint16_t t) {
-  return a0 + (((int32_t)t * (int32_t)(a1 - a0)) >> 16);
+  return a0 + (((int64_t)t * (int32_t)(a1 - a0)) >> 16);
 }
 
 
@@ -555,11 +555,11 @@ Returns:
   The quadratic polynomial value at point t
 */
 int16_t quadratic_eval(int16_t a, int16_t b, int16_t c, uint16_t t) {
-  int32_t q;
+  int64_t q;
 
   q = (int32_t)a - 2*(int32_t)b + (int32_t)c;
-  q = (((q * (int32_t)t) >> 16) * (int32_t)t) >> 16;
-  q += (2*(int32_t)(b - a) * (int32_t)t) >> 16;
+  q = q * t + 2*(int64_t)(b - a) * 65536;
+  q = (q * t) >> 32;
   q += a;
 
   return (int16_t)q;
-- 
2.43.0


From 47f7edeade7bf485d6cb61602e6f69bf3bebdf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 129/164] fix: bezier_search_t() did not end when the value was
 not on the curve

---
 src/util/intmath.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index 743cc64..9c38647 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -695,12 +695,12 @@ Returns:
 uint16_t bezier_search_t(Point16 p0, Point16 p1, Point16 p2, int16_t x) {
   // Binary search for t parameter that corresponds to the requested X-axis location
   // Points must be monotonic along X-axis
-  uint16_t low = 0;
-  uint16_t high = UINT16_MAX;
+  int32_t low = 0;
+  int32_t high = UINT16_MAX;
 
   while(low <= high) {
-    uint16_t mid = low + (high - low)/2;
-    int16_t delta = quadratic_eval(p0.x, p1.x, p2.x, mid) - x;
+    int32_t mid = low + (high - low)/2;
+    int32_t delta = quadratic_eval(p0.x, p1.x, p2.x, mid) - x;
     if(delta > -5 && delta < 5) { // Does not converge near endpoints so allow small margin
       return mid;
     } else if(delta > 0) {
@@ -710,6 +710,6 @@ uint16_t bezier_search_t(Point16 p0, Point16 p1, Point16 p2, int16_t x) {
     }
   }
 
-  return low;
+  return low > UINT16_MAX ? UINT16_MAX : low;
 }
 
-- 
2.43.0


From b3ce089e1a9cbe57c5430bd90d7ae59b7f20043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 130/164] fix: bezier_solve_t() divided by zero on straight
 curves

---
 src/util/intmath.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index 9c38647..6e06ebc 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -639,10 +639,14 @@ uint16_t quadratic_solve(int32_t a, int32_t b, int32_t c, int16_t x) {
 //  printf("\tq: %d (%1.3f)  d-b: %1.3f  d-b/2a: %d\n", det, (double)det / INT16_MAX,
 //        (double)(det-b) / INT16_MAX, ((det - b) << 15) / a);
 
-  // Root is (det-b)/2a
+  // Root is (det-b)/2a which equals -2c/(b+det). The latter has no cancellation and works
+  // when a is 0.
   // We're converting from signed Q1.15 to unsigned Q0.16 format for the result so the
-  // fixed-point adjustment has an extra 2x scaling (/2a --> /a).
-  int32_t root = ((det - b) << 15) / a;
+  // fixed-point adjustment has an extra 2x scaling.
+  if(b + det == 0)
+    return 0;
+
+  int64_t root = ((int64_t)-c * (1l << 17)) / (b + det);
   return root < 0 ? 0 : root > UINT16_MAX ? UINT16_MAX : (uint16_t)root;
 }
 
-- 
2.43.0


From def7adec40e45baacea2d3844b884785975dadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 131/164] fix: unsigned fixed point text had wrong digits for
 most scales and wrong padding

---
 src/util/range_strings.c | 93 ++++++++--------------------------------
 1 file changed, 18 insertions(+), 75 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index c88fa51..a0ea3a9 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -588,109 +588,52 @@ Returns:
 int range_cat_ufixed_padded(AppendRange *rng, unsigned value, unsigned scale, unsigned places,
                             signed pad_digits) {
   unsigned integer = value / scale;
-  unsigned frac = value % scale;
-  int status = 0;
-  int len;
+  uint64_t frac = value % scale;
+  char num[32];
 
-  // Give ourselves an extra digit for initial rounding
-  unsigned scale_b10_digits = base10_digits(scale) + 1;
+  // If scale is already a power of 10 we don't want to grow by an extra digit so
+  // decrement when taking log.
+  unsigned frac_digits = base10_digits(scale-1);
 
-  // get 10 ^ (base10_digits(scale)+1)
-  unsigned scale_b10 = 1;
-  for(unsigned i = 0; i < scale_b10_digits-1; i++) {
+  // get 10 ^ frac_digits
+  uint64_t scale_b10 = 1;
+  for(unsigned i = 0; i < frac_digits; i++) {
     scale_b10 *= 10;
   }
 
-  // Convert fraction to base-10
-  frac = frac * scale_b10 / scale;
-
-  // Round up and remove extra digit
-  frac = (frac + 5) / 10;
-  scale_b10 /= 10;  // Set to true base-10 scale
-
-  unsigned frac_digits = scale_b10_digits - 2;  // Remove extra digit for round
+  // Convert fraction to base-10 with rounding
+  frac = (frac * scale_b10 + scale/2) / scale;
 
   if(places > 0) {
     // Reduce digits if fraction is larger than requested decimal places
     while(frac_digits > places+1) { // Initial scale down without rounding
       frac /= 10;
+      scale_b10 /= 10;
       frac_digits--;
     }
 
     if(frac_digits > places) { // Final adjust with rounding
-      frac += 5;  // Start round up in last decimal place
+      frac = (frac + 5) / 10; // Round up in last decimal place
+      scale_b10 /= 10;
+      frac_digits--;
 
-      if(frac > scale_b10) { // Rounded into integer
+      if(frac >= scale_b10) { // Rounded into integer
         integer++;
         frac = 0; // No fraction part
-        frac_digits = 1;
-
-      } else {  // Finish last adjustment
-        frac /= 10;
-        frac_digits--;
-      }
-    }
-
-    status = 0;
-    if(pad_digits > 0) { // Handle right justification here
-      // Get length of formatted string
-      len = snprintf(NULL, 0, "%u.%0*u", integer, frac_digits, frac);
-
-      if(pad_digits > len) {
-        pad_digits -= len;
-
-        for(int i = 0; i < pad_digits; i++) {
-          if(range_cat_char(rng, ' ') < 0) {
-            status = -pad_digits;
-            break;
-          }
-          status++;
-        }
       }
     }
 
-    if(status >= 0) { // Padding was ok
-      len = range_cat_fmt(rng, "%u.%0*u", integer, frac_digits, frac);
-      if(len >= 0)
-        status += len;
-      else // Won't fit
-        status = -status + len;
-    }
+    snprintf(num, sizeof num, "%u.%0*u", integer, (int)frac_digits, (unsigned)frac);
 
   } else {  // places == 0; No fraction part
     // Check for rounding into integer
     if(frac + scale_b10/2 >= scale_b10)  // Round up in 1/10ths place
       integer++;
 
-    // Handle right justification here
-    int justify = (pad_digits < 0) ? 0 : pad_digits;
-    status = range_cat_fmt(rng, "%*u", justify, integer);
-  }
-
-  if(pad_digits < 0) {
-    if(status >= 0) {  // Left justify by padding on right
-      len = 0;
-      for(int i = pad_digits; i < 0; i++) {
-        if(range_cat_char(rng, ' ') < 0) {
-          len = pad_digits;
-          break;
-        }
-
-        len++;
-      }
-
-      if(len >= 0)
-        status += len;
-      else  // Won't fit
-        status = -status + len;
-
-    } else { // Number didn't fit
-      if(pad_digits < status) // Both are negative
-        status = pad_digits;
-    }
+    snprintf(num, sizeof num, "%u", integer);
   }
 
-  return status;
+  return range_cat_fmt(rng, "%*s", pad_digits, num); // Negative width is left justified
 }
 
 
-- 
2.43.0


From 5b9bbcd71b85022971314f7241b4a9f33fdf63f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 132/164] fix: signed fixed point text lost the sign of small
 values and misreported its length

---
 src/util/range_strings.c | 75 +++++-----------------------------------
 1 file changed, 9 insertions(+), 66 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index a0ea3a9..1995455 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -661,76 +661,19 @@ int range_cat_fixed_padded(AppendRange *rng, long value, unsigned fp_scale, int
   if(frac_places >= 0)  // Rescale
     frac_digits = fixed_base10_adjust(&integer, &frac, frac_digits, frac_places);
 
+  bool negative = integer < 0 || frac < 0;
+  unsigned long u_integer = integer < 0 ? 0 - (unsigned long)integer : (unsigned long)integer;
   if(frac < 0) frac = -frac;
 
-  // Convert exponent to scaling
-  int scale_b10 = 1;
-  for(int i = 0; i < frac_digits; i++) {
-    scale_b10 *= 10;
-  }
+  char num[48];
 
-  int status = 0;
-  int len;
-
-  // Apply justification padding
-  if(frac_digits > 0) {
-    status = 0;
-    if(pad_digits > 0) { // Handle right justification here (Padding on left side)
-      // Get length of formatted string
-      len = snprintf(NULL, 0, "%ld.%0*ld", integer, frac_digits, frac);
-
-      if(pad_digits > len) {
-        pad_digits -= len;
-
-        for(int i = 0; i < pad_digits; i++) { // Add padding
-          if(range_cat_char(rng, ' ') < 0) {
-            status = -pad_digits;
-            break;
-          }
-          status++;
-        }
-      }
-    }
+  // The sign is separate because the integer can be 0
+  if(frac_digits > 0)
+    snprintf(num, sizeof num, "%s%lu.%0*ld", negative ? "-" : "", u_integer, frac_digits, frac);
+  else  // No fraction part
+    snprintf(num, sizeof num, "%s%lu", negative ? "-" : "", u_integer);
 
-    if(status >= 0) { // Left padding was ok
-      len = range_cat_fmt(rng, "%ld.%0*ld", integer, frac_digits, frac);
-      if(len >= 0)
-        status += len;
-      else // Won't fit
-        status = -status + len;
-    }
-
-  } else {  // No fraction part
-    // Handle right justification here (Padding on left side)
-    int justify = (pad_digits < 0) ? 0 : pad_digits;
-    status = range_cat_fmt(rng, "%*ld", justify, integer);
-  }
-
-  if(pad_digits < 0) {
-    pad_digits = -pad_digits;
-    if(status >= 0 && pad_digits > status) {  // Left justify by padding on right
-      len = 0;
-      for(int i = status - pad_digits; i < 0; i++) {
-        if(range_cat_char(rng, ' ') < 0) {
-          len = status - pad_digits;
-          break;
-        }
-
-        len++;
-      }
-
-      if(len >= 0)
-        status += len;
-      else  // Won't fit
-        status = -status + len;
-
-    } else { // Number didn't fit
-      if(pad_digits < status) // Both are negative
-        status = pad_digits;
-    }
-  }
-
-  return status;
+  return range_cat_fmt(rng, "%*s", pad_digits, num); // Negative width is left justified
 }
 
 
-- 
2.43.0


From ff6c7c9718a2c92b0db7f9d1b363e12d522d9801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 133/164] fix: square roots of large values overflowed

---
 src/util/intmath.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index 6e06ebc..0564034 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -481,6 +481,7 @@ unsigned long isqrt_fixed(unsigned long fp_value, unsigned fp_exp) {
   unsigned long t, q, b, r;
   r = fp_value;
   q = 0;
+  bool carry = false; // Bit shifted out of r
 
   /*
     This algorithm computes sqrt(x) with an offset factor 2^(I+F):
@@ -497,15 +498,16 @@ unsigned long isqrt_fixed(unsigned long fp_value, unsigned fp_exp) {
   unsigned long end_b = 1UL << (adj_bits - aux_bits);
   for(b = 1UL << (TOTAL_BITS-2); b > end_b; b >>= 1) {
     t = q + b;
-    if(r >= t) {
+    if(carry || r >= t) {
       r -= t;
       q = t + b; // Equivalent to q += 2*b
     }
+    carry = r >> (TOTAL_BITS-1);
     r <<= 1;
   }
 
   // Remove remaining offset factor and round up
-  q = (q >> adj_bits) + (unsigned long)(r > q);
+  q = (q >> adj_bits) + (unsigned long)(carry || r > q);
   return q;
 }
 
-- 
2.43.0


From 2150fae059157200d7b62c526d4309b879a11f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 134/164] fix: get_unaligned_u64() dropped the upper half of
 its result

---
 include/evfs/util/unaligned_access.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/evfs/util/unaligned_access.h b/include/evfs/util/unaligned_access.h
index abaf28b..9e38bb7 100644
--- a/include/evfs/util/unaligned_access.h
+++ b/include/evfs/util/unaligned_access.h
@@ -268,7 +268,7 @@ static inline void set_unaligned_s32le(int32_t value, void *dest) {
 
 // ******************** uint64_t ********************
 
-static inline uint32_t get_unaligned_u64(const void *data) {
+static inline uint64_t get_unaligned_u64(const void *data) {
   const uint8_t *bdata = (const uint8_t *)data; // Don't allow any assumed alignment 
   uint64_t val;
 
-- 
2.43.0


From 57c14fdee287efb9f61fc154ae3038ac8fc2de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 135/164] fix: bounded string copies read past sources and
 destinations without a NUL

---
 src/util/bsd_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/bsd_string.c b/src/util/bsd_string.c
index 354aa91..2d40de5 100644
--- a/src/util/bsd_string.c
+++ b/src/util/bsd_string.c
@@ -83,7 +83,7 @@ size_t strxcpy(char *dst, const char *src, size_t size) {
 
   if(size > 0) {
     size--;
-    while(*src != '\0' && copied < size) {
+    while(copied < size && *src != '\0') {
       *dst++ = *src++;
       copied++;
     }
@@ -113,7 +113,7 @@ size_t strlcat(char *dst, const char *src, size_t size) {
   size_t cat_len = 0;
 
   if(size > 0) {
-    while(*dst != '\0' && cat_len < size) {
+    while(cat_len < size && *dst != '\0') {
       dst++;
       cat_len++;
     }
-- 
2.43.0


From f4772e67be4b98c23d6a9dd0479982743e9f7be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 136/164] fix: a missing option argument moved the option index
 past the end of the arguments

---
 src/util/getopt_r.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index dd79602..24caa8f 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -283,6 +283,7 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
             if(CUR_OPT) {
               state->optarg = CUR_OPT;
             } else { // Exhausted all options without finding an argument
+              state->optind--;  // Revert to this option's arg position
               state->optarg = NULL;
 
               if(state->report_errors)
-- 
2.43.0


From 755e3cd64c0b9046c4018e74b2241326908facb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 137/164] fix: a missing argument of a long option ignored the
 leading colon of the short options

---
 src/util/getopt_r.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index 24caa8f..fd4c916 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -225,7 +225,7 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
           // Indicate equivalent short option that caused error
           state->optopt = long_options[long_match].flag ? '\0' : long_options[long_match].val;
           state->optind--;  // Revert to this option's arg position
-          rval = ERR_UNKNOWN_OPT;
+          rval = optstring[0] == ':' ? ERR_MISSING_OPT : ERR_UNKNOWN_OPT;
         }
         break;
 
-- 
2.43.0


From 56eb15fc6ee8959c6dd2e1c11380aaa4952b71fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 138/164] fix: a colon was accepted as an option character

---
 src/util/getopt_r.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index fd4c916..6db862d 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -268,7 +268,7 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
     rval = state->optopt;
 
     // Search optstring for the current option
-    const char *opt_def = strchr(optstring, state->optopt);
+    const char *opt_def = state->optopt != ':' ? strchr(optstring, state->optopt) : NULL;
 
     if(opt_def) {
 
-- 
2.43.0


From 9151e67823c1fd97feb9a2c605d41009ccf57a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 139/164] fix: an operand before clustered options was taken as
 the argument of the last one

---
 src/util/getopt_r.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index 6db862d..bd04853 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -328,8 +328,12 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
   }
 
   // Permute non-options
-  if(non_opts > 0)
-    permute_args((char **)argv, non_opts, non_opt_start, state);
+  if(non_opts > 0) {
+    if(state->next_char && *state->next_char != '\0')
+      state->optind = non_opt_start;  // Wait for the remaining options in this arg
+    else
+      permute_args((char **)argv, non_opts, non_opt_start, state);
+  }
 
   return rval;
 }
-- 
2.43.0


From 871aaf2255ee4e2e2be3edb3b2902e84b8204652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 140/164] fix: command usage failed without memory, with narrow
 lines and with large option values

---
 src/util/getopt_r.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index bd04853..78c668a 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -340,6 +340,12 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
 
 
 
+// Values outside the range of characters are only used for long options
+static inline bool is_short_opt(int val) {
+  return val > 0 && val <= 0x7F && isgraph(val);
+}
+
+
 static const OptionHelp *find_help(const char *name, const OptionHelp *opt_help) {
   for(int i = 0; opt_help[i].name; i++) {
     if(!strcmp(opt_help[i].name, name))
@@ -402,7 +408,12 @@ static void append_option(char *buf, AppendRange *buf_r, int indent, int max_col
       // Retry
       va_end(args);
       va_start(args, fmt);
-      range_cat_vfmt(buf_r, fmt, args);
+      if(range_cat_vfmt(buf_r, fmt, args) < 0) {  // Wider than a line
+        va_end(args);
+        va_start(args, fmt);
+        vprintf(fmt, args);
+        puts("");
+      }
     }
 
     va_end(args);
@@ -453,7 +464,7 @@ void print_command_usage(const char *app_name, const char *optstring, const stru
   AppendRange buf_r;
   if(buf) {
     buf[0] = '\0';
-    range_init(&buf_r, buf, max_columns+1 - indent); // Shorten first line
+    range_init(&buf_r, buf, max_columns > indent ? max_columns+1 - indent : 1); // Shorten first line
     // Long options
     if(long_options) {
       for(int lo = 0; long_options[lo].name; lo++) {
@@ -461,7 +472,7 @@ void print_command_usage(const char *app_name, const char *optstring, const stru
         bool required = help && (help->flags & OPT_REQUIRED);
 
         const char *fmt;
-        if(!long_options[lo].flag && isgraph(long_options[lo].val)) { // Have short option
+        if(!long_options[lo].flag && is_short_opt(long_options[lo].val)) { // Have short option
           fmt = required ? " -%c|--%s%s" : " [-%c|--%s%s]";
           append_option(buf, &buf_r, indent, max_columns,
                         fmt, long_options[lo].val, long_options[lo].name,
@@ -504,7 +515,7 @@ void print_command_usage(const char *app_name, const char *optstring, const stru
       }
     }
   }
-  if(strlen(buf) > 0)
+  if(buf && strlen(buf) > 0)
     puts(buf);
   free(buf);
   puts("");
@@ -544,7 +555,7 @@ void print_command_usage(const char *app_name, const char *optstring, const stru
   // Print detailed long options
   if(long_options) {
     for(int lo = 0; long_options[lo].name; lo++) {
-      if(!long_options[lo].flag && isgraph(long_options[lo].val)) {  // Have short option
+      if(!long_options[lo].flag && is_short_opt(long_options[lo].val)) {  // Have short option
         printf("  -%c, --%s", long_options[lo].val, long_options[lo].name);
       } else { // No short option
         printf("      --%s", long_options[lo].name);
-- 
2.43.0


From 03a6c3884fb7961f9c6b2e2aac4b8db8bf968193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 141/164] fix: the root component of a path on a missing VFS
 was reported as absolute

---
 src/evfs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index aab71f7..dcae974 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -979,9 +979,11 @@ Returns:
   true when the path is absolute
 */
 bool evfs_path_root_component_ex(const char *path, StringRange *root, const char *vfs_name) {
-  if(PTR_CHECK(path) || PTR_CHECK(root)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(path) || PTR_CHECK(root)) return false;
+  root->start = root->end = path;
+
   Evfs *vfs = evfs__get_vfs(vfs_name);
-  if(!vfs) THROW(EVFS_ERR_NO_VFS);
+  if(!vfs) return false;
 
   return vfs->m_path_root_component(vfs, path, root);
 }
-- 
2.43.0


From 39bc93dc7a9f3bf070fd66a3972bf73a19e2dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 142/164] fix: formatted text appended to an empty string range
 was dropped without an error

---
 src/util/range_strings.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 1995455..b98470d 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -259,6 +259,12 @@ int range_cat_fmt(AppendRange *rng, const char *fmt, ...) {
       }
     }
 
+  } else { // No space at all
+    va_start(args, fmt);
+    rval = vsnprintf(NULL, 0, fmt, args);
+    if(rval > 0)
+      rval = -rval;
+    va_end(args);
   }
 
   return rval;
@@ -284,6 +290,10 @@ int range_cat_vfmt(AppendRange *rng, const char *fmt, va_list args) {
       }
     }
 
+  } else { // No space at all
+    rval = vsnprintf(NULL, 0, fmt, args);
+    if(rval > 0)
+      rval = -rval;
   }
 
   return rval;
-- 
2.43.0


From 313d787abca5509ed191781cf7b269a4d5c9810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 143/164] fix: file commands that stdio, FatFs and littlefs do
 not know were reported as done

---
 src/fatfs_fs.c    | 2 +-
 src/littlefs_fs.c | 2 +-
 src/stdio_fs.c    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 04b8385..8ab2559 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -116,7 +116,7 @@ static bool fatfs__path_root_component(Evfs *vfs, const char *path, StringRange
 static int fatfs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
   //FatfsFile *fil = (FatfsFile *)fh;
 
-  return EVFS_OK;
+  return EVFS_ERR_NO_SUPPORT;
 }
 
 static int fatfs__file_close(EvfsFile *fh) {
diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 9c5430b..4f179e9 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -176,7 +176,7 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
 static int littlefs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
   //LittlefsFile *fil = (LittlefsFile *)fh;
   
-  return EVFS_OK;
+  return EVFS_ERR_NO_SUPPORT;
 }
 
 static int littlefs__file_close(EvfsFile *fh) {
diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 54c3d43..531adc0 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -93,7 +93,7 @@ static int translate_error(int err) {
 static int stdio__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
   //StdioFile *fil = (StdioFile *)fh;
   
-  return EVFS_OK;
+  return EVFS_ERR_NO_SUPPORT;
 }
 
 static int stdio__file_close(EvfsFile *fh) {
-- 
2.43.0


From 976742c1169b6f83fc269a436e9da0965567705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 144/164] fix: file times on FAT were an hour off during
 daylight saving time

---
 src/fatfs_fs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 8ab2559..221ffe6 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -318,6 +318,7 @@ static int fatfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
     mtime.tm_hour = dir->info.ftime & 0x1F;
 
+    mtime.tm_isdst = -1;  // FAT has local time
     info->mtime = mktime(&mtime);
 
   } else { // End of entries
-- 
2.43.0


From a3d5882b4918091c66a52427c01a1d91585bba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 145/164] fix: stat of an origin directory on FAT gave no name

---
 src/fatfs_fs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 221ffe6..cb61054 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -396,6 +396,8 @@ static int fatfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
     if(status == FR_OK) {
       f_closedir(&dir);
       info->type |= EVFS_FILE_DIR;
+      fs_data->info.fname[0] = '\0';
+      info->name = fs_data->info.fname;
       return EVFS_OK;
     }
   }
-- 
2.43.0


From e24f049204f24a84d2a10ec5929f3eb4b06654b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 146/164] fix: the trace shim reported negative and large
 offsets wrong

---
 src/shim_trace.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/shim_trace.c b/src/shim_trace.c
index 6e9a7c7..d0d43d1 100644
--- a/src/shim_trace.c
+++ b/src/shim_trace.c
@@ -185,7 +185,7 @@ static int trace__file_truncate(EvfsFile *fh, evfs_off_t size) {
   TraceFile *fil = (TraceFile *)fh;
   TraceData *shim_data = fil->shim_data;
 
-  trace_printf(shim_data, TP("%s.m_truncate(" HL_NAME ", size=%ld)"), shim_data->vfs_name, fil->filename, size);
+  trace_printf(shim_data, TP("%s.m_truncate(" HL_NAME ", size=%ld)"), shim_data->vfs_name, fil->filename, (long)size);
   int status = fil->base_file->methods->m_truncate(fil->base_file, size);
   trace_print_result(shim_data, evfs_err_name(status), status);
 
@@ -212,7 +212,7 @@ static evfs_off_t trace__file_size(EvfsFile *fh) {
 
   trace_printf(shim_data, TP("%s.m_size(" HL_NAME ")"), shim_data->vfs_name, fil->filename);
   evfs_off_t size = fil->base_file->methods->m_size(fil->base_file);
-  trace_printf(shim_data, TS(" -> %d"), size);
+  trace_printf(shim_data, TS(" -> %ld"), (long)size);
 
   return size;
 }
@@ -245,7 +245,7 @@ static evfs_off_t trace__file_tell(EvfsFile *fh) {
 
   trace_printf(shim_data, TP("%s.m_tell(" HL_NAME ")"), shim_data->vfs_name, fil->filename);
   evfs_off_t pos = fil->base_file->methods->m_tell(fil->base_file);
-  trace_printf(shim_data, TS(" -> %d"), pos);
+  trace_printf(shim_data, TS(" -> %ld"), (long)pos);
 
   return pos;
 }
-- 
2.43.0


From 36d3bfb319ae115d86c3ef7368b154800a23a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 147/164] fix: printf to a file lost everything after a NUL
 character in the output

---
 src/evfs.c          | 15 ++++++++++-----
 src/evfs_internal.h |  2 +-
 src/shim_trace.c    |  2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index dcae974..d0e5db7 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -1410,13 +1410,14 @@ int evfs_dir_find(EvfsDir *dh, const char *pattern, EvfsInfo *info) {
 Print formatted string to allocated buffer
 
 Args:
-  fmt:  Format string
-  args: Variable argument list
+  fmt:    Format string
+  args:   Variable argument list
+  length: Optional length of the new string. It can contain NUL characters
 
 Returns:
   A new string buffer on success. NULL on failure
 */
-char *evfs__vmprintf(const char *fmt, va_list args) {
+char *evfs__vmprintf(const char *fmt, va_list args, size_t *length) {
   va_list args_check;
 
   // Duplicate args list so we can compute the length of the formatted string
@@ -1432,6 +1433,9 @@ char *evfs__vmprintf(const char *fmt, va_list args) {
   if(buf)
     vsprintf(buf, fmt, args);
 
+  if(buf && length)
+    *length = size - 1;
+
   return buf;
 }
 
@@ -1450,15 +1454,16 @@ Returns:
 int evfs_file_printf(EvfsFile *fh, const char *fmt, ...) {
   va_list args;
   char *buf;
+  size_t length;
 
   // Print into malloc'ed buffer
   va_start(args, fmt);
-  buf = evfs__vmprintf(fmt, args);
+  buf = evfs__vmprintf(fmt, args, &length);
   va_end(args);
 
   int status = EVFS_ERR_ALLOC;
   if(buf) {
-    status = evfs_file_write(fh, buf, strlen(buf));
+    status = evfs_file_write(fh, buf, length);
     evfs_free(buf);
   }
 
diff --git a/src/evfs_internal.h b/src/evfs_internal.h
index 5f78a53..d2ad569 100644
--- a/src/evfs_internal.h
+++ b/src/evfs_internal.h
@@ -156,7 +156,7 @@ void evfs__lib_init(void);  // Called by evfs__init_once()
 
 int evfs__vfs_check_dir(Evfs *vfs, const char *path);
 evfs_off_t evfs__absolute_offset(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin);
-char *evfs__vmprintf(const char *fmt, va_list args);
+char *evfs__vmprintf(const char *fmt, va_list args, size_t *length);
 
 #endif // EVFS_INTERNAL_H
 
diff --git a/src/shim_trace.c b/src/shim_trace.c
index d0d43d1..8a71214 100644
--- a/src/shim_trace.c
+++ b/src/shim_trace.c
@@ -93,7 +93,7 @@ static void trace_printf(TraceData *shim_data, const char *fmt, ...) {
   char *buf;
 
   va_start(args, fmt);
-  buf = evfs__vmprintf(fmt, args);
+  buf = evfs__vmprintf(fmt, args, NULL);
   va_end(args);
   
   if(buf) {
-- 
2.43.0


From de6e08763d1f25ab4728a549472c01ae73c55e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 148/164] fix: Romfs took read errors of the image for the end
 of a directory

---
 src/romfs_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 49ea22e..79fc81c 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -32,8 +32,8 @@ int romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
     return EVFS_ERR_CORRUPTION;
 
   ptrdiff_t buf_len = romfs_read(fs, hdr_pos, hdr, sizeof(*hdr));
-  if(buf_len < 0)
-    return buf_len;
+  if(buf_len < 0) // Don't confuse a failed read with a damaged header or a missing file
+    return (buf_len == EVFS_ERR_CORRUPTION || buf_len == EVFS_ERR_NO_PATH) ? EVFS_ERR_IO : buf_len;
   if(buf_len < ROMFS_MIN_HEADER_SIZE)
     return EVFS_ERR_CORRUPTION;
 
-- 
2.43.0


From 4e566e98e9071d38390a5559dfa0a7455c93f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 149/164] fix: Romfs index overflowed when damaged entries
 became readable after the first scan

---
 src/romfs_common.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 79fc81c..e0f340e 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -433,6 +433,9 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
   key.data = keys_r->start;
   key.length = 0;
 
+  if(prefix_len > range_size(keys_r)) // Image isn't the same as in the first scan
+    return EVFS_ERR_CORRUPTION;
+
   if(prefix_len > 0)
     key.length += range_cat_str(keys_r, &path[1]); // Skip leading '/'
   else
@@ -481,6 +484,9 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
         key.data = keys_r->start;
         key.length = 0;
 
+        if(prefix_len + 1 + strlen(cur_file.file_name) > range_size(keys_r)) // Image isn't the same as in the first scan
+          return EVFS_ERR_CORRUPTION;
+
         if(prefix_len > 0) {
           key.length += range_cat_str(keys_r, &path[1]); // Skip leading '/'
           key.length += range_cat_char(keys_r,'/');
-- 
2.43.0


From 80966336ff45f18079a5485b8617d75edd92b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 150/164] fix: tar index overflowed when damaged entries became
 readable after the first scan

---
 src/tar_fs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 98e6fed..92f46cd 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -235,7 +235,10 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 
     dhKey key;
 
-    tar_header_path(&tar_it->cur_header, path);
+    if(tar_header_path(&tar_it->cur_header, path) + 1 > range_size(&keys_r)) { // Archive isn't the same as in the first scan
+      tarfs__index_hash_free(ht);
+      return EVFS_ERR_CORRUPTION;
+    }
 
     key.data = keys_r.start;
     key.length = range_cat_str(&keys_r, path);
-- 
2.43.0


From 712daffeb508a5bbeed13f0b5b48f61a9767947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 151/164] fix: current directory was truncated without an error
 in short buffers

---
 src/littlefs_fs.c | 4 ++--
 src/romfs_fs.c    | 4 ++--
 src/tar_fs.c      | 4 ++--
 src/tar_rsrc_fs.c | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 4f179e9..3a10b51 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -473,10 +473,10 @@ static int littlefs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   AppendRange r = *(AppendRange *)cur_dir;
 
   evfs__lock(&fs_data->dir_lock);
-  range_cat_str(&r, fs_data->cur_dir);
+  int status = range_cat_str(&r, fs_data->cur_dir) < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
   evfs__unlock(&fs_data->dir_lock);
   range_terminate(&r);
-  return EVFS_OK;
+  return status;
 }
 
 
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index ba0043a..cdbbfc2 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -476,10 +476,10 @@ static int romfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   AppendRange r = *(AppendRange *)cur_dir;
 
   evfs__lock(&fs_data->dir_lock);
-  range_cat_str(&r, fs_data->cur_dir);
+  int status = range_cat_str(&r, fs_data->cur_dir) < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
   evfs__unlock(&fs_data->dir_lock);
   range_terminate(&r);
-  return EVFS_OK;
+  return status;
 }
 
 
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 92f46cd..e187ac6 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -464,10 +464,10 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   AppendRange r = *(AppendRange *)cur_dir;
 
   evfs__lock(&fs_data->dir_lock);
-  range_cat_str(&r, fs_data->cur_dir);
+  int status = range_cat_str(&r, fs_data->cur_dir) < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
   evfs__unlock(&fs_data->dir_lock);
   range_terminate(&r);
-  return EVFS_OK;
+  return status;
 }
 
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index d942958..94c6d96 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -472,10 +472,10 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   AppendRange r = *(AppendRange *)cur_dir;
 
   evfs__lock(&fs_data->dir_lock);
-  range_cat_str(&r, fs_data->cur_dir);
+  int status = range_cat_str(&r, fs_data->cur_dir) < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
   evfs__unlock(&fs_data->dir_lock);
   range_terminate(&r);
-  return EVFS_OK;
+  return status;
 }
 
 
-- 
2.43.0


From d54ebdb7dd682f1bb64de692523d8d0e010600ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 152/164] fix: relative changes of the directory on tar and
 Romfs used paths that are too long

---
 src/romfs_fs.c    | 53 ++++++++++-------------------------------------
 src/tar_fs.c      | 48 ++++++++++--------------------------------
 src/tar_rsrc_fs.c | 48 ++++++++++--------------------------------
 3 files changed, 33 insertions(+), 116 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index cdbbfc2..6641895 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -487,55 +487,24 @@ static int romfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    int err = evfs__vfs_check_dir(vfs, path);
-    if(err != EVFS_OK) return err;
-
-    StringRange cur_dir;
-    range_init(&cur_dir, fs_data->cur_dir, EVFS_MAX_PATH);
-    evfs__lock(&fs_data->dir_lock);
-    int status = evfs_vfs_path_normalize(vfs, path, &cur_dir);
-    evfs__unlock(&fs_data->dir_lock);
+  char *abs_path;
+  int status = make_absolute_path(vfs, path, &abs_path, /*force_malloc*/ true);
+  if(status != EVFS_OK)
     return status;
 
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-
-    size_t joined_size = EVFS_MAX_PATH + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
+  // Confirm the path exists
+  status = evfs__vfs_check_dir(vfs, abs_path);
+  if(status == EVFS_OK && strlen(abs_path) >= COUNT_OF(fs_data->cur_dir))
+    status = EVFS_ERR_TOO_LONG;
 
+  if(status == EVFS_OK) { // Overwrite old cur_dir
     evfs__lock(&fs_data->dir_lock);
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    strcpy(fs_data->cur_dir, abs_path);
     evfs__unlock(&fs_data->dir_lock);
-
-    // We must normalize now because the fast index can't handle denormal paths
-    range_init(&joined, joined_path, joined_size);
-    evfs_vfs_path_normalize(vfs, joined_path, &joined);
-
-    // Confirm the path exists
-    int err = evfs__vfs_check_dir(vfs, joined_path);
-    if(err != EVFS_OK) {
-      evfs_free(joined_path);
-      return err;
-    }
-
-    // Overwrite old cur_dir
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    evfs__lock(&fs_data->dir_lock);
-    range_cat_str((AppendRange *)&head, joined_path);
-    evfs__unlock(&fs_data->dir_lock);
-
-    evfs_free(joined_path);
   }
 
-  return EVFS_OK;
+  evfs_free(abs_path);
+  return status;
 }
 
 
diff --git a/src/tar_fs.c b/src/tar_fs.c
index e187ac6..1cd20e2 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -475,50 +475,24 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    int err = evfs__vfs_check_dir(vfs, path);
-    if(err != EVFS_OK) return err;
-  
-    StringRange cur_dir;
-    range_init(&cur_dir, fs_data->cur_dir, EVFS_MAX_PATH);
-    evfs__lock(&fs_data->dir_lock);
-    int status = evfs_vfs_path_normalize(vfs, path, &cur_dir);
-    evfs__unlock(&fs_data->dir_lock);
+  char *abs_path;
+  int status = make_absolute_path(vfs, path, &abs_path, /*force_malloc*/ true);
+  if(status != EVFS_OK)
     return status;
 
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = EVFS_MAX_PATH + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
+  // Confirm the path exists
+  status = evfs__vfs_check_dir(vfs, abs_path);
+  if(status == EVFS_OK && strlen(abs_path) >= COUNT_OF(fs_data->cur_dir))
+    status = EVFS_ERR_TOO_LONG;
 
+  if(status == EVFS_OK) { // Overwrite old cur_dir
     evfs__lock(&fs_data->dir_lock);
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    strcpy(fs_data->cur_dir, abs_path);
     evfs__unlock(&fs_data->dir_lock);
-
-    // Confirm the path exists
-    int err = evfs__vfs_check_dir(vfs, joined_path);
-    if(err != EVFS_OK) {
-      evfs_free(joined_path);
-      return err;
-    }
-
-    // Overwrite old cur_dir
-    evfs__lock(&fs_data->dir_lock);
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
-    evfs__unlock(&fs_data->dir_lock);
-
-    evfs_free(joined_path);
   }
 
-  return EVFS_OK;
+  evfs_free(abs_path);
+  return status;
 }
 
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 94c6d96..8a5189d 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -483,50 +483,24 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    int err = evfs__vfs_check_dir(vfs, path);
-    if(err != EVFS_OK) return err;
-  
-    StringRange cur_dir;
-    range_init(&cur_dir, fs_data->cur_dir, EVFS_MAX_PATH);
-    evfs__lock(&fs_data->dir_lock);
-    int status = evfs_vfs_path_normalize(vfs, path, &cur_dir);
-    evfs__unlock(&fs_data->dir_lock);
+  char *abs_path;
+  int status = make_absolute_path(vfs, path, &abs_path, /*force_malloc*/ true);
+  if(status != EVFS_OK)
     return status;
 
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = EVFS_MAX_PATH + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
+  // Confirm the path exists
+  status = evfs__vfs_check_dir(vfs, abs_path);
+  if(status == EVFS_OK && strlen(abs_path) >= COUNT_OF(fs_data->cur_dir))
+    status = EVFS_ERR_TOO_LONG;
 
+  if(status == EVFS_OK) { // Overwrite old cur_dir
     evfs__lock(&fs_data->dir_lock);
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    strcpy(fs_data->cur_dir, abs_path);
     evfs__unlock(&fs_data->dir_lock);
-
-    // Confirm the path exists
-    int err = evfs__vfs_check_dir(vfs, joined_path);
-    if(err != EVFS_OK) {
-      evfs_free(joined_path);
-      return err;
-    }
-
-    // Overwrite old cur_dir
-    evfs__lock(&fs_data->dir_lock);
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
-    evfs__unlock(&fs_data->dir_lock);
-
-    evfs_free(joined_path);
   }
 
-  return EVFS_OK;
+  evfs_free(abs_path);
+  return status;
 }
 
 
-- 
2.43.0


From 0dc120d60952c5c2e7071aafb49bf7c7a01327cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 153/164] fix: FatFs wrote before empty buffers for the current
 directory

---
 src/fatfs_fs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index cb61054..5c8a128 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -486,6 +486,9 @@ static int fatfs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 static int fatfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   FatfsData *fs_data = (FatfsData *)vfs->fs_data;
 
+  if(range_size(cur_dir) <= 0) // f_getcwd() needs space for a NUL
+    return EVFS_ERR_OVERFLOW;
+
   select_volume(fs_data);
   FRESULT status = f_getcwd((char *)cur_dir->start, range_size(cur_dir));
   return translate_error(status);
-- 
2.43.0


From 4d8e279dcec9fcd6bd1f592f396e28eb8bef4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 154/164] fix: Romfs index never ended when an entry became
 part of a cyclic list after the first scan

---
 src/romfs_common.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index e0f340e..a579ce4 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -419,7 +419,8 @@ static int scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, evfs_of
 
 
 // Recursively scan the filesystem to add hash table indices
-static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsIndex *ht, AppendRange *keys_r) {
+static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, evfs_off_t *total_files, RomfsIndex *ht,
+                          AppendRange *keys_r) {
   RomfsFileHead cur_file;
   evfs_off_t    cur_file_offset = 0;
   int status;
@@ -450,6 +451,9 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
   do {
     if(status == EVFS_OK) {
       //DPRINT("  '%s'", cur_file.file_name);
+      if(--(*total_files) < 0) // Image isn't the same as in the first scan
+        return EVFS_ERR_CORRUPTION;
+
       if(is_dot_entry(&cur_file)) {
         status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
         continue;
@@ -474,7 +478,7 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
 
         //DPRINT("SUB PATH: '%s'", sub_path);
 
-        status = index_dir_tree(fs, sub_path, new_prefix_len, ht, keys_r);
+        status = index_dir_tree(fs, sub_path, new_prefix_len, total_files, ht, keys_r);
         free(sub_path);
         if(status != EVFS_OK)
           return status;
@@ -530,7 +534,7 @@ static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
     AppendRange keys_r;
     range_init(&keys_r, ht->keys, total_path_len);
 
-    status = index_dir_tree(fs, "", 0, ht, &keys_r);
+    status = index_dir_tree(fs, "", 0, &total_files, ht, &keys_r);
     //dump_array((uint8_t *)ht->keys, total_path_len);
 
     if(status == EVFS_OK)
-- 
2.43.0


From 3f9b41edfc0cfce302f496ef11cebb71da90a8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 155/164] fix: range_terminate() wrote before empty ranges

---
 src/util/range_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index b98470d..6cf67de 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -774,7 +774,7 @@ void range_terminate(AppendRange *rng) {
   size_t maxlen = range_size(rng);
   size_t rlen = strnlen(rng->start, maxlen);
 
-  if(rlen == maxlen) { // No NUL found
+  if(rlen == maxlen && maxlen > 0) { // No NUL found
     *(rng->end-1) = '\0';
   }
 }
-- 
2.43.0


From e4a351678c9c61f60afa0ce029d846e0cb7283a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 156/164] fix: keep the position of a rotated file within its
 size when truncating it fails half way

---
 src/shim_rotate.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index cbd87cc..93f09f3 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1168,17 +1168,20 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     if(delete_bytes > 0 && status == EVFS_OK) {
       // Truncate new end chunk
       status = activate_chunk(base_vfs, &rs->base, rs->end_chunk);
-      if(status != EVFS_OK) return status;
 
-      chunk_size = evfs_file_size(rs->base.active_chunk_fh);
-      if(chunk_size < 0) return chunk_size;
-
-      // We should already have handled full chunks above and only
-      // have a portion less than chunk_size left to truncate.
-      if(ASSERT(delete_bytes < chunk_size, "Truncation error; Excess remainder"))
-        return EVFS_ERR_CORRUPTION;
+      if(status == EVFS_OK) {
+        chunk_size = evfs_file_size(rs->base.active_chunk_fh);
+
+        // We should already have handled full chunks above and only
+        // have a portion less than chunk_size left to truncate.
+        if(chunk_size < 0)
+          status = chunk_size;
+        else if(ASSERT(delete_bytes < chunk_size, "Truncation error; Excess remainder"))
+          status = EVFS_ERR_CORRUPTION;
+        else
+          status = evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
+      }
 
-      status = evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
       if(status == EVFS_OK)
         rs->base.total_size -= delete_bytes;
     }
-- 
2.43.0


From d80af9fd67f2b21acf972d69c1bb58934ccfd06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 157/164] fix: range_copy_str() wrote to empty ranges

---
 src/util/range_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 6cf67de..7470459 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -211,7 +211,7 @@ int range_copy_str(AppendRange *rng, const char *str, bool truncate) {
       *dest = '\0';
       rval = -(rval-1);
     } else {
-      if(rng->start)
+      if(rng->start < rng->end)
         *rng->start = '\0'; // Wipe partial string
       rval = -(rval + strlen(src)); // Add uncopied bytes
     }
-- 
2.43.0


From af03ad48edb13f1f3554710524446a2fac934efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 158/164] fix: normalizing a path wrote to empty buffers

---
 src/evfs_path.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 7dda25c..d6a8be8 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -368,7 +368,10 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
   }
 
   // Add NUL
-  *norm_r.start = '\0';
+  if(norm_r.start < norm_r.end)
+    *norm_r.start = '\0';
+  else // Empty buffer
+    truncated = true;
 
   if(truncated)
     THROW(EVFS_ERR_OVERFLOW);
@@ -464,7 +467,10 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
   }
 
   // Add NUL
-  *normalized->start = '\0';
+  if(normalized->start < normalized->end)
+    *normalized->start = '\0';
+  else // Empty buffer
+    truncated = true;
 
   evfs_free(tok_stack);
 
-- 
2.43.0


From b8f3e19ab64736133d42122bb9148e6d8cd45889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:59 +0000
Subject: [PATCH 159/164] fix: a failed directory read ended host listings
 early

---
 src/stdio_fs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 531adc0..55bc247 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -259,6 +259,7 @@ static int stdio__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   struct dirent *posix_entry;
 
+  errno = 0; // Only changed by failed reads
   posix_entry = readdir(dir->dp);
 
   // Skip over dir dots if configured
@@ -276,6 +277,8 @@ static int stdio__dir_read(EvfsDir *dh, EvfsInfo *info) {
        info->type |= EVFS_FILE_DIR;
   } else {
     info->name = NULL;
+    if(errno != 0)
+      return translate_error(errno);
   }
 
   return posix_entry ? EVFS_OK : EVFS_DONE;
-- 
2.43.0


From 1276d5ca114087010db5659b5859484dbd07d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 160/164] fix: calls with a missing argument crashed

---
 src/evfs.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/evfs.c b/src/evfs.c
index d0e5db7..99758fe 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -517,6 +517,8 @@ Returns:
   EVFS_OK on success
 */
 int evfs_vfs_open(Evfs *vfs, const char *path, EvfsFile **fh, int flags) {
+  if(PTR_CHECK(vfs) || PTR_CHECK(path) || PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
+
   *fh = (EvfsFile *)evfs_malloc(vfs->vfs_file_size);
   if(MEM_CHECK(*fh)) return EVFS_ERR_ALLOC;
 
@@ -802,6 +804,8 @@ Returns:
   EVFS_OK on success
 */
 int evfs_vfs_open_dir(Evfs *vfs, const char *path, EvfsDir **dh) {
+  if(PTR_CHECK(vfs) || PTR_CHECK(path) || PTR_CHECK(dh)) return EVFS_ERR_BAD_ARG;
+
   if(vfs->m_open_dir == default__open_dir) return EVFS_ERR_NO_SUPPORT; // Avoid wasted malloc()
 
 
@@ -1137,7 +1141,7 @@ Returns:
   true if path is absolute
 */
 bool evfs_vfs_path_is_absolute(Evfs *vfs, const char *path) {
-  if(PTR_CHECK(path)) return false;
+  if(PTR_CHECK(vfs) || PTR_CHECK(path)) return false;
 
   StringRange root;
   return vfs->m_path_root_component(vfs, path, &root);
@@ -1161,6 +1165,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_file_ctrl(EvfsFile *fh, int cmd, void *arg) {
+  if(PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
   return fh->methods->m_ctrl(fh, cmd, arg);
 }
 
@@ -1452,6 +1457,8 @@ Returns:
   Number of bytes written on success or negative error code on failure
 */
 int evfs_file_printf(EvfsFile *fh, const char *fmt, ...) {
+  if(PTR_CHECK(fh) || PTR_CHECK(fmt)) return EVFS_ERR_BAD_ARG;
+
   va_list args;
   char *buf;
   size_t length;
@@ -1482,6 +1489,7 @@ Returns:
   Number of bytes written on success or negative error code on failure
 */
 int evfs_file_puts(EvfsFile *fh, const char *str) {
+  if(PTR_CHECK(fh) || PTR_CHECK(str)) return EVFS_ERR_BAD_ARG;
   return evfs_file_write(fh, str, strlen(str));
 }
 
-- 
2.43.0


From 77fbfdeabf7352acbf69d2bf866ecb73a269b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 161/164] fix: joining or scanning paths with a missing
 argument crashed

---
 src/evfs_path.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index d6a8be8..59461c1 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -172,6 +172,8 @@ int evfs_vfs_path_dirname(Evfs *vfs, const char *path, StringRange *head) {
 
 
 int evfs_vfs_path_join_str(Evfs *vfs, const char *head, const char *tail, StringRange *joined) {
+  if(PTR_CHECK(vfs) || PTR_CHECK(head) || PTR_CHECK(tail) || PTR_CHECK(joined)) return EVFS_ERR_BAD_ARG;
+
   StringRange head_r, tail_r;
   range_init(&head_r, head, strlen(head));
   range_init(&tail_r, tail, strlen(tail));
@@ -711,6 +713,8 @@ static int path_absolute_from_rel_overlap(Evfs *vfs, const char *path, StringRan
 
 
 int evfs_vfs_scan_path(Evfs *vfs, const char *path, StringRange *element) {
+  if(PTR_CHECK(vfs) || PTR_CHECK(element)) return EVFS_ERR_BAD_ARG;
+
   bool new_tok;
 
   if(path) {
-- 
2.43.0


From 223639c361c09a00da69fb274a5d55c515720cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 162/164] fix: registering a jail without a root crashed

---
 src/shim_jail.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index 0a7bf71..f9d22de 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -490,7 +490,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const char *jail_root, bool default_vfs) {
-  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name) || PTR_CHECK(jail_root)) return EVFS_ERR_BAD_ARG;
 
   Evfs *base_vfs, *shim_vfs;
   JailData *shim_data;
-- 
2.43.0


From 85910dd6ba253f7d401c6761d85915121096f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 163/164] fix: registering a rotate shim without settings
 crashed

---
 src/shim_rotate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 93f09f3..912edd8 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1569,7 +1569,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_register_rotate(const char *vfs_name, const char *old_vfs_name, RotateConfig *cfg, bool default_vfs) {
-  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name) || PTR_CHECK(cfg)) return EVFS_ERR_BAD_ARG;
 
   Evfs *base_vfs, *shim_vfs;
   RotateData *shim_data;
-- 
2.43.0


From 7b18a0cae4abb8cddefd0b54ab28376aa3a61849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 164/164] fix: mounting a littlefs image with a missing
 argument crashed

---
 src/littlefs_image.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index 0473ec7..ba51c31 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -97,6 +97,8 @@ Returns:
   EVFS_OK on success
 */
 int littlefs_mount_image(const char *img_path, struct lfs_config *cfg, lfs_t *lfs) {
+  if(PTR_CHECK(img_path) || PTR_CHECK(cfg) || PTR_CHECK(lfs)) return EVFS_ERR_BAD_ARG;
+
   LittlefsImage *img = (LittlefsImage *)cfg->context;
 
   // Open the image
-- 
2.43.0

