From bc557da554528928429e68c14caa32f557d822a7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 12:24:52 +0000
Subject: [PATCH 01/22] fix: initialise last index when copying an empty
 posting list

int_list_reader_copy() stored an uninitialised variable as the list's
highest entry when the list being copied was empty (common for the
Message-Id-only chain of tokens that only occur in References).
---
 reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.c b/reader.c
index d04a75e..d7b91ea 100644
--- a/reader.c
+++ b/reader.c
@@ -89,7 +89,7 @@ int int_list_reader_read(struct int_list_reader *ilr, int *result) {
 
 void int_list_reader_copy(struct int_list_reader *ilr, struct matches *out) {
   const unsigned char *base = ilr->pos;
-  int size, index;
+  int size, index = 0;
   while (int_list_reader_read(ilr, &index));
   size = ilr->pos - base;
 
-- 
2.43.0


From 43eca40270c0fbdc985331e67e92ec8c4e1b04c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:25 +0000
Subject: [PATCH 02/22] fix: allow path searches on databases containing IMAP
 messages

---
 search.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search.c b/search.c
index 27b02b8..a976d32 100644
--- a/search.c
+++ b/search.c
@@ -308,6 +308,7 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
     unsigned int mbix, msgix;
     switch (rd_msg_type(db, i)) {
       case DB_MSG_FILE:
+      case DB_MSG_IMAP:
         token = db->data + db->path_offsets[i];
         break;
       case DB_MSG_MBOX:
-- 
2.43.0


From f921bf8ff2b11d29dea1511e888acb300a683554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:25 +0000
Subject: [PATCH 03/22] fix: combine path matches with other parts searched in
 the same term

---
 search.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/search.c b/search.c
index a976d32..6aefd76 100644
--- a/search.c
+++ b/search.c
@@ -326,19 +326,19 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
       /* Optimise common cases for few errors to allow optimizer to keep bitmaps
        * in registers */
       case 0:
-        hits[i] = substring_match_0(a, hit, left_anchor, token);
+        hits[i] |= substring_match_0(a, hit, left_anchor, token);
         break;
       case 1:
-        hits[i] = substring_match_1(a, hit, left_anchor, token);
+        hits[i] |= substring_match_1(a, hit, left_anchor, token);
         break;
       case 2:
-        hits[i] = substring_match_2(a, hit, left_anchor, token);
+        hits[i] |= substring_match_2(a, hit, left_anchor, token);
         break;
       case 3:
-        hits[i] = substring_match_3(a, hit, left_anchor, token);
+        hits[i] |= substring_match_3(a, hit, left_anchor, token);
         break;
       default:
-        hits[i] = substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
+        hits[i] |= substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
         break;
     }
 next_message:
-- 
2.43.0


From 770158e131e2282d6a9ff8791568454f8fd686ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:25 +0000
Subject: [PATCH 04/22] fix: don't crash on oversized error counts in substring
 searches

---
 search.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search.c b/search.c
index 6aefd76..8cf817f 100644
--- a/search.c
+++ b/search.c
@@ -986,6 +986,8 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
       if (equal && (equal[1] == '\0' || isdigit(equal[1]))) {
         *equal = 0;
         max_errors = atoi(equal + 1);
+        /* Patterns have at most 31 characters, more errors than that change nothing */
+        if (max_errors < 0 || max_errors > 31) max_errors = 31;
         /* Extend this to do anchoring etc */
       } else {
         equal = NULL;
-- 
2.43.0


From a9d4295f0d912bd7e5b2dc23f67bd6f43a74514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:33 +0000
Subject: [PATCH 05/22] fix: don't overflow when scaling relative dates

---
 dates.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dates.c b/dates.c
index e2bbf31..efcbb4c 100644
--- a/dates.c
+++ b/dates.c
@@ -125,7 +125,7 @@ static int scan_date_expr(char *first, char *last, struct tm *start, struct tm *
   type = discover_type(first, last);
 
   if (type == DS_SCALED) {/*{{{*/
-    int v;
+    time_t v;
     char *p;
     time_t then;
 
@@ -133,6 +133,7 @@ static int scan_date_expr(char *first, char *last, struct tm *start, struct tm *
     v = 0;
     while (isdigit(*p)) {
       v = (v*10) + (*p - '0');
+      if (v > 99999) v = 99999; /* longer than any mail archive */
       p++;
     }
     switch(*p) {
-- 
2.43.0


From 62ea5251fe3b3abfe47e5c206eae0b928b996242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:34 +0000
Subject: [PATCH 06/22] fix: February has 28 days in 1900 and 2100

---
 dates.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dates.c b/dates.c
index efcbb4c..ef53377 100644
--- a/dates.c
+++ b/dates.c
@@ -86,9 +86,7 @@ static int last_day(int mon, int y) {/*{{{*/
   if (mon != 1) {
     return days[mon];
   } else {
-    /* Because 2000 was a leap year, we don't have to bother about the %100
-     * rule, at least not in this range of dates. */
-    if ((y % 4) == 0) {
+    if (((y % 4) == 0) && (((y % 100) != 0) || ((y % 400) == 100))) {
       return 29;
     } else {
       return 28;
-- 
2.43.0


From c001812fa764af66f2e5ba4bee36f49c44063489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:34 +0000
Subject: [PATCH 07/22] fix: include the first day of the period in d:period
 searches

---
 dates.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dates.c b/dates.c
index ef53377..6c1a625 100644
--- a/dates.c
+++ b/dates.c
@@ -347,7 +347,9 @@ int scan_date_string(char *in, time_t *start, int *has_start, time_t *end, int *
     *has_start = *has_end = 1;
     status = scan_date_expr(in, nullchar, &start_tm, &end_tm);
     if (status) return status;
-    *start = mktime(&start_tm);
+    /* Messages are dated 00:00:00 and the start of the range is exclusive:
+     * make the range include the first day of the period. */
+    *start = mktime(&start_tm) - 1;
     *end = mktime(&end_tm);
     return 0;
   } else {
-- 
2.43.0


From c609a6c1c423f45a9cfb45339656138dd4a9c8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:19 +0000
Subject: [PATCH 08/22] fix: don't overflow when scaling sizes in z: searches

---
 search.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/search.c b/search.c
index 8cf817f..34f38b7 100644
--- a/search.c
+++ b/search.c
@@ -32,6 +32,7 @@
 #include <assert.h>
 #include <dirent.h>
 #include <errno.h>
+#include <limits.h>
 
 /* Lame fix for systems where NAME_MAX isn't defined after including the above
  * set of .h files (Solaris, FreeBSD so far).  Probably grossly oversized but
@@ -381,25 +382,29 @@ static void match_string_in_table2(struct read_db *db, struct toktable2_db *tt,
 /*}}}*/
 static int parse_size_expr(char *x)/*{{{*/
 {
-  int result;
+  long result;
+  long scale = 1;
   int n;
 
-  if (1 == sscanf(x, "%d%n", &result, &n)) {
+  if (1 == sscanf(x, "%ld%n", &result, &n)) {
     x += n;
     switch (*x) {
       case 'k':
       case 'K':
-        result <<= 10;
+        scale = 1024;
         break;
       case 'm':
       case 'M':
-        result <<= 20;
+        scale = 1024 * 1024;
         break;
       default:
         break;
     }
 
-    return result;
+    /* No message is that large */
+    if (result > INT_MAX / scale) return INT_MAX;
+    if (result < INT_MIN / scale) return INT_MIN;
+    return result * scale;
   } else {
     fprintf(stderr, "Could not parse message size expression <%s>\n", x);
     return -1;
-- 
2.43.0


From f41b9fbdddbfe69f9e9413d2fac17b434e59b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:19 +0000
Subject: [PATCH 09/22] fix: sort results correctly when dates are more than
 2^31 seconds apart

---
 search.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 34f38b7..d992670 100644
--- a/search.c
+++ b/search.c
@@ -798,7 +798,8 @@ static int db_date_cmp(const void *va, const void *vb)
   const int *ap = (const int *) va;
   const int *bp = (const int *) vb;
 
-  return qsortdb->date_table[*ap] - qsortdb->date_table[*bp];
+  if (qsortdb->date_table[*ap] < qsortdb->date_table[*bp]) return -1;
+  return qsortdb->date_table[*ap] > qsortdb->date_table[*bp];
 }
 
 static int do_search(struct read_db *db, char **args, char *output_path, int show_threads, enum folder_type ft, int verbose, const char *imap_pipe, const char *imap_server, const char *imap_username, const char *imap_password, int please_clear, int sort_by_date)/*{{{*/
-- 
2.43.0


From 4f3fb2114034d02dd4a61300b8a34e88cd45fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:19 +0000
Subject: [PATCH 10/22] fix: rescan messages whose size has changed

---
 db.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db.c b/db.c
index 3b37ace..74001ec 100644
--- a/db.c
+++ b/db.c
@@ -942,7 +942,8 @@ int update_database(struct database *db, struct msgpath *sorted_paths, int n_msg
           } else {
             switch (do_stat(sorted_paths + matched_index)) {
               case STAT_RESULT_FILE:
-                if (sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime) {
+                if ((sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime) &&
+                    ((unsigned int) sorted_paths[matched_index].src.mpf.size == (unsigned int) db->msgs[i].src.mpf.size)) {
                   /* Treat stale files as though the path has changed. */
                   file_in_db[matched_index] = 1;
                   file_in_new_list[i] = 1;
-- 
2.43.0


From 44ddd7593fdd1472c4431222c42390df01bf7e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:20 +0000
Subject: [PATCH 11/22] fix: don't let dead messages pull their threads into
 the results

---
 search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.c b/search.c
index d992670..999bfee 100644
--- a/search.c
+++ b/search.c
@@ -1066,7 +1066,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
     tids = new_array(char, db->n_msgs);
     memset(tids, 0, db->n_msgs);
     for (i=0; i<db->n_msgs; i++) {
-      if (hit3[i]) {
+      if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD) {
         tids[db->tid_table[i]] = 1;
       }
     }
-- 
2.43.0


From 561a7f4b4102f58ba999c7b2fe3b630fc9e811ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:20 +0000
Subject: [PATCH 12/22] fix: honour MAIRIX_MAILDIR_FOLDERS

---
 mairix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index dfef26b..2a0573a 100644
--- a/mairix.c
+++ b/mairix.c
@@ -647,7 +647,7 @@ int main (int argc, char **argv)/*{{{*/
   }
 
   if (getenv("MAIRIX_MAILDIR_FOLDERS")) {
-    maildir_folders = getenv("MAIRIX_MAIDIR_FOLDERS");
+    maildir_folders = getenv("MAIRIX_MAILDIR_FOLDERS");
   }
 
   if (getenv("MAIRIX_MH_FOLDERS")) {
-- 
2.43.0


From c86cef70bfcb1a979d8576cd03e1bd97d5024c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:31 +0000
Subject: [PATCH 13/22] fix: decode uuencoded parts, and don't read or write
 beyond their end

---
 rfc822.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index c3dcdfb..1bce1bf 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -551,10 +551,13 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
         p = result;
         while (q < end_input) { /* process line */
 #define DEC(c) (((c) - ' ') & 077)
-          int len = DEC(*q++);
+          int len;
+          if (++q >= end_input) /* skip the newline before it */
+            break;
+          len = DEC(*q++);
           if (len == 0)
             break;
-          for (; len > 0; q += 4, len -= 3) {
+          for (; len > 0 && end_input - q >= 4; q += 4, len -= 3) {
             if (len >= 3) {
               *p++ = DEC(q[0]) << 2 | DEC(q[1]) >> 4;
               *p++ = DEC(q[1]) << 4 | DEC(q[2]) >> 2;
-- 
2.43.0


From c0756dbd26a6bf7550fc9446752846c987029d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:31 +0000
Subject: [PATCH 14/22] fix: don't read beyond the end of quoted-printable data

---
 rfc822.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 1bce1bf..59de520 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -436,18 +436,14 @@ static void parse_content_type(struct nvp *ct_nvp, struct content_type_header *r
 }
 
 /*}}}*/
-static char *looking_at_ws_then_newline(char *start)/*{{{*/
+static char *looking_at_ws_then_newline(char *start, char *end)/*{{{*/
 {
   char *result;
-  result = start;
-  do {
+  for (result = start; result < end; result++) {
          if (*result == '\n')   return result;
     else if (!isspace(*(unsigned char *) result)) return NULL;
-    else                        result++;
-  } while (1);
-
-  /* Can't get here */
-  assert(0);
+  }
+  return NULL;
 }
 /*}}}*/
 
@@ -488,12 +484,13 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
             char *r;
             int val;
             q++;
-            r = looking_at_ws_then_newline(q);
+            r = looking_at_ws_then_newline(q, end_input);
             if (r) {
               q = r + 1; /* Point into next line */
               continue;
             }
             /* not that case. */
+            if (end_input - q < 2) break; /* cut off */
             val =  hex_to_val(*q++) << 4;
             val += hex_to_val(*q++);
             *p++ = val;
-- 
2.43.0


From ccc89fe7fef455dc37fc69a59edba382357fce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:03 +0000
Subject: [PATCH 15/22] fix: refuse to run when the database's lock file exists
 but can't be read

---
 dotlock.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dotlock.c b/dotlock.c
index a5b4ead..10515af 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -25,6 +25,7 @@
 #include <sys/types.h>
 #include <pwd.h>
 #include <unistd.h>
+#include <errno.h>
 
 static char *lock_file_name = NULL;
 
@@ -73,6 +74,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   fclose(out);
 
   if (link(tname, lock_file_name) < 0) {
+    int already_exists = (errno == EEXIST);
     /* check if link count==2 */
     if (stat(tname, &sb) < 0) {
       fprintf(stderr, "Could not stat the lock file\n");
@@ -82,10 +84,12 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
       if (sb.st_nlink != 2) {
         FILE *in;
         in = fopen(lock_file_name, "r");
-        if (in) {
+        if (in || already_exists) {
           char line[2048];
-          fgets(line, sizeof(line), in);
-          line[strlen(line)-1] = 0; /* strip trailing newline */
+          line[0] = 0;
+          if (in && fgets(line, sizeof(line), in)) {
+            line[strcspn(line, "\n")] = 0; /* strip trailing newline */
+          }
           fprintf(stderr, "Database %s appears to be locked by (pid,node,user)=(%s)\n", path, line);
           unlink(tname);
           exit(1);
-- 
2.43.0


From 435adf871adf3e7fba764cff158073d28c6192f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:03 +0000
Subject: [PATCH 16/22] fix: don't remove another process's lock when
 interrupted before locking

---
 dotlock.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dotlock.c b/dotlock.c
index 10515af..7ccccc3 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -28,6 +28,7 @@
 #include <errno.h>
 
 static char *lock_file_name = NULL;
+static int lock_held = 0; /* set once the lock file is known to be ours */
 
 /* This locking code was originally written for tdl */
 
@@ -56,7 +57,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   sprintf(lock_file_name, "%s.lock", path);
 
   if (forced_unlock) {
-    unlock_database();
+    unlink(lock_file_name);
     forced_unlock = 0;
   }
 
@@ -101,6 +102,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   } else {
     /* lock succeeded apparently */
   }
+  lock_held = 1;
   unlink(tname);
   free(tname);
   return;
@@ -108,7 +110,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
 /*}}}*/
 void unlock_database(void)/*{{{*/
 {
-  if (lock_file_name) unlink(lock_file_name);
+  if (lock_held) unlink(lock_file_name);
   return;
 }
 /*}}}*/
-- 
2.43.0


From 5e3c7cb803877b373116e1ae73d5f057dda38e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:03 +0000
Subject: [PATCH 17/22] fix: don't overwrite mail through symlinks in the match
 folder

---
 search.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/search.c b/search.c
index 999bfee..688868c 100644
--- a/search.c
+++ b/search.c
@@ -668,7 +668,7 @@ static void append_data_to_mbox(const char *data, size_t len, void *arg)/*{{{*/
 static void write_to_file(const char *data, size_t len, void *arg)/*{{{*/
 {
   FILE *fp;
-  if (!(fp = fopen((char *)arg, "w"))) {
+  if (!(fp = fopen((char *)arg, "wx"))) {
     fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", (char *)arg, strerror(errno));
     return;
   }
@@ -751,7 +751,9 @@ static void try_copy_to_path(struct read_db *db, int msg_index, char *target_pat
   get_validated_mbox_msg(db, msg_index, &mbi, &data, &mbox_len, &start, &msg_len);
 
   if (start) {
-    out = fopen(target_path, "wb");
+    /* "x" : never write through a symlink left by an earlier search, that would
+     * overwrite the message it points at */
+    out = fopen(target_path, "wbx");
     if (out) {
       fprintf(out, "X-source-folder: %s\n",
               db->data + db->mbox_paths_table[mbi]);
-- 
2.43.0


From 3d5ec812319bb4043c6b679810c71f3c1762f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 18/22] fix: number new matches after those kept by -a in MH
 match folders

---
 search.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/search.c b/search.c
index 688868c..ffc22ae 100644
--- a/search.c
+++ b/search.c
@@ -600,6 +600,26 @@ static char *mk_mh_path(int token, char *output_dir)/*{{{*/
   return result;
 }
 /*}}}*/
+static int last_mh_number(char *output_dir)/*{{{*/
+{
+  /* Number of the last message already in the folder (-a keeps old matches) */
+  int result = 0;
+  DIR *d;
+  struct dirent *de;
+
+  d = opendir(output_dir);
+  if (d) {
+    while ((de = readdir(d))) {
+      if (valid_mh_filename_p(de->d_name)) {
+        long x = strtol(de->d_name, NULL, 10);
+        if ((x > result) && (x < 1000000000)) result = x;
+      }
+    }
+    closedir(d);
+  }
+  return result;
+}
+/*}}}*/
 static int looks_like_maildir_new_p(const char *p)/*{{{*/
 {
   const char *s1, *s2;
@@ -815,7 +835,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
   char *hit0, *hit1, *hit2, *hit3;
   int i;
   int ii;
-  int n_hits;
+  int n_hits, first_mh;
   int left_anchor;
   int imap_tried = 0;
   struct imap_ll *imapc;
@@ -1131,19 +1151,20 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
       break;
 /*}}}*/
     case FT_MH:/*{{{*/
+      first_mh = last_mh_number(output_path);
       for (ii=0; ii<n_hits; ii++) {
         i = results[ii];
         switch (rd_msg_type(db, i)) {
           case DB_MSG_FILE:
             {
-              char *target_path = mk_mh_path(ii, output_path);
+              char *target_path = mk_mh_path(first_mh + ii, output_path);
               create_symlink(db->data + db->path_offsets[i], target_path);
               free(target_path);
             }
             break;
           case DB_MSG_IMAP:
             {
-              char *target_path = mk_mh_path(ii, output_path);
+              char *target_path = mk_mh_path(first_mh + ii, output_path);
               GET_IMAP;
               if (imapc) imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, write_to_file, target_path);
               free(target_path);
@@ -1151,7 +1172,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
             break;
           case DB_MSG_MBOX:
             {
-              char *target_path = mk_mh_path(ii, output_path);
+              char *target_path = mk_mh_path(first_mh + ii, output_path);
               try_copy_to_path(db, i, target_path);
               free(target_path);
             }
-- 
2.43.0


From f673f6f835a99b1c4159c1e378232219a46d06d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 19/22] fix: don't read beyond the end of a pattern with an
 unterminated [

---
 glob.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glob.c b/glob.c
index 67f423e..aca24bd 100644
--- a/glob.c
+++ b/glob.c
@@ -119,6 +119,7 @@ struct globber *make_globber(const char *wildstring)/*{{{*/
 /*}}}*/
       case '[':/*{{{*/
         p = parse_charclass(p, result, mask);
+        if (!*p) p--; /* no closing ] : don't run off the end */
         n++;
         break;
 /*}}}*/
-- 
2.43.0


From c615730277bd048ddfd9aa738afa160d20b61132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:12 +0000
Subject: [PATCH 20/22] fix: don't unmap cached compressed mboxes that are
 still in use

---
 rfc822.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rfc822.c b/rfc822.c
index 59de520..caf3e32 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1331,6 +1331,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
 
     ro = find_ro_cache(filename, NULL);
     if (ro) {
+      data_alloc_type = ALLOC_NONE; /* stays in the cache */
       *data = ro->map;
       *len = ro->len;
       return;
-- 
2.43.0


From 51e369a56034ee5015b0e94fc8db43be3d31770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:12 +0000
Subject: [PATCH 21/22] fix: set the length when a file to be mapped can't be
 examined

---
 rfc822.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rfc822.c b/rfc822.c
index caf3e32..c11de9c 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1319,6 +1319,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
   {
     report_error("stat", filename);
     *data = NULL;
+    *len = 0;
     return;
   }
 
-- 
2.43.0


From 3ec8c84f3cf67b8fd436029776ccb511c4c8c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:20 +0000
Subject: [PATCH 22/22] fix: list wildcard folders directly below the root
 directory

---
 mbox.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbox.c b/mbox.c
index 49e973a..55b7794 100644
--- a/mbox.c
+++ b/mbox.c
@@ -628,7 +628,8 @@ static void handle_wild(char *path, int base_len, char *last_comp, struct string
     xpath = new_array(char, 3 + NAME_MAX);
   }
 
-  d = opendir(temp_path);
+  /* The parent of a wildcard directly below the root is the root itself. */
+  d = opendir(*temp_path ? temp_path : "/");
   had_matches = 0;
   if (d) {
     while ((de = readdir(d))) {
-- 
2.43.0

