From c16da3eba88998e34b1e1c4a03be0ab99390eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 001/133] fix: don't truncate a sequencer file just created by
 another process

---
 src/common/sequencer.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/common/sequencer.c b/src/common/sequencer.c
index 22ee9d6..ad4bac3 100644
--- a/src/common/sequencer.c
+++ b/src/common/sequencer.c
@@ -31,6 +31,25 @@
 
 #include "fidogate.h"
 
+#include <fcntl.h>
+
+/*
+ * Create sequencer file. If another process creates it at the same time,
+ * its number must not be lost, so the file isn't truncated.
+ */
+static FILE *create_seq(char *name)
+{
+    FILE *fp;
+    int fd;
+
+    if ((fd = open(name, O_RDWR | O_CREAT, 0666)) == ERROR)
+        return NULL;
+    if ((fp = fdopen(fd, RP_MODE)) == NULL)
+        close(fd);
+
+    return fp;
+}
+
 /*
  * Sequencer: read number from file and increment it
  */
@@ -49,12 +68,12 @@ long sequencer_nx(char *seqname, int err_abort)
     BUF_EXPAND(filename, seqname);
     if ((fp = fopen(filename, RP_MODE)) == NULL)
         if (errno == ENOENT) {
-            if (!(fp = fopen(filename, WP_MODE))) {
+            if (!(fp = create_seq(filename))) {
                 fp = fopen(cf_p_seq_pack(), RP_MODE);
                 if (fp == NULL) {
                     if (errno == ENOENT) {
                         mkdir(cf_p_seq_pack(), DIR_MODE);
-                        fp = fopen(filename, WP_MODE);
+                        fp = create_seq(filename);
                     } else
                         return ERROR;
                 } else {
-- 
2.43.0


From 4f7d06303f39a6109577932c3af38141ef3d5bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 002/133] fix: create lock files atomically and take over stale
 locks without a race

---
 src/common/lock.c | 81 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 71 insertions(+), 10 deletions(-)

diff --git a/src/common/lock.c b/src/common/lock.c
index 2baf9cb..7a9855d 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -39,6 +39,38 @@
 #define LOCKFILE_LOCKED		1
 #define LOCKFILE_ERROR		-1
 
+/*
+ * Remove stale lock file left by process pid. Several processes may find
+ * the same stale lock and one of them may have replaced it by its own
+ * already, so look again while holding the file locked.
+ */
+static int remove_stale_lock(char *name, pid_t pid)
+{
+    char buff[32];
+    FILE *fp;
+    struct stat st, fst;
+    int ret = LOCKFILE_UNLOCKED;
+
+    if ((fp = fopen(name, "r+")) == NULL)
+        return errno == ENOENT ? LOCKFILE_UNLOCKED : LOCKFILE_ERROR;
+
+    if (lock_file(fp) != OK || fstat(fileno(fp), &fst) != 0)
+        ret = LOCKFILE_ERROR;
+    else if (stat(name, &st) != 0)
+        ret = errno == ENOENT ? LOCKFILE_UNLOCKED : LOCKFILE_ERROR;
+    else if (st.st_ino != fst.st_ino || st.st_dev != fst.st_dev ||
+             fgets(buff, sizeof(buff), fp) == NULL || atoi(buff) != pid)
+        ret = LOCKFILE_LOCKED;
+    else if (unlink(name) != 0) {
+        debug(7, "Deleteting stale lock file %s failed.", name);
+        ret = LOCKFILE_ERROR;
+    }
+
+    fclose(fp);
+
+    return ret;
+}
+
 /*
  * May be there is as stale lock?
  */
@@ -72,11 +104,7 @@ int check_stale_lock(char *name)
         return LOCKFILE_LOCKED;
 
     fglog("$WARNING: stale lock file %s (pid = %d) found", name, pid);
-    if (unlink(name) != 0) {
-        debug(7, "Deleteting stale lock file %s failed.", name);
-        return LOCKFILE_ERROR;
-    }
-    return LOCKFILE_UNLOCKED;
+    return remove_stale_lock(name, pid);
 }
 
 /*
@@ -248,13 +276,40 @@ int unlock_lockfile_nfs(char *name)
 }
 
 #else /**!NFS_SAFE_LOCKFILES**/
+/*
+ * Create lock file containing our PID. The file shows up under its final
+ * name complete and at once, and only if no such file exists.
+ *
+ * Return: LOCKFILE_UNLOCKED  lock created
+ *         LOCKFILE_LOCKED    lock exists already
+ *         LOCKFILE_ERROR     can't create lock
+ */
+static int create_lockfile(char *name)
+{
+    char uniq_name[MAXPATH];
+    FILE *fp;
+    int ret = LOCKFILE_UNLOCKED;
+
+    str_printf(uniq_name, sizeof(uniq_name), "%s.L%d", name, (int)getpid());
+
+    if ((fp = fopen(uniq_name, "w")) == NULL)
+        return LOCKFILE_ERROR;
+    fprintf(fp, "%d\n", (int)getpid());
+    if (fclose(fp) != 0)
+        ret = LOCKFILE_ERROR;
+    else if (link(uniq_name, name) != 0)
+        ret = errno == EEXIST ? LOCKFILE_LOCKED : LOCKFILE_ERROR;
+    unlink(uniq_name);
+
+    return ret;
+}
+
 /*
  * Create lock file with PID (id==NULL) or arbitrary string (id!=NULL)
  * Update: id != NULL lock is removed, is not used
  */
 int lock_lockfile(char *name, int wait)
 {
-    FILE *fp = NULL;
     short int wait_time = FALSE;
     short int exists_lock = FALSE;
 
@@ -267,11 +322,17 @@ int lock_lockfile(char *name, int wait)
         /* if there is a stale lock, this function will remove it */
         switch (check_stale_lock(name)) {
         case LOCKFILE_UNLOCKED:
-            if ((fp = fopen(name, "w")) == NULL)
+            switch (create_lockfile(name)) {
+            case LOCKFILE_UNLOCKED:
+                return OK;
+            case LOCKFILE_LOCKED:
+                /* another process was faster */
+                exists_lock = TRUE;
+                break;
+            default:
                 return ERROR;
-            fprintf(fp, "%d\n", (int)getpid());
-            fclose(fp);
-            return OK;
+            }
+            break;
 
         case LOCKFILE_LOCKED:
             debug(7, "Lock exists %s", name);
-- 
2.43.0


From 3d46d39c2a8ac90edb3c5ce5ede431757b26ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:58 +0000
Subject: [PATCH 003/133] fix: creating an outbound directory must not fail
 when another process creates it

---
 src/common/binkley.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/binkley.c b/src/common/binkley.c
index 53dc9b1..05b9805 100644
--- a/src/common/binkley.c
+++ b/src/common/binkley.c
@@ -409,7 +409,7 @@ int bink_mkdir(Node * node)
     rest = sizeof(buf) - strlen(buf);
 
     if (check_access(buf, CHECK_DIR) == ERROR) {
-        if (mkdir(buf, DIR_MODE) == -1) {
+        if (mkdir(buf, DIR_MODE) == -1 && errno != EEXIST) {
             fglog("$WARNING: can't create dir %s", buf);
             return ERROR;
         }
@@ -423,7 +423,7 @@ int bink_mkdir(Node * node)
         if (node->point > 0) {
             str_printf(base, rest, "/%04x%04x.pnt", node->net, node->node);
             if (check_access(buf, CHECK_DIR) == ERROR) {
-                if (mkdir(buf, DIR_MODE) == -1) {
+                if (mkdir(buf, DIR_MODE) == -1 && errno != EEXIST) {
                     fglog("$WARNING: can't create dir %s", buf);
                     return ERROR;
                 }
-- 
2.43.0


From 270ee6f70d55a26958bb312a4d63fcda10df5b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:58 +0000
Subject: [PATCH 004/133] fix: never attach to a FLO file which has been
 replaced while waiting for its lock

---
 src/common/flo.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/common/flo.c b/src/common/flo.c
index 31258b8..3d6e64a 100644
--- a/src/common/flo.c
+++ b/src/common/flo.c
@@ -60,6 +60,7 @@ int flo_openx(Node * node, int bsy, char *flav, int apmode)
 {
     char *flo;
     char *mode;
+    struct stat st, fst;
 
     mode = apmode ? AP_MODE : RP_MODE;
 
@@ -98,19 +99,22 @@ int flo_openx(Node * node, int bsy, char *flav, int apmode)
         if (bsy)
             bink_bsy_delete(node);
         fclose(flo_fp);
+        flo_fp = NULL;
         return ERROR;
     }
 
-    /* Lock succeeded, but the FLO file may have been deleted */
-    if (access(flo_name, F_OK) == ERROR) {
+    /* Lock succeeded, but the FLO file may have been deleted, and
+     * another process may have created a new one */
+    if (stat(flo_name, &st) == ERROR || fstat(fileno(flo_fp), &fst) == ERROR ||
+        st.st_ino != fst.st_ino || st.st_dev != fst.st_dev) {
         debug(4, "FLO file %s deleted after locking", flo_name);
         fclose(flo_fp);
-        if (apmode) {
-            if (bsy)
-                bink_bsy_delete(node);
+        flo_fp = NULL;
+        if (apmode || access(flo_name, F_OK) == 0)
             goto again;
-        } else
-            return ERROR;
+        if (bsy)
+            bink_bsy_delete(node);
+        return ERROR;
     }
 
     debug(4, "FLO file %s open and locking succeeded", flo_name);
-- 
2.43.0


From 0dd5768da91dc0564976315eb545c8ef2a98440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 005/133] fix: don't drop the last line of a message body
 without CR

pkt_get_body_parse() ignored the text between the last CR and the
terminating NUL of a message. Also the origin of an area message without
one was set to whatever the line buffer contained.
---
 src/common/message.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index 1c8a3ff..0964f58 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -491,11 +491,20 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
     int line = 0;
     int ret = ERROR;
     int len;
+    char last = FALSE;
 
     msg_body_clear(body);
 
     /* Read lines and put into textlist */
-    while ((type = pkt_get_line(fp, buffer, sizeof(buffer))) == 1) {
+    while (!last) {
+        type = pkt_get_line(fp, buffer, sizeof(buffer));
+        if (type != 1) {
+            /* Incomplete last line, if any */
+            if (type == ERROR || !buffer[0])
+                break;
+            BUF_APPEND(buffer, "\r");
+            last = TRUE;
+        }
         if (do_flag == HI_KLUDGE) {
             if (buffer[0] == '\001') {
                 tl_append(&body->kludge, buffer);
@@ -715,6 +724,8 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
             debug(9, "WARNING: no ' * Origin:' line!");
 #ifdef INSERT_ORIGIN
             sprintf(buffer, " * Origin: (%s)\r", znfp1(from));
+#else
+            buffer[0] = '\0';
 #endif
             body->origin = strsave(buffer);
         }
@@ -730,8 +741,6 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
         }
     }
 
-    /* Put incomplete last line into textlist, if any */
-
     return ret;
 }
 
-- 
2.43.0


From a735aa98f63b3cf11be6752aa6964c08007852c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 006/133] fix: keep tear line and origin in the text in their
 place

If text follows both of them (quoted messages), the text was moved before
the origin line, and a second origin line was not recognized.
---
 src/common/message.c | 78 +++++++++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 26 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index 0964f58..271916f 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -474,6 +474,29 @@ int msg_body_parse(Textlist * text, MsgBody * body)
 #define FOUND_ORIGIN		0x0002
 #define FOUND_TEARLINE		0x0004
 
+/*
+ * Move line to the end of text
+ */
+static void msg_body_append(Textlist * tl, char **line)
+{
+    if (*line) {
+        tl_append(tl, *line);
+        xfree(*line);
+        *line = NULL;
+    }
+}
+
+/*
+ * Tear line and origin found so far are part of the text
+ */
+static void msg_body_flush(MsgBody * body, int tear_last)
+{
+    if (tear_last)
+        msg_body_append(&body->body, &body->origin);
+    msg_body_append(&body->body, &body->tear);
+    msg_body_append(&body->body, &body->origin);
+}
+
 /*
  * Read text body from packet into Textlist & parse it.
  *
@@ -492,6 +515,7 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
     int ret = ERROR;
     int len;
     char last = FALSE;
+    char tear_last = FALSE;
 
     msg_body_clear(body);
 
@@ -579,7 +603,9 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
         }
         if (do_flag == PARSE_BODY_NETMAIL) {
             if (!strncmp(buffer, "---", 3) &&
-                (buffer[3] == ' ' || buffer[3] == '\r') && !body->tear) {
+                (buffer[3] == ' ' || buffer[3] == '\r')) {
+                if (body->tear)
+                    msg_body_flush(body, tear_last);
                 body->tear = strsave(buffer);
                 if (verbose) {
                     len = strlen(buffer);
@@ -588,10 +614,16 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                     debug(9, "tearline: %s", buffer);
                 }
                 line |= FOUND_TEARLINE;
+                tear_last = body->origin != NULL;
                 continue;
             }
-            if (!strncmp(buffer, " * Origin:", 10) && !body->origin) {
+            if (!strncmp(buffer, " * Origin:", 10)) {
+                if (body->origin && tear_last)
+                    msg_body_append(&body->body, &body->origin);
+                else if (body->origin)
+                    msg_body_flush(body, FALSE);
                 body->origin = strsave(buffer);
+                tear_last = FALSE;
                 if (verbose) {
                     len = strlen(buffer);
                     if (buffer[len - 1] == '\n')
@@ -623,22 +655,17 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "body: %s", buffer);
                 }
-            } else if (line & FOUND_TEARLINE) {
-                tl_append(&body->body, body->tear);
-                tl_append(&body->body, buffer);
-                xfree(body->tear);
-                body->tear = NULL;
-                line &= ~FOUND_TEARLINE;
-            } else if (line & FOUND_ORIGIN) {
-                tl_append(&body->body, body->origin);
+            } else if (line & (FOUND_TEARLINE | FOUND_ORIGIN)) {
+                /* not the last ones, part of the text */
+                msg_body_flush(body, tear_last);
                 tl_append(&body->body, buffer);
-                xfree(body->origin);
-                body->origin = NULL;
-                line &= ~FOUND_ORIGIN;
+                line &= ~(FOUND_TEARLINE | FOUND_ORIGIN);
             }
         } else if (do_flag == PARSE_BODY_ECHOMAIL) {
             if (!strncmp(buffer, "---", 3) &&
-                (buffer[3] == ' ' || buffer[3] == '\r') && !body->tear) {
+                (buffer[3] == ' ' || buffer[3] == '\r')) {
+                if (body->tear)
+                    msg_body_flush(body, tear_last);
                 body->tear = strsave(buffer);
                 if (verbose) {
                     len = strlen(buffer);
@@ -647,10 +674,16 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                     debug(9, "tearline: %s", buffer);
                 }
                 line |= FOUND_TEARLINE;
+                tear_last = body->origin != NULL;
                 continue;
             }
-            if (!strncmp(buffer, " * Origin:", 10) && !body->origin) {
+            if (!strncmp(buffer, " * Origin:", 10)) {
+                if (body->origin && tear_last)
+                    msg_body_append(&body->body, &body->origin);
+                else if (body->origin)
+                    msg_body_flush(body, FALSE);
                 body->origin = strsave(buffer);
+                tear_last = FALSE;
                 if (verbose) {
                     len = strlen(buffer);
                     if (buffer[len - 1] == '\n')
@@ -692,18 +725,11 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "body: %s", buffer);
                 }
-            } else if (line & FOUND_TEARLINE) {
-                tl_append(&body->body, body->tear);
-                tl_append(&body->body, buffer);
-                xfree(body->tear);
-                body->tear = NULL;
-                line &= ~FOUND_TEARLINE;
-            } else if (line & FOUND_ORIGIN) {
-                tl_append(&body->body, body->origin);
+            } else if (line & (FOUND_TEARLINE | FOUND_ORIGIN)) {
+                /* not the last ones, part of the text */
+                msg_body_flush(body, tear_last);
                 tl_append(&body->body, buffer);
-                xfree(body->origin);
-                body->origin = NULL;
-                line &= ~FOUND_ORIGIN;
+                line &= ~(FOUND_TEARLINE | FOUND_ORIGIN);
             }
         }
     }
-- 
2.43.0


From befe8eccbc93d4677a7e1a9f10c0cec62acd29ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 007/133] fix: don't drop blank lines at the beginning of a
 message

---
 src/common/message.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/message.c b/src/common/message.c
index 271916f..e081b56 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -567,6 +567,7 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
             if (!is_blank_line(buffer) || !parse_blank)
                 do_flag = SEARCH_RFC;
             else {
+                tl_append(&body->body, buffer);
                 if (verbose) {
                     len = strlen(buffer);
                     if (buffer[len - 1] == '\n')
@@ -582,6 +583,9 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
 
             for (found = FALSE, i = 0; rfc_headers[i]; i++)
                 if (!strnicmp(buffer, rfc_headers[i], strlen(rfc_headers[i]))) {
+                    /* drop blank lines before RFC headers only */
+                    if (body->rfc.n == 0)
+                        tl_clear(&body->body);
                     tl_append(&body->rfc, buffer);
                     if (verbose) {
                         len = strlen(buffer);
-- 
2.43.0


From bde79af078dfca158aaa32dccda2d018a71a24d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 008/133] fix: AddToSeenBy had no effect

do_seenby() never added a node without a list of passive links.
---
 src/toss/ftntoss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index eb62f91..8a5765c 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -570,7 +570,7 @@ void do_seenby(LON * seenby, LON * nodes, LON * new, LON * passive, int cup,
             if (j < cup || node_eq(from, &p->node))
                 continue;
 
-            if ((NULL != passive) && !lon_search(passive, &(p->node))) {
+            if ((NULL == passive) || !lon_search(passive, &(p->node))) {
                 lon_add(seenby, &p->node);
                 if (new)
                     lon_add(new, &p->node);
-- 
2.43.0


From 3af5c5c993297bf5e9d8c14af502fa5a6c091d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 009/133] fix: CheckPointOriginAddr had no effect

---
 src/toss/ftntoss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 8a5765c..93c6ef4 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -2077,7 +2077,7 @@ int main(int argc, char **argv)
     }
 #endif                          /* !ACTIVE_LOOKUP */
     if (cf_get_string("CheckPointOriginAddr", TRUE)) {
-        check_point_origin_addr = FALSE;
+        check_point_origin_addr = TRUE;
     }
 #ifdef DO_NOT_TOSS_NETMAIL
     if (cf_get_string("NoRewrite", TRUE)) {
-- 
2.43.0


From e6a7e3f122d4b89c570ac758538265ca6733dc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 010/133] fix: obey every DeleteSeenBy line, and DeletePath

Only the first DeleteSeenBy line was used, and DeletePath used that list
instead of its own (NULL pointer if there is no DeleteSeenBy).
---
 src/toss/ftntoss.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 93c6ef4..4a82894 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -671,19 +671,22 @@ void do_4dpoint(LON * seenby, LON * path, Node * from, Node * addr)
  */
 void do_deleteseenby(LON * seenby)
 {
+    DeleteSeenBy *d;
     LNode *p;
     LON *ln;
 
-    ln = &deleteseenby_first->deleteseenby;
+    for (d = deleteseenby_first; d; d = d->next) {
+        ln = &d->deleteseenby;
 
-    lon_debug(9, "do_deleteseenby(): List of SEEN-BYs for removing: ",
-              ln, FALSE);
+        lon_debug(9, "do_deleteseenby(): List of SEEN-BYs for removing: ",
+                  ln, FALSE);
 
-    for (p = ln->first; p; p = p->next) {
-        if (lon_search(seenby, &p->node)) {
-            debug(7, "do_deleteseenby(): Found SEEN-BY for removing: %s",
-                  znf1(&p->node));
-            lon_remove(seenby, &p->node);
+        for (p = ln->first; p; p = p->next) {
+            if (lon_search(seenby, &p->node)) {
+                debug(7, "do_deleteseenby(): Found SEEN-BY for removing: %s",
+                      znf1(&p->node));
+                lon_remove(seenby, &p->node);
+            }
         }
     }
 }
@@ -693,18 +696,21 @@ void do_deleteseenby(LON * seenby)
  */
 void do_deletepath(LON * path)
 {
+    DeletePath *d;
     LNode *p;
     LON *ln;
 
-    ln = &deleteseenby_first->deleteseenby;
+    for (d = deletepath_first; d; d = d->next) {
+        ln = &d->deletepath;
 
-    lon_debug(9, "do_deletepath(): List of PATH for removing: ", ln, FALSE);
+        lon_debug(9, "do_deletepath(): List of PATH for removing: ", ln, FALSE);
 
-    for (p = ln->first; p; p = p->next) {
-        if (lon_search(path, &p->node)) {
-            debug(7, "do_deletepath(): Found PATH for removing: %s",
-                  znf1(&p->node));
-            lon_remove(path, &p->node);
+        for (p = ln->first; p; p = p->next) {
+            if (lon_search(path, &p->node)) {
+                debug(7, "do_deletepath(): Found PATH for removing: %s",
+                      znf1(&p->node));
+                lon_remove(path, &p->node);
+            }
         }
     }
 }
-- 
2.43.0


From a73be34c12bb90d08d0237279b52ad789263926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 011/133] fix: terminate the SEEN-BY and PATH lines added to a
 message without them

---
 src/common/message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index e081b56..49e2907 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -761,12 +761,12 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
         }
         if (body->seenby.n == 0) {
             debug(9, "WARNING: parsing echomail message: no SEEN-BY line!");
-            snprintf(buffer, sizeof(buffer), "SEEN-BY: %d/%d", to->net, to->node);
+            snprintf(buffer, sizeof(buffer), "SEEN-BY: %d/%d\r", to->net, to->node);
             tl_append(&body->seenby, buffer);
         }
         if (body->path.n == 0) {
             debug(9, "WARNING: parsing echomail message: no ^APATH line!");
-            snprintf(buffer, sizeof(buffer), "\001PATH: %d/%d", to->net, to->node);
+            snprintf(buffer, sizeof(buffer), "\001PATH: %d/%d\r", to->net, to->node);
             tl_append(&body->path, buffer);
         }
     }
-- 
2.43.0


From 2be0afa8386bd888e17bbc7febd08a1d3773952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 012/133] fix: node following its own point was lost in lists
 of nodes

node_to_asc_diff() returned an empty string for 1/2 after 1/2.3, e.g. in
a ^APATH with point addresses.
---
 src/common/node.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/node.c b/src/common/node.c
index e33d2a9..6b77580 100644
--- a/src/common/node.c
+++ b/src/common/node.c
@@ -253,6 +253,8 @@ char *node_to_asc_diff(Node * node, Node * oldnode)
             if (node->node == oldnode->node) {
                 if (node->point != 0)
                     str_printf(buf, sizeof(buf), ".%d", node->point);
+                else if (oldnode->point != 0)
+                    str_printf(buf, sizeof(buf), "%d", node->node);
             } else
                 str_printf(buf, sizeof(buf), node->point ? "%d.%d" : "%d",
                            node->node, node->point);
-- 
2.43.0


From c17faf264b225aaab2ebe46f705b173cb23f4160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 013/133] fix: point number of the forward node of a spy
 without one

The copies were written to packets for point 65535 of the node.
---
 src/common/spyes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/spyes.c b/src/common/spyes.c
index fea3e3d..2e4b751 100644
--- a/src/common/spyes.c
+++ b/src/common/spyes.c
@@ -74,7 +74,7 @@ static Spy *spyes_parse_line(char *buf)
         fglog("spyes: duplicate spy entry %s", n);
         return NULL;
     }
-    if (asc_to_node(r, &forward_node, TRUE) == ERROR) {
+    if (asc_to_node(r, &forward_node, FALSE) == ERROR) {
         fglog("spyes: illegal FTN address %s", r);
         return NULL;
     }
-- 
2.43.0


From 11e331b2f6790eb844c0b06e0a24f54f2217b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 014/133] fix: a MSGID too long for the history made the whole
 packet bad

---
 src/toss/ftntoss.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 4a82894..a4e34c3 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -31,6 +31,7 @@
 
 #include "fidogate.h"
 #include "getopt.h"
+#include "dbz.h"
 
 #include <signal.h>
 #include <sys/wait.h>
@@ -896,6 +897,13 @@ int do_echomail(Packet * pkt, Message * msg, MsgBody * body)
             for (p = msgid; *p; p++)
                 if (*p == '\t' || *p == '\r' || *p == '\n')
                     *p = '_';
+            /* Key too long for DBZ (terminating '\0' is part of it) */
+            if (strlen(msgid) + 1 >= DBZMAXKEY) {
+                crc32_init();
+                crc32_compute((unsigned char *)msgid, strlen(msgid));
+                str_printf(msgid + DBZMAXKEY - 11, 10, " %08lx",
+                           crc32_value());
+            }
         } else {
             /* If KillNoMSGID ... */
             if (kill_nomsgid) {
-- 
2.43.0


From bc595883e2adf2a11e5314c7009751db355d9d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 015/133] fix: close the history before releasing its lock

---
 src/toss/ftntoss.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index a4e34c3..85d32a5 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -2198,8 +2198,8 @@ int main(int argc, char **argv)
 
         /* Close history */
         if (dupe_check) {
-            unlock_program(cf_p_lock_history());
             hi_close();
+            unlock_program(cf_p_lock_history());
         }
 
         dir_close();
@@ -2246,8 +2246,8 @@ int main(int argc, char **argv)
 
         /* Close history */
         if (dupe_check) {
-            unlock_program(cf_p_lock_history());
             hi_close();
+            unlock_program(cf_p_lock_history());
         }
 
         /* Lock file */
-- 
2.43.0


From e360ca609217f96acedb2d9189cfc10b0d82054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 016/133] fix: outpkt_close: report write errors, do not give
 an incomplete packet its final name

---
 src/common/outpkt.c      | 43 ++++++++++++++++++++++++++++++----------
 src/include/prototypes.h |  3 ++-
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/common/outpkt.c b/src/common/outpkt.c
index 7641bb6..3766625 100644
--- a/src/common/outpkt.c
+++ b/src/common/outpkt.c
@@ -43,6 +43,7 @@ typedef struct st_outpkt {
     char type;                  /* N=NetMail, E=EchoMail */
     char grade;                 /* N=Normal, ... */
     char bad;                   /* TRUE=bad packet, FALSE=normal packet */
+    char err;                   /* TRUE=write error, packet is incomplete */
     FILE *fp;                   /* FILE pointer, if opened */
     long n;                     /* Number of messages written to packet */
 
@@ -79,6 +80,7 @@ OutPkt *outpkt_new(Node * from, Node * to)
     p->type = 0;
     p->grade = 0;
     p->bad = FALSE;
+    p->err = FALSE;
     p->fp = NULL;
     p->n = 1;
     p->next = NULL;
@@ -168,8 +170,14 @@ static int outpkt_close_ln(void)
     /* Close it */
     if (pmin) {
         debug(3, "Close %s", pmin->tmpname);
+        if (ferror(pmin->fp))
+            pmin->err = TRUE;
         if (fclose(pmin->fp) == ERROR)
+            pmin->err = TRUE;
+        if (pmin->err) {
+            fglog("$ERROR: can't write to packet file %s", pmin->tmpname);
             ret = ERROR;
+        }
         outpkt_nopen--;
         pmin->fp = NULL;
     } else
@@ -222,6 +230,8 @@ FILE *outpkt_open(Node * from, Node * to,
             flav == p->flav && type == p->type && grade == p->grade
             && bad == p->bad) {
             p->n++;
+            if (p->err)
+                return NULL;
             /* If file exists, but isn't currently opened, reopen it */
             if (!p->fp)
                 p->fp = outpkt_fopen(p->tmpname, A_MODE);
@@ -238,6 +248,7 @@ FILE *outpkt_open(Node * from, Node * to,
     p->fp = outpkt_fopen(p->tmpname, W_MODE);
     if (p->fp == NULL) {
         fglog("$failed to open packet %s", p->tmpname);
+        p->err = TRUE;
         return NULL;
     }
 
@@ -255,7 +266,9 @@ FILE *outpkt_open(Node * from, Node * to,
     if (pkt_put_hdr(p->fp, &pkt) == ERROR) {
         fglog("$Can't write to packet file %s", p->tmpname);
         fclose(p->fp);
+        outpkt_nopen--;
         p->fp = NULL;
+        p->err = TRUE;
         return NULL;
     }
 
@@ -264,32 +277,44 @@ FILE *outpkt_open(Node * from, Node * to,
 }
 
 /*
- * Close all output packets
+ * Close all output packets, giving the complete ones their final name.
+ * An incomplete packet keeps its temporary name, ERROR is returned then.
  */
-void outpkt_close(void)
+int outpkt_close(void)
 {
     OutPkt *p, *pn;
+    int ret = OK;
 
     for (p = outpkt_first; p;) {
         pn = p->next;
 
         /* Reopen, if already closed */
-        if (!p->fp)
+        if (!p->fp && !p->err)
             p->fp = outpkt_fopen(p->tmpname, A_MODE);
 
         if (p->fp) {
             /* Terminating 0-word */
             pkt_put_int16(p->fp, 0);
             debug(3, "Close %s", p->tmpname);
+            if (ferror(p->fp))
+                p->err = TRUE;
             if (fclose(p->fp) == ERROR)
-                debug(3, "Close failed");
+                p->err = TRUE;
 
             outpkt_nopen--;
+        } else
+            p->err = TRUE;
 
-            /* Rename */
+        /* Rename */
+        if (!p->err) {
             debug(3, "Rename %s -> %s", p->tmpname, p->outname);
             if (rename(p->tmpname, p->outname) == ERROR)
-                debug(3, "Rename failed");
+                p->err = TRUE;
+        }
+
+        if (p->err) {
+            fglog("$ERROR: packet %s not complete", p->tmpname);
+            ret = ERROR;
         }
 
         /* Delete OutPkt entry */
@@ -304,7 +329,7 @@ void outpkt_close(void)
     outpkt_last = NULL;
     outpkt_nopen = 0;           /* Just to be sure ... */
 
-    return;
+    return ret;
 }
 
 /*
@@ -354,7 +379,5 @@ int outpkt_netmail(Message * msg, Textlist * tl, char *program, char *origin,
     /* Terminating 0-byte */
     putc(0, fp);
 
-    outpkt_close();
-
-    return OK;
+    return outpkt_close();
 }
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index 9ec776c..4fece41 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -293,6 +293,7 @@ short int hi_init_dbc(void);
 void hi_init_history(void);
 void hi_init_tic_history(void);
 void hi_close(void);
+void hi_cancel(void);
 short int hi_write_dbc(char *, char *, short int);
 short int hi_write_t(time_t, time_t, char *);
 short int hi_write(time_t, char *);
@@ -497,7 +498,7 @@ char *outpkt_outputname(char *, char *, int, int, int, long, char *);
 long outpkt_sequencer(void);
 void outpkt_set_maxopen(int);
 FILE *outpkt_open(Node *, Node *, int, int, int, int);
-void outpkt_close(void);
+int outpkt_close(void);
 int outpkt_netmail(Message *, Textlist *, char *, char *, char *);
 void send_request(Textlist *);
 
-- 
2.43.0


From 44f71f069ebdb151538ceca057a206b81ee2f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 017/133] fix: ftntoss: remove input packets only when the
 output packets are complete

---
 src/common/histdb.c | 23 +++++++++++++++
 src/toss/ftntoss.c  | 70 +++++++++++++++++++++++++++++++++++----------
 2 files changed, 78 insertions(+), 15 deletions(-)

diff --git a/src/common/histdb.c b/src/common/histdb.c
index 05b2c0a..3eba05f 100644
--- a/src/common/histdb.c
+++ b/src/common/histdb.c
@@ -36,6 +36,8 @@
  * History file
  */
 static FILE *hi_file = NULL;
+static char hi_name[MAXPATH];
+static long hi_size;            /* Size of text file when opened */
 short int hi_init(char *);
 
 /*
@@ -110,6 +112,9 @@ short int hi_init(char *his_file)
             fglog("$ERROR: Premission denied %s", buffer);
             return ERROR;
         }
+    } else {
+        BUF_COPY(hi_name, buffer);
+        hi_size = ftell(hi_file);
     }
     /* Open the DBZ file */
     dbzincore(1);
@@ -139,6 +144,24 @@ void hi_close(void)
     }
 }
 
+/*
+ * Close MSGID history, forgetting all entries written since hi_init()
+ */
+void hi_cancel(void)
+{
+
+    if (hi_file) {
+        dbzcancel();
+        fclose(hi_file);
+        if (dbmclose() < 0)
+            fglog("$ERROR: dbmclose MSGID history failed");
+        if (hi_size >= 0 && truncate(hi_name, hi_size) == ERROR)
+            fglog("$ERROR: truncate MSGID history failed");
+
+        hi_file = NULL;
+    }
+}
+
 /*
  * Write record to DBC MSGID history
  */
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 85d32a5..b4c02a1 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -172,6 +172,8 @@ static long pkts_in = 0;        /* Input packets */
 static long pkts_bytes = 0;     /* Input bytes */
 
 static Textlist notify;
+static Textlist pkts_done;      /* Input packets to be removed */
+static int out_error = FALSE;   /* TRUE: output packets incomplete */
 
 /*
  * AddToSeenBy list
@@ -1413,7 +1415,9 @@ static void ping_generate_reply(Message *msg, MsgBody *body)
     saved_outdir = strsave(pkt_get_outdir());
     pkt_outdir(cf_p_outpkt(), NULL);
 
-    outpkt_netmail(&rmsg, &rbody, PROGRAM, default_origin, default_tearline);
+    if (outpkt_netmail(&rmsg, &rbody, PROGRAM, default_origin,
+                       default_tearline) == ERROR)
+        out_error = TRUE;
 
     pkt_outdir(saved_outdir, NULL);
     xfree(saved_outdir);
@@ -1568,6 +1572,43 @@ int do_netmail(Packet * pkt, Message * msg, MsgBody * body, int forwarded)
     return OK;
 }
 
+/*
+ * Close output packets. If all of them are complete, remove the input
+ * packets already processed, otherwise leave those to be tossed again.
+ */
+static int close_output(void)
+{
+    Textline *p;
+    int ret = OK;
+
+    if (outpkt_close() == ERROR)
+        out_error = TRUE;
+    if (out_error)
+        return severe_error = ERROR;
+
+    for (p = pkts_done.first; p; p = p->next)
+        if (unlink(p->line)) {
+            fglog("$ERROR: can't unlink %s", p->line);
+            rename_bad(p->line);
+            ret = ERROR;
+        }
+    tl_clear(&pkts_done);
+
+    return ret;
+}
+
+/*
+ * Close history. Messages which may not have been written must not be taken
+ * for dupes when tossed again.
+ */
+static void close_history(void)
+{
+    if (out_error || (severe_error == ERROR && !signal_exit))
+        hi_cancel();
+    else
+        hi_close();
+}
+
 /*
  * Read and process FTN packets
  */
@@ -1705,7 +1746,6 @@ int unpack(FILE * pkt_file, Packet * pkt)
          * Exit if signal received
          */
         if (signal_exit) {
-            outpkt_close();
             msg_count = 0;
             TMPS_RETURN(severe_error = ERROR);
         }
@@ -1716,8 +1756,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
         if (maxmsg && msg_count >= maxmsg) {
             if (x_flag)
                 must_exit = TRUE;
-            else
-                outpkt_close();
+            else if (close_output() == ERROR)
+                TMPS_RETURN(severe_error = ERROR);
             msg_count = 0;
         }
 
@@ -1777,11 +1817,8 @@ int unpack_file(char *pkt_name)
 
     fclose(pkt_file);
 
-    if (unlink(pkt_name)) {
-        fglog("$ERROR: can't unlink %s", pkt_name);
-        rename_bad(pkt_name);
-        TMPS_RETURN(ERROR);
-    }
+    /* To be removed when the output packets are complete */
+    tl_append(&pkts_done, pkt_name);
 
     TMPS_RETURN(OK);
 }
@@ -2113,6 +2150,7 @@ int main(int argc, char **argv)
 #endif                          /* FTN_ACL */
 
     tl_init(&notify);
+    tl_init(&pkts_done);
 
     /*
      * Process local options
@@ -2196,9 +2234,11 @@ int main(int argc, char **argv)
             }
         }
 
-        /* Close history */
+        /* Close output packets, history */
+        if (close_output() == ERROR)
+            c = EXIT_ERROR;
         if (dupe_check) {
-            hi_close();
+            close_history();
             unlock_program(cf_p_lock_history());
         }
 
@@ -2244,9 +2284,11 @@ int main(int argc, char **argv)
             }
         }
 
-        /* Close history */
+        /* Close output packets, history */
+        if (close_output() == ERROR)
+            c = EXIT_ERROR;
         if (dupe_check) {
-            hi_close();
+            close_history();
             unlock_program(cf_p_lock_history());
         }
 
@@ -2255,8 +2297,6 @@ int main(int argc, char **argv)
             unlock_program(PROGRAM);
     }
 
-    outpkt_close();
-
     /* Stop time */
     toss_delta = time(NULL) - toss_start;
     if (toss_delta <= 0)
-- 
2.43.0


From fe723b1c20361615dfb658a3967d038f99debfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 018/133] fix: areasbbs_rewrite: detect write errors, keep
 areas.bbs while renaming

---
 src/common/areasbbs.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index ff0f176..6c997bf 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -441,7 +441,7 @@ int areasbbs_rewrite(void)
         fglog("$ERROR: can't open %s for writing AREAS.BBS", new);
         return ERROR;
     }
-    if (areasbbs_print(fp) == ERROR) {
+    if (areasbbs_print(fp) != OK) {
         fglog("$ERROR: writing to %s", new);
         fclose(fp);
         unlink(new);
@@ -470,14 +470,16 @@ int areasbbs_rewrite(void)
     }
 
     /*
-     * Rename AREAS.BBS -> AREAS.O01
+     * Save AREAS.BBS as AREAS.O01. There must always be an AREAS.BBS, it is
+     * replaced below.
      */
     BUF_COPY(old, buffer);
     str_copy(old + ovwr, sizeof(old) - ovwr, "bbs");
     BUF_COPY(new, buffer);
     str_copy(new + ovwr, sizeof(new) - ovwr, "o01");
-    debug(4, "Renaming %s -> %s", old, new);
-    rename(old, new);
+    debug(4, "Linking %s -> %s", old, new);
+    if (link(old, new) == ERROR && errno != ENOENT)
+        fglog("$WARNING: can't save %s as %s", old, new);
 
     /*
      * Rename AREAS.NEW -> AREAS.BBS
@@ -487,7 +489,10 @@ int areasbbs_rewrite(void)
     BUF_COPY(new, buffer);
     str_copy(new + ovwr, sizeof(new) - ovwr, "bbs");
     debug(4, "Renaming %s -> %s", old, new);
-    rename(old, new);
+    if (rename(old, new) == ERROR) {
+        fglog("$ERROR: can't rename %s -> %s", old, new);
+        return ERROR;
+    }
 
     fglog("%s changed", buffer);
 
-- 
2.43.0


From 9df46bccf55849deb7d41d1ae3706defb9696caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:07 +0000
Subject: [PATCH 019/133] fix: sequencer: do not hand out a number which could
 not be recorded

---
 src/common/sequencer.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/common/sequencer.c b/src/common/sequencer.c
index ad4bac3..ed446cd 100644
--- a/src/common/sequencer.c
+++ b/src/common/sequencer.c
@@ -63,6 +63,7 @@ long sequencer_nx(char *seqname, int err_abort)
     char filename[MAXPATH];
     FILE *fp;
     long seqn;
+    int err;
 
     /* Open file, create if necessary */
     BUF_EXPAND(filename, seqname);
@@ -103,11 +104,22 @@ long sequencer_nx(char *seqname, int err_abort)
     if (seqn < 0)
         seqn = 0;
 
-    rewind(fp);
-    fprintf(fp, "%ld\n", seqn);
-    rewind(fp);
+    /* A number which can't be recorded would be used twice */
+    err = ferror(fp);
+    if (!err) {
+        rewind(fp);
+        err = fprintf(fp, "%ld\n", seqn) < 0 || fflush(fp) == ERROR;
+    }
+
+    if (fclose(fp) == ERROR)
+        err = TRUE;
 
-    fclose(fp);
+    if (err) {
+        fglog("$ERROR: can't update sequencer file %s", seqname);
+        if (err_abort)
+            exit(EX_OSFILE);
+        return ERROR;
+    }
 
     return seqn;
 }
-- 
2.43.0


From db05a36093aefa739da9e2cc513ddcec12bebe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:07 +0000
Subject: [PATCH 020/133] fix: ftntoss: do not toss with an unreadable
 areas.bbs

---
 src/common/areasbbs.c | 7 +++++++
 src/toss/ftntoss.c    | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 6c997bf..404174f 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -313,6 +313,7 @@ int areasbbs_init(char *name)
             debug(14, "No file %s, assuming empty", name);
             return OK;
         } else {
+            fglog("$ERROR: can't open %s", name);
             return ERROR;
         }
     }
@@ -346,6 +347,12 @@ int areasbbs_init(char *name)
         areasbbs_last = p;
     }
 
+    if (ferror(fp)) {
+        fglog("$ERROR: reading %s", name);
+        fclose(fp);
+        return ERROR;
+    }
+
     fclose(fp);
 
     return OK;
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index b4c02a1..e30daf6 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -2176,7 +2176,11 @@ int main(int argc, char **argv)
         exit_free();
         return EXIT_BUSY;
     }
-    areasbbs_init(areas_bbs);
+    if (areasbbs_init(areas_bbs) == ERROR) {
+        unlock_path(bbslock);
+        exit_free();
+        return EX_OSFILE;
+    }
     passwd_init();
 
     /* Install signal/exit handlers */
-- 
2.43.0


From 3c42e789a45258e1e86f66df7b536a2e49619c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:52 +0000
Subject: [PATCH 021/133] fix: ftnroute: remove packets only when the output is
 complete, direct messages, bad packets

---
 src/toss/ftnroute.c | 104 ++++++++++++++++++++++++++++++--------------
 1 file changed, 72 insertions(+), 32 deletions(-)

diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index d24401e..4a1a4f3 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -84,6 +84,8 @@ static int signal_exit = FALSE; /* Flag: TRUE if signal received */
 
 static bool strict;
 
+static Textlist pkts_done;      /* Input packets to be removed */
+
 #define MODE_PVT	1
 #define MODE_HOLD	2
 #define MODE_DOWN	3
@@ -585,6 +587,7 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
     MsgBody body;               /* Message body of FTN message */
     int type, ret;
     FILE *fp;
+    Node *to;
 
     /*
      * Initialize
@@ -592,18 +595,8 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
     tl_init(&tl);
     msg_body_init(&body);
 
-    /*
-     * Open output packet
-     */
     cf_set_zone(desc->to.zone);
 
-    fp = outpkt_open(&desc->from, &desc->to,
-                     desc->grade, desc->type, desc->flav, FALSE);
-    if (fp == NULL) {
-        fclose(pkt_file);
-        TMPS_RETURN(ERROR);
-    }
-
     /*
      * Read message from input packet and write to output packet
      */
@@ -622,21 +615,29 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
             break;
         }
 
-        if (msg.attr & MSG_DIRECT && !node_eq(&desc->to, &pkt->to)) {
-            fclose(fp);
-            debug(1, "routing: direct (%s)", znfp1(&pkt->to));
-            desc->to = pkt->to;
-            return do_move(pkt_name, pkt_file, desc);
-        }
-
         /*
          * Read & parse message body
          */
         if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, &msg.node_to) !=
             OK) {
             fglog("ERROR: parsing message body");
-            fclose(pkt_file);
-            TMPS_RETURN(ERROR);
+            ret = ERROR;
+            break;
+        }
+
+        /*
+         * Open output packet, direct messages aren't routed
+         */
+        to = &desc->to;
+        if (msg.attr & MSG_DIRECT && !node_eq(&desc->to, &pkt->to)) {
+            debug(1, "routing: direct (%s)", znfp1(&pkt->to));
+            to = &pkt->to;
+        }
+        fp = outpkt_open(&desc->from, to,
+                         desc->grade, desc->type, desc->flav, FALSE);
+        if (fp == NULL) {
+            ret = severe_error = ERROR;
+            break;
         }
 
         if (body.area == NULL) {
@@ -680,20 +681,49 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
         tmps_freeall();
     } /**while(type == MSG_TYPE)**/
 
+    if (ferror(pkt_file)) {
+        fglog("$ERROR: reading packet %s", pkt_name);
+        ret = ERROR;
+    }
+
     if (fclose(pkt_file) == ERROR) {
         fglog("$ERROR: can't close packet %s", pkt_name);
         TMPS_RETURN(severe_error = ERROR);
     }
 
-    if (ret == OK && *pkt_name != '\0')
-        if (unlink(pkt_name)) {
-            fglog("$ERROR: can't unlink packet %s", pkt_name);
-            TMPS_RETURN(ERROR);
-        }
+    if (*pkt_name != '\0') {
+        /* To be removed when the output packets are complete */
+        if (ret == OK)
+            tl_append(&pkts_done, pkt_name);
+        else if (severe_error == OK)
+            rename_bad(pkt_name);
+    }
 
     TMPS_RETURN(ret);
 }
 
+/*
+ * Close output packets. If all of them are complete, remove the input
+ * packets, otherwise leave those to be routed again.
+ */
+static int close_output(void)
+{
+    Textline *p;
+    int ret = OK;
+
+    if (outpkt_close() == ERROR)
+        return severe_error = ERROR;
+
+    for (p = pkts_done.first; p; p = p->next)
+        if (unlink(p->line)) {
+            fglog("$ERROR: can't unlink packet %s", p->line);
+            ret = ERROR;
+        }
+    tl_clear(&pkts_done);
+
+    return ret;
+}
+
 /*
  * Process one packet file
  */
@@ -713,6 +743,8 @@ int do_file(char *pkt_name)
 
     if (pkt_get_hdr(pkt_file, &pkt) == ERROR) {
         fglog("ERROR: reading header from %s", pkt_name);
+        fclose(pkt_file);
+        rename_bad(pkt_name);
         TMPS_RETURN(ERROR);
     }
 
@@ -771,9 +803,6 @@ int do_repack(char *dir, char *wildcard, int repack_time)
             debug(3, "do_file(): error processing");
             return ERROR;
         }
-        if (unlink(buf)) {
-            debug(1, "$ERROR: can't unlink packet %s", buf);
-        }
     }
     dir_close();
 
@@ -874,6 +903,8 @@ int main(int argc, char **argv)
 
     log_program(PROGRAM);
 
+    tl_init(&pkts_done);
+
     /* Init configuration */
     cf_initialize();
 
@@ -1036,8 +1067,11 @@ int main(int argc, char **argv)
                 }
             }
         }                       /* non-aso */
-        /* Lock file */
 
+        if (close_output() == ERROR)
+            ret = EXIT_ERROR;
+
+        /* Lock file */
         if (l_flag)
             unlock_program(PROGRAM);
 
@@ -1067,9 +1101,13 @@ int main(int argc, char **argv)
         for (pkt_name = dir_get(TRUE); pkt_name; pkt_name = dir_get(FALSE))
             if (do_file(pkt_name) == ERROR) {
                 ret = EXIT_ERROR;
-                break;
+                if (severe_error != OK)
+                    break;
             }
 
+        if (close_output() == ERROR)
+            ret = EXIT_ERROR;
+
         dir_close();
 
         /* Lock file */
@@ -1092,16 +1130,18 @@ int main(int argc, char **argv)
         for (; optind < argc; optind++)
             if (do_file(argv[optind]) == ERROR) {
                 ret = EXIT_ERROR;
-                break;
+                if (severe_error != OK)
+                    break;
             }
 
+        if (close_output() == ERROR)
+            ret = EXIT_ERROR;
+
         /* Lock file */
         if (l_flag)
             unlock_program(PROGRAM);
     }
 
-    outpkt_close();
-
     if (p_flag) {
         BUF_COPY4(buffer, cf_p_libexecdir(), "/ftnpack -I ", cf_p_spooldir(),
                   "/toss/route");
-- 
2.43.0


From 54813ac376b789794eaceeafc93268131e729fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:35 +0000
Subject: [PATCH 022/133] fix: ftntoss: a read error between messages is not
 the end of the packet

---
 src/toss/ftntoss.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index e30daf6..d0262a7 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -1764,6 +1764,11 @@ int unpack(FILE * pkt_file, Packet * pkt)
         tmps_freeall();
     } /**while(type == MSG_TYPE)**/
 
+    if (ferror(pkt_file)) {
+        fglog("$ERROR: reading input packet");
+        TMPS_RETURN(ERROR);
+    }
+
     TMPS_RETURN(OK);
 }
 
-- 
2.43.0


From ef5d17726d80ce2d9b219e41b6d57b44b08494cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:47 +0000
Subject: [PATCH 023/133] fix: routing: accept wildcards in hostroute,
 bossroute and xroute

---
 src/common/routing.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/common/routing.c b/src/common/routing.c
index 56038b4..e418610 100644
--- a/src/common/routing.c
+++ b/src/common/routing.c
@@ -248,7 +248,7 @@ void routing_rewrite(int cmd)
 void mk_route(int cmd)
 {
     char *p;
-    Node dest, old;
+    Node dest, node, old;
     LON links;
     MkRoute *r;
     int flav;
@@ -290,9 +290,16 @@ void mk_route(int cmd)
     /*
      * Source node (pattern)
      */
-    while ((p = xstrtok(NULL, " \t")))
-        if (*p)
-            lon_add_string(&links, p);
+    while ((p = xstrtok(NULL, " \t"))) {
+        if (znfp_parse_diff(p, &node, &old) == ERROR) {
+            fglog("mk_route: illegal node address %s", p);
+            continue;
+        }
+        old = node;
+        if (node.point == EMPTY)
+            node.point = 0;
+        lon_add(&links, &node);
+    }
 
     if (cmd == CMD_XROUTE && links.size != 2) {
         fglog("mk_route: xroute requires flavor type and 3 arguments");
-- 
2.43.0


From ea918f5e515a4cf5b747121a988fbc878cd3daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:34 +0000
Subject: [PATCH 024/133] fix: pkt_close: report write errors, do not leave a
 half written packet in the outbound

---
 src/common/packet.c      | 57 +++++++++++++++++++++++++++++++++++++---
 src/include/prototypes.h |  1 +
 2 files changed, 55 insertions(+), 3 deletions(-)

diff --git a/src/common/packet.c b/src/common/packet.c
index 823a22c..db158ee 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -42,6 +42,7 @@ static FILE *packet_file = NULL;
 static Node packet_node = { -1, -1, -1, -1, "" };
 
 static int packet_bsy = FALSE;
+static long packet_pos = -1;    /* Start of new data, -1 new packet */
 
 static char *pkt_newname(char *);
 static FILE *pkt_open_node(Node *, char *, int);
@@ -135,6 +136,7 @@ static FILE *pkt_open_node(Node * node, char *flav, int bsy)
     long pos;
     Packet pkt;
     int count;
+    struct stat st, fst;
 
     /* Name of .OUT file */
     out = bink_find_out(node, flav);
@@ -195,8 +197,10 @@ static FILE *pkt_open_node(Node * node, char *flav, int bsy)
             break;
         }
 
-        /* Lock succeeded, but the OUT file may have been deleted */
-        if (access(out, F_OK) == -1) {
+        /* Lock succeeded, but the OUT file may have been deleted, and
+         * another process may have created a new one */
+        if (stat(out, &st) == ERROR || fstat(fileno(fp), &fst) == ERROR ||
+            st.st_ino != fst.st_ino || st.st_dev != fst.st_dev) {
             debug(4, "OUT file deleted, retrying");
             fclose(fp);
             fp = NULL;
@@ -254,9 +258,10 @@ static FILE *pkt_open_node(Node * node, char *flav, int bsy)
         /* Rest is filled in by pkt_put_hdr() */
         if (pkt_put_hdr(fp, &pkt) == ERROR) {
             fglog("$ERROR: can't write to packet file %s", out);
+            fclose(fp);
+            unlink(out);
             if (bsy)
                 bink_bsy_delete(node);
-            fclose(fp);
             return NULL;
         }
     } else {
@@ -294,6 +299,7 @@ static FILE *pkt_open_node(Node * node, char *flav, int bsy)
 
     packet_file = fp;
     packet_node = *node;
+    packet_pos = pos == 0L ? 0L : pos - 2;
 
     return fp;
 }
@@ -333,6 +339,7 @@ static FILE *pkt_create(Node * to)
     /* Rest is filled in by pkt_put_hdr() */
     if (pkt_put_hdr(packet_file, &pkt) == ERROR) {
         fglog("$ERROR: can't write to packet file %s", packet_tmp);
+        pkt_cancel();
         return NULL;
     }
 
@@ -357,6 +364,7 @@ FILE *pkt_open(char *name, Node * node, char *flav, int bsy)
          * Open packet in FIDOGATE outbound directory or named packet
          */
         pkt_newname(name);
+        packet_pos = -1;
         return pkt_create(node ? node : cf_uplink());
     }
 
@@ -364,6 +372,44 @@ FILE *pkt_open(char *name, Node * node, char *flav, int bsy)
     return NULL;
 }
 
+/*
+ * Close packet file without the messages written since pkt_open()
+ */
+void pkt_cancel(void)
+{
+    char end[2] = { 0, 0 };
+    int fd;
+
+    if (!packet_file)
+        return;
+
+    if (packet_pos >= 0) {
+        /* OUT packet, restore the old contents */
+        fd = dup(fileno(packet_file));
+        fclose(packet_file);
+        if (fd == -1 ||
+            ftruncate(fd, packet_pos ? packet_pos + 2 : 0) == ERROR ||
+            (packet_pos && (lseek(fd, packet_pos, SEEK_SET) == -1 ||
+                            write(fd, end, 2) != 2)))
+            fglog("$ERROR: can't restore packet %s", packet_name);
+        if (packet_pos == 0)
+            unlink(packet_name);
+        if (fd != -1)
+            close(fd);
+    } else {
+        fclose(packet_file);
+        unlink(packet_tmp);
+    }
+    packet_file = NULL;
+
+    if (packet_node.zone != -1) {
+        if (packet_bsy)
+            bink_bsy_delete(&packet_node);
+        packet_bsy = FALSE;
+        packet_node.zone = -1;
+    }
+}
+
 /*
  * Write end of packet to packet file, close and rename it.
  */
@@ -374,6 +420,11 @@ int pkt_close(void)
     if (packet_file) {
         /* End of packet */
         pkt_put_int16(packet_file, 0);
+        if (fflush(packet_file) == EOF || ferror(packet_file)) {
+            fglog("$ERROR: writing packet %s", packet_name);
+            pkt_cancel();
+            return ERROR;
+        }
         ret = fclose(packet_file);
 
         packet_file = NULL;
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index 4fece41..0bb3393 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -509,6 +509,7 @@ void pkt_baddir(char *, char *);
 char *pkt_get_baddir(void);
 FILE *pkt_open(char *, Node *, char *, int);
 int pkt_close(void);
+void pkt_cancel(void);
 char *pkt_name(void);
 char *pkt_tmpname(void);
 int pkt_isopen(void);
-- 
2.43.0


From db06849b78002c6530416539c1638ce409c9bd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:34 +0000
Subject: [PATCH 025/133] fix: bink_attach: report errors, do not leave an
 incomplete flow file entry

---
 src/common/binkley.c | 23 +++++++++++++++++++----
 src/common/flo.c     |  5 ++++-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/common/binkley.c b/src/common/binkley.c
index 05b9805..1de96c9 100644
--- a/src/common/binkley.c
+++ b/src/common/binkley.c
@@ -302,6 +302,7 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
     char *n;
     char *line;
     int lmode, found;
+    long pos;
     static char buf[MAXPATH];
 
     if (mode)
@@ -335,7 +336,7 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
         if (*line == '~')
             continue;
         lmode = ' ';
-        if (*line == '^' || *line == '#')
+        if (*line == '^' || *line == '#' || *line == '@')
             lmode = *line++;
 
         debug(5, "FLO entry: %c %s", lmode, line);
@@ -345,20 +346,34 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
         }
     }
 
+    if (ferror(fp)) {
+        fglog("$reading FLO file node %s failed", znfp1(node));
+        flo_close(node, bsy, FALSE);
+        return ERROR;
+    }
+
     /* We're there ...  */
     if (found)
         debug(4, "FLO file already contains an entry, not attaching file");
     else {
         debug(4, "FLO file open and locking succeeded, attaching file");
+        fseek(fp, 0L, SEEK_END);
+        pos = ftell(fp);
         if (mode)
             fprintf(fp, "%c%s%s", mode, n, cf_dos()? "\r\n" : "\n");
         else
             fprintf(fp, "%s%s", n, cf_dos()? "\r\n" : "\n");
+        if (fflush(fp) == EOF || ferror(fp)) {
+            fglog("$writing FLO file node %s failed", znfp1(node));
+            /* remove incomplete entry */
+            if (pos >= 0 && ftruncate(fileno(fp), pos) == ERROR)
+                fglog("$truncating FLO file node %s failed", znfp1(node));
+            flo_close(node, bsy, FALSE);
+            return ERROR;
+        }
     }
 
-    flo_close(node, bsy, FALSE);
-
-    return OK;
+    return flo_close(node, bsy, FALSE);
 }
 
 /*
diff --git a/src/common/flo.c b/src/common/flo.c
index 3d6e64a..68acc0f 100644
--- a/src/common/flo.c
+++ b/src/common/flo.c
@@ -175,7 +175,10 @@ int flo_close(Node * node, int bsy, int del)
                 fglog("$removing FLO file %s failed", flo_name);
                 ret = ERROR;
             }
-        fclose(flo_fp);
+        if (fclose(flo_fp) == EOF) {
+            fglog("$closing FLO file %s failed", flo_name);
+            ret = ERROR;
+        }
         flo_fp = NULL;
     }
 
-- 
2.43.0


From b83b411d6bff71ac134cdfc12a6c9f8d53e720b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:34 +0000
Subject: [PATCH 026/133] fix: ftn2ftn: keep the input when the output packet
 is not complete

---
 src/toss/ftn2ftn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/toss/ftn2ftn.c b/src/toss/ftn2ftn.c
index c7cff90..2f5e229 100644
--- a/src/toss/ftn2ftn.c
+++ b/src/toss/ftn2ftn.c
@@ -138,7 +138,8 @@ int do_message(Node * gate, Message * msg, MsgBody * body)
      * Write this message to the output packet
      */
     if (!o_flag && cf_zone() != last_zone)
-        pkt_close();
+        if (pkt_close() != OK)
+            return ERROR;
     if (!pkt_isopen())
         if ((fp = pkt_open(o_flag, NULL, NULL, FALSE)) == NULL)
             return ERROR;
@@ -186,7 +187,8 @@ int unpack(Node * gate, FILE * pkt_file, Packet * pkt)
     }
 
     /* Close packet */
-    pkt_close();
+    if (pkt_close() != OK)
+        TMPS_RETURN(ERROR);
 
     TMPS_RETURN(OK);
 }
-- 
2.43.0


From 3313b3459a216f0377fbc48af383148302f5ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 027/133] fix: ftnpack: respect the BSY file of every node
 written to

---
 src/toss/ftnpack.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index 136c184..d2c69b0 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -770,6 +770,8 @@ int do_pack(PktDesc * desc, char *name, FILE * file, Packing * pack)
 {
     int ret = OK;
     Node arcnode, flonode;
+    Node *busy[3];
+    int i, k, nbusy;
 
     arcnode = desc->to;
     flonode = desc->to;
@@ -789,13 +791,25 @@ int do_pack(PktDesc * desc, char *name, FILE * file, Packing * pack)
     set_zero(&arcnode);
     set_zero(&flonode);
 
-    if (node_eq(&arcnode, &flonode) &&
-        bink_bsy_create(&flonode, NOWAIT) == ERROR) {
-        debug(1, "%s busy, skipping", znfp1(&flonode));
-        if (file)
-            fclose(file);
-/*	bink_bsy_delete(&arcnode); */
-        return OK;              /* This is o.k. */
+    /* Create BSY files for the archive, the FLO file, and the OUT packet */
+    busy[0] = &arcnode;
+    busy[1] = &flonode;
+    busy[2] = &desc->to;
+    for (nbusy = i = 0; i < 3; i++) {
+        for (k = 0; k < nbusy; k++)
+            if (node_eq(busy[i], busy[k]))
+                break;
+        if (k < nbusy)
+            continue;
+        if (bink_bsy_create(busy[i], NOWAIT) == ERROR) {
+            debug(1, "%s busy, skipping", znfp1(busy[i]));
+            if (file)
+                fclose(file);
+            while (nbusy > 0)
+                bink_bsy_delete(busy[--nbusy]);
+            return OK;          /* This is o.k. */
+        }
+        busy[nbusy++] = busy[i];
     }
 
     /* Do the various pack functions */
@@ -828,10 +842,9 @@ int do_pack(PktDesc * desc, char *name, FILE * file, Packing * pack)
         ret = do_prog(name, desc, pack);
     }
 
-    /* Delete BSY file */
-    bink_bsy_delete(&arcnode);
-    if (!node_eq(&arcnode, &flonode))
-        bink_bsy_delete(&flonode);
+    /* Delete BSY files */
+    while (nbusy > 0)
+        bink_bsy_delete(busy[--nbusy]);
 
     return ret;
 }
-- 
2.43.0


From 0463d30e65eef4b813e3b1ddbac5acddba48b3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 028/133] fix: ftnpack: use toss_pack, keep packets until they
 are on their way

---
 src/toss/ftnpack.c | 96 ++++++++++++++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 33 deletions(-)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index d2c69b0..f3fe618 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -297,8 +297,7 @@ Packing *packing_parse_line(char *buf)
     r->type = type;
     r->nodes = lon;
     r->next = NULL;
-    if (!r->maxarc)
-        r->maxarc = ma;
+    r->maxarc = ma;
 
     debug(15, "packing: pack=%c dir=%s arc=%s type=%c, maxarc=%ld",
           r->pack, r->dir ? r->dir : "", (r->arc ? r->arc->name : NULL),
@@ -533,14 +532,20 @@ int do_arcmail(char *name, Node * arcnode, Node * flonode,
     int ret;
 
     arcn = arcmail_name(arcnode, dir);
-    pktn = packing_pkt_name(NULL, name);
-    if (!arcn)
+    /* Packets which aren't changed are archived where they are */
+    pktn = desc->type == TYPE_ECHOMAIL ? name : packing_pkt_name(NULL, name);
+    if (!arcn) {
+        fclose(file);
         return ERROR;
-    if (arcmail_search(arcn, max_arc, check_size(pktn)) == ERROR)
+    }
+    if (arcmail_search(arcn, max_arc, check_size(name)) == ERROR) {
+        fclose(file);
         return ERROR;
+    }
 
     if (bink_mkdir(arcnode) == ERROR) {
         fglog("ERROR: can't create outbound dir");
+        fclose(file);
         return ERROR;
     }
 
@@ -548,18 +553,15 @@ int do_arcmail(char *name, Node * arcnode, Node * flonode,
     debug(4, "    Packet  name: %s", pktn);
     debug(4, "    Archive name: %s", arcn);
 
-    /* Rename/copy packet */
-    if (desc->type == TYPE_ECHOMAIL) {
+    /* Copy packet */
+    if (desc->type == TYPE_ECHOMAIL)
         fclose(file);
-        /* Simply rename */
-        if (rename(name, pktn) == -1) {
-            fglog("$ERROR: rename %s -> %s failed", name, pktn);
-            return ERROR;
-        }
-    } else {
+    else {
         /* Copy and process file attaches */
         if (do_noarc(name, flonode, desc, file, pktn) == ERROR) {
             fglog("ERROR: copying/processing %s -> %s failed", name, pktn);
+            if (strcmp(pktn, name))
+                unlink(pktn);
             return ERROR;
         }
     }
@@ -571,25 +573,36 @@ int do_arcmail(char *name, Node * arcnode, Node * flonode,
     chmod(arcn, PACKET_MODE);
     if (ret) {
         fglog("ERROR: %s failed, exit code=%d", buffer, ret);
+        if (strcmp(pktn, name))
+            unlink(pktn);
         return ERROR;
     }
     chmod(arcn, PACKET_MODE);
-    if (unlink(pktn) == -1)
-        fglog("$ERROR: can't remove %s", pktn);
+
+    ret = OK;
     if (!dir)
         switch (bundle_disp) {
         case 0:
-            return bink_attach(flonode, '#', arcn,
-                               flav_to_asc(desc->flav), FALSE);
+            ret = bink_attach(flonode, '#', arcn,
+                              flav_to_asc(desc->flav), FALSE);
+            break;
         case 1:
-            return bink_attach(flonode, '^', arcn,
-                               flav_to_asc(desc->flav), FALSE);
+            ret = bink_attach(flonode, '^', arcn,
+                              flav_to_asc(desc->flav), FALSE);
+            break;
         case 2:
-            return bink_attach(flonode, '@', arcn,
-                               flav_to_asc(desc->flav), FALSE);
+            ret = bink_attach(flonode, '@', arcn,
+                              flav_to_asc(desc->flav), FALSE);
+            break;
         }
 
-    return OK;
+    /* Remove packet when it is on its way */
+    if (strcmp(pktn, name) && unlink(pktn) == -1)
+        fglog("$ERROR: can't remove %s", pktn);
+    if (ret == OK && unlink(name) == -1)
+        fglog("$ERROR: can't remove %s", name);
+
+    return ret;
 }
 
 /*
@@ -597,9 +610,11 @@ int do_arcmail(char *name, Node * arcnode, Node * flonode,
  */
 int do_noarc(char *name, Node * flonode,
              PktDesc * desc, FILE * pkt_file, char *out_name)
-    /* outname --- name of .pkt file, if not NULL */
+    /* outname --- name of .pkt file, if not NULL; the packet isn't copied
+     *             if this is its own name */
 {
-    FILE *fp;
+    FILE *fp = NULL;
+    int copy = !out_name || strcmp(out_name, name);
     Message msg = { 0 };
     Textlist tl;
     int type;
@@ -609,9 +624,10 @@ int do_noarc(char *name, Node * flonode,
      */
     cf_set_best(desc->to.zone, desc->to.net, desc->to.node);
 
-    fp = out_name ? pkt_open(out_name, &desc->to, NULL, FALSE)
-        : pkt_open(NULL, &desc->to, flav_to_asc(desc->flav), FALSE);
-    if (fp == NULL) {
+    if (copy)
+        fp = out_name ? pkt_open(out_name, &desc->to, NULL, FALSE)
+            : pkt_open(NULL, &desc->to, flav_to_asc(desc->flav), FALSE);
+    if (copy && fp == NULL) {
         fglog("ERROR: can't open outbound packet for %s", znfp1(&desc->to));
         fclose(pkt_file);
         TMPS_RETURN(ERROR);
@@ -629,7 +645,7 @@ int do_noarc(char *name, Node * flonode,
         node_clear(&msg.node_to);
         if (pkt_get_msg_hdr(pkt_file, &msg, strict) != OK) {
             fglog("$ERROR reading input packet %s", name);
-            pkt_close();
+            pkt_cancel();
             fclose(pkt_file);
             TMPS_RETURN(ERROR);
         }
@@ -637,7 +653,7 @@ int do_noarc(char *name, Node * flonode,
         type = pkt_get_body(pkt_file, &tl);
         if (type == ERROR) {
             fglog("$ERROR: reading input packet %s", name);
-            pkt_close();
+            pkt_cancel();
             fclose(pkt_file);
             TMPS_RETURN(ERROR);
         }
@@ -690,10 +706,13 @@ int do_noarc(char *name, Node * flonode,
                 fglog("file attach %s not processed, no -F option", fa_name);
         }
 
+        if (!copy)
+            continue;
+
         /* Write message header */
         if (pkt_put_msg_hdr(fp, &msg, FALSE) != OK) {
             fglog("$ERROR: writing packet %s", pkt_name());
-            pkt_close();
+            pkt_cancel();
             fclose(pkt_file);
             TMPS_RETURN(ERROR);
         }
@@ -703,7 +722,7 @@ int do_noarc(char *name, Node * flonode,
         putc(0, fp);
         if (ferror(fp) != OK) {
             fglog("$ERROR: writing packet %s", pkt_name());
-            pkt_close();
+            pkt_cancel();
             fclose(pkt_file);
             TMPS_RETURN(ERROR);
         }
@@ -711,12 +730,20 @@ int do_noarc(char *name, Node * flonode,
         tmps_freeall();
     } /**while**/
 
+    if (ferror(pkt_file)) {
+        fglog("$ERROR: reading input packet %s", name);
+        pkt_cancel();
+        fclose(pkt_file);
+        TMPS_RETURN(ERROR);
+    }
+
     fclose(pkt_file);
     if (pkt_close() != OK) {
         fglog("$ERROR: can't close outbound packet");
         TMPS_RETURN(ERROR);
     }
-    if (unlink(name) != OK) {
+    /* The caller removes a packet copied to out_name */
+    if (!out_name && unlink(name) != OK) {
         fglog("$ERROR: can't remove packet %s", name);
         TMPS_RETURN(ERROR);
     }
@@ -892,6 +919,8 @@ int do_dirpack(PktDesc * desc, char *name, FILE * file, Packing * pack)
 
         pktn = packing_pkt_name(pack->dir, name);
         ret = do_noarc(name, &flonode, desc, file, pktn);
+        if (strcmp(pktn, name) && unlink(ret == OK ? name : pktn) == ERROR)
+            fglog("$ERROR: can't remove %s", ret == OK ? name : pktn);
     }
 
     /* Delete BSY file */
@@ -971,6 +1000,7 @@ int do_file(char *pkt_name)
     }
     if (pkt_get_hdr(pkt_file, &pkt) == ERROR) {
         fglog("ERROR: reading header from %s", pkt_name);
+        fclose(pkt_file);
         TMPS_RETURN(severe_error);
     }
 
@@ -1174,7 +1204,7 @@ int main(int argc, char **argv)
      * Process local options
      */
     BUF_EXPAND(in_dir, I_flag ? I_flag : cf_p_toss_route());
-    BUF_EXPAND(out_dir, O_flag ? O_flag : cf_p_toss_route());
+    BUF_EXPAND(out_dir, O_flag ? O_flag : cf_p_toss_pack());
 
     packing_init(p_flag ? p_flag : cf_p_packing());
     passwd_init();
-- 
2.43.0


From 961c9654675854b09cb289ae24f484188aa0602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:57 +0000
Subject: [PATCH 029/133] fix: run_system: a program killed by a signal was not
 successful

---
 src/common/misc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/misc.c b/src/common/misc.c
index 7d63a93..e0e18f2 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -31,6 +31,8 @@
 
 #include "fidogate.h"
 
+#include <sys/wait.h>
+
 /*
  * str_change_ext(): change extension of string buffer containing filename
  */
@@ -463,10 +465,15 @@ char *str_dosify(char *s)
 int run_system(char *s)
 {
     char cmd[BUFFERSIZE];
+    int ret;
 
     BUF_EXPAND(cmd, s);
     DOSIFY_IF_NEEDED(cmd);
-    return (system(cmd) >> 8) & 0xff;
+    ret = system(cmd);
+    /* A killed program wasn't successful */
+    if (ret == -1 || !WIFEXITED(ret))
+        return 0xff;
+    return WEXITSTATUS(ret);
 }
 
 int xfeof(FILE * fp)
-- 
2.43.0


From a180acf48da0a2ead646a2eb353e52aea78fe799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 030/133] fix: bink_attach: do not add an entry to an
 incomplete last line

---
 src/common/binkley.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/binkley.c b/src/common/binkley.c
index 1de96c9..0bfbb81 100644
--- a/src/common/binkley.c
+++ b/src/common/binkley.c
@@ -301,7 +301,7 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
     FILE *fp;
     char *n;
     char *line;
-    int lmode, found;
+    int lmode, found, n_line = FALSE;
     long pos;
     static char buf[MAXPATH];
 
@@ -357,8 +357,13 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
         debug(4, "FLO file already contains an entry, not attaching file");
     else {
         debug(4, "FLO file open and locking succeeded, attaching file");
+        /* complete an incomplete last line */
+        if (fseek(fp, -1L, SEEK_END) == OK && fgetc(fp) != '\n')
+            n_line = TRUE;
         fseek(fp, 0L, SEEK_END);
         pos = ftell(fp);
+        if (n_line)
+            fprintf(fp, "%s", cf_dos()? "\r\n" : "\n");
         if (mode)
             fprintf(fp, "%c%s%s", mode, n, cf_dos()? "\r\n" : "\n");
         else
-- 
2.43.0


From 2e448af4f1de10d5daad69f6ab08362d618fa9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 031/133] fix: ftnpack: keep the packet when a file attach
 fails

---
 src/toss/ftnpack.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index f3fe618..e491c43 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -675,10 +675,13 @@ int do_noarc(char *name, Node * flonode,
                     sz = check_size(fa_name);
                     ret = bink_attach(flonode, 0, fa_name,
                                       flav_to_asc(desc->flav), FALSE);
-                    if (ret == ERROR)
+                    if (ret == ERROR) {
                         fglog("ERROR: file attach %s for %s failed",
                               fa_name, znfp1(&desc->to));
-                    else
+                        pkt_cancel();
+                        fclose(pkt_file);
+                        TMPS_RETURN(ERROR);
+                    } else
                         fglog("file attach %s (%ldb) for %s",
                               fa_name, sz, znfp1(&desc->to));
                 } else if (file_attach_action == 1)
@@ -692,10 +695,13 @@ int do_noarc(char *name, Node * flonode,
                         sz = check_size(buffer);
                         ret = bink_attach(flonode, '^', buffer,
                                           flav_to_asc(desc->flav), FALSE);
-                        if (ret == ERROR)
+                        if (ret == ERROR) {
                             fglog("ERROR: file attach %s for %s failed",
                                   msg.subject, znfp1(&desc->to));
-                        else
+                            pkt_cancel();
+                            fclose(pkt_file);
+                            TMPS_RETURN(ERROR);
+                        } else
                             fglog("file attach %s (%ldb) for %s",
                                   msg.subject, sz, znfp1(&desc->to));
                     } else if (file_attach_action == 1)
-- 
2.43.0


From 4dee394f5ef0aeabfa4fdba86c71c0eabc7c9844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:12 +0000
Subject: [PATCH 032/133] fix: charset_recode_buf: no DefaultCharset, no
 recoding

Without DefaultCharset ftnafpkt and ftnoutpkt crashed in strcasecmp(NULL).
---
 src/common/charset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/charset.c b/src/common/charset.c
index ad3df3c..6e97713 100644
--- a/src/common/charset.c
+++ b/src/common/charset.c
@@ -414,10 +414,11 @@ int charset_recode_buf(char **dst, size_t *dstlen,
     if (srclen == 0)
         return ERROR;
 
-    debug(6, "mime charset: recoding from %s to %s", from, to);
+    debug(6, "mime charset: recoding from %s to %s", from ? from : "-NONE-",
+          to ? to : "-NONE-");
 
     rc = !OK;
-    if (!strieq(from, to))
+    if (from != NULL && to != NULL && !strieq(from, to))
         rc = charset_recode_iconv(dst, dstlen, src, srclen, from, to);
 
     if (rc != OK) { /* both the same encoding or recoding failed */
-- 
2.43.0


From 30c359b3fe991a00b89100537b9afa33cdb0fe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 033/133] fix: wildmatch: stay within the string and the
 pattern

[^x] matched the end of the string and went on behind it, a pattern
ending with \, [a or [a- was read beyond its end. A - at the start or
end of a class is no range.
---
 src/common/wildmat.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/common/wildmat.c b/src/common/wildmat.c
index 1994fe5..b99cf73 100644
--- a/src/common/wildmat.c
+++ b/src/common/wildmat.c
@@ -219,7 +219,8 @@ int wildmatch(char *s, char *p, int ic)
         switch (*p) {
         case '\\':
             /* Literal match with following character; fall through. */
-            p++;
+            if (p[1])
+                p++;
         default:
             if (!char_eq(*s, *p, ic))
                 goto BackTrack;
@@ -242,13 +243,20 @@ int wildmatch(char *s, char *p, int ic)
                 int matched;
                 int reverse;
 
+                /* A class never matches the end of the string */
+                if (*s == '\0')
+                    return FALSE;
                 /* [^....] means inverse character class. */
                 if ((reverse = (p[1] == '^')))
                     p++;
                 for (last = 0400, matched = FALSE; *++p && *p != ']'; last = *p)
-                    if (*p == '-' ? char_range(*s, last, *++p, ic)
+                    if (*p == '-' && last != 0400 && p[1] && p[1] != ']'
+                        ? char_range(*s, last, *++p, ic)
                         : char_eq(*s, *p, ic))
                         matched = TRUE;
+                /* No ] */
+                if (*p == '\0')
+                    return FALSE;
                 if (matched == reverse)
                     goto BackTrack;
                 continue;
-- 
2.43.0


From db6de54945ae50cbdc6a7f066673efed98917e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:51 +0000
Subject: [PATCH 034/133] fix: areas.bbs: P marks the link it precedes as
 passive

An uninitialized or the previous link was added to the passive list.
---
 src/common/areasbbs.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 404174f..5d2b064 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -124,7 +124,7 @@ AreasBBS *areasbbs_new(void)
 static int areasbbs_add_string(LON * lon, LON * lon_passive, char *p)
 {
     Node node, old;
-    int ret;
+    int ret, passive;
 
     old.zone = cf_zone();
     old.net = old.node = old.point = -1;
@@ -132,13 +132,14 @@ static int areasbbs_add_string(LON * lon, LON * lon_passive, char *p)
 
     ret = OK;
     for (; p; p = xstrtok(NULL, " \t\r\n")) {
-        if ('P' == *p) {
-            lon_add(lon_passive, &node);
+        passive = ('P' == *p);
+        if (passive)
             p++;
-        }
         if (asc_to_node_diff(p, &node, &old) == OK) {
             old = node;
             lon_add(lon, &node);
+            if (passive)
+                lon_add(lon_passive, &node);
         } else {
             ret = ERROR;
             break;
-- 
2.43.0


From fd496530a7eefa48f0a6f407b9afcc26d98d57c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 035/133] fix: areasbbs_print: write everything that was read

-r was dropped, -u 0 became -u 1, a " in the description cut off the
links of the area, an empty file got the first line (null).
---
 src/common/areasbbs.c | 52 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 5d2b064..9cd5789 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -359,6 +359,27 @@ int areasbbs_init(char *name)
     return OK;
 }
 
+/*
+ * Output a word in a way it can be read back by xstrtok()
+ */
+static void areasbbs_print_word(FILE * fp, char *s, int quote)
+{
+    if (!quote && *s && !s[strcspn(s, "\" \t\r\n")]) {
+        fputs(s, fp);
+        return;
+    }
+
+    fputc('"', fp);
+    for (; *s; s++) {
+        if (*s == '"')
+            fputc('\\', fp);
+        fputc(*s, fp);
+        if (*s == '\\' && !s[1])     /* must not quote the closing " */
+            fputc(' ', fp);
+    }
+    fputc('"', fp);
+}
+
 /*
  * Output AREAS.BBS, format short sorted list of downlink
  */
@@ -366,20 +387,27 @@ int areasbbs_print(FILE * fp)
 {
     AreasBBS *p;
 
-    fprintf(fp, "%s\n", areasbbs_1stline);
+    fprintf(fp, "%s\n", areasbbs_1stline ? areasbbs_1stline : "");
 
     for (p = areasbbs_list; p; p = p->next) {
         if (p->flags & AREASBBS_PASSTHRU)
             fprintf(fp, "#");
-        fprintf(fp, "%s %s ", p->dir, p->area);
+        fprintf(fp, "%s ", p->dir);
+        areasbbs_print_word(fp, p->area, FALSE);
+        fputc(' ', fp);
         if (p->zone != -1)
             fprintf(fp, "-z %d ", p->zone);
         if (p->addr.zone != -1)
             fprintf(fp, "-a %s ", znfp1(&p->addr));
         if (p->lvl != -1)
             fprintf(fp, "-l %d ", p->lvl);
-        if (p->key)
-            fprintf(fp, "-k %s ", p->key);
+        if (p->key) {
+            fprintf(fp, "-k ");
+            areasbbs_print_word(fp, p->key, FALSE);
+            fputc(' ', fp);
+        }
+        if (p->flags & AREASBBS_READONLY)
+            fprintf(fp, "-r ");
         if (0 < p->passive.size) {
             fprintf(fp, "-p ");
             lon_print_passive(&(p->passive), fp);
@@ -390,11 +418,17 @@ int areasbbs_print(FILE * fp)
             fprintf(fp, "-e %d ", p->expire_n);
         if (p->expire_t)
             fprintf(fp, "-n %d ", p->expire_t);
-        if (p->desc)
-            fprintf(fp, "-d \"%s\" ", p->desc);
-        if (p->state)
-            fprintf(fp, "-s %s ", p->state);
-        if (p->uplinks > 1)
+        if (p->desc) {
+            fprintf(fp, "-d ");
+            areasbbs_print_word(fp, p->desc, TRUE);
+            fputc(' ', fp);
+        }
+        if (p->state) {
+            fprintf(fp, "-s ");
+            areasbbs_print_word(fp, p->state, FALSE);
+            fputc(' ', fp);
+        }
+        if (p->uplinks != 1)
             fprintf(fp, "-u %d ", p->uplinks);
         lon_print_sorted(&p->nodes, fp, p->uplinks);
         fprintf(fp, "\n");
-- 
2.43.0


From 0e0e783446da9c82d5d3229eee1551a1c2393fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:10 +0000
Subject: [PATCH 036/133] fix: areafix: DELETE needs the password, too

The permission in the passwd entry of a node was enough to delete areas
with a wrong password.
---
 src/areafix/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index c9cc6db..5827146 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1967,7 +1967,7 @@ int cmd_delete(Node * node, char *area)
     Area *autocreate_area;
 #endif                          /* ACTIVE_LOOKUP */
 
-    if (!authorized_delete) {
+    if (!authorized || !authorized_delete) {
         areafix_printf("Command DELETE: not authorized.");
         return OK;
     }
-- 
2.43.0


From 0bc3d9f86116a49bc93cd8c002297943c8ae70f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:10 +0000
Subject: [PATCH 037/133] fix: areafix: NEW without an area name, passwd
 entries without arguments

NEW alone crashed. Without arguments in the passwd entry level and key of
the node were taken from what the last xstrtok() call had left over.
---
 src/areafix/areafix.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 5827146..e417c0c 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -322,7 +322,7 @@ int areafix_auth_check(Node * node, char *passwd, int checkpass)
     }
 
     /* Extract level, key, and real name from pwd->args */
-    s = strsave(pwd->args);
+    s = strsave(pwd->args ? pwd->args : "");
     if ((p = xstrtok(s, " \t")))
         authorized_lvl = atoi(p);
     if ((p = xstrtok(NULL, " \t")))
@@ -732,6 +732,10 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
     }
 
     name = xstrtok(line, " \t");
+    if (!name) {
+        areafix_printf("Command NEW: missing area name.");
+        return OK;
+    }
 
     if ((p = areasbbs_lookup(name))) {
         areafix_printf("%-41s: area already exists,\r\n"
-- 
2.43.0


From dd63e05ff9bd3b9863b8403bc0ce009f47a8ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:10 +0000
Subject: [PATCH 038/133] fix: areafix: SUBSCRIBE to the last area of areas.bbs
 is no forward request

---
 src/areafix/areafix.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index e417c0c..a3d00a9 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1715,6 +1715,9 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
         }
     }
 
+    if (sub_areas && !iswc)
+        return OK;
+
     if (!authorized_fwd) {
         areafix_printf("%-41s: forward request not authorized", area_in);
         return OK;
-- 
2.43.0


From 89e888d721ee431f7cc315540ba32ea1a772c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:10 +0000
Subject: [PATCH 039/133] fix: areafix: SUBSCRIBE makes a passive link active

It was told to be subscribed, but remained passive and got nothing.
---
 src/areafix/areafix.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index a3d00a9..d575f1d 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1630,6 +1630,8 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
 
             if (l->first) {
                 lon_add(l, node);
+                if (lon_search(&p->passive, node))
+                    lon_remove(&p->passive, node);
                 areasbbs_changed();
 
                 snprintf(buffer, sizeof(buffer), "%-41s: ", p->area);
@@ -1663,10 +1665,6 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
                         areasbbs_chstate(&p->state, "UP", 'W');
                         p->time = time(NULL);
 
-                        if (lon_search(&p->passive, node)) {
-                            lon_remove(&p->passive, node);
-                        }
-
                         /* Not subscribed at uplink, print note */
                         areafix_printf
                             ("        (this area is currently not subscribed at uplink %s)",
-- 
2.43.0


From d6a3225be65cd5f8dd682b775c4e1b2f7e1c52d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:10 +0000
Subject: [PATCH 040/133] fix: areafix: PASSIVE/ACTIVE: an area without uplink
 entry does not end the command

All areas after it were silently left as they were.
---
 src/areafix/areafix.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index d575f1d..f055298 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -2042,7 +2042,10 @@ int cmd_passive(Node * node, char *area, Textlist * upl)
                         if (!a) {
                             fglog("WARNING: can't find uplink for %s area",
                                   p->area);
-                            return OK;
+                            areafix_printf
+                                ("%-41s: no uplink entry, can't set passive",
+                                 p->area);
+                            continue;
                         }
                         tl_appendf(upl, "%s,%s,%s,%s,-%s",
                                    znfp1(&a->uplink),
@@ -2103,7 +2106,10 @@ int cmd_active(Node * node, char *area, Textlist * upl)
                     if (!a) {
                         fglog("WARNING: can't find uplink for %s area",
                               p->area);
-                        return OK;
+                        areafix_printf
+                            ("%-41s: no uplink entry, can't set active",
+                             p->area);
+                        continue;
                     }
                     tl_appendf(upl, "%s,%s,%s,%s,+%s",
                                znfp1(&a->uplink),
-- 
2.43.0


From 1bf22298abadde1ca72394045d7406c744132bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:10 +0000
Subject: [PATCH 041/133] fix: areafix: count the areas of the node the limit
 is for

The number of areas was kept from one node and message to the next one, so
that nodes were refused, or allowed more areas than their limit.
---
 src/areafix/areafix.c | 67 +++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 38 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index f055298..c5a23b3 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -110,7 +110,6 @@ static char *authorized_name = "Sysop";
 #ifdef SUB_LIMIT
 static int authorized_lim_A = 0;
 static int authorized_lim_G = 0;
-static int lim_g = 0;
 #endif                          /* SUB_LIMIT */
 static Node authorized_node = { -1, -1, -1, -1, "" };
 
@@ -1481,15 +1480,34 @@ int cmd_unlinked(Node * node)
 
 #define		DELETE 2
 
+#ifdef SUB_LIMIT
+/*
+ * Number of areas (with this uplink) the node is linked to
+ */
+static int count_areas(Node * node, Node * uplink)
+{
+    AreasBBS *p;
+    int n = 0;
+
+    for (p = areasbbs_first(); p; p = p->next)
+        if (p->nodes.size > 1 &&
+            (lon_search(&p->nodes, node) || lon_search(&p->passive, node)) &&
+            (!uplink || lon_search(&p->nodes, uplink)))
+            n++;
+
+    return n;
+}
+#endif                          /* SUB_LIMIT */
+
 /*
  * Add command
  */
 int cmd_sub(Node * node, char *area_in, Textlist * upl)
 {
 
-    AreasBBS *p, *n;
+    AreasBBS *p;
     AreaUplink *a;
-    LON *l, *ln;
+    LON *l;
     int sub_areas = 0;
     int iswc;
     char buf[BUFSIZ];
@@ -1499,7 +1517,7 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
     char tmp[64];
 #endif                          /* AFSEND_ECHO_STATUS */
 #ifdef SUB_LIMIT
-    int lim_a;
+    int lim;
 #endif
 #ifdef SUBSCRIBE_ZONEGATE
     int zg_flag = FALSE;
@@ -1524,16 +1542,6 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
 
     BUF_COPY(area, area_in);
 
-#ifdef SUB_LIMIT
-    if (lim_g < 1)
-        for (p = areasbbs_first(); p; p = p->next) {
-            l = &p->nodes;
-
-            if (l && l->size > 1 && (lon_search(l, node) ||
-                                     lon_search(&p->passive, node)))
-                lim_g++;
-        }
-#endif                          /* SUB_LIMIT */
     iswc = is_wildcard(area);
 
     BUF_COPY(buf, area);
@@ -1571,38 +1579,28 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
                         lon_remove(&p->passive, node);
                         areasbbs_changed();
                         areafix_printf("%-41s: set active", p->area);
-#ifdef SUB_LIMIT
-                        lim_g++;
-#endif                          /* SUB_LIMIT */
                     } else
                         areafix_printf("%-41s: already active", p->area);
                     continue;
                 }
 
 #ifdef SUB_LIMIT
-                if (authorized_lim_G > 0 && authorized_lim_G <= lim_g) {
+                if (authorized_lim_G > 0 &&
+                    authorized_lim_G <= (lim = count_areas(node, NULL))) {
                     areafix_printf("%-41s: access denied (general limit %d)",
-                                   p->area, lim_g);
+                                   p->area, lim);
                     if (upl == NULL)
                         return DELETE;
 
                     continue;
                 }
-                if (authorized_lim_A > 0) {
-                    for (lim_a = 0, n = areasbbs_first(); n; n = n->next) {
-                        ln = &n->nodes;
-
-                        if (ln && ln->size > 1 && l->first &&
-                            (lon_search(ln, node)
-                             || lon_search(&p->passive, node))
-                            && lon_search(ln, &l->first->node))
-                            lim_a++;
-                    }
-                    if (authorized_lim_A <= lim_a) {
+                if (authorized_lim_A > 0 && l->first) {
+                    lim = count_areas(node, &l->first->node);
+                    if (authorized_lim_A <= lim) {
                         areafix_printf("%-41s: access denied\r\n"
                                        "%-41s  (limit for uplink %s = %d)",
                                        p->area, " ", znfp1(&l->first->node),
-                                       lim_a);
+                                       lim);
                         if (upl == NULL)
                             return DELETE;
 
@@ -1647,10 +1645,6 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
 #endif                          /* AFSEND_ECHO_STATUS */
                 areafix_printf("%s", buffer);
 
-#ifdef SUB_LIMIT
-                lim_g++;
-#endif                          /* SUB_LIMIT */
-
                 if (areasbbs_isstate(p->state, 'U') ||
                     areasbbs_isstate(p->state, 'P')) {
                     if ((a =
@@ -1841,9 +1835,6 @@ int cmd_unsub(Node * node, char *area, Textlist * upl)
                     areasbbs_changed();
                     areafix_printf("%-41s: unsubscribed", p->area);
 
-#ifdef SUB_LIMIT
-                    lim_g--;
-#endif                          /* SUB_LIMIT */
                     fglog("%s: -%s", znfp1(node), p->area);
 
                     if ((l->size == 1 && p->flags & AREASBBS_PASSTHRU)) {
-- 
2.43.0


From 4ef68892e7fc0e6c371099568d8498dc598a5586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:31 +0000
Subject: [PATCH 042/133] fix: areafix: AutoCreateSubscribe...Nodes for every
 area created

The config string was cut off after the first node while creating the first
area, all further ones got only that node.
---
 src/areafix/areafix.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index c5a23b3..7b32b3f 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -957,18 +957,20 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
              s1 = cf_get_string("AutoCreateSubscribeFileechoNodes", FALSE)) {
 
             Node node, old;
+            char *s = strsave(s1);
+
             old.zone = cf_zone();
             old.net = old.node = old.point = -1;
 
-            for (s2 = xstrtok(s1, " \t"); s2 && *s2; s2 = xstrtok(NULL, " \t"))
+            for (s2 = xstrtok(s, " \t"); s2 && *s2; s2 = xstrtok(NULL, " \t"))
                 if (OK == asc_to_node_diff(s2, &node, &old)) {
                     old = node;
                     lon_add(&(p->nodes), &node);
                 } else
                     fglog("config: AutoCreateSubscribeFileechoNodes: \
 			    invalid entry \"%s\"", s2);
+            xfree(s);
         }
-        xfree(s1);
     } else {
         /*
          * Subscribe nodes if needed
@@ -977,10 +979,12 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
              s1 && *s1; s1 = cf_get_string("AutoCreateSubscribeNodes", FALSE)) {
 
             Node node, old;
+            char *s = strsave(s1);
+
             old.zone = cf_zone();
             old.net = old.node = old.point = -1;
 
-            for (s2 = xstrtok(s1, " \t"); s2 && *s2; s2 = xstrtok(NULL, " \t"))
+            for (s2 = xstrtok(s, " \t"); s2 && *s2; s2 = xstrtok(NULL, " \t"))
                 if (OK == asc_to_node_diff(s2, &node, &old)) {
                     old = node;
                     lon_add(&(p->nodes), &node);
@@ -988,8 +992,8 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
                 } else
                     fglog("config: AutoCreateSubscribeNodes: invalid entry \
 			\"%s\"", s2);
+            xfree(s);
         }
-        xfree(s1);
     }
 #ifndef ACTIVE_LOOKUP
     if (cf_get_string("AutoCreateNG", TRUE)) {
-- 
2.43.0


From 59feefd6539c42cf50747869597c75f21f9a3e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:04 +0000
Subject: [PATCH 043/133] fix: areafix: send every request, with the password
 and robot name it is for

Requests for an uplink were dropped if its address was contained in the one
of an uplink before (2:1/2, 2:1/20), or written in another form. Notify
messages and requests to the same uplink were sent with the subject of the
first one.
---
 src/areafix/areafix.c | 93 ++++++++++++++++++++++---------------------
 1 file changed, 47 insertions(+), 46 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 7b32b3f..cc6a992 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1655,7 +1655,7 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
                          uplinks_line_get(areafix, &l->first->node)) != NULL) {
                         /* Subscribe from uplink */
                         tl_appendf(upl, "%s,%s,%s,%s,+%s",
-                                   znf1(&l->first->node),
+                                   znfp1(&a->uplink),
                                    a->robotname,
                                    fix_name ? fix_name : areafix_name(),
                                    a->password, str_upper(p->area));
@@ -2137,78 +2137,79 @@ void areafix_set_changed(void)
     areasbbs_changed();
 }
 
+/*
+ * Request of a line for send_request(), and the length of what comes before
+ */
+static char *request_text(char *line, size_t *len)
+{
+    char *p = line;
+    int i;
+
+    /* node, to, from, subject */
+    for (i = 0; i < 4; i++) {
+        if (!(p = strchr(p, ',')))
+            return NULL;
+        p++;
+    }
+    *len = p - line;
+
+    return p;
+}
+
 /*
  * Sending subscribe/unsubscribe requests to uplinks
  */
 void send_request(Textlist * upl)
 {
-
-    Textline *tl;
-    Textlist out, send;
-    char links[BUFSIZ];
-    char *link = NULL, *l, *s;
+    Textline *tl, *t;
+    Textlist send;
+    char *l, *s, *r;
+    size_t len, n;
     Node tmp;
     Message msg = { 0 };
 
-    tl_init(&out);
-    tl_init(&send);
-
     pkt_outdir(cf_p_outpkt(), NULL);
-    BUF_COPY(links, "");
-
-    while (1) {
-        for (tl = upl->first; NULL != tl; tl = tl->next) {
-            s = strsave(tl->line);
-            l = xstrtok(s, ",");
-
-            if (l) {
-                if (s) {
-                    if (!link && !strstr(links, l)) {
-                        link = strsave(l);
-                        BUF_APPEND2(links, link, ",");
-                    }
-                    if (link && strcmp(l, link) == 0) {
-                        fglog("request %s", tl->line);
-                        tl_append(&out, tl->line);
-                    }
-                    xfree(s);
-                }
-            }
-        }
 
-        if (!link)
-            break;
+    for (tl = upl->first; tl; tl = tl->next) {
+        if (!(l = request_text(tl->line, &len)))
+            continue;
+
+        /* Sent together with a previous one */
+        for (t = upl->first; t != tl; t = t->next)
+            if (strneq(t->line, tl->line, len))
+                break;
+        if (t != tl)
+            continue;
+
+        tl_init(&send);
+        tl_appendf(&send, "\r\n%s", l);
+        fglog("request %s", tl->line);
+        for (t = tl->next; t; t = t->next)
+            if (strneq(t->line, tl->line, len)
+                && (r = request_text(t->line, &n))) {
+                fglog("request %s", t->line);
+                tl_append(&send, r);
+            }
 
-        xfree(link);
-        link = NULL;
-        tl = out.first;
         node_clear(&tmp);
 
         msg.attr = MSG_DIRECT;
         msg.cost = 0;
         msg.date = time(NULL);
         msg.area = NULL;
-        asc_to_node(xstrtok(tl->line, ","), &tmp, FALSE);
+        s = strsave(tl->line);
+        asc_to_node(xstrtok(s, ","), &tmp, FALSE);
         msg.node_to = tmp;
         BUF_COPY(msg.name_to, xstrtok(NULL, ","));
         BUF_COPY(msg.name_from, xstrtok(NULL, ","));
         BUF_COPY(msg.subject, xstrtok(NULL, ","));
+        xfree(s);
         cf_set_best(tmp.zone, tmp.net, tmp.node);
         msg.node_from = cf_n_addr();
 
-        l = xstrtok(NULL, ",");
-        tl_appendf(&send, "\r\n%s", l);
-
-        tl = tl->next;
-
-        for (; tl != NULL; tl = tl->next) {
-            l = strrchr(tl->line, ',') + 1;
-            tl_append(&send, l);
-        }
         outpkt_netmail(&msg, &send, areafix_name(), NULL, NULL);
 
         tl_clear(&send);
-        tl_clear(&out);
     }
 }
 
-- 
2.43.0


From 579566107cecb5cab5869eed74eef30960c74a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:04 +0000
Subject: [PATCH 044/133] fix: ftnafpkt: do not lose the last line of a long
 reply

---
 src/areafix/ftnafpkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index f7f2d1e..c45181b 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -122,7 +122,7 @@ int do_netmail(Message * msg, MsgBody * body)
         } else {
             if (outpkt_netmail(&outmsg, &tmp, PROGRAM, NULL, NULL))
                 return ERROR;
-            ln = 0;
+            ln = 1;
             tl_clear(&tmp);
             if (!tp)
                 break;
-- 
2.43.0


From 9c635d25afc5f2007989ada6090430a6b9ac45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:04 +0000
Subject: [PATCH 045/133] fix: ftnafpkt: accept -w

---
 src/areafix/ftnafpkt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index c45181b..2c9e84d 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -453,6 +453,7 @@ int main(int argc, char **argv)
                 w_flag = atoi(optarg);
             else
                 w_flag = WAIT;
+            break;
         default:
             short_usage();
             return EX_USAGE;
-- 
2.43.0


From e8cbb99764694e06767b5735586ff54e701fd914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:04 +0000
Subject: [PATCH 046/133] fix: ftnafpkt: lock areas.bbs for packets on the
 command line, too

Changes made by other programs in the meantime were overwritten. The locks
are also removed if areas.bbs can't be read.
---
 src/areafix/ftnafpkt.c | 84 ++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 52 deletions(-)

diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index 2c9e84d..5f2bd60 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -511,29 +511,34 @@ int main(int argc, char **argv)
             exit_free();
             return EXIT_ERROR;
         }
+    }
 
-        /* Lock file */
-        if (l_flag)
-            if (lock_program(PROGRAM, NOWAIT) == ERROR) {
-                /* Already busy */
-                exit_free();
-                return EXIT_BUSY;
-            }
-
-        BUF_COPY2(bbslock, areafix_areasbbs(), ".lock");
-        if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT)) {
+    /* Lock file */
+    if (l_flag)
+        if (lock_program(PROGRAM, NOWAIT) == ERROR) {
+            /* Already busy */
             exit_free();
             return EXIT_BUSY;
         }
 
-        /* Read areas.bbs */
-        if (areasbbs_init(areafix_areasbbs()) == ERROR) {
-            if (l_flag)
-                unlock_program(PROGRAM);
-            exit_free();
-            return EXIT_ERROR;
-        }
+    BUF_COPY2(bbslock, areafix_areasbbs(), ".lock");
+    if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT)) {
+        if (l_flag)
+            unlock_program(PROGRAM);
+        exit_free();
+        return EXIT_BUSY;
+    }
 
+    /* Read areas.bbs */
+    if (areasbbs_init(areafix_areasbbs()) == ERROR) {
+        unlock_path(bbslock);
+        if (l_flag)
+            unlock_program(PROGRAM);
+        exit_free();
+        return EXIT_ERROR;
+    }
+
+    if (optind >= argc) {
         for (pkt_name = dir_get(TRUE); pkt_name; pkt_name = dir_get(FALSE)) {
             if (do_file(pkt_name) == ERROR) {
                 ret = EXIT_ERROR;
@@ -546,34 +551,7 @@ int main(int argc, char **argv)
         }
 
         dir_close();
-
-        /* Rewrite areas.bbs */
-        if (ret == EXIT_OK && !n_flag)
-            if (areasbbs_rewrite() == ERROR)
-                ret = EXIT_ERROR;
-
-        unlock_path(bbslock);
-
-        /* Lock file */
-        if (l_flag)
-            unlock_program(PROGRAM);
     } else {
-        /* Lock file */
-        if (l_flag)
-            if (lock_program(PROGRAM, NOWAIT) == ERROR) {
-                /* Already busy */
-                exit_free();
-                return EXIT_BUSY;
-            }
-
-        /* Read areas.bbs */
-        if (areasbbs_init(areafix_areasbbs()) == ERROR) {
-            if (l_flag)
-                unlock_program(PROGRAM);
-            exit_free();
-            return EXIT_ERROR;
-        }
-
         /* Process packet files on command line */
         for (; optind < argc; optind++) {
             if (do_file(argv[optind]) == ERROR) {
@@ -585,16 +563,18 @@ int main(int argc, char **argv)
                 break;
             }
         }
+    }
 
-        /* Rewrite areas.bbs */
-        if (ret == EXIT_OK && !n_flag)
-            if (areasbbs_rewrite() == ERROR)
-                ret = EXIT_ERROR;
+    /* Rewrite areas.bbs */
+    if (ret == EXIT_OK && !n_flag)
+        if (areasbbs_rewrite() == ERROR)
+            ret = EXIT_ERROR;
 
-        /* Lock file */
-        if (l_flag)
-            unlock_program(PROGRAM);
-    }
+    unlock_path(bbslock);
+
+    /* Lock file */
+    if (l_flag)
+        unlock_program(PROGRAM);
 
     areafix_free();
     exit_free();
-- 
2.43.0


From 0fa33d3e5e986a767d20a030023d45fad97c7902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:04 +0000
Subject: [PATCH 047/133] fix: ftnaf: never change areas.bbs without its lock

Commands on the command line did not lock it, -m went on without the lock
and removed the lock of the other program.
---
 src/areafix/ftnaf.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/areafix/ftnaf.c b/src/areafix/ftnaf.c
index 291207c..573f3c0 100644
--- a/src/areafix/ftnaf.c
+++ b/src/areafix/ftnaf.c
@@ -323,16 +323,18 @@ int main(int argc, char **argv)
             BUF_COPY2(bbslock, areas_bbs, ".lock");
             if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT))
                 ret = EX_OSERR;
-            if (areasbbs_init(areafix_areasbbs()) == ERROR)
-                ret = EX_OSFILE;
-            else
-                ret = do_mail();
-            if (ret == 0 && !n_flag)
-                if (areasbbs_rewrite() == ERROR)
-                    ret = EX_CANTCREAT;
-            unlock_path(bbslock);
+            else {
+                if (areasbbs_init(areafix_areasbbs()) == ERROR)
+                    ret = EX_OSFILE;
+                else
+                    ret = do_mail();
+                if (ret == 0 && !n_flag)
+                    if (areasbbs_rewrite() == ERROR)
+                        ret = EX_CANTCREAT;
+                unlock_path(bbslock);
+            }
+            unlock_program(PROGRAM);
         }
-        unlock_program(PROGRAM);
     } else {
         /*
          * Process command on command line
@@ -357,7 +359,15 @@ int main(int argc, char **argv)
 
         areafix_auth_check(&node, NULL, FALSE);
 
+        BUF_COPY2(bbslock, areas_bbs, ".lock");
+        if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT)) {
+            areafix_free();
+            exit_free();
+            return EX_OSERR;
+        }
+
         if (areasbbs_init(areafix_areasbbs()) == ERROR) {
+            unlock_path(bbslock);
             areafix_free();
             exit_free();
             return EX_OSFILE;
@@ -378,6 +388,8 @@ int main(int argc, char **argv)
         if (ret == 0 && !n_flag)
             if (areasbbs_rewrite() == ERROR)
                 ret = EX_CANTCREAT;
+
+        unlock_path(bbslock);
     }
 
     areafix_free();
-- 
2.43.0


From 8bb6d7a6f4e9a835422ace719f16746f5fd576cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:26 +0000
Subject: [PATCH 048/133] fix: ftnaf: a mail without Subject does not crash

---
 src/areafix/ftnaf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/areafix/ftnaf.c b/src/areafix/ftnaf.c
index 573f3c0..6b39e12 100644
--- a/src/areafix/ftnaf.c
+++ b/src/areafix/ftnaf.c
@@ -137,7 +137,7 @@ int do_mail(void)
 
     /* Run Areafix */
     subj = header_get(h, "Subject");
-    areafix_do(&xfrom.node, subj, &tl, (r_flag ? NULL : &out));
+    areafix_do(&xfrom.node, subj ? subj : "", &tl, (r_flag ? NULL : &out));
 
     /* Address may have been changed using the PASSWD command */
     xfrom.node = *areafix_auth_node();
-- 
2.43.0


From 2548a63e701d20166c00f2c3f5e179be2733044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:58 +0000
Subject: [PATCH 049/133] fix: ftnafpkt: save areas.bbs before a packet is
 removed

All packets were removed before areas.bbs was written, a crash, a signal or a
bad packet afterwards lost changes which had been confirmed. Signals stop
between packets.
---
 src/areafix/ftnafpkt.c | 33 ++++++++++++++++++++++-----------
 src/common/areasbbs.c  |  1 +
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index 5f2bd60..3165893 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -65,6 +65,7 @@ static int severe_error = OK;   /* ERROR: exit after error */
 static int signal_exit = FALSE; /* Flag: TRUE if signal received */
 static int r_flag = FALSE;      /* -r --no-reply */
 static int s_flag = FALSE;      /* -s --answer */
+static int n_flag = FALSE;      /* -n --no-rewrite */
 static bool strict;             /* strict check for names and subject */
 
 /*
@@ -244,12 +245,6 @@ int do_packet(FILE * pkt_file, Packet * pkt)
                 TMPS_RETURN(ERROR);
         }
 
-        /*
-         * Exit if signal received
-         */
-        if (signal_exit) {
-            TMPS_RETURN(severe_error = ERROR);
-        }
     } /**while(type == MSG_TYPE)**/
 
     TMPS_RETURN(OK);
@@ -263,6 +258,7 @@ int do_file(char *pkt_name)
     Packet pkt;
     FILE *pkt_file;
     long pkt_size;
+    int ret;
 
     /* Open packet and read header */
     pkt_file = fopen(pkt_name, R_MODE);
@@ -283,15 +279,22 @@ int do_file(char *pkt_name)
     fglog("packet %s (%ldb) from %s to %s", pkt_name, pkt_size,
           znfp1(&pkt.from), znfp2(&pkt.to));
 
-    if (do_packet(pkt_file, &pkt) == ERROR) {
+    ret = do_packet(pkt_file, &pkt);
+    fclose(pkt_file);
+
+    /*
+     * The changes are already confirmed, save them before the packet is gone.
+     * If that fails, the packet is processed again next time.
+     */
+    if (!n_flag && areasbbs_rewrite() == ERROR)
+        TMPS_RETURN(ERROR);
+
+    if (ret == ERROR) {
         fglog("ERROR: processing %s", pkt_name);
-        fclose(pkt_file);
         rename_bad(pkt_name);
         TMPS_RETURN(severe_error);
     }
 
-    fclose(pkt_file);
-
     if (unlink(pkt_name)) {
         fglog("ERROR: can't unlink %s", pkt_name);
         rename_bad(pkt_name);
@@ -366,7 +369,7 @@ options: -I --in-dir DIR              set input packet directory\n\
 int main(int argc, char **argv)
 {
     int c, ret;
-    int l_flag = FALSE, n_flag = FALSE;
+    int l_flag = FALSE;
     char *I_flag = NULL, *O_flag = NULL;
     char *c_flag = NULL;
     char *a_flag = NULL, *u_flag = NULL;
@@ -544,6 +547,10 @@ int main(int argc, char **argv)
                 ret = EXIT_ERROR;
                 break;
             }
+            if (signal_exit) {
+                ret = EXIT_ERROR;
+                break;
+            }
             if (must_exit) {
                 ret = EXIT_CONTINUE;
                 break;
@@ -558,6 +565,10 @@ int main(int argc, char **argv)
                 ret = EXIT_ERROR;
                 break;
             }
+            if (signal_exit) {
+                ret = EXIT_ERROR;
+                break;
+            }
             if (must_exit) {
                 ret = EXIT_CONTINUE;
                 break;
diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 9cd5789..8c43132 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -537,6 +537,7 @@ int areasbbs_rewrite(void)
     }
 
     fglog("%s changed", buffer);
+    areasbbs_changed_flag = FALSE;
 
     return OK;
 }
-- 
2.43.0


From e9df88a90aa58400dabc2746d7facfdcc09dc783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:33 +0000
Subject: [PATCH 050/133] fix: areafix: a request or reply which can't be
 written is tried again

---
 src/areafix/areafix.c    | 16 ++++++++++------
 src/areafix/ftnaf.c      | 15 ++++++++++-----
 src/areafix/ftnafpkt.c   | 18 ++++++++++++------
 src/include/prototypes.h |  2 +-
 4 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index cc6a992..db6b14d 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -440,7 +440,7 @@ void zonegate_init(void)
 /*
  * Process Areafix command from stdin
  */
-void areafix_do(Node * node, char *subj, Textlist * tl, Textlist * out)
+int areafix_do(Node * node, char *subj, Textlist * tl, Textlist * out)
 {
     char *passwd;
     char *p, *q;
@@ -497,9 +497,7 @@ void areafix_do(Node * node, char *subj, Textlist * tl, Textlist * out)
         areafix_do_cmd(node, p, out, &upl);
     }
 
-    send_request(&upl);
-
-    return;
+    return send_request(&upl);
 }
 
 /*
@@ -2159,7 +2157,7 @@ static char *request_text(char *line, size_t *len)
 /*
  * Sending subscribe/unsubscribe requests to uplinks
  */
-void send_request(Textlist * upl)
+int send_request(Textlist * upl)
 {
     Textline *tl, *t;
     Textlist send;
@@ -2167,6 +2165,7 @@ void send_request(Textlist * upl)
     size_t len, n;
     Node tmp;
     Message msg = { 0 };
+    int ret = OK;
 
     pkt_outdir(cf_p_outpkt(), NULL);
 
@@ -2207,10 +2206,15 @@ void send_request(Textlist * upl)
         cf_set_best(tmp.zone, tmp.net, tmp.node);
         msg.node_from = cf_n_addr();
 
-        outpkt_netmail(&msg, &send, areafix_name(), NULL, NULL);
+        if (outpkt_netmail(&msg, &send, areafix_name(), NULL, NULL) != OK) {
+            fglog("ERROR: can't send request to %s", znfp1(&tmp));
+            ret = ERROR;
+        }
 
         tl_clear(&send);
     }
+
+    return ret;
 }
 
 /*
diff --git a/src/areafix/ftnaf.c b/src/areafix/ftnaf.c
index 6b39e12..05abdc1 100644
--- a/src/areafix/ftnaf.c
+++ b/src/areafix/ftnaf.c
@@ -52,7 +52,7 @@ char *areafix_areasbbs(void);
 void areafix_set_areasbbs(char *name);
 char *areafix_name(void);
 Node *areafix_auth_node(void);
-void areafix_do(Node * node, char *subj, Textlist *, Textlist *);
+int areafix_do(Node * node, char *subj, Textlist *, Textlist *);
 int areafix_do_cmd(Node *, char *, Textlist *, Textlist *);
 void areafix_free(void);
 
@@ -62,7 +62,7 @@ int do_mail(void);
 void short_usage(void);
 void usage(void);
 
-void send_request(Textlist *);
+int send_request(Textlist *);
 
 /*
  * Output FTNAddr as User_Name@p.f.n.z.domain
@@ -137,7 +137,12 @@ int do_mail(void)
 
     /* Run Areafix */
     subj = header_get(h, "Subject");
-    areafix_do(&xfrom.node, subj ? subj : "", &tl, (r_flag ? NULL : &out));
+    ret = areafix_do(&xfrom.node, subj ? subj : "", &tl,
+                     (r_flag ? NULL : &out));
+    if (ret == ERROR) {
+        ret = EX_OSERR;
+        goto out;
+    }
 
     /* Address may have been changed using the PASSWD command */
     xfrom.node = *areafix_auth_node();
@@ -383,8 +388,8 @@ int main(int argc, char **argv)
 
         if (areafix_do_cmd(&node, buffer, NULL, &req) == ERROR)
             ret = EX_DATAERR;
-        else
-            send_request(&req);
+        else if (send_request(&req) == ERROR)
+            ret = EX_CANTCREAT;
         if (ret == 0 && !n_flag)
             if (areasbbs_rewrite() == ERROR)
                 ret = EX_CANTCREAT;
diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index 3165893..1f30c1f 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -45,7 +45,7 @@ char *areafix_areasbbs(void);
 void areafix_set_areasbbs(char *name);
 char *areafix_name(void);
 Node *areafix_auth_node(void);
-void areafix_do(Node * node, char *subj, Textlist *, Textlist *);
+int areafix_do(Node * node, char *subj, Textlist *, Textlist *);
 void areafix_free(void);
 /*void areafix_answer(Node *, Textlist *, Textlist *);*/
 
@@ -89,10 +89,12 @@ int do_netmail(Message * msg, MsgBody * body)
     if (s_flag == TRUE) {
 /*	areafix_answer(&msg->node_from, &msg->name_from, &body->body,
 						(r_flag ? NULL : &outbody) );*/
-    } else
+    } else {
         /* Run Areafix */
-        areafix_do(&msg->node_from, msg->subject, &body->body,
-                   (r_flag ? NULL : &outbody));
+        if (areafix_do(&msg->node_from, msg->subject, &body->body,
+                       (r_flag ? NULL : &outbody)) == ERROR)
+            return severe_error = ERROR;
+    }
 
     if (r_flag)
         return OK;
@@ -122,7 +124,7 @@ int do_netmail(Message * msg, MsgBody * body)
             tl_append(&tmp, tp->line);
         } else {
             if (outpkt_netmail(&outmsg, &tmp, PROGRAM, NULL, NULL))
-                return ERROR;
+                return severe_error = ERROR;
             ln = 1;
             tl_clear(&tmp);
             if (!tp)
@@ -282,6 +284,10 @@ int do_file(char *pkt_name)
     ret = do_packet(pkt_file, &pkt);
     fclose(pkt_file);
 
+    /* Requests or replies not written, try again next time */
+    if (severe_error == ERROR)
+        TMPS_RETURN(ERROR);
+
     /*
      * The changes are already confirmed, save them before the packet is gone.
      * If that fails, the packet is processed again next time.
@@ -292,7 +298,7 @@ int do_file(char *pkt_name)
     if (ret == ERROR) {
         fglog("ERROR: processing %s", pkt_name);
         rename_bad(pkt_name);
-        TMPS_RETURN(severe_error);
+        TMPS_RETURN(OK);
     }
 
     if (unlink(pkt_name)) {
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index 0bb3393..04a8215 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -500,7 +500,7 @@ void outpkt_set_maxopen(int);
 FILE *outpkt_open(Node *, Node *, int, int, int, int);
 int outpkt_close(void);
 int outpkt_netmail(Message *, Textlist *, char *, char *, char *);
-void send_request(Textlist *);
+int send_request(Textlist *);
 
 /* packet.c */
 void pkt_outdir(char *, char *);
-- 
2.43.0


From 34adff4c8205abbda0a1f4552f6ac8562ad8b065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:33 +0000
Subject: [PATCH 051/133] fix: ftnafutil: areas without any link crashed expire
 and unresubscribe

---
 src/areafix/ftnafutil.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/areafix/ftnafutil.c b/src/areafix/ftnafutil.c
index 55096f8..a52713a 100644
--- a/src/areafix/ftnafutil.c
+++ b/src/areafix/ftnafutil.c
@@ -212,6 +212,8 @@ int do_areasbbs(int cmd)
             break;
 
         case DO_EXPIRE:
+            if (!uplink)
+                break;
             tm = (time(NULL) - p->time) / 86400;
             if ((areasbbs_isstate(state, 'F') ||
                  areasbbs_isstate(state, 'W')) &&
@@ -330,6 +332,8 @@ int do_areasbbs(int cmd)
             break;
 
         case DO_UNRESUBSCRIBE:
+            if (!uplink)
+                break;
             if (!(a = uplinks_line_get(areafix, uplink))) {
                 fglog("no uplinks record found for %s area %s", p->area,
                       znfp1(uplink));
-- 
2.43.0


From 016c6bd94a024ec7959f9a4ac02ca6df50af418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 052/133] fix: ftnafutil: areas.bbs was reported as not written
 exactly when it was

---
 src/areafix/ftnafutil.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/areafix/ftnafutil.c b/src/areafix/ftnafutil.c
index a52713a..5c4d154 100644
--- a/src/areafix/ftnafutil.c
+++ b/src/areafix/ftnafutil.c
@@ -578,6 +578,8 @@ int main(int argc, char **argv)
     if (optind >= argc) {
         fprintf(stderr, "%s: expecting command\n", PROGRAM);
         short_usage();
+        exit_free();
+        return EX_USAGE;
     }
 
     BUF_COPY2(bbslock, areas_bbs, ".lock");
@@ -587,6 +589,7 @@ int main(int argc, char **argv)
     }
 
     if (areasbbs_init(areafix_areasbbs()) == ERROR) {
+        unlock_path(bbslock);
         exit_free();
         return EX_OSFILE;
     }
@@ -594,11 +597,12 @@ int main(int argc, char **argv)
     if (do_cmd(argv + optind) == ERROR)
         ret = EX_DATAERR;
 
-    if (req.n > 0)
-        send_request(&req);
+    if (ret == 0 && req.n > 0)
+        if (send_request(&req) == ERROR)
+            ret = EX_CANTCREAT;
 
     if (ret == 0 && !n_flag)
-        if (!areasbbs_rewrite())
+        if (areasbbs_rewrite() == ERROR)
             ret = EX_CANTCREAT;
 
     unlock_path(bbslock);
-- 
2.43.0


From 77125b6caa7b0e87c58bd8fedfea699aa27957e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 053/133] fix: areas.bbs: quoted directories were written
 without the quotes

---
 src/common/areasbbs.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 8c43132..27eb753 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -386,13 +386,15 @@ static void areasbbs_print_word(FILE * fp, char *s, int quote)
 int areasbbs_print(FILE * fp)
 {
     AreasBBS *p;
+    char *dir;
 
     fprintf(fp, "%s\n", areasbbs_1stline ? areasbbs_1stline : "");
 
     for (p = areasbbs_list; p; p = p->next) {
-        if (p->flags & AREASBBS_PASSTHRU)
-            fprintf(fp, "#");
-        fprintf(fp, "%s ", p->dir);
+        dir = strsave2(p->flags & AREASBBS_PASSTHRU ? "#" : "", p->dir);
+        areasbbs_print_word(fp, dir, FALSE);
+        fputc(' ', fp);
+        xfree(dir);
         areasbbs_print_word(fp, p->area, FALSE);
         fputc(' ', fp);
         if (p->zone != -1)
-- 
2.43.0


From cdb771147de191101e222105a1a394dcd6237772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 054/133] fix: areafix: exit code of the mailer was lost, an
 unsent reply counted as sent

---
 src/areafix/mailer.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/areafix/mailer.c b/src/areafix/mailer.c
index 58a8a24..6a66db2 100644
--- a/src/areafix/mailer.c
+++ b/src/areafix/mailer.c
@@ -1,5 +1,7 @@
 #include "fidogate.h"
 
+#include <sys/wait.h>
+
 #define DEFAULT_MAILER	"/usr/lib/sendmail -t"
 
 char *areafix_name(void);
@@ -50,5 +52,10 @@ FILE *mailer_open(char *to, int forward, char *robotname, char *password)
  */
 int mailer_close(FILE * fp)
 {
-    return pclose(fp);
+    int ret = ferror(fp);
+    int status = pclose(fp);
+
+    if (ret || status == ERROR || !WIFEXITED(status))
+        return EX_OSERR;
+    return WEXITSTATUS(status);
 }
-- 
2.43.0


From d10644bab078303740c2cf6e1fd410904e78bad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 055/133] fix: ftntoss: failing requests and areas.bbs
 rewriting reported by the exit code

---
 src/toss/ftntoss.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index d0262a7..4ef44ee 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -2370,10 +2370,13 @@ int main(int argc, char **argv)
         fglog("msgs killed:    %ld circular path", msgs_path);
 
     if (notify.n > 0)
-        send_request(&notify);
+        if (send_request(&notify) == ERROR)
+            c = EXIT_ERROR;
 
-    if (ERROR == areasbbs_rewrite())
+    if (ERROR == areasbbs_rewrite()) {
         fglog("error while rewriting areas.bbs");
+        c = EXIT_ERROR;
+    }
 
     unlock_path(bbslock);
 
-- 
2.43.0


From 4bb88a43b40d85ffad6a448309fc79e238b09213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 056/133] fix: ftntoss: areas.bbs stayed locked by a run which
 found another lock busy

---
 src/toss/ftntoss.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 4ef44ee..f9e096c 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -2212,6 +2212,7 @@ int main(int argc, char **argv)
         if (l_flag)
             if (lock_program(PROGRAM, NOWAIT) == ERROR) {
                 /* Already busy */
+                unlock_path(bbslock);
                 exit_free();
                 return EXIT_BUSY;
             }
@@ -2222,10 +2223,9 @@ int main(int argc, char **argv)
                 ERROR) {
 
                 /* Already busy, exit */
-                if (l_flag) {
+                if (l_flag)
                     unlock_program(PROGRAM);
-                    unlock_path(bbslock);
-                }
+                unlock_path(bbslock);
                 exit_free();
                 return EXIT_BUSY;
             }
@@ -2261,6 +2261,7 @@ int main(int argc, char **argv)
         if (l_flag)
             if (lock_program(PROGRAM, NOWAIT) == ERROR) {
                 /* Already busy */
+                unlock_path(bbslock);
                 exit_free();
                 return EXIT_BUSY;
             }
@@ -2270,10 +2271,9 @@ int main(int argc, char **argv)
             if (lock_program(cf_p_lock_history(), w_flag ? w_flag : NOWAIT) ==
                 ERROR) {
                 /* Already busy, exit */
-                if (l_flag) {
+                if (l_flag)
                     unlock_program(PROGRAM);
-                    unlock_path(bbslock);
-                }
+                unlock_path(bbslock);
 
                 exit_free();
                 return EXIT_BUSY;
-- 
2.43.0


From 8179b6088c78344bf4feb28fc4a096d0fd9b4d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 057/133] fix: ftn2rfc: address of the previous message used
 for messages with a To: line

---
 src/gate/ftn2rfc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index e943095..39b3631 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -654,6 +654,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
 
     while ((type == MSG_TYPE) && !xfeof(pkt_file)) {
         x_orig_to[0] = 0;
+        mail_to[0] = 0;
         tl_clear(&theader);
         tl_clear(&tbody);
 
-- 
2.43.0


From f357466678979321fb761475bda0844880e035d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 058/133] fix: ftn2rfc: RFC header lines of the message text
 were recoded twice

---
 src/gate/ftn2rfc.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 39b3631..4997538 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -925,23 +925,11 @@ int unpack(FILE * pkt_file, Packet * pkt)
          * RFC address headers from text body
          */
         msgbody_rfc_from = get_from(&body.rfc, &body.kludge);
-        if ((pt = xlat_s(msgbody_rfc_from, NULL)))
-            msgbody_rfc_from = pt;
         msgbody_rfc_to = get_to(&body.rfc);
-        if ((pt = xlat_s(msgbody_rfc_to, NULL)))
-            msgbody_rfc_to = pt;
         msgbody_rfc_reply_to = get_reply_to(&body.rfc);
-        if ((pt = xlat_s(msgbody_rfc_reply_to, NULL)))
-            msgbody_rfc_reply_to = pt;
         msgbody_rfc_cc = get_cc(&body.rfc);
-        if ((pt = xlat_s(msgbody_rfc_cc, NULL)))
-            msgbody_rfc_cc = pt;
         msgbody_rfc_bcc = get_bcc(&body.rfc);
-        if ((pt = xlat_s(msgbody_rfc_bcc, NULL)))
-            msgbody_rfc_bcc = pt;
         msgbody_rfc_subject = get_subject(&body.rfc);
-        if ((pt = xlat_s(msgbody_rfc_subject, NULL)))
-            msgbody_rfc_subject = pt;
 
         /*
          * If kill_split is set, skip messages with ^ASPLIT
-- 
2.43.0


From 11672b31767fc1a0a940c4d605bfa874baa50d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 059/133] fix: ftn2rfc: 8 bit text without encoding declared as
 7bit us-ascii

---
 src/gate/ftn2rfc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 4997538..3176ca3 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -486,6 +486,9 @@ static void ftn2rfc_finish_mime(Textlist * hdr, Textlist * body,
     if (!check_8bit(body)) {
         body_encoding = MIME_7BIT;
         debug(5, "Body encoding switched to 7bit\n");
+    } else if (body_encoding == MIME_7BIT) {
+        body_encoding = MIME_8BIT;
+        debug(5, "Body encoding switched to 8bit\n");
     }
 
     if (mime_type == NULL) {
-- 
2.43.0


From 48cb9e0d1389c27d50942f84ee55ffaf12c3f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 060/133] fix: ftn2rfc: garbage in the Organization and
 X-FTN-Origin headers for an empty origin

---
 src/gate/ftn2rfc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 3176ca3..c6de0f5 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -1482,7 +1482,9 @@ int unpack(FILE * pkt_file, Packet * pkt)
                     if ((p = strrchr(buffer, '(')))
                         *p = 0;
                     strip_space(buffer);
-                    p = buffer + strlen(" * Origin: ");
+                    p = buffer;
+                    if (!strncmp(p, " * Origin:", 10))
+                        p += 10;
                     while (is_blank(*p))
                         p++;
                     if (strlen(p) == 0)
@@ -1574,7 +1576,9 @@ int unpack(FILE * pkt_file, Packet * pkt)
             strip_crlf(body.origin);
             msg_xlate_line(buffer, sizeof(buffer), body.origin, ignore_soft_cr);
 
-            p = buffer + strlen(" * Origin: ");
+            p = buffer;
+            if (!strncmp(p, " * Origin:", 10))
+                p += 10;
             while (is_blank(*p))
                 p++;
             tl_appendf(&theader, "X-FTN-Origin: %s\n", p);
-- 
2.43.0


From dd4891ee8d5f6b5620b449e2d7ca39a204891a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 061/133] fix: ftn2rfc: CR and LF of FTN fields started new RFC
 header lines

---
 src/gate/ftn2rfc.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index c6de0f5..fe2b3df 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -418,6 +418,20 @@ static int encode_header(Textline * tl, void *arg)
     return OK;
 }
 
+/*
+ * FTN data must not start new header lines
+ */
+static int header_one_line(Textline * tl, void *arg)
+{
+    char *p;
+
+    for (p = tl->line; *p; p++)
+        if (*p == '\r' || (*p == '\n' && *(p + 1)))
+            *p = ' ';
+
+    return OK;
+}
+
 /*
  * temporal copy'n'paste. Must traverse all the characters across the
  * lines
@@ -1633,6 +1647,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
             for (pl = area->x_hdr.first; pl; pl = pl->next)
                 tl_appendf(&theader, "%s\n", pl->line);
 
+        tl_for_each(&theader, header_one_line, NULL);
+
         /* adds mime headers, recodes and encodes message */
         ftn2rfc_finish_mime(&theader, &tbody, mime,
                             cs_in, cs_out, cvt8, plain_headers);
-- 
2.43.0


From b31db6df70747f4e9bb98df6a4a99248f4d3a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 062/133] fix: tl_appendf: long lines lost their end, joining
 the next header line

---
 src/common/textlist.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/common/textlist.c b/src/common/textlist.c
index bc13e0f..5908734 100644
--- a/src/common/textlist.c
+++ b/src/common/textlist.c
@@ -147,15 +147,20 @@ void tl_append(Textlist * list, char *s)
 void tl_appendf(Textlist * list, char *fmt, ...)
 {
     static char buf[4096];
-#ifndef HAVE_SNPRINTF
+    char *line = buf;
     int n;
-#endif
     va_list args;
 
     va_start(args, fmt);
 
 #ifdef HAVE_SNPRINTF
-    vsnprintf(buf, sizeof(buf), fmt, args);
+    n = vsnprintf(buf, sizeof(buf), fmt, args);
+    if (n >= (int)sizeof(buf)) {
+        line = xmalloc(n + 1);
+        va_end(args);
+        va_start(args, fmt);
+        vsnprintf(line, n + 1, fmt, args);
+    }
 #else
     n = vsprintf(buf, fmt, args);
     if (n >= sizeof(buf)) {
@@ -164,7 +169,9 @@ void tl_appendf(Textlist * list, char *fmt, ...)
         return;
     }
 #endif
-    tl_append(list, (char *)buf);
+    tl_append(list, line);
+    if (line != buf)
+        xfree(line);
 
     va_end(args);
 }
-- 
2.43.0


From 13f2b9929df3594c4b1a42d24fda5e01dcf985b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 063/133] fix: ftn2rfc: Errors-To option set the junk group
 instead of the header

---
 src/gate/ftn2rfc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index fe2b3df..a1453a5 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -1963,8 +1963,9 @@ int main(int argc, char **argv)
     if ((p = cf_get_string("FTNJunkGroupKeys", TRUE))) {
         ftn_junk_group_keys = areas_parse_line(p);
     }
-    if ((p = cf_get_string("ErrorsTo", TRUE))) {
-        ftn_junk_group = p;
+    if ((p = cf_get_string("Errors-To", TRUE)) ||
+        (p = cf_get_string("ErrorsTo", TRUE))) {
+        errors_to = p;
     }
     if (cf_get_string("NoAddressInToField", TRUE)) {
         no_address_in_to_field = TRUE;
-- 
2.43.0


From 5ffe42a526c440f251e620d9d4e8e7d6190c460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 064/133] fix: bounce: crash for %R without an RFC address

---
 src/common/bounce.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/bounce.c b/src/common/bounce.c
index 38393c6..fab7c52 100644
--- a/src/common/bounce.c
+++ b/src/common/bounce.c
@@ -73,7 +73,8 @@ int print_file_subst(FILE * in, FILE * out, Message * msg, char *rfc_to,
                 fputs(msg->subject, out);
                 break;
             case 'R':          /* RFC To: */
-                fputs(rfc_to, out);
+                if (rfc_to)
+                    fputs(rfc_to, out);
                 break;
             case 'M':          /* Message */
                 tl_print(body, out);
-- 
2.43.0


From 1dbcf245917fc5ced78b5bcb118c7e24c3b13457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 065/133] fix: ftn2rfc: packets deleted although their messages
 could not be written

---
 src/common/bounce.c      |  8 +++-----
 src/common/mail.c        | 35 +++++++++++++++++++++++++++--------
 src/gate/ftn2rfc.c       | 37 ++++++++++++++++++++++++++-----------
 src/include/prototypes.h |  4 ++--
 4 files changed, 58 insertions(+), 26 deletions(-)

diff --git a/src/common/bounce.c b/src/common/bounce.c
index fab7c52..4a67f8e 100644
--- a/src/common/bounce.c
+++ b/src/common/bounce.c
@@ -133,7 +133,7 @@ int bounce_header(char *to)
 /*
  * Bounce mail
  */
-void bounce_mail(char *reason, RFCAddr * addr_from, Message * msg, char *rfc_to,
+int bounce_mail(char *reason, RFCAddr * addr_from, Message * msg, char *rfc_to,
                  Textlist * body, RFCHeader *h)
 {
     char *to;
@@ -142,7 +142,7 @@ void bounce_mail(char *reason, RFCAddr * addr_from, Message * msg, char *rfc_to,
     to = s_rfcaddr_to_asc(addr_from, TRUE);
 
     if (bounce_header(to) == ERROR)
-        return;
+        return ERROR;
 
     BUF_COPY3(buffer, cf_p_configdir(), "/bounce.", reason);
 
@@ -150,7 +150,5 @@ void bounce_mail(char *reason, RFCAddr * addr_from, Message * msg, char *rfc_to,
     print_file_subst(in, mail_file('m'), msg, rfc_to, body, h);
     fclose(in);
 
-    mail_close('m');
-
-    return;
+    return mail_close('m');
 }
diff --git a/src/common/mail.c b/src/common/mail.c
index 7f33454..0ac2eea 100644
--- a/src/common/mail.c
+++ b/src/common/mail.c
@@ -101,18 +101,39 @@ FILE *mail_file(int sel)
     return NULL;
 }
 
+/*
+ * Close file, rename it if completely written
+ */
+static int mail_finish(FILE *fp, char *tmp, char *name)
+{
+    int err;
+
+    err = ferror(fp);
+    if (fclose(fp) == EOF || err) {
+        fglog("$Can't write mail file %s", tmp);
+        unlink(tmp);
+        return ERROR;
+    }
+    if (rename(tmp, name) == ERROR) {
+        fglog("$Can't rename mail file %s to %s", tmp, name);
+        unlink(tmp);
+        return ERROR;
+    }
+
+    return OK;
+}
+
 /*
  * Close mail file
  */
-void mail_close(int sel)
+int mail_close(int sel)
 {
+    int ret = OK;
 
     switch (sel) {
     case 'm':
     case 'M':
-        fclose(m_file);
-        if (rename(m_tmp, m_name) == ERROR)
-            fglog("$Can't rename mail file %s to %s", m_tmp, m_name);
+        ret = mail_finish(m_file, m_tmp, m_name);
 
         m_tmp[0] = 0;
         m_name[0] = 0;
@@ -121,9 +142,7 @@ void mail_close(int sel)
 
     case 'n':
     case 'N':
-        fclose(n_file);
-        if (rename(n_tmp, n_name) == ERROR)
-            fglog("$Can't rename mail file %s to %s", n_tmp, n_name);
+        ret = mail_finish(n_file, n_tmp, n_name);
 
         n_tmp[0] = 0;
         n_name[0] = 0;
@@ -131,5 +150,5 @@ void mail_close(int sel)
         break;
     }
 
-    return;
+    return ret;
 }
diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index a1453a5..cf8d0f1 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -1072,7 +1072,9 @@ int unpack(FILE * pkt_file, Packet * pkt)
             fglog("BOUNCE: insecure mail from %s",
                   s_rfcaddr_to_asc(&addr_from, TRUE));
 	    h = header_read_list(&theader);
-            bounce_mail("insecure", &addr_from, &msg, msgbody_rfc_to, &tbody, h);
+            if (bounce_mail("insecure", &addr_from, &msg,
+                            msgbody_rfc_to, &tbody, h) == ERROR)
+                ret = ERROR;
             header_free(h);
             tl_clear(&theader);
             tl_clear(&tbody);
@@ -1120,8 +1122,9 @@ int unpack(FILE * pkt_file, Packet * pkt)
                 fglog("BOUNCE: mail from unregistered %s",
                       s_rfcaddr_to_asc(&addr_from, TRUE));
                 h = header_read_list(&theader);
-                bounce_mail("restricted", &addr_from, &msg,
-                            msgbody_rfc_to, &tbody, h);
+                if (bounce_mail("restricted", &addr_from, &msg,
+                                msgbody_rfc_to, &tbody, h) == ERROR)
+                    ret = ERROR;
                 free(h);
                 tl_clear(&theader);
                 tl_clear(&tbody);
@@ -1136,7 +1139,9 @@ int unpack(FILE * pkt_file, Packet * pkt)
                 fglog("BOUNCE: mail from down %s",
                       s_rfcaddr_to_asc(&addr_from, TRUE));
                 h = header_read_list(&theader);
-                bounce_mail("down", &addr_from, &msg, msgbody_rfc_to, &tbody, h);
+                if (bounce_mail("down", &addr_from, &msg,
+                                msgbody_rfc_to, &tbody, h) == ERROR)
+                    ret = ERROR;
                 header_free(h);
                 tl_clear(&theader);
                 tl_clear(&tbody);
@@ -1159,7 +1164,9 @@ int unpack(FILE * pkt_file, Packet * pkt)
                     fglog("BOUNCE: mail from %s with address in to field: %s",
                           s_rfcaddr_to_asc(&addr_from, TRUE), mail_to);
                     h = header_read_list(&theader);
-                    bounce_mail("addrinto", &addr_from, &msg, mail_to, &tbody, h);
+                    if (bounce_mail("addrinto", &addr_from, &msg,
+                                    mail_to, &tbody, h) == ERROR)
+                        ret = ERROR;
                     header_free(h);
                     tl_clear(&theader);
                     tl_clear(&tbody);
@@ -1187,7 +1194,9 @@ int unpack(FILE * pkt_file, Packet * pkt)
                 fglog("BOUNCE: mail from %s without To line",
                       s_rfcaddr_to_asc(&addr_from, TRUE));
                 h = header_read_list(&theader);
-                bounce_mail("noto", &addr_from, &msg, msgbody_rfc_to, &tbody, h);
+                if (bounce_mail("noto", &addr_from, &msg,
+                                msgbody_rfc_to, &tbody, h) == ERROR)
+                    ret = ERROR;
                 header_free(h);
                 tl_clear(&theader);
                 tl_clear(&tbody);
@@ -1671,8 +1680,10 @@ int unpack(FILE * pkt_file, Packet * pkt)
             tl_print(&theader, mail_file('n'));
             tl_print(&tbody, mail_file('n'));
 
-            if (single_articles)
-                mail_close('n');
+            if (single_articles && mail_close('n') == ERROR) {
+                ret = ERROR;
+                break;
+            }
         } else {
             if (mail_open('m') == ERROR) {
                 ret = ERROR;
@@ -1683,7 +1694,10 @@ int unpack(FILE * pkt_file, Packet * pkt)
             tl_print(&theader, mail_file('m'));
             tl_print(&tbody, mail_file('m'));
             /* Close mail */
-            mail_close('m');
+            if (mail_close('m') == ERROR) {
+                ret = ERROR;
+                break;
+            }
         }
 
         tl_clear(&theader);
@@ -1696,8 +1710,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
             xfree(cs_save);
     } /**while(type == MSG_TYPE)**/
 
-    if (mail_file('n'))
-        mail_close('n');
+    if (mail_file('n') && mail_close('n') == ERROR)
+        ret = ERROR;
 
     TMPS_RETURN(ret);
 }
@@ -1737,6 +1751,7 @@ int unpack_file(char *pkt_name)
 
     if (unpack(pkt_file, &pkt) == ERROR) {
         fglog("ERROR: processing %s", pkt_name);
+        fclose(pkt_file);
         if (n_flag)
             return ERROR;
         else {
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index 04a8215..62a58e0 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -157,7 +157,7 @@ int check_old(char *, time_t dt);
 void bounce_set_cc(char *);
 int print_file_subst(FILE *, FILE *, Message *, char *, Textlist *, RFCHeader *);
 int bounce_header(char *);
-void bounce_mail(char *, RFCAddr *, Message *, char *, Textlist *, RFCHeader *);
+int bounce_mail(char *, RFCAddr *, Message *, char *, Textlist *, RFCHeader *);
 
 /* charset.c */
 CharsetTable *charset_table_new(void);
@@ -344,7 +344,7 @@ extern char news_dir[MAXPATH];
 
 int mail_open(int);
 FILE *mail_file(int);
-void mail_close(int);
+int mail_close(int);
 
 /* message.c */
 int pkt_get_line(FILE *, char *, int);
-- 
2.43.0


From 5881801ae08d1211f8886d363d16d582788cb4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 066/133] fix: ftn2rfc: rest of a message which could not be
 parsed taken for the next one

---
 src/gate/ftn2rfc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index cf8d0f1..5f4083c 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -701,8 +701,11 @@ int unpack(FILE * pkt_file, Packet * pkt)
          */
 
         if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, &msg.node_to) !=
-            OK)
+            OK) {
             fglog("ERROR: parsing message body");
+            ret = ERROR;
+            break;
+        }
 
 	/* ftn date is local, need to parse body kludges to adjust. */
 	msg_adjust_date_to_tz(&msg, kludge_get(&body.kludge, "TZUTC", NULL));
-- 
2.43.0


From 670e16a7a70a7895e54ae90716d01ae1232a39d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 067/133] fix: charset: heap overflow for a wrong sequence at
 the end of the buffer

---
 src/common/charset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/charset.c b/src/common/charset.c
index 6e97713..7b15e10 100644
--- a/src/common/charset.c
+++ b/src/common/charset.c
@@ -331,7 +331,7 @@ static int _charset_recode_iconv(char **res, size_t *res_len,
         if (rc != -1)
             break;
 
-        if (errno != E2BIG) {
+        if (errno != E2BIG && cur_size > 0) {
             src++;
             src_len--;
             *cur++ = '?';
-- 
2.43.0


From 5633265367e912a1b11e2d2a4e62d4fe90cb0514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 068/133] fix: acl: FTN to RFC rules worked for the first
 message only

---
 src/common/acl.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/common/acl.c b/src/common/acl.c
index 27c3d63..47b37d5 100644
--- a/src/common/acl.c
+++ b/src/common/acl.c
@@ -185,6 +185,8 @@ int ftnacl_lookup(Node * node_from, Node * node_to, char *echo)
     Acl *p;
     int type;
     char *node1, *node2 = NULL, *n;
+    char *pats;
+    int found = FALSE;
 
     if (echo)
         type = TYPE_ECHOMAIL;
@@ -199,12 +201,12 @@ int ftnacl_lookup(Node * node_from, Node * node_to, char *echo)
         if (p->gate == FTN2RFC &&
             wildmat(node1, p->email_pat) && p->type == type) {
 
-            for (n = xstrtok(p->ngrp_pat, ","); n; n = xstrtok(NULL, ","))
-                if (echo) {
-                    if (wildmat(n, echo))
-                        return TRUE;
-                } else if (wildmat(n, node2))
-                    return TRUE;
+            pats = strsave(p->ngrp_pat);
+            for (n = xstrtok(pats, ","); n && !found; n = xstrtok(NULL, ","))
+                found = wildmat(n, echo ? echo : node2);
+            xfree(pats);
+            if (found)
+                return TRUE;
         }
     }
 
-- 
2.43.0


From b87787d1092722ea0db478823be389f0344a9058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 069/133] fix: mime: encoded header words with padding in the
 middle or lost octets

---
 src/common/mime.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index b26f207..73ba936 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -325,7 +325,7 @@ static size_t mime_word_calc_len(struct mime_word_enc_state *state,
             encoded_len = len;
         } else {
             encoded_len = 1 +   /* space */
-                strlen(MIME_HEADER_CODE_START) + charset_len + strlen(MIME_HEADER_CODE_MIDDLE_B64) + state->calc_len(p, len);   /* without spaces */
+                strlen(MIME_HEADER_CODE_START) + charset_len + strlen(MIME_HEADER_CODE_MIDDLE_B64) + state->calc_len(p, len - (p - token));   /* without spaces */
         }
     }
 
@@ -495,6 +495,17 @@ static size_t mime_word_enc_b64(struct mime_word_enc_state *state,
 
     done = mime_add_reminder(state, &p, &len, limit);
 
+    if (state->rem_len != 0 && len > 0) {
+        /*
+         * No space for more, what is left before opens the next line
+         * or closes this one, if a multibyte sequence started here
+         */
+        if (state->max_mb_chunks != 0 && (state->rem[0] & 0xc0) == 0x80)
+            mime_flush_reminder(state);
+        *(state->encoded_line + state->pos) = '\0';
+        return done;
+    }
+
     left = len;
 
     while ((left >= B64_ENC_CHUNK) && !end_of_line) {
@@ -527,7 +538,7 @@ static size_t mime_word_enc_b64(struct mime_word_enc_state *state,
 
     *(state->encoded_line + state->pos) = '\0';
 
-    if (left < B64_ENC_CHUNK)
+    if (left > 0 && left < B64_ENC_CHUNK && !end_of_line)
         done += mime_save_reminder(state, p, left);
 
     return done;
-- 
2.43.0


From 76e84fcd52a95f48071eb9f5d23549b02d6e0abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 070/133] fix: mime: quoted-printable bodies had line ends
 encoded, lines of 77 characters and an empty line added

---
 src/common/mime.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index 73ba936..050c777 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -968,7 +968,19 @@ void mime_qp_encode_tl(Textlist * in, Textlist * out)
     len = tl_char_iterator_next(&iter, ibuf, sizeof(ibuf));
 
     while (len > 0) {
-        if (pos + QP_NLET_MAX > MIME_STRING_LIMIT) {
+        /* line breaks of the text are line breaks of the encoding */
+        if (ibuf[0] == '\n') {
+            buf[pos++] = '\n';
+            buf[pos++] = '\0';
+
+            tl_append(out, buf);
+            pos = 0;
+            len = tl_char_iterator_next(&iter, ibuf, sizeof(ibuf));
+            continue;
+        }
+
+        /* the limit includes '=' of the soft line break */
+        if (pos + QP_NLET_MAX + 1 > MIME_STRING_LIMIT) {
             buf[pos++] = '=';
             buf[pos++] = '\n';
             buf[pos++] = '\0';
@@ -982,10 +994,12 @@ void mime_qp_encode_tl(Textlist * in, Textlist * out)
         len = tl_char_iterator_next(&iter, ibuf, sizeof(ibuf));
     }
 
-    buf[pos++] = '\n';
-    buf[pos++] = '\0';
+    if (pos > 0) {
+        buf[pos++] = '\n';
+        buf[pos++] = '\0';
 
-    tl_append(out, buf);
+        tl_append(out, buf);
+    }
 }
 
 int mime_qp_decode(char **dst, char *src, size_t len)
-- 
2.43.0


From 9d4fa0c589515349288c3e859217bc092a809c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 071/133] fix: mime: underscores of quoted-printable bodies
 were decoded to spaces

---
 src/common/mime.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index 050c777..8c58738 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -1002,23 +1002,14 @@ void mime_qp_encode_tl(Textlist * in, Textlist * out)
     }
 }
 
-int mime_qp_decode(char **dst, char *src, size_t len)
+static int mime_qp_decode_str(char **dst, char *src, size_t len, bool header)
 {
     char *buf;
     size_t i;
     int vh, vl;
     char *d;
-    char *p1, *p2;
-    int j;
     int rc = OK;
 
-    p1 = src;
-    j = 0;
-    while (NULL != (p2 = strchr(p1, '_'))) {
-        p1 = ++p2;
-        j++;
-    }
-
     buf = xmalloc(len + 1);
     memset(buf, 0, len + 1);
 
@@ -1030,7 +1021,8 @@ int mime_qp_decode(char **dst, char *src, size_t len)
             break;
         }
 
-        if ('_' == src[i]) {
+        /* underscore means space in headers only */
+        if (header && '_' == src[i]) {
             *d++ = ' ';
             i++;
             continue;
@@ -1070,6 +1062,12 @@ int mime_qp_decode(char **dst, char *src, size_t len)
     return rc;
 }
 
+/* "Q" encoding of headers */
+int mime_qp_decode(char **dst, char *src, size_t len)
+{
+    return mime_qp_decode_str(dst, src, len, true);
+}
+
 /*
  * mime word is a mime encoded string, separated by space
  * from other mime words.
@@ -1548,7 +1546,7 @@ static Textlist *mime_debody_qp(Textlist * body)
 
     for (line = body->first; line != NULL; line = line->next) {
         len = strlen(line->line);
-        if (mime_qp_decode(&dec_str, line->line, len) == ERROR)
+        if (mime_qp_decode_str(&dec_str, line->line, len, false) == ERROR)
             goto fail;
 
         strip_crlf(dec_str);
-- 
2.43.0


From f09baf2912cd1f348ee206cb808385ef5ec14b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 072/133] fix: mime: header decoding stopped at a word which
 only looks encoded

---
 src/common/mime.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index 8c58738..590cdad 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -1152,7 +1152,8 @@ static int mime_handle_mimed_word(char *s, char **out, size_t *out_len,
      * internal charset.
      */
     debug(6, "Could not unmime subject '%s', leaving as is", s);
-    len = strlen(s);
+    /* only this word, the following can be correct ones */
+    len = strcspn(s, " \t");
     *out = xmalloc(len);
     memcpy(*out, s, len);       /* no '\0' */
     snprintf(charset, ch_size, "%s", to);
-- 
2.43.0


From 5f3fa0636cd5a22905c5c077767590280f9427a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 073/133] fix: mime: encoded words after a tab were not decoded

---
 src/common/mime.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index 590cdad..337c1fd 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -1176,9 +1176,8 @@ static int mime_handle_plain_word(char *s, char **out, size_t *out_len,
     /*
      * If there are several words, handle only one.
      * Reading code should combine splitted lines, so no \n.
-     * TODO: \t can be checked as well
      */
-    p = strchr(s, ' ');
+    p = strpbrk(s, " \t");
     if (p != NULL)
         len = p - s;
     else
-- 
2.43.0


From 7e9519162978c38e42c19adda7f2694c7cc4a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 074/133] fix: mime: empty and one character lines of decoded
 bodies overran the buffer or were lost

---
 src/common/mime.c | 10 ++++++----
 src/common/misc.c |  7 +++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index 337c1fd..a7d525d 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -1511,10 +1511,10 @@ static char *mime_debody_flush_str(Textlist * body, char *str)
         return NULL;
 
     len = strlen(str);
-    if (len < 2)
+    if (len < 1)
         return NULL;
 
-    if (str[len - 2] == '\r') {
+    if (len > 1 && str[len - 2] == '\r' && str[len - 1] == '\n') {
         str[len - 2] = '\n';
         str[len - 1] = '\0';
     } else if (str[len - 1] != '\n') {
@@ -1553,8 +1553,10 @@ static Textlist *mime_debody_qp(Textlist * body)
         tl_append(full_line, dec_str);
         xfree(dec_str);
 
-        if (streq(line->line + (len - 2), "=\n")
-            || streq(line->line + (len - 3), "=\r\n"))
+        /* soft line break, unless there is nothing to join */
+        if (line->next != NULL
+            && ((len >= 2 && streq(line->line + (len - 2), "=\n"))
+                || (len >= 3 && streq(line->line + (len - 3), "=\r\n"))))
             continue;
 
         len = tl_size(full_line);
diff --git a/src/common/misc.c b/src/common/misc.c
index e0e18f2..eea9669 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -324,11 +324,10 @@ void strip_crlf(char *line)
         return;
 
     len = strlen(line);
-    if (line[len - 1] == '\n')
-        line[len - 1] = 0;
+    if (len > 0 && line[len - 1] == '\n')
+        line[--len] = 0;
 
-    len = strlen(line);
-    if (line[len - 1] == '\r')
+    if (len > 0 && line[len - 1] == '\r')
         line[len - 1] = 0;
 }
 
-- 
2.43.0


From 3c1f653c9e388ee7dea260d2f7a5ecc2b1a7ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 075/133] fix: mime: damaged multipart messages crashed,
 boundaries matched as prefixes

---
 src/common/mime.c      | 26 ++++++++++++++++++++++----
 src/common/rfcheader.c |  2 +-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index a7d525d..2d32e6a 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -1667,6 +1667,19 @@ static Textlist *mime_debody_base64(Textlist * body)
 static Textlist *mime_debody_section(Textlist *body, RFCHeader* header,
                                      char *to, char *ch_fallback);
 
+/* the whole line must match, boundaries can be prefixes of each other */
+static bool mime_is_boundary(char *line, char *boundary)
+{
+    size_t len = strlen(boundary);
+
+    if (!strneq(line, boundary, len))
+        return false;
+
+    for (line += len; is_space(*line); line++) ;
+
+    return *line == '\0';
+}
+
 static Textlist *mime_debody_multipart(Textlist * body, MIMEInfo * mime,
                                        char *to, char *ch_fallback)
 {
@@ -1696,11 +1709,15 @@ static Textlist *mime_debody_multipart(Textlist * body, MIMEInfo * mime,
     strcat(fin_boundary, "--");
 
     for (line = body->first; line != NULL; line = line->next)
-        if (strneq(line->line, boundary, strlen(boundary)))
+        if (mime_is_boundary(line->line, boundary))
             break;
 
-    for (line = line->next; line != NULL; line = line->next) {
-        if (!strneq(line->line, boundary, strlen(boundary))) {
+    if (line != NULL)
+        line = line->next;
+
+    for (; line != NULL; line = line->next) {
+        if (!mime_is_boundary(line->line, boundary)
+            && !mime_is_boundary(line->line, fin_boundary)) {
             tl_append(&tmp_body, line->line);
         } else {
             header = header_read_list(&tmp_body);
@@ -1715,11 +1732,12 @@ static Textlist *mime_debody_multipart(Textlist * body, MIMEInfo * mime,
             tl_clear(&tmp_body);
             header_free(header);
 
-            if (strneq(line->line, fin_boundary, strlen(fin_boundary)))
+            if (mime_is_boundary(line->line, fin_boundary))
                 break;
         }
     }
 
+    tl_clear(&tmp_body);
     xfree(boundary);
     xfree(fin_boundary);
     return dec_body;
diff --git a/src/common/rfcheader.c b/src/common/rfcheader.c
index 66d575d..ebf9022 100644
--- a/src/common/rfcheader.c
+++ b/src/common/rfcheader.c
@@ -254,7 +254,7 @@ int header_delete_from_body(Textlist * body)
     if (body == NULL)
         return ERROR;
 
-    for (line = body->first;; line = body->first) {
+    for (line = body->first; line != NULL; line = body->first) {
         buf = line->line;
         if (*buf == '\r' || *buf == '\n') {
             tl_delete(body, line);
-- 
2.43.0


From 964c4daad046861c36058a45ecd00ee6665c3be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 076/133] fix: mime: header words with wrong utf-8 overran the
 heap buffer

---
 src/common/mime.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index 2d32e6a..215cea4 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -470,8 +470,10 @@ static size_t mime_get_mb_tail(struct mime_word_enc_state *state, char *p)
 	return 0;
 
     save_p = p;
+    /* the text may be not valid utf-8, but there is no space for more */
     for (c = *p;
-	 ((c & 0x80) == 0x80) && ((c & 0x40) == 0);
+	 ((c & 0x80) == 0x80) && ((c & 0x40) == 0)
+	     && (p - save_p < MAX_UTF8_LEN - 1);
 	 c = *++p)
 	;
     return p - save_p;
-- 
2.43.0


From 8fac3868a0e047765486d5be7918cf1c518cfdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 077/133] fix: ftn2rfc: text in an unknown character set was
 declared as the output character set

---
 src/common/charset.c     | 39 +++++++++++++++++++++++++++++++++++++++
 src/gate/ftn2rfc.c       |  5 +++++
 src/include/prototypes.h |  1 +
 3 files changed, 45 insertions(+)

diff --git a/src/common/charset.c b/src/common/charset.c
index 7b15e10..733f3ac 100644
--- a/src/common/charset.c
+++ b/src/common/charset.c
@@ -430,6 +430,45 @@ int charset_recode_buf(char **dst, size_t *dstlen,
     return OK;
 }
 
+static bool charset_iconv_knows(char *from, char *to)
+{
+    iconv_t desc = iconv_open(to, from);
+
+    if (desc == (iconv_t) - 1)
+        return false;
+
+    iconv_close(desc);
+    return true;
+}
+
+/*
+ * Check if charset_recode_buf() is able to recode
+ */
+bool charset_is_convertible(char *from, char *to)
+{
+    char *p;
+    char *buf;
+    bool ret;
+
+    if (from == NULL || to == NULL)
+        return false;
+
+    if (strieq(from, to) || charset_iconv_knows(from, to))
+        return true;
+
+    /* Same as in charset_recode_iconv(), LATIN-1 -> LATIN1 */
+    p = strchr(from, '-');
+    if (p == NULL)
+        return false;
+
+    buf = strsave(from);
+    strcpy(buf + (p - from), p + 1);
+    ret = charset_iconv_knows(buf, to);
+    free(buf);
+
+    return ret;
+}
+
 int charset_is_7bit(char *buffer, size_t len)
 {
     int i;
diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 5f4083c..47fe4b7 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -930,6 +930,11 @@ int unpack(FILE * pkt_file, Packet * pkt)
             cs_out = CHARSET_STDRFC;
 
         cs_in = charset_fsc_canonize(cs_in);
+        if (!charset_is_convertible(cs_in, cs_out)) {
+            /* otherwise 8 bit text would be declared to be in cs_out */
+            fglog("WARNING: unknown charset %s, using %s", cs_in, cs_def);
+            cs_in = charset_fsc_canonize(cs_def);
+        }
         charset_set_in_out(cs_in, cs_out);
 
         addr_from = rfcaddr_from_ftn(msg.name_from, &msg.node_orig);
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index 62a58e0..c1211b1 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -173,6 +173,7 @@ void charset_set_in_out(char *, char *);
 void charset_init(void);
 char *charset_chrs_name(char *);
 void charset_free(void);
+bool charset_is_convertible(char *from, char *to);
 int charset_is_7bit(char *buffer, size_t len);
 bool charset_is_valid_utf8(char *, size_t);
 char *charset_fsc_canonize(char *);
-- 
2.43.0


From b23acb0a371c3f9038502f536f0804d6e35a1f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 078/133] fix: mime: question marks in quoted-printable header
 words were not encoded

---
 src/common/mime.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index 215cea4..6c7fe1b 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -174,6 +174,12 @@ static bool mime_qp_is_plain(int c)
         || ((c >= 'a') && (c <= 'z'));
 }
 
+/* rfc 2047, question mark would end the encoded text */
+static bool mime_qp_is_plain_header(int c)
+{
+    return c != '?' && mime_qp_is_plain(c);
+}
+
 #define B64_ENC_CHUNK 3
 #define B64_NLET_PER_CHUNK 4
 
@@ -593,7 +599,7 @@ static size_t mime_qp_calc_len(char *s, size_t len)
     size_t sum = 0;
 
     for (; len > 0; --len, s++) {
-        if (mime_qp_is_plain(*s))
+        if (mime_qp_is_plain_header(*s))
             sum += 1;
         else
             sum += QP_NLET_MAX;
@@ -608,12 +614,12 @@ static size_t mime_qp_calc_len(char *s, size_t len)
  *
  * Returns amount of bytes written
  */
-static size_t _mime_qp_encode_octet(char *out, unsigned char in)
+static size_t _mime_qp_encode_octet(char *out, unsigned char in, bool is_plain)
 {
     int len;
     char buf[QP_NLET_MAX + 1];  /* max encoded length =XX\0 */
 
-    if (mime_qp_is_plain(in)) {
+    if (is_plain) {
         *out = in;
         return sizeof(*out);
     }
@@ -628,7 +634,8 @@ static void mime_qp_encode_octet(struct mime_word_enc_state *state,
 {
     size_t produced;
 
-    produced = _mime_qp_encode_octet(state->encoded_line + state->pos, in);
+    produced = _mime_qp_encode_octet(state->encoded_line + state->pos, in,
+                                     mime_qp_is_plain_header(in));
     state->pos += produced;
     state->vpos += produced;
 }
@@ -991,7 +998,8 @@ void mime_qp_encode_tl(Textlist * in, Textlist * out)
             pos = 0;
         }
 
-        len_encoded = _mime_qp_encode_octet(buf + pos, ibuf[0]);
+        len_encoded = _mime_qp_encode_octet(buf + pos, ibuf[0],
+                                            mime_qp_is_plain(ibuf[0]));
         pos += len_encoded;
         len = tl_char_iterator_next(&iter, ibuf, sizeof(ibuf));
     }
-- 
2.43.0


From bd6eeaf8bc779890216d93680cbcd6a557c20fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 079/133] fix: mime: blanks at the end of a folded header made
 an empty continuation line

---
 src/common/mime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index 6c7fe1b..ad8e42e 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -842,7 +842,7 @@ int mime_header_enc(char **dst, char *src, char *charset, int enc)
         token = token_end;
 
         /* first skip spaces */
-        while ((*token_end == ' ' || *token_end == '\t' || *token == '\n')
+        while ((*token_end == ' ' || *token_end == '\t' || *token_end == '\n')
                && *token_end != '\0')
             token_end++;
 
-- 
2.43.0


From 7720844941ff507302b02f8ea3991bbe46f004d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 080/133] fix: message: ^B before the end of a line joined it
 with the next one

---
 src/common/message.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index 49e2907..4bf4a81 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -111,9 +111,8 @@ int pkt_get_line(FILE * fp, char *buf, int size)
                 fglog("pkt_get_line(): grunged packet");
                 return MSG_TYPE;
             }
+            ungetc(c1, fp);     /* may be the end of line */
             *p++ = c;
-            *p++ = c1;
-            size--;
             size--;
             break;
 
-- 
2.43.0


From 5e77709d43a079ccc280d912a8360b0adb002265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 081/133] fix: rfc2ftn: MSGID of a message which came from FTN
 got our address in front

---
 src/gate/rfc2ftn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 203fac9..fe941b4 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1038,7 +1038,8 @@ static int snd_message(Message * msg, Area * parea,
                                  no_dbc_history,
                                  no_fido_style_msgid);
         if (id) {
-            if (no_fido_style_msgid && !x_flags_m)     /* X-Flags: m */
+            /* an id of an FTN message is complete, with its address */
+            if (!flag || (no_fido_style_msgid && !x_flags_m))     /* X-Flags: m */
                 fprintf(sf, "\001MSGID: %s\r", id);
             else {
                 if (!echogate_alias)
-- 
2.43.0


From 75eadba1aa7b19f44082d35ba77dc9426111c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 082/133] fix: msgid: parts of a split message with an FTN id
 had the same MSGID

---
 src/common/msgid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/msgid.c b/src/common/msgid.c
index 42e3fde..8b0b38b 100644
--- a/src/common/msgid.c
+++ b/src/common/msgid.c
@@ -399,7 +399,8 @@ char *s_msgid_rfc_to_fido(int *origid_flag, char *message_id,
     }   /**if(!split)**/
 
         /***** Check for new-style <MSGID_mimeanything@domain> *****/
-    if (!strncmp(id, "MSGID_", 6)) {
+    /* (parts of a split message need ids of their own) */
+    if (!split && !strncmp(id, "MSGID_", 6)) {
         p = id + strlen("MSGID_");
         tmps = tmps_alloc(strlen(id) + 1);
         mime_dequote(tmps->s, tmps->len, p);
-- 
2.43.0


From 9b4dd76926952a8c95ae180d86fd7936ee8d1bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 083/133] fix: rfc2ftn: last part of a split message could be
 empty

---
 src/gate/rfc2ftn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index fe941b4..0d37871 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -989,7 +989,7 @@ static int snd_message(Message * msg, Area * parea,
             lsize += strlen(p->line);   /* Length incl. <LF> */
             if (BUF_LAST(p->line) == '\n')  /* <LF> ->           */
                 lsize++;        /* <CR><LF>          */
-            if (lsize > maxsize) {
+            if (lsize > maxsize && p->next) {
                 split++;
                 lsize = 0;
             }
@@ -1258,7 +1258,7 @@ static int snd_message(Message * msg, Area * parea,
         if (BUF_LAST(buffer) == '\n')   /* <LF> ->           */
             lsize++;            /* <CR><LF>          */
 
-        if (split && lsize > maxsize) {
+        if (split && lsize > maxsize && p->next) {
             print_tear_line(sf, h);
             if (newsmode) {
                 char *origin;
-- 
2.43.0


From a70e0e32ec9ccbfa762ef80591911b31fbafe461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:38 +0000
Subject: [PATCH 084/133] fix: rfc2ftn: text lines longer than 32K lost their
 end

---
 src/gate/rfc2ftn.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 0d37871..f07f4a1 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1244,18 +1244,16 @@ static int snd_message(Message * msg, Area * parea,
 
     lsize = 0;
     while (p) {
-        snprintf(buffer, sizeof(buffer), "%s", p->line);
-
-        if (!strncmp(buffer, "--- ", 4))
-            buffer[1] = '+';
-        else if (!strncmp(buffer, " * Origin:", 10))
-            buffer[1] = '+';
-        else if (!strncmp(buffer, "SEEN-BY", 7))
-            buffer[4] = '+';
-
-        pkt_put_line(sf, buffer);
-        lsize += strlen(buffer);    /* Length incl. <LF> */
-        if (BUF_LAST(buffer) == '\n')   /* <LF> ->           */
+        if (!strncmp(p->line, "--- ", 4))
+            p->line[1] = '+';
+        else if (!strncmp(p->line, " * Origin:", 10))
+            p->line[1] = '+';
+        else if (!strncmp(p->line, "SEEN-BY", 7))
+            p->line[4] = '+';
+
+        pkt_put_line(sf, p->line);
+        lsize += strlen(p->line);   /* Length incl. <LF> */
+        if (*p->line && p->line[strlen(p->line) - 1] == '\n')   /* <LF> ->           */
             lsize++;            /* <CR><LF>          */
 
         if (split && lsize > maxsize && p->next) {
-- 
2.43.0


From 9dc4bc6b6aa43b5822adcba798545fa59c62bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:19 +0000
Subject: [PATCH 085/133] fix: rfc2ftn: number of parts of a split message was
 counted differently from how they were written

---
 src/gate/rfc2ftn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index f07f4a1..1c5299d 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -987,7 +987,7 @@ static int snd_message(Message * msg, Area * parea,
         lsize = 0;
         for (p = dec_body->first; p; p = p->next) {
             lsize += strlen(p->line);   /* Length incl. <LF> */
-            if (BUF_LAST(p->line) == '\n')  /* <LF> ->           */
+            if (*p->line && p->line[strlen(p->line) - 1] == '\n')   /* <LF> ->           */
                 lsize++;        /* <CR><LF>          */
             if (lsize > maxsize && p->next) {
                 split++;
-- 
2.43.0


From 510ea0ee272d7fb7fbb120ffa97eddd9916169b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 086/133] fix: rfc2ftn: commas in quoted names split addresses
 of To/Cc/Bcc

---
 src/common/rfcheader.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/common/rfcheader.c b/src/common/rfcheader.c
index ebf9022..a3dfad9 100644
--- a/src/common/rfcheader.c
+++ b/src/common/rfcheader.c
@@ -472,7 +472,7 @@ char *addr_token(char *line)
 {
     static char *save_line = NULL;
     static char *save_p = NULL;
-    int level;
+    int level, quoted;
     char *s, *p;
 
     if (line) {
@@ -491,7 +491,16 @@ char *addr_token(char *line)
     }
 
     level = 0;
+    quoted = FALSE;
     for (p = s = save_p; *p; p++) {
+        if (*p == '\\' && p[1]) {
+            p++;
+            continue;
+        }
+        if (*p == '"' && level <= 0)
+            quoted = !quoted;
+        if (quoted)
+            continue;
         if (*p == '(')
             level++;
         if (*p == ')')
-- 
2.43.0


From cbb9c3ab3522646c84a958cf44f75da348133786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 087/133] fix: rfc2ftn: messages without text were lost

---
 src/common/mime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index ad8e42e..96ebc1d 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -1842,7 +1842,7 @@ Textlist *mime_body_dec(Textlist *body, RFCHeader *header,
     if (dec_body == NULL)
         return NULL;
 
-    if (dec_body->first == NULL) {
+    if (dec_body->first == NULL && body->first != NULL) {
         fglog("ERROR: could not decode mime body");
         xfree(dec_body);
         return NULL;
-- 
2.43.0


From 2760fa852b622ca08a3d0ae8b41515e5f43a0fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 088/133] fix: rfc2ftn: tear line was appended to a last line
 of text without LF

---
 src/gate/rfc2ftn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 1c5299d..2233f25 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1281,6 +1281,10 @@ static int snd_message(Message * msg, Area * parea,
             goto again;
         }
 
+        /* Last line of text without <LF> */
+        if (!p->next && *p->line && p->line[strlen(p->line) - 1] != '\n')
+            pkt_put_line(sf, "\n");
+
         p = p->next;
         line++;
     }
-- 
2.43.0


From 9d8fca961c8bb8f4ee3c8b16156698e6b3088e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 089/133] fix: rfc2ftn: size of articles from batches was
 counted twice for LimitMsgSize

---
 src/gate/rfc2ftn.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 2233f25..f23a22e 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -2379,6 +2379,7 @@ int main(int argc, char **argv)
         /*
          * Read message body from fpart and count size
          */
+        size = 0;
         while (read_line(buffer, BUFFERSIZE, fpart)) {
             tl_append(&body, buffer);
             size += strlen(buffer) + 1; /* `+1' for additional CR */
-- 
2.43.0


From c249445387c105898b35caa29d38f8b52b348c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 090/133] fix: rfc2ftn: newsgroups after a comma and blank were
 not found

---
 src/gate/rfc2ftn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index f23a22e..415236a 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1454,7 +1454,7 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
         xpost_flag = strchr(groups, ',') != NULL;
 
         /* List of newsgroups -> textlist (strtok is not reentrant!) */
-        for (p = strtok(groups, ","); p; p = strtok(NULL, ","))
+        for (p = strtok(groups, ", \t"); p; p = strtok(NULL, ", \t"))
             tl_append(&tl, p);
 
         for (tp = tl.first; tp; tp = tp->next) {
-- 
2.43.0


From e4ad47aac11a4d0c258ab3a3064316a2d4eb4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 091/133] fix: rfc2ftn: sender of an article depended on the
 area of the previous one

---
 src/gate/rfc2ftn.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 415236a..d179ba3 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1362,7 +1362,9 @@ static int snd_mail_prepare(RFCHeader *h,
     }
     *is_fido = rfc_isfido();
 
-    cf_set_best(node_to->zone, node_to->net, node_to->node);
+    /* area's address is already set for news */
+    if (pa == NULL)
+        cf_set_best(node_to->zone, node_to->net, node_to->node);
 
     /*
      * From name/node
@@ -1471,21 +1473,6 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
                 /* should not free old header, belongs to main */
                 h = decoded;
 
-                rc = snd_mail_prepare(h, subj, sizeof(subj),
-                                      &rfc_to, &rfc_from,
-                                      &node_to, &node_from,
-                                      &msg, &fido, &alias_found,
-                                      pa, ci);
-                if (rc != 0) {
-                    ret = rc;
-                    goto out;
-                }
-
-                acl_ngrp(rfc_from, TYPE_ECHOMAIL);
-
-                from_is_local = addr_is_local_xpost(
-                    s_rfcaddr_to_asc(&rfc_from, FALSE));
-
                 ab = areasbbs_lookup(pa->area);
                 if (ab) {
                     debug(5, "Found in areasbbs %d %s", ab->zone,
@@ -1513,6 +1500,21 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
                 else
                     cf_set_zone(pa->zone);
 
+                rc = snd_mail_prepare(h, subj, sizeof(subj),
+                                      &rfc_to, &rfc_from,
+                                      &node_to, &node_from,
+                                      &msg, &fido, &alias_found,
+                                      pa, ci);
+                if (rc != 0) {
+                    ret = rc;
+                    goto out;
+                }
+
+                acl_ngrp(rfc_from, TYPE_ECHOMAIL);
+
+                from_is_local = addr_is_local_xpost(
+                    s_rfcaddr_to_asc(&rfc_from, FALSE));
+
                 /* Various checks */
                 if (check_areas_bbs && check_downlinks(pa->area) <= 0) {
                     debug(5, "area %s, not listed or no downlinks", pa->area);
-- 
2.43.0


From 07edba258565d1b5d6d1c4467708abe6ea2a8689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 092/133] fix: rfc2ftn: first message of a packet was sent from
 another address than the area's

---
 src/gate/rfc2ftn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index d179ba3..1db4871 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -970,6 +970,10 @@ static int snd_message(Message * msg, Area * parea,
         }
     }
 
+    /* Opening a new packet sets the address best for its destination */
+    if (newsmode)
+        cf_set_curr(&msg->node_from);
+
     last_zone = cf_zone();
 
     /* Decode and recode (charset) the body */
-- 
2.43.0


From 3259b1ace6b89eee2e76b55cddc75c40fdc294ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 093/133] fix: rfc2ftn: crash on an areas.bbs entry without
 links

---
 src/gate/rfc2ftn.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 1db4871..6e429f7 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1484,14 +1484,16 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
                     pa->zone = ab->zone;
                     if (ab->addr.zone == INVALID && ab->addr.net == INVALID &&
                         ab->addr.node == INVALID && ab->addr.point == INVALID) {
-                        cf_set_best(ab->nodes.first->node.zone,
-                                    ab->nodes.first->node.net,
-                                    ab->nodes.first->node.node);
-                        pa->addr.zone = cf_addr()->zone;
-                        pa->addr.net = cf_addr()->net;
-                        pa->addr.node = cf_addr()->node;
-                        pa->addr.point = cf_addr()->point;
-                        debug(5, "Set addres %s", znfp1(&pa->addr));
+                        if (ab->nodes.first) {
+                            cf_set_best(ab->nodes.first->node.zone,
+                                        ab->nodes.first->node.net,
+                                        ab->nodes.first->node.node);
+                            pa->addr.zone = cf_addr()->zone;
+                            pa->addr.net = cf_addr()->net;
+                            pa->addr.node = cf_addr()->node;
+                            pa->addr.point = cf_addr()->point;
+                            debug(5, "Set addres %s", znfp1(&pa->addr));
+                        }
                     } else
                         pa->addr = ab->addr;
                 }
-- 
2.43.0


From 798687ca6e2159cbadc2319ad9f87a9cce4ba110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 094/133] fix: rfc2ftn: crash mail for several destinations was
 put into one packet

---
 src/gate/rfc2ftn.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 6e429f7..56d7c25 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -895,6 +895,8 @@ static int snd_message(Message * msg, Area * parea,
  */
 {
     static int nmsg = 0;
+    static int last_direct = FALSE;
+    int direct;
     static int last_zone = -1;  /* Zone address of last packet */
     static FILE *sf;            /* Packet file */
     char *header;
@@ -932,14 +934,16 @@ static int snd_message(Message * msg, Area * parea,
     charset_set_in_out(ci->rfc, ci->ftn);
 
     /*
-     * Open output packet
+     * Open output packet, crash mail has its own one for the destination
      */
+    direct = (w_flag || W_flag) && (msg->attr & MSG_CRASH);
     if (pkt_isopen()
-        && (single_pkts || (!o_flag && cf_zone() != last_zone)
+        && (single_pkts || direct || last_direct || (!o_flag && cf_zone() != last_zone)
             || (maxmsg && nmsg >= maxmsg))) {
         pkt_close();
         nmsg = 0;
     }
+    last_direct = direct;
     if (!pkt_isopen()) {
         int crash = msg->attr & MSG_CRASH;
         char *p;
-- 
2.43.0


From 6660fdf89341f2717b920ac7272164facf2bf47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 095/133] fix: rfc2ftn: X-FTN-Kludge with CHRS was cut by its
 first use and ignored afterwards

---
 src/gate/rfc2ftn.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 56d7c25..039b20e 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -750,14 +750,17 @@ static bool should_skip_kludge(char *p)
 
 static char *get_charset_from_header(RFCHeader *h)
 {
-    char *kludge;
+    char kludge[MAXPATH];
     char *p;
     char *save;
 
-    kludge = get_chrs_header(h);
-    if (kludge == NULL)
+    p = get_chrs_header(h);
+    if (p == NULL)
         return NULL;
 
+    /* strtok_r() writes to its argument, keep the header intact */
+    BUF_COPY(kludge, p);
+
     /* 'CHRS:' */
     p = strtok_r(kludge, " \t", &save);
     if (p == NULL)
-- 
2.43.0


From 761aee3394804cdf7c6b33b6258d50921895b622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 096/133] fix: rfc2ftn: ^ARFC kludges and tear line recoded
 headers already in the FTN charset

---
 src/common/rfcheader.c | 14 ++------------
 src/gate/rfc2ftn.c     |  9 +++------
 2 files changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/common/rfcheader.c b/src/common/rfcheader.c
index a3dfad9..c184188 100644
--- a/src/common/rfcheader.c
+++ b/src/common/rfcheader.c
@@ -33,6 +33,8 @@
 
 /*
  * header_ca_rfc() --- Output ^ARFC-Xxxx kludges
+ *
+ * The header is expected to be in the FTN charset, see header_decode()
  */
 void header_ca_rfc(RFCHeader *header, FILE * out, int rfc_level)
 {
@@ -65,11 +67,7 @@ void header_ca_rfc(RFCHeader *header, FILE * out, int rfc_level)
                 }
             }
             if (ok)
-#ifndef RECODE_ALL_RFC
                 fprintf(out, "\001RFC-%s\r\n", p->line);
-#else
-                fprintf(out, "\001RFC-%s\r\n", xlat_s(p->line, NULL));
-#endif                          /* RECODE_ALL_RFC */
         }
     }
 
@@ -82,11 +80,7 @@ void header_ca_rfc(RFCHeader *header, FILE * out, int rfc_level)
         crlf = "";
         for (p = headers->first; p; p = p->next) {
             if (*p->line && !is_space(p->line[0])) {
-#ifndef RECODE_ALL_RFC
                 fprintf(out, "%s\001RFC-%s", crlf, p->line);
-#else
-                fprintf(out, "%s\001RFC-%s", crlf, xlat_s(p->line, NULL));
-#endif                          /* RECODE_ALL_RFC */
             } else {
                 for (i = 0; is_space(p->line[i]); i++) ;
                 fprintf(out, " %s", &(p->line[i]));
@@ -118,11 +112,7 @@ void header_ca_rfc(RFCHeader *header, FILE * out, int rfc_level)
                     }
                 }
                 if (ok)
-#ifndef RECODE_ALL_RFC
                     fprintf(out, "%s\001RFC-%s", crlf, p->line);
-#else
-                    fprintf(out, "%s\001RFC-%s", crlf, xlat_s(p->line, NULL));
-#endif                          /* RECODE_ALL_RFC */
 
             } else {
                 if (ok) {
diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 039b20e..199fdcb 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1740,7 +1740,7 @@ out:
  */
 int print_tear_line(FILE *fp, RFCHeader *h)
 {
-    char *p, *pt;
+    char *p;
 
     if (use_x_for_tearline) {
         if ((p = header_get(h, "X-FTN-Tearline")) ||
@@ -1749,11 +1749,8 @@ int print_tear_line(FILE *fp, RFCHeader *h)
             (p = header_get(h, "X-Newsreader")) ||
             (p = header_get(h, "X-GateSoftware")) ||
             (p = header_get(h, "X-HTTP-USER-AGENT"))) {
-            BUF_COPY(buffer, p);
-            /* TODO: no xlat when converted directly to FTN charset */
-            pt = xlat_s(buffer, NULL);
-            fprintf(fp, "--- %s\r", pt ? pt : buffer);
-            pt = xlat_s(NULL, pt);
+            /* already in the FTN charset, see header_decode() */
+            fprintf(fp, "--- %s\r", p);
             return ferror(fp);
         }
     }
-- 
2.43.0


From a2dd30345614f7e097af99eaa8157e1f2b27d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 097/133] fix: mime: base64 lines of other lengths than
 multiples of 4 up to 80 lost text

---
 src/common/mime.c | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index 96ebc1d..c69bbea 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -109,7 +109,6 @@ char *mime_dequote(char *d, size_t n, char *s)
  * https://github.com/ykaliuta/fidogate/commit/a727f4bae629905392e8e174c003bfa38bcbf386
  */
 #define MIME_HEADER_STR_DELIM	"\n"
-#define MIME_ENC_STRING_LIMIT 80
 #define MIME_MAX_ENC_LEN 31
 
 #define MAX_UTF8_LEN 4
@@ -1611,9 +1610,15 @@ static Textlist *mime_debody_base64(Textlist * body)
     Textlist *dec_body = NULL;
     Textline *line;
 
+    char *enc;
+    char *p;
     int max_len = MAX_LINE_LENGTH;
     int left;
     int enc_len = 0, dec_str_len = 0;
+    char quantum[4];            /* incomplete one of the previous lines */
+    int rest = 0;
+    bool padded = false;
+    bool garbage;
 
     dec_body = xmalloc(sizeof(*dec_body));
     memset(dec_body, 0, sizeof(*dec_body));
@@ -1625,9 +1630,36 @@ static Textlist *mime_debody_base64(Textlist * body)
 
     for (line = body->first; line != NULL; line = line->next) {
 
-        enc_len = (xstrnlen(line->line, MIME_ENC_STRING_LIMIT) / 4) * 4;
-        if (mime_b64_decode(&dec_str, line->line, enc_len) == ERROR)
-            goto exit;
+        /* line breaks may be anywhere, other characters are to be ignored */
+        enc = xmalloc(rest + strlen(line->line) + 1);
+        memcpy(enc, quantum, rest);
+        enc_len = rest;
+        garbage = false;
+        for (p = line->line; *p; p++) {
+            if (mime_b64toint(*p) != ERROR)
+                enc[enc_len++] = *p;
+            else if (!is_space(*p))
+                garbage = true;
+        }
+
+        /* something added after the end, as mailing lists do */
+        if (padded && garbage) {
+            xfree(enc);
+            break;
+        }
+        if (enc_len > 0)
+            padded = enc[enc_len - 1] == '=';
+
+        rest = enc_len % 4;
+        enc_len -= rest;
+        memcpy(quantum, enc + enc_len, rest);
+
+        if (mime_b64_decode(&dec_str, enc, enc_len) == ERROR) {
+            fglog("ERROR: decoding base64, skipping the rest of section");
+            xfree(enc);
+            break;
+        }
+        xfree(enc);
 
 	to_free = dec_str;
 
@@ -1669,7 +1701,6 @@ static Textlist *mime_debody_base64(Textlist * body)
     if (left != max_len)
         mime_debody_flush_str(dec_body, out_str);
 
- exit:
     xfree(out_str);
     return dec_body;
 }
-- 
2.43.0


From b9fc06c674849b22c4203110a703074c9baf0504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 098/133] fix: mime: last part of a multipart message without
 final boundary was lost

---
 src/common/mime.c | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index c69bbea..ae4dd85 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -1721,13 +1721,32 @@ static bool mime_is_boundary(char *line, char *boundary)
     return *line == '\0';
 }
 
+/* decodes one part of a multipart body and appends it to the others */
+static void mime_debody_part(Textlist *dec_body, Textlist *part,
+                             char *to, char *ch_fallback)
+{
+    RFCHeader *header;
+    Textlist *ptr_body;
+
+    header = header_read_list(part);
+    header_delete_from_body(part);
+
+    ptr_body = mime_debody_section(part, header, to, ch_fallback);
+    if (ptr_body != NULL) {
+        tl_addtl_move(dec_body, ptr_body);
+        if (ptr_body != part)
+            xfree(ptr_body);
+    }
+    tl_clear(part);
+    header_free(header);
+}
+
 static Textlist *mime_debody_multipart(Textlist * body, MIMEInfo * mime,
                                        char *to, char *ch_fallback)
 {
-    RFCHeader *header;
     Textline *line;
 
-    Textlist *dec_body, *ptr_body, tmp_body = { NULL, NULL };
+    Textlist *dec_body, tmp_body = { NULL, NULL };
 
     char *boundary = NULL;
     char *fin_boundary = NULL;
@@ -1761,24 +1780,17 @@ static Textlist *mime_debody_multipart(Textlist * body, MIMEInfo * mime,
             && !mime_is_boundary(line->line, fin_boundary)) {
             tl_append(&tmp_body, line->line);
         } else {
-            header = header_read_list(&tmp_body);
-            header_delete_from_body(&tmp_body);
-
-            ptr_body = mime_debody_section(&tmp_body, header, to, ch_fallback);
-            if (ptr_body != NULL) {
-                tl_addtl_move(dec_body, ptr_body);
-                if (ptr_body != &tmp_body)
-                    xfree(ptr_body);
-            }
-            tl_clear(&tmp_body);
-            header_free(header);
+            mime_debody_part(dec_body, &tmp_body, to, ch_fallback);
 
             if (mime_is_boundary(line->line, fin_boundary))
                 break;
         }
     }
 
-    tl_clear(&tmp_body);
+    /* the final boundary may be missing */
+    if (tmp_body.first != NULL)
+        mime_debody_part(dec_body, &tmp_body, to, ch_fallback);
+
     xfree(boundary);
     xfree(fin_boundary);
     return dec_body;
-- 
2.43.0


From f8697c55c49e5032a4dcbb320e7d28ac729825d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 099/133] fix: rfc2ftn: failing to write a packet was
 forgotten, article list removed

---
 src/gate/rfc2ftn.c | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 199fdcb..d8a4646 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -943,8 +943,9 @@ static int snd_message(Message * msg, Area * parea,
     if (pkt_isopen()
         && (single_pkts || direct || last_direct || (!o_flag && cf_zone() != last_zone)
             || (maxmsg && nmsg >= maxmsg))) {
-        pkt_close();
         nmsg = 0;
+        if (pkt_close() != OK)
+            return EX_IOERR;
     }
     last_direct = direct;
     if (!pkt_isopen()) {
@@ -1994,7 +1995,7 @@ int main(int argc, char **argv)
 {
     RFCAddr rfc_to;
     int i, c;
-    int status = EX_OK, st;
+    int status = EX_OK, st, failed = EX_OK;
     short log_artnf = TRUE;
     long size = 0, nmsg;
     char *p;
@@ -2404,7 +2405,7 @@ int main(int argc, char **argv)
 
         if (newsmode) {
             /* Send mail to echo feed for news messages */
-            status = snd_mail(rfc_to, size, header);
+            st = snd_mail(rfc_to, size, header);
             tmps_freeall();
         } else {
             struct charset_info _ci, *ci = &_ci;
@@ -2415,18 +2416,24 @@ int main(int argc, char **argv)
 
             if (t_flag || optind >= argc) {  /* flag or no arguments */
                 /* Send mail to addresses from headers */
-                status = snd_to_cc_bcc(size, header);
+                st = snd_to_cc_bcc(size, header);
                 tmps_freeall();
             } else {
+                int ret;
+
                 /* Send mail to addresses from command line args */
+                st = EX_OK;
                 for (i = optind; i < argc; i++) {
                     rfc_to = rfcaddr_from_rfc(argv[i]);
-                    if ((st = snd_mail(rfc_to, size, header)) != EX_OK)
-                        status = st;
+                    if ((ret = snd_mail(rfc_to, size, header)) != EX_OK)
+                        st = ret;
                     tmps_freeall();
                 }
             }
         }
+        /* The error of one message must survive the next ones */
+        if (st != EX_OK)
+            status = st;
 
         header_free(header);
         tl_clear(&body);
@@ -2434,10 +2441,22 @@ int main(int argc, char **argv)
 
         if (!b_flag && !f_flag)
             break;
+
+        /* Can't write packets, articles from the list are tried again */
+        if (st == EX_CANTCREAT || st == EX_IOERR) {
+            failed = st;
+            if (f_flag)
+                break;
+        }
     }
 
-    pkt_close();
-    if (f_flag) {
+    if (pkt_close() != OK)
+        status = failed = EX_IOERR;
+    if (f_flag && failed) {
+        /* Some articles are not in any packet, the next run tries again */
+        fglog("ERROR: can't write packet, keeping article list %s", f_flag);
+        fclose(fp);
+    } else if (f_flag) {
         debug(3, "Removing list file %s", f_flag);
         fclose(fp);
         unlink(f_flag);
-- 
2.43.0


From ace661c943085182f13195c24f93f41917d3cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 100/133] fix: rfc2ftn: list position saved before the packet
 was complete

---
 src/gate/rfc2ftn.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index d8a4646..f879bd5 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -2324,6 +2324,11 @@ int main(int argc, char **argv)
             /* Save current position if necessary */
             if ((nmsg % POS_INTERVAL) == 0) {
                 pos = ftell(fp);
+                /* Articles before this position must be in a packet */
+                if (pkt_close() != OK) {
+                    status = failed = EX_IOERR;
+                    break;
+                }
                 debug(4, "Position in list file %ld, writing to %s",
                       pos, posfile);
                 fppos = fopen_expand_name(posfile, W_MODE, TRUE);
-- 
2.43.0


From 427a50408fe149d9beab27206d368defbdc7b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 101/133] fix: rfc2ftn: ACL of one message stayed in effect for
 the next after an error

---
 src/gate/rfc2ftn.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index f879bd5..f22c9c4 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1593,7 +1593,6 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
         }
 
         tl_clear(&tl);
-        acl_ngrp_free();
     } else {
         /*
          * NetMail message
@@ -1706,7 +1705,6 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
             status = snd_message(&msg, NULL, rfc_from, rfc_to,
                                  subj, size, flags, fido, mime, &node_from,
                                  h, ci);
-            acl_ngrp_free();
             ret = status;
             goto out;
         } else {
@@ -1721,7 +1719,6 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
                      s_rfcaddr_to_asc(&rfc_from, FALSE), asc_node_to);
             }
 
-            acl_ngrp_free();
             ret = EX_OK;
             goto out;
         }
@@ -1730,6 +1727,7 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
     ret = EX_OK;
 
 out:
+    acl_ngrp_free();
     if (decoded != NULL)
         header_free(decoded);
     TMPS_RETURN(ret);
-- 
2.43.0


From 0b1673fd4eb219204df157673db11ba6589733fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 102/133] fix: data from received messages and files was passed
 to the shell unquoted

---
 src/areafix/areafix.c    | 11 +++++++----
 src/areafix/ftnafutil.c  |  3 ++-
 src/common/misc.c        | 26 ++++++++++++++++++++++++++
 src/gate/ftn2rfc.c       |  5 +++--
 src/gate/ftnin.c         |  2 +-
 src/gate/ftninpost.c     | 28 ++++++++++++++++++++++++++--
 src/include/prototypes.h |  1 +
 src/tick/ftntick.c       |  5 +++--
 src/toss/ftntoss.c       |  2 +-
 src/toss/ngoper.c        |  8 +++++---
 src/toss/runinc.c        |  6 +++---
 11 files changed, 78 insertions(+), 19 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index db6b14d..4a873dc 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -929,12 +929,13 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
         snprintf(buffer, sizeof(buffer), "%s %s %s %s %s %d %s %s %d %s",
 #endif                          /* !FTN_ACL */
                 autocreate_script_cmd,
-                p->area,
+                s_shell_escape(p->area),
                 znfp1(node),
                 p->state,
                 znfp1(&p->addr),
                 p->lvl,
-                p->key ? p->key : "NONE", p->desc ? p->desc : "NONE", p->zone,
+                p->key ? s_shell_escape(p->key) : "NONE",
+                p->desc ? s_shell_escape(p->desc) : "NONE", p->zone,
 #ifndef FTN_ACL
                 p->flags & AREASBBS_PASSTHRU ? "-#" : "-",
                 p->flags & AREASBBS_READONLY ? "-r" : "-");
@@ -997,7 +998,8 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
     if (cf_get_string("AutoCreateNG", TRUE)) {
         if (autocreate_area = areas_lookup(p->area, NULL, node)) {
             fglog("create newsgroup %s", autocreate_area->group);
-            BUF_COPY2(buffer, "%N/ngoper create ", autocreate_area->group);
+            BUF_COPY2(buffer, "%N/ngoper create ",
+                      s_shell_escape(autocreate_area->group));
             if (0 != run_system(buffer))
                 fglog("ERROR: can't create newsgroup (rc != 0)");
         } else {
@@ -1987,7 +1989,8 @@ int cmd_delete(Node * node, char *area)
 #ifndef ACTIVE_LOOKUP
     if (cf_get_string("AutoCreateNG", TRUE)) {
         if (NULL != (autocreate_area = areas_lookup(area, NULL, NULL))) {
-            BUF_COPY2(buffer, "%N/ngoper remove ", autocreate_area->group);
+            BUF_COPY2(buffer, "%N/ngoper remove ",
+                      s_shell_escape(autocreate_area->group));
             if (0 != run_system(buffer))
                 fglog("ERROR: can't create newsgroup (rc != 0)");
         } else {
diff --git a/src/areafix/ftnafutil.c b/src/areafix/ftnafutil.c
index 5c4d154..7fb46f9 100644
--- a/src/areafix/ftnafutil.c
+++ b/src/areafix/ftnafutil.c
@@ -123,7 +123,8 @@ void rm_group(char *area, Node * uplink)
             debug(7, "Found: %s stat = %s", p->group, p->flag);
 #endif
             if (cf_get_string("AutoRemoveNG", TRUE)) {
-                BUF_COPY2(buffer, "%N/ngoper remove ", ar->group);
+                BUF_COPY2(buffer, "%N/ngoper remove ",
+                          s_shell_escape(ar->group));
                 if (0 != run_system(buffer))
                     fglog("ERROR: can't remove newsgroup (rc != 0)");
             } else
diff --git a/src/common/misc.c b/src/common/misc.c
index eea9669..50027fa 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -458,6 +458,32 @@ char *str_dosify(char *s)
     return s;
 }
 
+/*
+ * Make data from outside one harmless word of a shell command, returns a
+ * temporary string
+ */
+char *s_shell_escape(const char *s)
+{
+    char *ret, *d;
+
+    ret = d = tmps_alloc(2 * strlen(s) + 3);
+    if (!*s) {
+        *d++ = '\'';
+        *d++ = '\'';
+    }
+    for (; *s; s++) {
+        /* Can't be escaped */
+        if (*s == '\n' || *s == '\r')
+            continue;
+        if (!(*s & 0x80) && !isalnum(*s & 0xff) && !strchr("@%_+-=:,./", *s))
+            *d++ = '\\';
+        *d++ = *s;
+    }
+    *d = 0;
+
+    return ret;
+}
+
 /*
  * Run system command, return exit code
  */
diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 47fe4b7..8eb69d4 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -239,8 +239,9 @@ Area *news_msg(char *line, Node * to)
                 if (cf_get_string("AutoCreateNG", TRUE)) {
                     fglog("create newsgroup %s", pa->group);
                     BUF_COPY2(buffer, "%N/ngoper create ", pa->group);
-                    sprintf(exec_line, "%s/ngoper create %s", cf_p_bindir(),
-                            pa->group);
+                    str_printf(exec_line, sizeof(exec_line),
+                               "%s/ngoper create %s", cf_p_bindir(),
+                               s_shell_escape(pa->group));
                     debug(8, "run: %s", exec_line);
                     if (0 != run_system(exec_line))
                         fglog("can't create newsgroup (rc != 0)");
diff --git a/src/gate/ftnin.c b/src/gate/ftnin.c
index 7472d19..5561fe4 100644
--- a/src/gate/ftnin.c
+++ b/src/gate/ftnin.c
@@ -177,7 +177,7 @@ int exec_ftn2rfc(char *name)
 
     debug(2, "Packet: %s", name);
 
-    BUF_COPY4(buffer, cmd, args, " ", name);
+    BUF_COPY4(buffer, cmd, args, " ", s_shell_escape(name));
     debug(2, "Command: %s", buffer);
 
     ret = run_system(buffer);
diff --git a/src/gate/ftninpost.c b/src/gate/ftninpost.c
index 68c038b..8bbe38f 100644
--- a/src/gate/ftninpost.c
+++ b/src/gate/ftninpost.c
@@ -193,6 +193,29 @@ int unsplit_mail()
     return 0;
 }
 */
+/*
+ * Cut address in "From " line, local part may be quoted
+ */
+static char *envelope_sender(char *s)
+{
+    char *p;
+    int quote = FALSE;
+
+    while (is_space(*s))
+        s++;
+    for (p = s; *p && (quote || !is_space(*p)); p++) {
+        if (*p == '"')
+            quote = !quote;
+        else if (quote && *p == '\\' && p[1])
+            p++;
+    }
+    if (quote)                  /* Not closed */
+        for (p = s; *p && !is_space(*p); p++) ;
+    *p = 0;
+
+    return s;
+}
+
 int do_dir(char *cdir, int mode)
 {
     char *rfc_file;
@@ -232,8 +255,9 @@ int do_dir(char *cdir, int mode)
                         debug(9, "WARNING: \"From\" string not found");
                         break;
                     } else {
-                        p = xstrtok(p + 5, " \t");
-                        str_printf(buf, sizeof(buf), ftnin_sendmail, p);
+                        p = envelope_sender(p + 5);
+                        str_printf(buf, sizeof(buf), ftnin_sendmail,
+                                   s_shell_escape(p));
                         p = buf;
                     }
                 } else {
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index c1211b1..d5f2dec 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -440,6 +440,7 @@ char *str_dosify(char *);
 #define DOSIFY_IF_NEEDED(s)
 #endif
 int run_system(char *);
+char *s_shell_escape(const char *);
 
 int xfeof(FILE *);
 
diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index f40f7d7..30d3295 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -270,7 +270,7 @@ int do_tic(int w_flag)
             if (exec_script) {
                 int ret;
 
-                BUF_COPY3(buffer, exec_script, " ", name);
+                BUF_COPY3(buffer, exec_script, " ", s_shell_escape(name));
 
                 debug(4, "Command: %s", buffer);
                 ret = run_system(buffer);
@@ -634,7 +634,8 @@ int process_tic(Tick * tic)
                 wild_file = xstrtok(NULL, " \t");
                 tick_action = xstrtok(NULL, "\n");
                 if (wildmatch(tic->file, wild_file, TRUE)) {
-                    sprintf(buffer, tick_action, new_name);
+                    str_printf(buffer, sizeof(buffer), tick_action,
+                               s_shell_escape(new_name));
                     debug(8, "exec: %s", buffer);
                     ret = run_system(buffer);
                     if (ret)
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index f9e096c..7849814 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -861,7 +861,7 @@ int do_echomail(Packet * pkt, Message * msg, MsgBody * body)
             if (NULL !=
                 (autocreate_area = areas_lookup(areaname, NULL, &pkt->to))) {
                 BUF_COPY2(autocreate_ng_cmd, "%N/ngoper create ",
-                          autocreate_area->group);
+                          s_shell_escape(autocreate_area->group));
                 ret = run_system(autocreate_ng_cmd);
                 if (0 != ret)
                     fglog("can't create newsgroup (rc != 0)");
diff --git a/src/toss/ngoper.c b/src/toss/ngoper.c
index 2ea3146..647937e 100644
--- a/src/toss/ngoper.c
+++ b/src/toss/ngoper.c
@@ -21,6 +21,7 @@ int main(int argc, char **argv)
     char *cmd_ng, *cmd_rn = NULL, *cmd_rm;
     char *c_flag = NULL;
     char *p;
+    char *group;
     char buf[BUFSIZ];
     FILE *fp;
 
@@ -116,18 +117,19 @@ int main(int argc, char **argv)
     if (fp == NULL)
         fglog("$ERROR: could not redirect stdin");
 
+    group = s_shell_escape(argv[optind + 1]);
     if (!remove) {
-        str_printf(buf, sizeof(buf), cmd_ng, argv[optind + 1]);
+        str_printf(buf, sizeof(buf), cmd_ng, group);
         if (0 != run_system(buf))
             return 1;
 
         if (cmd_rn) {
-            str_printf(buf, sizeof(buf), cmd_rn, argv[optind + 1]);
+            str_printf(buf, sizeof(buf), cmd_rn, group);
             if (0 != run_system(buf))
                 return 1;
         }
     } else {
-        str_printf(buf, sizeof(buf), cmd_rm, argv[optind + 1]);
+        str_printf(buf, sizeof(buf), cmd_rm, group);
         if (0 != run_system(buf))
             return 1;
     }
diff --git a/src/toss/runinc.c b/src/toss/runinc.c
index 87d9944..3b4942b 100644
--- a/src/toss/runinc.c
+++ b/src/toss/runinc.c
@@ -241,7 +241,7 @@ int run_unpack(char *cmd_list, char *cmd_unarc, char *archive, char *type)
     int ret;
 
     debug(5, "cmd - %s, archive - %s", cmd_list, archive);
-    str_printf(line, sizeof(line), cmd_list, archive);
+    str_printf(line, sizeof(line), cmd_list, s_shell_escape(archive));
 
     if (!(fp = popen(line, R_MODE))) {
         fglog("ERROR: can't open pipe to %s", line);
@@ -261,7 +261,7 @@ int run_unpack(char *cmd_list, char *cmd_unarc, char *archive, char *type)
                 }
             } else {
                 fglog("WARNING: unpack failed, compresser returns:");
-                str_printf(line, sizeof(line), cmd_list, archive);
+                str_printf(line, sizeof(line), cmd_list, s_shell_escape(archive));
 
                 if (!(fp = popen(line, R_MODE))) {
                     fglog("ERROR: can't open pipe to %s", line);
@@ -279,7 +279,7 @@ int run_unpack(char *cmd_list, char *cmd_unarc, char *archive, char *type)
     }
 
     debug(5, "cmd - %s, archive - %s", cmd_unarc, archive);
-    str_printf(line, sizeof(line), cmd_unarc, archive);
+    str_printf(line, sizeof(line), cmd_unarc, s_shell_escape(archive));
     BUF_APPEND(line, " > /dev/null");
 
     if ((ret = system_run(line)) == 0) {
-- 
2.43.0


From 12e9620cb78150e7e5ef716e77793a64681ed0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 103/133] fix: ftninpost: message removed if renaming it to
 .bad failed

---
 src/gate/ftninpost.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gate/ftninpost.c b/src/gate/ftninpost.c
index 8bbe38f..c6e578e 100644
--- a/src/gate/ftninpost.c
+++ b/src/gate/ftninpost.c
@@ -293,10 +293,12 @@ int do_dir(char *cdir, int mode)
                 char bad[MAXPATH];
                 fglog("$WARNING: %s returned non-zero status", p);
                 str_change_ext(bad, sizeof(bad), rfc_file, ".bad");
-                fglog("ERROR: bad rfcbatch renamed to %s", bad);
-                rename(rfc_file, bad);
-            }
-            unlink(rfc_file);
+                if (rename(rfc_file, bad) == ERROR)
+                    fglog("$ERROR: can't rename %s to %s", rfc_file, bad);
+                else
+                    fglog("ERROR: bad rfcbatch renamed to %s", bad);
+            } else
+                unlink(rfc_file);
         }
     }
     dir_close();
-- 
2.43.0


From 63734814dff8fe3033e2dc1523b6d58395c10c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 104/133] fix: ftninpost: mail was dropped when FTNInSendmail
 isn't configured

---
 src/gate/ftninpost.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gate/ftninpost.c b/src/gate/ftninpost.c
index c6e578e..28f56be 100644
--- a/src/gate/ftninpost.c
+++ b/src/gate/ftninpost.c
@@ -384,9 +384,12 @@ int main(int argc, char **argv)
 
     BUF_EXPAND(buf, cf_p_outrfc_mail());
 //    do_dir(buf, 0);
-    do_dir(buf, 1);
+    /* Without the program there is nobody to give the messages to */
+    if (*ftnin_sendmail)
+        do_dir(buf, 1);
     BUF_EXPAND(buf, cf_p_outrfc_news());
-    do_dir(buf, 2);
+    if (ftnin_rnews && *ftnin_rnews)
+        do_dir(buf, 2);
 /*
     unsplit_mail("test");
 */
-- 
2.43.0


From 7683638d2341db782da679f1ec33506abb96e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 105/133] fix: rfc2ftn: crash without DefaultCharset, charset
 in the config changed to upper case

---
 src/gate/rfc2ftn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index f22c9c4..342c057 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -830,7 +830,8 @@ static void determine_charsets(RFCHeader *h, Area *parea, struct charset_info *i
     if (!ftn)
         ftn = CHARSET_STD7BIT;
 
-    ftn_name = charset_name_rfc2ftn(ftn);
+    /* Config and constants stay as they are */
+    ftn_name = s_copy(charset_name_rfc2ftn(ftn));
     str_upper(ftn_name);
 
     if (!default_rfc)
-- 
2.43.0


From 05619dc08dc0fed8244af741dd6ca4bb964de9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 106/133] fix: packet: OUT packet not restored after a write
 error on a full disk

---
 src/common/packet.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/common/packet.c b/src/common/packet.c
index db158ee..66c09f1 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -377,7 +377,6 @@ FILE *pkt_open(char *name, Node * node, char *flav, int bsy)
  */
 void pkt_cancel(void)
 {
-    char end[2] = { 0, 0 };
     int fd;
 
     if (!packet_file)
@@ -388,9 +387,9 @@ void pkt_cancel(void)
         fd = dup(fileno(packet_file));
         fclose(packet_file);
         if (fd == -1 ||
-            ftruncate(fd, packet_pos ? packet_pos + 2 : 0) == ERROR ||
-            (packet_pos && (lseek(fd, packet_pos, SEEK_SET) == -1 ||
-                            write(fd, end, 2) != 2)))
+            ftruncate(fd, packet_pos) == ERROR ||
+            /* The end of packet, works on a full disk as well */
+            (packet_pos && ftruncate(fd, packet_pos + 2) == ERROR))
             fglog("$ERROR: can't restore packet %s", packet_name);
         if (packet_pos == 0)
             unlink(packet_name);
-- 
2.43.0


From 95dc65aa9bad811d17143db5574b954b4c31b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 107/133] fix: rfc2ftn: message cut by a read error was gated,
 broken batch reported as success

---
 src/gate/rfc2ftn.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 342c057..5c120cf 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -2336,8 +2336,11 @@ int main(int argc, char **argv)
             }
 
             /* Get next article file */
-            if (!fgets(buffer, sizeof(buffer), fp))
+            if (!fgets(buffer, sizeof(buffer), fp)) {
+                if (ferror(fp))
+                    status = failed = EX_IOERR;
                 break;
+            }
             strip_crlf(buffer);
             if (!(p = strtok(buffer, " \t")))
                 continue;
@@ -2359,8 +2362,10 @@ int main(int argc, char **argv)
         /* News batch, separated by #! rnews SIZE */
         if (b_flag) {
             size = read_rnews_size(fpart);
-            if (size == -1)
+            if (size == -1 || ferror(fpart)) {
                 fglog("ERROR: reading news batch");
+                status = ferror(fpart) ? EX_IOERR : EX_DATAERR;
+            }
             if (size <= 0)
                 break;
             debug(3, "Batch: message #%ld size %ld", nmsg, size);
@@ -2402,6 +2407,17 @@ int main(int argc, char **argv)
             size += strlen(buffer) + 1; /* `+1' for additional CR */
         }
         debug(7, "Message body size %ld (+CR!)", size);
+        if (ferror(fpart)) {
+            /* Don't gate a part of a message */
+            fglog("$ERROR: reading %s", f_flag ? article : "message");
+            status = EX_IOERR;
+            header_free(header);
+            tl_clear(&body);
+            if (!f_flag)
+                break;
+            fclose(fpart);
+            continue;
+        }
         if (f_flag)
             fclose(fpart);
 
-- 
2.43.0


From 00fd98b5e4649b2da82b95d2c9ab05e03ab2177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 108/133] fix: s_shell_escape() wrote its result over the head
 of the temporary string

---
 src/common/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/misc.c b/src/common/misc.c
index 50027fa..f60eab1 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -466,7 +466,7 @@ char *s_shell_escape(const char *s)
 {
     char *ret, *d;
 
-    ret = d = tmps_alloc(2 * strlen(s) + 3);
+    ret = d = tmps_alloc(2 * strlen(s) + 3)->s;
     if (!*s) {
         *d++ = '\'';
         *d++ = '\'';
-- 
2.43.0


From 6016541a3861827a53cc3782f8034c4a465fd781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 109/133] fix: areafix, ftnflo: area state and names of files
 unquoted in commands, -s without state crashed, failed script not logged

---
 src/areafix/areafix.c | 9 +++++----
 src/util/ftnflo.c     | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 4a873dc..d026ba5 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -826,7 +826,8 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
             asc_to_node(o2, &p->addr, FALSE);
         }
         if (streq(o1, "-s")) {  /* -s STATE */
-            o2 = xstrtok(NULL, " \t");
+            if (!(o2 = xstrtok(NULL, " \t")))
+                break;
             p->state = strsave(o2);
         }
         if (streq(o1, "-e")) {  /* -e DAYS */
@@ -931,7 +932,7 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
                 autocreate_script_cmd,
                 s_shell_escape(p->area),
                 znfp1(node),
-                p->state,
+                s_shell_escape(p->state),
                 znfp1(&p->addr),
                 p->lvl,
                 p->key ? s_shell_escape(p->key) : "NONE",
@@ -943,9 +944,9 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
                 p->flags & AREASBBS_PASSTHRU ? "-#" : "-");
 #endif                          /* !FTN_ACL */
         if (run_system(buffer))
-            debug(7, "exec autocreate script %s", buffer);
-        else
             fglog("ERROR: failed exec autocreate script %s", buffer);
+        else
+            debug(7, "exec autocreate script %s", buffer);
     } else
         areasbbs_changed();
 
diff --git a/src/util/ftnflo.c b/src/util/ftnflo.c
index 8046f58..ce0e750 100644
--- a/src/util/ftnflo.c
+++ b/src/util/ftnflo.c
@@ -81,7 +81,7 @@ int do_flo(Node * node)
         }
         if (x_flag) {
             /* Command */
-            str_printf(buf, sizeof(buf), script, line);
+            str_printf(buf, sizeof(buf), script, s_shell_escape(line));
             debug(2, "Command: %s", buf);
 
             if (!n_flag) {
-- 
2.43.0


From 591325d584d956cc4672a20fc687bf25c19a83c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 110/133] fix: ftntick: TickFileAction got the name of an
 already removed link instead of the file

---
 src/tick/ftntick.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 30d3295..67fd1c1 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -611,10 +611,6 @@ int process_tic(Tick * tic)
         }
         debug(9, "unlink %s", new_name);
         unlink(new_name);
-        if (bbs->flags & AREASBBS_PASSTHRU) {
-            debug(9, "unlink %s", old_name);
-            unlink(old_name);
-        }
         /*
          * TickFileAction
          */
@@ -635,7 +631,7 @@ int process_tic(Tick * tic)
                 tick_action = xstrtok(NULL, "\n");
                 if (wildmatch(tic->file, wild_file, TRUE)) {
                     str_printf(buffer, sizeof(buffer), tick_action,
-                               s_shell_escape(new_name));
+                               s_shell_escape(old_name));
                     debug(8, "exec: %s", buffer);
                     ret = run_system(buffer);
                     if (ret)
@@ -649,8 +645,10 @@ int process_tic(Tick * tic)
             xfree(str_save);
         }
 #ifdef FECHO_PASSTHROUGHT
-        if (bbs->flags & AREASBBS_PASSTHRU)
-            unlink(new_name);
+        if (bbs->flags & AREASBBS_PASSTHRU) {
+            debug(9, "unlink %s", old_name);
+            unlink(old_name);
+        }
 #endif                          /* FECHO_PASSTHROUGHT */
     }
 
-- 
2.43.0


From 729a88c5c4009d3c1f9f36787ebef437e8ad716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 111/133] fix: ftntoss, ftntick, areafix: options and
 directories in names of new areas from received data

---
 src/areafix/areafix.c | 7 +++++++
 src/tick/ftntick.c    | 5 +++++
 src/toss/ftntoss.c    | 7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index d026ba5..cf339a2 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -752,6 +752,13 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
             }
     }
 
+    /* The name is also the name of the area's directory */
+    if (!areafix && strchr(name, '/')) {
+        fglog("WARNING: bad name of filearea %s, can't create.", name);
+        areafix_printf("%-41s: have forbidden char, can't create.", name);
+        return -2;
+    }
+
     if (!authorized_cmdline) {
         if (areafix && areafix_check_forbidden_area(name)) {
             areafix_printf("%-41s: forbidden area, can't create.", name);
diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 67fd1c1..3fd1d4c 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -350,6 +350,11 @@ int process_tic(Tick * tic)
                 /* Unknown filearea */
                 return ERROR;
             }
+            /* The rest of the name would be taken for options */
+            if (strpbrk(tic->area, " \t")) {
+                fglog("bad name of filearea %s, not created", tic->area);
+                return ERROR;
+            }
             if (!int_uplinks) {
                 uplinks_init();
                 int_uplinks = TRUE;
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 7849814..e3cf7aa 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -823,6 +823,13 @@ int do_echomail(Packet * pkt, Message * msg, MsgBody * body)
             return OK;
         }
 
+        /* The rest of the name would be taken for options */
+        if (strpbrk(areaname, " \t")) {
+            fglog("bad name of area %s, not created", areaname);
+            do_unknown_area(areaname, msg, body);
+            return OK;
+        }
+
         if (!int_uplinks) {
             uplinks_init();
             int_uplinks = TRUE;
-- 
2.43.0


From 859ac40ec723fb1cd06771ae3177e8ba77630707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 112/133] fix: ftntick, ftnhatch: wrong Replaces, LDesc,
 Created, CRC and password in outgoing TICs

---
 src/common/tick.c  | 30 ++++++++++++++++++++++--------
 src/tick/ftntick.c |  9 ++++-----
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/common/tick.c b/src/common/tick.c
index f928166..26810fa 100644
--- a/src/common/tick.c
+++ b/src/common/tick.c
@@ -95,13 +95,18 @@ int tick_put(Tick * tic, char *name, mode_t mode)
     LNode *p;
     Textline *pl;
 
-    if (!creat(name, mode)) {
+    int fd;
+
+    if ((fd = creat(name, mode)) == -1) {
         fglog("ERROR: can't create file %s (%s)", name, strerror(errno));
         return ERROR;
     }
 
-    if ((fp = fopen(name, W_MODE)) == NULL)
+    if ((fp = fdopen(fd, W_MODE)) == NULL) {
+        close(fd);
+        unlink(name);
         return ERROR;
+    }
 
 //    if(chmod(name, mode) == -1)
 //  fglog("WARNING: can't change mode for file %s (%s)", name, strerror(errno));
@@ -111,12 +116,13 @@ int tick_put(Tick * tic, char *name, mode_t mode)
     fprintf(fp, "From %s\r\n", znf1(&tic->from));
     fprintf(fp, "File %s\r\n", tic->file);
     if (tic->replaces)
-        fprintf(fp, "Replaces %s\r\n", tic->file);
+        fprintf(fp, "Replaces %s\r\n", tic->replaces);
     fprintf(fp, "Desc %s\r\n", tic->desc.first ? tic->desc.first->line : "");
-    if (tic->ldesc.first)
-        fprintf(fp, "LDesc %s\r\n", tic->desc.first->line);
+    for (pl = tic->ldesc.first; pl; pl = pl->next)
+        fprintf(fp, "LDesc %s\r\n", pl->line);
     fprintf(fp, "CRC %08lX\r\n", tic->crc);
-    fprintf(fp, "Created %s\r\n", tic->created);
+    if (tic->created)
+        fprintf(fp, "Created %s\r\n", tic->created);
     fprintf(fp, "Size %lu\r\n", tic->size);
     fprintf(fp, "Date %ld\r\n", (long)tic->date);
     for (pl = tic->path.first; pl; pl = pl->next)
@@ -125,7 +131,14 @@ int tick_put(Tick * tic, char *name, mode_t mode)
         fprintf(fp, "Seenby %s\r\n", znf1(&p->node));
     fprintf(fp, "Pw %s\r\n", tic->pw);
 
-    return fclose(fp);
+    fd = ferror(fp);
+    if (fclose(fp) == ERROR || fd) {
+        fglog("$ERROR: can't write %s", name);
+        unlink(name);
+        return ERROR;
+    }
+
+    return OK;
 }
 
 /*
@@ -403,7 +416,8 @@ int tick_send(Tick * tic, Node * node, char *name, mode_t mode)
     /*
      * Get password
      */
-    if ((pwd = passwd_lookup(MY_CONTEXT, node)))
+    if ((pwd = passwd_lookup(cf_get_string("EnableTickPassword", TRUE)
+                             ? "tic" : MY_CONTEXT, node)))
         pw = pwd->passwd;
     debug(4, "passwd: %s", pwd ? pwd->passwd : "-NONE-");
 
diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 3fd1d4c..9296a99 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -910,21 +910,20 @@ int check_file(Tick * tic)
     if (tic->date == -1)
         tic->date = st.st_mtime;
 
-#ifndef FTNTICK_NOCRC
     /*
      * File CRC
      */
-    crc = crc32_file(name);
-    if (tic->crc == 0 && crc != 0)
-        tic->crc = crc;
+    if (tic->crc == 0)
+        tic->crc = crc32_file(name);
+#ifndef FTNTICK_NOCRC
     else {
+        crc = crc32_file(name);
         if (tic->crc != crc) {
             fglog("ERROR: wrong CRC for file %s: got %08lx, expected %08lx",
                   name, crc, tic->crc);
             return ERROR;
         }
     }
-
 #endif                          /* FTNTICK_NOCRC */
 
     return OK;
-- 
2.43.0


From 21da6a9e1d5efd7724bc696a6bfd4df5e1496bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 113/133] fix: ftntick: new file was written into the one still
 queued for links, write errors ignored

---
 src/common/tick.c  | 18 ++++++++++++++----
 src/tick/ftntick.c |  1 +
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/common/tick.c b/src/common/tick.c
index 26810fa..3c7aaa8 100644
--- a/src/common/tick.c
+++ b/src/common/tick.c
@@ -380,7 +380,10 @@ int tick_send(Tick * tic, Node * node, char *name, mode_t mode)
         if (errlvl == -1) {
             /* diffirent partition */
             if (errno == EXDEV) {
-                copy_file(name, buffer, "dir fault!");
+                if (copy_file(name, buffer, "dir fault!") == ERROR) {
+                    fglog("$ERROR: can't copy file %s -> %s", name, buffer);
+                    return ERROR;
+                }
             }
             /* file exist */
             else if (errno == EEXIST) {
@@ -493,11 +496,14 @@ int copy_file(char *old, char *new, char *dir)
 {
     FILE *fold, *fnew;
     int nr, nw;
+    char buf[BUFSIZ];           /* buffer may hold the names */
 
     /* Open */
     if ((fold = fopen(old, R_MODE)) == NULL) {
         return ERROR;
     }
+    /* There may be links to an older version, don't write into it */
+    unlink(new);
     if ((fnew = fopen(new, W_MODE)) == NULL) {
         if (errno == ENOENT) {
             mkdir_r(dir, DIR_MODE);
@@ -510,7 +516,7 @@ int copy_file(char *old, char *new, char *dir)
 
     /* Copy */
     do {
-        nr = fread(buffer, sizeof(char), sizeof(buffer), fold);
+        nr = fread(buf, sizeof(char), sizeof(buf), fold);
         if (ferror(fold)) {
             fglog("$ERROR: can't read from %s", old);
             fclose(fold);
@@ -519,7 +525,7 @@ int copy_file(char *old, char *new, char *dir)
             return ERROR;
         }
 
-        nw = fwrite(buffer, sizeof(char), nr, fnew);
+        nw = fwrite(buf, sizeof(char), nr, fnew);
         if (nw != nr) {
             fglog("$ERROR: can't write to %s", new);
             fclose(fold);
@@ -532,7 +538,11 @@ int copy_file(char *old, char *new, char *dir)
 
     /* Close */
     fclose(fold);
-    fclose(fnew);
+    if (fclose(fnew) == ERROR) {
+        fglog("$ERROR: can't write to %s", new);
+        unlink(new);
+        return ERROR;
+    }
 
     return OK;
 }
diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 9296a99..ea7980f 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -589,6 +589,7 @@ int process_tic(Tick * tic)
             return ERROR;
         }
         BUF_COPY3(new_name, pass_path, "/", tic->file);
+        unlink(new_name);
         if ((errlvl = link(old_name, new_name)) == -1) {
             debug(9, "can't link %s -> %s %s", old_name, new_name,
                   strerror(errno));
-- 
2.43.0


From 264a61f489aa6a587ddcebe162684c559f5991a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 114/133] fix: ftntick: TICs for existing areas were accepted
 without or with a wrong password

---
 src/tick/ftntick.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index ea7980f..99a36ef 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -391,7 +391,8 @@ int process_tic(Tick * tic)
             fglog("New filearea %s from %s", tic->area, znfp1(&tic->from));
             create_flag = TRUE;
         }
-    }
+    } else if (!check_pass(tic, TRUE))
+        return ERROR;
     cf_set_zone(bbs->zone);
 #ifdef BEST_AKA
     if (bbs->nodes.first)
-- 
2.43.0


From ed3bfac32260fcd02e7084a275612eca1244a5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 115/133] fix: ftntick: Replaces of a TIC removed files outside
 of the file area

---
 src/tick/ftntick.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 99a36ef..75d9523 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -303,9 +303,6 @@ int process_tic(Tick * tic)
     int is_unknown = FALSE;
     Node from_node;
 
-#ifdef FECHO_PASSTHROUGHT
-    char full_farea_dir[MAXPATH];
-#endif                          /* FECHO_PASSTHROUGHT */
     char *tmp = NULL;
     short create_flag = FALSE;
     char *s1;
@@ -433,14 +430,13 @@ int process_tic(Tick * tic)
         /*
          * Replaces: move or delete old file
          */
-        if (tic->replaces && !cf_get_string("TickReplacedIgnore", TRUE)) {
+        if (tic->replaces && strchr(tic->replaces, '/'))
+            fglog("WARNING: bad Replaces %s ignored", tic->replaces);
+        else if (tic->replaces && !cf_get_string("TickReplacedIgnore", TRUE)) {
             char *xrdir = cf_get_string("TickReplacedDir", TRUE);
 
 #ifdef FECHO_PASSTHROUGHT
-            if (create_flag == TRUE)
-                BUF_COPY3(old_name, full_farea_dir, "/", tic->replaces);
-            else
-                BUF_COPY3(old_name, bbs->dir, "/", tic->replaces);
+            BUF_COPY3(old_name, bbs->dir, "/", tic->replaces);
             if (check_access(old_name, CHECK_FILE) == TRUE &&
                 !(bbs->flags & AREASBBS_PASSTHRU))
 #else
-- 
2.43.0


From ee22b006bda7b21ef112a8e630f2efdfd35981c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 116/133] fix: ftntick: file left inbound before it was sent to
 all links, TICs behind one without file not processed

---
 src/tick/ftntick.c | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 75d9523..51ebc7c 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -187,8 +187,8 @@ int do_tic(int w_flag)
             }
             now = time(NULL);
             if (stat(name, &st) == ERROR) {
-                fglog("$ERROR: can't stat() file %s", buf);
-                return EXIT_ERROR;
+                fglog("$ERROR: can't stat() file %s", name);
+                goto no_action;
             }
 
             debug(4, "file: name=%s time=%ld now=%ld wait=%d",
@@ -201,7 +201,7 @@ int do_tic(int w_flag)
                 p = cf_get_string("TickWaitAction", TRUE);
                 if (p == NULL) {
                     fglog("config: TickWaitAction not defined");
-                    return EXIT_ERROR;
+                    goto no_action;
                 }
                 if (strcmp(p, "bad") == 0) {
                     debug(4, "rename to bad tic %s", name);
@@ -260,12 +260,22 @@ int do_tic(int w_flag)
  * Write history information to database
  */
             if (!no_tic_history) {
-                if (ftntick_write_history(&tic, w_flag) != 0)
+                if (ftntick_write_history(&tic, w_flag) != 0) {
+                    areasbbs_rewrite();
+                    unlock_path(bbslock);
+                    dir_close();
                     return ERROR;
+                }
             }
 
             areasbbs_rewrite();
             unlock_path(bbslock);
+
+            /* Remove the file */
+            BUF_COPY3(buf, in_dir, "/", tic.file);
+            if (unlink(buf) == ERROR && errno != ENOENT)
+                fglog("$ERROR: can't remove %s", buf);
+
             /* Run -x script, if any */
             if (exec_script) {
                 int ret;
@@ -647,12 +657,6 @@ int process_tic(Tick * tic)
             }
             xfree(str_save);
         }
-#ifdef FECHO_PASSTHROUGHT
-        if (bbs->flags & AREASBBS_PASSTHRU) {
-            debug(9, "unlink %s", old_name);
-            unlink(old_name);
-        }
-#endif                          /* FECHO_PASSTHROUGHT */
     }
 
     return OK;
@@ -710,7 +714,7 @@ short check_pass(Tick * tic, short mode)
 }
 
 /*
- * Move file (copy then unlink)
+ * Move file (copy, do_tic() removes it from inbound when all is done)
  */
 int move(Tick * tic, char *old, char *new, char *dir)
 {
@@ -735,12 +739,6 @@ int move(Tick * tic, char *old, char *new, char *dir)
     }
 #endif                          /* FTNTICK_NOCRC */
 
-    /* o.k., now unlink file in inbound */
-    if (unlink(old) == ERROR) {
-        fglog("$ERROR: can't remove %s", old);
-        return ERROR;
-    }
-
     /* Set a/mtime to time from TIC */
     if ((tic->date != -1) && (NULL == cf_get_string("TickDontSetTime", TRUE))) {
         ut.actime = ut.modtime = tic->date;
@@ -1151,11 +1149,11 @@ int main(int argc, char **argv)
     }
 
     /* Search tick files and processing it */
-    do_tic(w_flag);
+    c = do_tic(w_flag);
 
     /* removing lock file */
     unlock_program(PROGRAM);
 
     exit_free();
-    exit(0);
+    exit(c == OK ? 0 : EXIT_ERROR);
 }
-- 
2.43.0


From 1f4df5a061348a08210554dd6d577e6e91a9a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 117/133] fix: ftntick: changes of fareas.bbs by Filefix during
 a run were lost

---
 src/common/areasbbs.c | 2 ++
 src/tick/ftntick.c    | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 27eb753..6465eee 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -659,6 +659,8 @@ void areasbbs_free(void)
             lon_delete(&p->nodes);
         xfree(p);
     }
+    areasbbs_list = areasbbs_last = NULL;
     if (areasbbs_1stline)
         xfree(areasbbs_1stline);
+    areasbbs_1stline = NULL;
 }
diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 51ebc7c..a50cd68 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -243,6 +243,14 @@ int do_tic(int w_flag)
             exit_free();
             exit(EXIT_BUSY);
         }
+        /* Filefix may have changed it */
+        areasbbs_free();
+        if (areasbbs_init(areas_bbs) == ERROR) {
+            fglog("$ERROR: can't open %s", areas_bbs);
+            unlock_path(bbslock);
+            dir_close();
+            return ERROR;
+        }
 
         if (process_tic(&tic) == ERROR) {
             areasbbs_rewrite();
-- 
2.43.0


From 73b439c9a37a8c6465ced5301e25336b701099e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 118/133] fix: ftntick: area's address ignored, file of another
 case overwritten, charset in the config changed

---
 src/tick/ftnhatch.c | 4 +++-
 src/tick/ftntick.c  | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tick/ftnhatch.c b/src/tick/ftnhatch.c
index 826eb23..c5b5389 100644
--- a/src/tick/ftnhatch.c
+++ b/src/tick/ftnhatch.c
@@ -286,6 +286,7 @@ int main(int argc, char **argv)
     }
 #endif                          /* USE_FILEBOX || FECHO_PASSTHROUGHT */
     if ((p = cf_get_string("DefaultCharset", TRUE))) {
+        p = strsave(p);
         cs_out = xstrtok(p, ":");
         xstrtok(NULL, ":");
         cs_in = xstrtok(NULL, ":");
@@ -298,7 +299,8 @@ int main(int argc, char **argv)
     /* Read FAreas.BBS */
     if (areasbbs_init(areas_bbs) == ERROR) {
         fglog("$ERROR: can't open %s", areas_bbs);
-        ret = EX_OSFILE;
+        exit_free();
+        exit(EX_OSFILE);
     }
 
     /* Hatch it! */
diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index a50cd68..f25aa67 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -409,8 +409,10 @@ int process_tic(Tick * tic)
     } else if (!check_pass(tic, TRUE))
         return ERROR;
     cf_set_zone(bbs->zone);
+    if (bbs->addr.zone != -1)
+        cf_set_curr(&bbs->addr);
 #ifdef BEST_AKA
-    if (bbs->nodes.first)
+    else if (bbs->nodes.first)
         cf_set_best(bbs->nodes.first->node.zone, bbs->nodes.first->node.net,
                     bbs->nodes.first->node.node);
 #endif                          /* BEST_AKA */
@@ -878,7 +880,8 @@ int check_file(Tick * tic)
     }
 
     /* Search file */
-    if (dir_search(in_dir, tic->file) == NULL) {
+    BUF_COPY3(name, in_dir, "/", tic->file);
+    if (stat(name, &st) == ERROR && dir_search(in_dir, tic->file) == NULL) {
         debug(4, "ERROR: can't find file %s", tic->file);
         return -2;
     }
@@ -1122,6 +1125,7 @@ int main(int argc, char **argv)
 #ifdef RECODE_FILE_DESC
     if ((p = cf_get_string("DefaultCharset", TRUE))) {
         debug(8, "config: DefaultCharset %s", p);
+        p = strsave(p);
         cs_def = strtok(p, ":");
         strtok(NULL, ":");
         cs_out = strtok(NULL, ":");
-- 
2.43.0


From 3183dd4e5142dcd36f037b2b16a9a2ffe0d833e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:17 +0000
Subject: [PATCH 119/133] fix: ftntick: description of a file lost when it
 couldn't be written

---
 src/tick/ftntick.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index f25aa67..ce1b2e0 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -507,7 +507,8 @@ int process_tic(Tick * tic)
         }
         if (files_change_mode)
             chmod(new_name, files_change_mode);
-        add_files_bbs(tic, bbs->dir);
+        if (add_files_bbs(tic, bbs->dir) == ERROR)
+            return ERROR;
     } else
         BUF_COPY3(new_name, in_dir, "/", tic->file);
 #else
@@ -522,7 +523,8 @@ int process_tic(Tick * tic)
         return ERROR;
     if (files_change_mode)
         chmod(new_name, files_change_mode);
-    add_files_bbs(tic, bbs->dir);
+    if (add_files_bbs(tic, bbs->dir) == ERROR)
+        return ERROR;
 #endif                          /* FECHO_PASSTHROUGHT */
     if (!is_unknown) {
         int uplink = 1;
@@ -830,7 +832,10 @@ int add_files_bbs(Tick * tic, char *dir)
 #endif                          /* RECODE_FILE_DESC */
 #endif                          /* DESC_DIR */
 
-    fclose(fp);
+    if (fclose(fp) == ERROR) {
+        fglog("$ERROR: can't write %s", files_bbs);
+        return ERROR;
+    }
 
     if (files_change_mode)
         chmod(files_bbs, files_change_mode);
-- 
2.43.0


From 75ad8efb38932ad69e7fe88740668b6858f9ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 120/133] fix: ftntick: new file was written into the old one
 if that can't be removed

---
 src/common/tick.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/tick.c b/src/common/tick.c
index 3c7aaa8..d2ed250 100644
--- a/src/common/tick.c
+++ b/src/common/tick.c
@@ -503,7 +503,10 @@ int copy_file(char *old, char *new, char *dir)
         return ERROR;
     }
     /* There may be links to an older version, don't write into it */
-    unlink(new);
+    if (unlink(new) == ERROR && errno != ENOENT) {
+        fclose(fold);
+        return ERROR;
+    }
     if ((fnew = fopen(new, W_MODE)) == NULL) {
         if (errno == ENOENT) {
             mkdir_r(dir, DIR_MODE);
-- 
2.43.0


From 37661c5917e8d5f481dfb9f1b3d55c0dd9ec1f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 121/133] fix: runinc: packets and bad archives overwritten by
 others of the same name

---
 src/toss/runinc.c | 72 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 20 deletions(-)

diff --git a/src/toss/runinc.c b/src/toss/runinc.c
index 3b4942b..82f8a75 100644
--- a/src/toss/runinc.c
+++ b/src/toss/runinc.c
@@ -63,7 +63,8 @@
 #define CONFIG		DEFAULT_CONFIG_MAIN
 
 void *subs(char *str, char *macro, char *expand);
-void move(char *, char *, char *, char *);
+int move(char *, char *, char *, char *);
+int move_packets(char *);
 void unpack(char *);
 Unpacking *arch_type(char *);
 int run_unpack(char *, char *, char *, char *);
@@ -103,7 +104,6 @@ void unpack(char *inb)
     Unpacking *a;
     struct dirent *dir;
     char archive[MAXPATH], type[4];
-    short unpack_flag = FALSE;
     int rc;
 
     /* Make sure temporary unpacking directory exists and entering into */
@@ -162,36 +162,57 @@ void unpack(char *inb)
                 fglog("archive %s (%s)", archive, a->name);
 
                 if (run_unpack(a->list, a->unarc, archive, a->name)) {
-                    unpack_flag = TRUE;
-                    unlink(archive);
+                    /*
+                     * The next archive may have packets of the same name.
+                     * Don't lose the archive before all are moved.
+                     */
+                    if (move_packets(inb) != ERROR)
+                        unlink(archive);
+                    pkt_flag = TRUE;
                 } else {
                     fglog("WARNING: moving to bad");
                     move(archive, inb, "/bad/", dir->d_name);
+                    if (move_packets(inb) > 0)
+                        pkt_flag = TRUE;
                     continue;
                 }
             }
         }
     }
-    dir_close();
-    if (!unpack_flag)
-        return;
+    closedir(dp);
 
-    BUF_COPY2(buffer, inb, "/tmpunpack");
-    if (!(dp = opendir(buffer)))
-        return;
+    return;
+}
+
+/*
+ * Move unpacked packets to the inbound directory, return their number
+ */
+int move_packets(char *inb)
+{
+    DIR *dp;
+    struct dirent *dir;
+    char tmp[MAXPATH], name[MAXPATH];
+    int ret = 0;
+
+    BUF_COPY2(tmp, inb, "/tmpunpack");
+    if (!(dp = opendir(tmp))) {
+        fglog("$ERROR: can't open directory %s", tmp);
+        return ERROR;
+    }
 
     while ((dir = readdir(dp))) {
         if (wildmatch(dir->d_name, "*.pkt", TRUE)) {
-            BUF_COPY3(archive, buffer, "/", dir->d_name);
-            debug(10, "%s -> %s", archive, inb);
-            move(archive, inb, "/", dir->d_name);
+            BUF_COPY3(name, tmp, "/", dir->d_name);
+            if (move(name, inb, "/", dir->d_name) == ERROR) {
+                ret = ERROR;
+                break;
+            }
+            ret++;
         }
     }
-    dir_close();
+    closedir(dp);
 
-    pkt_flag = TRUE;
-
-    return;
+    return ret;
 }
 
 /*
@@ -411,16 +432,27 @@ int run_tick(char *inbound)
 }
 
 /*
- * Remove files
+ * Move files, keeping the ones already there
  */
-void move(char *old_name, char *dir, char *subdir, char *filename)
+int move(char *old_name, char *dir, char *subdir, char *filename)
 {
     char buf[MAXPATH];
+    struct stat st;
+    unsigned long n = 0;
 
     BUF_COPY3(buf, dir, subdir, filename);
+    while (lstat(buf, &st) == 0)
+        str_printf(buf, sizeof(buf), "%s%s%08lx%s", dir, subdir, n++,
+                   strlen(filename) > 4 ?
+                   filename + strlen(filename) - 4 : ".pkt");
+
     debug(1, "%s -> %s", old_name, buf);
-    rename(old_name, buf);
+    if (rename(old_name, buf) == -1) {
+        fglog("$ERROR: can't rename %s -> %s", old_name, buf);
+        return ERROR;
+    }
 
+    return OK;
 }
 
 /*
-- 
2.43.0


From cc1e81fd86adc9746af84729962211efae02713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 122/133] fix: runinc: outpkt/mail and outpkt/news weren't
 found on the command line

---
 src/toss/runinc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toss/runinc.c b/src/toss/runinc.c
index 82f8a75..38f7a8b 100644
--- a/src/toss/runinc.c
+++ b/src/toss/runinc.c
@@ -90,7 +90,7 @@ static char *bindir = NULL;     /* Fidogate binary directory */
 static char verbose_flag[16];   /* Verbose flag */
 static char *a_flag = NULL;     /* Exec script after tosting */
 static char *b_flag = NULL;     /* Exec script before tosting */
-static Runtoss toss[7];
+static Runtoss toss[8];
 static char *site = "fidogate";
 static int max_archive_ratio = 10;
 
@@ -826,7 +826,7 @@ options:\n\
 int main(int argc, char **argv)
 {
 
-    char input[10];
+    char input[16];
     int option_index, c;
     short out_flag = FALSE;
     char *c_flag = NULL;
-- 
2.43.0


From 232f113b632a955a77dbde5b006229ddbe880607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 123/133] fix: runinc: check of the free disk space read the
 space used, from an uninitialized buffer

---
 src/toss/runinc.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/toss/runinc.c b/src/toss/runinc.c
index 38f7a8b..358b1d4 100644
--- a/src/toss/runinc.c
+++ b/src/toss/runinc.c
@@ -547,30 +547,29 @@ void run_toss(Runtoss * a)
 #endif
 #else
     FILE *fp;
-    char buf[90];
+    char buf[MAXPATH];
     char *s;
 #endif
-    int minfree;
+    long minfree;               /* KByte */
 
     if ((p = cf_get_string("DiskFreeMin", TRUE)))
-        minfree = atoi(p) * 1024;
+        minfree = atol(p);
     else if ((p = cf_get_string("MinDiskFree", TRUE)))
-        minfree = atoi(p) * 1024;
+        minfree = atol(p);
     else
-        minfree = 1048576;
-    debug(8, "DiskFreeMin %d", minfree);
+        minfree = 1024;
+    debug(8, "DiskFreeMin %ld", minfree);
 
     /* Calculate free memore size and number inodes */
 
 #ifndef NO_FS
 #ifdef VFS
-    if (statfs(a->inbound, &drive) && (minfree < drive.f_bavail * drive.f_bsize)
-        &&
+    if (statfs(a->inbound, &drive) == 0 &&
 #else
-    if (statvfs(a->inbound, &drive)
-        && (minfree < drive.f_bavail * drive.f_bsize) &&
+    if (statvfs(a->inbound, &drive) == 0 &&
 #endif
-        (drive.f_ffree > 100)) {
+        ((double)drive.f_bavail * drive.f_bsize < minfree * 1024.0
+         || drive.f_ffree < 100)) {
         fglog("ERROR: MinDiskfree limit. Disk is full!");
         return;
     }
@@ -585,18 +584,21 @@ void run_toss(Runtoss * a)
         if (!(fp = popen(str, R_MODE))) {
             fglog("ERROR: can't open pipe");
         } else {
-            while (fgets(buf, strlen(buf), fp)) ;
+            /* device, size, used, free */
+            *buf = '\0';
+            while (fgets(buf, sizeof(buf), fp)) ;
+            pclose(fp);
             p = xstrtok(buf, " \t");
             s = xstrtok(NULL, " \t");
-            if ((s = xstrtok(NULL, " \t")))
-                if (atol(s) > minfree) {
+            s = xstrtok(NULL, " \t");
+            if (s && (s = xstrtok(NULL, " \t")) && isdigit(*s & 0xff))
+                if (atol(s) < minfree) {
                     fglog("ERROR: MinDiskfree limit. Disk %s is full!", p);
-                    pclose(fp);
+                    xfree(str);
                     return;
                 }
         }
         xfree(str);
-        pclose(fp);
     }
 #endif
     /* Runing scripts */
@@ -781,6 +783,8 @@ void *subs(char *str, char *macro, char *expand)
     char *pos;
     char *newstr;
     pos = strstr(str, macro);
+    if (!pos)
+        return strdup(str);
     if (!(newstr = malloc(strlen(str) + strlen(expand) - strlen(macro) + 1)))
         return NULL;
     if (!strcpy(newstr, str))
-- 
2.43.0


From 148fe5cd9e915f933c67f31aa7afea42caf7af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 124/133] fix: runinc: upper case hex digits of unarc
 identifications, crash without list command

---
 src/toss/runinc.c | 55 ++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/src/toss/runinc.c b/src/toss/runinc.c
index 358b1d4..2038ec0 100644
--- a/src/toss/runinc.c
+++ b/src/toss/runinc.c
@@ -261,13 +261,13 @@ int run_unpack(char *cmd_list, char *cmd_unarc, char *archive, char *type)
     char *s;
     int ret;
 
-    debug(5, "cmd - %s, archive - %s", cmd_list, archive);
-    str_printf(line, sizeof(line), cmd_list, s_shell_escape(archive));
+    if (cmd_list && strcmp(type, "ZIP") == 0) {
+        str_printf(line, sizeof(line), cmd_list, s_shell_escape(archive));
 
-    if (!(fp = popen(line, R_MODE))) {
-        fglog("ERROR: can't open pipe to %s", line);
-    }
-    if (strcmp(type, "ZIP") == 0) {
+        if (!(fp = popen(line, R_MODE))) {
+            fglog("ERROR: can't open pipe to %s", line);
+            return FALSE;
+        }
         while (fgets(line, MAXPATH, fp)) ;
 
         pclose(fp);
@@ -288,12 +288,12 @@ int run_unpack(char *cmd_list, char *cmd_unarc, char *archive, char *type)
                     fglog("ERROR: can't open pipe to %s", line);
                 } else {
                     while (fgets(line, MAXPATH, fp)) {
-                        line[strlen(line) - 1] = 0;
+                        strip_crlf(line);
                         fglog("WARNING: %s", line);
                     }
                     pclose(fp);
-                    return FALSE;
                 }
+                return FALSE;
             }
 
         }
@@ -321,7 +321,7 @@ Unpacking *unpacking_parse_line(char *buf1)
 
     Unpacking *r;
     char *f, *p;
-    short n, i = 0;
+    short i = 0;
 
     debug(5, "Reading line %s", buf1);
 
@@ -343,28 +343,27 @@ Unpacking *unpacking_parse_line(char *buf1)
     r = (Unpacking *) xmalloc(sizeof(Unpacking));
     f = xstrtok(NULL, " \t");
     p = xstrtok(NULL, " \t");
-    if (p && f) {
-        r->name = strsave(f);
-        f = strsave(p);
+    if (!p || !f) {
+        fglog("packing: incomplete unarc line");
+        xfree(r);
+        return NULL;
     }
+    r->name = strsave(f);
+    f = strsave(p);
     if (!strstr(f, "0x"))
         r->iden = f;
     else {
-        r->iden = xmalloc(strlen(f));
+        r->iden = xmalloc(strlen(f) + 1);
         while (*f) {
             /* Recode hex chars */
-            if (*f == '0' && f[1] == 'x') {
-                if (f[2] > 58)
-                    n = f[2] - 87;
-                else
-                    n = f[2] - 48;
-                n *= 16;
-                if (f[3] > 58)
-                    n += f[3] - 87;
-                else
-                    n += f[3] - 48;
-
-                (r->iden)[i] = n;
+            if (*f == '0' && f[1] == 'x' && isxdigit(f[2] & 0xff)
+                && isxdigit(f[3] & 0xff)) {
+                char hex[3];
+
+                hex[0] = f[2];
+                hex[1] = f[3];
+                hex[2] = '\0';
+                (r->iden)[i] = strtol(hex, NULL, 16);
                 f += 3;
             } else
                 (r->iden)[i] = *f;
@@ -374,8 +373,10 @@ Unpacking *unpacking_parse_line(char *buf1)
         }
         (r->iden)[i] = '\0';
     }
-    r->unarc = strsave(xstrtok(NULL, " \t"));
-    r->list = strsave(xstrtok(NULL, " \t"));
+    f = xstrtok(NULL, " \t");
+    r->unarc = f ? strsave(f) : NULL;
+    f = xstrtok(NULL, " \t");
+    r->list = f ? strsave(f) : NULL;
     r->next = NULL;
 
     debug(15, "unpack: name=%s unarc=%s list=%s, ident=%s",
-- 
2.43.0


From 76ba5ff302510e4acecebe83478556d1d28312df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 125/133] fix: history: ids of an aborted run taken for dupes
 after ftnexpire, text written without database

---
 src/common/histdb.c      | 145 ++++++++++++++++++++++++++++++++++++---
 src/include/prototypes.h |   2 +
 2 files changed, 137 insertions(+), 10 deletions(-)

diff --git a/src/common/histdb.c b/src/common/histdb.c
index 3eba05f..72a746d 100644
--- a/src/common/histdb.c
+++ b/src/common/histdb.c
@@ -38,8 +38,6 @@
 static FILE *hi_file = NULL;
 static char hi_name[MAXPATH];
 static long hi_size;            /* Size of text file when opened */
-short int hi_init(char *);
-
 /*
  * Get base name
  */
@@ -76,13 +74,120 @@ void hi_init_history(void)
     hi_init(db_name);
 }
 
+/*
+ * Size of history text without the last lines which aren't in the database:
+ * the program which wrote them died before it wrote the database, i.e. the
+ * messages aren't processed yet
+ */
+static long hi_indexed_size(FILE * fp, long size)
+{
+    long start, n, i;
+    char *p;
+    int complete;
+
+    while (size > 0) {
+        start = size >= sizeof(buffer) ? size - (sizeof(buffer) - 1) : 0;
+        n = size - start;
+        if (fseek(fp, start, SEEK_SET) == ERROR || fread(buffer, 1, n, fp) != n)
+            return size;
+
+        /* All complete lines of this block, the last one first */
+        for (; n > 0; n = i) {
+            complete = buffer[n - 1] == '\n';
+            buffer[complete ? n - 1 : n] = 0;
+            for (i = n - complete; i > 0 && buffer[i - 1] != '\n'; i--) ;
+            if (i == 0 && start > 0)
+                break;
+
+            if (complete) {
+                if ((p = strchr(buffer + i, '\t')) == NULL)
+                    return size;
+                *p = 0;
+                errno = 0;
+                if (hi_test(buffer + i) || errno)
+                    return size;
+            }
+            size = start + i;
+        }
+        if (size == start + n && n == sizeof(buffer) - 1)
+            return size;        /* Very long line */
+    }
+
+    return 0;
+}
+
+/*
+ * Forget lines at the end of history text which aren't in the database
+ *
+ * Return TRUE if text has been changed
+ */
+static int hi_forget_tail(void)
+{
+    FILE *fp;
+    long size;
+
+    if (hi_size <= 0 || (fp = fopen(hi_name, R_MODE)) == NULL)
+        return FALSE;
+    size = hi_indexed_size(fp, hi_size);
+    fclose(fp);
+    if (size == hi_size)
+        return FALSE;
+    if (size == 0) {
+        /* All of them? Only if nothing has been written to the database */
+        BUF_COPY2(buffer, hi_name, ".pag");
+        if (check_size(buffer) != 0)
+            return FALSE;
+    }
+
+    fglog("WARNING: MSGID history %s: last run aborted, forgetting its ids",
+          hi_name);
+    if (truncate(hi_name, size) == ERROR) {
+        fglog("$ERROR: truncate MSGID history failed");
+        return FALSE;
+    }
+
+    return TRUE;
+}
+
+/*
+ * Finish replacement of history by history.n, history.n.dir, history.n.pag,
+ * if it has been aborted after history.n was renamed
+ */
+short int hi_finish_expire(char *his_file)
+{
+    static char *ext[] = { ".dir", ".pag" };
+    char name[MAXPATH], name_n[MAXPATH];
+    int i;
+
+    BUF_COPY2(name_n, his_file, ".n");
+    if (check_access(name_n, CHECK_FILE) == TRUE)
+        return OK;              /* Not yet renamed, history is the old one */
+
+    for (i = 0; i < 2; i++) {
+        BUF_COPY3(name_n, his_file, ".n", ext[i]);
+        BUF_COPY2(name, his_file, ext[i]);
+        if (check_access(name_n, CHECK_FILE) == TRUE
+            && rename(name_n, name) == ERROR) {
+            fglog("$ERROR: rename %s -> %s failed", name_n, name);
+            return ERROR;
+        }
+    }
+
+    return OK;
+}
+
 /*
  * Initialize MSGID history
  */
 short int hi_init(char *his_file)
 {
     FILE *fp;
+    struct stat st;
+    int ret, fresh = FALSE;
 
+    BUF_EXPAND(buffer, his_file);
+    if (hi_finish_expire(buffer) == ERROR)
+        return ERROR;
     /* Test for history.dir, history.pag */
     BUF_EXPAND(buffer, his_file);
     BUF_APPEND(buffer, ".dir");
@@ -93,7 +198,11 @@ short int hi_init(char *his_file)
             return ERROR;
         } else
             debug(9, "creating MSGID history %s", buffer);
+        fclose(fp);
     }
+    /* Database never written */
+    if (stat(buffer, &st) == ERROR || st.st_size == 0)
+        fresh = TRUE;
     BUF_EXPAND(buffer, his_file);
     BUF_APPEND(buffer, ".pag");
     if (check_access(buffer, CHECK_FILE) != TRUE) {
@@ -103,26 +212,42 @@ short int hi_init(char *his_file)
             return ERROR;
         } else
             fglog("creating MSGID history %s", buffer);
+        fclose(fp);
     }
     /* Open the history text file */
     BUF_EXPAND(buffer, his_file);
     if ((hi_file = fopen(buffer, A_MODE)) == NULL) {
         fglog("$ERROR: open MSGID history %s failed", buffer);
-        if (check_access(buffer, CHECK_FILE) == ERROR) {
-            fglog("$ERROR: Premission denied %s", buffer);
-            return ERROR;
-        }
-    } else {
-        BUF_COPY(hi_name, buffer);
-        hi_size = ftell(hi_file);
+        return ERROR;
     }
+    BUF_COPY(hi_name, buffer);
+    hi_size = ftell(hi_file);
     /* Open the DBZ file */
     dbzincore(1);
     /**dbzwritethrough(1);**/
-    if (dbminit(buffer) == -1) {
+    ret = fresh && hi_size == 0 ? -1 : dbminit(buffer);
+    if (ret == -1 && hi_size == 0) {
+        /*
+         * Nothing there, write .dir now: non-empty .dir shows that lines
+         * which aren't in the database are the ones of an aborted run
+         */
+        BUF_APPEND(buffer, ".pag");
+        if (check_size(buffer) == 0)
+            ret = dbzfresh(hi_name, 0, '\t', '?', 0);
+        BUF_COPY(buffer, hi_name);
+        if (ret == -1 && fresh)
+            ret = dbminit(buffer);
+    }
+    if (ret == -1) {
         fglog("$ERROR: dbminit %s failed", buffer);
+        fclose(hi_file);
+        hi_file = NULL;
         return ERROR;
     }
+    if (!fresh && hi_forget_tail()) {
+        hi_close();
+        return hi_init(his_file);
+    }
     return OK;
 }
 
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index d5f2dec..eeb8ae9 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -290,6 +290,8 @@ extern time_t parsedate(char *, TIMEINFO *);
 extern void GetTimeInfo(TIMEINFO *);
 
 /* histdb.c */
+short int hi_init(char *);
+short int hi_finish_expire(char *);
 short int hi_init_dbc(void);
 void hi_init_history(void);
 void hi_init_tic_history(void);
-- 
2.43.0


From 463f1e348fefd421a0fa50c7804f7c1e6b148f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:57 +0000
Subject: [PATCH 126/133] fix: ftnexpire: history lost or database not matching
 it on write errors and interrupted renames

---
 src/toss/ftnexpire.c | 72 ++++++++++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 20 deletions(-)

diff --git a/src/toss/ftnexpire.c b/src/toss/ftnexpire.c
index d21badc..ec72293 100644
--- a/src/toss/ftnexpire.c
+++ b/src/toss/ftnexpire.c
@@ -67,6 +67,21 @@ static time_t exp_sec = 0;
 static long n_expired = 0;
 static long n_processed = 0;
 
+/*
+ * Remove new history, history.n is the last one: hi_finish_expire() takes
+ * .n.dir and .n.pag without it for a finished expire
+ */
+static int cancel_expire(FILE * hi_o, FILE * hi_n)
+{
+    fclose(hi_o);
+    if (hi_n)
+        fclose(hi_n);
+    unlink(history_n_dir);
+    unlink(history_n_pag);
+    unlink(history_n);
+    return ERROR;
+}
+
 /*
  * Run expire
  */
@@ -74,6 +89,7 @@ int do_expire(int type)
 {
     FILE *hi_o, *hi_n, *fp;
     TIMEINFO ti;
+    int ret;
 
     /* Filenames */
     if (type == 1) {
@@ -125,26 +141,33 @@ int do_expire(int type)
         return ERROR;
     }
 
+    /* Finish what aborted runs have left */
+    if (hi_init(history) == ERROR) {
+        fclose(hi_o);
+        return ERROR;
+    }
+    hi_close();
+    fclose(hi_o);
+    if ((hi_o = fopen(history, R_MODE)) == NULL) {
+        fglog("$ERROR: open MSGID history %s failed", history);
+        return ERROR;
+    }
+
     /* Open new history for writing */
     if ((hi_n = fopen(history_n, W_MODE)) == NULL) {
         fglog("$ERROR: open MSGID history %s failed", history_n);
-        fclose(hi_o);
-        return ERROR;
+        return cancel_expire(hi_o, NULL);
     }
 
     /* Create empty new .dir and .pag */
     if ((fp = fopen(history_n_dir, W_MODE)) == NULL) {
         fglog("$ERROR: open MSGID history %s failed", history_n_dir);
-        fclose(hi_o);
-        fclose(hi_n);
-        return ERROR;
+        return cancel_expire(hi_o, hi_n);
     }
     fclose(fp);
     if ((fp = fopen(history_n_pag, W_MODE)) == NULL) {
         fglog("$ERROR: open MSGID history %s failed", history_n_pag);
-        fclose(hi_o);
-        fclose(hi_n);
-        return ERROR;
+        return cancel_expire(hi_o, hi_n);
     }
     fclose(fp);
 
@@ -152,24 +175,33 @@ int do_expire(int type)
     dbzincore(1);
     if (dbzagain(history_n, history) < 0) {
         fglog("$ERROR: dbzagain %s failed", history_n);
-        fclose(hi_o);
-        fclose(hi_n);
-        return ERROR;
+        return cancel_expire(hi_o, hi_n);
     }
 
     /* Process entries */
-    while (fgets(buffer, sizeof(buffer), hi_o)) {
-        do_line(hi_n, buffer, type);
+    ret = OK;
+    while (ret == OK && fgets(buffer, sizeof(buffer), hi_o)) {
+        ret = do_line(hi_n, buffer, type);
+    }
+    if (ferror(hi_o)) {
+        fglog("$ERROR: read of MSGID history %s failed", history);
+        ret = ERROR;
     }
 
     /* Close everything */
-    /**FIXME: error checking**/
+    if (fclose(hi_n) == EOF) {
+        fglog("$ERROR: close of MSGID history %s failed", history_n);
+        ret = ERROR;
+    }
+    if (dbzsync() < 0 || dbmclose() < 0) {
+        fglog("$ERROR: write to MSGID history %s failed", history_n_pag);
+        ret = ERROR;
+    }
+    if (ret == ERROR)
+        return cancel_expire(hi_o, NULL);
     fclose(hi_o);
-    fclose(hi_n);
-    dbzsync();
-    dbmclose();
 
-    /* Rename */
+    /* Rename, hi_finish_expire() does the rest if this is interrupted */
     if (rename(history_n, history) == ERROR) {
         fglog("$ERROR: rename %s -> %s failed", history_n, history);
         return ERROR;
@@ -210,7 +242,7 @@ int do_line(FILE * hi_n, char *line, int type)
         if (!msgid || !p || !rfc_msgid) {
             fglog("$WARNING: illegal entry in %s, line %ld", history,
                   history_line);
-            return ERROR;
+            return OK;
         }
     }
 
@@ -220,7 +252,7 @@ int do_line(FILE * hi_n, char *line, int type)
         if (!msgid || !p) {
             fglog("$WARNING: illegal entry in %s, line %ld", history,
                   history_line);
-            return ERROR;
+            return OK;
         }
     }
 
-- 
2.43.0


From 9fc6ed67ca4ff920f6ab9df0ed9b024f4da97683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 127/133] fix: long MSGIDs were cut, different ones got the
 same Message-ID (or lost the number)

---
 src/common/msgid.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/msgid.c b/src/common/msgid.c
index 8b0b38b..74a7bd1 100644
--- a/src/common/msgid.c
+++ b/src/common/msgid.c
@@ -253,7 +253,8 @@ char *s_msgid_fido_to_rfc(char *msgid, int *pzone, bool mail, char *ref_line,
     /*
      * New-style FTN Message-IDs using MIME quoted-printable
      */
-    tmps = tmps_alloc(2 * MAXINETADDR);
+    /* all of it: what is cut off may be all that makes it unique */
+    tmps = tmps_alloc(3 * strlen(msgid) + 2 * MAXINETADDR);
 
     str_copy(tmps->s, tmps->len, "<MSGID_");
     msgid_mime_quote(tmps->s + strlen(tmps->s), msgid,
@@ -434,7 +435,8 @@ char *s_msgid_rfc_to_fido(int *origid_flag, char *message_id,
     if (split)
         crc32 += part - 1;
 
-    tmps = tmps_alloc(strlen(id) + 1 + /**Extra**/ 20);
+    /* quoting may double the length */
+    tmps = tmps_alloc(2 * strlen(id) + 1 + /**Extra**/ 20);
 
     if (no_fido_style_msgid && !x_flags_m) {
         msgid_fts9_quote(tmps->s, id, tmps->len);
-- 
2.43.0


From c9fd1f103c12b01f538b3d31daa5c9bba27e938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 128/133] fix: a REPLY must not become a reference to a message
 of another system with the same number

---
 src/common/msgid.c | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/common/msgid.c b/src/common/msgid.c
index 74a7bd1..02c070a 100644
--- a/src/common/msgid.c
+++ b/src/common/msgid.c
@@ -100,6 +100,46 @@ static char *msgid_domain(int zone)
     return d;
 }
 
+/*
+ * The first FTN address in the string
+ */
+static int msgid_address(char *s, Node * node)
+{
+    char addr[MAXINETADDR];
+    size_t n;
+
+    while (*s && !is_digit(*s))
+        s++;
+    n = strspn(s, "0123456789:/.");
+    if (n == 0 || n >= sizeof(addr))
+        return ERROR;
+    str_copy(addr, n + 1, s);
+
+    return asc_to_node(addr, node, TRUE);
+}
+
+/*
+ * The number, which is the key of the database, isn't unique: the Message-ID
+ * made from a MSGID of another system (SaveFidoMsgid) is not the right one
+ */
+static bool msgid_dbc_match(char *msgid, char *rfc)
+{
+    Node node, found;
+    char *s;
+    bool ret = TRUE;
+
+    if (strncmp(rfc, "<MSGID_", 7))
+        return TRUE;
+
+    s = xmalloc(strlen(rfc) + 1);
+    mime_dequote(s, strlen(rfc) + 1, rfc + 7);
+    if (msgid_address(msgid, &node) == OK && msgid_address(s, &found) == OK)
+        ret = node_eq(&node, &found);
+    xfree(s);
+
+    return ret;
+}
+
 static char *msgid_dbc_fetch(char *msgid)
 {
     char *s;
@@ -213,7 +253,8 @@ char *s_msgid_fido_to_rfc(char *msgid, int *pzone, bool mail, char *ref_line,
     {
         s = msgid_dbc_fetch(msgid);
 
-        if (s) {
+        if (s && msgid_dbc_match(msgid, s)) {
+            xfree(save);
             return s;
         } else {
             if (ref_line) {
-- 
2.43.0


From fae220b99318391dd7e232aec4e5355c432f85d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:00 +0000
Subject: [PATCH 129/133] fix: str_copy2() etc.: terminating NUL written behind
 the end of the buffer

---
 src/common/misc.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/common/misc.c b/src/common/misc.c
index f60eab1..5f56f5f 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -164,10 +164,10 @@ char *str_append2(char *d, size_t n, char *s1, char *s2)
     int sz = strlen(d);
     char *p = s1;
 
-    for (; *p && sz < n; p++, sz++)
+    for (; *p && sz + 1 < n; p++, sz++)
         d[sz] = *p;
 
-    for (p = s2; *p && sz < n; p++, sz++)
+    for (p = s2; *p && sz + 1 < n; p++, sz++)
         d[sz] = *p;
 
     d[sz++] = 0;
@@ -180,10 +180,10 @@ char *str_copy2(char *d, size_t n, char *s1, char *s2)
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
     d[i++] = 0;
@@ -197,13 +197,13 @@ char *str_copy3(char *d, size_t n, char *s1, char *s2, char *s3)
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s3; *p && i < n; p++, i++)
+    for (p = s3; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
     d[i++] = 0;
@@ -216,16 +216,16 @@ char *str_copy4(char *d, size_t n, char *s1, char *s2, char *s3, char *s4)
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s3; *p && i < n; p++, i++)
+    for (p = s3; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s4; *p && i < n; p++, i++)
+    for (p = s4; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
     d[i++] = 0;
@@ -239,19 +239,19 @@ char *str_copy5(char *d, size_t n, char *s1, char *s2, char *s3, char *s4,
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s3; *p && i < n; p++, i++)
+    for (p = s3; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s4; *p && i < n; p++, i++)
+    for (p = s4; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s5; *p && i < n; p++, i++)
+    for (p = s5; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
     d[i++] = 0;
-- 
2.43.0


From 3908f5ca22959f0c7a2fe09fe5978401d58fe5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:50 +0000
Subject: [PATCH 130/133] fix: crash on a MIME header's parameter without value

---
 src/common/mime.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index ae4dd85..4309b79 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -1445,13 +1445,15 @@ static MIMEInfo *get_mime_disposition(char *ver, char *type, char *enc,
         tmp_line = tl_get(&header_line, "charset", strlen("charset"));
         if (tmp_line != NULL) {
             tmp_str = mime_attr_value(tmp_line->line);
-            mime->type_charset = s_copy(tmp_str);
+            if (tmp_str != NULL)
+                mime->type_charset = s_copy(tmp_str);
             xfree(tmp_str);
         }
         tmp_line = tl_get(&header_line, "boundary", strlen("boundary"));
         if (tmp_line != NULL) {
             tmp_str = mime_attr_value(tmp_line->line);
-            mime->type_boundary = s_copy(tmp_str);
+            if (tmp_str != NULL)
+                mime->type_boundary = s_copy(tmp_str);
             xfree(tmp_str);
         }
         tl_clear(&header_line);
@@ -1465,7 +1467,8 @@ static MIMEInfo *get_mime_disposition(char *ver, char *type, char *enc,
         tmp_line = tl_get(&header_line, "filename", strlen("filename"));
         if (tmp_line != NULL) {
             tmp_str = mime_attr_value(tmp_line->line);
-            mime->disposition_filename = s_copy(tmp_str);
+            if (tmp_str != NULL)
+                mime->disposition_filename = s_copy(tmp_str);
             xfree(tmp_str);
         }
 
-- 
2.43.0


From a5ee417453cedae9283f33d7b431adc816b4bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:50 +0000
Subject: [PATCH 131/133] fix: ftntick: buffer overflow with long area and file
 names, long history keys failed

---
 src/tick/ftntick.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index ce1b2e0..d6a92fb 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -31,6 +31,7 @@
 
 #include "fidogate.h"
 #include "getopt.h"
+#include "dbz.h"
 #include <utime.h>
 
 #define PROGRAM		"ftntick"
@@ -89,6 +90,21 @@ short int ignore_soft_cr = FALSE;
 
 static bool no_tic_history;
 
+/* Put the TIC's key for the history database into buffer[] */
+static void ftntick_history_key(Tick *tic)
+{
+    str_printf(buffer, sizeof(buffer), "%s %s %s %lx", tic->area,
+               znfp1(&tic->origin), tic->file, tic->crc);
+
+    /* Key too long for DBZ (terminating '\0' is part of it) */
+    if (strlen(buffer) + 1 >= DBZMAXKEY) {
+        crc32_init();
+        crc32_compute((unsigned char *)buffer, strlen(buffer));
+        str_printf(buffer + DBZMAXKEY - 20, 19, " %08lx %08lx",
+                   crc32_value() & 0xffffffffUL, tic->crc & 0xffffffffUL);
+    }
+}
+
 static bool ftntick_is_dupe(Tick *tic, bool w_flag)
 {
     bool ret = false;
@@ -102,8 +118,7 @@ static bool ftntick_is_dupe(Tick *tic, bool w_flag)
     }
 
     hi_init_tic_history();
-    sprintf(buffer, "%s %s %s %lx", tic->area, znfp1(&tic->origin), tic->file,
-            tic->crc);
+    ftntick_history_key(tic);
     if (hi_test(buffer)
         && (!tic->replaces || stricmp(tic->file, tic->replaces) != 0)) {
 
@@ -133,8 +148,7 @@ static int ftntick_write_history(Tick *tic, bool w_flag)
     }
 
     hi_init_tic_history();
-    sprintf(buffer, "%s %s %s %lx", tic->area, znfp1(&tic->origin),
-            tic->file, tic->crc);
+    ftntick_history_key(tic);
 
     if (hi_write(tic->date, buffer) == ERROR)
         ret = ERROR;
-- 
2.43.0


From 620482d79c2e24a6c87d922c9b98761a743419e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:50 +0000
Subject: [PATCH 132/133] fix: areafix: buffer overflow sending the rules of an
 area with a long name

---
 src/areafix/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index cf339a2..79f1662 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -2299,7 +2299,7 @@ short int send_rules(Node * link, char *area)
     msg.node_to = *link;
     BUF_COPY(msg.name_to, "SysOp");
     BUF_COPY(msg.name_from, "Fidogate Daemon");
-    sprintf(msg.subject, "%s Rules", area);
+    str_printf(msg.subject, sizeof(msg.subject), "%s Rules", area);
     cf_set_best(link->zone, link->net, link->node);
     msg.node_from = cf_n_addr();
 
-- 
2.43.0


From dc07b610104bef688778cd41819b68035c5b799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 133/133] fix: rfc2ftn: articles of a batch after an empty one
 were dropped silently

---
 src/gate/rfc2ftn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 5c120cf..909e2bd 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -2366,6 +2366,9 @@ int main(int argc, char **argv)
                 fglog("ERROR: reading news batch");
                 status = ferror(fpart) ? EX_IOERR : EX_DATAERR;
             }
+            if (size == 0 && !feof(fpart))
+                /* Empty message, or not a number: checked by the next */
+                continue;
             if (size <= 0)
                 break;
             debug(3, "Batch: message #%ld size %ld", nmsg, size);
-- 
2.43.0

