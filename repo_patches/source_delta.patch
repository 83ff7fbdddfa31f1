From b37083c5daace31379a33488ea50eafb239d37f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 001/106] fix: DeletePath uses its own list, and all of its
 lines

do_deletepath() read the DeleteSeenBy list (a NULL pointer when only
DeletePath is configured).
---
 src/toss/ftntoss.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index eb62f91..d316b17 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -695,16 +695,20 @@ void do_deletepath(LON * path)
 {
     LNode *p;
     LON *ln;
+    DeletePath *d;
 
-    ln = &deleteseenby_first->deleteseenby;
+    for (d = deletepath_first; d; d = d->next) {
+        ln = &d->deletepath;
 
-    lon_debug(9, "do_deletepath(): List of PATH for removing: ", ln, FALSE);
+        lon_debug(9, "do_deletepath(): List of PATH for removing: ",
+                  ln, FALSE);
 
-    for (p = ln->first; p; p = p->next) {
-        if (lon_search(path, &p->node)) {
-            debug(7, "do_deletepath(): Found PATH for removing: %s",
-                  znf1(&p->node));
-            lon_remove(path, &p->node);
+        for (p = ln->first; p; p = p->next) {
+            if (lon_search(path, &p->node)) {
+                debug(7, "do_deletepath(): Found PATH for removing: %s",
+                      znf1(&p->node));
+                lon_remove(path, &p->node);
+            }
         }
     }
 }
-- 
2.43.0


From 7cdfe9f84bac8d2752c54009f1fc64a7b81f201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 002/106] fix: honour every DeleteSeenBy line, not only the
 first

---
 src/toss/ftntoss.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index d316b17..7bf3d20 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -673,17 +673,20 @@ void do_deleteseenby(LON * seenby)
 {
     LNode *p;
     LON *ln;
+    DeleteSeenBy *d;
 
-    ln = &deleteseenby_first->deleteseenby;
+    for (d = deleteseenby_first; d; d = d->next) {
+        ln = &d->deleteseenby;
 
-    lon_debug(9, "do_deleteseenby(): List of SEEN-BYs for removing: ",
-              ln, FALSE);
+        lon_debug(9, "do_deleteseenby(): List of SEEN-BYs for removing: ",
+                  ln, FALSE);
 
-    for (p = ln->first; p; p = p->next) {
-        if (lon_search(seenby, &p->node)) {
-            debug(7, "do_deleteseenby(): Found SEEN-BY for removing: %s",
-                  znf1(&p->node));
-            lon_remove(seenby, &p->node);
+        for (p = ln->first; p; p = p->next) {
+            if (lon_search(seenby, &p->node)) {
+                debug(7, "do_deleteseenby(): Found SEEN-BY for removing: %s",
+                      znf1(&p->node));
+                lon_remove(seenby, &p->node);
+            }
         }
     }
 }
-- 
2.43.0


From fd5ddb75c75fa666e186649b9fb98169576501fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 003/106] fix: CheckPointOriginAddr switches the check on

---
 src/toss/ftntoss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 7bf3d20..38de959 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -2084,7 +2084,7 @@ int main(int argc, char **argv)
     }
 #endif                          /* !ACTIVE_LOOKUP */
     if (cf_get_string("CheckPointOriginAddr", TRUE)) {
-        check_point_origin_addr = FALSE;
+        check_point_origin_addr = TRUE;
     }
 #ifdef DO_NOT_TOSS_NETMAIL
     if (cf_get_string("NoRewrite", TRUE)) {
-- 
2.43.0


From dc15034352211ac2955888052d7687dbba148277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 004/106] fix: a rewrite matching the destination changes the
 destination

do_rewrite() changed the sender's address instead.
---
 src/toss/ftntoss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 38de959..79fa0a0 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -1262,7 +1262,7 @@ void do_rewrite(Message * msg)
                 fglog("rewrite(to): %s @ %s -> %s", msg->name_from,
                       znfp1(&msg->node_from), znfp2(&r->to));
 
-                change_addr(&msg->node_from, &r->to);
+                change_addr(&msg->node_to, &r->to);
                 break;
             }
     }
-- 
2.43.0


From 803cbf140e9db341fa195ef7112acc940d7bbd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 005/106] fix: AddToSeenBy adds its nodes to SEEN-BY

do_seenby() added nothing when called without a list of passive nodes.
---
 src/toss/ftntoss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 79fa0a0..074f907 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -570,7 +570,7 @@ void do_seenby(LON * seenby, LON * nodes, LON * new, LON * passive, int cup,
             if (j < cup || node_eq(from, &p->node))
                 continue;
 
-            if ((NULL != passive) && !lon_search(passive, &(p->node))) {
+            if (NULL == passive || !lon_search(passive, &(p->node))) {
                 lon_add(seenby, &p->node);
                 if (new)
                     lon_add(new, &p->node);
-- 
2.43.0


From 11b2e925fadd15e1763db3aa73b414af905856cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 006/106] fix: default SEEN-BY and PATH lines end with a
 carriage return

In a bad message SEEN-BY and PATH ran together.
---
 src/common/message.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index 1c8a3ff..fbd12c8 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -720,12 +720,14 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
         }
         if (body->seenby.n == 0) {
             debug(9, "WARNING: parsing echomail message: no SEEN-BY line!");
-            snprintf(buffer, sizeof(buffer), "SEEN-BY: %d/%d", to->net, to->node);
+            snprintf(buffer, sizeof(buffer), "SEEN-BY: %d/%d\r", to->net,
+                     to->node);
             tl_append(&body->seenby, buffer);
         }
         if (body->path.n == 0) {
             debug(9, "WARNING: parsing echomail message: no ^APATH line!");
-            snprintf(buffer, sizeof(buffer), "\001PATH: %d/%d", to->net, to->node);
+            snprintf(buffer, sizeof(buffer), "\001PATH: %d/%d\r", to->net,
+                     to->node);
             tl_append(&body->path, buffer);
         }
     }
-- 
2.43.0


From b63e50097dbccc489b328ce037f8086ada8cb009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 007/106] fix: echomail without PATH is not taken for a loop

The PATH supplied for echomail that has none named the receiving system,
which CheckPath then found to be circular; ftntoss and ftnroute now
supply the sender's address.
---
 src/toss/ftnroute.c | 5 +++--
 src/toss/ftntoss.c  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index d24401e..79bd619 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -632,8 +632,9 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
         /*
          * Read & parse message body
          */
-        if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, &msg.node_to) !=
-            OK) {
+        /* default SEEN-BY and PATH lines, if missing, name the sender */
+        if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, &msg.node_from)
+            != OK) {
             fglog("ERROR: parsing message body");
             fclose(pkt_file);
             TMPS_RETURN(ERROR);
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 074f907..3fb7c60 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -1631,8 +1631,9 @@ int unpack(FILE * pkt_file, Packet * pkt)
         if (msg_body_parse(&tl, &body) == -2)
             fglog("ERROR: parsing message body");
 #else
-        if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, &msg.node_to) !=
-            OK) {
+        /* default SEEN-BY and PATH lines, if missing, name the sender */
+        if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, &msg.node_from)
+            != OK) {
             fglog("ERROR: parsing message body");
             return ERROR;
         }
-- 
2.43.0


From a2ac9f72acae79938e1b4a6ed6396bb45fcd696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 008/106] fix: do not repeat the last line of echomail that has
 no Origin

Without INSERT_ORIGIN the buffer still holds the last line read.
---
 src/common/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/message.c b/src/common/message.c
index fbd12c8..8a33c0e 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -715,8 +715,8 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
             debug(9, "WARNING: no ' * Origin:' line!");
 #ifdef INSERT_ORIGIN
             sprintf(buffer, " * Origin: (%s)\r", znfp1(from));
-#endif
             body->origin = strsave(buffer);
+#endif
         }
         if (body->seenby.n == 0) {
             debug(9, "WARNING: parsing echomail message: no SEEN-BY line!");
-- 
2.43.0


From 9df585aa16351bc710e8cc49a808e5588e2d7e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 009/106] fix: keep the text lines after a quoted tearline,
 Origin, Via or SEEN-BY, in order

A text line after a Via/Recd, SEEN-BY or PATH line was dropped unless a
tearline or Origin was pending, and with both pending the text that
followed was moved in front of the Origin line.
---
 src/common/message.c | 46 +++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index 8a33c0e..57e619c 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -614,18 +614,21 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "body: %s", buffer);
                 }
-            } else if (line & FOUND_TEARLINE) {
-                tl_append(&body->body, body->tear);
+            } else if (*buffer == '\001') {
                 tl_append(&body->body, buffer);
-                xfree(body->tear);
-                body->tear = NULL;
-                line &= ~FOUND_TEARLINE;
-            } else if (line & FOUND_ORIGIN) {
-                tl_append(&body->body, body->origin);
+            } else {
+                if (line & FOUND_TEARLINE) {
+                    tl_append(&body->body, body->tear);
+                    xfree(body->tear);
+                    body->tear = NULL;
+                }
+                if (line & FOUND_ORIGIN) {
+                    tl_append(&body->body, body->origin);
+                    xfree(body->origin);
+                    body->origin = NULL;
+                }
                 tl_append(&body->body, buffer);
-                xfree(body->origin);
-                body->origin = NULL;
-                line &= ~FOUND_ORIGIN;
+                line = 0;
             }
         } else if (do_flag == PARSE_BODY_ECHOMAIL) {
             if (!strncmp(buffer, "---", 3) &&
@@ -683,18 +686,21 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "body: %s", buffer);
                 }
-            } else if (line & FOUND_TEARLINE) {
-                tl_append(&body->body, body->tear);
+            } else if (*buffer == '\001') {
                 tl_append(&body->body, buffer);
-                xfree(body->tear);
-                body->tear = NULL;
-                line &= ~FOUND_TEARLINE;
-            } else if (line & FOUND_ORIGIN) {
-                tl_append(&body->body, body->origin);
+            } else {
+                if (line & FOUND_TEARLINE) {
+                    tl_append(&body->body, body->tear);
+                    xfree(body->tear);
+                    body->tear = NULL;
+                }
+                if (line & FOUND_ORIGIN) {
+                    tl_append(&body->body, body->origin);
+                    xfree(body->origin);
+                    body->origin = NULL;
+                }
                 tl_append(&body->body, buffer);
-                xfree(body->origin);
-                body->origin = NULL;
-                line &= ~FOUND_ORIGIN;
+                line = 0;
             }
         }
     }
-- 
2.43.0


From e64fa9ff0fba390cabcf564f7a57c907539acfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 010/106] fix: keep the last line of a message that does not
 end in a carriage return

pkt_get_body_parse() dropped it.
---
 src/common/message.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index 57e619c..18c144e 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -495,7 +495,14 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
     msg_body_clear(body);
 
     /* Read lines and put into textlist */
-    while ((type = pkt_get_line(fp, buffer, sizeof(buffer))) == 1) {
+    for (type = 1; type == 1;) {
+        type = pkt_get_line(fp, buffer, sizeof(buffer));
+        if (type != 1) {
+            /* Put incomplete last line into textlist, if any */
+            if ((type != MSG_END && type != MSG_TYPE) || !buffer[0])
+                break;
+            BUF_APPEND(buffer, "\r");
+        }
         if (do_flag == HI_KLUDGE) {
             if (buffer[0] == '\001') {
                 tl_append(&body->kludge, buffer);
@@ -738,8 +745,6 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
         }
     }
 
-    /* Put incomplete last line into textlist, if any */
-
     return ret;
 }
 
-- 
2.43.0


From 8d8d1eba6005b1b10c4d011c68fbdb39692a056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 011/106] fix: keep blank lines at the beginning of a message
 text

pkt_get_body_parse() skips them to find RFC headers after them, but
dropped them from the text as well.
---
 src/common/message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/message.c b/src/common/message.c
index 18c144e..5e9fc50 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -547,6 +547,7 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "parse_blank: %s", buffer);
                 }
+                tl_append(&body->body, "\r");
                 continue;
             }
         }
-- 
2.43.0


From eb3c36a33aef0b63fccb32d59024b363e446d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 012/106] fix: node_to_asc_diff() names the boss of the
 preceding point

It wrote nothing at all for z:n/f after z:n/f.p, so the boss node was
lost from rewritten area tables and 4D control lines.
---
 src/common/node.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/node.c b/src/common/node.c
index e33d2a9..2d00b84 100644
--- a/src/common/node.c
+++ b/src/common/node.c
@@ -253,6 +253,8 @@ char *node_to_asc_diff(Node * node, Node * oldnode)
             if (node->node == oldnode->node) {
                 if (node->point != 0)
                     str_printf(buf, sizeof(buf), ".%d", node->point);
+                else if (oldnode->point > 0)
+                    str_printf(buf, sizeof(buf), "%d", node->node);
             } else
                 str_printf(buf, sizeof(buf), node->point ? "%d.%d" : "%d",
                            node->node, node->point);
-- 
2.43.0


From 68d8a3b1243035e2ab21c41775fdc18d52fde2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 013/106] fix: pkt_get_string() terminates a string that
 exactly fills the buffer

---
 src/common/packet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/packet.c b/src/common/packet.c
index 823a22c..bc6740f 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -423,7 +423,7 @@ size_t pkt_get_string(FILE * fp, char *buf, size_t nbytes)
             buf[i] = '\0';
     }
 
-    if (i < nbytes - 1)
+    if (i < nbytes)
         buf[i] = '\0';
 
     i += (c != EOF);            /* EOF means the byte was not actually read */
-- 
2.43.0


From 6e023adab20d88de303c7579349ffb790f535ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 014/106] fix: a byte 2 before a carriage return does not join
 two lines

---
 src/common/message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index 5e9fc50..d370ce3 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -111,9 +111,9 @@ int pkt_get_line(FILE * fp, char *buf, int size)
                 fglog("pkt_get_line(): grunged packet");
                 return MSG_TYPE;
             }
+            /* no: the next character is read as usual, it may be a CR */
+            ungetc(c1, fp);
             *p++ = c;
-            *p++ = c1;
-            size--;
             size--;
             break;
 
-- 
2.43.0


From 13ad115261ef95f8577f189bc7e4efa813bf1159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 015/106] fix: keep the order of a quoted Origin above a quoted
 tearline

---
 src/common/message.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/common/message.c b/src/common/message.c
index d370ce3..9a32511 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -473,6 +473,7 @@ int msg_body_parse(Textlist * text, MsgBody * body)
 #define FOUND_KLUDGE		0x0001
 #define FOUND_ORIGIN		0x0002
 #define FOUND_TEARLINE		0x0004
+#define FOUND_ORIGIN_FIRST	0x0008  /* Origin above the tearline */
 
 /*
  * Read text body from packet into Textlist & parse it.
@@ -597,6 +598,8 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "origin: %s", buffer);
                 }
+                if (!(line & FOUND_TEARLINE))
+                    line |= FOUND_ORIGIN_FIRST;
                 line |= FOUND_ORIGIN;
                 continue;
             }
@@ -625,6 +628,12 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
             } else if (*buffer == '\001') {
                 tl_append(&body->body, buffer);
             } else {
+                if (line & FOUND_ORIGIN_FIRST) {
+                    tl_append(&body->body, body->origin);
+                    xfree(body->origin);
+                    body->origin = NULL;
+                    line &= ~FOUND_ORIGIN;
+                }
                 if (line & FOUND_TEARLINE) {
                     tl_append(&body->body, body->tear);
                     xfree(body->tear);
@@ -659,6 +668,8 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "origin: %s", buffer);
                 }
+                if (!(line & FOUND_TEARLINE))
+                    line |= FOUND_ORIGIN_FIRST;
                 line |= FOUND_ORIGIN;
                 continue;
             }
@@ -697,6 +708,12 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
             } else if (*buffer == '\001') {
                 tl_append(&body->body, buffer);
             } else {
+                if (line & FOUND_ORIGIN_FIRST) {
+                    tl_append(&body->body, body->origin);
+                    xfree(body->origin);
+                    body->origin = NULL;
+                    line &= ~FOUND_ORIGIN;
+                }
                 if (line & FOUND_TEARLINE) {
                     tl_append(&body->body, body->tear);
                     xfree(body->tear);
-- 
2.43.0


From 0926593738c1a7b15addc6342afddceece696374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 016/106] fix: ftntoss keeps a packet with an unknown message
 type as .bad

---
 src/toss/ftntoss.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 3fb7c60..fc4b502 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -1594,6 +1594,10 @@ int unpack(FILE * pkt_file, Packet * pkt)
         fglog("ERROR: reading input packet");
         TMPS_RETURN(ERROR);
     }
+    if (type != MSG_TYPE && type != MSG_END) {
+        fglog("ERROR: unknown message type %d in input packet", type);
+        TMPS_RETURN(ERROR);
+    }
 
     while ((type == MSG_TYPE) && !xfeof(pkt_file)) {
         /*
-- 
2.43.0


From 4032b0915298f07ebe7c431ac781e3772763aefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:24 +0000
Subject: [PATCH 017/106] fix: ftnroute: keep direct messages out of a routed
 packet one by one

A message with the direct attribute in a packet routed via another node
closed the output packet behind the back of outpkt, wrote to the closed
file for later messages, and moved the whole input packet away although
some of its messages were already written.
---
 src/toss/ftnroute.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index 79bd619..fb390c3 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -585,6 +585,7 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
     MsgBody body;               /* Message body of FTN message */
     int type, ret;
     FILE *fp;
+    Node *to;
 
     /*
      * Initialize
@@ -592,18 +593,8 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
     tl_init(&tl);
     msg_body_init(&body);
 
-    /*
-     * Open output packet
-     */
     cf_set_zone(desc->to.zone);
 
-    fp = outpkt_open(&desc->from, &desc->to,
-                     desc->grade, desc->type, desc->flav, FALSE);
-    if (fp == NULL) {
-        fclose(pkt_file);
-        TMPS_RETURN(ERROR);
-    }
-
     /*
      * Read message from input packet and write to output packet
      */
@@ -622,11 +613,17 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
             break;
         }
 
+        /* direct messages are not routed via another node */
+        to = &desc->to;
         if (msg.attr & MSG_DIRECT && !node_eq(&desc->to, &pkt->to)) {
-            fclose(fp);
             debug(1, "routing: direct (%s)", znfp1(&pkt->to));
-            desc->to = pkt->to;
-            return do_move(pkt_name, pkt_file, desc);
+            to = &pkt->to;
+        }
+        fp = outpkt_open(&desc->from, to,
+                         desc->grade, desc->type, desc->flav, FALSE);
+        if (fp == NULL) {
+            fclose(pkt_file);
+            TMPS_RETURN(ERROR);
         }
 
         /*
-- 
2.43.0


From e0b77ac9ace838507f1933007df3f97ca7b4d1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:24 +0000
Subject: [PATCH 018/106] fix: accept address patterns in xroute, hostroute and
 bossroute

The node lists were read with lon_add_string(), which rejects wildcards
and takes a missing point for point 0, so that the documented
"bossroute crash *" never matched anything.
---
 src/common/routing.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/common/routing.c b/src/common/routing.c
index 56038b4..711c779 100644
--- a/src/common/routing.c
+++ b/src/common/routing.c
@@ -248,7 +248,7 @@ void routing_rewrite(int cmd)
 void mk_route(int cmd)
 {
     char *p;
-    Node dest, old;
+    Node dest, node, old;
     LON links;
     MkRoute *r;
     int flav;
@@ -288,11 +288,16 @@ void mk_route(int cmd)
         node_clear(&dest);
 
     /*
-     * Source node (pattern)
+     * List of nodes (patterns)
      */
-    while ((p = xstrtok(NULL, " \t")))
-        if (*p)
-            lon_add_string(&links, p);
+    while ((p = xstrtok(NULL, " \t"))) {
+        if (znfp_parse_diff(p, &node, &old) == ERROR) {
+            fglog("mk_route: illegal node address %s", p);
+        } else {
+            old = node;
+            lon_add(&links, &node);
+        }
+    }
 
     if (cmd == CMD_XROUTE && links.size != 2) {
         fglog("mk_route: xroute requires flavor type and 3 arguments");
-- 
2.43.0


From 82dec373aa7ed4876948f558eb962494b9c369f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:24 +0000
Subject: [PATCH 019/106] fix: wildcards in rewrite and remap destinations keep
 the component

Only missing components were kept; a "*", as in the documented
"Rewrite 242:241/* 2:241/*", was written into the address.
---
 src/toss/ftntoss.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index fc4b502..2c4b4d9 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -1225,13 +1225,13 @@ void add_via(Textlist * list, Node * gate)
  */
 void change_addr(Node * node, Node * newpat)
 {
-    if (newpat->zone != -1)
+    if (newpat->zone != EMPTY && newpat->zone != WILDCARD)
         node->zone = newpat->zone;
-    if (newpat->net != -1)
+    if (newpat->net != EMPTY && newpat->net != WILDCARD)
         node->net = newpat->net;
-    if (newpat->node != -1)
+    if (newpat->node != EMPTY && newpat->node != WILDCARD)
         node->node = newpat->node;
-    if (newpat->point != -1)
+    if (newpat->point != EMPTY && newpat->point != WILDCARD)
         node->point = newpat->point;
 }
 
-- 
2.43.0


From 6f48f4f7605e3a2e442ba577084fe5d50b65e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:24 +0000
Subject: [PATCH 020/106] fix: remap rules were ignored, they are the same as
 remapto

---
 src/toss/ftntoss.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 2c4b4d9..1b97b1d 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -1280,7 +1280,7 @@ int do_remap(Message * msg)
     char kill = FALSE;
 
     for (r = remap_first; r; r = r->next)
-        if ((r->type == CMD_REMAP_TO &&
+        if (((r->type == CMD_REMAP || r->type == CMD_REMAP_TO) &&
              node_match(&msg->node_to, &r->from) &&
              wildmatch(msg->name_to, r->name, TRUE))
             ||
@@ -1296,7 +1296,7 @@ int do_remap(Message * msg)
                 kill = TRUE;
 
             if (!node_eq(&node, &msg->node_to)) {
-                if (r->type == CMD_REMAP_TO)
+                if (r->type == CMD_REMAP || r->type == CMD_REMAP_TO)
                     fglog("remapto: %s @ %s -> %s", msg->name_to,
                           znfp1(&node),
                           !kill ? znfp2(&msg->node_to) : "KILLED");
-- 
2.43.0


From 6de6b09a28e57faf58c83aa534c6dcd644ac84c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 021/106] fix: ftnpack lost netmail packed with an archiver

By default packets for the archiver are written to the input directory
itself: the copy was opened for writing over the packet being read, and
the result was removed as the processed packet before the archiver ran.
---
 src/toss/ftnpack.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index 136c184..924c113 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -603,6 +603,16 @@ int do_noarc(char *name, Node * flonode,
     Message msg = { 0 };
     Textlist tl;
     int type;
+    char tmp_name[MAXPATH];
+
+    /*
+     * Never write over the packet being read
+     */
+    tmp_name[0] = '\0';
+    if (out_name && streq(out_name, name)) {
+        BUF_COPY2(tmp_name, name, ".tmp");
+        out_name = tmp_name;
+    }
 
     /*
      * Open .OUT packet in Binkley outbound
@@ -716,7 +726,12 @@ int do_noarc(char *name, Node * flonode,
         fglog("$ERROR: can't close outbound packet");
         TMPS_RETURN(ERROR);
     }
-    if (unlink(name) != OK) {
+    if (tmp_name[0]) {
+        if (rename(tmp_name, name) != OK) {
+            fglog("$ERROR: rename %s -> %s failed", tmp_name, name);
+            TMPS_RETURN(ERROR);
+        }
+    } else if (unlink(name) != OK) {
         fglog("$ERROR: can't remove packet %s", name);
         TMPS_RETURN(ERROR);
     }
-- 
2.43.0


From fc90f25386a9c0051e864e52542bf6cba668e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 022/106] fix: a command killed by a signal has not succeeded

run_system() returned 0 for it, so that e.g. ftnpack removed the packet
when the archiver was killed.
---
 src/common/misc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/misc.c b/src/common/misc.c
index 7d63a93..936e778 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -463,10 +463,15 @@ char *str_dosify(char *s)
 int run_system(char *s)
 {
     char cmd[BUFFERSIZE];
+    int ret;
 
     BUF_EXPAND(cmd, s);
     DOSIFY_IF_NEEDED(cmd);
-    return (system(cmd) >> 8) & 0xff;
+    ret = system(cmd);
+    /* -1: couldn't run the command, lower bits: killed by a signal */
+    if (ret == -1 || (ret & 0xff) != 0)
+        return 0xff;
+    return (ret >> 8) & 0xff;
 }
 
 int xfeof(FILE * fp)
-- 
2.43.0


From 113d9a9a0dd4d0984f93df175a4b1d10b945207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:26 +0000
Subject: [PATCH 023/106] fix: ftnpack honours busy flags for fpack, too

With different nodes for the archive and the flow file no busy file was
created nor tested, but both were deleted afterwards, even if they
belonged to another program.
---
 src/toss/ftnpack.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index 924c113..fb91ddf 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -804,12 +804,19 @@ int do_pack(PktDesc * desc, char *name, FILE * file, Packing * pack)
     set_zero(&arcnode);
     set_zero(&flonode);
 
-    if (node_eq(&arcnode, &flonode) &&
+    /* Create BSY file(s) */
+    if (bink_bsy_create(&arcnode, NOWAIT) == ERROR) {
+        debug(1, "%s busy, skipping", znfp1(&arcnode));
+        if (file)
+            fclose(file);
+        return OK;              /* This is o.k. */
+    }
+    if (!node_eq(&arcnode, &flonode) &&
         bink_bsy_create(&flonode, NOWAIT) == ERROR) {
         debug(1, "%s busy, skipping", znfp1(&flonode));
         if (file)
             fclose(file);
-/*	bink_bsy_delete(&arcnode); */
+        bink_bsy_delete(&arcnode);
         return OK;              /* This is o.k. */
     }
 
-- 
2.43.0


From 3a4d221604b2c94aee7cf1c7f76b0c88752265e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:26 +0000
Subject: [PATCH 024/106] fix: ftnpack sets the busy flag of the node whose
 packet it writes

For rpack and fpack with noarc or crash mail it was the flag of the
routing node, while the OUT packet written is the destination's.
---
 src/toss/ftnpack.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index fb91ddf..50b5941 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -800,6 +800,13 @@ int do_pack(PktDesc * desc, char *name, FILE * file, Packing * pack)
         flonode = pack->nodes.first->node;
     }
 
+    if (pack->arc && pack->arc->pack == PACK_ARC &&
+        (desc->flav == FLAV_CRASH || !pack->arc->prog)) {
+        /* Not archived, goes to the OUT packet of the node itself */
+        arcnode = desc->to;
+        flonode = desc->to;
+    }
+
     /* Set all -1 values to 0 */
     set_zero(&arcnode);
     set_zero(&flonode);
-- 
2.43.0


From 2b25d7938d83d4889649971eab797fa943e0a79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 025/106] fix: ftnpack took the maximum archive size from
 uninitialised memory

---
 src/toss/ftnpack.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index 50b5941..f520b03 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -297,8 +297,7 @@ Packing *packing_parse_line(char *buf)
     r->type = type;
     r->nodes = lon;
     r->next = NULL;
-    if (!r->maxarc)
-        r->maxarc = ma;
+    r->maxarc = ma;
 
     debug(15, "packing: pack=%c dir=%s arc=%s type=%c, maxarc=%ld",
           r->pack, r->dir ? r->dir : "", (r->arc ? r->arc->name : NULL),
-- 
2.43.0


From 03cb4653fd31f230a32bb147da01f821bf7609f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:30 +0000
Subject: [PATCH 026/106] fix: spied netmail was forwarded to point 65535 of
 the node

A forward address written without a point kept the internal "no point
given" value, which was then written into the packet header.
---
 src/common/spyes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/spyes.c b/src/common/spyes.c
index fea3e3d..2e4b751 100644
--- a/src/common/spyes.c
+++ b/src/common/spyes.c
@@ -74,7 +74,7 @@ static Spy *spyes_parse_line(char *buf)
         fglog("spyes: duplicate spy entry %s", n);
         return NULL;
     }
-    if (asc_to_node(r, &forward_node, TRUE) == ERROR) {
+    if (asc_to_node(r, &forward_node, FALSE) == ERROR) {
         fglog("spyes: illegal FTN address %s", r);
         return NULL;
     }
-- 
2.43.0


From 511068853c80e996298dd7edba998dd979947848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:44 +0000
Subject: [PATCH 027/106] fix: ftnpack could lose track of a packet when
 archiving or attaching failed

---
 src/toss/ftnpack.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index f520b03..8b78cf0 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -570,23 +570,26 @@ int do_arcmail(char *name, Node * arcnode, Node * flonode,
     chmod(arcn, PACKET_MODE);
     if (ret) {
         fglog("ERROR: %s failed, exit code=%d", buffer, ret);
+        /* Back to the queue */
+        if (!streq(name, pktn) && rename(pktn, name) == -1)
+            fglog("$ERROR: rename %s -> %s failed", pktn, name);
         return ERROR;
     }
     chmod(arcn, PACKET_MODE);
+    /* The packet may only go when its archive is going to be sent */
+    if (!dir) {
+        static const int disp[] = { '#', '^', '@' };
+
+        if (bink_attach(flonode, disp[bundle_disp], arcn,
+                        flav_to_asc(desc->flav), FALSE) == ERROR) {
+            fglog("ERROR: can't attach %s", arcn);
+            if (!streq(name, pktn) && rename(pktn, name) == -1)
+                fglog("$ERROR: rename %s -> %s failed", pktn, name);
+            return ERROR;
+        }
+    }
     if (unlink(pktn) == -1)
         fglog("$ERROR: can't remove %s", pktn);
-    if (!dir)
-        switch (bundle_disp) {
-        case 0:
-            return bink_attach(flonode, '#', arcn,
-                               flav_to_asc(desc->flav), FALSE);
-        case 1:
-            return bink_attach(flonode, '^', arcn,
-                               flav_to_asc(desc->flav), FALSE);
-        case 2:
-            return bink_attach(flonode, '@', arcn,
-                               flav_to_asc(desc->flav), FALSE);
-        }
 
     return OK;
 }
-- 
2.43.0


From fe39f4caf5ebe731d3d00d927a060fe34416484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:44 +0000
Subject: [PATCH 028/106] fix: a flow file entry with @ was not found and was
 added again

---
 src/common/binkley.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/binkley.c b/src/common/binkley.c
index 53dc9b1..3aff512 100644
--- a/src/common/binkley.c
+++ b/src/common/binkley.c
@@ -335,7 +335,7 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
         if (*line == '~')
             continue;
         lmode = ' ';
-        if (*line == '^' || *line == '#')
+        if (*line == '^' || *line == '#' || *line == '@')
             lmode = *line++;
 
         debug(5, "FLO entry: %c %s", lmode, line);
-- 
2.43.0


From 641b9dd2bc41df61bd2351242475a39e51c436d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:01 +0000
Subject: [PATCH 029/106] fix: two programs could get the same lock at once, a
 crash could leave it locked for ever

---
 src/common/lock.c | 89 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 73 insertions(+), 16 deletions(-)

diff --git a/src/common/lock.c b/src/common/lock.c
index 2baf9cb..1c0c7c1 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -48,18 +48,21 @@ int check_stale_lock(char *name)
     pid_t pid;
     FILE *fp;
     char *ret;
+    struct stat st, st_name;
 
-    if ((fp = fopen(name, "r")) == NULL) {
+    if ((fp = fopen(name, RP_MODE)) == NULL && errno == EACCES)
+        fp = fopen(name, R_MODE);
+    if (fp == NULL) {
         if (errno == ENOENT)
             return LOCKFILE_UNLOCKED;
         else
             return LOCKFILE_ERROR;
     }
     ret = fgets(buff, sizeof(buff), fp);
-    fclose(fp);
 
     if (ret == NULL) {
         fglog("$ERROR: cannot read lock file");
+        fclose(fp);
         return LOCKFILE_ERROR;
     }
 
@@ -68,14 +71,29 @@ int check_stale_lock(char *name)
     else
         pid = -1;
 
-    if (kill(pid, 0) == 0 || errno == EPERM)
+    if (kill(pid, 0) == 0 || errno == EPERM) {
+        fclose(fp);
         return LOCKFILE_LOCKED;
+    }
 
     fglog("$WARNING: stale lock file %s (pid = %d) found", name, pid);
-    if (unlink(name) != 0) {
-        debug(7, "Deleteting stale lock file %s failed.", name);
-        return LOCKFILE_ERROR;
+    /*
+     * Others may find it, too, and one of them may have put its own lock
+     * there meanwhile: only remove the file looked at, one at a time
+     */
+    lock_file(fp);
+    if (stat(name, &st_name) == 0 && fstat(fileno(fp), &st) == 0) {
+        if (st.st_dev != st_name.st_dev || st.st_ino != st_name.st_ino) {
+            fclose(fp);
+            return LOCKFILE_LOCKED;
+        }
+        if (unlink(name) != 0) {
+            debug(7, "Deleteting stale lock file %s failed.", name);
+            fclose(fp);
+            return LOCKFILE_ERROR;
+        }
     }
+    fclose(fp);
     return LOCKFILE_UNLOCKED;
 }
 
@@ -98,7 +116,7 @@ int lock_fd(int fd)
     do {
         err = fcntl(fd, F_SETLKW, &fl);
     }
-    while (err == EINTR);
+    while (err == ERROR && errno == EINTR);
 
     return err;
 #endif
@@ -123,7 +141,7 @@ int unlock_fd(int fd)
     do {
         err = fcntl(fd, F_SETLKW, &fl);
     }
-    while (err == EINTR);
+    while (err == ERROR && errno == EINTR);
 
     return err;
 #endif
@@ -248,15 +266,54 @@ int unlock_lockfile_nfs(char *name)
 }
 
 #else /**!NFS_SAFE_LOCKFILES**/
+/*
+ * Create a lock file which must not exist, complete with PID
+ */
+static int create_lockfile(char *name)
+{
+    char uniq_name[MAXPATH];
+    FILE *fp;
+    int fd, ret;
+
+    BUF_COPY(uniq_name, name);
+    str_printf(uniq_name + strlen(uniq_name),
+               sizeof(uniq_name) - strlen(uniq_name), ".L%d", (int)getpid());
+
+    if ((fp = fopen(uniq_name, W_MODE)) == NULL)
+        return LOCKFILE_ERROR;
+    fprintf(fp, "%d\n", (int)getpid());
+    if (fclose(fp) == ERROR) {
+        unlink(uniq_name);
+        return LOCKFILE_ERROR;
+    }
+
+    ret = link(uniq_name, name) == 0 ? LOCKFILE_UNLOCKED :
+        errno == EEXIST ? LOCKFILE_LOCKED : LOCKFILE_ERROR;
+    unlink(uniq_name);
+    if (ret != LOCKFILE_ERROR)
+        return ret;
+
+    /* No hard links in this file system */
+    if ((fd = open(name, O_WRONLY | O_CREAT | O_EXCL, 0666)) == ERROR)
+        return errno == EEXIST ? LOCKFILE_LOCKED : LOCKFILE_ERROR;
+    if ((fp = fdopen(fd, W_MODE)) == NULL) {
+        close(fd);
+        return LOCKFILE_ERROR;
+    }
+    fprintf(fp, "%d\n", (int)getpid());
+    fclose(fp);
+    return LOCKFILE_UNLOCKED;
+}
+
 /*
  * Create lock file with PID (id==NULL) or arbitrary string (id!=NULL)
  * Update: id != NULL lock is removed, is not used
  */
 int lock_lockfile(char *name, int wait)
 {
-    FILE *fp = NULL;
     short int wait_time = FALSE;
     short int exists_lock = FALSE;
+    int state;
 
     if (wait && wait != WAIT)
         wait_time = TRUE;
@@ -265,13 +322,13 @@ int lock_lockfile(char *name, int wait)
     debug(7, "Creating lock file %s ...", name);
     do {
         /* if there is a stale lock, this function will remove it */
-        switch (check_stale_lock(name)) {
-        case LOCKFILE_UNLOCKED:
-            if ((fp = fopen(name, "w")) == NULL)
-                return ERROR;
-            fprintf(fp, "%d\n", (int)getpid());
-            fclose(fp);
-            return OK;
+        state = check_stale_lock(name);
+        if (state == LOCKFILE_UNLOCKED) {
+            state = create_lockfile(name);
+            if (state == LOCKFILE_UNLOCKED)
+                return OK;
+        }
+        switch (state) {
 
         case LOCKFILE_LOCKED:
             debug(7, "Lock exists %s", name);
-- 
2.43.0


From 5def40ea1e261766ba067e0eb434face386e1cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 030/106] fix: sequence numbers could be given out twice when
 the sequencer file is created or cannot be written

---
 src/common/sequencer.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/common/sequencer.c b/src/common/sequencer.c
index 22ee9d6..1418ebb 100644
--- a/src/common/sequencer.c
+++ b/src/common/sequencer.c
@@ -31,6 +31,18 @@
 
 #include "fidogate.h"
 
+/*
+ * Create sequencer file, unless another program just did
+ */
+static FILE *seq_create(char *name)
+{
+    int fd;
+
+    if ((fd = open(name, O_RDWR | O_CREAT, 0666)) == ERROR)
+        return NULL;
+    return fdopen(fd, RP_MODE);
+}
+
 /*
  * Sequencer: read number from file and increment it
  */
@@ -49,12 +61,12 @@ long sequencer_nx(char *seqname, int err_abort)
     BUF_EXPAND(filename, seqname);
     if ((fp = fopen(filename, RP_MODE)) == NULL)
         if (errno == ENOENT) {
-            if (!(fp = fopen(filename, WP_MODE))) {
+            if (!(fp = seq_create(filename))) {
                 fp = fopen(cf_p_seq_pack(), RP_MODE);
                 if (fp == NULL) {
                     if (errno == ENOENT) {
                         mkdir(cf_p_seq_pack(), DIR_MODE);
-                        fp = fopen(filename, WP_MODE);
+                        fp = seq_create(filename);
                     } else
                         return ERROR;
                 } else {
@@ -73,7 +85,13 @@ long sequencer_nx(char *seqname, int err_abort)
     }
 
     /* Lock file, get number and increment it */
-    lock_file(fp);
+    if (lock_file(fp) == ERROR) {
+        fglog("$ERROR: can't lock sequencer file %s", seqname);
+        fclose(fp);
+        if (err_abort)
+            exit(EX_OSFILE);
+        return ERROR;
+    }
 
     /* filename[] is also used as a buffer for reading the seq value */
     if (fgets(filename, sizeof(filename), fp))
@@ -86,9 +104,14 @@ long sequencer_nx(char *seqname, int err_abort)
 
     rewind(fp);
     fprintf(fp, "%ld\n", seqn);
-    rewind(fp);
 
-    fclose(fp);
+    /* A number not recorded would be given out again */
+    if (fclose(fp) == ERROR) {
+        fglog("$ERROR: can't write sequencer file %s", seqname);
+        if (err_abort)
+            exit(EX_OSFILE);
+        return ERROR;
+    }
 
     return seqn;
 }
-- 
2.43.0


From 171a95be87c628e9ef37213082afd562463b1304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 031/106] fix: entries of a flow file could be lost, run
 together or sent twice

The flow file opened was compared with the one on disk only by name, so
that an entry could be added to a file just deleted by another program;
an incomplete last line was continued; a failed write was reported as
success.
---
 src/common/binkley.c | 28 ++++++++++++++++++++++------
 src/common/flo.c     | 28 +++++++++++++++++++---------
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/common/binkley.c b/src/common/binkley.c
index 3aff512..0fafa8b 100644
--- a/src/common/binkley.c
+++ b/src/common/binkley.c
@@ -301,9 +301,11 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
     FILE *fp;
     char *n;
     char *line;
-    int lmode, found;
+    int lmode, found, torn, ret;
+    long end;
     static char buf[MAXPATH];
 
+    ret = OK;
     if (mode)
         debug(4, "attach mode=%c (^=delete, #=trunc)", mode);
     debug(4, "attach name=%s", name);
@@ -325,7 +327,7 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
     /* seek to start of flo file */
     if (fseek(fp, 0L, SEEK_SET) == ERROR) {
         fglog("$fseek EOF FLO file node %s failed", znfp1(node));
-        flo_close(node, TRUE, FALSE);
+        flo_close(node, bsy, FALSE);
         return ERROR;
     }
 
@@ -350,15 +352,29 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
         debug(4, "FLO file already contains an entry, not attaching file");
     else {
         debug(4, "FLO file open and locking succeeded, attaching file");
+        /* Don't append to an incomplete last line */
+        torn = FALSE;
+        if (fseek(fp, -1L, SEEK_END) == 0)
+            torn = fgetc(fp) != '\n';
+        fseek(fp, 0L, SEEK_END);
+        end = ftell(fp);
+        if (torn)
+            fputs(cf_dos()? "\r\n" : "\n", fp);
         if (mode)
-            fprintf(fp, "%c%s%s", mode, n, cf_dos()? "\r\n" : "\n");
-        else
-            fprintf(fp, "%s%s", n, cf_dos()? "\r\n" : "\n");
+            fputc(mode, fp);
+        fprintf(fp, "%s%s", n, cf_dos()? "\r\n" : "\n");
+        if (fflush(fp) == EOF) {
+            fglog("$ERROR: writing FLO file node %s failed", znfp1(node));
+            if (end != -1L && ftruncate(fileno(fp), end) == ERROR)
+                fglog("$ERROR: truncating FLO file node %s failed",
+                      znfp1(node));
+            ret = ERROR;
+        }
     }
 
     flo_close(node, bsy, FALSE);
 
-    return OK;
+    return ret;
 }
 
 /*
diff --git a/src/common/flo.c b/src/common/flo.c
index 31258b8..9fc4407 100644
--- a/src/common/flo.c
+++ b/src/common/flo.c
@@ -60,6 +60,7 @@ int flo_openx(Node * node, int bsy, char *flav, int apmode)
 {
     char *flo;
     char *mode;
+    struct stat st, st_name;
 
     mode = apmode ? AP_MODE : RP_MODE;
 
@@ -67,7 +68,6 @@ int flo_openx(Node * node, int bsy, char *flav, int apmode)
     flo = bink_find_flo(node, flav);
     if (!flo)
         return ERROR;
-    BUF_COPY(flo_name, flo);
 
     /* Create directory if necessary */
     if (bink_mkdir(node) == ERROR)
@@ -79,6 +79,15 @@ int flo_openx(Node * node, int bsy, char *flav, int apmode)
             return ERROR;
 
  again:
+    /* It may have come or gone while waiting */
+    flo = bink_find_flo(node, flav);
+    if (!flo) {
+        if (bsy)
+            bink_bsy_delete(node);
+        return ERROR;
+    }
+    BUF_COPY(flo_name, flo);
+
     /* Open FLO file for read/write */
     debug(4, "Opening FLO file, mode=%s", mode);
     flo_fp = fopen(flo_name, mode);
@@ -98,19 +107,20 @@ int flo_openx(Node * node, int bsy, char *flav, int apmode)
         if (bsy)
             bink_bsy_delete(node);
         fclose(flo_fp);
+        flo_fp = NULL;
         return ERROR;
     }
 
-    /* Lock succeeded, but the FLO file may have been deleted */
-    if (access(flo_name, F_OK) == ERROR) {
+    /*
+     * Lock succeeded, but the FLO file may have been deleted, and another
+     * one created meanwhile
+     */
+    if (stat(flo_name, &st_name) == ERROR || fstat(fileno(flo_fp), &st) == ERROR
+        || st.st_dev != st_name.st_dev || st.st_ino != st_name.st_ino) {
         debug(4, "FLO file %s deleted after locking", flo_name);
         fclose(flo_fp);
-        if (apmode) {
-            if (bsy)
-                bink_bsy_delete(node);
-            goto again;
-        } else
-            return ERROR;
+        flo_fp = NULL;
+        goto again;
     }
 
     debug(4, "FLO file %s open and locking succeeded", flo_name);
-- 
2.43.0


From f5df60db34172dfd61a9cbccf17ca0bca4a29a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 032/106] fix: ftnflo -x -n deleted the flow file, entries with
 @ were not sent

---
 src/util/ftnflo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/ftnflo.c b/src/util/ftnflo.c
index 8046f58..5dcbe00 100644
--- a/src/util/ftnflo.c
+++ b/src/util/ftnflo.c
@@ -69,7 +69,7 @@ int do_flo(Node * node)
         if (*line == '~')
             continue;
         mode = ' ';
-        if (*line == '^' || *line == '#')
+        if (*line == '^' || *line == '#' || *line == '@')
             mode = *line++;
         if (cf_dos())
             line = cf_unix_xlate(line);
@@ -117,7 +117,8 @@ int do_flo(Node * node)
 
                 /* Mark as sent */
                 flo_mark();
-            }
+            } else
+                del_ok = FALSE;
         } else
             del_ok = FALSE;
     }
-- 
2.43.0


From 312a215799fea27dc8230f80a46a051e0c7093c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 033/106] fix: ftntoss left the lock of areas.bbs behind when
 busy

---
 src/toss/ftntoss.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 1b97b1d..22d1bff 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -2163,6 +2163,7 @@ int main(int argc, char **argv)
         if (l_flag)
             if (lock_program(PROGRAM, NOWAIT) == ERROR) {
                 /* Already busy */
+                unlock_path(bbslock);
                 exit_free();
                 return EXIT_BUSY;
             }
@@ -2173,10 +2174,9 @@ int main(int argc, char **argv)
                 ERROR) {
 
                 /* Already busy, exit */
-                if (l_flag) {
+                if (l_flag)
                     unlock_program(PROGRAM);
-                    unlock_path(bbslock);
-                }
+                unlock_path(bbslock);
                 exit_free();
                 return EXIT_BUSY;
             }
@@ -2210,6 +2210,7 @@ int main(int argc, char **argv)
         if (l_flag)
             if (lock_program(PROGRAM, NOWAIT) == ERROR) {
                 /* Already busy */
+                unlock_path(bbslock);
                 exit_free();
                 return EXIT_BUSY;
             }
@@ -2219,10 +2220,9 @@ int main(int argc, char **argv)
             if (lock_program(cf_p_lock_history(), w_flag ? w_flag : NOWAIT) ==
                 ERROR) {
                 /* Already busy, exit */
-                if (l_flag) {
+                if (l_flag)
                     unlock_program(PROGRAM);
-                    unlock_path(bbslock);
-                }
+                unlock_path(bbslock);
 
                 exit_free();
                 return EXIT_BUSY;
-- 
2.43.0


From 336c8cfae1d4e829f863d6a379c3b6ca8fc6a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 034/106] fix: ftntoss released the lock of the history before
 writing the last of it

---
 src/toss/ftntoss.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 22d1bff..a4af5c9 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -2196,8 +2196,8 @@ int main(int argc, char **argv)
 
         /* Close history */
         if (dupe_check) {
-            unlock_program(cf_p_lock_history());
             hi_close();
+            unlock_program(cf_p_lock_history());
         }
 
         dir_close();
@@ -2244,8 +2244,8 @@ int main(int argc, char **argv)
 
         /* Close history */
         if (dupe_check) {
-            unlock_program(cf_p_lock_history());
             hi_close();
+            unlock_program(cf_p_lock_history());
         }
 
         /* Lock file */
-- 
2.43.0


From d28368afcb48f7fc6d0839bf94d158ed3363aa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 035/106] fix: areafix changed the area table without its lock
 or broke a lock of others

---
 src/areafix/ftnaf.c     | 28 +++++++++++++++++++---------
 src/areafix/ftnafpkt.c  | 14 ++++++++++++++
 src/areafix/ftnafutil.c |  3 ++-
 3 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/areafix/ftnaf.c b/src/areafix/ftnaf.c
index 291207c..9508e31 100644
--- a/src/areafix/ftnaf.c
+++ b/src/areafix/ftnaf.c
@@ -323,16 +323,18 @@ int main(int argc, char **argv)
             BUF_COPY2(bbslock, areas_bbs, ".lock");
             if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT))
                 ret = EX_OSERR;
-            if (areasbbs_init(areafix_areasbbs()) == ERROR)
-                ret = EX_OSFILE;
-            else
-                ret = do_mail();
-            if (ret == 0 && !n_flag)
-                if (areasbbs_rewrite() == ERROR)
-                    ret = EX_CANTCREAT;
-            unlock_path(bbslock);
+            else {
+                if (areasbbs_init(areafix_areasbbs()) == ERROR)
+                    ret = EX_OSFILE;
+                else
+                    ret = do_mail();
+                if (ret == 0 && !n_flag)
+                    if (areasbbs_rewrite() == ERROR)
+                        ret = EX_CANTCREAT;
+                unlock_path(bbslock);
+            }
+            unlock_program(PROGRAM);
         }
-        unlock_program(PROGRAM);
     } else {
         /*
          * Process command on command line
@@ -357,7 +359,14 @@ int main(int argc, char **argv)
 
         areafix_auth_check(&node, NULL, FALSE);
 
+        BUF_COPY2(bbslock, areas_bbs, ".lock");
+        if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT)) {
+            areafix_free();
+            exit_free();
+            return EX_OSERR;
+        }
         if (areasbbs_init(areafix_areasbbs()) == ERROR) {
+            unlock_path(bbslock);
             areafix_free();
             exit_free();
             return EX_OSFILE;
@@ -378,6 +387,7 @@ int main(int argc, char **argv)
         if (ret == 0 && !n_flag)
             if (areasbbs_rewrite() == ERROR)
                 ret = EX_CANTCREAT;
+        unlock_path(bbslock);
     }
 
     areafix_free();
diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index f7f2d1e..0fb2488 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -521,12 +521,15 @@ int main(int argc, char **argv)
 
         BUF_COPY2(bbslock, areafix_areasbbs(), ".lock");
         if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT)) {
+            if (l_flag)
+                unlock_program(PROGRAM);
             exit_free();
             return EXIT_BUSY;
         }
 
         /* Read areas.bbs */
         if (areasbbs_init(areafix_areasbbs()) == ERROR) {
+            unlock_path(bbslock);
             if (l_flag)
                 unlock_program(PROGRAM);
             exit_free();
@@ -565,8 +568,17 @@ int main(int argc, char **argv)
                 return EXIT_BUSY;
             }
 
+        BUF_COPY2(bbslock, areafix_areasbbs(), ".lock");
+        if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT)) {
+            if (l_flag)
+                unlock_program(PROGRAM);
+            exit_free();
+            return EXIT_BUSY;
+        }
+
         /* Read areas.bbs */
         if (areasbbs_init(areafix_areasbbs()) == ERROR) {
+            unlock_path(bbslock);
             if (l_flag)
                 unlock_program(PROGRAM);
             exit_free();
@@ -590,6 +602,8 @@ int main(int argc, char **argv)
             if (areasbbs_rewrite() == ERROR)
                 ret = EXIT_ERROR;
 
+        unlock_path(bbslock);
+
         /* Lock file */
         if (l_flag)
             unlock_program(PROGRAM);
diff --git a/src/areafix/ftnafutil.c b/src/areafix/ftnafutil.c
index 55096f8..7df146d 100644
--- a/src/areafix/ftnafutil.c
+++ b/src/areafix/ftnafutil.c
@@ -583,6 +583,7 @@ int main(int argc, char **argv)
     }
 
     if (areasbbs_init(areafix_areasbbs()) == ERROR) {
+        unlock_path(bbslock);
         exit_free();
         return EX_OSFILE;
     }
@@ -594,7 +595,7 @@ int main(int argc, char **argv)
         send_request(&req);
 
     if (ret == 0 && !n_flag)
-        if (!areasbbs_rewrite())
+        if (areasbbs_rewrite() == ERROR)
             ret = EX_CANTCREAT;
 
     unlock_path(bbslock);
-- 
2.43.0


From 6295d36f3cc0548677dab6e6caedec62c8dd3038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 036/106] fix: ftnafpkt -w only printed its usage

---
 src/areafix/ftnafpkt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index 0fb2488..5800d9c 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -453,6 +453,7 @@ int main(int argc, char **argv)
                 w_flag = atoi(optarg);
             else
                 w_flag = WAIT;
+            break;
         default:
             short_usage();
             return EX_USAGE;
-- 
2.43.0


From a5d3ac9b15a866e8a21c1295e50acee270b548d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 037/106] fix: rewriting areas.bbs lost -r, -u 0 and quotes in
 descriptions; P marked the wrong link passive

---
 src/common/areasbbs.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index ff0f176..ff2cc2e 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -124,7 +124,7 @@ AreasBBS *areasbbs_new(void)
 static int areasbbs_add_string(LON * lon, LON * lon_passive, char *p)
 {
     Node node, old;
-    int ret;
+    int ret, passive;
 
     old.zone = cf_zone();
     old.net = old.node = old.point = -1;
@@ -132,13 +132,14 @@ static int areasbbs_add_string(LON * lon, LON * lon_passive, char *p)
 
     ret = OK;
     for (; p; p = xstrtok(NULL, " \t\r\n")) {
-        if ('P' == *p) {
-            lon_add(lon_passive, &node);
+        passive = 'P' == *p;
+        if (passive)
             p++;
-        }
         if (asc_to_node_diff(p, &node, &old) == OK) {
             old = node;
             lon_add(lon, &node);
+            if (passive)
+                lon_add(lon_passive, &node);
         } else {
             ret = ERROR;
             break;
@@ -357,8 +358,9 @@ int areasbbs_init(char *name)
 int areasbbs_print(FILE * fp)
 {
     AreasBBS *p;
+    char *s;
 
-    fprintf(fp, "%s\n", areasbbs_1stline);
+    fprintf(fp, "%s\n", areasbbs_1stline ? areasbbs_1stline : "");
 
     for (p = areasbbs_list; p; p = p->next) {
         if (p->flags & AREASBBS_PASSTHRU)
@@ -377,16 +379,25 @@ int areasbbs_print(FILE * fp)
             lon_print_passive(&(p->passive), fp);
             fprintf(fp, " ");
         }
+        if (p->flags & AREASBBS_READONLY)
+            fprintf(fp, "-r ");
         fprintf(fp, "-t %lu ", (unsigned long)(p->time));
         if (p->expire_n)
             fprintf(fp, "-e %d ", p->expire_n);
         if (p->expire_t)
             fprintf(fp, "-n %d ", p->expire_t);
-        if (p->desc)
-            fprintf(fp, "-d \"%s\" ", p->desc);
+        if (p->desc) {
+            fprintf(fp, "-d \"");
+            for (s = p->desc; *s; s++) {
+                if (*s == '"')
+                    fputc('\\', fp);
+                fputc(*s, fp);
+            }
+            fprintf(fp, "\" ");
+        }
         if (p->state)
             fprintf(fp, "-s %s ", p->state);
-        if (p->uplinks > 1)
+        if (p->uplinks != 1)
             fprintf(fp, "-u %d ", p->uplinks);
         lon_print_sorted(&p->nodes, fp, p->uplinks);
         fprintf(fp, "\n");
-- 
2.43.0


From 9a03d76a7b141a00b0a0b6e9f2a596e5d838381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 038/106] fix: a crash while rewriting areas.bbs could leave
 none

---
 src/common/areasbbs.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index ff2cc2e..aad8298 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -481,14 +481,15 @@ int areasbbs_rewrite(void)
     }
 
     /*
-     * Rename AREAS.BBS -> AREAS.O01
+     * Link AREAS.BBS -> AREAS.O01, there must always be an AREAS.BBS
      */
     BUF_COPY(old, buffer);
     str_copy(old + ovwr, sizeof(old) - ovwr, "bbs");
     BUF_COPY(new, buffer);
     str_copy(new + ovwr, sizeof(new) - ovwr, "o01");
-    debug(4, "Renaming %s -> %s", old, new);
-    rename(old, new);
+    debug(4, "Linking %s -> %s", old, new);
+    if (link(old, new) == ERROR)
+        rename(old, new);
 
     /*
      * Rename AREAS.NEW -> AREAS.BBS
@@ -498,7 +499,10 @@ int areasbbs_rewrite(void)
     BUF_COPY(new, buffer);
     str_copy(new + ovwr, sizeof(new) - ovwr, "bbs");
     debug(4, "Renaming %s -> %s", old, new);
-    rename(old, new);
+    if (rename(old, new) == ERROR) {
+        fglog("$ERROR: can't rename %s -> %s", old, new);
+        return ERROR;
+    }
 
     fglog("%s changed", buffer);
 
-- 
2.43.0


From c13bd2791d0d2df80947b2a2e231ad9ba6ccd185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 039/106] fix: ftntick overwrote changes of the area table made
 since its start

---
 src/common/areasbbs.c |  2 ++
 src/tick/ftntick.c    | 12 +++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index aad8298..8f151d8 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -626,4 +626,6 @@ void areasbbs_free(void)
     }
     if (areasbbs_1stline)
         xfree(areasbbs_1stline);
+    areasbbs_1stline = NULL;
+    areasbbs_list = areasbbs_last = NULL;
 }
diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index f40f7d7..60fec0f 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -241,8 +241,16 @@ int do_tic(int w_flag)
         BUF_COPY2(bbslock, areas_bbs, ".lock");
         if (lock_path(bbslock, w_flag ? w_flag : WAIT) == ERROR) {
             exit_free();
+            unlock_program(PROGRAM);
             exit(EXIT_BUSY);
         }
+        /* Others may have changed it before we got the lock */
+        areasbbs_free();
+        if (areasbbs_init(areas_bbs) == ERROR) {
+            fglog("$ERROR: can't open %s", areas_bbs);
+            unlock_path(bbslock);
+            return ERROR;
+        }
 
         if (process_tic(&tic) == ERROR) {
             areasbbs_rewrite();
@@ -260,8 +268,10 @@ int do_tic(int w_flag)
  * Write history information to database
  */
             if (!no_tic_history) {
-                if (ftntick_write_history(&tic, w_flag) != 0)
+                if (ftntick_write_history(&tic, w_flag) != 0) {
+                    unlock_path(bbslock);
                     return ERROR;
+                }
             }
 
             areasbbs_rewrite();
-- 
2.43.0


From cd03e00bb5ee69c9673b53421429af44de2b73e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 040/106] fix: ftntick crashed on a description without
 DefaultCharset

---
 src/common/charset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/charset.c b/src/common/charset.c
index ad3df3c..83ac577 100644
--- a/src/common/charset.c
+++ b/src/common/charset.c
@@ -414,10 +414,11 @@ int charset_recode_buf(char **dst, size_t *dstlen,
     if (srclen == 0)
         return ERROR;
 
-    debug(6, "mime charset: recoding from %s to %s", from, to);
+    debug(6, "mime charset: recoding from %s to %s",
+          from ? from : "-NONE-", to ? to : "-NONE-");
 
     rc = !OK;
-    if (!strieq(from, to))
+    if (from && to && !strieq(from, to))
         rc = charset_recode_iconv(dst, dstlen, src, srclen, from, to);
 
     if (rc != OK) { /* both the same encoding or recoding failed */
-- 
2.43.0


From 8eee834bfa0d538d7fa150a1850015a2c76350a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 041/106] fix: ftntick, finding the history busy, left its
 locks behind or waited for ever

---
 src/tick/ftntick.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 60fec0f..c1de2d9 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -89,7 +89,7 @@ short int ignore_soft_cr = FALSE;
 
 static bool no_tic_history;
 
-static bool ftntick_is_dupe(Tick *tic, bool w_flag)
+static bool ftntick_is_dupe(Tick *tic, int w_flag)
 {
     bool ret = false;
 
@@ -97,6 +97,7 @@ static bool ftntick_is_dupe(Tick *tic, bool w_flag)
         ERROR) {
         fglog("$ERROR: can't create lock file %s/%s", cf_p_lockdir(),
               cf_p_lock_history());
+        unlock_program(PROGRAM);
         exit_free();
         exit(EXIT_BUSY);
     }
@@ -120,7 +121,7 @@ static bool ftntick_is_dupe(Tick *tic, bool w_flag)
     return ret;
 }
 
-static int ftntick_write_history(Tick *tic, bool w_flag)
+static int ftntick_write_history(Tick *tic, int w_flag, char *bbslock)
 {
     int ret = 0;
 
@@ -128,6 +129,8 @@ static int ftntick_write_history(Tick *tic, bool w_flag)
         ERROR) {
         fglog("$ERROR: can't create lock file %s/%s", cf_p_lockdir(),
               cf_p_lock_history());
+        unlock_path(bbslock);
+        unlock_program(PROGRAM);
         exit_free();
         exit(EXIT_BUSY);
     }
@@ -240,8 +243,8 @@ int do_tic(int w_flag)
 
         BUF_COPY2(bbslock, areas_bbs, ".lock");
         if (lock_path(bbslock, w_flag ? w_flag : WAIT) == ERROR) {
-            exit_free();
             unlock_program(PROGRAM);
+            exit_free();
             exit(EXIT_BUSY);
         }
         /* Others may have changed it before we got the lock */
@@ -268,7 +271,7 @@ int do_tic(int w_flag)
  * Write history information to database
  */
             if (!no_tic_history) {
-                if (ftntick_write_history(&tic, w_flag) != 0) {
+                if (ftntick_write_history(&tic, w_flag, bbslock) != 0) {
                     unlock_path(bbslock);
                     return ERROR;
                 }
-- 
2.43.0


From 3f8777b25351c5f6169ab632d5849aed474c45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 042/106] fix: a table cut short by a write error replaced
 areas.bbs

---
 src/common/areasbbs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 8f151d8..4782c69 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -452,7 +452,7 @@ int areasbbs_rewrite(void)
         fglog("$ERROR: can't open %s for writing AREAS.BBS", new);
         return ERROR;
     }
-    if (areasbbs_print(fp) == ERROR) {
+    if (areasbbs_print(fp) != OK) {
         fglog("$ERROR: writing to %s", new);
         fclose(fp);
         unlink(new);
-- 
2.43.0


From f766b45434770dd0fe722ed4ed5b348972055cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 043/106] fix: a read error in areas.bbs was taken for its end

---
 src/common/areasbbs.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 4782c69..1d63005 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -347,6 +347,11 @@ int areasbbs_init(char *name)
         areasbbs_last = p;
     }
 
+    if (ferror(fp)) {
+        fglog("$ERROR: reading %s", name);
+        fclose(fp);
+        return ERROR;
+    }
     fclose(fp);
 
     return OK;
-- 
2.43.0


From 2fcfcfa02be2484903ebfe2128246c469700b23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 044/106] fix: ftntoss went on with a table it could not read,
 and rewrote it

---
 src/toss/ftntoss.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index a4af5c9..3e6e45d 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -2136,7 +2136,12 @@ int main(int argc, char **argv)
         exit_free();
         return EXIT_BUSY;
     }
-    areasbbs_init(areas_bbs);
+    if (areasbbs_init(areas_bbs) == ERROR) {
+        fglog("$ERROR: can't read %s", areas_bbs);
+        unlock_path(bbslock);
+        exit_free();
+        return EXIT_ERROR;
+    }
     passwd_init();
 
     /* Install signal/exit handlers */
-- 
2.43.0


From 923974277c1a8c799852c4955b5e87e49b683c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 045/106] fix: words with spaces, or empty ones, spoiled their
 record when areas.bbs was rewritten

---
 src/common/areasbbs.c | 69 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 14 deletions(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 1d63005..7c5256a 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -357,28 +357,70 @@ int areasbbs_init(char *name)
     return OK;
 }
 
+/*
+ * Does a word need quotes to be read back as one?
+ */
+static int areasbbs_needs_quotes(char *s)
+{
+    return !*s || *s == '"' || strpbrk(s, " \t") != NULL;
+}
+
+static void areasbbs_print_quoted(FILE * fp, char *s)
+{
+    char last = 0;
+
+    fputc('"', fp);
+    for (; *s; s++) {
+        if (*s == '"')
+            fputc('\\', fp);
+        fputc(*s, fp);
+        last = *s;
+    }
+    /* a backslash must not hide the closing quote */
+    if (last == '\\')
+        fputc(' ', fp);
+    fputc('"', fp);
+}
+
+static void areasbbs_print_word(FILE * fp, char *s)
+{
+    if (areasbbs_needs_quotes(s))
+        areasbbs_print_quoted(fp, s);
+    else
+        fputs(s, fp);
+}
+
 /*
  * Output AREAS.BBS, format short sorted list of downlink
  */
 int areasbbs_print(FILE * fp)
 {
     AreasBBS *p;
-    char *s;
+    int quoted;
 
     fprintf(fp, "%s\n", areasbbs_1stline ? areasbbs_1stline : "");
 
     for (p = areasbbs_list; p; p = p->next) {
-        if (p->flags & AREASBBS_PASSTHRU)
+        quoted = areasbbs_needs_quotes(p->dir);
+        if ((p->flags & AREASBBS_PASSTHRU) && !quoted)
             fprintf(fp, "#");
-        fprintf(fp, "%s %s ", p->dir, p->area);
+        areasbbs_print_word(fp, p->dir);
+        fprintf(fp, " ");
+        areasbbs_print_word(fp, p->area);
+        fprintf(fp, " ");
+        if ((p->flags & AREASBBS_PASSTHRU) && quoted)
+            fprintf(fp, "-# ");
         if (p->zone != -1)
             fprintf(fp, "-z %d ", p->zone);
         if (p->addr.zone != -1)
             fprintf(fp, "-a %s ", znfp1(&p->addr));
         if (p->lvl != -1)
             fprintf(fp, "-l %d ", p->lvl);
-        if (p->key)
-            fprintf(fp, "-k %s ", p->key);
+        if (p->key) {
+            fprintf(fp, "-k ");
+            areasbbs_print_word(fp, p->key);
+            fprintf(fp, " ");
+        }
         if (0 < p->passive.size) {
             fprintf(fp, "-p ");
             lon_print_passive(&(p->passive), fp);
@@ -392,16 +434,15 @@ int areasbbs_print(FILE * fp)
         if (p->expire_t)
             fprintf(fp, "-n %d ", p->expire_t);
         if (p->desc) {
-            fprintf(fp, "-d \"");
-            for (s = p->desc; *s; s++) {
-                if (*s == '"')
-                    fputc('\\', fp);
-                fputc(*s, fp);
-            }
-            fprintf(fp, "\" ");
+            fprintf(fp, "-d ");
+            areasbbs_print_quoted(fp, p->desc);
+            fprintf(fp, " ");
+        }
+        if (p->state) {
+            fprintf(fp, "-s ");
+            areasbbs_print_word(fp, p->state);
+            fprintf(fp, " ");
         }
-        if (p->state)
-            fprintf(fp, "-s %s ", p->state);
         if (p->uplinks != 1)
             fprintf(fp, "-u %d ", p->uplinks);
         lon_print_sorted(&p->nodes, fp, p->uplinks);
-- 
2.43.0


From 94216f7320b5e7b25b7de1d56c03e9ed8b2805e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 046/106] fix: ftnafpkt forgot the commands it had answered
 when a signal or a bad packet ended the run

---
 src/areafix/ftnafpkt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index 5800d9c..ddd26e0 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -551,7 +551,7 @@ int main(int argc, char **argv)
         dir_close();
 
         /* Rewrite areas.bbs */
-        if (ret == EXIT_OK && !n_flag)
+        if (!n_flag)
             if (areasbbs_rewrite() == ERROR)
                 ret = EXIT_ERROR;
 
@@ -599,7 +599,7 @@ int main(int argc, char **argv)
         }
 
         /* Rewrite areas.bbs */
-        if (ret == EXIT_OK && !n_flag)
+        if (!n_flag)
             if (areasbbs_rewrite() == ERROR)
                 ret = EXIT_ERROR;
 
-- 
2.43.0


From ad113386afbbd496f579a64bce4941f18e46768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 047/106] fix: areafix DELETE did not need the password

---
 src/areafix/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index c9cc6db..fde2f5f 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1967,7 +1967,7 @@ int cmd_delete(Node * node, char *area)
     Area *autocreate_area;
 #endif                          /* ACTIVE_LOOKUP */
 
-    if (!authorized_delete) {
+    if (!authorized_delete || !authorized) {
         areafix_printf("Command DELETE: not authorized.");
         return OK;
     }
-- 
2.43.0


From edeca9b9d1af4af882dc94884c6248ebd4d0b8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 048/106] fix: a node without rights in passwd got them from
 whatever was split last

---
 src/areafix/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index fde2f5f..f3f4bb5 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -322,7 +322,7 @@ int areafix_auth_check(Node * node, char *passwd, int checkpass)
     }
 
     /* Extract level, key, and real name from pwd->args */
-    s = strsave(pwd->args);
+    s = strsave(pwd->args ? pwd->args : "");
     if ((p = xstrtok(s, " \t")))
         authorized_lvl = atoi(p);
     if ((p = xstrtok(NULL, " \t")))
-- 
2.43.0


From 884e35222cdeb440b73859348506e6b6b7e7f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 049/106] fix: areafix subscription limits counted one node's
 areas against another

---
 src/areafix/areafix.c | 45 ++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index f3f4bb5..3c367d2 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -110,7 +110,6 @@ static char *authorized_name = "Sysop";
 #ifdef SUB_LIMIT
 static int authorized_lim_A = 0;
 static int authorized_lim_G = 0;
-static int lim_g = 0;
 #endif                          /* SUB_LIMIT */
 static Node authorized_node = { -1, -1, -1, -1, "" };
 
@@ -1477,6 +1476,24 @@ int cmd_unlinked(Node * node)
 
 #define		DELETE 2
 
+#ifdef SUB_LIMIT
+/*
+ * Number of areas the node is linked to
+ */
+static int sub_count(Node * node)
+{
+    AreasBBS *p;
+    int n = 0;
+
+    for (p = areasbbs_first(); p; p = p->next)
+        if (p->nodes.size > 1 && (lon_search(&p->nodes, node) ||
+                                  lon_search(&p->passive, node)))
+            n++;
+
+    return n;
+}
+#endif                          /* SUB_LIMIT */
+
 /*
  * Add command
  */
@@ -1495,7 +1512,7 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
     char tmp[64];
 #endif                          /* AFSEND_ECHO_STATUS */
 #ifdef SUB_LIMIT
-    int lim_a;
+    int lim_a, lim_g;
 #endif
 #ifdef SUBSCRIBE_ZONEGATE
     int zg_flag = FALSE;
@@ -1520,16 +1537,6 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
 
     BUF_COPY(area, area_in);
 
-#ifdef SUB_LIMIT
-    if (lim_g < 1)
-        for (p = areasbbs_first(); p; p = p->next) {
-            l = &p->nodes;
-
-            if (l && l->size > 1 && (lon_search(l, node) ||
-                                     lon_search(&p->passive, node)))
-                lim_g++;
-        }
-#endif                          /* SUB_LIMIT */
     iswc = is_wildcard(area);
 
     BUF_COPY(buf, area);
@@ -1567,15 +1574,13 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
                         lon_remove(&p->passive, node);
                         areasbbs_changed();
                         areafix_printf("%-41s: set active", p->area);
-#ifdef SUB_LIMIT
-                        lim_g++;
-#endif                          /* SUB_LIMIT */
                     } else
                         areafix_printf("%-41s: already active", p->area);
                     continue;
                 }
 
 #ifdef SUB_LIMIT
+                lim_g = sub_count(node);
                 if (authorized_lim_G > 0 && authorized_lim_G <= lim_g) {
                     areafix_printf("%-41s: access denied (general limit %d)",
                                    p->area, lim_g);
@@ -1590,7 +1595,7 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
 
                         if (ln && ln->size > 1 && l->first &&
                             (lon_search(ln, node)
-                             || lon_search(&p->passive, node))
+                             || lon_search(&n->passive, node))
                             && lon_search(ln, &l->first->node))
                             lim_a++;
                     }
@@ -1640,11 +1645,6 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
                 BUF_APPEND(buffer, tmp);
 #endif                          /* AFSEND_ECHO_STATUS */
                 areafix_printf("%s", buffer);
-
-#ifdef SUB_LIMIT
-                lim_g++;
-#endif                          /* SUB_LIMIT */
-
                 if (areasbbs_isstate(p->state, 'U') ||
                     areasbbs_isstate(p->state, 'P')) {
                     if ((a =
@@ -1836,9 +1836,6 @@ int cmd_unsub(Node * node, char *area, Textlist * upl)
                     areasbbs_changed();
                     areafix_printf("%-41s: unsubscribed", p->area);
 
-#ifdef SUB_LIMIT
-                    lim_g--;
-#endif                          /* SUB_LIMIT */
                     fglog("%s: -%s", znfp1(node), p->area);
 
                     if ((l->size == 1 && p->flags & AREASBBS_PASSTHRU)) {
-- 
2.43.0


From b7a88abe85a63accedce3bc95a592957ab4aaa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 050/106] fix: a passive node subscribing to an area stayed
 passive

---
 src/areafix/areafix.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 3c367d2..aa72580 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1631,8 +1631,9 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
 
             if (l->first) {
                 lon_add(l, node);
+                if (lon_search(&p->passive, node))
+                    lon_remove(&p->passive, node);
                 areasbbs_changed();
-
                 snprintf(buffer, sizeof(buffer), "%-41s: ", p->area);
 #ifndef ANSWER_OK
                 BUF_APPEND(buffer, "subscribed");
@@ -1658,11 +1659,6 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
 
                         areasbbs_chstate(&p->state, "UP", 'W');
                         p->time = time(NULL);
-
-                        if (lon_search(&p->passive, node)) {
-                            lon_remove(&p->passive, node);
-                        }
-
                         /* Not subscribed at uplink, print note */
                         areafix_printf
                             ("        (this area is currently not subscribed at uplink %s)",
-- 
2.43.0


From 49c85c9b46cca23c029d0c3eff9c828b56d5a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 051/106] fix: subscribing to the last area of the table was
 answered as a refused forward request too

---
 src/areafix/areafix.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index aa72580..9e6073f 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1707,6 +1707,9 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
         }
     }
 
+    if (sub_areas && !iswc)
+        return OK;
+
     if (!authorized_fwd) {
         areafix_printf("%-41s: forward request not authorized", area_in);
         return OK;
-- 
2.43.0


From 2be49f307da6feeef39e0655b2698071121d68fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 052/106] fix: the request to an uplink that is a point went to
 its node

---
 src/areafix/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 9e6073f..5ef677a 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1652,7 +1652,7 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
                          uplinks_line_get(areafix, &l->first->node)) != NULL) {
                         /* Subscribe from uplink */
                         tl_appendf(upl, "%s,%s,%s,%s,+%s",
-                                   znf1(&l->first->node),
+                                   znfp1(&l->first->node),
                                    a->robotname,
                                    fix_name ? fix_name : areafix_name(),
                                    a->password, str_upper(p->area));
-- 
2.43.0


From c9aa8ba0994f66ad06517d0b2f6ce7c8203026de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 053/106] fix: areafix NEW without an area name crashed

---
 src/areafix/areafix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 5ef677a..d051bff 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -731,7 +731,10 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
     }
 
     name = xstrtok(line, " \t");
-
+    if (!name || !*name) {
+        areafix_printf("Command NEW: missing area name.");
+        return OK;
+    }
     if ((p = areasbbs_lookup(name))) {
         areafix_printf("%-41s: area already exists,\r\n"
                        "%-41s  can't create new one.", name, " ");
-- 
2.43.0


From 0ae392e7cc7bf2ad7319ca259148420387b4cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 054/106] fix: filefix NEW created directories outside
 AutoCreateFechoPath

---
 src/areafix/areafix.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index d051bff..fdfcda4 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -853,8 +853,15 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
             autocreate_fecho_path = cf_get_string("AutoCreateFechoPath", TRUE);
             if (autocreate_fecho_path == NULL) {
                 fglog
-                    ("CONFIG: AutoCreateFechoPath not defined and filearea not passthru");
-                p->dir = strsave("-");
+                    ("ERROR: AutoCreateFechoPath not defined and filearea not passthru");
+                return ERROR;
+            }
+            if (strchr(name, '/') || streq(name, ".") || streq(name, "..")) {
+                fglog("WARNING: file area \"%s\" is no directory name, can't create",
+                      name);
+                areafix_printf("%-41s: have forbidden char, can't create.",
+                               name);
+                return -2;
             }
             snprintf(full_farea_dir, sizeof(full_farea_dir), "%s/%s",
 		     autocreate_fecho_path,
-- 
2.43.0


From 318048d2cba6654bb05ac4b3c5eb93e1d370b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 055/106] fix: areafix ACTIVE left an unsubscribed area in two
 states at once

---
 src/areafix/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index fdfcda4..513782a 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -2113,7 +2113,7 @@ int cmd_active(Node * node, char *area, Textlist * upl)
                                a->password, str_upper(p->area));
                     if (areasbbs_isstate(p->state, 'P') ||
                         areasbbs_isstate(p->state, 'U')) {
-                        areasbbs_chstate(&(p->state), "P", 'W');
+                        areasbbs_chstate(&(p->state), "PU", 'W');
                     }
                 }
                 lon_remove(&p->passive, node);
-- 
2.43.0


From 9f7d8d9baa2ee89d65bad386c055ead771342f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 056/106] fix: a forwarded request created an area nobody was
 linked to when the zones differed

---
 src/areafix/areafix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 513782a..f9efb2d 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1634,6 +1634,8 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
                     if ((p->zone > 6) || (node->zone > 6)) {
                         areafix_printf("%-41s: different zone (Z%d), not added",
                                        p->area, p->zone);
+                        if (upl == NULL)
+                            return DELETE;
                         continue;
                     }
                 }
-- 
2.43.0


From bc30ac17a676c9b23a051ff7a4d6412b9608eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 057/106] fix: areafix HELP took the help file for a format
 string

---
 src/areafix/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index f9efb2d..484e3de 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1907,7 +1907,7 @@ int cmd_help(Node * node)
         if ((fp = fopen_expand_name(helpfile, R_MODE, FALSE))) {
             while (fgets(buffer, sizeof(buffer), fp)) {
                 strip_crlf(buffer);
-                areafix_printf(buffer);
+                areafix_printf("%s", buffer);
             }
             fclose(fp);
             return OK;
-- 
2.43.0


From a47d4544befbe72e0cde2377644e488caec1bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 058/106] fix: areafix PASSIVE and ACTIVE left out the areas
 behind one without an uplink entry

---
 src/areafix/areafix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 484e3de..9420355 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -2045,7 +2045,7 @@ int cmd_passive(Node * node, char *area, Textlist * upl)
                         if (!a) {
                             fglog("WARNING: can't find uplink for %s area",
                                   p->area);
-                            return OK;
+                            continue;
                         }
                         tl_appendf(upl, "%s,%s,%s,%s,-%s",
                                    znfp1(&a->uplink),
@@ -2106,7 +2106,7 @@ int cmd_active(Node * node, char *area, Textlist * upl)
                     if (!a) {
                         fglog("WARNING: can't find uplink for %s area",
                               p->area);
-                        return OK;
+                        continue;
                     }
                     tl_appendf(upl, "%s,%s,%s,%s,+%s",
                                znfp1(&a->uplink),
-- 
2.43.0


From a1c881be6cf58bda8385456f4975e91e83e19823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 059/106] fix: ftnafutil expire and unresubscribe crashed on an
 area without uplink

---
 src/areafix/ftnafutil.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/areafix/ftnafutil.c b/src/areafix/ftnafutil.c
index 7df146d..bd9665c 100644
--- a/src/areafix/ftnafutil.c
+++ b/src/areafix/ftnafutil.c
@@ -212,6 +212,8 @@ int do_areasbbs(int cmd)
             break;
 
         case DO_EXPIRE:
+            if (!uplink)
+                break;
             tm = (time(NULL) - p->time) / 86400;
             if ((areasbbs_isstate(state, 'F') ||
                  areasbbs_isstate(state, 'W')) &&
@@ -330,6 +332,8 @@ int do_areasbbs(int cmd)
             break;
 
         case DO_UNRESUBSCRIBE:
+            if (!uplink)
+                break;
             if (!(a = uplinks_line_get(areafix, uplink))) {
                 fglog("no uplinks record found for %s area %s", p->area,
                       znfp1(uplink));
-- 
2.43.0


From dab10865b6de3e11fb4664ae521673dc9824143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 060/106] fix: requests to an uplink were lost next to those of
 one whose address begins alike, or sent in its other messages

---
 src/areafix/areafix.c | 81 ++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 43 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 9420355..45829f3 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -2139,78 +2139,73 @@ void areafix_set_changed(void)
     areasbbs_changed();
 }
 
+/*
+ * Length of the "node,to,from,subject," part of a request
+ */
+static size_t request_header_len(char *line)
+{
+    char *p = line;
+    int i;
+
+    for (i = 0; p && i < 4; i++)
+        if ((p = strchr(p, ',')) != NULL)
+            p++;
+
+    return p ? p - line : 0;
+}
+
 /*
  * Sending subscribe/unsubscribe requests to uplinks
  */
 void send_request(Textlist * upl)
 {
-
-    Textline *tl;
-    Textlist out, send;
-    char links[BUFSIZ];
-    char *link = NULL, *l, *s;
+    Textline *first, *tl;
+    Textlist send;
+    char *header;
+    size_t len;
     Node tmp;
     Message msg = { 0 };
 
-    tl_init(&out);
     tl_init(&send);
 
     pkt_outdir(cf_p_outpkt(), NULL);
-    BUF_COPY(links, "");
-
-    while (1) {
-        for (tl = upl->first; NULL != tl; tl = tl->next) {
-            s = strsave(tl->line);
-            l = xstrtok(s, ",");
-
-            if (l) {
-                if (s) {
-                    if (!link && !strstr(links, l)) {
-                        link = strsave(l);
-                        BUF_APPEND2(links, link, ",");
-                    }
-                    if (link && strcmp(l, link) == 0) {
-                        fglog("request %s", tl->line);
-                        tl_append(&out, tl->line);
-                    }
-                    xfree(s);
-                }
-            }
-        }
 
-        if (!link)
-            break;
+    /* One message for all requests with the same header */
+    for (first = upl->first; first; first = first->next) {
+        if ((len = request_header_len(first->line)) == 0)
+            continue;
+
+        header = strsave(first->line);
+        header[len] = 0;
+
+        fglog("request %s", first->line);
+        tl_appendf(&send, "\r\n%s", first->line + len);
+        for (tl = first->next; tl; tl = tl->next)
+            if (request_header_len(tl->line) == len
+                && !strncmp(tl->line, header, len)) {
+                fglog("request %s", tl->line);
+                tl_append(&send, tl->line + len);
+                *tl->line = 0;  /* done */
+            }
 
-        xfree(link);
-        link = NULL;
-        tl = out.first;
         node_clear(&tmp);
 
         msg.attr = MSG_DIRECT;
         msg.cost = 0;
         msg.date = time(NULL);
         msg.area = NULL;
-        asc_to_node(xstrtok(tl->line, ","), &tmp, FALSE);
+        asc_to_node(xstrtok(header, ","), &tmp, FALSE);
         msg.node_to = tmp;
         BUF_COPY(msg.name_to, xstrtok(NULL, ","));
         BUF_COPY(msg.name_from, xstrtok(NULL, ","));
         BUF_COPY(msg.subject, xstrtok(NULL, ","));
         cf_set_best(tmp.zone, tmp.net, tmp.node);
         msg.node_from = cf_n_addr();
+        xfree(header);
 
-        l = xstrtok(NULL, ",");
-        tl_appendf(&send, "\r\n%s", l);
-
-        tl = tl->next;
-
-        for (; tl != NULL; tl = tl->next) {
-            l = strrchr(tl->line, ',') + 1;
-            tl_append(&send, l);
-        }
         outpkt_netmail(&msg, &send, areafix_name(), NULL, NULL);
 
         tl_clear(&send);
-        tl_clear(&out);
     }
 }
 
-- 
2.43.0


From 4030ecd709746a5a9c2ad21b9d9be71052395875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 061/106] fix: the text of a NEW command reached the shell
 through AutoCreateCmd

---
 src/areafix/areafix.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 45829f3..f4ba489 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -710,6 +710,27 @@ int cmd_new_int(Node * node, char *line, char *dwnl)
     return ret;
 }
 
+/*
+ * Quote a word for the shell
+ */
+static char *shell_quote(char *s)
+{
+    TmpS *t = tmps_alloc(4 * strlen(s) + 3);
+    char *d = t->s;
+
+    *d++ = '\'';
+    for (; *s; s++)
+        if (*s == '\'') {
+            strcpy(d, "'\\''");
+            d += 4;
+        } else
+            *d++ = *s;
+    *d++ = '\'';
+    *d = 0;
+
+    return t->s;
+}
+
 /*
  * New command
  */
@@ -937,12 +958,13 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
         snprintf(buffer, sizeof(buffer), "%s %s %s %s %s %d %s %s %d %s",
 #endif                          /* !FTN_ACL */
                 autocreate_script_cmd,
-                p->area,
+                shell_quote(p->area),
                 znfp1(node),
-                p->state,
+                shell_quote(p->state),
                 znfp1(&p->addr),
                 p->lvl,
-                p->key ? p->key : "NONE", p->desc ? p->desc : "NONE", p->zone,
+                p->key ? shell_quote(p->key) : "NONE",
+                p->desc ? shell_quote(p->desc) : "NONE", p->zone,
 #ifndef FTN_ACL
                 p->flags & AREASBBS_PASSTHRU ? "-#" : "-",
                 p->flags & AREASBBS_READONLY ? "-r" : "-");
-- 
2.43.0


From d0f474f424bf88a85b78b3c89bab86ede7f8b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 062/106] fix: only the first new area of a run was subscribed
 to all of AutoCreateSubscribeNodes

---
 src/areafix/areafix.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index f4ba489..5fda869 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -738,7 +738,7 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
 {
     AreasBBS *p;
     char *name, *o1, *o2, *autocreate_script_cmd;
-    char *s1, *s2;
+    char *s1, *s2, *s3;
 #ifndef ACTIVE_LOOKUP
     Area *autocreate_area;
 #endif                          /* ACTIVE_LOOKUP */
@@ -988,15 +988,16 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
             old.zone = cf_zone();
             old.net = old.node = old.point = -1;
 
-            for (s2 = xstrtok(s1, " \t"); s2 && *s2; s2 = xstrtok(NULL, " \t"))
+            s3 = strsave(s1);   /* xstrtok() spoils it */
+            for (s2 = xstrtok(s3, " \t"); s2 && *s2; s2 = xstrtok(NULL, " \t"))
                 if (OK == asc_to_node_diff(s2, &node, &old)) {
                     old = node;
                     lon_add(&(p->nodes), &node);
                 } else
                     fglog("config: AutoCreateSubscribeFileechoNodes: \
 			    invalid entry \"%s\"", s2);
+            xfree(s3);
         }
-        xfree(s1);
     } else {
         /*
          * Subscribe nodes if needed
@@ -1008,7 +1009,8 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
             old.zone = cf_zone();
             old.net = old.node = old.point = -1;
 
-            for (s2 = xstrtok(s1, " \t"); s2 && *s2; s2 = xstrtok(NULL, " \t"))
+            s3 = strsave(s1);   /* xstrtok() spoils it */
+            for (s2 = xstrtok(s3, " \t"); s2 && *s2; s2 = xstrtok(NULL, " \t"))
                 if (OK == asc_to_node_diff(s2, &node, &old)) {
                     old = node;
                     lon_add(&(p->nodes), &node);
@@ -1016,8 +1018,8 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
                 } else
                     fglog("config: AutoCreateSubscribeNodes: invalid entry \
 			\"%s\"", s2);
+            xfree(s3);
         }
-        xfree(s1);
     }
 #ifndef ACTIVE_LOOKUP
     if (cf_get_string("AutoCreateNG", TRUE)) {
-- 
2.43.0


From bcbd2bfc439495962abfba0129fe4e89303b9581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 063/106] fix: ftnaf's command was overwritten while being
 executed

---
 src/areafix/ftnaf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/areafix/ftnaf.c b/src/areafix/ftnaf.c
index 9508e31..fefaf65 100644
--- a/src/areafix/ftnaf.c
+++ b/src/areafix/ftnaf.c
@@ -209,6 +209,7 @@ int main(int argc, char **argv)
     int ret;
     Textlist req;
     char bbslock[MAXPATH];
+    char *cmd;
 
     int option_index;
     static struct option long_options[] = {
@@ -380,13 +381,15 @@ int main(int argc, char **argv)
                 BUF_APPEND(buffer, " ");
         }
 
-        if (areafix_do_cmd(&node, buffer, NULL, &req) == ERROR)
+        cmd = strsave(buffer);  /* areafix.c uses buffer itself */
+        if (areafix_do_cmd(&node, cmd, NULL, &req) == ERROR)
             ret = EX_DATAERR;
         else
             send_request(&req);
         if (ret == 0 && !n_flag)
             if (areasbbs_rewrite() == ERROR)
                 ret = EX_CANTCREAT;
+        xfree(cmd);
         unlock_path(bbslock);
     }
 
-- 
2.43.0


From bbd22498515c98f6c6bbf2d0acaaf4db0472be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 064/106] fix: rewriting an area with a passive link listed
 twice lost the ones behind it

---
 src/common/node.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/node.c b/src/common/node.c
index 2d00b84..fc3c622 100644
--- a/src/common/node.c
+++ b/src/common/node.c
@@ -612,10 +612,13 @@ int lon_print_passive(LON * lon, FILE * fp)
     node_invalid(&old);
 
     for (node = lon->first; node; node = node->next) {
+        if (node != lon->first) {
+            if (node_eq(&old, &node->node))     /* would be printed empty */
+                continue;
+            fputs(",", fp);
+        }
         fputs(node_to_asc_diff(&(node->node), &old), fp);
         old = node->node;
-        if (node->next)
-            fputs(",", fp);
     }
 
     return ferror(fp);
-- 
2.43.0


From c87a090b598ad5e22a426af587663397f9e76e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 065/106] fix: paused areas without other links did not count
 for the subscription limit

---
 src/areafix/areafix.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 5fda869..7060796 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1520,8 +1520,8 @@ static int sub_count(Node * node)
     int n = 0;
 
     for (p = areasbbs_first(); p; p = p->next)
-        if (p->nodes.size > 1 && (lon_search(&p->nodes, node) ||
-                                  lon_search(&p->passive, node)))
+        if (lon_search(&p->passive, node) ||
+            (p->nodes.size > 1 && lon_search(&p->nodes, node)))
             n++;
 
     return n;
@@ -1627,9 +1627,9 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
                     for (lim_a = 0, n = areasbbs_first(); n; n = n->next) {
                         ln = &n->nodes;
 
-                        if (ln && ln->size > 1 && l->first &&
-                            (lon_search(ln, node)
-                             || lon_search(&n->passive, node))
+                        if (ln && l->first &&
+                            (lon_search(&n->passive, node)
+                             || (ln->size > 1 && lon_search(ln, node)))
                             && lon_search(ln, &l->first->node))
                             lim_a++;
                     }
-- 
2.43.0


From e2c538231ccc7f51f5a4d4a07c74125030f01dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 066/106] fix: finish the renames of an interrupted expire
 before using the history

Killed between the renames, ftnexpire left the new text with the old
index, and every message was taken for a new one.
---
 src/common/histdb.c      | 26 ++++++++++++++++++++++++++
 src/include/prototypes.h |  1 +
 src/toss/ftnexpire.c     |  2 ++
 3 files changed, 29 insertions(+)

diff --git a/src/common/histdb.c b/src/common/histdb.c
index 05b2c0a..2e66736 100644
--- a/src/common/histdb.c
+++ b/src/common/histdb.c
@@ -74,6 +74,31 @@ void hi_init_history(void)
     hi_init(db_name);
 }
 
+/*
+ * Finish what an interrupted ftnexpire has left: with the text in place
+ * (HISTORY.n gone), the index must follow it
+ */
+void hi_recover(char *his_file)
+{
+    static const char *const ext[] = { ".dir", ".pag" };
+    char base[MAXPATH], old[MAXPATH], new[MAXPATH];
+    size_t i;
+
+    BUF_EXPAND(base, his_file);
+    BUF_COPY2(new, base, ".n");
+    if (check_access(new, CHECK_FILE) == TRUE)
+        return;
+    for (i = 0; i < sizeof(ext) / sizeof(ext[0]); i++) {
+        BUF_COPY2(old, base, ext[i]);
+        BUF_COPY3(new, base, ".n", ext[i]);
+        if (check_access(new, CHECK_FILE) == TRUE) {
+            fglog("interrupted expire, renaming %s -> %s", new, old);
+            if (rename(new, old) == ERROR)
+                fglog("$ERROR: rename %s -> %s failed", new, old);
+        }
+    }
+}
+
 /*
  * Initialize MSGID history
  */
@@ -81,6 +106,7 @@ short int hi_init(char *his_file)
 {
     FILE *fp;
 
+    hi_recover(his_file);
     /* Test for history.dir, history.pag */
     BUF_EXPAND(buffer, his_file);
     BUF_APPEND(buffer, ".dir");
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index 9ec776c..9365aa3 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -291,6 +291,7 @@ extern void GetTimeInfo(TIMEINFO *);
 /* histdb.c */
 short int hi_init_dbc(void);
 void hi_init_history(void);
+void hi_recover(char *);
 void hi_init_tic_history(void);
 void hi_close(void);
 short int hi_write_dbc(char *, char *, short int);
diff --git a/src/toss/ftnexpire.c b/src/toss/ftnexpire.c
index d21badc..0ad347d 100644
--- a/src/toss/ftnexpire.c
+++ b/src/toss/ftnexpire.c
@@ -119,6 +119,8 @@ int do_expire(int type)
     debug(4, "expire: now=%ld max=%ld, expire < %ld",
           (long)now_sec, (long)max_sec, (long)exp_sec);
 
+    hi_recover(history);
+
     /* Open old history for reading */
     if ((hi_o = fopen(history, R_MODE)) == NULL) {
         fglog("$ERROR: open MSGID history %s failed", history);
-- 
2.43.0


From efe5b9dcc07a161804a9ca30b4ee7867e3458a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 067/106] fix: ftnexpire keeps the old history if the new one
 cannot be written

---
 src/toss/ftnexpire.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/toss/ftnexpire.c b/src/toss/ftnexpire.c
index 0ad347d..f444b98 100644
--- a/src/toss/ftnexpire.c
+++ b/src/toss/ftnexpire.c
@@ -74,7 +74,7 @@ int do_expire(int type)
 {
     FILE *hi_o, *hi_n, *fp;
     TIMEINFO ti;
-
+    int ret = OK;
     /* Filenames */
     if (type == 1) {
         BUF_EXPAND(history, cf_p_dbc_history());
@@ -160,17 +160,27 @@ int do_expire(int type)
     }
 
     /* Process entries */
-    while (fgets(buffer, sizeof(buffer), hi_o)) {
-        do_line(hi_n, buffer, type);
+    while (ret == OK && fgets(buffer, sizeof(buffer), hi_o)) {
+        ret = do_line(hi_n, buffer, type);
     }
+    if (ferror(hi_o))
+        ret = ERROR;
 
     /* Close everything */
-    /**FIXME: error checking**/
     fclose(hi_o);
-    fclose(hi_n);
-    dbzsync();
-    dbmclose();
-
+    if (fclose(hi_n) == ERROR)
+        ret = ERROR;
+    if (dbzsync() < 0)
+        ret = ERROR;
+    if (dbmclose() < 0)
+        ret = ERROR;
+    if (ret == ERROR) {
+        fglog("$ERROR: can't expire MSGID history %s", history);
+        unlink(history_n_pag);
+        unlink(history_n_dir);
+        unlink(history_n);
+        return ERROR;
+    }
     /* Rename */
     if (rename(history_n, history) == ERROR) {
         fglog("$ERROR: rename %s -> %s failed", history_n, history);
@@ -212,7 +222,7 @@ int do_line(FILE * hi_n, char *line, int type)
         if (!msgid || !p || !rfc_msgid) {
             fglog("$WARNING: illegal entry in %s, line %ld", history,
                   history_line);
-            return ERROR;
+            return OK;
         }
     }
 
@@ -222,7 +232,7 @@ int do_line(FILE * hi_n, char *line, int type)
         if (!msgid || !p) {
             fglog("$WARNING: illegal entry in %s, line %ld", history,
                   history_line);
-            return ERROR;
+            return OK;
         }
     }
 
-- 
2.43.0


From e6e45961b98af61a5bf54ab9d0f1a9735b0672e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 068/106] fix: don't publish packets that could not be written
 completely

A write error left a cut off packet under its final name, while the
input had been removed already.
---
 src/common/outpkt.c      | 66 ++++++++++++++++++++++++++++++++--------
 src/include/prototypes.h |  3 +-
 src/toss/ftnroute.c      |  6 +++-
 src/toss/ftntoss.c       |  9 +++---
 4 files changed, 65 insertions(+), 19 deletions(-)

diff --git a/src/common/outpkt.c b/src/common/outpkt.c
index 7641bb6..0cb0826 100644
--- a/src/common/outpkt.c
+++ b/src/common/outpkt.c
@@ -45,6 +45,7 @@ typedef struct st_outpkt {
     char bad;                   /* TRUE=bad packet, FALSE=normal packet */
     FILE *fp;                   /* FILE pointer, if opened */
     long n;                     /* Number of messages written to packet */
+    char err;                   /* TRUE=not everything could be written */
 
     struct st_outpkt *next;
 } OutPkt;
@@ -81,6 +82,7 @@ OutPkt *outpkt_new(Node * from, Node * to)
     p->bad = FALSE;
     p->fp = NULL;
     p->n = 1;
+    p->err = FALSE;
     p->next = NULL;
 
     /* Put into linked list */
@@ -168,8 +170,12 @@ static int outpkt_close_ln(void)
     /* Close it */
     if (pmin) {
         debug(3, "Close %s", pmin->tmpname);
+        if (ferror(pmin->fp))
+            ret = ERROR;
         if (fclose(pmin->fp) == ERROR)
             ret = ERROR;
+        if (ret == ERROR)
+            pmin->err = TRUE;
         outpkt_nopen--;
         pmin->fp = NULL;
     } else
@@ -221,6 +227,8 @@ FILE *outpkt_open(Node * from, Node * to,
         if (node_eq(from, &p->from) && node_eq(to, &p->to) &&
             flav == p->flav && type == p->type && grade == p->grade
             && bad == p->bad) {
+            if (p->err)
+                return NULL;
             p->n++;
             /* If file exists, but isn't currently opened, reopen it */
             if (!p->fp)
@@ -238,6 +246,7 @@ FILE *outpkt_open(Node * from, Node * to,
     p->fp = outpkt_fopen(p->tmpname, W_MODE);
     if (p->fp == NULL) {
         fglog("$failed to open packet %s", p->tmpname);
+        p->err = TRUE;
         return NULL;
     }
 
@@ -255,7 +264,9 @@ FILE *outpkt_open(Node * from, Node * to,
     if (pkt_put_hdr(p->fp, &pkt) == ERROR) {
         fglog("$Can't write to packet file %s", p->tmpname);
         fclose(p->fp);
+        outpkt_nopen--;
         p->fp = NULL;
+        p->err = TRUE;
         return NULL;
     }
 
@@ -264,34 +275,63 @@ FILE *outpkt_open(Node * from, Node * to,
 }
 
 /*
- * Close all output packets
+ * Write out everything buffered so far, before the input is removed
  */
-void outpkt_close(void)
+int outpkt_flush(void)
 {
-    OutPkt *p, *pn;
+    OutPkt *p;
+    int ret = OK;
+
+    for (p = outpkt_first; p; p = p->next) {
+        if (p->fp && (fflush(p->fp) == ERROR || ferror(p->fp)))
+            p->err = TRUE;
+        if (p->err)
+            ret = ERROR;
+    }
+
+    return ret;
+}
 
+/*
+ * Close all output packets. A packet which could not be written
+ * completely keeps its temporary name, ERROR is returned.
+ */
+int outpkt_close(void)
+{
+    OutPkt *p, *pn;
+    int ret = OK;
     for (p = outpkt_first; p;) {
         pn = p->next;
 
         /* Reopen, if already closed */
-        if (!p->fp)
+        if (!p->fp && !p->err)
             p->fp = outpkt_fopen(p->tmpname, A_MODE);
 
         if (p->fp) {
             /* Terminating 0-word */
             pkt_put_int16(p->fp, 0);
             debug(3, "Close %s", p->tmpname);
+            if (ferror(p->fp))
+                p->err = TRUE;
             if (fclose(p->fp) == ERROR)
-                debug(3, "Close failed");
+                p->err = TRUE;
 
             outpkt_nopen--;
+        } else
+            p->err = TRUE;
 
+        if (p->err) {
+            fglog("$ERROR: can't write packet %s", p->tmpname);
+            ret = ERROR;
+        } else {
             /* Rename */
             debug(3, "Rename %s -> %s", p->tmpname, p->outname);
-            if (rename(p->tmpname, p->outname) == ERROR)
-                debug(3, "Rename failed");
+            if (rename(p->tmpname, p->outname) == ERROR) {
+                fglog("$ERROR: rename %s -> %s failed", p->tmpname,
+                      p->outname);
+                ret = ERROR;
+            }
         }
-
         /* Delete OutPkt entry */
         xfree(p->tmpname);
         xfree(p->outname);
@@ -304,7 +344,7 @@ void outpkt_close(void)
     outpkt_last = NULL;
     outpkt_nopen = 0;           /* Just to be sure ... */
 
-    return;
+    return ret;
 }
 
 /*
@@ -323,8 +363,10 @@ int outpkt_netmail(Message * msg, Textlist * tl, char *program, char *origin,
 
     /* Open outpkt packet */
     fp = outpkt_open(&msg->node_from, &msg->node_to, '0', '0', '0', FALSE);
-    if (!fp)
+    if (!fp) {
+        outpkt_close();
         return ERROR;
+    }
 
     /* Write message header */
     pkt_put_msg_hdr(fp, msg, TRUE);
@@ -354,7 +396,5 @@ int outpkt_netmail(Message * msg, Textlist * tl, char *program, char *origin,
     /* Terminating 0-byte */
     putc(0, fp);
 
-    outpkt_close();
-
-    return OK;
+    return outpkt_close();
 }
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index 9365aa3..0fe8854 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -498,7 +498,8 @@ char *outpkt_outputname(char *, char *, int, int, int, long, char *);
 long outpkt_sequencer(void);
 void outpkt_set_maxopen(int);
 FILE *outpkt_open(Node *, Node *, int, int, int, int);
-void outpkt_close(void);
+int outpkt_flush(void);
+int outpkt_close(void);
 int outpkt_netmail(Message *, Textlist *, char *, char *, char *);
 void send_request(Textlist *);
 
diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index fb390c3..d273623 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -683,6 +683,9 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
         TMPS_RETURN(severe_error = ERROR);
     }
 
+    if (ret == OK && outpkt_flush() == ERROR)
+        ret = ERROR;
+
     if (ret == OK && *pkt_name != '\0')
         if (unlink(pkt_name)) {
             fglog("$ERROR: can't unlink packet %s", pkt_name);
@@ -1098,7 +1101,8 @@ int main(int argc, char **argv)
             unlock_program(PROGRAM);
     }
 
-    outpkt_close();
+    if (outpkt_close() == ERROR)
+        ret = EXIT_ERROR;
 
     if (p_flag) {
         BUF_COPY4(buffer, cf_p_libexecdir(), "/ftnpack -I ", cf_p_spooldir(),
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 3e6e45d..45d7aca 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -1714,8 +1714,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
         if (maxmsg && msg_count >= maxmsg) {
             if (x_flag)
                 must_exit = TRUE;
-            else
-                outpkt_close();
+            else if (outpkt_close() == ERROR)
+                TMPS_RETURN(severe_error = ERROR);
             msg_count = 0;
         }
 
@@ -1766,7 +1766,7 @@ int unpack_file(char *pkt_name)
     pkts_in++;
     pkts_bytes += pkt_size;
 
-    if (unpack(pkt_file, &pkt) == ERROR) {
+    if (unpack(pkt_file, &pkt) == ERROR || outpkt_flush() == ERROR) {
         fglog("ERROR: processing %s", pkt_name);
         fclose(pkt_file);
         rename_bad(pkt_name);
@@ -2258,7 +2258,8 @@ int main(int argc, char **argv)
             unlock_program(PROGRAM);
     }
 
-    outpkt_close();
+    if (outpkt_close() == ERROR)
+        c = EXIT_ERROR;
 
     /* Stop time */
     toss_delta = time(NULL) - toss_start;
-- 
2.43.0


From 726a31eaf1ae6237f670aaa6cf818d296029e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 069/106] fix: write errors of single packets: keep the
 temporary name, report them, put back OUT packets

---
 src/common/packet.c | 36 ++++++++++++++++++++++++++++++------
 src/gate/rfc2ftn.c  |  6 ++++--
 src/toss/ftn2ftn.c  |  7 +++----
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/common/packet.c b/src/common/packet.c
index bc6740f..c263475 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -42,7 +42,7 @@ static FILE *packet_file = NULL;
 static Node packet_node = { -1, -1, -1, -1, "" };
 
 static int packet_bsy = FALSE;
-
+static long packet_pos = 0;     /* Size of OUT packet when opened */
 static char *pkt_newname(char *);
 static FILE *pkt_open_node(Node *, char *, int);
 static FILE *pkt_create(Node *);
@@ -294,7 +294,7 @@ static FILE *pkt_open_node(Node * node, char *flav, int bsy)
 
     packet_file = fp;
     packet_node = *node;
-
+    packet_pos = pos;
     return fp;
 }
 
@@ -365,7 +365,25 @@ FILE *pkt_open(char *name, Node * node, char *flav, int bsy)
 }
 
 /*
- * Write end of packet to packet file, close and rename it.
+ * Put OUT packet back to what it was before it was opened
+ */
+static void pkt_restore(void)
+{
+    FILE *fp;
+
+    fp = fopen(packet_name, RP_MODE);
+    if (fp == NULL)
+        return;
+    if (ftruncate(fileno(fp), packet_pos) == 0 && packet_pos > 0) {
+        fseek(fp, packet_pos - 2, SEEK_SET);
+        pkt_put_int16(fp, 0);
+    }
+    fclose(fp);
+}
+
+/*
+ * Write end of packet to packet file, close and rename it. A packet
+ * which could not be written completely keeps its temporary name.
  */
 int pkt_close(void)
 {
@@ -374,11 +392,17 @@ int pkt_close(void)
     if (packet_file) {
         /* End of packet */
         pkt_put_int16(packet_file, 0);
-        ret = fclose(packet_file);
+        if (ferror(packet_file))
+            ret = ERROR;
+        if (fclose(packet_file) == ERROR)
+            ret = ERROR;
+        if (ret == ERROR)
+            fglog("$ERROR: can't write packet %s", packet_tmp);
 
         packet_file = NULL;
-
         if (packet_node.zone != -1) {
+            if (ret == ERROR)
+                pkt_restore();
             if (packet_bsy)
                 bink_bsy_delete(&packet_node);
             packet_bsy = FALSE;
@@ -386,7 +410,7 @@ int pkt_close(void)
         }
 
         /* Rename .tmp -> .pkt, if not the same name */
-        if (strcmp(packet_tmp, packet_name))
+        if (ret == OK && strcmp(packet_tmp, packet_name))
             if (rename(packet_tmp, packet_name) == ERROR) {
                 fglog("$ERROR: can't rename %s to %s", packet_tmp, packet_name);
                 ret = ERROR;
diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 203fac9..98c385c 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -937,7 +937,8 @@ static int snd_message(Message * msg, Area * parea,
     if (pkt_isopen()
         && (single_pkts || (!o_flag && cf_zone() != last_zone)
             || (maxmsg && nmsg >= maxmsg))) {
-        pkt_close();
+        if (pkt_close() != OK)
+            return EX_CANTCREAT;
         nmsg = 0;
     }
     if (!pkt_isopen()) {
@@ -2420,7 +2421,8 @@ int main(int argc, char **argv)
             break;
     }
 
-    pkt_close();
+    if (pkt_close() != OK && status == EX_OK)
+        status = EX_CANTCREAT;
     if (f_flag) {
         debug(3, "Removing list file %s", f_flag);
         fclose(fp);
diff --git a/src/toss/ftn2ftn.c b/src/toss/ftn2ftn.c
index c7cff90..81bf8cb 100644
--- a/src/toss/ftn2ftn.c
+++ b/src/toss/ftn2ftn.c
@@ -138,7 +138,8 @@ int do_message(Node * gate, Message * msg, MsgBody * body)
      * Write this message to the output packet
      */
     if (!o_flag && cf_zone() != last_zone)
-        pkt_close();
+        if (pkt_close() != OK)
+            return ERROR;
     if (!pkt_isopen())
         if ((fp = pkt_open(o_flag, NULL, NULL, FALSE)) == NULL)
             return ERROR;
@@ -186,9 +187,7 @@ int unpack(Node * gate, FILE * pkt_file, Packet * pkt)
     }
 
     /* Close packet */
-    pkt_close();
-
-    TMPS_RETURN(OK);
+    TMPS_RETURN(pkt_close());
 }
 
 /*
-- 
2.43.0


From 630cf2899c58e5e03734f6e5f40015d004032f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 070/106] fix: ftnpack dirmove wrote under the final name of
 the packet

---
 src/toss/ftnpack.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index 8b78cf0..10972ff 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -608,20 +608,18 @@ int do_noarc(char *name, Node * flonode,
     char tmp_name[MAXPATH];
 
     /*
-     * Never write over the packet being read
+     * Never write over the packet being read, and don't let anybody see
+     * an incomplete one
      */
     tmp_name[0] = '\0';
-    if (out_name && streq(out_name, name)) {
-        BUF_COPY2(tmp_name, name, ".tmp");
-        out_name = tmp_name;
-    }
-
+    if (out_name)
+        BUF_COPY2(tmp_name, out_name, ".tmp");
     /*
      * Open .OUT packet in Binkley outbound
      */
     cf_set_best(desc->to.zone, desc->to.net, desc->to.node);
 
-    fp = out_name ? pkt_open(out_name, &desc->to, NULL, FALSE)
+    fp = out_name ? pkt_open(tmp_name, &desc->to, NULL, FALSE)
         : pkt_open(NULL, &desc->to, flav_to_asc(desc->flav), FALSE);
     if (fp == NULL) {
         fglog("ERROR: can't open outbound packet for %s", znfp1(&desc->to));
@@ -728,12 +726,11 @@ int do_noarc(char *name, Node * flonode,
         fglog("$ERROR: can't close outbound packet");
         TMPS_RETURN(ERROR);
     }
-    if (tmp_name[0]) {
-        if (rename(tmp_name, name) != OK) {
-            fglog("$ERROR: rename %s -> %s failed", tmp_name, name);
-            TMPS_RETURN(ERROR);
-        }
-    } else if (unlink(name) != OK) {
+    if (out_name && rename(tmp_name, out_name) != OK) {
+        fglog("$ERROR: rename %s -> %s failed", tmp_name, out_name);
+        TMPS_RETURN(ERROR);
+    }
+    if ((!out_name || !streq(out_name, name)) && unlink(name) != OK) {
         fglog("$ERROR: can't remove packet %s", name);
         TMPS_RETURN(ERROR);
     }
-- 
2.43.0


From 0519e706ae926e7480e4edbb2ebac325032fc262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 071/106] fix: new packets wrote over others when the sequence
 wrapped or started again

---
 src/common/outpkt.c | 22 ++++++++++++----------
 src/common/packet.c | 16 +++++++++++-----
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/common/outpkt.c b/src/common/outpkt.c
index 0cb0826..2ce256c 100644
--- a/src/common/outpkt.c
+++ b/src/common/outpkt.c
@@ -120,7 +120,8 @@ long outpkt_sequencer(void)
  */
 void outpkt_names(OutPkt * p, int grade, int type, int flav, int bad)
 {
-    long n = outpkt_sequencer();
+    char *dir = bad ? pkt_get_baddir() : pkt_get_outdir();
+    long n;
 
     /* Set fields */
     p->flav = flav;
@@ -128,15 +129,16 @@ void outpkt_names(OutPkt * p, int grade, int type, int flav, int bad)
     p->grade = grade;
     p->bad = bad;
 
-    /* Names */
-    outpkt_outputname(buffer,
-                      bad ? pkt_get_baddir() : pkt_get_outdir(),
-                      grade, type, flav, n, "pkt");
-    p->outname = strsave(buffer);
-    outpkt_outputname(buffer,
-                      bad ? pkt_get_baddir() : pkt_get_outdir(),
-                      grade, type, flav, n, "tmp");
-    p->tmpname = strsave(buffer);
+    /* Names, the sequence wraps: never write over another packet */
+    do {
+        xfree(p->outname);
+        xfree(p->tmpname);
+        n = outpkt_sequencer();
+        outpkt_outputname(buffer, dir, grade, type, flav, n, "pkt");
+        p->outname = strsave(buffer);
+        outpkt_outputname(buffer, dir, grade, type, flav, n, "tmp");
+        p->tmpname = strsave(buffer);
+    } while (access(p->outname, F_OK) == 0 || access(p->tmpname, F_OK) == 0);
 }
 
 /*
diff --git a/src/common/packet.c b/src/common/packet.c
index c263475..af35693 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -113,11 +113,17 @@ static char *pkt_newname(char *name)
         BUF_COPY(packet_name, name);
         BUF_COPY(packet_tmp, name);
     } else {
-        long n = sequencer(cf_p_seq_pkt());
-        str_printf(packet_name, sizeof(packet_name),
-                   "%s/%08ld.pkt", packet_dir, n);
-        str_printf(packet_tmp, sizeof(packet_tmp),
-                   "%s/%08ld.tmp", packet_dir, n);
+        long n;
+
+        /* Never write over another packet, wherever the sequence starts */
+        do {
+            n = sequencer(cf_p_seq_pkt());
+            str_printf(packet_name, sizeof(packet_name),
+                       "%s/%08ld.pkt", packet_dir, n);
+            str_printf(packet_tmp, sizeof(packet_tmp),
+                       "%s/%08ld.tmp", packet_dir, n);
+        } while (access(packet_name, F_OK) == 0
+                 || access(packet_tmp, F_OK) == 0);
     }
 
     return packet_name;
-- 
2.43.0


From 48f31d2a35bbfa27d71c170ae0872b7918692767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 072/106] fix: ftnoutpkt: report messages that could not be
 written

---
 src/util/ftnoutpkt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/ftnoutpkt.c b/src/util/ftnoutpkt.c
index ceac0a5..df5c090 100644
--- a/src/util/ftnoutpkt.c
+++ b/src/util/ftnoutpkt.c
@@ -114,6 +114,7 @@ int main(int argc, char **argv)
     char *cs_in = NULL, *cs_out = NULL, *p;
     char *o_flag = NULL;
     char *t_flag = NULL;
+    int ret = EXIT_OK;
 
     FTNAddr to, from;
     Textlist tl;
@@ -254,9 +255,10 @@ int main(int argc, char **argv)
             while ('\0' != *tmp)
                 toupper(*(tmp++));
         }
-        do_addr(&from, &to, s_flag, &tl, A_flag, o_flag, t_flag);
+        if (do_addr(&from, &to, s_flag, &tl, A_flag, o_flag, t_flag) == ERROR)
+            ret = EXIT_ERROR;
     }
 
     exit_free();
-    return 0;
+    return ret;
 }
-- 
2.43.0


From 7e2549895015542a74685bf2960db2eb966c4ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 073/106] fix: write forwarded TICs with the announced Replaces
 and LDesc, and notice errors

---
 src/common/tick.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/common/tick.c b/src/common/tick.c
index f928166..4a39eaa 100644
--- a/src/common/tick.c
+++ b/src/common/tick.c
@@ -94,15 +94,18 @@ int tick_put(Tick * tic, char *name, mode_t mode)
     FILE *fp;
     LNode *p;
     Textline *pl;
+    int fd, err;
 
-    if (!creat(name, mode)) {
+    if ((fd = creat(name, mode)) == -1) {
         fglog("ERROR: can't create file %s (%s)", name, strerror(errno));
         return ERROR;
     }
 
-    if ((fp = fopen(name, W_MODE)) == NULL)
+    if ((fp = fdopen(fd, W_MODE)) == NULL) {
+        close(fd);
+        unlink(name);
         return ERROR;
-
+    }
 //    if(chmod(name, mode) == -1)
 //  fglog("WARNING: can't change mode for file %s (%s)", name, strerror(errno));
 
@@ -111,12 +114,13 @@ int tick_put(Tick * tic, char *name, mode_t mode)
     fprintf(fp, "From %s\r\n", znf1(&tic->from));
     fprintf(fp, "File %s\r\n", tic->file);
     if (tic->replaces)
-        fprintf(fp, "Replaces %s\r\n", tic->file);
+        fprintf(fp, "Replaces %s\r\n", tic->replaces);
     fprintf(fp, "Desc %s\r\n", tic->desc.first ? tic->desc.first->line : "");
-    if (tic->ldesc.first)
-        fprintf(fp, "LDesc %s\r\n", tic->desc.first->line);
+    for (pl = tic->ldesc.first; pl; pl = pl->next)
+        fprintf(fp, "LDesc %s\r\n", pl->line);
     fprintf(fp, "CRC %08lX\r\n", tic->crc);
-    fprintf(fp, "Created %s\r\n", tic->created);
+    if (tic->created)
+        fprintf(fp, "Created %s\r\n", tic->created);
     fprintf(fp, "Size %lu\r\n", tic->size);
     fprintf(fp, "Date %ld\r\n", (long)tic->date);
     for (pl = tic->path.first; pl; pl = pl->next)
@@ -125,7 +129,13 @@ int tick_put(Tick * tic, char *name, mode_t mode)
         fprintf(fp, "Seenby %s\r\n", znf1(&p->node));
     fprintf(fp, "Pw %s\r\n", tic->pw);
 
-    return fclose(fp);
+    err = ferror(fp);
+    if (fclose(fp) == EOF || err) {
+        unlink(name);
+        return ERROR;
+    }
+
+    return OK;
 }
 
 /*
-- 
2.43.0


From 0dc72932fd0c23b325555cf38115fb188d782a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 074/106] fix: tick: never copy a file onto a link to itself or
 into files waiting in boxes

---
 src/common/tick.c  | 13 +++++++++++--
 src/tick/ftntick.c |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/common/tick.c b/src/common/tick.c
index 4a39eaa..cb3089c 100644
--- a/src/common/tick.c
+++ b/src/common/tick.c
@@ -377,7 +377,10 @@ int tick_send(Tick * tic, Node * node, char *name, mode_t mode)
         if (errlvl == -1) {
             /* diffirent partition */
             if (errno == EXDEV) {
-                copy_file(name, buffer, "dir fault!");
+                if (copy_file(name, buffer, "dir fault!") == ERROR) {
+                    fglog("$ERROR: can't copy %s -> %s", name, buffer);
+                    return ERROR;
+                }
             }
             /* file exist */
             else if (errno == EEXIST) {
@@ -494,6 +497,8 @@ int copy_file(char *old, char *new, char *dir)
     if ((fold = fopen(old, R_MODE)) == NULL) {
         return ERROR;
     }
+    /* An old file may be linked from elsewhere, so do not write into it */
+    unlink(new);
     if ((fnew = fopen(new, W_MODE)) == NULL) {
         if (errno == ENOENT) {
             mkdir_r(dir, DIR_MODE);
@@ -528,7 +533,11 @@ int copy_file(char *old, char *new, char *dir)
 
     /* Close */
     fclose(fold);
-    fclose(fnew);
+    if (fclose(fnew) == EOF) {
+        fglog("$ERROR: can't write to %s", new);
+        unlink(new);
+        return ERROR;
+    }
 
     return OK;
 }
diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index c1de2d9..b740ac2 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -597,6 +597,8 @@ int process_tic(Tick * tic)
             return ERROR;
         }
         BUF_COPY3(new_name, pass_path, "/", tic->file);
+        /* May be left over from an interrupted run */
+        unlink(new_name);
         if ((errlvl = link(old_name, new_name)) == -1) {
             debug(9, "can't link %s -> %s %s", old_name, new_name,
                   strerror(errno));
-- 
2.43.0


From 131a4f2096f27d7ff0154090b5dfbf0b2beea47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 075/106] fix: do not overwrite a TIC still waiting for the
 mailer

---
 src/common/tick.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/tick.c b/src/common/tick.c
index cb3089c..29e963d 100644
--- a/src/common/tick.c
+++ b/src/common/tick.c
@@ -314,6 +314,7 @@ int tick_send(Tick * tic, Node * node, char *name, mode_t mode)
     char *flav;
     Routing *r;
     LNode *p;
+    size_t len;
 #ifdef FECHO_PASSTHROUGHT
     int errlvl;
 #endif
@@ -449,8 +450,11 @@ int tick_send(Tick * tic, Node * node, char *name, mode_t mode)
     /*
      * Create TIC
      */
-    str_printf(buffer + strlen(buffer), sizeof(buffer) - strlen(buffer),
-               "/tk%06ld.tic", sequencer(cf_p_seq_tick()) % 1000000);
+    len = strlen(buffer);
+    do {                        /* skip TICs still waiting for the mailer */
+        str_printf(buffer + len, sizeof(buffer) - len,
+                   "/tk%06ld.tic", sequencer(cf_p_seq_tick()) % 1000000);
+    } while (access(buffer, F_OK) == 0);
     debug(4, "creating %s", buffer);
     if (tick_put(tic, buffer, mode) == ERROR) {
         fglog("ERROR: tick_put() return -1");
-- 
2.43.0


From 7f1a870e96ad757dbd883ab3ea0e71e462415a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 076/106] fix: forwarded TICs carry the TIC password when
 EnableTickPassword is set

---
 src/common/tick.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/tick.c b/src/common/tick.c
index 29e963d..0208e65 100644
--- a/src/common/tick.c
+++ b/src/common/tick.c
@@ -32,7 +32,7 @@
 #include "fidogate.h"
 
 #define MY_CONTEXT	"ff"
-
+#define MY_CONTEXT_TIC	"tic"   /* EnableTickPassword */
 /*
  * Init Tick struct
  */
@@ -417,7 +417,8 @@ int tick_send(Tick * tic, Node * node, char *name, mode_t mode)
     /*
      * Get password
      */
-    if ((pwd = passwd_lookup(MY_CONTEXT, node)))
+    if ((pwd = passwd_lookup(cf_get_string("EnableTickPassword", TRUE)
+                             ? MY_CONTEXT_TIC : MY_CONTEXT, node)))
         pw = pwd->passwd;
     debug(4, "passwd: %s", pwd ? pwd->passwd : "-NONE-");
 
-- 
2.43.0


From 5b299e22945f2c29c51f65f1b85e1c5b31107d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 077/106] fix: ftntick: AutoCreateFileechoDontCheckPassword had
 no effect

---
 src/tick/ftntick.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index b740ac2..73bbbef 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -349,7 +349,8 @@ int process_tic(Tick * tic)
                     return ERROR;
 
             areafix_init(my_context);
-            areafix_auth_check(&tic->from, tic->pw, TRUE);
+            /* The password has been checked above, if it has to be */
+            areafix_auth_check(&tic->from, NULL, FALSE);
 
             if (!authorized_new) {
                 fglog
-- 
2.43.0


From 52bae6f118629fe7ea5ac95418690a782cd88584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 078/106] fix: ftntick: a TIC without file does not stop the
 run or get processed when TickWaitAction is not set

---
 src/tick/ftntick.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 73bbbef..9559dfa 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -190,10 +190,9 @@ int do_tic(int w_flag)
             }
             now = time(NULL);
             if (stat(name, &st) == ERROR) {
-                fglog("$ERROR: can't stat() file %s", buf);
-                return EXIT_ERROR;
+                fglog("$ERROR: can't stat() file %s", name);
+                goto no_action;
             }
-
             debug(4, "file: name=%s time=%ld now=%ld wait=%d",
                   tic.file, (long)st.st_mtime, (long)now,
                   tic_wait ? tic_wait * 3600 : tic_wait);
@@ -202,19 +201,15 @@ int do_tic(int w_flag)
                 goto no_action;
             else {
                 p = cf_get_string("TickWaitAction", TRUE);
-                if (p == NULL) {
-                    fglog("config: TickWaitAction not defined");
-                    return EXIT_ERROR;
-                }
-                if (strcmp(p, "bad") == 0) {
-                    debug(4, "rename to bad tic %s", name);
-                    goto rename_to_bad;
-                }
-                if (strcmp(p, "delete") == 0) {
+                if (p && strcmp(p, "delete") == 0) {
                     debug(4, "delete tic %s", name);
                     unlink(name);
                     continue;
                 }
+                if (p == NULL || strcmp(p, "bad") != 0)
+                    fglog("config: TickWaitAction not defined or unknown");
+                debug(4, "rename to bad tic %s", name);
+                goto rename_to_bad;
             }
         } else if (check_file(&tic) == ERROR)
             goto rename_to_bad;
-- 
2.43.0


From ebff8cf412d5c260afc3e1c295523cbf4b8325b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 079/106] fix: ftntick: Replaces names a file in the area's
 directory only

---
 src/tick/ftntick.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 9559dfa..936fad2 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -311,9 +311,6 @@ int process_tic(Tick * tic)
     int is_unknown = FALSE;
     Node from_node;
 
-#ifdef FECHO_PASSTHROUGHT
-    char full_farea_dir[MAXPATH];
-#endif                          /* FECHO_PASSTHROUGHT */
     char *tmp = NULL;
     short create_flag = FALSE;
     char *s1;
@@ -436,14 +433,14 @@ int process_tic(Tick * tic)
         /*
          * Replaces: move or delete old file
          */
-        if (tic->replaces && !cf_get_string("TickReplacedIgnore", TRUE)) {
+        if (tic->replaces && strchr(tic->replaces, '/'))
+            fglog("WARNING: %s: Replaces %s is no file name, ignored",
+                  name, tic->replaces);
+        else if (tic->replaces && !cf_get_string("TickReplacedIgnore", TRUE)) {
             char *xrdir = cf_get_string("TickReplacedDir", TRUE);
 
 #ifdef FECHO_PASSTHROUGHT
-            if (create_flag == TRUE)
-                BUF_COPY3(old_name, full_farea_dir, "/", tic->replaces);
-            else
-                BUF_COPY3(old_name, bbs->dir, "/", tic->replaces);
+            BUF_COPY3(old_name, bbs->dir, "/", tic->replaces);
             if (check_access(old_name, CHECK_FILE) == TRUE &&
                 !(bbs->flags & AREASBBS_PASSTHRU))
 #else
-- 
2.43.0


From 79d79cb7ebf511d2c639aae9a8e902a881274765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 080/106] fix: ftntick: do not take words of the area's name
 for options of the new area

---
 src/tick/ftntick.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 936fad2..28ab3f1 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -334,6 +334,11 @@ int process_tic(Tick * tic)
             fglog("unknown area %s, using %s instead",
                   tic->area, unknown_tick_area);
         } else {
+            /* The name is followed by options below */
+            if (!*tic->area || strpbrk(tic->area, " \t")) {
+                fglog("filearea \"%s\" has no name to create", tic->area);
+                return ERROR;
+            }
             if (!check_pass(tic, FALSE))
                 return ERROR;
             if (autocreate_check_pass)
-- 
2.43.0


From a4384708610c74f375838bb9f5943d8bee35dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 081/106] fix: ftntick: keep the incoming file until it is
 stored, sent and recorded

---
 src/tick/ftntick.c | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 28ab3f1..f0d656b 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -148,6 +148,18 @@ static int ftntick_write_history(Tick *tic, int w_flag, char *bbslock)
     return ret;
 }
 
+/*
+ * The file is removed from the inbound only when all is done
+ */
+static void ftntick_remove_file(Tick *tic)
+{
+    char buf[MAXPATH];
+
+    BUF_COPY3(buf, in_dir, "/", tic->file);
+    if (unlink(buf) == ERROR && errno != ENOENT)
+        fglog("$ERROR: can't remove %s", buf);
+}
+
 /*
  * Processs *.tic files in Binkley inbound directory
  */
@@ -262,6 +274,7 @@ int do_tic(int w_flag)
             rename(name, buf);
             fglog("%s: renamed to %s", name, buf);
         } else {
+            areasbbs_rewrite();
 /*
  * Write history information to database
  */
@@ -272,8 +285,8 @@ int do_tic(int w_flag)
                 }
             }
 
-            areasbbs_rewrite();
             unlock_path(bbslock);
+            ftntick_remove_file(&tic);
             /* Run -x script, if any */
             if (exec_script) {
                 int ret;
@@ -584,7 +597,6 @@ int process_tic(Tick * tic)
                     ("uplink entry for area %s(%s) not found, unsubscribe failed",
                      tic->area, znfp1(&from_node));
 
-            unlink(old_name);
             fglog("delete %s", old_name);
             areasbbs_not_changed();
             return OK;
@@ -619,15 +631,12 @@ int process_tic(Tick * tic)
             {
                 fglog("ERROR: send area %s file %s to %s failed",
                       tic->area, tic->file, znfp1(&p->node));
+                unlink(new_name);
                 return ERROR;
             }
         }
         debug(9, "unlink %s", new_name);
         unlink(new_name);
-        if (bbs->flags & AREASBBS_PASSTHRU) {
-            debug(9, "unlink %s", old_name);
-            unlink(old_name);
-        }
         /*
          * TickFileAction
          */
@@ -647,7 +656,7 @@ int process_tic(Tick * tic)
                 wild_file = xstrtok(NULL, " \t");
                 tick_action = xstrtok(NULL, "\n");
                 if (wildmatch(tic->file, wild_file, TRUE)) {
-                    sprintf(buffer, tick_action, new_name);
+                    sprintf(buffer, tick_action, old_name);
                     debug(8, "exec: %s", buffer);
                     ret = run_system(buffer);
                     if (ret)
@@ -660,10 +669,6 @@ int process_tic(Tick * tic)
             }
             xfree(str_save);
         }
-#ifdef FECHO_PASSTHROUGHT
-        if (bbs->flags & AREASBBS_PASSTHRU)
-            unlink(new_name);
-#endif                          /* FECHO_PASSTHROUGHT */
     }
 
     return OK;
@@ -721,7 +726,7 @@ short check_pass(Tick * tic, short mode)
 }
 
 /*
- * Move file (copy then unlink)
+ * Copy file (it is removed from the inbound at the end)
  */
 int move(Tick * tic, char *old, char *new, char *dir)
 {
@@ -746,12 +751,6 @@ int move(Tick * tic, char *old, char *new, char *dir)
     }
 #endif                          /* FTNTICK_NOCRC */
 
-    /* o.k., now unlink file in inbound */
-    if (unlink(old) == ERROR) {
-        fglog("$ERROR: can't remove %s", old);
-        return ERROR;
-    }
-
     /* Set a/mtime to time from TIC */
     if ((tic->date != -1) && (NULL == cf_get_string("TickDontSetTime", TRUE))) {
         ut.actime = ut.modtime = tic->date;
-- 
2.43.0


From 210322e4f16d12de1aa49d6be1dabb97d03dfaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 082/106] fix: ftntick: a description that cannot be written is
 an error

---
 src/tick/ftntick.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index f0d656b..2b7b1b0 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -509,7 +509,8 @@ int process_tic(Tick * tic)
         }
         if (files_change_mode)
             chmod(new_name, files_change_mode);
-        add_files_bbs(tic, bbs->dir);
+        if (add_files_bbs(tic, bbs->dir) == ERROR)
+            return ERROR;
     } else
         BUF_COPY3(new_name, in_dir, "/", tic->file);
 #else
@@ -524,7 +525,8 @@ int process_tic(Tick * tic)
         return ERROR;
     if (files_change_mode)
         chmod(new_name, files_change_mode);
-    add_files_bbs(tic, bbs->dir);
+    if (add_files_bbs(tic, bbs->dir) == ERROR)
+        return ERROR;
 #endif                          /* FECHO_PASSTHROUGHT */
     if (!is_unknown) {
         int uplink = 1;
@@ -832,7 +834,10 @@ int add_files_bbs(Tick * tic, char *dir)
 #endif                          /* RECODE_FILE_DESC */
 #endif                          /* DESC_DIR */
 
-    fclose(fp);
+    if (fclose(fp) == EOF) {
+        fglog("$ERROR: can't write %s", files_bbs);
+        return ERROR;
+    }
 
     if (files_change_mode)
         chmod(files_bbs, files_change_mode);
-- 
2.43.0


From 138a3e571c26987d74f02ac4b7c718d3989e1206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 083/106] fix: ftntick: report failed runs

---
 src/tick/ftntick.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 2b7b1b0..107c060 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -1167,11 +1167,11 @@ int main(int argc, char **argv)
     }
 
     /* Search tick files and processing it */
-    do_tic(w_flag);
+    c = do_tic(w_flag);
 
     /* removing lock file */
     unlock_program(PROGRAM);
 
     exit_free();
-    exit(0);
+    exit(c == ERROR ? EXIT_ERROR : EXIT_OK);
 }
-- 
2.43.0


From 5d196412abdb04a4882bfa7a93e4da6bf05158c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 084/106] fix: ftntick: use the address given for the area, as
 ftnhatch does

---
 src/tick/ftntick.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 107c060..bf15ea2 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -412,8 +412,10 @@ int process_tic(Tick * tic)
         }
     }
     cf_set_zone(bbs->zone);
+    if (bbs->addr.zone != -1)
+        cf_set_curr(&bbs->addr);
 #ifdef BEST_AKA
-    if (bbs->nodes.first)
+    else if (bbs->nodes.first)
         cf_set_best(bbs->nodes.first->node.zone, bbs->nodes.first->node.net,
                     bbs->nodes.first->node.node);
 #endif                          /* BEST_AKA */
-- 
2.43.0


From a77654469304533a6baaf6034567fac20217e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 085/106] fix: ftntick: file names cannot run shell commands

---
 src/tick/ftntick.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index bf15ea2..c95a34f 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -148,6 +148,17 @@ static int ftntick_write_history(Tick *tic, int w_flag, char *bbslock)
     return ret;
 }
 
+/*
+ * Names come from elsewhere, do not let the shell see more than a name
+ */
+static bool shell_safe(char *s)
+{
+    if (strpbrk(s, "'\"`$\\;&|<>\n") == NULL)
+        return true;
+    fglog("WARNING: file name %s not passed to commands", s);
+    return false;
+}
+
 /*
  * The file is removed from the inbound only when all is done
  */
@@ -288,7 +299,7 @@ int do_tic(int w_flag)
             unlock_path(bbslock);
             ftntick_remove_file(&tic);
             /* Run -x script, if any */
-            if (exec_script) {
+            if (exec_script && shell_safe(name)) {
                 int ret;
 
                 BUF_COPY3(buffer, exec_script, " ", name);
@@ -659,7 +670,8 @@ int process_tic(Tick * tic)
             if (!stricmp(tic->area, area)) {
                 wild_file = xstrtok(NULL, " \t");
                 tick_action = xstrtok(NULL, "\n");
-                if (wildmatch(tic->file, wild_file, TRUE)) {
+                if (wildmatch(tic->file, wild_file, TRUE)
+                    && shell_safe(tic->file)) {
                     sprintf(buffer, tick_action, old_name);
                     debug(8, "exec: %s", buffer);
                     ret = run_system(buffer);
-- 
2.43.0


From a05fc7845e7bbc900f987e8fa3048747c8811e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:45 +0000
Subject: [PATCH 086/106] fix: ftntoss: a message of an unknown area that could
 not be put aside was lost

---
 src/toss/ftntoss.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 45d7aca..3e5d834 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -810,15 +810,13 @@ int do_echomail(Packet * pkt, Message * msg, MsgBody * body)
                 ("node %s not authorized to create area %s (config restriction)",
                  znfp1(&msg->node_from), areaname);
             /* Unknown area */
-            do_unknown_area(areaname, msg, body);
-            return OK;
+            return do_unknown_area(areaname, msg, body);
         }
 
         if (areafix_check_forbidden_area(areaname)) {
             fglog("area %s is forbidden to create", areaname);
             /* Unknown area */
-            do_unknown_area(areaname, msg, body);
-            return OK;
+            return do_unknown_area(areaname, msg, body);
         }
 
         if (!int_uplinks) {
@@ -835,15 +833,13 @@ int do_echomail(Packet * pkt, Message * msg, MsgBody * body)
         if (OK != cmd_new_int(&msg->node_from, autocreate_cmd, NULL)) {
             fglog("can't create area %s from %s (cmd_new() returned ERROR)",
                   areaname, znfp1(&msg->node_from));
-            do_unknown_area(areaname, msg, body);
-            return OK;
+            return do_unknown_area(areaname, msg, body);
         }
 
         if (NULL == (area = areasbbs_lookup(areaname))) {
             fglog("can't create area %s from %s (not found after creation)",
                   areaname, znfp1(&msg->node_from));
-            do_unknown_area(areaname, msg, body);
-            return OK;
+            return do_unknown_area(areaname, msg, body);
         }
 
         fglog("created area %s from %s", areaname, znfp1(&msg->node_from));
-- 
2.43.0


From 17c2fe4e7f91005ef377c9c5157933555457e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 087/106] fix: ftntick: a TIC must name a file, not a directory

---
 src/tick/ftntick.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index c95a34f..f4638c3 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -918,6 +918,10 @@ int check_file(Tick * tic)
         fglog("$ERROR: can't stat() file %s", name);
         return ERROR;
     }
+    if (!S_ISREG(st.st_mode)) {
+        fglog("ERROR: %s is not a file", name);
+        return ERROR;
+    }
 
     /*
      * File size
-- 
2.43.0


From 8674d810dc8bef05af533b89754761968f1792c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 088/106] fix: ftnhatch wrote to / when PassthroughtBoxesDir
 was not defined

---
 src/common/tick.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/tick.c b/src/common/tick.c
index 0208e65..0b6fbcb 100644
--- a/src/common/tick.c
+++ b/src/common/tick.c
@@ -342,6 +342,13 @@ int tick_send(Tick * tic, Node * node, char *name, mode_t mode)
                 }
  ready:
 
+#ifdef FECHO_PASSTHROUGHT
+    if (!pass_path || !*pass_path) {
+        fglog("ERROR: config: PassthroughtBoxesDir not defined");
+        return ERROR;
+    }
+#endif
+
     /*
      * Attach file
      */
-- 
2.43.0


From 06d03d10b1299ff160356ed3a6ed53357a968025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 089/106] fix: ftnhatch listed passive links in SEEN-BY, nobody
 sent them the file

---
 src/tick/ftnhatch.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tick/ftnhatch.c b/src/tick/ftnhatch.c
index 826eb23..bc18f4b 100644
--- a/src/tick/ftnhatch.c
+++ b/src/tick/ftnhatch.c
@@ -116,7 +116,11 @@ int hatch(char *area, char *file, char *desc, char *replaces)
     tl_appendf(&tic.path, "%s %ld %s",
                znf1(cf_addr()), (long)now, date(NULL, &now));
     lon_add(&tic.seenby, cf_addr());
-    lon_join(&tic.seenby, &bbs->nodes);
+    /* passive links do not get it from us, but may from somebody else */
+    for (p = bbs->nodes.first; p; p = p->next)
+        if (!lon_search(&bbs->passive, &p->node) &&
+            !lon_search(&tic.seenby, &p->node))
+            lon_add(&tic.seenby, &p->node);
     /* tic.pw set by hatch_one() */
     tic.date = file_time;
 
-- 
2.43.0


From 2e6f44b7c61d54d5c36e1653441483cbc36cbe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 090/106] fix: quoted-printable text with a stray '=' repeated
 the character before it

---
 src/common/mime.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index b26f207..d4b350e 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -83,7 +83,8 @@ char *mime_dequote(char *d, size_t n, char *s)
             } else if (s[1] == '\n' ||  /* =<LF> and */
                        (s[1] == '\r' && s[2] == '\n')) {    /* =<CR><LF> */
                 break;
-            }
+            } else              /* not an encoded character */
+                c = *s;
         } else if (s[0] == '_') {   /* Underscore */
             c = ' ';
         } else {                /* Nothing special to do */
-- 
2.43.0


From ca32a5f88c4d3ac1293baf4e427a616181351073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 091/106] fix: a number too large for an FTN address wrapped
 around to another address

---
 src/common/parsenode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/parsenode.c b/src/common/parsenode.c
index 5874116..86f4955 100644
--- a/src/common/parsenode.c
+++ b/src/common/parsenode.c
@@ -48,8 +48,11 @@ int znfp_get_number(char **ps)
     } else if (!is_digit(*s))
         return ERROR;
     else
-        while (is_digit(*s))
+        while (is_digit(*s)) {
             val = val * 10 + *s++ - '0';
+            if (val > 65535)    /* no such FTN address */
+                return ERROR;
+        }
 
     *ps = s;
 
-- 
2.43.0


From b35de0214899bfd990a6ff9214fad0ac7bc15287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 092/106] fix: a host named like a point address was never
 found in HOSTS

---
 src/common/address.c | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/common/address.c b/src/common/address.c
index 6a30e3e..9004234 100644
--- a/src/common/address.c
+++ b/src/common/address.c
@@ -125,29 +125,53 @@ static int try_pfnz(Node * node, char *addr, char *dot, char *domain)
     return FALSE;
 }
 
+/*
+ * Look up a name in HOSTS, as it is and with our domains added
+ */
+static Host *try_hosts(char *name)
+{
+    char buf[MAXINETADDR];
+    Host *host;
+
+    if ((host = hosts_lookup(NULL, name)))
+        return host;
+    BUF_COPY2(buf, name, cf_domainname());
+    if ((host = hosts_lookup(NULL, buf)))
+        return host;
+    BUF_COPY2(buf, name, cf_hostsdomain());
+    return hosts_lookup(NULL, buf);
+}
+
 Node *inet_to_ftn(char *addr)
 {
 
     char buf[MAXINETADDR];
     static Node node;
     Host *host;
-    char *p, *pn;
+    char *p;
     int point = -1;
 
+    /*
+     * 0. A host may itself be named like a point address
+     */
+    if ((host = try_hosts(addr))) {
+        node = host->node;
+        return &node;
+    }
+
     /*
      * Look for optional point addressing in front of host name
      */
     p = addr;
     if (*p == 'p' || *p == 'P') {
         p++;
-        pn = p;
-        while (*p && is_digit(*p))
+        point = znfp_get_number(&p);    /* Point number */
+        if (point >= 0 && *p == '.')    /* Must end with '.' */
             p++;
-        if (*p == '.') {        /* Must end with '.' */
-            p++;
-            point = atoi(pn);   /* Point number */
-        } else
+        else {
+            point = -1;
             p = addr;           /* No pX. */
+        }
     }
 
     /*
-- 
2.43.0


From 058193f5fbbc5d6c946456cb05426ad6e6789c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:42 +0000
Subject: [PATCH 093/106] fix: the serial of a split message part could get
 more than 8 digits

---
 src/common/msgid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/msgid.c b/src/common/msgid.c
index 42e3fde..f6edea8 100644
--- a/src/common/msgid.c
+++ b/src/common/msgid.c
@@ -431,7 +431,7 @@ char *s_msgid_rfc_to_fido(int *origid_flag, char *message_id,
         crc32_compute((unsigned char *)area, strlen(area));
     crc32 = crc32_value();
     if (split)
-        crc32 += part - 1;
+        crc32 = (crc32 + part - 1) & 0xffffffffUL;
 
     tmps = tmps_alloc(strlen(id) + 1 + /**Extra**/ 20);
 
-- 
2.43.0


From 83c4cb8028451de48ab4c60dffd851ed813ea34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 094/106] fix: rfc2ftn put its address before a MSGID that
 already had one

---
 src/gate/rfc2ftn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 98c385c..3af703b 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1039,7 +1039,8 @@ static int snd_message(Message * msg, Area * parea,
                                  no_dbc_history,
                                  no_fido_style_msgid);
         if (id) {
-            if (no_fido_style_msgid && !x_flags_m)     /* X-Flags: m */
+            if (!flag ||        /* Complete MSGID, came from FTN */
+                (no_fido_style_msgid && !x_flags_m))   /* X-Flags: m */
                 fprintf(sf, "\001MSGID: %s\r", id);
             else {
                 if (!echogate_alias)
-- 
2.43.0


From c7df5f053a329087ed998e88298df3ac3745afea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:26 +0000
Subject: [PATCH 095/106] fix: rfc2ftn crashed when no charset was configured

---
 src/gate/rfc2ftn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 3af703b..59778aa 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -827,7 +827,7 @@ static void determine_charsets(RFCHeader *h, Area *parea, struct charset_info *i
     if (!ftn)
         ftn = CHARSET_STD7BIT;
 
-    ftn_name = charset_name_rfc2ftn(ftn);
+    ftn_name = s_copy(charset_name_rfc2ftn(ftn));   /* may be constant */
     str_upper(ftn_name);
 
     if (!default_rfc)
-- 
2.43.0


From 7dc7eecea1ffe296227ee6db94fda2d76f7ff7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:26 +0000
Subject: [PATCH 096/106] fix: limits of messages in batches were halved,
 groups after a blank ignored

---
 src/gate/rfc2ftn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 59778aa..4ec95bd 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1453,7 +1453,7 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
         xpost_flag = strchr(groups, ',') != NULL;
 
         /* List of newsgroups -> textlist (strtok is not reentrant!) */
-        for (p = strtok(groups, ","); p; p = strtok(NULL, ","))
+        for (p = strtok(groups, ", \t\r\n"); p; p = strtok(NULL, ", \t\r\n"))
             tl_append(&tl, p);
 
         for (tp = tl.first; tp; tp = tp->next) {
@@ -2346,6 +2346,7 @@ int main(int argc, char **argv)
             if (size <= 0)
                 break;
             debug(3, "Batch: message #%ld size %ld", nmsg, size);
+            size = 0;           /* counted below */
         }
 
         /* Read message header from fpart */
-- 
2.43.0


From 1e36fab5911b9dccf1cdb82b45c176beba573f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 097/106] fix: an article or mail without a body was not gated

An empty body was taken for one that could not be decoded, rfc2ftn
ended with status 255 and dropped the message.
---
 src/common/mime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index d4b350e..b75bed5 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -1790,7 +1790,7 @@ Textlist *mime_body_dec(Textlist *body, RFCHeader *header,
     if (dec_body == NULL)
         return NULL;
 
-    if (dec_body->first == NULL) {
+    if (dec_body->first == NULL && body->first != NULL) {
         fglog("ERROR: could not decode mime body");
         xfree(dec_body);
         return NULL;
-- 
2.43.0


From 2d821675c6320f0f1f0eaa7ffa07397c4340cd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 098/106] fix: the parts of a split message were miscounted

BUF_LAST on a pointer looked at the 8th character, so that line ends
were not counted: SPLIT lines told too few parts, and messages just
over the limit were not split.
---
 src/gate/rfc2ftn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 4ec95bd..cdea2e8 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -988,7 +988,7 @@ static int snd_message(Message * msg, Area * parea,
         lsize = 0;
         for (p = dec_body->first; p; p = p->next) {
             lsize += strlen(p->line);   /* Length incl. <LF> */
-            if (BUF_LAST(p->line) == '\n')  /* <LF> ->           */
+            if (strchr(p->line, '\n')) /* <LF> ->           */
                 lsize++;        /* <CR><LF>          */
             if (lsize > maxsize) {
                 split++;
-- 
2.43.0


From 025601c3a5833e0f817b2b43e6a95b8c1526520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 099/106] fix: rfc2ftn crashed on an areas.bbs entry without
 downlinks

---
 src/gate/rfc2ftn.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index cdea2e8..c0308de 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1492,14 +1492,17 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
                     pa->zone = ab->zone;
                     if (ab->addr.zone == INVALID && ab->addr.net == INVALID &&
                         ab->addr.node == INVALID && ab->addr.point == INVALID) {
-                        cf_set_best(ab->nodes.first->node.zone,
-                                    ab->nodes.first->node.net,
-                                    ab->nodes.first->node.node);
-                        pa->addr.zone = cf_addr()->zone;
-                        pa->addr.net = cf_addr()->net;
-                        pa->addr.node = cf_addr()->node;
-                        pa->addr.point = cf_addr()->point;
-                        debug(5, "Set addres %s", znfp1(&pa->addr));
+                        /* without downlinks the zone has to do */
+                        if (ab->nodes.first) {
+                            cf_set_best(ab->nodes.first->node.zone,
+                                        ab->nodes.first->node.net,
+                                        ab->nodes.first->node.node);
+                            pa->addr.zone = cf_addr()->zone;
+                            pa->addr.net = cf_addr()->net;
+                            pa->addr.node = cf_addr()->node;
+                            pa->addr.point = cf_addr()->point;
+                            debug(5, "Set addres %s", znfp1(&pa->addr));
+                        }
                     } else
                         pa->addr = ab->addr;
                 }
-- 
2.43.0


From 2d5124dc99ca828080e2ef4ba8d632d0c22b677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 100/106] fix: the first article of a packet could get the
 wrong origin address

Opening the packet selects the address for its destination; origin,
SEEN-BY, PATH and MSGID then did not use the address of the area.
---
 src/gate/rfc2ftn.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index c0308de..e26b3eb 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -943,6 +943,8 @@ static int snd_message(Message * msg, Area * parea,
     }
     if (!pkt_isopen()) {
         int crash = msg->attr & MSG_CRASH;
+        int zone = cf_zone();
+        Node addr = cf_n_addr();
         char *p;
 
         if (w_flag || (W_flag && crash)) {
@@ -969,6 +971,12 @@ static int snd_message(Message * msg, Area * parea,
             if ((sf = pkt_open(o_flag, NULL, NULL, FALSE)) == NULL)
                 return EX_CANTCREAT;
         }
+
+        /* The packet header is written with the AKA for its destination,
+         * back to the address of this message */
+        cf_set_zone(zone);
+        if (!node_eq(cf_addr(), &addr))
+            cf_set_curr(&addr);
     }
 
     last_zone = cf_zone();
-- 
2.43.0


From 8b18bc4f394ebb69515ade8a94f65018fc8c9eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:24 +0000
Subject: [PATCH 101/106] fix: a text without a final line end ran into the
 tear line

---
 src/gate/rfc2ftn.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index e26b3eb..245f70d 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -905,6 +905,7 @@ static int snd_message(Message * msg, Area * parea,
     char *p2;
     char *id = NULL;
     int flag, add_empty;
+    int eol;                    /* text ends with a complete line */
     time_t time_split = -1;
     long seq = 0;
     int rfc_level = default_rfc_level;
@@ -1252,6 +1253,7 @@ static int snd_message(Message * msg, Area * parea,
             organization = s_header_getcomplete(h, "Organization");
 
     lsize = 0;
+    eol = TRUE;
     while (p) {
         snprintf(buffer, sizeof(buffer), "%s", p->line);
 
@@ -1266,8 +1268,12 @@ static int snd_message(Message * msg, Area * parea,
         lsize += strlen(buffer);    /* Length incl. <LF> */
         if (BUF_LAST(buffer) == '\n')   /* <LF> ->           */
             lsize++;            /* <CR><LF>          */
+        if (*buffer)
+            eol = BUF_LAST(buffer) == '\n';
 
         if (split && lsize > maxsize) {
+            if (!eol)
+                putc('\r', sf);
             print_tear_line(sf, h);
             if (newsmode) {
                 char *origin;
@@ -1300,6 +1306,8 @@ static int snd_message(Message * msg, Area * parea,
      * If message is for echo mail (-n flag) then add
      * tear, origin, seen-by and path line.
      */
+    if (!eol)
+        putc('\r', sf);
     print_tear_line(sf, h);
     if (newsmode) {
         char *origin;
-- 
2.43.0


From 14ae09639aa6ba2e6e55b23b09bec73d0055ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:11 +0000
Subject: [PATCH 102/106] fix: ErrorsTo made its address the newsgroup of
 unknown areas

and no mail got the Errors-To header.
---
 src/gate/ftn2rfc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index e943095..8f247ee 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -1952,7 +1952,7 @@ int main(int argc, char **argv)
         ftn_junk_group_keys = areas_parse_line(p);
     }
     if ((p = cf_get_string("ErrorsTo", TRUE))) {
-        ftn_junk_group = p;
+        errors_to = p;
     }
     if (cf_get_string("NoAddressInToField", TRUE)) {
         no_address_in_to_field = TRUE;
-- 
2.43.0


From 67cbf16d83f7c40039d915753eac24f456324aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:11 +0000
Subject: [PATCH 103/106] fix: only the first pattern of an ftn2rfc access list
 counted

The list was cut at its first comma when it was looked up, and names were
taken as patterns of the patterns.
---
 src/common/acl.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/common/acl.c b/src/common/acl.c
index 27c3d63..3cbf31f 100644
--- a/src/common/acl.c
+++ b/src/common/acl.c
@@ -184,7 +184,7 @@ int ftnacl_lookup(Node * node_from, Node * node_to, char *echo)
 
     Acl *p;
     int type;
-    char *node1, *node2 = NULL, *n;
+    char *node1, *node2 = NULL, *n, *list;
 
     if (echo)
         type = TYPE_ECHOMAIL;
@@ -199,12 +199,14 @@ int ftnacl_lookup(Node * node_from, Node * node_to, char *echo)
         if (p->gate == FTN2RFC &&
             wildmat(node1, p->email_pat) && p->type == type) {
 
-            for (n = xstrtok(p->ngrp_pat, ","); n; n = xstrtok(NULL, ","))
-                if (echo) {
-                    if (wildmat(n, echo))
-                        return TRUE;
-                } else if (wildmat(n, node2))
-                    return TRUE;
+            /* xstrtok() changes its string */
+            list = strsave(p->ngrp_pat);
+            for (n = xstrtok(list, ","); n; n = xstrtok(NULL, ","))
+                if (wildmat(echo ? echo : node2, n))
+                    break;
+            xfree(list);
+            if (n)
+                return TRUE;
         }
     }
 
-- 
2.43.0


From a5948d654ed686296acf1b5adcd933f26386739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 104/106] fix: ftn2rfc's access lists were asked about the
 wrong message

For echomail the sender was that of the message before and the area's name
came with AREA: and a CR, for netmail the addresses were without zones and
points, as the control lines had not been read yet.
---
 src/gate/ftn2rfc.c | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 8f247ee..5109d0d 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -692,33 +692,19 @@ int unpack(FILE * pkt_file, Packet * pkt)
         /* Retrieve address information from kludges for NetMail */
         if (body.area == NULL) {
 
-            if (ftnacl_lookup(&msg.node_from, &msg.node_to, NULL)) {
-                debug(7, "ftnacl_lookup(): From=%s, To=%s",
-                      znfp1(&msg.node_orig), znfp2(&msg.node_to));
-                fglog
-                    ("BOUNCE: Postings from address `%s' to  `%s' not allowed - skipped",
-                     znfp1(&msg.node_orig), znfp2(&msg.node_to));
-                tl_clear(&theader);
-                tl_clear(&tbody);
-                tl_clear(&tl);
-                msg_body_clear(&body);
-
-                continue;
-            }
-
             /* Don't use point address from packet for Netmail */
             msg.node_from.point = 0;
             msg.node_to.point = 0;
             /* Retrieve complete address from kludges */
             kludge_pt_intl(&body, &msg, FALSE);
             msg.node_orig = msg.node_from;
-        } else {
-            if (ftnacl_lookup(&msg.node_orig, NULL, body.area)) {
-                debug(7, "ftnacl_lookup(): From=%s, echo=%s",
-                      znfp1(&msg.node_orig), body.area);
+
+            if (ftnacl_lookup(&msg.node_from, &msg.node_to, NULL)) {
+                debug(7, "ftnacl_lookup(): From=%s, To=%s",
+                      znfp1(&msg.node_orig), znfp2(&msg.node_to));
                 fglog
-                    ("BOUNCE: Postings from address `%s' to area `%s' not allowed - skipped",
-                     znfp1(&msg.node_orig), body.area);
+                    ("BOUNCE: Postings from address `%s' to  `%s' not allowed - skipped",
+                     znfp1(&msg.node_orig), znfp2(&msg.node_to));
                 tl_clear(&theader);
                 tl_clear(&tbody);
                 tl_clear(&tl);
@@ -726,7 +712,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
 
                 continue;
             }
-
+        } else {
             /* Specially for echomail */
             msg.node_from = pkt->from;
             msg.node_to = pkt->to;
@@ -737,6 +723,23 @@ int unpack(FILE * pkt_file, Packet * pkt)
                                       &msg.node_orig)) {
                 node_invalid(&msg.node_orig);
             }
+
+            strip_crlf(body.area);
+            for (p = body.area + strlen("AREA:"); is_space(*p); p++) ;
+
+            if (ftnacl_lookup(&msg.node_orig, NULL, p)) {
+                debug(7, "ftnacl_lookup(): From=%s, echo=%s",
+                      znfp1(&msg.node_orig), p);
+                fglog
+                    ("BOUNCE: Postings from address `%s' to area `%s' not allowed - skipped",
+                     znfp1(&msg.node_orig), p);
+                tl_clear(&theader);
+                tl_clear(&tbody);
+                tl_clear(&tl);
+                msg_body_clear(&body);
+
+                continue;
+            }
         }
         debug(7, "FIDO sender (from/origin): %s", znfp1(&msg.node_orig));
 
-- 
2.43.0


From 84ed981011d22901b1029a8b8a18e1aee2585c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 105/106] fix: NoAddressInToField bounced a mail for the
 addressee of the one before

mail_to was kept from message to message and is not set for one with a To
line in its text.
---
 src/gate/ftn2rfc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 5109d0d..505ad23 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -654,6 +654,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
 
     while ((type == MSG_TYPE) && !xfeof(pkt_file)) {
         x_orig_to[0] = 0;
+        mail_to[0] = 0;
         tl_clear(&theader);
         tl_clear(&tbody);
 
-- 
2.43.0


From d7767fab9b1153a07c89752680bb3cd96be3d726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:10 +0000
Subject: [PATCH 106/106] fix: an ftn2rfc access list missed senders whose
 address had a domain

The domain in a MSGID or origin was part of what the patterns were matched
with, so a listed address got through by naming one.
---
 src/common/acl.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/common/acl.c b/src/common/acl.c
index 3cbf31f..5d8f3f8 100644
--- a/src/common/acl.c
+++ b/src/common/acl.c
@@ -185,6 +185,8 @@ int ftnacl_lookup(Node * node_from, Node * node_to, char *echo)
     Acl *p;
     int type;
     char *node1, *node2 = NULL, *n, *list;
+    char bare[MAXPATH];
+    Node from;
 
     if (echo)
         type = TYPE_ECHOMAIL;
@@ -194,10 +196,15 @@ int ftnacl_lookup(Node * node_from, Node * node_to, char *echo)
     }
     node1 = znfp2(node_from);
 
+    /* A MSGID or origin may name a domain with the address */
+    from = *node_from;
+    from.domain[0] = 0;
+    BUF_COPY(bare, znfp3(&from));
+
     for (p = acl_list; p; p = p->next) {
 
-        if (p->gate == FTN2RFC &&
-            wildmat(node1, p->email_pat) && p->type == type) {
+        if (p->gate == FTN2RFC && p->type == type &&
+            (wildmat(node1, p->email_pat) || wildmat(bare, p->email_pat))) {
 
             /* xstrtok() changes its string */
             list = strsave(p->ngrp_pat);
-- 
2.43.0

