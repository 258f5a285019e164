From 0acecc8cf89484375e6863af8dfde5f72ef24a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:46:10 +0000
Subject: [PATCH 01/59] fix: keep bytes above 0x7f distinct in the key matcher

Every byte with the high bit set was folded onto index 0, so any of
them matched any other.
---
 src/common/aho_corasick.c | 6 ++----
 src/common/aho_corasick.h | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index 33e144e..45d7526 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -39,8 +39,7 @@ int ezac_add(ezac_ctx_t *ctx, char *data, int datan) {
     int i = 0;
 
     for (i = 0; i < datan; i ++) {
-        int idx = data[i];
-        if (idx < 0 || idx > EZAC_MAX) idx = 0;
+        int idx = (unsigned char)data[i];
         if (!n->arr[idx]) {
             schk(n->arr[idx] = sys_alloc(sizeof(ezac_node_t)), return -1);
         }
@@ -91,8 +90,7 @@ int ezac_reset(ezac_ctx_t *ctx) {
 int ezac_find(ezac_ctx_t *ctx, char *data, int datan) {
     int i = 0;
     for (i = 0; i < datan; i++) {
-        int idx = data[i];
-        if (idx < 0 || idx > EZAC_MAX) idx = 0;
+        int idx = (unsigned char)data[i];
         if (!ctx->cur->arr[idx])
             ctx->cur = ctx->cur->pfail;
 
diff --git a/src/common/aho_corasick.h b/src/common/aho_corasick.h
index 952ca7a..4a68b7b 100755
--- a/src/common/aho_corasick.h
+++ b/src/common/aho_corasick.h
@@ -6,7 +6,7 @@ extern "C"
 {
 #endif
 
-#define EZAC_MAX  128
+#define EZAC_MAX  256
 typedef struct ezac_node_t ezac_node_t;
 struct ezac_node_t {
     ezac_node_t * arr[EZAC_MAX];
-- 
2.43.0


From b956878dc3609ad215e50caaab48d526e69bba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:46:11 +0000
Subject: [PATCH 02/59] fix: start every key search from the root

A failed search left its position behind, so a later connection could
complete the key of an earlier one. Also follow all fail links, not
just the first.
---
 src/common/aho_corasick.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index 45d7526..0ca4cbc 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -89,9 +89,10 @@ int ezac_reset(ezac_ctx_t *ctx) {
 
 int ezac_find(ezac_ctx_t *ctx, char *data, int datan) {
     int i = 0;
+    ezac_reset(ctx);
     for (i = 0; i < datan; i++) {
         int idx = (unsigned char)data[i];
-        if (!ctx->cur->arr[idx])
+        while (!ctx->cur->arr[idx] && ctx->cur != &ctx->root)
             ctx->cur = ctx->cur->pfail;
 
         if (ctx->cur->arr[idx]) {
-- 
2.43.0


From 5f6730d5b5c07bdf631998a7f9b1d911dad5bf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:46:12 +0000
Subject: [PATCH 03/59] fix: build the key matcher fail links level by level

Fail links were computed depth first from links that were not set yet,
and the root was never tried, so keys inside longer text were missed.
---
 src/common/aho_corasick.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index 0ca4cbc..f417206 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -52,6 +52,7 @@ int ezac_add(ezac_ctx_t *ctx, char *data, int datan) {
 int ezac_compiler(ezac_ctx_t *ctx) {
     ezac_node_t *stack[4096] = {0};
     int stackn = 0;
+    int stackp = 0;
     int i = 0;
 
     for (i = 0; i < EZAC_MAX; i++) {
@@ -61,20 +62,16 @@ int ezac_compiler(ezac_ctx_t *ctx) {
         }
     }
 
-    while (stackn > 0) {
-        ezac_node_t * n = stack[--stackn];
+    while (stackp < stackn) { ///level by level, fail links point to upper levels
+        ezac_node_t * n = stack[stackp++];
         for (i = 0; i < EZAC_MAX; i++) {
             if (n->arr[i]) {
                 ezac_node_t * x = n->pfail;
-                char find = 0;
-                do {
-                    if (x->arr[i]) {
-                        find = 1;
-                        break;
-                    }
+                while (!x->arr[i] && x != &ctx->root)
                     x = x->pfail;
-                } while(x != &ctx->root);
-                n->arr[i]->pfail = (find ? x->arr[i]: x);
+                n->arr[i]->pfail = (x->arr[i] ? x->arr[i] : x);
+                if (x->arr[i] && x->arr[i]->fendup)
+                    n->arr[i]->fendup = 1;
                 stack[stackn++] = n->arr[i];
             }
         }
-- 
2.43.0


From 13e65330fb96b2309df3d6c96273250a9b103cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:46:12 +0000
Subject: [PATCH 04/59] fix: do not read the key beyond the authorization
 header

---
 src/app/tls_tunnel_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 56681d5..ab077ce 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -251,7 +251,7 @@ static int tls_tunnel_s_auth_chk(con_t *cdown) {
     int auth_chk = -1;
     do {
         schk(auth->magic == htonl(TLS_TUNNEL_AUTH_MAGIC_NUM), break);
-        schk(0 == ezac_find(g_ses_ctx->ac, auth->key, strlen(auth->key)), break);
+        schk(0 == ezac_find(g_ses_ctx->ac, auth->key, strnlen(auth->key, sizeof(auth->key) + sizeof(auth->secret))), break);
         auth_chk = 0;
     } while(0);
     
-- 
2.43.0


From a1126687164c8f56cfc556f72c1716bd64c75c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:46:13 +0000
Subject: [PATCH 05/59] fix: keep bytes that follow the authorization header

A greeting read together with the header was thrown away and the
connection hung until the timeout.
---
 src/app/tls_tunnel_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index ab077ce..2538a2d 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -259,7 +259,7 @@ static int tls_tunnel_s_auth_chk(con_t *cdown) {
        net_free(cdown);
        return -1;
     }
-    meta_clr(meta);
+    meta->pos += sizeof(tls_tunnel_auth_t);
     
     cdown->ev->read_cb = s5_p1_req;
     cdown->ev->write_cb = NULL;
-- 
2.43.0


From ca1ac17c440c5762b70e8a524752a3be742eb538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:46:14 +0000
Subject: [PATCH 06/59] fix: tolerate non-string entries and full-size auth
 files

---
 src/app/tls_tunnel_s.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 2538a2d..8daee22 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -343,6 +343,10 @@ static int tls_tunnel_s_auth_fparse(meta_t *meta) {
         int i = 0;
         for (i = 0; i < cJSON_GetArraySize(root); i++) {
             cJSON * arrobj = cJSON_GetArrayItem(root, i);
+            if (!cJSON_IsString(arrobj)) {
+                err("s5 srv auth entry [%d] not a string\n", i);
+                continue;
+            }
             if (0 != ezac_add(g_ses_ctx->ac, cJSON_GetStringValue(arrobj), strlen(cJSON_GetStringValue(arrobj)))) {
                 err("s5 srv auth add ac err\n", cJSON_GetStringValue(arrobj));
             }
@@ -356,7 +360,7 @@ static int tls_tunnel_s_auth_fread(meta_t *meta) {
     ssize_t size = 0;
     int fd = open((char*)config_get()->s5_serv_auth_path, O_RDONLY);
     schk(fd > 0, return -1);
-    size = read(fd, meta->pos, meta_getfree(meta));
+    size = read(fd, meta->pos, meta_getfree(meta) - 1); ///keep the terminating 0
     close(fd);
     schk(size != -1, return -1);
     meta->last += size;
@@ -368,7 +372,7 @@ static int tls_tunnel_s_auth_init(void) {
     int rc = -1;
     do {
         schk(g_ses_ctx->ac = ezac_init(), break);
-        schk(meta_alloc(&meta, TLS_TUNNEL_AUTH_FILE_MAX) == 0, break);
+        schk(meta_alloc(&meta, TLS_TUNNEL_AUTH_FILE_MAX + 1) == 0, break);
         schk(tls_tunnel_s_auth_fread(meta) == 0, break);
         schk(tls_tunnel_s_auth_fparse(meta) == 0, break);
         ezac_compiler(g_ses_ctx->ac);
-- 
2.43.0


From 0a6e38924471eb094c6c53de5d49d68df938677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:46:15 +0000
Subject: [PATCH 07/59] fix: keep a 255 byte domain name zero terminated

---
 src/app/socks5.h | 122 +++++++++++++++++++++++------------------------
 1 file changed, 61 insertions(+), 61 deletions(-)

diff --git a/src/app/socks5.h b/src/app/socks5.h
index 24044d2..6b09000 100755
--- a/src/app/socks5.h
+++ b/src/app/socks5.h
@@ -1,61 +1,61 @@
-#ifndef _SOCKS5_H_INCLUDED_
-#define _SOCKS5_H_INCLUDED_
-
-#ifdef __cplusplus
-extern "C"
-{
-#endif
-
-/// s5 type for rfc reqest
-#define S5_RFC_IPV4         0x1
-#define S5_RFC_IPV6         0x4
-#define S5_RFC_DOMAIN       0x3
-
-
-typedef struct {
-    unsigned char       ver;
-    unsigned char       methods_n;
-    unsigned char       methods_cnt;
-    unsigned char       methods[255];
-} s5_ph1_req_t;
-
-typedef struct {
-    unsigned char       ver;
-    unsigned char       method;
-} __attribute__((packed)) s5_ph1_rsp_t;
-
-typedef struct {
-    unsigned char       ver;
-    unsigned char       cmd;
-    unsigned char       rsv;
-    unsigned char       atyp;
-    unsigned char       dst_addr_n;
-    unsigned char       dst_addr_cnt;
-    unsigned char       dst_addr[DOMAIN_LENGTH];
-    unsigned char       dst_port[2];
-} s5_ph2_req_t;
-
-typedef struct {
-    unsigned char       ver;
-    unsigned char       rep;
-    unsigned char       rsv;
-    unsigned char       atyp;
-    unsigned int        bnd_addr;
-    unsigned short      bnd_port;
-} __attribute__((packed)) s5_ph2_rsp_t;
-
-typedef struct {
-    int s5_state;
-    s5_ph1_req_t s5p1;
-    s5_ph2_req_t s5p2;
-} s5_t;
-
-
-int s5_p1_req(con_t * c);
-
-
-#ifdef __cpluscplus
-}
-#endif
-
-#endif
+#ifndef _SOCKS5_H_INCLUDED_
+#define _SOCKS5_H_INCLUDED_
+
+#ifdef __cplusplus
+extern "C"
+{
+#endif
+
+/// s5 type for rfc reqest
+#define S5_RFC_IPV4         0x1
+#define S5_RFC_IPV6         0x4
+#define S5_RFC_DOMAIN       0x3
+
+
+typedef struct {
+    unsigned char       ver;
+    unsigned char       methods_n;
+    unsigned char       methods_cnt;
+    unsigned char       methods[255];
+} s5_ph1_req_t;
+
+typedef struct {
+    unsigned char       ver;
+    unsigned char       method;
+} __attribute__((packed)) s5_ph1_rsp_t;
+
+typedef struct {
+    unsigned char       ver;
+    unsigned char       cmd;
+    unsigned char       rsv;
+    unsigned char       atyp;
+    unsigned char       dst_addr_n;
+    unsigned char       dst_addr_cnt;
+    unsigned char       dst_addr[DOMAIN_LENGTH+1];
+    unsigned char       dst_port[2];
+} s5_ph2_req_t;
+
+typedef struct {
+    unsigned char       ver;
+    unsigned char       rep;
+    unsigned char       rsv;
+    unsigned char       atyp;
+    unsigned int        bnd_addr;
+    unsigned short      bnd_port;
+} __attribute__((packed)) s5_ph2_rsp_t;
+
+typedef struct {
+    int s5_state;
+    s5_ph1_req_t s5p1;
+    s5_ph2_req_t s5p2;
+} s5_t;
+
+
+int s5_p1_req(con_t * c);
+
+
+#ifdef __cpluscplus
+}
+#endif
+
+#endif
-- 
2.43.0


From fe31708ec39bcbc0b34aab3e82ca08ff3909b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:46:16 +0000
Subject: [PATCH 08/59] fix: reject greetings without methods and empty domain
 names

Both counters are compared after the first byte was stored, so a zero
length swallowed the next 256 bytes of the stream.
---
 src/app/socks5.c | 880 ++++++++++++++++++++++++-----------------------
 1 file changed, 444 insertions(+), 436 deletions(-)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index 68eeb36..d922057 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -1,436 +1,444 @@
-#include "common.h"
-#include "dns.h"
-#include "tls_tunnel_s.h"
-#include "socks5.h"
-
-static int s5_try_read(con_t *cdown) {
-    tls_tunnel_session_t *ses = cdown->data;
-
-    if (0 != net_socket_check_status(cdown->fd)) {
-        err("tls tunnel. socket chk err\n");
-        net_free(ses->cup);
-        net_free(cdown);
-        return -1;
-    }
-    return 0;
-}
-
-int s5_p2_rsp(con_t *cdown) {
-    tls_tunnel_session_t *ses = cdown->data;
-    meta_t *meta = cdown->meta;
-    int rc = 0;
-
-    while (meta_getlen(meta) > 0) {
-        rc = cdown->send(cdown, meta->pos, meta_getlen(meta));
-        if (rc < 0) {
-            if (rc == -11) {
-                EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
-                return -11;
-            }
-            err("TLS tunnel. s5p2 rsp send failed\n");
-            net_free(ses->cup);
-            net_free(cdown);
-            return -1;
-        }
-        meta->pos += rc;
-    }
-    EZ_TMDEL(cdown);
-    meta_clr(meta);
-    
-    cdown->ev->read_cb = tls_tunnel_traffic_proc;
-    cdown->ev->write_cb = NULL;
-    return cdown->ev->read_cb(cdown);
-}
-
-int s5_cup_connect_chk(con_t *cup) {
-    tls_tunnel_session_t *ses = cup->data;
-    con_t *cdown = ses->cdown;
-    meta_t *meta = cdown->meta;
-
-    EZ_TMDEL(cup);
-
-    if (0 != net_socket_check_status(cup->fd)) {
-        err("tls tunnel. socket chk err\n");
-        net_free(cup);
-        net_free(cdown);
-        return -1;
-    }
-    net_socket_nodelay(cup->fd);
-
-    s5_ph2_rsp_t * resp = (s5_ph2_rsp_t*)meta->last;
-    resp->ver = 0x05;
-    resp->rep = 0x00;
-    resp->rsv = 0x00;
-    resp->atyp = 0x01;
-    resp->bnd_addr = htons((uint16_t)cup->addr.sin_addr.s_addr);
-    resp->bnd_port = htons(cup->addr.sin_port);
-    meta->last += sizeof(s5_ph2_rsp_t);
-
-    cup->ev->read_cb = NULL;
-    cup->ev->write_cb = NULL;
-
-    cdown->ev->read_cb = NULL;
-    cdown->ev->write_cb = s5_p2_rsp;
-    return cdown->ev->write_cb(cdown);
-}
-
-int s5_cup_connect(con_t *cup) {
-    tls_tunnel_session_t *ses = cup->data;
-    status rc = 0;
-
-    cup->ev->read_cb = NULL;
-    cup->ev->write_cb = s5_cup_connect_chk;
-
-    rc = net_connect(ses->cup, &ses->cup->addr);
-    if (rc < 0) {
-        if (rc == -11) {
-            EZ_TMADD(cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
-            return -11;
-        }
-        err("socks5 connect err\n");
-        net_free(cup);
-        net_free(ses->cdown);
-        return -1;
-    }
-    return cup->ev->write_cb(cup);
-}
-
-void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
-    tls_tunnel_session_t *ses = data;
-    dnsc_t *dnsc = ses->dns;
-    s5_t *s5 = (s5_t*)ses->adata;
-    s5_ph2_req_t *s5p2 = &s5->s5p2;
-    char ipstr[128] = {0};
-
-
-    if (status == 0) {
-        uint16_t addr_port = 0;
-        memcpy(&addr_port, s5p2->dst_port, sizeof(uint16_t));
-        snprintf(ipstr, sizeof(ipstr), "%d.%d.%d.%d",
-            result[0], result[1], result[2], result[3]);
- 
-        //after result used 
-        dns_free(dnsc); 	
-
-        ses->cup->addr.sin_family = AF_INET;
-        ses->cup->addr.sin_port = addr_port;
-        ses->cup->addr.sin_addr.s_addr = inet_addr(ipstr);
-        
-        ses->cup->ev->read_cb = NULL;
-        ses->cup->ev->write_cb = s5_cup_connect;
-        ses->cup->ev->write_cb(ses->cup);
-    } else {
-        err("TLS tunnel. dns resolv failed\n");
-        dns_free(dnsc);
-        net_free(ses->cup);
-        net_free(ses->cdown);
-    }
-    return;
-}
-
-int s5_cup_addr(con_t *cdown) {
-    tls_tunnel_session_t *ses = cdown->data;
-    s5_t *s5 = (s5_t*)ses->adata;
-    s5_ph2_req_t *s5p2 = &s5->s5p2;
-    char ipstr[128] = {0};
-    
-    cdown->ev->read_cb = s5_try_read;
-    cdown->ev->write_cb = NULL;
-
-    if (s5p2->atyp == S5_RFC_IPV4 || s5p2->atyp == S5_RFC_DOMAIN) {
-        schk(net_alloc(&ses->cup) == 0, {
-            net_free(cdown);
-            return -1;
-        });
-        ses->cup->data = ses;
-        ses->cup->data_cb = tls_ses_release_cup;
-
-        if (s5p2->atyp == S5_RFC_IPV4) {
-            uint16_t addr_port = 0;
-            memcpy(&addr_port, s5p2->dst_port, sizeof(uint16_t));
-            snprintf(ipstr, sizeof(ipstr), "%d.%d.%d.%d",
-                (unsigned char )s5p2->dst_addr[0],
-                (unsigned char )s5p2->dst_addr[1],
-                (unsigned char )s5p2->dst_addr[2],
-                (unsigned char )s5p2->dst_addr[3]);
-
-            ses->cup->addr.sin_family = AF_INET;
-            ses->cup->addr.sin_port = addr_port;
-            ses->cup->addr.sin_addr.s_addr = inet_addr(ipstr);
-
-            ses->cup->ev->read_cb = NULL;
-            ses->cup->ev->write_cb = s5_cup_connect;
-            return ses->cup->ev->write_cb(ses->cup);
-        }
-        ///DOMAIN typ
-        if (0 == dns_rec_find((char*)s5p2->dst_addr, ipstr)) {
-            uint16_t addr_port = 0;
-            memcpy(&addr_port, s5p2->dst_port, sizeof(uint16_t));
-            snprintf(ipstr, sizeof(ipstr), "%d.%d.%d.%d",
-                (unsigned char )ipstr[0],
-                (unsigned char )ipstr[1],
-                (unsigned char )ipstr[2],
-                (unsigned char )ipstr[3]);
-            
-            ses->cup->addr.sin_family = AF_INET;
-            ses->cup->addr.sin_port = addr_port;
-            ses->cup->addr.sin_addr.s_addr = inet_addr(ipstr);
-
-            ses->cup->ev->read_cb = NULL;
-            ses->cup->ev->write_cb = s5_cup_connect;
-            return ses->cup->ev->write_cb(ses->cup);
-        } else {
-            return dns_alloc(&ses->dns,
-                            (char*)s5p2->dst_addr,
-                            s5_cup_dns_cb,
-                            ses);
-        }
-    }
-
-    err("s5p2 atyp [0x%x]. not support\n", s5p2->atyp);
-    net_free(cdown);
-    return -1;
-}
-
-
-int s5_p2_req(con_t *cdown) {
-    unsigned char *p = NULL;
-
-    tls_tunnel_session_t *ses = cdown->data;
-    s5_t *s5 = (s5_t*)ses->adata;
-    s5_ph2_req_t *s5p2 = &s5->s5p2;
-    meta_t *meta = cdown->meta;
-
-    enum {
-        VER = 0,
-        CMD,
-        RSV,
-        TYP,
-        TYP_V4,
-        TYP_V6,
-        TYP_DOMAINN,
-        TYP_DOMAIN,
-        PORT,
-        END
-    };
-
-    /*
-    s5 msg phase2 format
-        char  char  char  char   ...    char*2
-        VER | CMD | RSV | ATYP | ADDR | PORT
-    */
-
-    for (;;) {
-        if (meta_getlen(meta) < 1) {
-            int recvn = cdown->recv(cdown, meta->last, meta_getfree(meta));
-            if (recvn < 0) {
-                if (recvn == -11) {
-                    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
-                    return -11;
-                }
-                err("s5p2 recv failed\n");
-                net_free(cdown);
-                return -1;
-            }
-            meta->last += recvn;
-        }
-        
-        for (; meta->pos < meta->last; meta->pos++) {
-            p = meta->pos;
-            if (s5->s5_state == VER) {  ///ver is fixed. 0x05
-                s5p2->ver = *p;
-                s5->s5_state = CMD;
-                continue;
-            }
-            if (s5->s5_state == CMD) {
-                /*
-                    socks5 support cmd value
-                    01                connect
-                    02                bind
-                    03                udp associate
-                */
-                s5p2->cmd = *p;
-                s5->s5_state = RSV;
-                continue;
-            }
-            if (s5->s5_state == RSV) {    // RSV means resverd
-                s5p2->rsv = *p;
-                s5->s5_state = TYP;
-                continue;
-            }
-            if (s5->s5_state == TYP) {
-                s5p2->atyp = *p;
-                /*
-                    atyp        type        length
-                    0x01        ipv4        4
-                    0x03        domain        first octet of domain part
-                    0x04        ipv6        16
-                */
-                if (s5p2->atyp == S5_RFC_IPV4) {
-                    s5->s5_state = TYP_V4;
-                    s5p2->dst_addr_n = 4;
-                    s5p2->dst_addr_cnt = 0;
-                    continue;
-                } else if (s5p2->atyp == S5_RFC_IPV6) {
-                    s5->s5_state = TYP_V6;
-                    s5p2->dst_addr_n = 16;
-                    s5p2->dst_addr_cnt = 0;
-                    continue;
-                } else if (s5p2->atyp == S5_RFC_DOMAIN) {
-                    /// atpy domain -> dst addr domain len -> dst addr domain
-                    s5->s5_state = TYP_DOMAINN;
-                    s5p2->dst_addr_n = 0;
-                    s5p2->dst_addr_cnt = 0;
-                    continue;
-                }
-                err("s5p2 atyp [%d] not support\n", s5p2->atyp);
-                net_free(cdown);
-                return -1;
-            }
-            if (s5->s5_state == TYP_V4) {
-                s5p2->dst_addr[(int)s5p2->dst_addr_cnt++] = *p;
-                if (s5p2->dst_addr_cnt == 4) {
-                    s5->s5_state = PORT;
-                    continue;
-                }
-            }
-            if (s5->s5_state == TYP_V6) {
-                s5p2->dst_addr[(int)s5p2->dst_addr_cnt++] = *p;
-                if (s5p2->dst_addr_cnt == 16) {
-                    s5->s5_state = PORT;
-                    continue;
-                }
-            }
-            if (s5->s5_state == TYP_DOMAINN) {
-                s5p2->dst_addr_n = *p;
-                s5->s5_state = TYP_DOMAIN;
-                if (s5p2->dst_addr_n < 0) s5p2->dst_addr_n = 0;
-                if (s5p2->dst_addr_n > 255) s5p2->dst_addr_n = 255;
-                continue;
-            }
-            if (s5->s5_state == TYP_DOMAIN) {
-                s5p2->dst_addr[(int)s5p2->dst_addr_cnt++] = *p;
-                if (s5p2->dst_addr_cnt == s5p2->dst_addr_n) {
-                    s5->s5_state = PORT;
-                    continue;
-                }
-            }
-            if (s5->s5_state == PORT) {
-                s5p2->dst_port[0] = *p;
-                s5->s5_state = END;
-                continue;
-            }
-            if (s5->s5_state == END) {
-                s5p2->dst_port[1] = *p;
-
-                s5->s5_state = 0;
-                EZ_TMDEL(cdown);
-                meta_clr(meta);
-
-                do {
-                    schk(0x05 == s5p2->ver, break);
-                    schk(0x01 == s5p2->cmd, break);    /// only support CONNECT 0x01 request
-                    schk(s5p2->atyp != S5_RFC_IPV6, break); /// not support IPV6 request
-    
-                    cdown->ev->read_cb = s5_cup_addr;
-                    cdown->ev->write_cb = NULL;
-                    return cdown->ev->read_cb(cdown);
-                } while(0);
-
-                net_free(cdown);
-                return -1;
-            }
-        }
-    }
-}
-
-int s5_p1_rsp(con_t *cdown) {
-    meta_t *meta = cdown->meta;
-
-    while (meta_getlen(meta) > 0) {
-        int sendn = cdown->send(cdown, meta->pos, meta_getlen(meta));
-        if (sendn < 0) {
-            if (sendn == -11) {
-                EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
-                return -11;
-            }
-            err("s5p1 rsp send failed\n");
-            net_free(cdown);
-            return -1;
-        }
-        meta->pos += sendn;
-    }
-    EZ_TMDEL(cdown);
-    meta_clr(meta);
-    
-    cdown->ev->read_cb = s5_p2_req;
-    cdown->ev->write_cb = NULL;
-    return cdown->ev->read_cb(cdown);
-}
-
-int s5_p1_req(con_t *cdown) {
-    tls_tunnel_session_t *ses = cdown->data;
-    s5_t *s5 = (s5_t*)ses->adata;
-    s5_ph1_req_t *s5p1 = &s5->s5p1;
-    unsigned char *p = NULL;
-    meta_t *meta = cdown->meta;
-    /*
-        s5 phase1 message req format
-        1 byte    1 byte        nmethods
-        VERSION | METHODS | METHOD
-    */
-    enum {
-        VERSION = 0,
-        METHODN,
-        METHOD
-    };
-
-    for (;;) {
-        if (meta_getlen(meta) < 1) { ///try recv
-            int recvn = cdown->recv(cdown, meta->last, meta_getfree(meta));
-            if (recvn < 0) {
-                if (recvn == -11) {
-                    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
-                    return -11;
-                }
-                err("s5p1 recv failed\n");
-                net_free(cdown);
-                return -1;
-            }
-            meta->last += recvn;
-        }
-
-        for (; meta->pos < meta->last; meta->pos++) {
-            p = meta->pos;
-            if (s5->s5_state == VERSION) {
-                s5p1->ver = *p;
-                s5->s5_state = METHODN;
-                continue;
-            }
-            if (s5->s5_state == METHODN) {
-                s5p1->methods_n = *p;
-                s5p1->methods_cnt = 0;
-                s5->s5_state = METHOD;
-                continue;
-            }
-            if (s5->s5_state == METHOD) {
-                s5p1->methods[s5p1->methods_cnt++] = *p;
-                if (s5p1->methods_n == s5p1->methods_cnt) {
-                    EZ_TMDEL(cdown);
-
-                    s5->s5_state = 0;
-                    meta_clr(meta);
-                    
-                    s5_ph1_rsp_t * ack = (s5_ph1_rsp_t*)meta->pos;
-                    ack->ver = 0x05;
-                    ack->method = 0x00;
-                    meta->last += sizeof(s5_ph1_rsp_t);
-                    
-                    cdown->ev->read_cb = NULL;
-                    cdown->ev->write_cb = s5_p1_rsp;
-                    return cdown->ev->write_cb(cdown);
-                }
-            }
-        }
-    }
-}
+#include "common.h"
+#include "dns.h"
+#include "tls_tunnel_s.h"
+#include "socks5.h"
+
+static int s5_try_read(con_t *cdown) {
+    tls_tunnel_session_t *ses = cdown->data;
+
+    if (0 != net_socket_check_status(cdown->fd)) {
+        err("tls tunnel. socket chk err\n");
+        net_free(ses->cup);
+        net_free(cdown);
+        return -1;
+    }
+    return 0;
+}
+
+int s5_p2_rsp(con_t *cdown) {
+    tls_tunnel_session_t *ses = cdown->data;
+    meta_t *meta = cdown->meta;
+    int rc = 0;
+
+    while (meta_getlen(meta) > 0) {
+        rc = cdown->send(cdown, meta->pos, meta_getlen(meta));
+        if (rc < 0) {
+            if (rc == -11) {
+                EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+                return -11;
+            }
+            err("TLS tunnel. s5p2 rsp send failed\n");
+            net_free(ses->cup);
+            net_free(cdown);
+            return -1;
+        }
+        meta->pos += rc;
+    }
+    EZ_TMDEL(cdown);
+    meta_clr(meta);
+    
+    cdown->ev->read_cb = tls_tunnel_traffic_proc;
+    cdown->ev->write_cb = NULL;
+    return cdown->ev->read_cb(cdown);
+}
+
+int s5_cup_connect_chk(con_t *cup) {
+    tls_tunnel_session_t *ses = cup->data;
+    con_t *cdown = ses->cdown;
+    meta_t *meta = cdown->meta;
+
+    EZ_TMDEL(cup);
+
+    if (0 != net_socket_check_status(cup->fd)) {
+        err("tls tunnel. socket chk err\n");
+        net_free(cup);
+        net_free(cdown);
+        return -1;
+    }
+    net_socket_nodelay(cup->fd);
+
+    s5_ph2_rsp_t * resp = (s5_ph2_rsp_t*)meta->last;
+    resp->ver = 0x05;
+    resp->rep = 0x00;
+    resp->rsv = 0x00;
+    resp->atyp = 0x01;
+    resp->bnd_addr = htons((uint16_t)cup->addr.sin_addr.s_addr);
+    resp->bnd_port = htons(cup->addr.sin_port);
+    meta->last += sizeof(s5_ph2_rsp_t);
+
+    cup->ev->read_cb = NULL;
+    cup->ev->write_cb = NULL;
+
+    cdown->ev->read_cb = NULL;
+    cdown->ev->write_cb = s5_p2_rsp;
+    return cdown->ev->write_cb(cdown);
+}
+
+int s5_cup_connect(con_t *cup) {
+    tls_tunnel_session_t *ses = cup->data;
+    status rc = 0;
+
+    cup->ev->read_cb = NULL;
+    cup->ev->write_cb = s5_cup_connect_chk;
+
+    rc = net_connect(ses->cup, &ses->cup->addr);
+    if (rc < 0) {
+        if (rc == -11) {
+            EZ_TMADD(cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
+            return -11;
+        }
+        err("socks5 connect err\n");
+        net_free(cup);
+        net_free(ses->cdown);
+        return -1;
+    }
+    return cup->ev->write_cb(cup);
+}
+
+void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
+    tls_tunnel_session_t *ses = data;
+    dnsc_t *dnsc = ses->dns;
+    s5_t *s5 = (s5_t*)ses->adata;
+    s5_ph2_req_t *s5p2 = &s5->s5p2;
+    char ipstr[128] = {0};
+
+
+    if (status == 0) {
+        uint16_t addr_port = 0;
+        memcpy(&addr_port, s5p2->dst_port, sizeof(uint16_t));
+        snprintf(ipstr, sizeof(ipstr), "%d.%d.%d.%d",
+            result[0], result[1], result[2], result[3]);
+ 
+        //after result used 
+        dns_free(dnsc); 	
+
+        ses->cup->addr.sin_family = AF_INET;
+        ses->cup->addr.sin_port = addr_port;
+        ses->cup->addr.sin_addr.s_addr = inet_addr(ipstr);
+        
+        ses->cup->ev->read_cb = NULL;
+        ses->cup->ev->write_cb = s5_cup_connect;
+        ses->cup->ev->write_cb(ses->cup);
+    } else {
+        err("TLS tunnel. dns resolv failed\n");
+        dns_free(dnsc);
+        net_free(ses->cup);
+        net_free(ses->cdown);
+    }
+    return;
+}
+
+int s5_cup_addr(con_t *cdown) {
+    tls_tunnel_session_t *ses = cdown->data;
+    s5_t *s5 = (s5_t*)ses->adata;
+    s5_ph2_req_t *s5p2 = &s5->s5p2;
+    char ipstr[128] = {0};
+    
+    cdown->ev->read_cb = s5_try_read;
+    cdown->ev->write_cb = NULL;
+
+    if (s5p2->atyp == S5_RFC_IPV4 || s5p2->atyp == S5_RFC_DOMAIN) {
+        schk(net_alloc(&ses->cup) == 0, {
+            net_free(cdown);
+            return -1;
+        });
+        ses->cup->data = ses;
+        ses->cup->data_cb = tls_ses_release_cup;
+
+        if (s5p2->atyp == S5_RFC_IPV4) {
+            uint16_t addr_port = 0;
+            memcpy(&addr_port, s5p2->dst_port, sizeof(uint16_t));
+            snprintf(ipstr, sizeof(ipstr), "%d.%d.%d.%d",
+                (unsigned char )s5p2->dst_addr[0],
+                (unsigned char )s5p2->dst_addr[1],
+                (unsigned char )s5p2->dst_addr[2],
+                (unsigned char )s5p2->dst_addr[3]);
+
+            ses->cup->addr.sin_family = AF_INET;
+            ses->cup->addr.sin_port = addr_port;
+            ses->cup->addr.sin_addr.s_addr = inet_addr(ipstr);
+
+            ses->cup->ev->read_cb = NULL;
+            ses->cup->ev->write_cb = s5_cup_connect;
+            return ses->cup->ev->write_cb(ses->cup);
+        }
+        ///DOMAIN typ
+        if (0 == dns_rec_find((char*)s5p2->dst_addr, ipstr)) {
+            uint16_t addr_port = 0;
+            memcpy(&addr_port, s5p2->dst_port, sizeof(uint16_t));
+            snprintf(ipstr, sizeof(ipstr), "%d.%d.%d.%d",
+                (unsigned char )ipstr[0],
+                (unsigned char )ipstr[1],
+                (unsigned char )ipstr[2],
+                (unsigned char )ipstr[3]);
+            
+            ses->cup->addr.sin_family = AF_INET;
+            ses->cup->addr.sin_port = addr_port;
+            ses->cup->addr.sin_addr.s_addr = inet_addr(ipstr);
+
+            ses->cup->ev->read_cb = NULL;
+            ses->cup->ev->write_cb = s5_cup_connect;
+            return ses->cup->ev->write_cb(ses->cup);
+        } else {
+            return dns_alloc(&ses->dns,
+                            (char*)s5p2->dst_addr,
+                            s5_cup_dns_cb,
+                            ses);
+        }
+    }
+
+    err("s5p2 atyp [0x%x]. not support\n", s5p2->atyp);
+    net_free(cdown);
+    return -1;
+}
+
+
+int s5_p2_req(con_t *cdown) {
+    unsigned char *p = NULL;
+
+    tls_tunnel_session_t *ses = cdown->data;
+    s5_t *s5 = (s5_t*)ses->adata;
+    s5_ph2_req_t *s5p2 = &s5->s5p2;
+    meta_t *meta = cdown->meta;
+
+    enum {
+        VER = 0,
+        CMD,
+        RSV,
+        TYP,
+        TYP_V4,
+        TYP_V6,
+        TYP_DOMAINN,
+        TYP_DOMAIN,
+        PORT,
+        END
+    };
+
+    /*
+    s5 msg phase2 format
+        char  char  char  char   ...    char*2
+        VER | CMD | RSV | ATYP | ADDR | PORT
+    */
+
+    for (;;) {
+        if (meta_getlen(meta) < 1) {
+            int recvn = cdown->recv(cdown, meta->last, meta_getfree(meta));
+            if (recvn < 0) {
+                if (recvn == -11) {
+                    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+                    return -11;
+                }
+                err("s5p2 recv failed\n");
+                net_free(cdown);
+                return -1;
+            }
+            meta->last += recvn;
+        }
+        
+        for (; meta->pos < meta->last; meta->pos++) {
+            p = meta->pos;
+            if (s5->s5_state == VER) {  ///ver is fixed. 0x05
+                s5p2->ver = *p;
+                s5->s5_state = CMD;
+                continue;
+            }
+            if (s5->s5_state == CMD) {
+                /*
+                    socks5 support cmd value
+                    01                connect
+                    02                bind
+                    03                udp associate
+                */
+                s5p2->cmd = *p;
+                s5->s5_state = RSV;
+                continue;
+            }
+            if (s5->s5_state == RSV) {    // RSV means resverd
+                s5p2->rsv = *p;
+                s5->s5_state = TYP;
+                continue;
+            }
+            if (s5->s5_state == TYP) {
+                s5p2->atyp = *p;
+                /*
+                    atyp        type        length
+                    0x01        ipv4        4
+                    0x03        domain        first octet of domain part
+                    0x04        ipv6        16
+                */
+                if (s5p2->atyp == S5_RFC_IPV4) {
+                    s5->s5_state = TYP_V4;
+                    s5p2->dst_addr_n = 4;
+                    s5p2->dst_addr_cnt = 0;
+                    continue;
+                } else if (s5p2->atyp == S5_RFC_IPV6) {
+                    s5->s5_state = TYP_V6;
+                    s5p2->dst_addr_n = 16;
+                    s5p2->dst_addr_cnt = 0;
+                    continue;
+                } else if (s5p2->atyp == S5_RFC_DOMAIN) {
+                    /// atpy domain -> dst addr domain len -> dst addr domain
+                    s5->s5_state = TYP_DOMAINN;
+                    s5p2->dst_addr_n = 0;
+                    s5p2->dst_addr_cnt = 0;
+                    continue;
+                }
+                err("s5p2 atyp [%d] not support\n", s5p2->atyp);
+                net_free(cdown);
+                return -1;
+            }
+            if (s5->s5_state == TYP_V4) {
+                s5p2->dst_addr[(int)s5p2->dst_addr_cnt++] = *p;
+                if (s5p2->dst_addr_cnt == 4) {
+                    s5->s5_state = PORT;
+                    continue;
+                }
+            }
+            if (s5->s5_state == TYP_V6) {
+                s5p2->dst_addr[(int)s5p2->dst_addr_cnt++] = *p;
+                if (s5p2->dst_addr_cnt == 16) {
+                    s5->s5_state = PORT;
+                    continue;
+                }
+            }
+            if (s5->s5_state == TYP_DOMAINN) {
+                s5p2->dst_addr_n = *p;
+                s5->s5_state = TYP_DOMAIN;
+                if (s5p2->dst_addr_n == 0) {
+                    err("s5p2 domain empty\n");
+                    net_free(cdown);
+                    return -1;
+                }
+                continue;
+            }
+            if (s5->s5_state == TYP_DOMAIN) {
+                s5p2->dst_addr[(int)s5p2->dst_addr_cnt++] = *p;
+                if (s5p2->dst_addr_cnt == s5p2->dst_addr_n) {
+                    s5->s5_state = PORT;
+                    continue;
+                }
+            }
+            if (s5->s5_state == PORT) {
+                s5p2->dst_port[0] = *p;
+                s5->s5_state = END;
+                continue;
+            }
+            if (s5->s5_state == END) {
+                s5p2->dst_port[1] = *p;
+
+                s5->s5_state = 0;
+                EZ_TMDEL(cdown);
+                meta_clr(meta);
+
+                do {
+                    schk(0x05 == s5p2->ver, break);
+                    schk(0x01 == s5p2->cmd, break);    /// only support CONNECT 0x01 request
+                    schk(s5p2->atyp != S5_RFC_IPV6, break); /// not support IPV6 request
+    
+                    cdown->ev->read_cb = s5_cup_addr;
+                    cdown->ev->write_cb = NULL;
+                    return cdown->ev->read_cb(cdown);
+                } while(0);
+
+                net_free(cdown);
+                return -1;
+            }
+        }
+    }
+}
+
+int s5_p1_rsp(con_t *cdown) {
+    meta_t *meta = cdown->meta;
+
+    while (meta_getlen(meta) > 0) {
+        int sendn = cdown->send(cdown, meta->pos, meta_getlen(meta));
+        if (sendn < 0) {
+            if (sendn == -11) {
+                EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+                return -11;
+            }
+            err("s5p1 rsp send failed\n");
+            net_free(cdown);
+            return -1;
+        }
+        meta->pos += sendn;
+    }
+    EZ_TMDEL(cdown);
+    meta_clr(meta);
+    
+    cdown->ev->read_cb = s5_p2_req;
+    cdown->ev->write_cb = NULL;
+    return cdown->ev->read_cb(cdown);
+}
+
+int s5_p1_req(con_t *cdown) {
+    tls_tunnel_session_t *ses = cdown->data;
+    s5_t *s5 = (s5_t*)ses->adata;
+    s5_ph1_req_t *s5p1 = &s5->s5p1;
+    unsigned char *p = NULL;
+    meta_t *meta = cdown->meta;
+    /*
+        s5 phase1 message req format
+        1 byte    1 byte        nmethods
+        VERSION | METHODS | METHOD
+    */
+    enum {
+        VERSION = 0,
+        METHODN,
+        METHOD
+    };
+
+    for (;;) {
+        if (meta_getlen(meta) < 1) { ///try recv
+            int recvn = cdown->recv(cdown, meta->last, meta_getfree(meta));
+            if (recvn < 0) {
+                if (recvn == -11) {
+                    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+                    return -11;
+                }
+                err("s5p1 recv failed\n");
+                net_free(cdown);
+                return -1;
+            }
+            meta->last += recvn;
+        }
+
+        for (; meta->pos < meta->last; meta->pos++) {
+            p = meta->pos;
+            if (s5->s5_state == VERSION) {
+                s5p1->ver = *p;
+                s5->s5_state = METHODN;
+                continue;
+            }
+            if (s5->s5_state == METHODN) {
+                s5p1->methods_n = *p;
+                if (s5p1->methods_n == 0) {
+                    err("s5p1 no methods\n");
+                    net_free(cdown);
+                    return -1;
+                }
+                s5p1->methods_cnt = 0;
+                s5->s5_state = METHOD;
+                continue;
+            }
+            if (s5->s5_state == METHOD) {
+                s5p1->methods[s5p1->methods_cnt++] = *p;
+                if (s5p1->methods_n == s5p1->methods_cnt) {
+                    EZ_TMDEL(cdown);
+
+                    s5->s5_state = 0;
+                    meta_clr(meta);
+                    
+                    s5_ph1_rsp_t * ack = (s5_ph1_rsp_t*)meta->pos;
+                    ack->ver = 0x05;
+                    ack->method = 0x00;
+                    meta->last += sizeof(s5_ph1_rsp_t);
+                    
+                    cdown->ev->read_cb = NULL;
+                    cdown->ev->write_cb = s5_p1_rsp;
+                    return cdown->ev->write_cb(cdown);
+                }
+            }
+        }
+    }
+}
-- 
2.43.0


From 2487eb26436dd29930a40fd6b6d36a4af78d9b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:01 +0000
Subject: [PATCH 09/59] fix: release the pending query together with its
 session

A reset client was freed while its query was still pending and the
answer then used the freed session. A query that could not be set up
was never released or left its session waiting for ever.
---
 src/app/socks5.c | 9 ++++++++-
 src/dns/dns.c    | 5 ++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index d922057..11cabaa 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -8,6 +8,10 @@ static int s5_try_read(con_t *cdown) {
 
     if (0 != net_socket_check_status(cdown->fd)) {
         err("tls tunnel. socket chk err\n");
+        if (ses->dns) { ///resolving, the answer must not find this session
+            dns_free(ses->dns);
+            ses->dns = NULL;
+        }
         net_free(ses->cup);
         net_free(cdown);
         return -1;
@@ -111,6 +115,7 @@ void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
  
         //after result used 
         dns_free(dnsc); 	
+        ses->dns = NULL;
 
         ses->cup->addr.sin_family = AF_INET;
         ses->cup->addr.sin_port = addr_port;
@@ -121,7 +126,9 @@ void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
         ses->cup->ev->write_cb(ses->cup);
     } else {
         err("TLS tunnel. dns resolv failed\n");
-        dns_free(dnsc);
+        if (dnsc) 
+            dns_free(dnsc);
+        ses->dns = NULL;
         net_free(ses->cup);
         net_free(ses->cdown);
     }
diff --git a/src/dns/dns.c b/src/dns/dns.c
index 8bdb7b4..62a6d05 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -327,7 +327,8 @@ static int dns_request_packet(con_t *c) {
 
 int dns_alloc(dnsc_t **outdns, char *domain, dns_async_cb cb, void *userdata) {
     dnsc_t * dns = mem_pool_alloc(sizeof(dnsc_t));
-    schk(dns, return -1);
+    schk(dns, {cb(-1, NULL, userdata); return -1;});
+    *outdns = dns;
 
     dns->user_data = userdata;
     dns->cb = cb;
@@ -349,8 +350,6 @@ int dns_alloc(dnsc_t **outdns, char *domain, dns_async_cb cb, void *userdata) {
         schk(0 == net_socket_reuseaddr(dns->c->fd), break);
         schk(0 == net_socket_nbio(dns->c->fd), break);
 
-        *outdns = dns;
-
         memcpy(&dns->c->addr, &addr, sizeof(dns->c->addr));
         dns->c->ev->read_cb = NULL;
         dns->c->ev->write_cb = dns_request_packet;
-- 
2.43.0


From ccc76c6edc1ef925786493de833d1a255cb4124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:01 +0000
Subject: [PATCH 10/59] fix: honour the time to live of cached names

The sweep dropped live records and kept expired ones, lookups did not
look at the expiry at all, and a large time to live overflowed.
---
 src/dns/dns.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 62a6d05..7b40827 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -40,6 +40,8 @@ static int dns_rec_add(char *query, char *addr, int msec) {
         msec = DNS_TTL_MAX;
     rdns.expire_msec = systime_msec() + msec;
 
+    ezhash_del(dns_ctx->dns_hash, query, strlen(query)); ///outdated record
+
     ezhash_add(dns_ctx->dns_hash, query, strlen(query), &rdns, sizeof(dns_cache_t));
     ///dbg("dns cache add entry: [%s]. ttl [%d] msec\n", query, msec);
     return 0;
@@ -47,7 +49,7 @@ static int dns_rec_add(char *query, char *addr, int msec) {
 
 int dns_rec_find(char *query, char *out_addr) {
     dns_cache_t *dnsc = ezhash_find(dns_ctx->dns_hash, query, strlen(query));
-    if (dnsc) {
+    if (dnsc && dnsc->expire_msec > systime_msec()) {
         if (out_addr) memcpy(out_addr, dnsc->addr, 4);
         return 0;
     }
@@ -67,7 +69,7 @@ void dns_rec_chk(void *data) {
 
                     ezhash_obj_t *obj = ptr_get_struct(p, ezhash_obj_t, queue);
                     dns_cache_t *dnsc = obj->val;
-                    if (dnsc->expire_msec > now) {
+                    if (dnsc->expire_msec <= now) {
                         if (obj->key) 
                             mem_pool_free(obj->key);
                         if (obj->val)
@@ -167,7 +169,7 @@ int dns_response_analyze(con_t *c) {
                         /// do nothing, record already in cache 
                     } else {
                         if (rttl > 0 && rdatan > 0) {
-                            dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, 1000*rttl);
+                            dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, rttl > DNS_TTL_MAX/1000 ? DNS_TTL_MAX : 1000*rttl);
                         }
                     }
                     memcpy(dnsc->result, dnsc->answer.answer_addr, 4);
-- 
2.43.0


From d434006690a6859e260dbc33581e464411e032b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:02 +0000
Subject: [PATCH 11/59] fix: parse only complete records of the answer section

Labels were taken for compression pointers, records of the authority
and additional sections and records of any length were taken for
addresses.
---
 src/dns/dns.c | 117 ++++++++++++++++----------------------------------
 1 file changed, 38 insertions(+), 79 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 7b40827..fc3654b 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -97,94 +97,53 @@ inline static char * dns_get_serv(void) {
 }
 
 int dns_response_analyze(con_t *c) {
-    unsigned char *p = NULL;
-    int state_len = 0, cur = 0;
     dnsc_t *dnsc = c->data;
     meta_t *meta = c->meta;
-    
-    enum {
-        ANSWER_DOMAIN,
-        ANSWER_DOMAIN2,
-        ANSWER_COMMON_START,
-        ANSWER_COMMON,
-        ANSWER_ADDR_START,
-        ANSWER_ADDR
-    } state = ANSWER_DOMAIN;
-    p = meta->pos + sizeof(dns_header_t) + dnsc->qname_len + sizeof(dns_question_t);
+    dns_header_t *header = (dns_header_t*)meta->pos;
+    int answern = ntohs(header->answer_count);
+    unsigned char *p = meta->pos + sizeof(dns_header_t) + dnsc->qname_len + sizeof(dns_question_t);
+
     /*
-        parse dns answer
+        parse dns answer section only
     */
-    for (; p < meta->last; p++) {
-        if (state == ANSWER_DOMAIN) {
-            if ((*p)&0xc0) {    /// 0xc0 means two byte length 
-                dnsc->answer.name = p;
-                state = ANSWER_DOMAIN2;
-                continue;
-            } else {
-                /// not 0xc0 mean normal string type. then just wait the end flag 0 comes 
-                if (*p == 0) {    
-                    state = ANSWER_COMMON_START;
-                    cur = 0;
-                    state_len = sizeof(dns_rdata_t);
-                    continue;
-                }
+    while (answern-- > 0) {
+        dnsc->answer.name = p;
+        while (p < meta->last) {
+            if (((*p)&0xc0) == 0xc0) {    /// 0xc0 means two byte length 
+                p += 2;
+                break;
             }
-        }
-        if (state == ANSWER_DOMAIN2) {
-            cur = 0;
-            state_len = sizeof(dns_rdata_t);
-            state = ANSWER_COMMON_START;
-            continue;
-        }
-        if (state == ANSWER_COMMON_START) {
-            /// common start means common part already started
-            dnsc->answer.rdata = (dns_rdata_t *)p;
-            state = ANSWER_COMMON;
-        }
-        if (state == ANSWER_COMMON) {
-            cur++;
-            if(cur >= state_len) {
-                ///answer common finish, goto answer address
-                state = ANSWER_ADDR_START;
-                cur = 0;
-                state_len = ntohs(dnsc->answer.rdata->data_len);
-                continue;
+            if (*p == 0) {    /// not 0xc0 mean normal string type. end flag is 0
+                p += 1;
+                break;
             }
+            p += *p + 1;
         }
-        if (state == ANSWER_ADDR_START) {
-            dnsc->answer.answer_addr = p;
-            state = ANSWER_ADDR;
-        }
-        if (state == ANSWER_ADDR) {
-            cur++;
-            if (cur >= state_len) {
-                /// answer address finish. check address in here
-                unsigned int rttl = ntohl(dnsc->answer.rdata->ttl);
-                unsigned short rtyp = ntohs(dnsc->answer.rdata->type);
-                unsigned short rdatan = ntohs(dnsc->answer.rdata->data_len);
-
-                /// if this answer is a A TYPE answer (IPV4), return ok
-                if (rtyp == 0x0001) {
-                    if (0 == dns_rec_find((char*)dnsc->query, NULL)) {
-                        /// do nothing, record already in cache 
-                    } else {
-                        if (rttl > 0 && rdatan > 0) {
-                            dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, rttl > DNS_TTL_MAX/1000 ? DNS_TTL_MAX : 1000*rttl);
-                        }
-                    }
-                    memcpy(dnsc->result, dnsc->answer.answer_addr, 4);
-                    dns_async_result(dnsc, 0, dnsc->result);
-                    return 0;
-                } else if (rtyp == 0x0005) {
-                    ///dbg("dns answer type CNAME, ignore\n");
-                } else if (rtyp == 0x0002) {
-                    ///dbg("dns answer type NAME SERVER, ignore\n");
-                } else if (rtyp == 0x000f) {
-                    ///dbg("dns answer type MAIL SERVER, ignore\n");
+        if (meta->last - p < (int)sizeof(dns_rdata_t))
+            break;
+        dnsc->answer.rdata = (dns_rdata_t *)p;
+        p += sizeof(dns_rdata_t);
+
+        unsigned int rttl = ntohl(dnsc->answer.rdata->ttl);
+        unsigned short rtyp = ntohs(dnsc->answer.rdata->type);
+        unsigned short rdatan = ntohs(dnsc->answer.rdata->data_len);
+        if (meta->last - p < rdatan)
+            break;
+        dnsc->answer.answer_addr = p;
+        p += rdatan;
+
+        /// if this answer is a A TYPE answer (IPV4), return ok. ignore other types
+        if (rtyp == 0x0001 && rdatan == 4) {
+            if (0 == dns_rec_find((char*)dnsc->query, NULL)) {
+                /// do nothing, record already in cache 
+            } else {
+                if (rttl > 0) {
+                    dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, rttl > DNS_TTL_MAX/1000 ? DNS_TTL_MAX : 1000*rttl);
                 }
-                state = ANSWER_DOMAIN;
-                cur = 0;
             }
+            memcpy(dnsc->result, dnsc->answer.answer_addr, 4);
+            dns_async_result(dnsc, 0, dnsc->result);
+            return 0;
         }
     }
     err("dns rsp find result error.\n");
-- 
2.43.0


From 18725432c4dea5977160e4d3c1c5e3cf7284a0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:03 +0000
Subject: [PATCH 12/59] fix: take only a datagram from the resolver as its
 answer

Any datagram from anywhere was accepted, and short ones were glued
together until they were long enough.
---
 src/dns/dns.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index fc3654b..810fccc 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -159,25 +159,40 @@ int dns_response_recv(con_t *c) {
     /// at least the response need contains the request 
     size_t want_len = sizeof(dns_header_t) + dnsc->qname_len + sizeof(dns_question_t);
 
-    while (meta_getlen(meta) < want_len) {
-        int size = udp_recvs(c, meta->last, meta_getfree(meta));
+    for (;;) {
+        struct sockaddr_in serv = c->addr; ///overwritten by the sender of the datagram
+        int size = udp_recvs(c, meta->start, meta_cap(meta));
         if (size <= 0) {
             if (size == -11) {
                 // add timer for recv
-                EZ_TMADD(c, dns_cexp, DNS_TMOUT);
+                if (!c->ev->timer.f_timeset)
+                    EZ_TMADD(c, dns_cexp, DNS_TMOUT);
                 return -11;
             }
             err("dns recv response failed, errno [%d]\n", errno);
             dns_async_result(dnsc, -1, NULL);
             return -1;
         }
-        meta->last += size;
+        int from_serv = (c->addr.sin_addr.s_addr == serv.sin_addr.s_addr && c->addr.sin_port == serv.sin_port);
+        c->addr = serv;
+
+        header = (dns_header_t*)meta->start;
+        if (!from_serv || size < sizeof(dns_header_t) || header->id != htons(0xbeef))
+            continue; ///not the answer of this query
+        meta->pos = meta->start;
+        meta->last = meta->start + size;
+        break;
     }
     EZ_TMDEL(c);
 
+    if (meta_getlen(meta) < want_len) {
+        err("dns response too short\n");
+        dns_async_result(dnsc, -1, NULL);
+        return -1;
+    }
+
     /// do basic filter in here, check req question count and answer count     
-    header = (dns_header_t*)meta->pos;
-    if (ntohs(header->question_count) < 1) {
+    if (ntohs(header->question_count) != 1) {
         err("dns response question count [%d], illegal\n", header->question_count);
         dns_async_result(dnsc, -1, NULL);
         return -1;
-- 
2.43.0


From 9ea93cd2f82d52fee5a123d80bc62fff5d784f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:03 +0000
Subject: [PATCH 13/59] fix: refuse a name answer to another question

---
 src/dns/dns.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 810fccc..c269b1c 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -155,6 +155,7 @@ int dns_response_recv(con_t *c) {
     dnsc_t *dnsc = c->data;
     meta_t *meta = c->meta;
     dns_header_t *header = NULL;
+    unsigned char qname[DNS_METAN];
 
     /// at least the response need contains the request 
     size_t want_len = sizeof(dns_header_t) + dnsc->qname_len + sizeof(dns_question_t);
@@ -203,6 +204,13 @@ int dns_response_recv(con_t *c) {
         return -1;
     }
 
+    dns_request_host2qname(dnsc->query, qname);
+    if (strncasecmp((char*)qname, (char*)meta->pos + sizeof(dns_header_t), dnsc->qname_len)) {
+        err("dns response to another question\n");
+        dns_async_result(dnsc, -1, NULL);
+        return -1;
+    }
+
     // make dns connection event invalidate
     return dns_response_analyze(c);
 }
-- 
2.43.0


From 39943db4b03e5a49e49dfe10c12f40d8426b9bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:50 +0000
Subject: [PATCH 14/59] fix: do not spin on a queued TLS error

Peeking never removes an error from the queue, so one leftover error
made the worker loop for ever.
---
 src/common/ssl.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 930814c..8b46419 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -8,14 +8,7 @@ typedef struct {
 
 static g_ssl_t *g_ssl_ctx = NULL;
 
-#define ssl_clear_error()                   \
-{                                           \
-    unsigned long rc = 0;                   \
-    do {                                    \
-        rc = ERR_peek_error();              \
-    } while(rc);                            \
-    ERR_clear_error();                      \
-}
+#define ssl_clear_error() ERR_clear_error()
 
 #define ssl_dump_error(sslerr)                          \
 {                                                       \
-- 
2.43.0


From 311f0fce06972d55e3270564e62b4a051b0d12b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:51 +0000
Subject: [PATCH 15/59] fix: let the owner clean up when a TLS handshake times
 out

In the local role only the server leg was released and the session
kept using it.
---
 src/common/ssl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 8b46419..afaa17a 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -30,6 +30,11 @@ static g_ssl_t *g_ssl_ctx = NULL;
 void ssl_cexp(void *data) {
     con_t *c = data;
     c->ssl->f_err = 1;
+    if (!c->ssl->f_handshaked && c->ssl->handshake_cb) {
+        ///the owner releases everything that belongs to this connection
+        c->ssl->handshake_cb(c);
+        return;
+    }
     net_free(c);
     return;
 }
-- 
2.43.0


From f6c393ab4485654a51ed29b09cab4fec275d8efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:52 +0000
Subject: [PATCH 16/59] fix: restore the callbacks as they were before the TLS
 handshake

After a handshake that had to wait for writability the handshake
callback stayed installed and called itself without end.
---
 src/common/ssl.c | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index afaa17a..a1d38bf 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -107,17 +107,14 @@ static int ssl_handshake_cb(con_t *c) {
     if (c->ssl->f_handshaked) {
         if (c->ssl->cc_ev_typ) {
             ev_opt(c, c->ssl->cc_ev_typ);
+            c->ssl->cc_ev_typ = 0;
         }
 
-        if (c->ssl->cc_ev_cbw) {
-            c->ev->write_cb = c->ssl->cc_ev_cbw;
-            c->ssl->cc_ev_cbw = NULL;
-        }
+        c->ev->write_cb = c->ssl->cc_ev_cbw;
+        c->ssl->cc_ev_cbw = NULL;
 
-        if (c->ssl->cc_ev_cbr) {
-            c->ev->read_cb = c->ssl->cc_ev_cbr;
-            c->ssl->cc_ev_cbr = NULL;
-        }
+        c->ev->read_cb = c->ssl->cc_ev_cbr;
+        c->ssl->cc_ev_cbr = NULL;
 
         if (c->ev->write_cb) 
             return c->ev->write_cb(c);
@@ -152,16 +149,11 @@ int ssl_handshake(con_t *c) {
     int sslerr = SSL_get_error(sslc->con, rc);
     if ((sslerr == SSL_ERROR_WANT_READ) || (sslerr == SSL_ERROR_WANT_WRITE)) {
 
-        if (!sslc->cc_ev_typ) 
-            sslc->cc_ev_typ = c->ev->opt; ///cache current event opt
-            
-        if (!sslc->cc_ev_cbr)
-            if(c->ev->read_cb) 
-                sslc->cc_ev_cbr = c->ev->read_cb;
-
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                sslc->cc_ev_cbw = c->ev->write_cb;
+        if (!sslc->cc_ev_typ) { ///cache current event opt and callbacks
+            sslc->cc_ev_typ = c->ev->opt;
+            sslc->cc_ev_cbr = c->ev->read_cb;
+            sslc->cc_ev_cbw = c->ev->write_cb;
+        }
    
         if (sslerr == SSL_ERROR_WANT_READ) {
             c->ev->read_cb = ssl_handshake_cb;
-- 
2.43.0


From 94bb25da75d01d43d2fb02e34a2714272c589781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:54 +0000
Subject: [PATCH 17/59] fix: keep both directions of a TLS connection alive
 while one waits

Waiting in one direction dropped the interest in the other one, and the
callbacks saved at that time were put back much later, over the ones
installed meanwhile. A tunnel stalled, or sent data back to its sender.
---
 src/common/ssl.c | 93 +++++++++++++++++++++---------------------------
 src/common/ssl.h |  2 ++
 2 files changed, 43 insertions(+), 52 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index a1d38bf..4e85a81 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -169,7 +169,17 @@ int ssl_handshake(con_t *c) {
     return -1;
 }
 
-static int ssl_read_cb(con_t *c) { return c->ev->read_cb(c); }
+/// ask for an event, have it reported again if it is already there
+static void ssl_ev_again(con_t *c, int typ) {
+    if (c->ev->opt & typ)
+        ev_opt(c, c->ev->opt & ~typ);
+    ev_opt(c, c->ev->opt | typ);
+}
+
+static int ssl_read_cb(con_t *c) {
+    c->ev->write_cb = NULL;
+    return c->ev->read_cb ? c->ev->read_cb(c) : -11;
+}
 
 int ssl_read(con_t *c, unsigned char *buf, int bufn) {
     ssl_con_t * sslc = c->ssl;
@@ -177,35 +187,23 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
     ssl_clear_error();
 
     int rc = SSL_read(sslc->con, buf, bufn);
-    if (rc > 0) {
-        if (sslc->cc_ev_typ) {
-            ev_opt(c, sslc->cc_ev_typ);
-            sslc->cc_ev_typ = 0;
-        }
-        if (sslc->cc_ev_cbw) {
-            c->ev->write_cb = sslc->cc_ev_cbw;
-            sslc->cc_ev_cbw = NULL;
-        }
-        return rc;
+    if (sslc->f_wwantr) { ///a write waits for what has been read now
+        sslc->f_wwantr = 0;
+        ssl_ev_again(c, EV_W);
     }
+    if (rc > 0)
+        return rc;
     
     int sslerr = SSL_get_error(sslc->con, rc);
-    if (sslerr == SSL_ERROR_WANT_READ || sslerr == SSL_ERROR_WANT_WRITE) {
-        if (!sslc->cc_ev_typ) 
-            sslc->cc_ev_typ = c->ev->opt;
-        if (!sslc->cc_ev_cbr)
-            if (c->ev->read_cb) 
-                sslc->cc_ev_cbr = c->ev->read_cb;
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                sslc->cc_ev_cbw = c->ev->write_cb;
-
-        if (sslerr == SSL_ERROR_WANT_READ) {
-            ev_opt(c, EV_R);
-        } else if (sslerr == SSL_ERROR_WANT_WRITE) {
+    if (sslerr == SSL_ERROR_WANT_READ) {
+        ev_opt(c, c->ev->opt | EV_R);
+        return -11;
+    }
+    if (sslerr == SSL_ERROR_WANT_WRITE) {
+        sslc->f_rwantw = 1;
+        if (!c->ev->write_cb)
             c->ev->write_cb = ssl_read_cb;
-            ev_opt(c, EV_W);
-        }
+        ev_opt(c, c->ev->opt | EV_W);
         return -11;
     }
     /// if (sslerr == SSL_ERROR_ZERO_RETURN || ERR_peek_error() == 0) {
@@ -215,42 +213,33 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
     return -1;
 }
 
-static int ssl_write_cb(con_t *c) { return c->ev->write_cb(c); }
+static int ssl_write_cb(con_t *c) {
+    c->ev->read_cb = NULL;
+    return c->ev->write_cb ? c->ev->write_cb(c) : -11;
+}
 
 int ssl_write(con_t *c, unsigned char *data, int datan) {
     ssl_con_t * sslc = c->ssl;
 
     ssl_clear_error();
     int rc = SSL_write(sslc->con, data, datan);
-    if (rc > 0) {
-        if (sslc->cc_ev_typ) {
-            ev_opt(c, c->ssl->cc_ev_typ);
-            sslc->cc_ev_typ = 0;
-        }
-        if (sslc->cc_ev_cbr) {
-            c->ev->read_cb = sslc->cc_ev_cbr;
-            sslc->cc_ev_cbr = NULL;
-        }
-        return rc;
+    if (sslc->f_rwantw && rc > 0) { ///a read waits for what has been written now
+        sslc->f_rwantw = 0;
+        ssl_ev_again(c, EV_R);
     }
+    if (rc > 0)
+        return rc;
     
     int sslerr = SSL_get_error(sslc->con, rc);
-    if (sslerr == SSL_ERROR_WANT_READ || sslerr == SSL_ERROR_WANT_WRITE) {
-        if (!sslc->cc_ev_typ)
-            c->ssl->cc_ev_typ = c->ev->opt;
-        if (!sslc->cc_ev_cbr) 
-            if (c->ev->read_cb) 
-                c->ssl->cc_ev_cbr = c->ev->read_cb;
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                c->ssl->cc_ev_cbw = c->ev->write_cb;
-
-        if (sslerr == SSL_ERROR_WANT_READ) {
+    if (sslerr == SSL_ERROR_WANT_WRITE) {
+        ev_opt(c, c->ev->opt | EV_W);
+        return -11;
+    }
+    if (sslerr == SSL_ERROR_WANT_READ) {
+        sslc->f_wwantr = 1;
+        if (!c->ev->read_cb)
             c->ev->read_cb = ssl_write_cb;
-            ev_opt(c, EV_R);
-        } else if (sslerr == SSL_ERROR_WANT_WRITE) {
-            ev_opt(c, EV_W);
-        }
+        ev_opt(c, c->ev->opt | EV_R);
         return -11;
     }
     ssl_dump_error(sslerr);
diff --git a/src/common/ssl.h b/src/common/ssl.h
index 0f346d5..f675a82 100755
--- a/src/common/ssl.h
+++ b/src/common/ssl.h
@@ -26,6 +26,8 @@ typedef struct {
     char    f_handshaked:1;
     char    f_err:1;
     char    f_closed:1;
+    char    f_rwantw:1;   /// read waits for writable
+    char    f_wwantr:1;   /// write waits for readable
 } ssl_con_t;
 
 int ssl_init(void);
-- 
2.43.0


From 319c5d675086e46adf83e9368b6cfa36e51df2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:55 +0000
Subject: [PATCH 18/59] fix: drop only own pending events when a connection is
 freed

The indexes stay behind from earlier wake-ups, so freeing a connection
could discard the readiness of an unrelated one.
---
 src/common/event.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/event.c b/src/common/event.c
index 52409b6..3fe8fcc 100755
--- a/src/common/event.c
+++ b/src/common/event.c
@@ -241,9 +241,9 @@ int ev_alloc(ev_t **ev) {
 
 int ev_free(ev_t *ev) {
     if (ev) {
-        if (ev->idxr) 
+        if (ev->idxr && g_event_ctx->evs[ev->idxr] == ev) 
             g_event_ctx->evs[ev->idxr] = NULL;
-        if (ev->idxw)
+        if (ev->idxw && g_event_ctx->evs[ev->idxw] == ev)
             g_event_ctx->evs[ev->idxw] = NULL;
     
         queue_remove(&ev->queue);
-- 
2.43.0


From f7e4747749de2cc87dca786ca582844c11cf568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:55 +0000
Subject: [PATCH 19/59] fix: do not close a failed connection twice

---
 src/common/net.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/net.c b/src/common/net.c
index a641f37..7affc26 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -118,6 +118,7 @@ int net_connect(con_t *c, struct sockaddr_in *addr) {
             }
             err("connect failed, [%d]\n", errno);
             close(fd);
+            c->fd = 0;
             return -1;
         }
         return 0;
-- 
2.43.0


From a0721357dfb48610f6270b7c3d2e93ce1ff5e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:56 +0000
Subject: [PATCH 20/59] fix: accept all waiting connections even if one of them
 fails

The listener is edge triggered, connections left in its queue are not
reported again until another one arrives.
---
 src/common/net.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/common/net.c b/src/common/net.c
index 7affc26..2cb0867 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -138,24 +138,27 @@ int net_accept(con_t *c) {
         cfd = accept(c->fd, (struct sockaddr *)&caddr, &caddrn);
         if (-1 == cfd) {
             if (errno == EWOULDBLOCK ||
-                errno == EAGAIN ||
-                errno == EINTR ||
+                errno == EAGAIN
+            ) {
+                return -11;
+            }
+            if (errno == EINTR ||
                 errno == EPROTO ||
                 errno == ECONNABORTED
             ) {
-                return -11;
+                continue; ///others may be waiting, they are not reported again
             }
             err("accept failed, [%d]\n", errno);
             return -1;
         }
-        schk(net_alloc(&cc) != -1, {close(cfd); return -1;});
+        schk(net_alloc(&cc) != -1, {close(cfd); continue;});
         memcpy(&cc->addr, &caddr, caddrn);
         cc->fd = cfd;
         
-        schk(net_socket_nbio(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_nodelay(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_fastopen(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_lowat_send(cc->fd) == 0, {net_free(cc); return -1;});
+        schk(net_socket_nbio(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_nodelay(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_fastopen(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_lowat_send(cc->fd) == 0, {net_free(cc); continue;});
         
         cc->recv = recvs;
         cc->send = sends;
-- 
2.43.0


From 40783c3ef2bc575e399473b5d8d2700f1bd4d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:57 +0000
Subject: [PATCH 21/59] fix: give a new connection 5 seconds for its first byte

The timeout is in milliseconds, 5 ms dropped most remote clients.
---
 src/common/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/net.c b/src/common/net.c
index 2cb0867..b00de0b 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -171,7 +171,7 @@ int net_accept(con_t *c) {
         ///only check readable event for accept result 
         ev_opt(cc, EV_R);
 
-        EZ_TMADD(cc, net_exp, 5);
+        EZ_TMADD(cc, net_exp, 5*1000);
     }
     return 0;
 }
-- 
2.43.0


From d1796e2a9d315e5111e29f6d73b985b9fde82b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:58 +0000
Subject: [PATCH 22/59] fix: let traffic on either leg keep the tunnel open

Only the timer of one leg was renewed, a tunnel that was moving bytes
slowly was closed after 10 seconds.
---
 src/app/tls_tunnel_s.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 8daee22..ea53a4e 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -54,13 +54,19 @@ void tls_ses_exp(void *data) {
 }
 
 
+/// @brief any traffic keeps both legs alive
+static void tls_tunnel_traffic_tmadd(tls_tunnel_session_t *ses) {
+    EZ_TMADD(ses->cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    EZ_TMADD(ses->cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
+}
+
 static int tls_tunnel_traffic_recv(con_t *c) {
     tls_tunnel_session_t *ses = c->data;
     con_t *cdown = ses->cdown;
     con_t *cup = ses->cup;    
     int recvn = 0;
 
-    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    tls_tunnel_traffic_tmadd(ses);
 
     while (meta_getfree(cdown->meta) > 0) {
         recvn = cdown->recv(cdown, cdown->meta->last, meta_getfree(cdown->meta));
@@ -93,7 +99,7 @@ static int tls_tunnel_traffic_send(con_t *c) {
     con_t *cup = ses->cup;
     int sendn = 0;
 
-    EZ_TMADD(cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    tls_tunnel_traffic_tmadd(ses);
 
     while (meta_getlen(cdown->meta) > 0) {
         sendn = cup->send(cup, cdown->meta->pos, meta_getlen(cdown->meta));
@@ -128,7 +134,7 @@ static int tls_tunnel_traffic_reverse_recv(con_t *c) {
     con_t *cup = ses->cup;
     int recvn = 0;
 
-    EZ_TMADD(cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    tls_tunnel_traffic_tmadd(ses);
 
     while (meta_getfree(cup->meta) > 0) {
         recvn = cup->recv(cup, cup->meta->last, meta_getfree(cup->meta));
@@ -161,7 +167,7 @@ static int tls_tunnel_traffic_reverse_send(con_t *c) {
     con_t *cup = ses->cup;
     int sendn = 0;
     
-    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    tls_tunnel_traffic_tmadd(ses);
 
     while (meta_getlen(cup->meta) > 0) {
         sendn = cdown->send(cdown, cup->meta->pos, meta_getlen(cup->meta));
-- 
2.43.0


From dc30357c699b95cff1ec0d42d0ec089057d5864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:58 +0000
Subject: [PATCH 23/59] fix: keep an application waiting that sends before the
 tunnel is ready

More than 12288 early bytes closed the connection.
---
 src/app/tls_tunnel_c.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/app/tls_tunnel_c.c b/src/app/tls_tunnel_c.c
index 15b0de1..e411608 100755
--- a/src/app/tls_tunnel_c.c
+++ b/src/app/tls_tunnel_c.c
@@ -12,10 +12,8 @@ static int tls_tunnel_c_recv(con_t *cdown) {
 
     for (;;) {
         if (meta_getfree(meta) < 1) {
-            err("TLS tunnel cdown recv ccdata too much\n");
-            net_free(ses->cup);
-            net_free(ses->cdown);
-            return -1;
+            ///enough cached, the rest is read when the tunnel is ready
+            return -11;
         }
 
         /// cache read data
-- 
2.43.0


From e5734dce0f9e2f58a2019017c56f98ccacb1f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:40 +0000
Subject: [PATCH 24/59] fix: continue an incomplete request instead of scanning
 it again

A request line or header that did not arrive in one piece made the
worker scan the same bytes for ever, and a request line that filled the
buffer exactly aborted it.
---
 src/http/http_req.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 8652b45..1f8bd79 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -40,6 +40,10 @@ static int web_req_line(con_t *c, web_req_t *req) {
 
     for (;;) {
         if (meta_getlen(c->meta) < 1) {
+            if (meta_getfree(c->meta) < 1) {
+                err("webreq meta full\n");
+                return -1;
+            }
             int recvd = c->recv(c, c->meta->last, meta_getfree(c->meta));
             if (recvd < 0) {
                 if (recvd == -11) {
@@ -187,11 +191,7 @@ static int web_req_line(con_t *c, web_req_t *req) {
                 }
             }
         }
-
-        if (meta_getfree(c->meta) < 1) {
-            err("webreq meta full\n");
-            return -1;
-        }
+        meta->pos = p; ///all consumed, wait for more
     }
 }
 
@@ -210,6 +210,10 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
     for (;;) {
         
         if (meta_getlen(c->meta) < 1) {
+            if (meta_getfree(c->meta) < 1) {
+                err("webreq meta full\n");
+                return -1;
+            }
             int recvd = c->recv(c, c->meta->last, meta_getfree(c->meta));
             if (recvd < 0) {
                 if (recvd == -11) {
@@ -304,11 +308,7 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
                 }
             }
         }
-
-        if (meta_getfree(c->meta) < 1) {
-            err("webreq meta full\n");
-            return -1;
-        }
+        meta->pos = p; ///all consumed, wait for more
     }
 }
 
-- 
2.43.0


From f58a717a210c70b64f3312d786af51f93a48ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:41 +0000
Subject: [PATCH 25/59] fix: accept header fields with an empty value

The line end was taken as the first byte of the value and the following
lines were swallowed.
---
 src/http/http_req.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 1f8bd79..a3de429 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -254,6 +254,11 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
             if (req->state == s_value_init) {
                 if (*p == SP) { /// do nothing
                     continue;
+                } else if (*p == CR) { ///empty value
+                    req->kvs[req->kvn].v.data = p;
+                    req->kvs[req->kvn].v.len = 0;
+                    req->state = s_end;
+                    continue;
                 } else {
                     req->kvs[req->kvn].v.data = p;
                     req->state = s_value;
-- 
2.43.0


From b086e69734ca71153f402ac7aa0d69b2e1130191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:42 +0000
Subject: [PATCH 26/59] fix: compare header names, values and methods as a
 whole

Only the received length was compared, so any prefix matched, "C" was
both Connection and Content-Length.
---
 src/http/http_req.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index a3de429..2cbf36a 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -17,6 +17,10 @@ void web_req_free(web_req_t *webreq) {
         mem_pool_free(webreq);
 }
 
+static int web_req_str_eq(string_t *s, const char *str) {
+    return s->len == strlen(str) && strncasecmp((char*)s->data, str, s->len) == 0;
+}
+
 static int web_req_line(con_t *c, web_req_t *req) {
     unsigned char *p = NULL;
     ///reqline example
@@ -294,16 +298,16 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
 
                     int i = 0;
                     for (i = 0; i < req->kvn; i++) {
-                        if (strncasecmp((char*)req->kvs[i].k.data, "Connection", req->kvs[i].k.len) == 0) {
-                            if (strncasecmp((char*)req->kvs[i].v.data, "Keep-Alive", req->kvs[i].v.len) == 0) {
+                        if (web_req_str_eq(&req->kvs[i].k, "Connection")) {
+                            if (web_req_str_eq(&req->kvs[i].v, "Keep-Alive")) {
                                 req->fkeepalive = 1;
                             }
                         }
                     }
 
-                    if (strncasecmp((char*)req->method.data, "GET", req->method.len) == 0) {
+                    if (web_req_str_eq(&req->method, "GET")) {
                         req->method_typ = HTTP_METHOD_GET;
-                    } else if (strncasecmp((char*)req->method.data, "POST", req->method.len) == 0) {
+                    } else if (web_req_str_eq(&req->method, "POST")) {
                         req->method_typ = HTTP_METHOD_POST;
                     }
                     return req->cb(c, req);
@@ -321,7 +325,7 @@ static int web_req_payload(con_t *c, web_req_t *req) {
     if (!req->payload) {
         int i = 0;
         for (i = 0; i < req->kvn; i++) {
-            if (strncasecmp((char*)req->kvs[i].k.data, "Content-Length", req->kvs[i].k.len) == 0) {
+            if (web_req_str_eq(&req->kvs[i].k, "Content-Length")) {
                 req->payloadn = strtol((char*)req->kvs[i].v.data, NULL, 10);
                 if (req->payloadn < 0) {
                     err("webreq payloadn illegal. [%d]\n", req->payloadn);
-- 
2.43.0


From 2f9099570197db75c56b2ab9b582095ff8530066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:42 +0000
Subject: [PATCH 27/59] fix: consume exactly the body of a request

The body was left in the buffer and parsed again as the next request,
and a request following the body closed the connection.
---
 src/http/http_req.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 2cbf36a..aad88a4 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -326,23 +326,27 @@ static int web_req_payload(con_t *c, web_req_t *req) {
         int i = 0;
         for (i = 0; i < req->kvn; i++) {
             if (web_req_str_eq(&req->kvs[i].k, "Content-Length")) {
-                req->payloadn = strtol((char*)req->kvs[i].v.data, NULL, 10);
-                if (req->payloadn < 0) {
-                    err("webreq payloadn illegal. [%d]\n", req->payloadn);
+                long payloadn = strtol((char*)req->kvs[i].v.data, NULL, 10);
+                if (payloadn < 0) {
+                    err("webreq payloadn illegal. [%ld]\n", payloadn);
                     return -1;
                 }
-                if (req->payloadn > (10*1024*1024)) {
-                    err("ebreq payloadn too big. [%d]\n", req->payloadn);
+                if (payloadn > (10*1024*1024)) {
+                    err("ebreq payloadn too big. [%ld]\n", payloadn);
                     return -1;
                 }
+                req->payloadn = payloadn;
             }
         }
 
         if (req->payloadn > 0) {
             schk(0 == meta_alloc(&req->payload, req->payloadn), return -1);
             int remain = meta_getlen(c->meta);
+            if (remain > req->payloadn) ///next request follows
+                remain = req->payloadn;
             if (remain) {
-                schk(0 == meta_pdata(req->payload, c->meta->pos, meta_getlen(c->meta)), return -1);
+                schk(0 == meta_pdata(req->payload, c->meta->pos, remain), return -1);
+                c->meta->pos += remain;
             }
         } else {
             return 0;
-- 
2.43.0


From f1193d671ad15af651c9e95051dd9026880ddc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:43 +0000
Subject: [PATCH 28/59] fix: release the body of a request

---
 src/http/http_req.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index aad88a4..e830116 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -13,8 +13,10 @@ web_req_t * web_req_alloc(void) {
 }
 
 void web_req_free(web_req_t *webreq) {
-    if (webreq)
+    if (webreq) {
+        meta_free(webreq->payload);
         mem_pool_free(webreq);
+    }
 }
 
 static int web_req_str_eq(string_t *s, const char *str) {
-- 
2.43.0


From b4f40804427f3add204adc7c5259bcbdd49f6fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:44 +0000
Subject: [PATCH 29/59] fix: keep the bytes already read when a web request
 starts

A second buffer was allocated, which lost the first one together with
pipelined requests and with the request of a shared port.
---
 src/app/webser.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index a4f41e6..326c873 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -120,7 +120,7 @@ static int webser_keepalive(con_t *c) {
     ///process net con meta remian data 
     int remain = meta_getlen(c->meta);
     if (remain) {
-        memcpy(c->meta->start, c->meta->pos, remain);
+        memmove(c->meta->start, c->meta->pos, remain);
         c->meta->pos = c->meta->start;
         c->meta->last = c->meta->pos + remain;
     } else {
@@ -438,10 +438,11 @@ static int webser_req_proc(con_t *c) {
 static int webser_start(con_t *c) {
     webser_t *webc = NULL;
     ///init web connection page and meta memory for use
-    schk(0 == meta_alloc(&c->meta, 4096), {
-        net_free(c);
-        return -1;
-    });
+    if (!c->meta)
+        schk(0 == meta_alloc(&c->meta, 4096), {
+            net_free(c);
+            return -1;
+        });
 
     schk(0 == web_calloc(&webc), {
         net_free(c);
-- 
2.43.0


From 9ffc112f863c18151d7738c306dfe6cfde48129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:45 +0000
Subject: [PATCH 30/59] fix: free a web connection once when memory runs out

---
 src/app/webser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 326c873..f58c12b 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -116,6 +116,8 @@ static int webser_keepalive(con_t *c) {
     meta_free(webc->rsp_hdr);
     meta_free(webc->rsp_payload);
     mem_pool_free(webc);
+    c->data = NULL;
+    c->data_cb = NULL;
 
     ///process net con meta remian data 
     int remain = meta_getlen(c->meta);
@@ -275,7 +277,7 @@ static int webser_rsp_hdrp(con_t *c, const char * str, ...) {
 
 
     if (!webc->rsp_hdr) {
-        schk(0 == meta_alloc(&webc->rsp_hdr, 4096), {net_free(c);return -1;});
+        schk(0 == meta_alloc(&webc->rsp_hdr, 4096), return -1);
     }
     meta_t * n = webc->rsp_hdr;
     meta_t * p = NULL;
@@ -287,9 +289,9 @@ static int webser_rsp_hdrp(con_t *c, const char * str, ...) {
         }
         n = n->next;
     }
-    schk(0 == meta_alloc(&n, 4096), {net_free(c);return -1;});
-    schk(0 == meta_pdata(n, buf, strlen(buf)), {net_free(c);return -1;});
+    schk(0 == meta_alloc(&n, 4096), return -1);
     p->next = n;
+    schk(0 == meta_pdata(n, buf, strlen(buf)), return -1);
     return 0;
 }
 
-- 
2.43.0


From b3de0881f06e1a78eb331110502ec3adf09abc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:46 +0000
Subject: [PATCH 31/59] fix: end the status line of a 400 response

---
 src/app/webser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index f58c12b..a7e9c53 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -308,7 +308,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         if (rcode == 200) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 200 OK\r\n"), break);
         } else if (rcode == 400) {
-            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request"), break);
+            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request\r\n"), break);
         } else if (rcode == 403) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 403 Forbidden\r\n"), break);
         } else if (rcode == 404) {
@@ -316,7 +316,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         } else if (rcode == 500) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 500 Internal Server Error\r\n"), break);
         } else {
-            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request"), break);
+            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request\r\n"), break);
         }
         schk(0 == webser_rsp_hdrp(c, "Server: s5\r\n"), break);
         schk(0 == webser_rsp_hdrp(c, "Date: %s\r\n", systime_gmt()), break);    
-- 
2.43.0


From 7571b7f0610a0a935b6d0c2b5980f964e40f7d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:47 +0000
Subject: [PATCH 32/59] fix: look for parent directories in the whole target

Only the first 1024 bytes were checked, and a target of that length was
read beyond its end.
---
 src/app/webser.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index a7e9c53..39c6616 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -405,10 +405,9 @@ static int webser_req_router(con_t *c) {
             return -1;
         });
         
-        char uri[1024] = {0};
-        memcpy(uri, webc->webreq->uri.data,
-                webc->webreq->uri.len > 1024 ? 1024 : webc->webreq->uri.len);
-        schk(!strstr(uri, "../"), {net_free(c);return -1;});
+        int i = 0;
+        for (i = 0; i + 3 <= webc->webreq->uri.len; i++)
+            schk(0 != memcmp(webc->webreq->uri.data + i, "../", 3), {net_free(c);return -1;});
         
         c->ev->read_cb = webser_req_file;
         c->ev->write_cb = NULL;
-- 
2.43.0


From 81785440ba79bf1a91bf428fb5a17a639bbf903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:48 +0000
Subject: [PATCH 33/59] fix: answer 400 to targets that do not fit a file name

The name was written beyond the end of its buffer.
---
 src/app/webser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/webser.c b/src/app/webser.c
index 39c6616..1a9b1e7 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -348,6 +348,11 @@ static int webser_req_file(con_t *c) {
     char *s = p;
     char *e = p + sizeof(p);
     
+    if (strlen(config_get()->http_home) + webc->webreq->uri.len + 
+        strlen(config_get()->http_index) + 2 > sizeof(p)) {
+        err("webser reqfile name too long\n");
+        return webser_rsp(c, 400, NULL, NULL, 0);
+    }
     s += snprintf(s, e-s, "%s", config_get()->http_home);
     if(webc->webreq->uri.len > 0) {
         s += snprintf(s, e-s, "%.*s", webc->webreq->uri.len, webc->webreq->uri.data);
-- 
2.43.0


From 7e320ebc16ee5049a271d419c7da07a10081206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:49 +0000
Subject: [PATCH 34/59] fix: serve only regular files that can be opened

Directories and files that failed to open were announced with 200 and
a length, then the connection was closed.
---
 src/app/webser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 1a9b1e7..6a0def0 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -368,15 +368,17 @@ static int webser_req_file(con_t *c) {
         err("webser stat reqfile [%s] err, [%d]\n", p, errno);
         http_code = 400;
     } else {
-        if (st.st_mode & S_IFMT) {
+        if (S_ISREG(st.st_mode)) {
             if (st.st_mode & S_IRUSR) {
                 webc->ffd = open(p, O_RDONLY);
                 if (-1 == webc->ffd) {
                     err("webser open reqfile [%s] err, [%d]\n", p, errno);
                     http_code = 500;
+                    webc->ffd = 0;
+                } else {
+                    http_code = 200;
+                    webc->fsize = st.st_size;
                 }
-                http_code = 200;
-                webc->fsize = st.st_size;
             } else {
                 http_code = 403;
             }
-- 
2.43.0


From 3fca9f448c2be762a16be9b17bc28678dd2bcf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:50 +0000
Subject: [PATCH 35/59] fix: do not crash on a file name without a dot

---
 src/app/webser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 6a0def0..11d8cc5 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -388,7 +388,7 @@ static int webser_req_file(con_t *c) {
     }
 
     char exthdr[128] = {0};
-    sprintf(exthdr, "Content-type: %s\r\n", (char*)webser_rsp_mime(webc, postfix));
+    sprintf(exthdr, "Content-type: %s\r\n", (char*)webser_rsp_mime(webc, postfix ? postfix : ""));
     return webser_rsp(c, http_code, exthdr, NULL, 0);
 }
 
-- 
2.43.0


From 21138d7f93863cec1759010215bd6539b477f0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:51 +0000
Subject: [PATCH 36/59] fix: wait for writability while sending a response

On a plain port the rest of a response was never sent once the client
did not take it at once.
---
 src/app/webser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/webser.c b/src/app/webser.c
index 11d8cc5..7d5b2bc 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -336,6 +336,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
     
     c->ev->read_cb = webser_try_read;
     c->ev->write_cb = webser_rsp_hdr_send;
+    ev_opt(c, EV_R|EV_W);
     return c->ev->write_cb(c);
 }
 
-- 
2.43.0


From 9d7aa88f73db695a52fe70eb9a822c1bb30f386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:52 +0000
Subject: [PATCH 37/59] fix: answer an echo request without a body

---
 src/app/web_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/web_api.c b/src/app/web_api.c
index 467e339..700acb7 100755
--- a/src/app/web_api.c
+++ b/src/app/web_api.c
@@ -4,6 +4,8 @@
 
 static int wapi_echo_post(con_t *c) {
     webser_t * webc = c->data;
+    if (!webc->webreq->payload)
+        return webser_rsp(c, 200, NULL, NULL, 0);
     ///dbg("http req data [%s]\n", webc->webreq->payload->pos);
     return webser_rsp(c, 200, NULL, webc->webreq->payload->pos, meta_getlen(webc->webreq->payload));
 }
-- 
2.43.0


From b0186fdfd4fa69681ecec74e738bfa218185b411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:53 +0000
Subject: [PATCH 38/59] fix: cut long api names at the size of their buffer

---
 src/app/webser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 7d5b2bc..cff27a9 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -49,7 +49,7 @@ int webser_api_reg(char *key, ev_cb cb, enum http_process_status method_type, ch
     schk(p, return -1);
     int keyn = 0;
     if (strlen(key) > (sizeof(p->key)-1)) {
-        keyn = sizeof(key)-1;
+        keyn = sizeof(p->key)-1;
     } else {
         keyn = strlen(key);
     }
-- 
2.43.0


From 63b74713d4ee553e2db58878e6d11a211aea8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:26 +0000
Subject: [PATCH 39/59] fix: keep the timer heap ordered when a timer is
 cancelled

The last element may be smaller than the parent of the removed one, it
then fired late.
---
 src/common/util/bheap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/util/bheap.c b/src/common/util/bheap.c
index c852865..5d2dc77 100755
--- a/src/common/util/bheap.c
+++ b/src/common/util/bheap.c
@@ -58,8 +58,14 @@ int heap_del(heap_t * heap, int del_index)
     
     tail_node = heap->array[heap->index];
     heap->index--;
+    if(del_index > heap->index) return 0; ///the tail itself
     
     i = del_index;
+    while(HEAP_PARENT(i) && tail_node->key < heap->array[HEAP_PARENT(i)]->key) { ///tail comes from another branch
+        heap->array[i] = heap->array[HEAP_PARENT(i)];
+        heap->array[i]->index = i;
+        i = HEAP_PARENT(i);
+    }
     while(HEAP_LCHILD(i) <= heap->index) { ///left child is necessary. right child is unnecessary
         child_min = HEAP_LCHILD(i);
         if(HEAP_RCHILD(i) <= heap->index) {
-- 
2.43.0


From 9004bd08e532c5fd39230fc4cd39567766e846fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:27 +0000
Subject: [PATCH 40/59] fix: do not mark a timer as set when there is no room
 for it

---
 src/common/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/timer.c b/src/common/timer.c
index 04dcc8d..84160d8 100755
--- a/src/common/timer.c
+++ b/src/common/timer.c
@@ -19,7 +19,7 @@ int tm_add(ev_timer_t *timer, timer_cb cb, void *data, int delay_ms) {
     timer->cb = cb;
     timer->data = data;
     timer->node.key = (systime_msec() + delay_ms);
-    schk(0 == heap_add(g_heap, &timer->node), return -1);
+    schk(0 == heap_add(g_heap, &timer->node), {timer->f_timeset = 0; return -1;});
     return 0;
 }
 
-- 
2.43.0


From e4bf5264811207efa60afe13d8f41faa495e8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:27 +0000
Subject: [PATCH 41/59] fix: check the size class that is allocated from for
 exhaustion

Only the smallest class was checked, an exhausted larger class handed
out its own list head.
---
 src/common/mem.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/common/mem.c b/src/common/mem.c
index 5442cfd..25ae679 100755
--- a/src/common/mem.c
+++ b/src/common/mem.c
@@ -124,7 +124,7 @@ int mem_pool_init(void) {
 int mem_pool_free(void *p) {
     pthread_mutex_lock(&g_mp_thread_lock);
     mem_obj_t * obj = ptr_get_struct(p, mem_obj_t, addr);
-    schk(obj->magic == MP_OBJ_MAGIC, return -1);
+    schk(obj->magic == MP_OBJ_MAGIC, {pthread_mutex_unlock(&g_mp_thread_lock); return -1;});
     queue_remove(&obj->queue);
     queue_insert_tail(&g_mem_ctx.blks[obj->blk_idx].usable, &obj->queue);
     pthread_mutex_unlock(&g_mp_thread_lock);
@@ -137,11 +137,6 @@ void * mem_pool_alloc(int size) {
     assert(size > 0);
 
     pthread_mutex_lock(&g_mp_thread_lock);
-    if(queue_empty(&g_mem_ctx.blks[blk_idx].usable)) {
-        pthread_mutex_unlock(&g_mp_thread_lock);
-        return NULL;
-    }
-    
     ///choice block
     if (size <= 512) {
         blk_idx = 0;
@@ -167,6 +162,10 @@ void * mem_pool_alloc(int size) {
         return NULL;
     }
     
+    if(queue_empty(&g_mem_ctx.blks[blk_idx].usable)) {
+        pthread_mutex_unlock(&g_mp_thread_lock);
+        return NULL;
+    }
     queue_t * q = queue_head(&g_mem_ctx.blks[blk_idx].usable);
     mem_obj_t * obj = ptr_get_struct(q, mem_obj_t, queue);
     queue_remove(&obj->queue);
-- 
2.43.0


From 56bc6283b34c5ed5895ea24cf207236cc3c45e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:28 +0000
Subject: [PATCH 42/59] fix: signal every running worker

The broadcast stopped at the first worker that was already gone.
---
 src/common/process.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/process.c b/src/common/process.c
index 022b328..9ec1d68 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -38,9 +38,10 @@ int proc_signal_send(pid_t pid, int32 signal) {
 static int proc_signal_bcast(int sig) {
     int i = 0;
     for (i = 0; i < config_get()->sys_process_num; i++) {
+        if (g_proc_ctx->processes[i].exited)
+            continue;
         if (-1 == proc_signal_send(g_proc_ctx->processes[i].pid, sig)) {
             err("broadcast signal failed\n");
-            return -1;
         }
     }
     return 0;
-- 
2.43.0


From f3e2aa7f3ca158535b459d33b4334610dea3c34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:29 +0000
Subject: [PATCH 43/59] fix: do not lose a reload request while the master is
 busy

---
 src/common/process.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/process.c b/src/common/process.c
index 9ec1d68..67cbc46 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -88,6 +88,7 @@ void proc_master_run(void) {
     sigemptyset(&set);
     sigaddset(&set, SIGCHLD);
     sigaddset(&set, SIGINT);
+    sigaddset(&set, SIGHUP);
     sigaddset(&set, SIGUSR1);
     sigaddset(&set, SIGUSR2);
     if (sigprocmask(SIG_BLOCK, &set, NULL) == -1) {
-- 
2.43.0


From 1190004bd7194e92429066a0676eaf9438ac057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:29 +0000
Subject: [PATCH 44/59] fix: keep the pid file when a worker exits

Reload and stop could not find the master any more.
---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c2af9a1..98e195e 100755
--- a/src/main.c
+++ b/src/main.c
@@ -121,9 +121,11 @@ int main(int argc, char ** argv)
     schk(0 == proc_pid_create(), return -1);
     schk(0 == modules_core_init(), {unlink(S5_PATH_PID); return -1;});
 
+    pid_t pid = getpid();
     config_get()->sys_process_num > 0 ? proc_master_run() : proc_worker_run();
     modules_core_exit();
-    unlink(S5_PATH_PID);
+    if(pid == getpid()) ///a worker leaves the pid file of its master alone
+        unlink(S5_PATH_PID);
     return 0;
 }
 #endif
-- 
2.43.0


From 744156db73f25bc7f86e233c8f3293249ac669f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:30 +0000
Subject: [PATCH 45/59] fix: do not write more of a log line than there is

A line that was cut was written with its full length, from beyond the
end of the buffer.
---
 src/common/log.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/log.c b/src/common/log.c
index 57bad7e..167ae32 100755
--- a/src/common/log.c
+++ b/src/common/log.c
@@ -18,6 +18,8 @@ static int log_format_prefix(log_content_t *ctx) {
     ctx->pos += snprintf(ctx->pos, (ctx->last - ctx->pos)-1, "%.*s %s <%s:%d> ",
         levels[ctx->level].len, levels[ctx->level].data,
         systime_log(), ctx->func, ctx->line );
+    if (ctx->pos > ctx->last - 2) ///cut
+        ctx->pos = ctx->last - 2;
     return 0;
 }
 
@@ -25,6 +27,8 @@ static int log_format_text(log_content_t *ctx) {
     
     ctx->pos += vsnprintf(ctx->pos, (ctx->last - ctx->pos)-1, ctx->args, ctx->args_list);
     va_end(ctx->args_list);
+    if (ctx->pos > ctx->last - 2) ///cut
+        ctx->pos = ctx->last - 2;
     return 0;
 }
 
-- 
2.43.0


From 64cf53ad5f65bb2a6af21d78041d0eefc1a7d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:30 +0000
Subject: [PATCH 46/59] fix: wrap the ring buffer at its exact end

A push or pull starting at the very end did not go back to the start,
and a push between the positions filled all the free space.
---
 src/common/ringbuffer.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/common/ringbuffer.c b/src/common/ringbuffer.c
index 4d81b27..f14bf5d 100755
--- a/src/common/ringbuffer.c
+++ b/src/common/ringbuffer.c
@@ -64,8 +64,8 @@ int ringbuffer_push(ringbuffer_t *rb,unsigned char *data, int datan)
                 memcpy(rb->last, data, tailn);
                 rb->last += tailn;
                 rb->datan += tailn;
-                rb->last = rb->start;
             }
+            rb->last = rb->start;
             int headn = datan - tailn;
             memcpy(rb->start, data + tailn, headn);
             rb->last += headn;
@@ -73,10 +73,9 @@ int ringbuffer_push(ringbuffer_t *rb,unsigned char *data, int datan)
         }
     } else {
         /// start-----last-----pos-----end
-        int freen = rb->pos - rb->last;
         memcpy(rb->last, data, datan);
-        rb->last += freen;
-        rb->datan += freen;
+        rb->last += datan;
+        rb->datan += datan;
     }
     pthread_mutex_unlock(&rb->lock);
     return 0;
@@ -113,8 +112,8 @@ int ringbuffer_pull(ringbuffer_t *rb, int datan, unsigned char *data, int *outn)
                 memcpy(data, rb->pos, tailn);
                 rb->pos += tailn;
                 rb->datan -= tailn;
-                rb->pos = rb->start;
             }
+            rb->pos = rb->start;
             int headn = rb->last - rb->start;
             int pulln = (datan - tailn >= headn ? headn : (datan - tailn));
             memcpy(data + tailn, rb->start, pulln);
-- 
2.43.0


From d2065c67197a00bc2ff2dc11af097b86fe14dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:31 +0000
Subject: [PATCH 47/59] fix: delete leaves and direct successors from the tree

Deleting a leaf crashed, deleting a node whose successor is its own
right child made that child its own parent, and moved nodes kept the
side they were on before.
---
 src/common/util/bst.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/common/util/bst.c b/src/common/util/bst.c
index 2ec5fee..7503484 100755
--- a/src/common/util/bst.c
+++ b/src/common/util/bst.c
@@ -105,6 +105,7 @@ int bst_del(bst_t * bst, long long key)
 
         n->left->parent = n->parent;
         n->left->level = n->level;
+        n->left->type = n->type;
     } else if (!n->left && n->right) {
         if(n->type == BST_LEFT) 
             n->parent->left = n->right;
@@ -113,19 +114,24 @@ int bst_del(bst_t * bst, long long key)
 
         n->right->parent = n->parent;
         n->right->level = n->level;
+        n->right->type = n->type;
+    } else if (!n->left && !n->right) {
+        if(n->type == BST_LEFT) 
+            n->parent->left = NULL;
+        else
+            n->parent->right = NULL;
     } else {
         ///find right tree mininum node.
         bst_node_t * m = bst_min(n->right);
         ///delete the node
+        if(m->type == BST_LEFT)
+            m->parent->left = m->right;
+        else
+            m->parent->right = m->right;
         if(m->right) {
-            if(m->type == BST_LEFT)
-                m->parent->left = m->right;
-            else
-                m->parent->right = m->right;
             m->right->parent = m->parent;
             m->right->level = m->level;
-        } else {
-            m->parent->left = NULL;
+            m->right->type = m->type;
         }
         ///replace delete node with this node
         if(n->type == BST_LEFT) 
@@ -133,9 +139,11 @@ int bst_del(bst_t * bst, long long key)
         else
             n->parent->right = m;
         n->left->parent = m;
-        n->right->parent = m;
+        if(n->right)
+            n->right->parent = m;
         m->parent = n->parent;
         m->level = n->level;
+        m->type = n->type;
         m->left = n->left;
         m->right = n->right;
     }
-- 
2.43.0


From 105dc174b152c3d14f2bf17b3e6bbe9e49f27497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:31 +0000
Subject: [PATCH 48/59] fix: bound the configured port lists

---
 src/common/config.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/config.c b/src/common/config.c
index d37549f..62cb7c7 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -71,11 +71,11 @@ static int config_parse(char *str) {
         cJSON *http_home = cJSON_GetObjectItem(root, "http_home");
         cJSON *http_index = cJSON_GetObjectItem(root, "http_index");
         if (http_arr) {
-            for (i = 0; i < cJSON_GetArraySize(http_arr); i++)
+            for (i = 0; i < cJSON_GetArraySize(http_arr) && i < L_OPEN_PORT_MAX; i++)
                 g_config.http_arr[i] = cJSON_GetArrayItem(http_arr, i)->valueint;
         }
         if (https_arr) {
-            for (i = 0; i < cJSON_GetArraySize(https_arr); i++)
+            for (i = 0; i < cJSON_GetArraySize(https_arr) && i < L_OPEN_PORT_MAX; i++)
                 g_config.https_arr[i] = cJSON_GetArrayItem(https_arr, i)->valueint;
         }
         if (http_home)
@@ -84,10 +84,14 @@ static int config_parse(char *str) {
             strncpy(g_config.http_index, cJSON_GetStringValue(http_index), sizeof(g_config.http_index)-1);
 
         g_config.http_num = cJSON_GetArraySize(http_arr);
+        if (g_config.http_num > L_OPEN_PORT_MAX)
+            g_config.http_num = L_OPEN_PORT_MAX;
         ///for(i = 0; i < g_config.http_num; i++) 
         ///    dbg("[%d]\n", g_config.http_arr[i]);
             
         g_config.https_num = cJSON_GetArraySize(https_arr);
+        if (g_config.https_num > L_OPEN_PORT_MAX)
+            g_config.https_num = L_OPEN_PORT_MAX;
         ///for(i = 0; i < g_config.https_num; i++)
         ///    dbg("[%d]\n", g_config.https_arr[i]);
             
-- 
2.43.0


From 29f1d6cace913e88cb19fec13583c279f3f954e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:57:09 +0000
Subject: [PATCH 49/59] fix: send the rest of a file after a short write

When the socket took only part of the last chunk of a file, the sender
tried to read more of the file, hit its end and closed the connection.
---
 src/app/webser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index cff27a9..252a518 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -187,8 +187,9 @@ static int webser_rsp_payload_send_ff(con_t *c) {
         }
         if (webc->fsend >= webc->fsize) 
             break;
-        if (meta_getlen(meta) == 0) 
-            meta_clr(meta);
+        if (meta_getlen(meta) > 0) ///short write, send the rest first
+            continue;
+        meta_clr(meta);
         
         if (meta_getfree(meta) > 0) {
             int readn = read(webc->ffd, meta->last, meta_getfree(meta));
-- 
2.43.0


From 3351dfc01e3f73147baa4651c5b21a7f898ba5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:36:51 +0000
Subject: [PATCH 50/59] fix: let signals wait until the master is ready for
 them

---
 src/common/process.c | 14 ++++++++------
 src/common/process.h |  1 +
 src/main.c           |  1 +
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/common/process.c b/src/common/process.c
index 67cbc46..5c9cbf5 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -79,8 +79,7 @@ static int proc_fork(process_t *process) {
     return 0;
 }
 
-void proc_master_run(void) {
-    int i;
+int proc_signal_block(void) {
     sigset_t set;
 
     ///blocking this kind of signals
@@ -91,10 +90,13 @@ void proc_master_run(void) {
     sigaddset(&set, SIGHUP);
     sigaddset(&set, SIGUSR1);
     sigaddset(&set, SIGUSR2);
-    if (sigprocmask(SIG_BLOCK, &set, NULL) == -1) {
-        err("master blcok signal set failed, [%d]\n", errno);
-        return;
-    }
+    schk(0 == sigprocmask(SIG_BLOCK, &set, NULL), return -1);
+    return 0;
+}
+
+void proc_master_run(void) {
+    int i;
+    sigset_t set;
 
     for (i = 0; i < config_get()->sys_process_num; i++) { /// start worker process
         if (-1 == proc_fork(&g_proc_ctx->processes[i])) {
diff --git a/src/common/process.h b/src/common/process.h
index 9e2b975..5ab5129 100755
--- a/src/common/process.h
+++ b/src/common/process.h
@@ -15,6 +15,7 @@ typedef struct {
     int32            exited;
 } process_t ;
 
+int proc_signal_block(void);
 void proc_master_run(void);
 void proc_worker_run(void);
 
diff --git a/src/main.c b/src/main.c
index 98e195e..1ff03eb 100755
--- a/src/main.c
+++ b/src/main.c
@@ -118,6 +118,7 @@ int main(int argc, char ** argv)
 
     schk(0 == config_init(), return -1);
     schk(0 == proc_daemon(), return -1);
+    schk(0 == proc_signal_block(), return -1); ///a signal sent as soon as the pid is known waits for the master
     schk(0 == proc_pid_create(), return -1);
     schk(0 == modules_core_init(), {unlink(S5_PATH_PID); return -1;});
 
-- 
2.43.0


From b87062e2f75b0cbe0509f554ce795cf80f5176ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:36:54 +0000
Subject: [PATCH 51/59] fix: do not touch freed memory when a signal arrives at
 exit

---
 src/common/process.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/process.c b/src/common/process.c
index 5c9cbf5..ed6aa82 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -241,6 +241,7 @@ int process_init(void) {
 
 status process_end(void) {
     if(g_proc_ctx) {
+        schk(0 == proc_signal_block(), return -1); ///the signal callback uses the context
         if(g_proc_ctx->shm.size > 0 && g_proc_ctx->shm.data) {
             sys_shm_free(&g_proc_ctx->shm);
             g_proc_ctx->shm.size = 0;
-- 
2.43.0


From a0800ef006f4feaf4dafec108613676ea4b3c6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:56:26 +0000
Subject: [PATCH 52/59] fix: restore the line endings of the socks5 sources

An earlier repair had converted them, which hid what it changed.
---
 src/app/socks5.c | 902 +++++++++++++++++++++++------------------------
 src/app/socks5.h | 122 +++----
 2 files changed, 512 insertions(+), 512 deletions(-)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index 11cabaa..f68c69d 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -1,451 +1,451 @@
-#include "common.h"
-#include "dns.h"
-#include "tls_tunnel_s.h"
-#include "socks5.h"
-
-static int s5_try_read(con_t *cdown) {
-    tls_tunnel_session_t *ses = cdown->data;
-
-    if (0 != net_socket_check_status(cdown->fd)) {
-        err("tls tunnel. socket chk err\n");
-        if (ses->dns) { ///resolving, the answer must not find this session
-            dns_free(ses->dns);
-            ses->dns = NULL;
-        }
-        net_free(ses->cup);
-        net_free(cdown);
-        return -1;
-    }
-    return 0;
-}
-
-int s5_p2_rsp(con_t *cdown) {
-    tls_tunnel_session_t *ses = cdown->data;
-    meta_t *meta = cdown->meta;
-    int rc = 0;
-
-    while (meta_getlen(meta) > 0) {
-        rc = cdown->send(cdown, meta->pos, meta_getlen(meta));
-        if (rc < 0) {
-            if (rc == -11) {
-                EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
-                return -11;
-            }
-            err("TLS tunnel. s5p2 rsp send failed\n");
-            net_free(ses->cup);
-            net_free(cdown);
-            return -1;
-        }
-        meta->pos += rc;
-    }
-    EZ_TMDEL(cdown);
-    meta_clr(meta);
-    
-    cdown->ev->read_cb = tls_tunnel_traffic_proc;
-    cdown->ev->write_cb = NULL;
-    return cdown->ev->read_cb(cdown);
-}
-
-int s5_cup_connect_chk(con_t *cup) {
-    tls_tunnel_session_t *ses = cup->data;
-    con_t *cdown = ses->cdown;
-    meta_t *meta = cdown->meta;
-
-    EZ_TMDEL(cup);
-
-    if (0 != net_socket_check_status(cup->fd)) {
-        err("tls tunnel. socket chk err\n");
-        net_free(cup);
-        net_free(cdown);
-        return -1;
-    }
-    net_socket_nodelay(cup->fd);
-
-    s5_ph2_rsp_t * resp = (s5_ph2_rsp_t*)meta->last;
-    resp->ver = 0x05;
-    resp->rep = 0x00;
-    resp->rsv = 0x00;
-    resp->atyp = 0x01;
-    resp->bnd_addr = htons((uint16_t)cup->addr.sin_addr.s_addr);
-    resp->bnd_port = htons(cup->addr.sin_port);
-    meta->last += sizeof(s5_ph2_rsp_t);
-
-    cup->ev->read_cb = NULL;
-    cup->ev->write_cb = NULL;
-
-    cdown->ev->read_cb = NULL;
-    cdown->ev->write_cb = s5_p2_rsp;
-    return cdown->ev->write_cb(cdown);
-}
-
-int s5_cup_connect(con_t *cup) {
-    tls_tunnel_session_t *ses = cup->data;
-    status rc = 0;
-
-    cup->ev->read_cb = NULL;
-    cup->ev->write_cb = s5_cup_connect_chk;
-
-    rc = net_connect(ses->cup, &ses->cup->addr);
-    if (rc < 0) {
-        if (rc == -11) {
-            EZ_TMADD(cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
-            return -11;
-        }
-        err("socks5 connect err\n");
-        net_free(cup);
-        net_free(ses->cdown);
-        return -1;
-    }
-    return cup->ev->write_cb(cup);
-}
-
-void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
-    tls_tunnel_session_t *ses = data;
-    dnsc_t *dnsc = ses->dns;
-    s5_t *s5 = (s5_t*)ses->adata;
-    s5_ph2_req_t *s5p2 = &s5->s5p2;
-    char ipstr[128] = {0};
-
-
-    if (status == 0) {
-        uint16_t addr_port = 0;
-        memcpy(&addr_port, s5p2->dst_port, sizeof(uint16_t));
-        snprintf(ipstr, sizeof(ipstr), "%d.%d.%d.%d",
-            result[0], result[1], result[2], result[3]);
- 
-        //after result used 
-        dns_free(dnsc); 	
-        ses->dns = NULL;
-
-        ses->cup->addr.sin_family = AF_INET;
-        ses->cup->addr.sin_port = addr_port;
-        ses->cup->addr.sin_addr.s_addr = inet_addr(ipstr);
-        
-        ses->cup->ev->read_cb = NULL;
-        ses->cup->ev->write_cb = s5_cup_connect;
-        ses->cup->ev->write_cb(ses->cup);
-    } else {
-        err("TLS tunnel. dns resolv failed\n");
-        if (dnsc) 
-            dns_free(dnsc);
-        ses->dns = NULL;
-        net_free(ses->cup);
-        net_free(ses->cdown);
-    }
-    return;
-}
-
-int s5_cup_addr(con_t *cdown) {
-    tls_tunnel_session_t *ses = cdown->data;
-    s5_t *s5 = (s5_t*)ses->adata;
-    s5_ph2_req_t *s5p2 = &s5->s5p2;
-    char ipstr[128] = {0};
-    
-    cdown->ev->read_cb = s5_try_read;
-    cdown->ev->write_cb = NULL;
-
-    if (s5p2->atyp == S5_RFC_IPV4 || s5p2->atyp == S5_RFC_DOMAIN) {
-        schk(net_alloc(&ses->cup) == 0, {
-            net_free(cdown);
-            return -1;
-        });
-        ses->cup->data = ses;
-        ses->cup->data_cb = tls_ses_release_cup;
-
-        if (s5p2->atyp == S5_RFC_IPV4) {
-            uint16_t addr_port = 0;
-            memcpy(&addr_port, s5p2->dst_port, sizeof(uint16_t));
-            snprintf(ipstr, sizeof(ipstr), "%d.%d.%d.%d",
-                (unsigned char )s5p2->dst_addr[0],
-                (unsigned char )s5p2->dst_addr[1],
-                (unsigned char )s5p2->dst_addr[2],
-                (unsigned char )s5p2->dst_addr[3]);
-
-            ses->cup->addr.sin_family = AF_INET;
-            ses->cup->addr.sin_port = addr_port;
-            ses->cup->addr.sin_addr.s_addr = inet_addr(ipstr);
-
-            ses->cup->ev->read_cb = NULL;
-            ses->cup->ev->write_cb = s5_cup_connect;
-            return ses->cup->ev->write_cb(ses->cup);
-        }
-        ///DOMAIN typ
-        if (0 == dns_rec_find((char*)s5p2->dst_addr, ipstr)) {
-            uint16_t addr_port = 0;
-            memcpy(&addr_port, s5p2->dst_port, sizeof(uint16_t));
-            snprintf(ipstr, sizeof(ipstr), "%d.%d.%d.%d",
-                (unsigned char )ipstr[0],
-                (unsigned char )ipstr[1],
-                (unsigned char )ipstr[2],
-                (unsigned char )ipstr[3]);
-            
-            ses->cup->addr.sin_family = AF_INET;
-            ses->cup->addr.sin_port = addr_port;
-            ses->cup->addr.sin_addr.s_addr = inet_addr(ipstr);
-
-            ses->cup->ev->read_cb = NULL;
-            ses->cup->ev->write_cb = s5_cup_connect;
-            return ses->cup->ev->write_cb(ses->cup);
-        } else {
-            return dns_alloc(&ses->dns,
-                            (char*)s5p2->dst_addr,
-                            s5_cup_dns_cb,
-                            ses);
-        }
-    }
-
-    err("s5p2 atyp [0x%x]. not support\n", s5p2->atyp);
-    net_free(cdown);
-    return -1;
-}
-
-
-int s5_p2_req(con_t *cdown) {
-    unsigned char *p = NULL;
-
-    tls_tunnel_session_t *ses = cdown->data;
-    s5_t *s5 = (s5_t*)ses->adata;
-    s5_ph2_req_t *s5p2 = &s5->s5p2;
-    meta_t *meta = cdown->meta;
-
-    enum {
-        VER = 0,
-        CMD,
-        RSV,
-        TYP,
-        TYP_V4,
-        TYP_V6,
-        TYP_DOMAINN,
-        TYP_DOMAIN,
-        PORT,
-        END
-    };
-
-    /*
-    s5 msg phase2 format
-        char  char  char  char   ...    char*2
-        VER | CMD | RSV | ATYP | ADDR | PORT
-    */
-
-    for (;;) {
-        if (meta_getlen(meta) < 1) {
-            int recvn = cdown->recv(cdown, meta->last, meta_getfree(meta));
-            if (recvn < 0) {
-                if (recvn == -11) {
-                    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
-                    return -11;
-                }
-                err("s5p2 recv failed\n");
-                net_free(cdown);
-                return -1;
-            }
-            meta->last += recvn;
-        }
-        
-        for (; meta->pos < meta->last; meta->pos++) {
-            p = meta->pos;
-            if (s5->s5_state == VER) {  ///ver is fixed. 0x05
-                s5p2->ver = *p;
-                s5->s5_state = CMD;
-                continue;
-            }
-            if (s5->s5_state == CMD) {
-                /*
-                    socks5 support cmd value
-                    01                connect
-                    02                bind
-                    03                udp associate
-                */
-                s5p2->cmd = *p;
-                s5->s5_state = RSV;
-                continue;
-            }
-            if (s5->s5_state == RSV) {    // RSV means resverd
-                s5p2->rsv = *p;
-                s5->s5_state = TYP;
-                continue;
-            }
-            if (s5->s5_state == TYP) {
-                s5p2->atyp = *p;
-                /*
-                    atyp        type        length
-                    0x01        ipv4        4
-                    0x03        domain        first octet of domain part
-                    0x04        ipv6        16
-                */
-                if (s5p2->atyp == S5_RFC_IPV4) {
-                    s5->s5_state = TYP_V4;
-                    s5p2->dst_addr_n = 4;
-                    s5p2->dst_addr_cnt = 0;
-                    continue;
-                } else if (s5p2->atyp == S5_RFC_IPV6) {
-                    s5->s5_state = TYP_V6;
-                    s5p2->dst_addr_n = 16;
-                    s5p2->dst_addr_cnt = 0;
-                    continue;
-                } else if (s5p2->atyp == S5_RFC_DOMAIN) {
-                    /// atpy domain -> dst addr domain len -> dst addr domain
-                    s5->s5_state = TYP_DOMAINN;
-                    s5p2->dst_addr_n = 0;
-                    s5p2->dst_addr_cnt = 0;
-                    continue;
-                }
-                err("s5p2 atyp [%d] not support\n", s5p2->atyp);
-                net_free(cdown);
-                return -1;
-            }
-            if (s5->s5_state == TYP_V4) {
-                s5p2->dst_addr[(int)s5p2->dst_addr_cnt++] = *p;
-                if (s5p2->dst_addr_cnt == 4) {
-                    s5->s5_state = PORT;
-                    continue;
-                }
-            }
-            if (s5->s5_state == TYP_V6) {
-                s5p2->dst_addr[(int)s5p2->dst_addr_cnt++] = *p;
-                if (s5p2->dst_addr_cnt == 16) {
-                    s5->s5_state = PORT;
-                    continue;
-                }
-            }
-            if (s5->s5_state == TYP_DOMAINN) {
-                s5p2->dst_addr_n = *p;
-                s5->s5_state = TYP_DOMAIN;
-                if (s5p2->dst_addr_n == 0) {
-                    err("s5p2 domain empty\n");
-                    net_free(cdown);
-                    return -1;
-                }
-                continue;
-            }
-            if (s5->s5_state == TYP_DOMAIN) {
-                s5p2->dst_addr[(int)s5p2->dst_addr_cnt++] = *p;
-                if (s5p2->dst_addr_cnt == s5p2->dst_addr_n) {
-                    s5->s5_state = PORT;
-                    continue;
-                }
-            }
-            if (s5->s5_state == PORT) {
-                s5p2->dst_port[0] = *p;
-                s5->s5_state = END;
-                continue;
-            }
-            if (s5->s5_state == END) {
-                s5p2->dst_port[1] = *p;
-
-                s5->s5_state = 0;
-                EZ_TMDEL(cdown);
-                meta_clr(meta);
-
-                do {
-                    schk(0x05 == s5p2->ver, break);
-                    schk(0x01 == s5p2->cmd, break);    /// only support CONNECT 0x01 request
-                    schk(s5p2->atyp != S5_RFC_IPV6, break); /// not support IPV6 request
-    
-                    cdown->ev->read_cb = s5_cup_addr;
-                    cdown->ev->write_cb = NULL;
-                    return cdown->ev->read_cb(cdown);
-                } while(0);
-
-                net_free(cdown);
-                return -1;
-            }
-        }
-    }
-}
-
-int s5_p1_rsp(con_t *cdown) {
-    meta_t *meta = cdown->meta;
-
-    while (meta_getlen(meta) > 0) {
-        int sendn = cdown->send(cdown, meta->pos, meta_getlen(meta));
-        if (sendn < 0) {
-            if (sendn == -11) {
-                EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
-                return -11;
-            }
-            err("s5p1 rsp send failed\n");
-            net_free(cdown);
-            return -1;
-        }
-        meta->pos += sendn;
-    }
-    EZ_TMDEL(cdown);
-    meta_clr(meta);
-    
-    cdown->ev->read_cb = s5_p2_req;
-    cdown->ev->write_cb = NULL;
-    return cdown->ev->read_cb(cdown);
-}
-
-int s5_p1_req(con_t *cdown) {
-    tls_tunnel_session_t *ses = cdown->data;
-    s5_t *s5 = (s5_t*)ses->adata;
-    s5_ph1_req_t *s5p1 = &s5->s5p1;
-    unsigned char *p = NULL;
-    meta_t *meta = cdown->meta;
-    /*
-        s5 phase1 message req format
-        1 byte    1 byte        nmethods
-        VERSION | METHODS | METHOD
-    */
-    enum {
-        VERSION = 0,
-        METHODN,
-        METHOD
-    };
-
-    for (;;) {
-        if (meta_getlen(meta) < 1) { ///try recv
-            int recvn = cdown->recv(cdown, meta->last, meta_getfree(meta));
-            if (recvn < 0) {
-                if (recvn == -11) {
-                    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
-                    return -11;
-                }
-                err("s5p1 recv failed\n");
-                net_free(cdown);
-                return -1;
-            }
-            meta->last += recvn;
-        }
-
-        for (; meta->pos < meta->last; meta->pos++) {
-            p = meta->pos;
-            if (s5->s5_state == VERSION) {
-                s5p1->ver = *p;
-                s5->s5_state = METHODN;
-                continue;
-            }
-            if (s5->s5_state == METHODN) {
-                s5p1->methods_n = *p;
-                if (s5p1->methods_n == 0) {
-                    err("s5p1 no methods\n");
-                    net_free(cdown);
-                    return -1;
-                }
-                s5p1->methods_cnt = 0;
-                s5->s5_state = METHOD;
-                continue;
-            }
-            if (s5->s5_state == METHOD) {
-                s5p1->methods[s5p1->methods_cnt++] = *p;
-                if (s5p1->methods_n == s5p1->methods_cnt) {
-                    EZ_TMDEL(cdown);
-
-                    s5->s5_state = 0;
-                    meta_clr(meta);
-                    
-                    s5_ph1_rsp_t * ack = (s5_ph1_rsp_t*)meta->pos;
-                    ack->ver = 0x05;
-                    ack->method = 0x00;
-                    meta->last += sizeof(s5_ph1_rsp_t);
-                    
-                    cdown->ev->read_cb = NULL;
-                    cdown->ev->write_cb = s5_p1_rsp;
-                    return cdown->ev->write_cb(cdown);
-                }
-            }
-        }
-    }
-}
+#include "common.h"
+#include "dns.h"
+#include "tls_tunnel_s.h"
+#include "socks5.h"
+
+static int s5_try_read(con_t *cdown) {
+    tls_tunnel_session_t *ses = cdown->data;
+
+    if (0 != net_socket_check_status(cdown->fd)) {
+        err("tls tunnel. socket chk err\n");
+        if (ses->dns) { ///resolving, the answer must not find this session
+            dns_free(ses->dns);
+            ses->dns = NULL;
+        }
+        net_free(ses->cup);
+        net_free(cdown);
+        return -1;
+    }
+    return 0;
+}
+
+int s5_p2_rsp(con_t *cdown) {
+    tls_tunnel_session_t *ses = cdown->data;
+    meta_t *meta = cdown->meta;
+    int rc = 0;
+
+    while (meta_getlen(meta) > 0) {
+        rc = cdown->send(cdown, meta->pos, meta_getlen(meta));
+        if (rc < 0) {
+            if (rc == -11) {
+                EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+                return -11;
+            }
+            err("TLS tunnel. s5p2 rsp send failed\n");
+            net_free(ses->cup);
+            net_free(cdown);
+            return -1;
+        }
+        meta->pos += rc;
+    }
+    EZ_TMDEL(cdown);
+    meta_clr(meta);
+    
+    cdown->ev->read_cb = tls_tunnel_traffic_proc;
+    cdown->ev->write_cb = NULL;
+    return cdown->ev->read_cb(cdown);
+}
+
+int s5_cup_connect_chk(con_t *cup) {
+    tls_tunnel_session_t *ses = cup->data;
+    con_t *cdown = ses->cdown;
+    meta_t *meta = cdown->meta;
+
+    EZ_TMDEL(cup);
+
+    if (0 != net_socket_check_status(cup->fd)) {
+        err("tls tunnel. socket chk err\n");
+        net_free(cup);
+        net_free(cdown);
+        return -1;
+    }
+    net_socket_nodelay(cup->fd);
+
+    s5_ph2_rsp_t * resp = (s5_ph2_rsp_t*)meta->last;
+    resp->ver = 0x05;
+    resp->rep = 0x00;
+    resp->rsv = 0x00;
+    resp->atyp = 0x01;
+    resp->bnd_addr = htons((uint16_t)cup->addr.sin_addr.s_addr);
+    resp->bnd_port = htons(cup->addr.sin_port);
+    meta->last += sizeof(s5_ph2_rsp_t);
+
+    cup->ev->read_cb = NULL;
+    cup->ev->write_cb = NULL;
+
+    cdown->ev->read_cb = NULL;
+    cdown->ev->write_cb = s5_p2_rsp;
+    return cdown->ev->write_cb(cdown);
+}
+
+int s5_cup_connect(con_t *cup) {
+    tls_tunnel_session_t *ses = cup->data;
+    status rc = 0;
+
+    cup->ev->read_cb = NULL;
+    cup->ev->write_cb = s5_cup_connect_chk;
+
+    rc = net_connect(ses->cup, &ses->cup->addr);
+    if (rc < 0) {
+        if (rc == -11) {
+            EZ_TMADD(cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
+            return -11;
+        }
+        err("socks5 connect err\n");
+        net_free(cup);
+        net_free(ses->cdown);
+        return -1;
+    }
+    return cup->ev->write_cb(cup);
+}
+
+void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
+    tls_tunnel_session_t *ses = data;
+    dnsc_t *dnsc = ses->dns;
+    s5_t *s5 = (s5_t*)ses->adata;
+    s5_ph2_req_t *s5p2 = &s5->s5p2;
+    char ipstr[128] = {0};
+
+
+    if (status == 0) {
+        uint16_t addr_port = 0;
+        memcpy(&addr_port, s5p2->dst_port, sizeof(uint16_t));
+        snprintf(ipstr, sizeof(ipstr), "%d.%d.%d.%d",
+            result[0], result[1], result[2], result[3]);
+ 
+        //after result used 
+        dns_free(dnsc); 	
+        ses->dns = NULL;
+
+        ses->cup->addr.sin_family = AF_INET;
+        ses->cup->addr.sin_port = addr_port;
+        ses->cup->addr.sin_addr.s_addr = inet_addr(ipstr);
+        
+        ses->cup->ev->read_cb = NULL;
+        ses->cup->ev->write_cb = s5_cup_connect;
+        ses->cup->ev->write_cb(ses->cup);
+    } else {
+        err("TLS tunnel. dns resolv failed\n");
+        if (dnsc) 
+            dns_free(dnsc);
+        ses->dns = NULL;
+        net_free(ses->cup);
+        net_free(ses->cdown);
+    }
+    return;
+}
+
+int s5_cup_addr(con_t *cdown) {
+    tls_tunnel_session_t *ses = cdown->data;
+    s5_t *s5 = (s5_t*)ses->adata;
+    s5_ph2_req_t *s5p2 = &s5->s5p2;
+    char ipstr[128] = {0};
+    
+    cdown->ev->read_cb = s5_try_read;
+    cdown->ev->write_cb = NULL;
+
+    if (s5p2->atyp == S5_RFC_IPV4 || s5p2->atyp == S5_RFC_DOMAIN) {
+        schk(net_alloc(&ses->cup) == 0, {
+            net_free(cdown);
+            return -1;
+        });
+        ses->cup->data = ses;
+        ses->cup->data_cb = tls_ses_release_cup;
+
+        if (s5p2->atyp == S5_RFC_IPV4) {
+            uint16_t addr_port = 0;
+            memcpy(&addr_port, s5p2->dst_port, sizeof(uint16_t));
+            snprintf(ipstr, sizeof(ipstr), "%d.%d.%d.%d",
+                (unsigned char )s5p2->dst_addr[0],
+                (unsigned char )s5p2->dst_addr[1],
+                (unsigned char )s5p2->dst_addr[2],
+                (unsigned char )s5p2->dst_addr[3]);
+
+            ses->cup->addr.sin_family = AF_INET;
+            ses->cup->addr.sin_port = addr_port;
+            ses->cup->addr.sin_addr.s_addr = inet_addr(ipstr);
+
+            ses->cup->ev->read_cb = NULL;
+            ses->cup->ev->write_cb = s5_cup_connect;
+            return ses->cup->ev->write_cb(ses->cup);
+        }
+        ///DOMAIN typ
+        if (0 == dns_rec_find((char*)s5p2->dst_addr, ipstr)) {
+            uint16_t addr_port = 0;
+            memcpy(&addr_port, s5p2->dst_port, sizeof(uint16_t));
+            snprintf(ipstr, sizeof(ipstr), "%d.%d.%d.%d",
+                (unsigned char )ipstr[0],
+                (unsigned char )ipstr[1],
+                (unsigned char )ipstr[2],
+                (unsigned char )ipstr[3]);
+            
+            ses->cup->addr.sin_family = AF_INET;
+            ses->cup->addr.sin_port = addr_port;
+            ses->cup->addr.sin_addr.s_addr = inet_addr(ipstr);
+
+            ses->cup->ev->read_cb = NULL;
+            ses->cup->ev->write_cb = s5_cup_connect;
+            return ses->cup->ev->write_cb(ses->cup);
+        } else {
+            return dns_alloc(&ses->dns,
+                            (char*)s5p2->dst_addr,
+                            s5_cup_dns_cb,
+                            ses);
+        }
+    }
+
+    err("s5p2 atyp [0x%x]. not support\n", s5p2->atyp);
+    net_free(cdown);
+    return -1;
+}
+
+
+int s5_p2_req(con_t *cdown) {
+    unsigned char *p = NULL;
+
+    tls_tunnel_session_t *ses = cdown->data;
+    s5_t *s5 = (s5_t*)ses->adata;
+    s5_ph2_req_t *s5p2 = &s5->s5p2;
+    meta_t *meta = cdown->meta;
+
+    enum {
+        VER = 0,
+        CMD,
+        RSV,
+        TYP,
+        TYP_V4,
+        TYP_V6,
+        TYP_DOMAINN,
+        TYP_DOMAIN,
+        PORT,
+        END
+    };
+
+    /*
+    s5 msg phase2 format
+        char  char  char  char   ...    char*2
+        VER | CMD | RSV | ATYP | ADDR | PORT
+    */
+
+    for (;;) {
+        if (meta_getlen(meta) < 1) {
+            int recvn = cdown->recv(cdown, meta->last, meta_getfree(meta));
+            if (recvn < 0) {
+                if (recvn == -11) {
+                    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+                    return -11;
+                }
+                err("s5p2 recv failed\n");
+                net_free(cdown);
+                return -1;
+            }
+            meta->last += recvn;
+        }
+        
+        for (; meta->pos < meta->last; meta->pos++) {
+            p = meta->pos;
+            if (s5->s5_state == VER) {  ///ver is fixed. 0x05
+                s5p2->ver = *p;
+                s5->s5_state = CMD;
+                continue;
+            }
+            if (s5->s5_state == CMD) {
+                /*
+                    socks5 support cmd value
+                    01                connect
+                    02                bind
+                    03                udp associate
+                */
+                s5p2->cmd = *p;
+                s5->s5_state = RSV;
+                continue;
+            }
+            if (s5->s5_state == RSV) {    // RSV means resverd
+                s5p2->rsv = *p;
+                s5->s5_state = TYP;
+                continue;
+            }
+            if (s5->s5_state == TYP) {
+                s5p2->atyp = *p;
+                /*
+                    atyp        type        length
+                    0x01        ipv4        4
+                    0x03        domain        first octet of domain part
+                    0x04        ipv6        16
+                */
+                if (s5p2->atyp == S5_RFC_IPV4) {
+                    s5->s5_state = TYP_V4;
+                    s5p2->dst_addr_n = 4;
+                    s5p2->dst_addr_cnt = 0;
+                    continue;
+                } else if (s5p2->atyp == S5_RFC_IPV6) {
+                    s5->s5_state = TYP_V6;
+                    s5p2->dst_addr_n = 16;
+                    s5p2->dst_addr_cnt = 0;
+                    continue;
+                } else if (s5p2->atyp == S5_RFC_DOMAIN) {
+                    /// atpy domain -> dst addr domain len -> dst addr domain
+                    s5->s5_state = TYP_DOMAINN;
+                    s5p2->dst_addr_n = 0;
+                    s5p2->dst_addr_cnt = 0;
+                    continue;
+                }
+                err("s5p2 atyp [%d] not support\n", s5p2->atyp);
+                net_free(cdown);
+                return -1;
+            }
+            if (s5->s5_state == TYP_V4) {
+                s5p2->dst_addr[(int)s5p2->dst_addr_cnt++] = *p;
+                if (s5p2->dst_addr_cnt == 4) {
+                    s5->s5_state = PORT;
+                    continue;
+                }
+            }
+            if (s5->s5_state == TYP_V6) {
+                s5p2->dst_addr[(int)s5p2->dst_addr_cnt++] = *p;
+                if (s5p2->dst_addr_cnt == 16) {
+                    s5->s5_state = PORT;
+                    continue;
+                }
+            }
+            if (s5->s5_state == TYP_DOMAINN) {
+                s5p2->dst_addr_n = *p;
+                s5->s5_state = TYP_DOMAIN;
+                if (s5p2->dst_addr_n == 0) {
+                    err("s5p2 domain empty\n");
+                    net_free(cdown);
+                    return -1;
+                }
+                continue;
+            }
+            if (s5->s5_state == TYP_DOMAIN) {
+                s5p2->dst_addr[(int)s5p2->dst_addr_cnt++] = *p;
+                if (s5p2->dst_addr_cnt == s5p2->dst_addr_n) {
+                    s5->s5_state = PORT;
+                    continue;
+                }
+            }
+            if (s5->s5_state == PORT) {
+                s5p2->dst_port[0] = *p;
+                s5->s5_state = END;
+                continue;
+            }
+            if (s5->s5_state == END) {
+                s5p2->dst_port[1] = *p;
+
+                s5->s5_state = 0;
+                EZ_TMDEL(cdown);
+                meta_clr(meta);
+
+                do {
+                    schk(0x05 == s5p2->ver, break);
+                    schk(0x01 == s5p2->cmd, break);    /// only support CONNECT 0x01 request
+                    schk(s5p2->atyp != S5_RFC_IPV6, break); /// not support IPV6 request
+    
+                    cdown->ev->read_cb = s5_cup_addr;
+                    cdown->ev->write_cb = NULL;
+                    return cdown->ev->read_cb(cdown);
+                } while(0);
+
+                net_free(cdown);
+                return -1;
+            }
+        }
+    }
+}
+
+int s5_p1_rsp(con_t *cdown) {
+    meta_t *meta = cdown->meta;
+
+    while (meta_getlen(meta) > 0) {
+        int sendn = cdown->send(cdown, meta->pos, meta_getlen(meta));
+        if (sendn < 0) {
+            if (sendn == -11) {
+                EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+                return -11;
+            }
+            err("s5p1 rsp send failed\n");
+            net_free(cdown);
+            return -1;
+        }
+        meta->pos += sendn;
+    }
+    EZ_TMDEL(cdown);
+    meta_clr(meta);
+    
+    cdown->ev->read_cb = s5_p2_req;
+    cdown->ev->write_cb = NULL;
+    return cdown->ev->read_cb(cdown);
+}
+
+int s5_p1_req(con_t *cdown) {
+    tls_tunnel_session_t *ses = cdown->data;
+    s5_t *s5 = (s5_t*)ses->adata;
+    s5_ph1_req_t *s5p1 = &s5->s5p1;
+    unsigned char *p = NULL;
+    meta_t *meta = cdown->meta;
+    /*
+        s5 phase1 message req format
+        1 byte    1 byte        nmethods
+        VERSION | METHODS | METHOD
+    */
+    enum {
+        VERSION = 0,
+        METHODN,
+        METHOD
+    };
+
+    for (;;) {
+        if (meta_getlen(meta) < 1) { ///try recv
+            int recvn = cdown->recv(cdown, meta->last, meta_getfree(meta));
+            if (recvn < 0) {
+                if (recvn == -11) {
+                    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+                    return -11;
+                }
+                err("s5p1 recv failed\n");
+                net_free(cdown);
+                return -1;
+            }
+            meta->last += recvn;
+        }
+
+        for (; meta->pos < meta->last; meta->pos++) {
+            p = meta->pos;
+            if (s5->s5_state == VERSION) {
+                s5p1->ver = *p;
+                s5->s5_state = METHODN;
+                continue;
+            }
+            if (s5->s5_state == METHODN) {
+                s5p1->methods_n = *p;
+                if (s5p1->methods_n == 0) {
+                    err("s5p1 no methods\n");
+                    net_free(cdown);
+                    return -1;
+                }
+                s5p1->methods_cnt = 0;
+                s5->s5_state = METHOD;
+                continue;
+            }
+            if (s5->s5_state == METHOD) {
+                s5p1->methods[s5p1->methods_cnt++] = *p;
+                if (s5p1->methods_n == s5p1->methods_cnt) {
+                    EZ_TMDEL(cdown);
+
+                    s5->s5_state = 0;
+                    meta_clr(meta);
+                    
+                    s5_ph1_rsp_t * ack = (s5_ph1_rsp_t*)meta->pos;
+                    ack->ver = 0x05;
+                    ack->method = 0x00;
+                    meta->last += sizeof(s5_ph1_rsp_t);
+                    
+                    cdown->ev->read_cb = NULL;
+                    cdown->ev->write_cb = s5_p1_rsp;
+                    return cdown->ev->write_cb(cdown);
+                }
+            }
+        }
+    }
+}
diff --git a/src/app/socks5.h b/src/app/socks5.h
index 6b09000..6cb443b 100755
--- a/src/app/socks5.h
+++ b/src/app/socks5.h
@@ -1,61 +1,61 @@
-#ifndef _SOCKS5_H_INCLUDED_
-#define _SOCKS5_H_INCLUDED_
-
-#ifdef __cplusplus
-extern "C"
-{
-#endif
-
-/// s5 type for rfc reqest
-#define S5_RFC_IPV4         0x1
-#define S5_RFC_IPV6         0x4
-#define S5_RFC_DOMAIN       0x3
-
-
-typedef struct {
-    unsigned char       ver;
-    unsigned char       methods_n;
-    unsigned char       methods_cnt;
-    unsigned char       methods[255];
-} s5_ph1_req_t;
-
-typedef struct {
-    unsigned char       ver;
-    unsigned char       method;
-} __attribute__((packed)) s5_ph1_rsp_t;
-
-typedef struct {
-    unsigned char       ver;
-    unsigned char       cmd;
-    unsigned char       rsv;
-    unsigned char       atyp;
-    unsigned char       dst_addr_n;
-    unsigned char       dst_addr_cnt;
-    unsigned char       dst_addr[DOMAIN_LENGTH+1];
-    unsigned char       dst_port[2];
-} s5_ph2_req_t;
-
-typedef struct {
-    unsigned char       ver;
-    unsigned char       rep;
-    unsigned char       rsv;
-    unsigned char       atyp;
-    unsigned int        bnd_addr;
-    unsigned short      bnd_port;
-} __attribute__((packed)) s5_ph2_rsp_t;
-
-typedef struct {
-    int s5_state;
-    s5_ph1_req_t s5p1;
-    s5_ph2_req_t s5p2;
-} s5_t;
-
-
-int s5_p1_req(con_t * c);
-
-
-#ifdef __cpluscplus
-}
-#endif
-
-#endif
+#ifndef _SOCKS5_H_INCLUDED_
+#define _SOCKS5_H_INCLUDED_
+
+#ifdef __cplusplus
+extern "C"
+{
+#endif
+
+/// s5 type for rfc reqest
+#define S5_RFC_IPV4         0x1
+#define S5_RFC_IPV6         0x4
+#define S5_RFC_DOMAIN       0x3
+
+
+typedef struct {
+    unsigned char       ver;
+    unsigned char       methods_n;
+    unsigned char       methods_cnt;
+    unsigned char       methods[255];
+} s5_ph1_req_t;
+
+typedef struct {
+    unsigned char       ver;
+    unsigned char       method;
+} __attribute__((packed)) s5_ph1_rsp_t;
+
+typedef struct {
+    unsigned char       ver;
+    unsigned char       cmd;
+    unsigned char       rsv;
+    unsigned char       atyp;
+    unsigned char       dst_addr_n;
+    unsigned char       dst_addr_cnt;
+    unsigned char       dst_addr[DOMAIN_LENGTH+1];
+    unsigned char       dst_port[2];
+} s5_ph2_req_t;
+
+typedef struct {
+    unsigned char       ver;
+    unsigned char       rep;
+    unsigned char       rsv;
+    unsigned char       atyp;
+    unsigned int        bnd_addr;
+    unsigned short      bnd_port;
+} __attribute__((packed)) s5_ph2_rsp_t;
+
+typedef struct {
+    int s5_state;
+    s5_ph1_req_t s5p1;
+    s5_ph2_req_t s5p2;
+} s5_t;
+
+
+int s5_p1_req(con_t * c);
+
+
+#ifdef __cpluscplus
+}
+#endif
+
+#endif
-- 
2.43.0


From 075de301218f76e03f1b414170db6a6c3d073b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:45:30 +0000
Subject: [PATCH 53/59] fix: serve pipelined web requests from the event loop
 instead of recursively

---
 src/app/webser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 252a518..cc96084 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -129,9 +129,13 @@ static int webser_keepalive(con_t *c) {
         meta_clr(c->meta);
     }
 
+    ///next request from the event loop. pipelined requests must not pile up on the stack
+    EZ_TMADD(c, web_exp, WEB_TMOUT);
     c->ev->read_cb = webser_start;
-    c->ev->write_cb = NULL;
-    return c->ev->read_cb(c);
+    c->ev->write_cb = webser_start;
+    ev_opt(c, EV_R);
+    ev_opt(c, EV_R|EV_W);
+    return -11;
 }
 
 void * webser_rsp_mime(webser_t * webser, char * mimetype)
-- 
2.43.0


From 28ab877a8340ba0ae20088795d6c1cf0ab1406ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:17 +0000
Subject: [PATCH 54/59] fix: do not start when the configuration cannot be read

config_init() reported success even if the file was missing, unreadable or
not valid JSON, so the program carried on with every setting zero.
It now reports the failure its caller already looks for.
---
 src/common/config.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/config.c b/src/common/config.c
index 62cb7c7..9e392c1 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -116,6 +116,7 @@ int config_init(void) {
 
     struct stat fstat;
     int rc = 0;
+    int ret = -1;
     int fsz = 0;
     int ffd = 0;
     int freadn = 0;
@@ -139,11 +140,12 @@ int config_init(void) {
         ahead_dbg("config string:\n");
         ahead_dbg("%s", fbuf);
         schk(0 == config_parse(fbuf), break);
+        ret = 0;
     } while(0);
     
     if (ffd) close(ffd);
     if (fbuf) sys_free(fbuf);
-    return 0;
+    return ret;
 }
 
 int config_end(void) { return OK; }
-- 
2.43.0


From 9d73c9884b68d10f2a27faf8a5623e21c1893b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:33 +0000
Subject: [PATCH 55/59] fix: do not leave workers behind when not all of them
 can be started

---
 src/common/process.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/process.c b/src/common/process.c
index ed6aa82..3372d0e 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -101,6 +101,8 @@ void proc_master_run(void) {
     for (i = 0; i < config_get()->sys_process_num; i++) { /// start worker process
         if (-1 == proc_fork(&g_proc_ctx->processes[i])) {
             err("process spawn number [%d] child failed, errno [%d]\n", i, errno);
+            while (--i >= 0) ///do not leave the workers already started behind
+                proc_signal_send(g_proc_ctx->processes[i].pid, SIGINT);
             return;
         }
         if (g_proc_ctx->process_id != L_PROCESS_MASTER)
-- 
2.43.0


From 2c4ebd4d49cc54362a0d4ce77354010e43c9536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:59 +0000
Subject: [PATCH 56/59] fix: label info and debug log records with their own
 level

---
 src/common/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/log.c b/src/common/log.c
index 167ae32..44c1c53 100755
--- a/src/common/log.c
+++ b/src/common/log.c
@@ -10,8 +10,8 @@ log_mgr_t * log_ctx = NULL;
 
 static string_t levels[] = {
     string("[error]"),
-    string("[debug]"),
-    string("[info]")
+    string("[info]"),
+    string("[debug]")
 };
 
 static int log_format_prefix(log_content_t *ctx) {
-- 
2.43.0


From 4479582fabab875d83bffb4a9bde920636fd0e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:07 +0000
Subject: [PATCH 57/59] fix: do not send more of a file than was declared when
 it grows meanwhile

---
 src/app/webser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index cc96084..316b0b2 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -196,7 +196,10 @@ static int webser_rsp_payload_send_ff(con_t *c) {
         meta_clr(meta);
         
         if (meta_getfree(meta) > 0) {
-            int readn = read(webc->ffd, meta->last, meta_getfree(meta));
+            int want = webc->fsize - webc->fsend; ///not more than declared, the file may have grown
+            if (want > meta_getfree(meta))
+                want = meta_getfree(meta);
+            int readn = read(webc->ffd, meta->last, want);
             if (readn <= 0) {
                 err("webserv rff err. [%d] [%d] [%d]\n",
                     errno, webc->fsend, webc->fsize);
-- 
2.43.0


From 6d7b63f5daf567cfd8a0b60f825f631a3136454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:07 +0000
Subject: [PATCH 58/59] fix: honour keep-alive and body length after many
 header fields

---
 src/http/http_req.c | 47 +++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index e830116..758d8f6 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -201,6 +201,27 @@ static int web_req_line(con_t *c, web_req_t *req) {
     }
 }
 
+///a header line is complete. note what matters at once, only REQ_KV_MAX lines are kept
+static int web_req_hdr(web_req_t *req, web_kv_t *kv) {
+    if (web_req_str_eq(&kv->k, "Connection")) {
+        if (web_req_str_eq(&kv->v, "Keep-Alive")) {
+            req->fkeepalive = 1;
+        }
+    } else if (web_req_str_eq(&kv->k, "Content-Length")) {
+        long payloadn = strtol((char*)kv->v.data, NULL, 10);
+        if (payloadn < 0) {
+            err("webreq payloadn illegal. [%ld]\n", payloadn);
+            return -1;
+        }
+        if (payloadn > (10*1024*1024)) {
+            err("ebreq payloadn too big. [%ld]\n", payloadn);
+            return -1;
+        }
+        req->payloadn = payloadn;
+    }
+    return 0;
+}
+
 static int web_req_hdrs(con_t *c, web_req_t *req) {
     unsigned char *p = NULL;
 
@@ -282,6 +303,7 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
 
             if (req->state == s_end) {
                 if (*p == LF) {
+                    schk(0 == web_req_hdr(req, &req->kvs[req->kvn]), return -1);
                     req->kvn ++;
                     if (req->kvn > (REQ_KV_MAX - 1)) 
                         req->kvn = REQ_KV_MAX - 1;
@@ -298,15 +320,6 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
                     c->meta->pos = p + 1;
                     req->cb = web_req_payload;
 
-                    int i = 0;
-                    for (i = 0; i < req->kvn; i++) {
-                        if (web_req_str_eq(&req->kvs[i].k, "Connection")) {
-                            if (web_req_str_eq(&req->kvs[i].v, "Keep-Alive")) {
-                                req->fkeepalive = 1;
-                            }
-                        }
-                    }
-
                     if (web_req_str_eq(&req->method, "GET")) {
                         req->method_typ = HTTP_METHOD_GET;
                     } else if (web_req_str_eq(&req->method, "POST")) {
@@ -325,22 +338,6 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
 
 static int web_req_payload(con_t *c, web_req_t *req) {
     if (!req->payload) {
-        int i = 0;
-        for (i = 0; i < req->kvn; i++) {
-            if (web_req_str_eq(&req->kvs[i].k, "Content-Length")) {
-                long payloadn = strtol((char*)req->kvs[i].v.data, NULL, 10);
-                if (payloadn < 0) {
-                    err("webreq payloadn illegal. [%ld]\n", payloadn);
-                    return -1;
-                }
-                if (payloadn > (10*1024*1024)) {
-                    err("ebreq payloadn too big. [%ld]\n", payloadn);
-                    return -1;
-                }
-                req->payloadn = payloadn;
-            }
-        }
-
         if (req->payloadn > 0) {
             schk(0 == meta_alloc(&req->payload, req->payloadn), return -1);
             int remain = meta_getlen(c->meta);
-- 
2.43.0


From 472f0721adf7f489bf2abe11bb8d92f5b41d3850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:07 +0000
Subject: [PATCH 59/59] fix: state the length of files of 2 GB and more
 correctly

---
 src/app/webser.c | 6 +++---
 src/app/webser.h | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 316b0b2..04111c8 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -196,12 +196,12 @@ static int webser_rsp_payload_send_ff(con_t *c) {
         meta_clr(meta);
         
         if (meta_getfree(meta) > 0) {
-            int want = webc->fsize - webc->fsend; ///not more than declared, the file may have grown
+            long long want = webc->fsize - webc->fsend; ///not more than declared, the file may have grown
             if (want > meta_getfree(meta))
                 want = meta_getfree(meta);
             int readn = read(webc->ffd, meta->last, want);
             if (readn <= 0) {
-                err("webserv rff err. [%d] [%d] [%d]\n",
+                err("webserv rff err. [%d] [%lld] [%lld]\n",
                     errno, webc->fsend, webc->fsize);
                 net_free(c);
                 return -1;
@@ -329,7 +329,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         schk(0 == webser_rsp_hdrp(c, "Server: s5\r\n"), break);
         schk(0 == webser_rsp_hdrp(c, "Date: %s\r\n", systime_gmt()), break);    
         schk(0 == webser_rsp_hdrp(c, "Connection: %s\r\n", webc->webreq->fkeepalive ? "keep-alive" : "close"), break);
-        schk(0 == webser_rsp_hdrp(c, "Content-Length: %d\r\n", (webc->type == WEBSER_FILE) ? webc->fsize : meta_getlens(webc->rsp_payload)), break);
+        schk(0 == webser_rsp_hdrp(c, "Content-Length: %lld\r\n", (webc->type == WEBSER_FILE) ? webc->fsize : (long long)meta_getlens(webc->rsp_payload)), break);
         if (exthdr) {
             schk(0 == webser_rsp_hdrp(c, "%s", exthdr), break);
         }
diff --git a/src/app/webser.h b/src/app/webser.h
index 96d9f30..d07e743 100755
--- a/src/app/webser.h
+++ b/src/app/webser.h
@@ -25,8 +25,8 @@ typedef struct {
        
     // static file data
     int ffd;        // file fd  
-    int fsize;      // file allsize
-    int fsend;      // file sendsize
+    long long fsize;      // file allsize
+    long long fsend;      // file sendsize
 
     // api data
     webser_api_t * api;
-- 
2.43.0

