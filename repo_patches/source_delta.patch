From 9a5902086dd2ae265f1a56ba9ec4c47ec8831bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:34 +0000
Subject: [PATCH 01/50] fix: reject base64 padding before the end of the input

base64_decode() stopped at the first padding character and, when no
padding was counted at the end of the input, returned the buffer with
the remaining bytes uninitialised (e.g. "AAA=AAAA"). Accept padding
only in the last quartet.
---
 src/crypto.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypto.c b/src/crypto.c
index 779263f..1f549b3 100644
--- a/src/crypto.c
+++ b/src/crypto.c
@@ -376,6 +376,9 @@ static void base64_decode(xmpp_ctx_t *ctx,
         }
         if (hextet > 64)
             goto _base64_decode_error;
+        /* padding is only allowed at the end of the last quartet */
+        if (i != (dlen % 3 == 0 ? len : len - 4))
+            goto _base64_decode_error;
         /* handle the remainder */
         switch (dlen % 3) {
         case 0:
-- 
2.43.0


From 5e506fd9e6b7316ca7e78d244bbf4c803a0b2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:24 +0000
Subject: [PATCH 02/50] fix: accept SRV responses whose last answer has short
 rdata

The bounds check before the fixed record fields demanded 17 bytes after the
owner name, so a response ending in a record with less than 7 bytes of rdata
(an A record, say) was refused together with its valid SRV answers.
---
 src/resolver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resolver.c b/src/resolver.c
index 028320a..ea2d772 100644
--- a/src/resolver.c
+++ b/src/resolver.c
@@ -452,12 +452,13 @@ static int resolver_raw_srv_lookup_buf(xmpp_ctx_t *ctx,
         if (name_len == 0)
             return XMPP_DOMAIN_NOT_FOUND;
         j += name_len;
-        BUF_OVERFLOW_CHECK(j + 16, len);
+        BUF_OVERFLOW_CHECK(j + 9, len);
         type = xmpp_ntohs_ptr(&buf[j]);
         class = xmpp_ntohs_ptr(&buf[j + 2]);
         rdlength = xmpp_ntohs_ptr(&buf[j + 8]);
         j += 10;
         if (type == MESSAGE_T_SRV && class == MESSAGE_C_IN) {
+            BUF_OVERFLOW_CHECK(j + 6, len);
             rr = resolver_srv_rr_new(ctx, NULL, 0, 0, 0);
             if (rr) {
                 rr->next = *srv_rr_list;
-- 
2.43.0


From c80a53c6dad473560631ce7b5a48ac15cf81aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 03/50] fix: support SCRAM salts of any length instead of
 aborting

---
 src/scram.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/scram.c b/src/scram.c
index 35a62db..5861b24 100644
--- a/src/scram.c
+++ b/src/scram.c
@@ -121,12 +121,15 @@ union common_hash_ctx {
     sha512_context sha512;
 };
 
-static void crypto_HMAC(const struct hash_alg *alg,
-                        const uint8_t *key,
-                        size_t key_len,
-                        const uint8_t *text,
-                        size_t len,
-                        uint8_t *digest)
+/* HMAC of the concatenation of `text` and `suffix` */
+static void crypto_HMAC_ex(const struct hash_alg *alg,
+                           const uint8_t *key,
+                           size_t key_len,
+                           const uint8_t *text,
+                           size_t len,
+                           const uint8_t *suffix,
+                           size_t suffix_len,
+                           uint8_t *digest)
 {
     uint8_t key_pad[HMAC_BLOCK_SIZE_MAX];
     uint8_t key_ipad[HMAC_BLOCK_SIZE_MAX];
@@ -155,6 +158,8 @@ static void crypto_HMAC(const struct hash_alg *alg,
     alg->init((void *)&ctx);
     alg->update((void *)&ctx, key_ipad, blocksize);
     alg->update((void *)&ctx, text, len);
+    if (suffix_len)
+        alg->update((void *)&ctx, suffix, suffix_len);
     alg->final((void *)&ctx, sha_digest);
 
     alg->init((void *)&ctx);
@@ -163,6 +168,16 @@ static void crypto_HMAC(const struct hash_alg *alg,
     alg->final((void *)&ctx, digest);
 }
 
+static void crypto_HMAC(const struct hash_alg *alg,
+                        const uint8_t *key,
+                        size_t key_len,
+                        const uint8_t *text,
+                        size_t len,
+                        uint8_t *digest)
+{
+    crypto_HMAC_ex(alg, key, key_len, text, len, NULL, 0, digest);
+}
+
 static void SCRAM_Hi(const struct hash_alg *alg,
                      const uint8_t *text,
                      size_t len,
@@ -173,23 +188,17 @@ static void SCRAM_Hi(const struct hash_alg *alg,
 {
     size_t k;
     uint32_t j;
-    uint8_t tmp[128];
+    uint8_t tmp[SCRAM_DIGEST_SIZE];
 
-    static uint8_t int1[] = {0x0, 0x0, 0x0, 0x1};
-
-    /* assume salt + INT(1) isn't longer than sizeof(tmp) */
-    assert(salt_len <= sizeof(tmp) - sizeof(int1));
+    static const uint8_t int1[] = {0x0, 0x0, 0x0, 0x1};
 
     memset(digest, 0, alg->digest_size);
     if (i == 0) {
         return;
     }
 
-    memcpy(tmp, salt, salt_len);
-    memcpy(&tmp[salt_len], int1, sizeof(int1));
-
-    /* 'text' for Hi is a 'key' for HMAC */
-    crypto_HMAC(alg, text, len, tmp, salt_len + sizeof(int1), digest);
+    /* 'text' for Hi is a 'key' for HMAC, the salt is followed by INT(1) */
+    crypto_HMAC_ex(alg, text, len, salt, salt_len, int1, sizeof(int1), digest);
     memcpy(tmp, digest, alg->digest_size);
 
     for (j = 1; j < i; j++) {
-- 
2.43.0


From c92f07ed2681e1ff5d43f11919fbb9e08dbb55ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 04/50] fix: do not crash on a stream error without children

---
 src/auth.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index a1bc3b5..d00bc5d 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -127,13 +127,9 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
     conn->stream_error->type = XMPP_SE_UNDEFINED_CONDITION;
 
     if (conn->stream_error) {
-        child = xmpp_stanza_get_children(stanza);
-        do {
-            const char *ns = NULL;
-
-            if (child) {
-                ns = xmpp_stanza_get_ns(child);
-            }
+        for (child = xmpp_stanza_get_children(stanza); child;
+             child = xmpp_stanza_get_next(child)) {
+            const char *ns = xmpp_stanza_get_ns(child);
 
             if (ns && strcmp(ns, XMPP_NS_STREAMS_IETF) == 0) {
                 name = xmpp_stanza_get_name(child);
@@ -190,7 +186,7 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
                 else if (strcmp(name, "xml-not-well-formed") == 0)
                     conn->stream_error->type = XMPP_SE_XML_NOT_WELL_FORMED;
             }
-        } while ((child = xmpp_stanza_get_next(child)));
+        }
 
         conn->stream_error->stanza = xmpp_stanza_clone(stanza);
     }
-- 
2.43.0


From 5d293a1fabbea27b873231a55bd0581509c86b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 05/50] fix: give up when stream features are missing after
 authentication with compression

---
 src/auth.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index d00bc5d..54a78f0 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -972,7 +972,8 @@ static void _handle_open_compress(xmpp_conn_t *conn)
     /* setup stream:features handlers */
     handler_add(conn, _handle_features_compress, XMPP_NS_STREAMS, "features",
                 NULL, NULL);
-    handler_add_timed(conn, _handle_missing_features, FEATURES_TIMEOUT, NULL);
+    handler_add_timed(conn, _handle_missing_features_sasl, FEATURES_TIMEOUT,
+                      NULL);
 }
 
 static int _do_bind(xmpp_conn_t *conn, xmpp_stanza_t *bind)
@@ -1067,7 +1068,7 @@ static int _handle_features_compress(xmpp_conn_t *conn,
     xmpp_stanza_t *child;
 
     /* remove missing features handler */
-    xmpp_timed_handler_delete(conn, _handle_missing_features);
+    xmpp_timed_handler_delete(conn, _handle_missing_features_sasl);
 
     /* check for compression */
     child = xmpp_stanza_get_child_by_name_and_ns(stanza, "compression",
-- 
2.43.0


From 88702d345637f1f07c8471de340c6c5ba9bbab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 06/50] fix: ignore stream features that arrive after the wait
 for them was given up

---
 src/auth.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/auth.c b/src/auth.c
index 54a78f0..bf2f1d3 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -194,6 +194,9 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
     return 1;
 }
 
+static int
+_handle_features(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata);
+
 /* stream:features handlers */
 static int _handle_missing_features(xmpp_conn_t *conn, void *userdata)
 {
@@ -201,6 +204,9 @@ static int _handle_missing_features(xmpp_conn_t *conn, void *userdata)
 
     strophe_debug(conn->ctx, "xmpp", "didn't get stream features");
 
+    /* features that arrive later must not start a second negotiation */
+    xmpp_handler_delete(conn, _handle_features);
+
     /* legacy auth will be attempted */
     _auth(conn);
 
-- 
2.43.0


From 9816e8aac0c9d326cf5c6ad6322cec836d58270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 07/50] fix: request stream management and a session only when
 the server offers them

---
 src/auth.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index bf2f1d3..d75320e 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1134,19 +1134,24 @@ _handle_features_sasl(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
     if (session) {
         conn->session_required =
             xmpp_stanza_get_child_by_name(session, "optional") == NULL;
+    } else {
+        conn->session_required = 0;
     }
 
     /* Check stream-management support */
     if (xmpp_stanza_get_child_by_name_and_ns(stanza, "sm", XMPP_NS_SM)) {
         conn->sm_state->sm_support = 1;
+    } else {
+        conn->sm_state->sm_support = 0;
     }
 
     /* We are expecting either <bind/> and optionally <session/> since this is a
        XMPP style connection or we <resume/> the previous session */
 
     /* Check whether we can <resume/> the previous session */
-    if (!conn->sm_disable && conn->sm_state->can_resume &&
-        conn->sm_state->previd && conn->sm_state->bound_jid) {
+    if (!conn->sm_disable && conn->sm_state->sm_support &&
+        conn->sm_state->can_resume && conn->sm_state->previd &&
+        conn->sm_state->bound_jid) {
         resume = xmpp_stanza_new(conn->ctx);
         if (!resume) {
             disconnect_mem_error(conn);
-- 
2.43.0


From da038ed4cdf529133d66955243900df8e3750090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 08/50] fix: follow XEP-0198 when enabling or resuming stream
 management fails

---
 src/auth.c | 73 ++++++++++++++++++++++++++++--------------------------
 src/conn.c |  2 ++
 2 files changed, 40 insertions(+), 35 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index d75320e..be62482 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1406,10 +1406,11 @@ static int _handle_sm(xmpp_conn_t *const conn,
     if (!name)
         goto err_sm;
 
-    if (strcmp(name, "enabled") == 0) {
+    if (strcmp(name, "enabled") == 0 && !conn->sm_state->resume) {
         conn->sm_state->sm_handled_nr = 0;
+        conn->sm_state->can_resume = 0;
         resume = xmpp_stanza_get_attribute(stanza, "resume");
-        if (resume && (strcasecmp(resume, "true") || strcmp(resume, "1"))) {
+        if (resume && (!strcasecmp(resume, "true") || !strcmp(resume, "1"))) {
             id = xmpp_stanza_get_attribute(stanza, "id");
             if (!id) {
                 strophe_error(conn->ctx, "xmpp",
@@ -1419,6 +1420,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
                 goto err_sm;
             }
             conn->sm_state->can_resume = 1;
+            strophe_free_and_null(conn->ctx, conn->sm_state->id);
             conn->sm_state->id = strophe_strdup(conn->ctx, id);
         }
         /* We maybe have stuff in the SM queue if we tried to resume, but the
@@ -1427,7 +1429,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
          */
         _sm_queue_resend(conn);
         _stream_negotiation_success(conn);
-    } else if (strcmp(name, "resumed") == 0) {
+    } else if (strcmp(name, "resumed") == 0 && conn->sm_state->resume) {
         previd = xmpp_stanza_get_attribute(stanza, "previd");
         if (!previd || strcmp(previd, conn->sm_state->previd)) {
             strophe_error(conn->ctx, "xmpp",
@@ -1440,15 +1442,13 @@ static int _handle_sm(xmpp_conn_t *const conn,
             name = NULL;
             goto err_sm;
         }
+        conn->sm_state->resume = 0;
         conn->sm_state->sm_enabled = 1;
         conn->sm_state->id = conn->sm_state->previd;
         conn->sm_state->previd = NULL;
         conn->bound_jid = conn->sm_state->bound_jid;
         conn->sm_state->bound_jid = NULL;
-        if (conn->sm_state->sm_queue.head)
-            conn->sm_state->sm_sent_nr = conn->sm_state->sm_queue.head->sm_h;
-        else
-            conn->sm_state->sm_sent_nr = ul_h;
+        conn->sm_state->sm_sent_nr = ul_h;
         _sm_queue_cleanup(conn, ul_h);
         _sm_queue_resend(conn);
         strophe_debug(conn->ctx, "xmpp", "Session resumed successfully.");
@@ -1459,37 +1459,41 @@ static int _handle_sm(xmpp_conn_t *const conn,
 
         failed_cause =
             xmpp_stanza_get_child_by_ns(stanza, XMPP_NS_STANZAS_IETF);
-        if (!failed_cause)
-            goto err_sm;
-
-        cause = xmpp_stanza_get_name(failed_cause);
-        if (!cause)
-            goto err_sm;
-
-        if (!strcmp(cause, "item-not-found")) {
-            if (conn->sm_state->resume) {
-                /* It's no error if there's no `h` attribute included
-                 * but if there is, it gives a hint at what the server
-                 * already received.
-                 */
-                if (!_get_h_attribute(stanza, &ul_h)) {
-                    /* In cases there's no `h` included, drop all elements. */
-                    ul_h = (unsigned long)-1;
-                }
-                _sm_queue_cleanup(conn, ul_h);
-            }
-        } else if (!strcmp(cause, "feature-not-implemented")) {
-            conn->sm_state->resume = 0;
-            conn->sm_state->can_resume = 0;
+        cause = failed_cause ? xmpp_stanza_get_name(failed_cause) : NULL;
+        if (cause && !strcmp(cause, "feature-not-implemented")) {
             /* remember that the server reports having support
              * for resumption, but actually it doesn't ...
              */
             conn->sm_state->dont_request_resume = 1;
         }
-        bind = conn->sm_state->bind;
-        conn->sm_state->bind = NULL;
-        reset_sm_state(conn->sm_state);
-        _do_bind(conn, bind);
+        if (conn->sm_state->resume) {
+            /* It's no error if there's no `h` attribute included
+             * but if there is, it tells what the server already
+             * received. Everything else is sent again.
+             */
+            if (xmpp_stanza_get_attribute(stanza, "h") &&
+                !_get_h_attribute(stanza, &ul_h)) {
+                _sm_queue_cleanup(conn, ul_h);
+            }
+            bind = conn->sm_state->bind;
+            conn->sm_state->bind = NULL;
+            reset_sm_state(conn->sm_state);
+            if (bind) {
+                _do_bind(conn, bind);
+            } else {
+                strophe_error(conn->ctx, "xmpp",
+                              "Stream features does not allow "
+                              "resource bind.");
+                xmpp_disconnect(conn);
+            }
+        } else {
+            /* the server refused to enable stream management, that's
+             * no reason to give up the session
+             */
+            reset_sm_state(conn->sm_state);
+            _sm_queue_resend(conn);
+            _stream_negotiation_success(conn);
+        }
     } else {
         /* unknown stanza received */
         name = NULL;
@@ -1516,8 +1520,7 @@ err_sm:
                      buf);
         if (buf != err)
             strophe_free(conn->ctx, buf);
-        /* Don't disable for <failure> cases, they're no hard errors */
-        conn->sm_state->sm_enabled = bind != NULL;
+        conn->sm_state->sm_enabled = 0;
     }
     return 0;
 }
diff --git a/src/conn.c b/src/conn.c
index f586a59..40d9566 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1692,6 +1692,8 @@ void reset_sm_state(xmpp_sm_state_t *sm_state)
     sm_state->sm_handled_nr = 0;
     sm_state->sm_sent_nr = 0;
     sm_state->r_sent = 0;
+    sm_state->can_resume = 0;
+    sm_state->resume = 0;
 }
 
 /**  c.f. \ref xmpp_conn_get_sm_state for usage documentation
-- 
2.43.0


From 15fe2c9f394a6c7ab9fac7a09d6ecb9e37b09cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 09/50] fix: refuse DIGEST-MD5 challenges without text or nonce

---
 src/auth.c | 6 ++++--
 src/sasl.c | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index be62482..9512ffb 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -392,12 +392,14 @@ static int _handle_digestmd5_challenge(xmpp_conn_t *conn,
 
     if (strcmp(name, "challenge") == 0) {
         text = xmpp_stanza_get_text(stanza);
-        response = sasl_digest_md5(conn->ctx, text, conn->jid, conn->pass);
+        response = text ? sasl_digest_md5(conn->ctx, text, conn->jid,
+                                          conn->pass)
+                        : NULL;
+        strophe_free_and_null(conn->ctx, text);
         if (!response) {
             disconnect_mem_error(conn);
             return 0;
         }
-        strophe_free(conn->ctx, text);
 
         auth = xmpp_stanza_new(conn->ctx);
         if (!auth) {
diff --git a/src/sasl.c b/src/sasl.c
index a280a7f..25f5e65 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -258,6 +258,11 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
         strophe_error(ctx, "SASL", "couldn't parse digest challenge");
         return NULL;
     }
+    if (hash_get(table, "nonce") == NULL) {
+        strophe_error(ctx, "SASL", "digest challenge has no nonce");
+        hash_release(table);
+        return NULL;
+    }
 
     node = xmpp_jid_node(ctx, jid);
     domain = xmpp_jid_domain(ctx, jid);
-- 
2.43.0


From 2102685578ef3a0aeb6194b21c92adb210a7754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 10/50] fix: answer DIGEST-MD5 challenges with qop=auth and
 echo charset only if given

---
 src/sasl.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/sasl.c b/src/sasl.c
index 25f5e65..23b10d1 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -280,8 +280,8 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     xmpp_rand_nonce(ctx->rand, cnonce, sizeof(cnonce));
     hash_add(table, "cnonce", strophe_strdup(ctx, cnonce));
     hash_add(table, "nc", strophe_strdup(ctx, "00000001"));
-    if (hash_get(table, "qop") == NULL)
-        hash_add(table, "qop", strophe_strdup(ctx, "auth"));
+    /* qop lists what the server offers, we only support "auth" */
+    hash_add(table, "qop", strophe_strdup(ctx, "auth"));
     value = strophe_alloc(ctx, 5 + strlen(domain) + 1);
     memcpy(value, "xmpp/", 5);
     memcpy(value + 5, domain, strlen(domain));
@@ -319,10 +319,6 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     MD5Update(&MD5, (unsigned char *)"AUTHENTICATE:", 13);
     value = hash_get(table, "digest-uri");
     MD5Update(&MD5, (unsigned char *)value, strlen(value));
-    if (strcmp(hash_get(table, "qop"), "auth") != 0) {
-        MD5Update(&MD5, (unsigned char *)":00000000000000000000000000000000",
-                  33);
-    }
     MD5Final(digest, &MD5);
 
     memcpy(HA2, digest, 16);
@@ -364,7 +360,8 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     result = _add_key(ctx, table, "qop", result, 0);
     result = _add_key(ctx, table, "digest-uri", result, 1);
     result = _add_key(ctx, table, "response", result, 0);
-    result = _add_key(ctx, table, "charset", result, 0);
+    if (hash_get(table, "charset"))
+        result = _add_key(ctx, table, "charset", result, 0);
 
     strophe_free(ctx, node);
     strophe_free(ctx, domain);
-- 
2.43.0


From 507b1caa6d35d2cd53a5d167bb3626d391680ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 11/50] fix: check the nonce and the iteration count of a SCRAM
 challenge

---
 src/sasl.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sasl.c b/src/sasl.c
index 23b10d1..96a2eb4 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -426,11 +426,22 @@ char *sasl_scram(xmpp_ctx_t *ctx,
         goto out;
     }
 
+    /* the server's nonce has to start with ours */
+    ptr = strstr(first_bare, ",r=");
+    if (!ptr || strncmp(r, ptr + 1, strlen(ptr + 1)) != 0) {
+        goto out;
+    }
+
+    ival = strtol(i, &saveptr, 10);
+    if (saveptr == i || *saveptr != '\0' || ival <= 0 ||
+        (unsigned long)ival > UINT32_MAX) {
+        goto out;
+    }
+
     xmpp_base64_decode_bin(ctx, s, strlen(s), &sval, &sval_len);
     if (!sval) {
         goto out;
     }
-    ival = strtol(i, &saveptr, 10);
 
     /* "c=<channel_binding>," + r + ",p=" + sign_b64 + '\0' */
     response_len = 3 + strlen(channel_binding) + strlen(r) + 3 +
-- 
2.43.0


From 0cbb4a3f62f190744550dee9637a8f88fc154e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 12/50] fix: escape ',' and '=' in the SCRAM user name

---
 src/auth.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/auth.c b/src/auth.c
index 9512ffb..bef52ed 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -556,13 +556,38 @@ err:
     return 0;
 }
 
+/* RFC 5802: ',' and '=' in the user name are sent as "=2C" and "=3D" */
+static char *_escape_saslname(xmpp_ctx_t *ctx, const char *name)
+{
+    size_t len = 0;
+    const char *c;
+    char *ret, *p;
+
+    for (c = name; *c; ++c)
+        len += *c == ',' || *c == '=' ? 3 : 1;
+    ret = p = strophe_alloc(ctx, len + 1);
+    if (!ret)
+        return NULL;
+    for (c = name; *c; ++c) {
+        if (*c == ',' || *c == '=') {
+            *p++ = '=';
+            *p++ = *c == ',' ? '2' : '3';
+            *p++ = *c == ',' ? 'C' : 'D';
+        } else {
+            *p++ = *c;
+        }
+    }
+    *p = '\0';
+    return ret;
+}
+
 static int _make_scram_init_msg(struct scram_user_data *scram)
 {
     xmpp_conn_t *conn = scram->conn;
     xmpp_ctx_t *ctx = conn->ctx;
     const void *binding_data;
     const char *binding_type;
-    char *node, *message;
+    char *node, *saslname, *message;
     size_t message_len, binding_type_len = 0, binding_data_len;
     int l, is_secured = xmpp_conn_is_secured(conn);
     /* This buffer must be able to hold:
@@ -591,6 +616,12 @@ static int _make_scram_init_msg(struct scram_user_data *scram)
     if (!node) {
         return -1;
     }
+    saslname = _escape_saslname(ctx, node);
+    strophe_free(ctx, node);
+    if (!saslname) {
+        return -1;
+    }
+    node = saslname;
     /* 32 bytes nonce is enough */
     xmpp_rand_nonce(ctx->rand, buf, 33);
     message_len = strlen(node) + strlen(buf) + 8 + binding_type_len + 1;
-- 
2.43.0


From 130fc10cbaccbe32d13c7e20bbd6996ea69c0b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 13/50] fix: release the SCRAM state of a connection that ends
 during authentication

---
 src/auth.c   | 26 ++++++++++++++++++++------
 src/common.h |  2 ++
 src/conn.c   |  1 +
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index bef52ed..28f3cf4 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -473,6 +473,23 @@ struct scram_user_data {
     const struct hash_alg *alg;
 };
 
+static void _scram_ctx_free(xmpp_conn_t *conn,
+                            struct scram_user_data *scram_ctx)
+{
+    if (conn->scram_ctx == scram_ctx)
+        conn->scram_ctx = NULL;
+    strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
+    strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
+    strophe_free(conn->ctx, scram_ctx);
+}
+
+/* release what an authentication that didn't complete left behind */
+void auth_reset(xmpp_conn_t *conn)
+{
+    if (conn->scram_ctx)
+        _scram_ctx_free(conn, conn->scram_ctx);
+}
+
 /* handle the challenge phase of SCRAM-SHA-1 auth */
 static int _handle_scram_challenge(xmpp_conn_t *conn,
                                    xmpp_stanza_t *stanza,
@@ -537,9 +554,7 @@ static int _handle_scram_challenge(xmpp_conn_t *conn,
          */
         rc = _handle_sasl_result(conn, stanza,
                                  (void *)scram_ctx->alg->scram_name);
-        strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
-        strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
-        strophe_free(conn->ctx, scram_ctx);
+        _scram_ctx_free(conn, scram_ctx);
     }
 
     return rc;
@@ -549,9 +564,7 @@ err_release_auth:
 err_free_response:
     strophe_free(conn->ctx, response);
 err:
-    strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
-    strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
-    strophe_free(conn->ctx, scram_ctx);
+    _scram_ctx_free(conn, scram_ctx);
     disconnect_mem_error(conn);
     return 0;
 }
@@ -885,6 +898,7 @@ static void _auth(xmpp_conn_t *conn)
         strophe_free(conn->ctx, str);
         xmpp_stanza_add_child_ex(auth, authdata, 0);
 
+        conn->scram_ctx = scram_ctx;
         handler_add(conn, _handle_scram_challenge, XMPP_NS_SASL, NULL, NULL,
                     (void *)scram_ctx);
 
diff --git a/src/common.h b/src/common.h
index a367367..0b266ae 100644
--- a/src/common.h
+++ b/src/common.h
@@ -265,6 +265,7 @@ struct _xmpp_conn_t {
     int tls_failed;   /* set when tls fails, so we don't try again */
     int sasl_support; /* if true, field is a bitfield of supported
                          mechanisms */
+    struct scram_user_data *scram_ctx; /* of the SCRAM exchange in progress */
     int auth_legacy_enabled;
     int secured; /* set when stream is secured with TLS */
     xmpp_certfail_handler certfail_handler;
@@ -388,6 +389,7 @@ void reset_sm_state(xmpp_sm_state_t *sm_state);
 void disconnect_mem_error(xmpp_conn_t *conn);
 
 /* auth functions */
+void auth_reset(xmpp_conn_t *conn);
 void auth_handle_open(xmpp_conn_t *conn);
 void auth_handle_component_open(xmpp_conn_t *conn);
 void auth_handle_open_raw(xmpp_conn_t *conn);
diff --git a/src/conn.c b/src/conn.c
index 40d9566..21609c6 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2170,6 +2170,7 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->session_required = 0;
 
     handler_system_delete_all(conn);
+    auth_reset(conn);
 }
 
 static int _conn_connect(xmpp_conn_t *conn,
-- 
2.43.0


From 0ae052066ef6e43b4240e3d89575cb05839d8c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 14/50] fix: check the bounds of a restored SM state and refuse
 it cleanly

---
 src/conn.c | 61 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 21609c6..6b284e8 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1279,6 +1279,23 @@ void xmpp_conn_set_sm_callback(xmpp_conn_t *conn,
     conn->sm_callback_ctx = ctx;
 }
 
+static void _free_send_queue(xmpp_conn_t *conn)
+{
+    xmpp_ctx_t *ctx = conn->ctx;
+    xmpp_send_queue_t *sq, *tsq;
+
+    sq = conn->send_queue_head;
+    while (sq) {
+        tsq = sq;
+        sq = sq->next;
+        strophe_free(ctx, queue_element_free(ctx, tsq));
+    }
+    conn->send_queue_head = NULL;
+    conn->send_queue_tail = NULL;
+    conn->send_queue_len = 0;
+    conn->send_queue_user_len = 0;
+}
+
 struct sm_restore {
     xmpp_conn_t *conn;
     const unsigned char *state;
@@ -1287,6 +1304,11 @@ struct sm_restore {
 
 static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val)
 {
+    if (sm->state >= sm->state_end) {
+        strophe_error(sm->conn->ctx, "conn",
+                      "Provided sm_state data is too short");
+        return XMPP_EINVOP;
+    }
     if (*sm->state != type) {
         strophe_error(
             sm->conn->ctx, "conn",
@@ -1295,7 +1317,7 @@ static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val)
         return XMPP_EINVOP;
     }
     sm->state++;
-    if ((sm->state + 4) > sm->state_end) {
+    if (sm->state_end - sm->state < 4) {
         strophe_error(sm->conn->ctx, "conn",
                       "Provided sm_state data is too short");
         return XMPP_EINVOP;
@@ -1313,12 +1335,12 @@ static int sm_load_string(struct sm_restore *sm, char **val, size_t *len)
     int ret = sm_load_u32(sm, 0x7a, &l);
     if (ret)
         return ret;
-    if ((sm->state + l) > sm->state_end) {
+    if ((size_t)(sm->state_end - sm->state) < l) {
         strophe_error(sm->conn->ctx, "conn",
                       "Provided sm_state data is too short");
         return XMPP_EINVOP;
     }
-    *val = strophe_alloc(sm->conn->ctx, l + 1);
+    *val = strophe_alloc(sm->conn->ctx, (size_t)l + 1);
     if (!*val)
         return XMPP_EMEM;
     memcpy(*val, sm->state, l);
@@ -1406,12 +1428,16 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     ret = sm_load_string(&sm, &conn->sm_state->id, &id_len);
     if (ret)
         goto err_reload;
+    if (strlen(conn->sm_state->id) != id_len) {
+        strophe_error(conn->ctx, "conn", "Invalid id in sm_state data");
+        ret = XMPP_EINVOP;
+        goto err_reload;
+    }
 
     uint32_t len, i;
     ret = sm_load_u32(&sm, 0x9a, &len);
     if (ret)
         goto err_reload;
-    conn->send_queue_user_len = conn->send_queue_len = len;
     for (i = 0; i < len; i++) {
         xmpp_send_queue_t *item = strophe_alloc(conn->ctx, sizeof(*item));
         if (!item) {
@@ -1424,15 +1450,17 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
             conn->send_queue_head = item;
             conn->send_queue_tail = item;
         } else {
+            item->prev = conn->send_queue_tail;
             conn->send_queue_tail->next = item;
             conn->send_queue_tail = item;
         }
+        item->owner = XMPP_QUEUE_USER;
+        conn->send_queue_len++;
+        conn->send_queue_user_len++;
 
         ret = sm_load_string(&sm, &item->data, &item->len);
         if (ret)
             goto err_reload;
-
-        item->owner = XMPP_QUEUE_USER;
     }
 
     ret = sm_load_u32(&sm, 0xba, &len);
@@ -1458,10 +1486,19 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
         item->owner = XMPP_QUEUE_USER;
     }
 
+    if (sm.state != sm.state_end) {
+        strophe_error(conn->ctx, "conn",
+                      "Provided sm_state data has trailing bytes");
+        ret = XMPP_EINVOP;
+        goto err_reload;
+    }
+
     return XMPP_EOK;
 
 err_reload:
+    _free_send_queue(conn);
     xmpp_free_sm_state(conn->sm_state);
+    conn->sm_state = NULL;
     return ret;
 }
 
@@ -2126,7 +2163,6 @@ char *queue_element_free(xmpp_ctx_t *ctx, xmpp_send_queue_t *e)
 static void _conn_reset(xmpp_conn_t *conn)
 {
     xmpp_ctx_t *ctx = conn->ctx;
-    xmpp_send_queue_t *sq, *tsq;
 
     if (conn->state != XMPP_STATE_DISCONNECTED) {
         strophe_debug(ctx, "conn", "Can't reset connected object.");
@@ -2139,16 +2175,7 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->intf.conn = conn;
 
     /* free queued */
-    sq = conn->send_queue_head;
-    while (sq) {
-        tsq = sq;
-        sq = sq->next;
-        strophe_free(ctx, queue_element_free(ctx, tsq));
-    }
-    conn->send_queue_head = NULL;
-    conn->send_queue_tail = NULL;
-    conn->send_queue_len = 0;
-    conn->send_queue_user_len = 0;
+    _free_send_queue(conn);
 
     if (conn->stream_error) {
         xmpp_stanza_release(conn->stream_error->stanza);
-- 
2.43.0


From dd9526fee8372793139fd079fc1d185556d8bd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 15/50] fix: do not serialise an SM state without id, free the
 right buffer on error

---
 src/conn.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 6b284e8..db2576a 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1520,8 +1520,9 @@ static int sm_store_u32(unsigned char **next_,
 
 static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 {
-    if (!conn->sm_state->sm_support || !conn->sm_state->sm_enabled ||
-        !conn->sm_state->can_resume) {
+    if (!conn->sm_state || !conn->sm_state->sm_support ||
+        !conn->sm_state->sm_enabled || !conn->sm_state->can_resume ||
+        !conn->sm_state->id) {
         *buf = NULL;
         return 0;
     }
@@ -1607,7 +1608,7 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 
 err_serialize:
     strophe_error(conn->ctx, "conn", "Can't serialize more data, buffer full");
-    strophe_free(conn->ctx, buf);
+    strophe_free_and_null(conn->ctx, *buf);
     return 0;
 }
 
-- 
2.43.0


From 7bb5e05762acf3da4b04bff9e56f157dda5294f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 16/50] fix: give component connections an SM state

---
 src/conn.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index db2576a..58437f0 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -636,6 +636,19 @@ xmpp_ctx_t *xmpp_conn_get_context(xmpp_conn_t *conn)
     return conn->ctx;
 }
 
+/* every connection has an SM state while it isn't disconnected */
+static int _conn_sm_state_new(xmpp_conn_t *conn)
+{
+    if (!conn->sm_state) {
+        conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
+        if (!conn->sm_state)
+            return XMPP_EMEM;
+        memset(conn->sm_state, 0, sizeof(*conn->sm_state));
+        conn->sm_state->ctx = conn->ctx;
+    }
+    return XMPP_EOK;
+}
+
 /** Initiate a connection to the XMPP server.
  *  This function returns immediately after starting the connection
  *  process to the XMPP server, and notifications of connection state changes
@@ -689,13 +702,8 @@ int xmpp_connect_client(xmpp_conn_t *conn,
     if (!domain)
         return XMPP_EMEM;
 
-    if (!conn->sm_state) {
-        conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
-        if (!conn->sm_state)
-            goto err_mem;
-        memset(conn->sm_state, 0, sizeof(*conn->sm_state));
-        conn->sm_state->ctx = conn->ctx;
-    }
+    if (_conn_sm_state_new(conn) != XMPP_EOK)
+        goto err_mem;
 
     if (altdomain != NULL)
         strophe_debug(conn->ctx, "conn", "Connecting via altdomain.");
@@ -766,6 +774,9 @@ int xmpp_connect_component(xmpp_conn_t *conn,
         return XMPP_EINT;
     }
 
+    if (_conn_sm_state_new(conn) != XMPP_EOK)
+        return XMPP_EMEM;
+
     port = port ? port : _conn_default_port(conn, XMPP_COMPONENT);
     if (conn->xsock)
         sock_free(conn->xsock);
-- 
2.43.0


From f938c843cd159b05a24e516e45ef2a74c809fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:45 +0000
Subject: [PATCH 17/50] fix: ignore what is read after a connection has ended

---
 src/conn.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 58437f0..4db8e21 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -928,6 +928,9 @@ void conn_disconnect_clean(xmpp_conn_t *conn)
  */
 void conn_disconnect(xmpp_conn_t *conn)
 {
+    if (conn->state == XMPP_STATE_DISCONNECTED)
+        return;
+
     strophe_debug(conn->ctx, "xmpp", "Closing socket.");
     conn->state = XMPP_STATE_DISCONNECTED;
     conn->stream_negotiation_completed = 0;
@@ -1638,6 +1641,9 @@ static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn)
 {
     xmpp_sm_state_t *s = conn->sm_state;
 
+    if (!s)
+        return;
+
     if (s->previd) {
         strophe_free(conn->ctx, s->previd);
         s->previd = NULL;
@@ -1870,7 +1876,8 @@ char *xmpp_conn_send_queue_drop_element(xmpp_conn_t *conn,
     if (t->next && t->next->userdata == t) {
         strophe_free(conn->ctx, _drop_send_queue_element(conn, t->next));
         /* reset the flag, so we restart to send `<r>` stanzas */
-        conn->sm_state->r_sent = 0;
+        if (conn->sm_state)
+            conn->sm_state->r_sent = 0;
     }
     /* Finally drop the element */
     char *r = _drop_send_queue_element(conn, t);
@@ -2029,6 +2036,10 @@ static void _handle_stream_start(char *name, char **attrs, void *userdata)
     char *id;
     int failed = 0;
 
+    /* the rest of what was read belongs to a closed connection */
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     if (conn->stream_id)
         strophe_free(conn->ctx, conn->stream_id);
     conn->stream_id = NULL;
@@ -2065,6 +2076,9 @@ static void _handle_stream_end(char *name, void *userdata)
 
     UNUSED(name);
 
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     /* stream is over */
     strophe_debug(conn->ctx, "xmpp", "RECV: </stream:stream>");
     /* the session has been terminated properly, i.e. it can't be resumed */
@@ -2079,13 +2093,16 @@ static void _handle_stream_stanza(xmpp_stanza_t *stanza, void *userdata)
     char *buf;
     size_t len;
 
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     if (xmpp_stanza_to_text(stanza, &buf, &len) == 0) {
         strophe_debug(conn->ctx, "xmpp", "RECV: %s", buf);
         strophe_free(conn->ctx, buf);
     }
 
     handler_fire_stanza(conn, stanza);
-    if (conn->sm_state->sm_enabled)
+    if (conn->state == XMPP_STATE_CONNECTED && conn->sm_state->sm_enabled)
         _conn_sm_handle_stanza(conn, stanza);
 }
 
-- 
2.43.0


From df09bfe6552b4d12ab72f83a1ccbd7bbf7817bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 18/50] fix: forget what an earlier server offered when
 connecting again

---
 src/conn.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 4db8e21..bc7c24c 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2221,6 +2221,8 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->error = 0;
 
     conn->tls_support = 0;
+    conn->sasl_support = 0;
+    conn->compression.supported = 0;
 
     conn->bind_required = 0;
     conn->session_required = 0;
-- 
2.43.0


From 58ce99015d49439cee6418c89ed33ade9a97f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 19/50] fix: keep the resumable session over failed connection
 attempts

---
 src/conn.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index bc7c24c..afa1ab1 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1644,20 +1644,18 @@ static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn)
     if (!s)
         return;
 
-    if (s->previd) {
-        strophe_free(conn->ctx, s->previd);
-        s->previd = NULL;
-    }
-
-    if (s->can_resume) {
+    if (s->can_resume && s->id) {
+        strophe_free_and_null(conn->ctx, s->previd);
         s->previd = s->id;
         s->id = NULL;
 
+        strophe_free_and_null(conn->ctx, s->bound_jid);
         s->bound_jid = conn->bound_jid;
         conn->bound_jid = NULL;
-    } else if (s->id) {
-        strophe_free(conn->ctx, s->id);
-        s->id = NULL;
+    } else if (!s->can_resume) {
+        strophe_free_and_null(conn->ctx, s->previd);
+        strophe_free_and_null(conn->ctx, s->bound_jid);
+        strophe_free_and_null(conn->ctx, s->id);
     }
 
     s->r_sent = s->sm_enabled = s->sm_support = s->resume = 0;
@@ -2245,6 +2243,9 @@ static int _conn_connect(xmpp_conn_t *conn,
         return XMPP_EINVOP;
 
     _conn_reset(conn);
+    /* a restored SM state belongs to the previous stream */
+    if (conn->sm_state->sm_enabled)
+        _reset_sm_state_for_reconnect(conn);
 
     conn->type = type;
     conn->domain = strophe_strdup(conn->ctx, domain);
-- 
2.43.0


From 6cde13e5d945d895e72b2a0cbc130e58266f8506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 20/50] fix: unlink sent elements from the send queue

---
 src/event.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/event.c b/src/event.c
index 56d0a24..5618649 100644
--- a/src/event.c
+++ b/src/event.c
@@ -174,7 +174,11 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
             /* if we've sent everything update the tail */
             if (!sq)
                 conn->send_queue_tail = NULL;
+            else
+                sq->prev = NULL;
             trigger_sm_callback(conn);
+            /* the callback might have dropped elements */
+            sq = conn->send_queue_head;
         }
         intf->flush(intf);
 
-- 
2.43.0


From cc509601d9435f9a614241b530ee3347797adbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 21/50] fix: do not read past the received data when logging a
 parse error

---
 src/event.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/event.c b/src/event.c
index 5618649..e02784b 100644
--- a/src/event.c
+++ b/src/event.c
@@ -316,9 +316,12 @@ next_item:
                 ret = intf->read(intf, buf, STROPHE_MESSAGE_BUFFER_SIZE);
 
                 if (ret > 0) {
-                    ret = parser_feed(conn->parser, buf, ret);
+                    int len = ret;
+
+                    ret = parser_feed(conn->parser, buf, len);
                     if (!ret) {
-                        strophe_debug(ctx, "xmpp", "parse error [%s]", buf);
+                        strophe_debug(ctx, "xmpp", "parse error [%.*s]", len,
+                                      buf);
                         xmpp_send_error(conn, XMPP_SE_INVALID_XML,
                                         "parse error");
                     }
-- 
2.43.0


From 2fb788aa0953fa31381e474bcf4cf6bb7e95b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:45 +0000
Subject: [PATCH 22/50] fix: keep the connection on recoverable read errors

---
 src/event.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/event.c b/src/event.c
index e02784b..1c90e4c 100644
--- a/src/event.c
+++ b/src/event.c
@@ -325,14 +325,14 @@ next_item:
                         xmpp_send_error(conn, XMPP_SE_INVALID_XML,
                                         "parse error");
                     }
-                } else {
+                } else if (conn->state == XMPP_STATE_CONNECTED) {
                     int err = intf->get_error(intf);
                     if (!intf->error_is_recoverable(intf, err)) {
                         strophe_debug(ctx, "xmpp", "Unrecoverable error: %d.",
                                       err);
                         conn->error = err;
                         conn_disconnect(conn);
-                    } else if (!conn->tls) {
+                    } else if (ret == 0 && !conn->tls) {
                         /* return of 0 means socket closed by server */
                         strophe_debug(ctx, "xmpp",
                                       "Socket closed by remote host.");
-- 
2.43.0


From 4de3f983cce669c9361b931478ee250cd58ae6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 23/50] fix: try the next SRV target when one does not resolve

---
 src/sock.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sock.c b/src/sock.c
index 90b0431..62403ae 100644
--- a/src/sock.c
+++ b/src/sock.c
@@ -212,10 +212,9 @@ sock_t sock_connect(xmpp_sock_t *xsock)
     char buf[64];
 
     do {
-        if (!xsock->ainfo_cur) {
+        while (!xsock->ainfo_cur && xsock->srv_rr_cur) {
             sock_getaddrinfo(xsock);
-            if (xsock->srv_rr_cur)
-                xsock->srv_rr_cur = xsock->srv_rr_cur->next;
+            xsock->srv_rr_cur = xsock->srv_rr_cur->next;
         }
         if (!xsock->ainfo_cur) {
             /* We tried all available addresses. */
-- 
2.43.0


From e03d40aee2ccd259aa5553d8a5c9485e61914f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 24/50] fix: do not die of SIGPIPE when the server closed the
 connection

---
 src/sock.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sock.c b/src/sock.c
index 62403ae..29b0033 100644
--- a/src/sock.c
+++ b/src/sock.c
@@ -38,6 +38,10 @@
 #include "common.h"
 #include "resolver.h"
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 const struct conn_interface sock_intf = {
     sock_read,
     sock_write,
@@ -397,7 +401,7 @@ int sock_read(struct conn_interface *intf, void *buff, size_t len)
 
 int sock_write(struct conn_interface *intf, const void *buff, size_t len)
 {
-    return send(intf->conn->sock, buff, len, 0);
+    return send(intf->conn->sock, buff, len, MSG_NOSIGNAL);
 }
 
 int sock_is_recoverable(struct conn_interface *intf, int error)
-- 
2.43.0


From c2749f8762fa4e9db4abd5584494b14a71d0cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 25/50] fix: refuse to connect a connection in use before
 touching it

---
 src/conn.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index afa1ab1..bb61952 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -108,6 +108,11 @@ static int _conn_connect(xmpp_conn_t *conn,
                          xmpp_conn_type_t type,
                          xmpp_conn_handler callback,
                          void *userdata);
+static int _connect_client(xmpp_conn_t *conn,
+                           const char *altdomain,
+                           unsigned short altport,
+                           xmpp_conn_handler callback,
+                           void *userdata);
 static void _send_valist(xmpp_conn_t *conn,
                          const char *fmt,
                          va_list ap,
@@ -675,6 +680,19 @@ int xmpp_connect_client(xmpp_conn_t *conn,
                         unsigned short altport,
                         xmpp_conn_handler callback,
                         void *userdata)
+{
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
+    conn->is_raw = 0;
+    return _connect_client(conn, altdomain, altport, callback, userdata);
+}
+
+static int _connect_client(xmpp_conn_t *conn,
+                           const char *altdomain,
+                           unsigned short altport,
+                           xmpp_conn_handler callback,
+                           void *userdata)
 {
     char *domain;
     int rc;
@@ -760,10 +778,15 @@ int xmpp_connect_component(xmpp_conn_t *conn,
                            xmpp_conn_handler callback,
                            void *userdata)
 {
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
     /*  The server domain, jid and password MUST be specified. */
     if (!(server && conn->jid && conn->pass))
         return XMPP_EINVOP;
 
+    conn->is_raw = 0;
+
     /* XEP-0114 does not support TLS */
     (void)xmpp_conn_set_flags(conn, xmpp_conn_get_flags(conn) |
                                         XMPP_CONN_FLAG_DISABLE_TLS);
@@ -816,8 +839,11 @@ int xmpp_connect_raw(xmpp_conn_t *conn,
                      xmpp_conn_handler callback,
                      void *userdata)
 {
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
     conn->is_raw = 1;
-    return xmpp_connect_client(conn, altdomain, altport, callback, userdata);
+    return _connect_client(conn, altdomain, altport, callback, userdata);
 }
 
 /* Called when tcp connection is established. */
-- 
2.43.0


From 398c0c9a40fd480a54a26c9b9acee703576f6662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 26/50] fix: count stanzas without a namespace

---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index bb61952..92dcf47 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2142,7 +2142,7 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
     unsigned long ul_h;
 
     ns = xmpp_stanza_get_ns(stanza);
-    if (ns && strcmp(ns, XMPP_NS_SM) != 0)
+    if (!ns || strcmp(ns, XMPP_NS_SM) != 0)
         ++conn->sm_state->sm_handled_nr;
     else {
         name = xmpp_stanza_get_name(stanza);
-- 
2.43.0


From 479d89d7733d81e8ac16202289b4beb72f503a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 27/50] fix: do not take an invalid acknowledgement for one of
 everything

---
 src/conn.c | 12 +++++-------
 src/util.c |  9 ++++++++-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 92dcf47..e0d979b 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2166,14 +2166,12 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                 return;
             }
             if (string_to_ul(attr_h, &ul_h)) {
-                strophe_error(
-                    conn->ctx, "conn",
-                    "Error on strtoul() of '%s', returned value is %llu.",
-                    attr_h, ul_h);
-                /* We continue here and drop the complete SM queue instead of
-                 * returning and letting the queue fill up.
+                /* This doesn't acknowledge anything. The queue is emptied by
+                 * the next valid acknowledgement.
                  */
-                ul_h = ULONG_MAX;
+                strophe_error(conn->ctx, "conn", "Invalid 'h' value '%s'.",
+                              attr_h);
+                return;
             }
             while (conn->sm_state->sm_queue.head &&
                    conn->sm_state->sm_queue.head->sm_h < ul_h) {
diff --git a/src/util.c b/src/util.c
index 6faec99..15ee79d 100644
--- a/src/util.c
+++ b/src/util.c
@@ -15,6 +15,7 @@
  */
 
 #include <stdio.h>
+#include <errno.h>
 #include <string.h>
 #include <stdlib.h>
 
@@ -166,8 +167,14 @@ void disconnect_mem_error(xmpp_conn_t *conn)
 int string_to_ul(const char *s, unsigned long *ul)
 {
     char *endptr;
+    /* strtoul() accepts white space and a sign */
+    if (*s < '0' || *s > '9') {
+        *ul = 0;
+        return 1;
+    }
+    errno = 0;
     *ul = strtoul(s, &endptr, 10);
-    return *endptr != '\0';
+    return *endptr != '\0' || errno == ERANGE;
 }
 
 void hex_encode(char *writebuf, void *readbuf, size_t len)
-- 
2.43.0


From fc60f74906911bd35d1cd8569362eb0e9266c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 28/50] fix: request acknowledgements again after an invalid
 one

---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index e0d979b..59cc808 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2171,7 +2171,7 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                  */
                 strophe_error(conn->ctx, "conn", "Invalid 'h' value '%s'.",
                               attr_h);
-                return;
+                ul_h = 0;
             }
             while (conn->sm_state->sm_queue.head &&
                    conn->sm_state->sm_queue.head->sm_h < ul_h) {
-- 
2.43.0


From d0cf9f04352eee6272914312fa55d75cfb5161bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:43 +0000
Subject: [PATCH 29/50] fix: do not lose compressed data when the transport
 does not accept all of it

---
 src/compression.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/compression.c b/src/compression.c
index b1a2c3a..1f82f55 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -100,8 +100,12 @@ static int _try_compressed_write_to_network(xmpp_conn_t *conn, int force)
         ret = conn_interface_write(&comp->next, comp->compression.buffer, len);
         if (ret < 0)
             return ret;
-        comp->compression.stream.next_out = comp->compression.buffer;
-        comp->compression.stream.avail_out = STROPHE_COMPRESSION_BUFFER_SIZE;
+        /* keep what the transport didn't accept */
+        if (ret < len)
+            memmove(comp->compression.buffer,
+                    (Bytef *)comp->compression.buffer + ret, len - ret);
+        comp->compression.stream.next_out -= ret;
+        comp->compression.stream.avail_out += ret;
     }
     return ret;
 }
@@ -109,15 +113,17 @@ static int _try_compressed_write_to_network(xmpp_conn_t *conn, int force)
 static int
 _compression_write(xmpp_conn_t *conn, const void *buff, size_t len, int flush)
 {
-    int ret;
-    const void *buff_end = buff + len;
+    int ret = 0;
     struct xmpp_compression *comp = conn->compression.state;
+    if (len == 0 && !flush)
+        return 0;
     comp->compression.stream.next_in = (Bytef *)buff;
     comp->compression.stream.avail_in = len;
     do {
         ret = _try_compressed_write_to_network(conn, 0);
-        if (ret < 0) {
-            return ret;
+        if (comp->compression.stream.avail_out == 0) {
+            /* the transport doesn't accept anything */
+            break;
         }
 
         ret = deflate(&comp->compression.stream, flush);
@@ -133,14 +139,12 @@ _compression_write(xmpp_conn_t *conn, const void *buff, size_t len, int flush)
             conn_disconnect(conn);
             return ret;
         }
-        ret = comp->compression.stream.next_in - (Bytef *)buff;
-    } while (comp->compression.stream.next_in < (Bytef *)buff_end);
-    if (flush) {
-        ret = _try_compressed_write_to_network(conn, 1);
-        if (ret < 0) {
-            return ret;
-        }
-    }
+    } while (comp->compression.stream.avail_in > 0 ||
+             (flush && comp->compression.stream.avail_out == 0));
+    if (flush)
+        return _try_compressed_write_to_network(conn, 1);
+    if (comp->compression.stream.avail_in < len)
+        return len - comp->compression.stream.avail_in;
     return ret;
 }
 
-- 
2.43.0


From 4c4400a4ed3769c99e57cff33875af389f0d217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 30/50] fix: deliver everything the server compressed

---
 src/compression.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/compression.c b/src/compression.c
index 1f82f55..5fd8dd7 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -33,6 +33,7 @@ struct xmpp_compression {
     xmpp_conn_t *conn;
     struct zlib_compression compression, decompression;
     struct conn_interface next;
+    int would_block; /* the last read had nothing to deliver */
 };
 
 static int _conn_decompress(struct xmpp_compression *comp,
@@ -55,12 +56,21 @@ static int _conn_decompress(struct xmpp_compression *comp,
     switch (ret) {
     case Z_STREAM_END:
     case Z_OK:
+    case Z_BUF_ERROR:
+        /* when the output is full there could be more even if all the input
+         * has been consumed */
         if (comp->decompression.buffer_end ==
-            comp->decompression.stream.next_in)
+                comp->decompression.stream.next_in &&
+            comp->decompression.stream.avail_out != 0)
             comp->decompression.stream.next_in = NULL;
-        return comp->decompression.stream.next_out - (Bytef *)buff;
-    case Z_BUF_ERROR:
-        break;
+        if (comp->decompression.stream.next_out != (Bytef *)buff)
+            return comp->decompression.stream.next_out - (Bytef *)buff;
+        if (ret != Z_STREAM_END) {
+            /* nothing to deliver yet */
+            comp->would_block = 1;
+            return -1;
+        }
+        /* fall through */
     default:
         strophe_error(comp->conn->ctx, "zlib", "inflate error %d", ret);
         comp->conn->error = ret;
@@ -76,6 +86,7 @@ static int compression_read(struct conn_interface *intf, void *buff, size_t len)
     struct xmpp_compression *comp = conn->compression.state;
     void *dbuff = buff;
     size_t dlen = len;
+    comp->would_block = 0;
     if (comp->decompression.stream.next_in != NULL) {
         return _conn_decompress(comp, 0, buff, len);
     }
@@ -115,6 +126,7 @@ _compression_write(xmpp_conn_t *conn, const void *buff, size_t len, int flush)
 {
     int ret = 0;
     struct xmpp_compression *comp = conn->compression.state;
+    comp->would_block = 0;
     if (len == 0 && !flush)
         return 0;
     comp->compression.stream.next_in = (Bytef *)buff;
@@ -173,12 +185,16 @@ static int compression_pending(struct conn_interface *intf)
 
 static int compression_get_error(struct conn_interface *intf)
 {
+    if (intf->conn->compression.state->would_block)
+        return EAGAIN;
     struct conn_interface *next = &intf->conn->compression.state->next;
     return next->get_error(next);
 }
 
 static int compression_is_recoverable(struct conn_interface *intf, int err)
 {
+    if (intf->conn->compression.state->would_block)
+        return 1;
     struct conn_interface *next = &intf->conn->compression.state->next;
     return next->error_is_recoverable(next, err);
 }
-- 
2.43.0


From cc89522bd460b2339b2b1fb2e2b98d9efd199df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 31/50] fix: do not wait for the socket while inflated data is
 pending

---
 src/event.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/event.c b/src/event.c
index 1c90e4c..a06bd9a 100644
--- a/src/event.c
+++ b/src/event.c
@@ -204,10 +204,6 @@ next_item:
        the time when timed handlers need to be called */
     next = handler_fire_timed(ctx);
 
-    usec = ((next < timeout) ? next : timeout) * 1000;
-    tv.tv_sec = (long)(usec / 1000000);
-    tv.tv_usec = (long)(usec % 1000000);
-
     FD_ZERO(&rfds);
     FD_ZERO(&wfds);
 
@@ -248,9 +244,9 @@ next_item:
             break;
         }
 
-        /* Check if there is something in the SSL buffer. */
-        if (conn->tls)
-            tls_read_bytes += tls_pending(intf);
+        /* Check if there is something in the SSL or compression buffer. */
+        if (conn->state == XMPP_STATE_CONNECTED)
+            tls_read_bytes += intf->pending(intf);
 
         if (conn->state != XMPP_STATE_DISCONNECTED && conn->sock > max)
             max = conn->sock;
@@ -258,6 +254,11 @@ next_item:
         connitem = connitem->next;
     }
 
+    /* don't wait if there is something to read already */
+    usec = tls_read_bytes > 0 ? 0 : ((next < timeout) ? next : timeout) * 1000;
+    tv.tv_sec = (long)(usec / 1000000);
+    tv.tv_usec = (long)(usec % 1000000);
+
     /* check for events */
     if (max > 0)
         ret = select(max + 1, &rfds, &wfds, NULL, &tv);
-- 
2.43.0


From 1fe8a8271f71b78cfaa4ee274888274498d44518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 32/50] fix: release the compression state

---
 src/compression.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compression.c b/src/compression.c
index 5fd8dd7..07f0034 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -280,6 +280,7 @@ void compression_free(xmpp_conn_t *conn)
         inflateEnd(&comp->decompression.stream);
         strophe_free_and_null(conn->ctx, comp->decompression.buffer);
     }
+    strophe_free_and_null(conn->ctx, conn->compression.state);
 }
 
 void compression_handle_feature_children(xmpp_conn_t *conn, const char *text)
-- 
2.43.0


From 85b51b5b125a3ede6e27ca4b08ba9d9873c68dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 33/50] fix: keep a handler that is deleted during its call
 until it returns

---
 src/common.h  |  2 ++
 src/handler.c | 89 +++++++++++++++++++++++++++++++++++----------------
 2 files changed, 63 insertions(+), 28 deletions(-)

diff --git a/src/common.h b/src/common.h
index 0b266ae..c821a84 100644
--- a/src/common.h
+++ b/src/common.h
@@ -45,6 +45,8 @@ struct _xmpp_handlist_t {
     int enabled; /* handlers are added disabled and enabled after the
                   * handler chain is processed to prevent stanzas from
                   * getting processed by newly added handlers */
+    int firing;  /* the handler is being called, it must not be freed */
+    int deleted; /* the handler was deleted while it was being called */
     xmpp_handlist_t *next;
 
     union {
diff --git a/src/handler.c b/src/handler.c
index 0577252..ab284a6 100644
--- a/src/handler.c
+++ b/src/handler.c
@@ -45,6 +45,28 @@ static void _handler_item_remove(xmpp_handlist_t **head, xmpp_handlist_t *item)
     }
 }
 
+/* A handler can be deleted by itself or because the connection is reset
+ * while it's being called. Then it's freed when it returns.
+ *
+ * Returns non-zero if the item mustn't be removed and freed by the caller.
+ */
+static int _handler_item_deferred(xmpp_handlist_t *item)
+{
+    if (item->firing)
+        item->deleted = 1;
+    return item->firing;
+}
+
+/* Set the new head of the list of handlers for an id. */
+static void
+_id_handlers_set(xmpp_conn_t *conn, const char *id, xmpp_handlist_t *head)
+{
+    if (head)
+        hash_add(conn->id_handlers, id, head);
+    else
+        hash_drop(conn->id_handlers, id);
+}
+
 static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
 {
     if (item->u.ns)
@@ -69,6 +91,11 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
     const char *id, *ns, *name, *type;
     int ret;
 
+    /* enable all added handlers, those which are added by the handlers below
+       don't see this stanza */
+    for (item = conn->handlers; item; item = item->next)
+        item->enabled = 1;
+
     /* call id handlers */
     id = xmpp_stanza_get_id(stanza);
     if (id) {
@@ -87,15 +114,18 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
                 continue;
             }
 
+            item->firing = 1;
             ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
+            item->firing = 0;
             next = item->next;
-            if (!ret) {
+            if (!ret || item->deleted) {
                 /* handler is one-shot, so delete it */
-                head_old = head;
+                head = head_old = (xmpp_handlist_t *)hash_get(
+                    conn->id_handlers, item->u.id);
                 _handler_item_remove(&head, item);
                 if (head != head_old) {
                     /* replace old value */
-                    hash_add(conn->id_handlers, id, head);
+                    _id_handlers_set(conn, item->u.id, head);
                 }
                 strophe_free(conn->ctx, item->u.id);
                 strophe_free(conn->ctx, item);
@@ -109,10 +139,6 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
     name = xmpp_stanza_get_name(stanza);
     type = xmpp_stanza_get_type(stanza);
 
-    /* enable all added handlers */
-    for (item = conn->handlers; item; item = item->next)
-        item->enabled = 1;
-
     item = conn->handlers;
     while (item) {
         /* don't fire user handlers until stream negotiation has completed and
@@ -129,10 +155,12 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
             (!item->u.name || (name && strcmp(name, item->u.name) == 0)) &&
             (!item->u.type || (type && strcmp(type, item->u.type) == 0))) {
 
+            item->firing = 1;
             ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
+            item->firing = 0;
             /* list may be changed during execution of a handler */
             next = item->next;
-            if (!ret) {
+            if (!ret || item->deleted) {
                 /* handler is one-shot, so delete it */
                 _handler_item_remove(&conn->handlers, item);
                 _free_handlist_item(conn->ctx, item);
@@ -188,10 +216,12 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
             if (elapsed >= item->u.period) {
                 /* fire! */
                 item->u.last_stamp = timestamp;
+                item->firing = 1;
                 ret = ((xmpp_timed_handler)item->handler)(conn, item->userdata);
+                item->firing = 0;
                 /* list may be changed during execution of a handler */
                 next = item->next;
-                if (!ret) {
+                if (!ret || item->deleted) {
                     /* delete handler if it returned false */
                     _handler_item_remove(&conn->timed_handlers, item);
                     strophe_free(ctx, item);
@@ -218,11 +248,13 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
         if (elapsed >= item->u.period) {
             /* fire! */
             item->u.last_stamp = timestamp;
+            item->firing = 1;
             ret =
                 ((xmpp_global_timed_handler)item->handler)(ctx, item->userdata);
+            item->firing = 0;
             /* list may be changed during execution of a handler */
             next = item->next;
-            if (!ret) {
+            if (!ret || item->deleted) {
                 /* delete handler if it returned false */
                 _handler_item_remove(&ctx->timed_handlers, item);
                 strophe_free(ctx, item);
@@ -266,7 +298,8 @@ static void _timed_handler_add(xmpp_ctx_t *ctx,
 
     /* check if handler is already in the list */
     for (item = *handlers_list; item; item = item->next) {
-        if (item->handler == handler && item->userdata == userdata) {
+        if (item->handler == handler && item->userdata == userdata &&
+            !item->deleted) {
             strophe_warn(ctx, "xmpp", "Timed handler already exists.");
             break;
         }
@@ -283,6 +316,8 @@ static void _timed_handler_add(xmpp_ctx_t *ctx,
     item->handler = handler;
     item->userdata = userdata;
     item->enabled = 0;
+    item->firing = 0;
+    item->deleted = 0;
 
     item->u.period = period;
     item->u.last_stamp = time_stamp();
@@ -300,7 +335,7 @@ static void _timed_handler_delete(xmpp_ctx_t *ctx,
 
     while (*handlers_list) {
         item = *handlers_list;
-        if (item->handler == handler) {
+        if (item->handler == handler && !_handler_item_deferred(item)) {
             *handlers_list = item->next;
             strophe_free(ctx, item);
         } else {
@@ -332,7 +367,8 @@ static void _id_handler_add(xmpp_conn_t *conn,
     /* check if handler is already in the list */
     item = (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
     while (item) {
-        if (item->handler == handler && item->userdata == userdata) {
+        if (item->handler == handler && item->userdata == userdata &&
+            !item->deleted) {
             strophe_warn(conn->ctx, "xmpp", "Id handler already exists.");
             break;
         }
@@ -350,6 +386,8 @@ static void _id_handler_add(xmpp_conn_t *conn,
     item->handler = handler;
     item->userdata = userdata;
     item->enabled = 0;
+    item->firing = 0;
+    item->deleted = 0;
     item->next = NULL;
 
     item->u.id = strophe_strdup(conn->ctx, id);
@@ -391,13 +429,11 @@ void xmpp_id_handler_delete(xmpp_conn_t *conn,
     while (item) {
         next = item->next;
 
-        if (item->handler == handler) {
+        if (item->handler == handler && !_handler_item_deferred(item)) {
             if (prev)
                 prev->next = next;
-            else {
-                hash_drop(conn->id_handlers, id);
-                hash_add(conn->id_handlers, id, next);
-            }
+            else
+                _id_handlers_set(conn, id, next);
 
             strophe_free(conn->ctx, item->u.id);
             strophe_free(conn->ctx, item);
@@ -434,7 +470,8 @@ static void _handler_add(xmpp_conn_t *conn,
     for (item = conn->handlers; item; item = item->next) {
         /* same handler function can process different stanzas and
            distinguish them according to userdata. */
-        if (item->handler == handler && item->userdata == userdata) {
+        if (item->handler == handler && item->userdata == userdata &&
+            !item->deleted) {
             strophe_warn(conn->ctx, "xmpp", "Stanza handler already exists.");
             break;
         }
@@ -492,7 +529,7 @@ void xmpp_handler_delete(xmpp_conn_t *conn, xmpp_handler handler)
     prev = NULL;
     item = conn->handlers;
     while (item) {
-        if (item->handler == handler) {
+        if (item->handler == handler && !_handler_item_deferred(item)) {
             if (prev)
                 prev->next = item->next;
             else
@@ -659,7 +696,7 @@ void handler_system_delete_all(xmpp_conn_t *conn)
 
     item = conn->handlers;
     while (item) {
-        if (!item->user_handler) {
+        if (!item->user_handler && !_handler_item_deferred(item)) {
             next = item->next;
             _handler_item_remove(&conn->handlers, item);
             _free_handlist_item(conn->ctx, item);
@@ -670,7 +707,7 @@ void handler_system_delete_all(xmpp_conn_t *conn)
 
     item = conn->timed_handlers;
     while (item) {
-        if (!item->user_handler) {
+        if (!item->user_handler && !_handler_item_deferred(item)) {
             next = item->next;
             _handler_item_remove(&conn->timed_handlers, item);
             strophe_free(conn->ctx, item);
@@ -685,7 +722,7 @@ void handler_system_delete_all(xmpp_conn_t *conn)
         head = head_old = (xmpp_handlist_t *)hash_get(conn->id_handlers, key);
         item = head;
         while (item) {
-            if (!item->user_handler) {
+            if (!item->user_handler && !_handler_item_deferred(item)) {
                 next = item->next;
                 _handler_item_remove(&head, item);
                 strophe_free(conn->ctx, item->u.id);
@@ -699,11 +736,7 @@ void handler_system_delete_all(xmpp_conn_t *conn)
            freed memory. */
         key2 = hash_iter_next(iter);
         if (head != head_old) {
-            /* hash_add() replaces value if the key exists */
-            if (head != NULL)
-                hash_add(conn->id_handlers, key, head);
-            else
-                hash_drop(conn->id_handlers, key);
+            _id_handlers_set(conn, key, head);
         }
         key = key2;
     }
-- 
2.43.0


From 458ebae7fffa0198af5124402645c952f7e550c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 34/50] fix: do not fire timed handlers after one of them ended
 the connection

---
 src/handler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handler.c b/src/handler.c
index ab284a6..3c7c738 100644
--- a/src/handler.c
+++ b/src/handler.c
@@ -201,7 +201,8 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
             item->enabled = 1;
 
         item = conn->timed_handlers;
-        while (item) {
+        /* a handler can end the connection */
+        while (item && conn->state == XMPP_STATE_CONNECTED) {
             /* don't fire user handlers until stream negotiation has completed
                and skip newly added handlers */
             if ((item->user_handler && !conn->stream_negotiation_completed) ||
-- 
2.43.0


From cd2da9bade5844900901dd8c878e3ebe78d7e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:01 +0000
Subject: [PATCH 35/50] fix: forget the size of pending text when the parser is
 reset

---
 src/parser_expat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index c1d1d38..2c25758 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -352,6 +352,8 @@ int parser_reset(parser_t *parser)
         strophe_free(parser->ctx, parser->inner_text);
         parser->inner_text = NULL;
     }
+    parser->inner_text_size = 0;
+    parser->inner_text_used = 0;
 
     if (!parser->expat)
         return 0;
-- 
2.43.0


From 9ed79409af48d5fa118abd5a95251c82b4055451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:32 +0000
Subject: [PATCH 36/50] fix: end the stream after a parse error

---
 src/event.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/event.c b/src/event.c
index a06bd9a..e8d6b57 100644
--- a/src/event.c
+++ b/src/event.c
@@ -325,6 +325,8 @@ next_item:
                                       buf);
                         xmpp_send_error(conn, XMPP_SE_INVALID_XML,
                                         "parse error");
+                        /* nothing can be received anymore */
+                        xmpp_disconnect(conn);
                     }
                 } else if (conn->state == XMPP_STATE_CONNECTED) {
                     int err = intf->get_error(intf);
-- 
2.43.0


From 36b410a6c8714be23f72434ba3472360e8062de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:17 +0000
Subject: [PATCH 37/50] fix: detach the children of a released stanza

---
 src/stanza.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stanza.c b/src/stanza.c
index 6c6d6df..c727b1d 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -179,6 +179,8 @@ int xmpp_stanza_release(xmpp_stanza_t *stanza)
             tchild = child;
             child = child->next;
             tchild->next = NULL;
+            tchild->prev = NULL;
+            tchild->parent = NULL;
             xmpp_stanza_release(tchild);
         }
 
-- 
2.43.0


From ea56d524648c6915b7c141354a803157e2769edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 38/50] fix: keep the namespace of an element that is rendered
 without its parent

---
 src/stanza.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index c727b1d..6612bd8 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -312,8 +312,10 @@ static void _render_update(
  * return values < 0 indicate some error occurred,
  * and return values > buflen indicate buffer was not large enough
  */
-static int
-_render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
+static int _render_stanza_recursive(xmpp_stanza_t *stanza,
+                                    const xmpp_stanza_t *parent,
+                                    char *buf,
+                                    size_t buflen)
 {
     char *ptr = buf;
     size_t left = buflen;
@@ -355,14 +357,13 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
             while ((key = hash_iter_next(iter))) {
                 if (!strcmp(key, "xmlns")) {
                     /* don't output namespace if parent stanza is the same */
-                    if (stanza->parent && stanza->parent->attributes &&
-                        hash_get(stanza->parent->attributes, key) &&
-                        !strcmp(
-                            (char *)hash_get(stanza->attributes, key),
-                            (char *)hash_get(stanza->parent->attributes, key)))
+                    if (parent && parent->attributes &&
+                        hash_get(parent->attributes, key) &&
+                        !strcmp((char *)hash_get(stanza->attributes, key),
+                                (char *)hash_get(parent->attributes, key)))
                         continue;
                     /* or if this is the stream namespace */
-                    if (!stanza->parent &&
+                    if (!parent &&
                         !strcmp((char *)hash_get(stanza->attributes, key),
                                 XMPP_NS_CLIENT))
                         continue;
@@ -402,7 +403,7 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
             /* iterate and recurse over child stanzas */
             child = stanza->children;
             while (child) {
-                ret = _render_stanza_recursive(child, ptr, left);
+                ret = _render_stanza_recursive(child, stanza, ptr, left);
                 if (ret < 0)
                     return ret;
 
@@ -453,7 +454,7 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
         return XMPP_EMEM;
     }
 
-    ret = _render_stanza_recursive(stanza, buffer, length);
+    ret = _render_stanza_recursive(stanza, NULL, buffer, length);
     if (ret < 0) {
         strophe_free(stanza->ctx, buffer);
         *buf = NULL;
@@ -472,7 +473,7 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
         length = ret + 1;
         buffer = tmp;
 
-        ret = _render_stanza_recursive(stanza, buffer, length);
+        ret = _render_stanza_recursive(stanza, NULL, buffer, length);
         if ((size_t)ret > length - 1) {
             strophe_free(stanza->ctx, buffer);
             *buf = NULL;
-- 
2.43.0


From 700824896b4e0a0961ceda8d7d582f03af27cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 39/50] fix: fill random bytes with NDEBUG, too

---
 src/rand.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rand.c b/src/rand.c
index 4b41fb0..ec2b0eb 100644
--- a/src/rand.c
+++ b/src/rand.c
@@ -343,8 +343,12 @@ void xmpp_rand_free(xmpp_ctx_t *ctx, xmpp_rand_t *rand)
 
 void xmpp_rand_bytes(xmpp_rand_t *rand, unsigned char *output, size_t len)
 {
+    int rc;
+
     assert(rand == &_xmpp_rand);
-    assert(_read_getrandom(output, len) == 0);
+    rc = _read_getrandom(output, len);
+    assert(rc == 0);
+    UNUSED(rc);
 }
 
 #endif
-- 
2.43.0


From 38ca214c534c3970b800fcc1d2fd9c0a39b3918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 40/50] fix: deliver stanzas when their last byte was read

---
 src/parser_expat.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index 2c25758..f80665a 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -360,6 +360,11 @@ int parser_reset(parser_t *parser)
 
     parser->depth = 0;
 
+#if XML_MAJOR_VERSION > 2 || (XML_MAJOR_VERSION == 2 && XML_MINOR_VERSION >= 6)
+    /* a stanza must be delivered when its last byte was read, however the bytes
+       were split */
+    XML_SetReparseDeferralEnabled(parser->expat, XML_FALSE);
+#endif
     XML_SetUserData(parser->expat, parser);
     XML_SetElementHandler(parser->expat, _start_element, _end_element);
     XML_SetCharacterDataHandler(parser->expat, _characters);
-- 
2.43.0


From c9e3232b0cb96a127ec9933fbc6cbc922881392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 41/50] fix: escape white space the parser would normalise

---
 src/stanza.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index 6612bd8..d546962 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -240,7 +240,7 @@ int xmpp_stanza_is_tag(xmpp_stanza_t *stanza)
  * On failure, returns NULL.
  */
 
-static char *_escape_xml(xmpp_ctx_t *ctx, char *text)
+static char *_escape_xml(xmpp_ctx_t *ctx, char *text, int is_attr)
 {
     size_t len = 0;
     char *src;
@@ -258,6 +258,15 @@ static char *_escape_xml(xmpp_ctx_t *ctx, char *text)
         case '"':
             len += 6; /*"&quot;" */
             break;
+        case '\r':
+            len += 5; /* "&#13;" */
+            break;
+        case '\n':
+            len += is_attr ? 5 : 1; /* "&#10;" */
+            break;
+        case '\t':
+            len += is_attr ? 4 : 1; /* "&#9;" */
+            break;
         default:
             len++;
         }
@@ -283,6 +292,19 @@ static char *_escape_xml(xmpp_ctx_t *ctx, char *text)
             strcpy(dst, "&quot;");
             dst += 6;
             break;
+        /* the parser would turn these into spaces or newlines */
+        case '\r':
+            strcpy(dst, "&#13;");
+            dst += 5;
+            break;
+        case '\n':
+        case '\t':
+            if (is_attr) {
+                strcpy(dst, *src == '\n' ? "&#10;" : "&#9;");
+                dst += strlen(dst);
+                break;
+            }
+            /* fall through */
         default:
             *dst = *src;
             dst++;
@@ -334,7 +356,7 @@ static int _render_stanza_recursive(xmpp_stanza_t *stanza,
         if (!stanza->data)
             return XMPP_EINVOP;
 
-        tmp = _escape_xml(stanza->ctx, stanza->data);
+        tmp = _escape_xml(stanza->ctx, stanza->data, 0);
         if (tmp == NULL)
             return XMPP_EMEM;
         ret = strophe_snprintf(ptr, left, "%s", tmp);
@@ -369,7 +391,7 @@ static int _render_stanza_recursive(xmpp_stanza_t *stanza,
                         continue;
                 }
                 tmp = _escape_xml(stanza->ctx,
-                                  (char *)hash_get(stanza->attributes, key));
+                                  (char *)hash_get(stanza->attributes, key), 1);
                 if (tmp == NULL) {
                     hash_iter_release(iter);
                     return XMPP_EMEM;
-- 
2.43.0


From fea7c1b534dc6743b04be30a39ea75beaca2fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 42/50] fix: release stanzas without recursion

---
 src/stanza.c | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index d546962..788a158 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -167,28 +167,39 @@ copy_error:
 int xmpp_stanza_release(xmpp_stanza_t *stanza)
 {
     int released = 0;
-    xmpp_stanza_t *child, *tchild;
+    xmpp_stanza_t *child, *tchild, *next;
 
     /* release stanza */
     if (stanza->ref > 1)
         stanza->ref--;
     else {
-        /* release all children */
-        child = stanza->children;
-        while (child) {
-            tchild = child;
-            child = child->next;
-            tchild->next = NULL;
-            tchild->prev = NULL;
-            tchild->parent = NULL;
-            xmpp_stanza_release(tchild);
-        }
+        /* the depth of a received stanza isn't limited, don't recurse */
+        stanza->next = NULL;
+        while (stanza) {
+            next = stanza->next;
+            /* release all children */
+            child = stanza->children;
+            while (child) {
+                tchild = child;
+                child = child->next;
+                tchild->next = NULL;
+                tchild->prev = NULL;
+                tchild->parent = NULL;
+                if (tchild->ref > 1)
+                    tchild->ref--;
+                else {
+                    tchild->next = next;
+                    next = tchild;
+                }
+            }
 
-        if (stanza->attributes)
-            hash_release(stanza->attributes);
-        if (stanza->data)
-            strophe_free(stanza->ctx, stanza->data);
-        strophe_free(stanza->ctx, stanza);
+            if (stanza->attributes)
+                hash_release(stanza->attributes);
+            if (stanza->data)
+                strophe_free(stanza->ctx, stanza->data);
+            strophe_free(stanza->ctx, stanza);
+            stanza = next;
+        }
         released = 1;
     }
 
-- 
2.43.0


From b22941c479f31b66ff786cfb5108e7476065a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:39 +0000
Subject: [PATCH 43/50] fix: render stanzas without recursion

---
 src/stanza.c | 88 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 66 insertions(+), 22 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index 788a158..dd6d29a 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -340,20 +340,22 @@ static void _render_update(
     }
 }
 
-/* always returns number of bytes written or that would have been
+/* renders a text or the start of an element, i.e. the whole element if it
+ * has no children
+ *
+ * always returns number of bytes written or that would have been
  * written if the buffer was large enough
  * return values < 0 indicate some error occurred,
  * and return values > buflen indicate buffer was not large enough
  */
-static int _render_stanza_recursive(xmpp_stanza_t *stanza,
-                                    const xmpp_stanza_t *parent,
-                                    char *buf,
-                                    size_t buflen)
+static int _render_stanza_start(xmpp_stanza_t *stanza,
+                                const xmpp_stanza_t *parent,
+                                char *buf,
+                                size_t buflen)
 {
     char *ptr = buf;
     size_t left = buflen;
     int ret, written;
-    xmpp_stanza_t *child;
     hash_iterator_t *iter;
     const char *key;
     char *tmp;
@@ -432,29 +434,71 @@ static int _render_stanza_recursive(xmpp_stanza_t *stanza,
             if (ret < 0)
                 return XMPP_EMEM;
             _render_update(&written, buflen, ret, &left, &ptr);
+        }
+    }
 
-            /* iterate and recurse over child stanzas */
-            child = stanza->children;
-            while (child) {
-                ret = _render_stanza_recursive(child, stanza, ptr, left);
-                if (ret < 0)
-                    return ret;
+    return written;
+}
 
-                _render_update(&written, buflen, ret, &left, &ptr);
+/* always returns number of bytes written or that would have been
+ * written if the buffer was large enough
+ * return values < 0 indicate some error occurred,
+ * and return values > buflen indicate buffer was not large enough
+ *
+ * The depth of a received stanza isn't limited, therefore this function
+ * walks the tree without recursion.
+ */
+static int _render_stanza(xmpp_stanza_t *stanza, char *buf, size_t buflen)
+{
+    char *ptr = buf;
+    size_t left = buflen;
+    int ret, written;
+    xmpp_stanza_t *item = stanza;
+    xmpp_stanza_t **parents = NULL, **tmp;
+    size_t depth = 0, size = 0;
 
-                child = child->next;
-            }
+    written = 0;
+    while (item) {
+        ret = _render_stanza_start(item, depth ? parents[depth - 1] : NULL, ptr,
+                                   left);
+        if (ret < 0)
+            goto error;
+        _render_update(&written, buflen, ret, &left, &ptr);
 
-            /* write end tag */
-            ret = strophe_snprintf(ptr, left, "</%s>", stanza->data);
-            if (ret < 0)
-                return XMPP_EMEM;
+        if (item->type == XMPP_STANZA_TAG && item->children) {
+            if (depth == size) {
+                size = size ? 2 * size : 16;
+                tmp = strophe_realloc(stanza->ctx, parents,
+                                      size * sizeof(*parents));
+                if (!tmp) {
+                    ret = XMPP_EMEM;
+                    goto error;
+                }
+                parents = tmp;
+            }
+            parents[depth++] = item;
+            item = item->children;
+            continue;
+        }
 
+        /* write the end tags of all elements that end here */
+        while (depth && !item->next) {
+            item = parents[--depth];
+            ret = strophe_snprintf(ptr, left, "</%s>", item->data);
+            if (ret < 0) {
+                ret = XMPP_EMEM;
+                goto error;
+            }
             _render_update(&written, buflen, ret, &left, &ptr);
         }
+        item = depth ? item->next : NULL;
     }
+    ret = written;
 
-    return written;
+error:
+    if (parents)
+        strophe_free(stanza->ctx, parents);
+    return ret;
 }
 
 /** Render a stanza object to text.
@@ -487,7 +531,7 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
         return XMPP_EMEM;
     }
 
-    ret = _render_stanza_recursive(stanza, NULL, buffer, length);
+    ret = _render_stanza(stanza, buffer, length);
     if (ret < 0) {
         strophe_free(stanza->ctx, buffer);
         *buf = NULL;
@@ -506,7 +550,7 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
         length = ret + 1;
         buffer = tmp;
 
-        ret = _render_stanza_recursive(stanza, NULL, buffer, length);
+        ret = _render_stanza(stanza, buffer, length);
         if ((size_t)ret > length - 1) {
             strophe_free(stanza->ctx, buffer);
             *buf = NULL;
-- 
2.43.0


From d11f0441b40532c11bcefa7e2c3754659188534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 44/50] fix: do not send raw user data during the negotiation

---
 src/conn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 59cc808..e9ebbd6 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1050,6 +1050,10 @@ void xmpp_send_raw_string(xmpp_conn_t *conn, const char *fmt, ...)
  */
 void xmpp_send_raw(xmpp_conn_t *conn, const char *data, size_t len)
 {
+    /* nothing of the user goes out while the stream is negotiated */
+    if (conn->type != XMPP_UNKNOWN && !_is_connected(conn, XMPP_QUEUE_USER))
+        return;
+
     send_raw(conn, data, len, XMPP_QUEUE_USER, NULL);
 }
 
-- 
2.43.0


From 6d349dc3dd457520bb85fcc579c98039fc27cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 45/50] fix: do not retain a stream error as unacknowledged
 stanza

---
 src/conn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index e9ebbd6..aaa9772 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -127,7 +127,8 @@ void xmpp_send_error(xmpp_conn_t *conn, xmpp_error_type_t type, char *text)
 {
     xmpp_stanza_t *error = xmpp_error_new(conn->ctx, type, text);
 
-    send_stanza(conn, error, XMPP_QUEUE_STROPHE);
+    /* this isn't a stanza, stream management doesn't count it */
+    send_stanza(conn, error, XMPP_QUEUE_SM_STROPHE);
 }
 
 /** Create a new Strophe connection object.
-- 
2.43.0


From 56e3c6f9c1ff80e510b42e9078d7057ff9b0a0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 46/50] fix: count only stanzas as handled

---
 src/conn.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index aaa9772..864a535 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2146,13 +2146,16 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
     char h[11];
     unsigned long ul_h;
 
+    name = xmpp_stanza_get_name(stanza);
+    if (!name)
+        return;
     ns = xmpp_stanza_get_ns(stanza);
-    if (!ns || strcmp(ns, XMPP_NS_SM) != 0)
-        ++conn->sm_state->sm_handled_nr;
-    else {
-        name = xmpp_stanza_get_name(stanza);
-        if (!name)
-            return;
+    if (!ns || strcmp(ns, XMPP_NS_SM) != 0) {
+        /* only stanzas count, e.g. a stream error isn't one */
+        if (strcmp(name, "message") == 0 || strcmp(name, "presence") == 0 ||
+            strcmp(name, "iq") == 0)
+            ++conn->sm_state->sm_handled_nr;
+    } else {
         if (strcmp(name, "r") == 0) {
             a = xmpp_stanza_new(conn->ctx);
             if (!a) {
-- 
2.43.0


From aa3dceb1123e2e96743f157301234f3d9cf7c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 47/50] fix: refuse to verify a certificate against an empty
 domain

---
 src/tls_openssl.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tls_openssl.c b/src/tls_openssl.c
index 641ca6c..6234c17 100644
--- a/src/tls_openssl.c
+++ b/src/tls_openssl.c
@@ -726,7 +726,14 @@ tls_t *tls_new(xmpp_conn_t *conn)
          */
         X509_VERIFY_PARAM_set_hostflags(param,
                                         X509_CHECK_FLAG_NO_PARTIAL_WILDCARDS);
-        X509_VERIFY_PARAM_set1_host(param, conn->domain, 0);
+        /* An empty name turns the check off and a leading dot matches any
+         * subdomain, so neither can be verified. */
+        if ((X509_VERIFY_PARAM_set1_host(param, conn->domain, 0) <= 0 ||
+             conn->domain[0] == '\0' || conn->domain[0] == '.') &&
+            !conn->tls_trust) {
+            strophe_error(tls->ctx, "tls", "No domain to verify");
+            goto err_free_ssl;
+        }
 #endif
 
         ret = SSL_set_fd(tls->ssl, conn->sock);
-- 
2.43.0


From 858afe772be8577f21ba1852c581e9d771b8bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:19 +0000
Subject: [PATCH 48/50] fix: give up a stalled TLS handshake

---
 src/tls_openssl.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/tls_openssl.c b/src/tls_openssl.c
index 6234c17..be63def 100644
--- a/src/tls_openssl.c
+++ b/src/tls_openssl.c
@@ -119,9 +119,11 @@ enum {
     TLS_SHUTDOWN_MAX_RETRIES = 10,
     TLS_TIMEOUT_SEC = 0,
     TLS_TIMEOUT_USEC = 100000,
+    /* number of consecutive waits after which a handshake is given up */
+    TLS_HANDSHAKE_MAX_IDLE = 150,
 };
 
-static void _tls_sock_wait(tls_t *tls, int error);
+static int _tls_sock_wait(tls_t *tls, int error);
 static const char *_tls_error_str(int error, const char **tbl, size_t tbl_size);
 static void _tls_set_error(tls_t *tls, int error);
 static void _tls_log_error(xmpp_ctx_t *ctx);
@@ -867,6 +869,7 @@ const void *tls_get_channel_binding_data(tls_t *tls, size_t *size)
 
 int tls_start(tls_t *tls)
 {
+    int idle = 0;
     int error;
     int ret;
     long x509_res;
@@ -878,8 +881,12 @@ int tls_start(tls_t *tls)
         error = ret <= 0 ? SSL_get_error(tls->ssl, ret) : 0;
 
         if (ret == -1 && tls_is_recoverable(NULL, error)) {
-            /* wait for something to happen on the sock before looping back */
-            _tls_sock_wait(tls, error);
+            /* wait for something to happen on the sock before looping back,
+               but not forever */
+            if (_tls_sock_wait(tls, error) > 0)
+                idle = 0;
+            else if (++idle >= TLS_HANDSHAKE_MAX_IDLE)
+                break;
             continue;
         }
 
@@ -978,7 +985,7 @@ int tls_clear_pending_write(struct conn_interface *intf)
     return 0;
 }
 
-static void _tls_sock_wait(tls_t *tls, int error)
+static int _tls_sock_wait(tls_t *tls, int error)
 {
     struct timeval tv;
     fd_set rfds;
@@ -987,7 +994,7 @@ static void _tls_sock_wait(tls_t *tls, int error)
     int ret;
 
     if (error == SSL_ERROR_NONE)
-        return;
+        return 0;
 
     FD_ZERO(&rfds);
     FD_ZERO(&wfds);
@@ -1003,6 +1010,8 @@ static void _tls_sock_wait(tls_t *tls, int error)
         tv.tv_usec = TLS_TIMEOUT_USEC;
         ret = select(nfds, &rfds, &wfds, NULL, &tv);
     } while (ret == -1 && errno == EINTR);
+
+    return ret;
 }
 
 static const char *_tls_error_str(int error, const char **tbl, size_t tbl_size)
-- 
2.43.0


From 28cda91e6a676dce8ea5ed062d4d773aa6d089ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:30 +0000
Subject: [PATCH 49/50] fix: do not put off the graceful close when a stream
 opens

---
 src/auth.c | 6 +++---
 src/conn.c | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 28f3cf4..8b9d59e 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -984,7 +984,7 @@ static void _stream_negotiation_success(xmpp_conn_t *conn)
 void auth_handle_open(xmpp_conn_t *conn)
 {
     /* reset all timed handlers */
-    handler_reset_timed(conn, 0);
+    handler_reset_timed(conn, 1);
 
     /* setup handler for stream:error, we will keep this handler
      * for reopened streams until connection is disconnected */
@@ -1702,7 +1702,7 @@ void auth_handle_component_open(xmpp_conn_t *conn)
     int rc;
 
     /* reset all timed handlers */
-    handler_reset_timed(conn, 0);
+    handler_reset_timed(conn, 1);
 
     handler_add(conn, _handle_error, XMPP_NS_STREAMS, "error", NULL, NULL);
     handler_add(conn, _handle_component_hs_response, NULL, "handshake", NULL,
@@ -1811,7 +1811,7 @@ int _handle_missing_handshake(xmpp_conn_t *conn, void *userdata)
 
 void auth_handle_open_raw(xmpp_conn_t *conn)
 {
-    handler_reset_timed(conn, 0);
+    handler_reset_timed(conn, 1);
     /* user handlers are not called before stream negotiation has completed. */
     _stream_negotiation_success(conn);
 }
diff --git a/src/conn.c b/src/conn.c
index 864a535..b50755a 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -859,7 +859,7 @@ void conn_established(xmpp_conn_t *conn)
     }
 
     if (conn->is_raw) {
-        handler_reset_timed(conn, 0);
+        handler_reset_timed(conn, 1);
         /* we skip all the mandatory steps of the stream negotiation for a "raw"
            connection, but the event loop ignores user's handlers when
            conn->stream_negotiation_completed is not set. */
-- 
2.43.0


From b8c2dc3b5a1652b5687eb42c3c8ac566943f7e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:27 +0000
Subject: [PATCH 50/50] fix: do not take the event of a closed socket for one
 of its successor

---
 src/event.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/event.c b/src/event.c
index e8d6b57..ad18377 100644
--- a/src/event.c
+++ b/src/event.c
@@ -293,6 +293,11 @@ next_item:
 
                 /* check for error */
                 ret = sock_connect_error(conn->sock);
+                if (sock_is_recoverable(NULL, ret)) {
+                    /* it's still in progress, the event was for another
+                     * socket with the same number that is closed now */
+                    break;
+                }
                 if (ret != 0) {
                     /* connection failed */
                     strophe_debug(ctx, "xmpp", "connection failed, error %d",
-- 
2.43.0

