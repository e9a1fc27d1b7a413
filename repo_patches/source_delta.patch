From 429977cc01cf4671619f5ef7082c46e6a8f8ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:07 +0000
Subject: [PATCH 01/36] fix: sign the whole tp-dkg message, not only its header

send_msg() and recv_msg() signed and verified only the fixed size message
header. The body of a message (keys, commitments, complaints, acks) could
be changed in transit without being noticed.
---
 src/tp-dkg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 23b8a80..bafd374 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -118,7 +118,7 @@ static int send_msg(uint8_t* msg_buf, const size_t msg_buf_len, const uint8_t ms
   msg->ts = htonll((uint64_t)time(NULL));
   memcpy(msg->sessionid, sessionid, tpdkg_sessionid_SIZE);
 
-  crypto_sign_detached(msg->sig, NULL, &msg->msgno, sizeof(TP_DKG_Message) - crypto_sign_BYTES, sig_sk);
+  crypto_sign_detached(msg->sig, NULL, &msg->msgno, msg_buf_len - crypto_sign_BYTES, sig_sk);
   return 0;
 }
 
@@ -148,7 +148,7 @@ static int recv_msg(const uint8_t *msg_buf, const size_t msg_buf_len, const uint
   memcpy(with_sessionid + unsigned_buf_len, sessionid, tpdkg_sessionid_SIZE);
 
 #if !defined(FUZZING_BUILD_MODE_UNSAFE_FOR_PRODUCTION)
-  if(0!=crypto_sign_verify_detached(msg->sig, &msg->msgno, sizeof(TP_DKG_Message) - crypto_sign_BYTES, sig_pk)) return 6;
+  if(0!=crypto_sign_verify_detached(msg->sig, &msg->msgno, msg_buf_len - crypto_sign_BYTES, sig_pk)) return 6;
 #endif
 
   return 0;
-- 
2.43.0


From aa8900c890663a4626bb0b0c142daaa5f543683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:07 +0000
Subject: [PATCH 02/36] fix: do not log a bad handshake message without a log
 file

tp_step68_handler() crashed on the first invalid message if no log_file
was set.
---
 src/tp-dkg.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index bafd374..cc9e7ca 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -884,9 +884,11 @@ static int tp_step68_handler(TP_DKG_TPState *ctx, const uint8_t *msg4s, const si
       int ret = recv_msg((*inputs)[j][i], tpdkg_msg4_SIZE, (uint8_t) (2+ctx->step), j+1, i+1, (*ctx->peer_sig_pks)[j], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[j]);
       if(0!=ret) {
         if(add_cheater(ctx, 6 + (ctx->step - 1) * 2, 64+ret, j+1, i+1) == NULL) return 7;
-        TP_DKG_Message *msg = (TP_DKG_Message*) (*inputs)[j][i];
-        fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
-        dump((*inputs)[j][i], tpdkg_msg4_SIZE, "msg");
+        if(log_file!=NULL) {
+          TP_DKG_Message *msg = (TP_DKG_Message*) (*inputs)[j][i];
+          fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
+          dump((*inputs)[j][i], tpdkg_msg4_SIZE, "msg");
+        }
         continue;
       }
       memcpy(wptr, (*inputs)[j][i], tpdkg_msg4_SIZE);
-- 
2.43.0


From 8cb00ae2c66b25412024ec6e74a180c27f2147ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:07 +0000
Subject: [PATCH 03/36] fix: check the number of complaints against the message
 size

The length field was used without converting it to host byte order, so the
bounds check on the number of complaints was void: a peer could make the
TP and all other peers read past the message and write past the complaints
buffers. A peer sending too many complaints is now also recorded as a
cheater.
---
 src/tp-dkg.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index cc9e7ca..e96708d 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1198,10 +1198,14 @@ static int tp_step16_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
       if(add_cheater(ctx, 16, 64+ret, i+1, 0xff) == NULL) return 6;
       continue;
     }
-    if(msg->len - sizeof(TP_DKG_Message) < msg->data[0]) return 4;
+    if(ntohl(msg->len) - sizeof(TP_DKG_Message) <= msg->data[0]) {
+      // more complaints than there are peers
+      if(add_cheater(ctx, 16, 9, i+1, 0xff) == NULL) return 6;
+      continue;
+    }
 
     // keep a copy all complaint pairs (complainer, complained)
-    for(int k=0;k<msg->data[0] && (k+1)<msg->len-sizeof(TP_DKG_Message);k++) {
+    for(int k=0;k<msg->data[0] && (k+1)<ntohl(msg->len)-sizeof(TP_DKG_Message);k++) {
       if(msg->data[k+1] > ctx->n || msg->data[k+1] < 1) {
         if(add_cheater(ctx, 16, 7, i+1, msg->data[k+1]) == NULL) return 6;
         continue;
@@ -1272,10 +1276,10 @@ static int peer_step17_handler(TP_DKG_PeerState *ctx, const uint8_t *input, cons
     }
     ret = recv_msg(ptr, tpdkg_msg9_SIZE(ctx), 9, i+1, 0xff, (*ctx->peer_sig_pks)[i], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
     if(0!=ret) return 32+ret;
-    if(msg9->len - sizeof(TP_DKG_Message) < msg9->data[0]) return 5;
+    if(ntohl(msg9->len) - sizeof(TP_DKG_Message) <= msg9->data[0]) return 5;
 
     // keep a copy all complaint pairs (complainer, complained)
-    for(int k=0;k<msg9->data[0] && (k+1)<msg9->len-sizeof(TP_DKG_Message);k++) {
+    for(int k=0;k<msg9->data[0] && (k+1)<ntohl(msg9->len)-sizeof(TP_DKG_Message);k++) {
       uint16_t pair=(uint16_t) (((i+1)<<8) | msg9->data[k+1]);
       int j=0;
       for(j=0;j<ctx->complaints_len;j++) if(ctx->complaints[j]==pair) break;
@@ -1698,6 +1702,9 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     } else if(c->error == 8) {
       snprintf(out, outlen, "peer %d sent a duplicate complaint about peer %d.", c->peer, c->other_peer);
       return c->peer;
+    } else if(c->error == 9) {
+      snprintf(out, outlen, "peer %d sent more complaints than there are peers.", c->peer);
+      return c->peer;
     }
     snprintf(out,outlen, "invalid error code for step 16: %d", c->error);
     return 0;
-- 
2.43.0


From 0fe3fde2914f40543102fbd3e26b5d04be9735f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:07 +0000
Subject: [PATCH 04/36] fix: end the tp session if handling the complaints
 fails

After an error in step 16 tpdkg_tp_not_done() still reported a running
session and the TP could be driven on to approve the protocol run.
---
 src/tp-dkg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index e96708d..a6929cf 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1629,6 +1629,7 @@ int tpdkg_tp_next(TP_DKG_TPState *ctx, const uint8_t *input, const size_t input_
       ctx->step++;
     }
     ctx->step++;
+    if(ret!=0) ctx->step=99; // so that not_done reports done
     return ret;
   }
   case 7: {ret = tp_step18_handler(ctx, input, input_len, output, output_len); break;}
-- 
2.43.0


From e3ce02207778a4f7700ef99d49e0cf0cdc3a424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:07 +0000
Subject: [PATCH 05/36] fix: blame the accused peer if it does not reveal a
 contested key

The complainer and the accused were swapped, so the honest complainer was
reported as the cheater.
---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index a6929cf..a34960b 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1479,7 +1479,7 @@ static int tp_step18_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
 
   for(int i=0;i<ctx->complaints_len;i++) {
     if(complaints[i] != 0xffff) {
-      if(add_cheater(ctx, 18, 7, (uint8_t) (complaints[i] >> 8), (uint8_t) (complaints[i] & 0xff)) == NULL) return 4;
+      if(add_cheater(ctx, 18, 7, (uint8_t) (complaints[i] & 0xff), (uint8_t) (complaints[i] >> 8)) == NULL) return 4;
     }
   }
 
-- 
2.43.0


From 8c71c0f20d06234cbe5224efe0f0accb94439d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:07 +0000
Subject: [PATCH 06/36] fix: name the cheater for every recorded error

tpdkg_cheater_msg() did not know the recv_msg() errors 1 (invalid length)
and 7 (invalid session id) nor any recv_msg() error in step 20, and named
no peer for them. Some step 18 texts did not belong to the error recorded
by tp_step18_handler().
---
 src/tp-dkg.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index a34960b..a72c4c5 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1688,7 +1688,7 @@ char* tpdkg_recv_err(const int code) {
 }
 
 uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outlen) {
-  if(c->error>65 && c->error<=70) {
+  if(c->error>64 && c->error<=71) {
       snprintf(out, outlen, "step %d message from peer %d for peer %d could not be validated: %s",
                c->step, c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x3f));
       return c->peer;
@@ -1710,26 +1710,26 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     snprintf(out,outlen, "invalid error code for step 16: %d", c->error);
     return 0;
   } else if(c->step==18) {
-    if(c->error & 16) {
+    if(c->error != 127 && c->error & 16) {
       snprintf(out, outlen, "message containing encrypted share from peer %d for peer %d could not be validated: %s",
                c->peer, c->other_peer, tpdkg_recv_err(c->error & 0xf));
       return c->peer;
-    } else if (c->error & 32) {
+    } else if (c->error != 127 && c->error & 32) {
       snprintf(out, outlen, "message revealing key encrypting share from peer %d for peer %d could not be validated: %s",
                c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x1f));
       return c->peer;
     }
     switch(c->error) {
     case 3: {
-      snprintf(out,outlen, "accused peer %d revealed a key (for peer %d) that was not complained about", c->peer, c->other_peer);
+      snprintf(out,outlen, "verification of hmac of message from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
       return c->peer;
     }
     case 4: {
-      snprintf(out,outlen, "verification of hmac of message from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
+      snprintf(out,outlen, "decryption of share from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
       return c->peer;
     }
     case 5: {
-      snprintf(out,outlen, "accused peer %d sent an invalid share with index %d to complaining peer %d", c->peer, c->other_peer, c->invalid_index);
+      snprintf(out,outlen, "accused peer %d sent an invalid share with index %d to complaining peer %d", c->peer, c->invalid_index, c->other_peer);
       return c->peer;
     }
     case 6: {
@@ -1761,6 +1761,9 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     if(c->error == 1) {
       snprintf(out,outlen, "transcript mismatch peer %d", c->peer);
       return c->peer;
+    } else if(c->error > 1 && c->error <= 8) {
+      snprintf(out,outlen, "transcript message from peer %d could not be validated: %s", c->peer, tpdkg_recv_err(c->error - 1));
+      return c->peer;
     }
     snprintf(out,outlen, "invalid error code for step 20: %d", c->error);
     return 0;
-- 
2.43.0


From eb9608984496f25264f5a4e9965593728a66c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:07 +0000
Subject: [PATCH 07/36] fix: keep verifying the other dealers after an invalid
 commitment

dkg_verify_commitments() stopped at the first commitment that is not a
valid group element without recording the dealer as failed. The caller in
tp-dkg ignores the return value, hence neither this nor any of the later
dealers was complained about.
---
 src/dkg.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dkg.c b/src/dkg.c
index 4db1ef5..ec9393c 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -150,7 +150,6 @@ int dkg_verify_commitments(const uint8_t n,
   for(uint8_t i=1;i<=n;i++) {
     if(i==self) continue;
     int ret = dkg_verify_commitment(n, threshold, self, i, commitments[i-1], shares[i-1]);
-    if(-1 == ret) return ret;
     if(0 == ret) continue;
     fails[(*fails_len)++] = (uint8_t) i;
   }
-- 
2.43.0


From 2dd5746cca7603d785c11c85fea43fe4331ad71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:07 +0000
Subject: [PATCH 08/36] fix: refuse shares that have the highest bit set

The bit is ignored by the scalar multiplication in dkg_verify_commitment()
but not by the addition in dkg_finish(), thus a dealer could hand out
shares that verify and still give inconsistent results.
---
 src/dkg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dkg.c b/src/dkg.c
index ec9393c..037be52 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -102,6 +102,9 @@ int dkg_verify_commitment(const uint8_t n,
   //dump(j,sizeof(j), "\nj        ");
 
   if(i==self) return 0;
+  // the scalar multiplication below ignores the highest bit, but
+  // dkg_finish() does not.
+  if(share.value[crypto_core_ristretto255_SCALARBYTES-1] & 0x80) return 1;
   uint8_t v0[crypto_core_ristretto255_BYTES];
 
   // v0 = g*(s_ij)
-- 
2.43.0


From 0a08b4a6173b576233938590fbb1104551e110be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:32 +0000
Subject: [PATCH 09/36] fix: stop a peer when a noise handshake fails

The peer ignored errors of the handshake helpers: it sent out memory that
was never written, went on using sessions that were already freed, and
tpdkg_peer_free() freed them again. tpdkg_peer_free() also used whatever
the session buffers contained if the peer failed before the handshakes.
---
 src/tp-dkg.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index a72c4c5..262cc2d 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -175,11 +175,13 @@ static int tpdkg_init_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_encap_message_p_free(encap_msg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 3;
   }
 
   if(cipher_msg_len!=noise_xk_handshake1_SIZE) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     free(cipher_msg);
     return 4;
   }
@@ -206,6 +208,7 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_rcode ret = Noise_XK_session_read(&encap_msg, *session, noise_xk_handshake1_SIZE, inmsg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 2;
   }
 
@@ -213,6 +216,7 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 3;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -224,11 +228,13 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_encap_message_p_free(encap_msg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 4;
   }
 
   if(cipher_msg_len!=noise_xk_handshake2_SIZE) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     free(cipher_msg);
     return 4;
   }
@@ -251,12 +257,14 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
     Noise_XK_peer_t *peer = Noise_XK_device_lookup_peer_by_id(ctx->dev, peer_id);
     if(peer==NULL) {
       Noise_XK_session_free(*session);
+      *session = NULL;
       return 2;
     }
     uint8_t *pinfo;
     Noise_XK_peer_get_info((Noise_XK_noise_string*) &pinfo, peer);
     if(pinfo==NULL) {
       Noise_XK_session_free(*session);
+      *session = NULL;
       return 3;
     }
     fprintf(log_file, "[%d] finishing noise session -> %s\n", ctx->index, pinfo);
@@ -268,6 +276,7 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
   if(!Noise_XK_rcode_is_success(ret)) {
     if(log_file!=NULL) fprintf(log_file, "session read fail: %d\n", ret.val.case_Error);
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 4;
   }
 
@@ -275,6 +284,7 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 5;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -582,7 +592,11 @@ void tpdkg_peer_set_bufs(TP_DKG_PeerState *ctx,
   ctx->complaints = complaints;
   ctx->my_complaints = my_complaints;
   ctx->last_ts = last_ts;
-  for(uint8_t i=0;i<ctx->n;i++) ctx->last_ts[i]=0;
+  for(uint8_t i=0;i<ctx->n;i++) {
+    ctx->last_ts[i]=0;
+    (*ctx->noise_outs)[i]=NULL;
+    (*ctx->noise_ins)[i]=NULL;
+  }
 }
 
 int tpdkg_tp_not_done(const TP_DKG_TPState *tp) {
@@ -836,6 +850,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
   uint8_t dummy[32]={0}; // the following function needs a deserialization key, which we never use.
 
   ctx->dev = Noise_XK_device_create(13, (uint8_t*) "dpkg p2p v0.1", iname, dummy, ctx->noise_sk);
+  if(ctx->dev==NULL) return 3;
 
   TP_DKG_Message* msg3 = (TP_DKG_Message*) input;
   const uint8_t *ptr = msg3->data;
@@ -856,7 +871,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
     TP_DKG_Message *msg4 = (TP_DKG_Message *) wptr;
     uint8_t rname[13];
     snprintf((char*) rname, sizeof rname, "dkg peer %02x", i+1);
-    tpdkg_init_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_outs)[i], msg4->data);
+    if(0!=tpdkg_init_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_outs)[i], msg4->data)) return 4;
     if(0!=send_msg(wptr, tpdkg_msg4_SIZE, 4, ctx->index, i+1, ctx->sig_sk, ctx->sessionid)) return 5;
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] msgno: %d, from: %d to: %d ", ctx->index, msg4->msgno, msg4->from, msg4->to);
@@ -921,7 +936,7 @@ static int peer_step7_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
     TP_DKG_Message *msg5 = (TP_DKG_Message *) wptr;
     uint8_t rname[13];
     snprintf((char*) rname, sizeof rname, "dkg peer %02x", i+1);
-    tpdkg_respond_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_ins)[i], msg4->data, msg5->data);
+    if(0!=tpdkg_respond_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_ins)[i], msg4->data, msg5->data)) return 5;
     if(0!=send_msg(wptr, tpdkg_msg5_SIZE, 5, ctx->index, i+1, ctx->sig_sk, ctx->sessionid)) return 4;
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] msgno: %d, from: %d to: %d ", ctx->index, msg5->msgno, msg5->from, msg5->to);
@@ -949,7 +964,7 @@ static int peer_step911_handler(TP_DKG_PeerState *ctx, const uint8_t *input, con
     if(0!=ret) return 64+ret;
     ptr+=tpdkg_msg5_SIZE;
     // process final step of noise handshake
-    tpdkg_finish_noise_handshake(ctx, &(*ctx->noise_outs)[i], msg5->data);
+    if(0!=tpdkg_finish_noise_handshake(ctx, &(*ctx->noise_outs)[i], msg5->data)) return 5;
   }
 
   TP_DKG_Message* msg6 = (TP_DKG_Message*) output;
-- 
2.43.0


From 3f212d76dc217faa69056501c6b23b90c4cc79c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:32 +0000
Subject: [PATCH 10/36] fix: fail the tp session if a peer does not acknowledge

A final message other than OK was only logged, the TP reported success
although the specification demands that all acks are OK.
---
 src/tp-dkg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 262cc2d..2dd5caa 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1620,6 +1620,7 @@ static int tp_step22_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
       if(log_file!=NULL) {
         fprintf(log_file,"\e[0;31m[!] failed to get ack from %d!\e[0m\n", i);
       }
+      if(add_cheater(ctx, 22, 1, i+1, 0) == NULL) return 6;
     }
   }
   if(ctx->cheater_len>0) return 5;
@@ -1783,6 +1784,10 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     snprintf(out,outlen, "invalid error code for step 20: %d", c->error);
     return 0;
   }
+  if(c->step==22 && c->error==1) {
+    snprintf(out,outlen, "peer %d did not acknowledge the end of the protocol", c->peer);
+    return c->peer;
+  }
   snprintf(out,outlen, "invalid step %d", c->step);
   return 0;
 }
-- 
2.43.0


From 9b87d2f1a36a38c26c2341c97eedffdd4a6b682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:32 +0000
Subject: [PATCH 11/36] fix: end the protocol for all peers after a complaint

Peers which were not accused themselves went on to send their transcript
and would accept a final approval.
---
 src/tp-dkg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 2dd5caa..9640cdd 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1326,6 +1326,8 @@ static int peer_step17a_handler(TP_DKG_PeerState *ctx, const uint8_t *input, con
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] nothing to defend against, no message to send\n", ctx->index);
     }
+    // there are complaints against others, the protocol ends here
+    ctx->step=99;
     return 0;
   }
 
-- 
2.43.0


From 2779ac70bfa35a6bf2ec889ec6d3ac1b5d4c4303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:38 +0000
Subject: [PATCH 12/36] fix: do not leave uninitialised memory in the share of
 a peer

If the protocol ends because of a complaint the peer reports no error and
is done, but its share was never set and contained whatever was in memory.
Clear it at the start, so that an index of 0 shows there is no share.
---
 src/tp-dkg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 9640cdd..46492df 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -734,6 +734,8 @@ int tpdkg_start_peer(TP_DKG_PeerState *ctx, const uint64_t ts_epsilon,
 
   ctx->dev = NULL;
   ctx->step = 0;
+  // there is no share until the TP approves the protocol run
+  memset(&ctx->share, 0, sizeof ctx->share);
 
   return 0;
 }
-- 
2.43.0


From 511bc8a77430aae676c71095e40db2324331e6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:53 +0000
Subject: [PATCH 13/36] fix: sharing among 255 parties wrote before the start
 of the share array

The loop counter had the same width as the number of parties, so
`i<=n` never became false for n==255.
---
 src/dkg.c   | 8 ++++----
 src/toprf.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dkg.c b/src/dkg.c
index 037be52..7420b72 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -82,9 +82,9 @@ int dkg_start(const uint8_t n,
   }
 
   // calculate shares s_ij
-  for(uint8_t j=1;j<=n;j++) {
+  for(unsigned j=1;j<=n;j++) {
     //f(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + ⋯ + a_(t)*x^(t)
-    polynom(j, threshold, a, &shares[j-1]);
+    polynom((uint8_t) j, threshold, a, &shares[j-1]);
   }
 
   sodium_munlock(a,sizeof a);
@@ -150,9 +150,9 @@ int dkg_verify_commitments(const uint8_t n,
                            uint8_t fails[n],
                            uint8_t *fails_len) {
   *fails_len = 0;
-  for(uint8_t i=1;i<=n;i++) {
+  for(unsigned i=1;i<=n;i++) {
     if(i==self) continue;
-    int ret = dkg_verify_commitment(n, threshold, self, i, commitments[i-1], shares[i-1]);
+    int ret = dkg_verify_commitment(n, threshold, self, (uint8_t) i, commitments[i-1], shares[i-1]);
     if(0 == ret) continue;
     fails[(*fails_len)++] = (uint8_t) i;
   }
diff --git a/src/toprf.c b/src/toprf.c
index 88b74c9..ca20ad1 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -85,15 +85,15 @@ void toprf_create_shares(const uint8_t secret[crypto_core_ristretto255_SCALARBYT
   TOPRF_Share *shares= (TOPRF_Share*)_shares;
 
   uint8_t a[threshold-1][crypto_core_ristretto255_SCALARBYTES];
-  uint8_t i;
-  for(i=0;i<threshold-1;i++) {
+  unsigned i; // wider than n, so that the loop below also ends for n==255
+  for(i=0;i+1<threshold;i++) {
     crypto_core_ristretto255_scalar_random(a[i]);
   }
   for(i=1;i<=n;i++) {
     //f(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + ⋯ + a_(k−1)*x^(k−1)
-    shares[i-1].index=i;
+    shares[i-1].index=(uint8_t) i;
     uint8_t x[crypto_core_ristretto255_SCALARBYTES]={0};
-    x[0]=i;
+    x[0]=(uint8_t) i;
     memcpy(shares[i-1].value, secret, crypto_core_ristretto255_SCALARBYTES);
     for(int j=0;j<threshold-1;j++) {
       // a_j^j
-- 
2.43.0


From 902590562769d4cec4e72c9392b22a03ae2f16ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:53 +0000
Subject: [PATCH 14/36] fix: toprf_thresholdcombine silently skipped invalid
 responses

An invalid or neutral element among the responses was left out of the
sum and the function still reported success with a wrong result.
---
 src/toprf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toprf.c b/src/toprf.c
index ca20ad1..e92298f 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -186,7 +186,10 @@ int toprf_thresholdcombine(const size_t response_len,
   sort_parts((uint8_t) response_len, (TOPRF_Part*) responses, indexed_indexes);
 
   for(size_t i=0;i<response_len;i++) {
-    crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value);
+    const uint8_t *value = responses[indexed_indexes[i]].value;
+    // a share multiplied with a point is never the neutral element
+    if(sodium_is_zero(value, crypto_core_ristretto255_BYTES)) return 1;
+    if(crypto_core_ristretto255_add(result,result,value)) return 1;
   }
   return 0;
 }
-- 
2.43.0


From 77d2d99a78cc325458369dc0f755d4f11db12fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:53 +0000
Subject: [PATCH 15/36] fix: oprf_Blind left memory locked if hashing to the
 group failed

---
 src/oprf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oprf.c b/src/oprf.c
index 87fee33..cdb3e2b 100644
--- a/src/oprf.c
+++ b/src/oprf.c
@@ -297,7 +297,10 @@ int oprf_Blind(const uint8_t *x, const uint8_t x_len,
     return -1;
   }
   // sets α := (H^0(pw))^r
-  if(0!=voprf_hash_to_group(x, x_len, H0)) return -1;
+  if(0!=voprf_hash_to_group(x, x_len, H0)) {
+    sodium_munlock(H0,sizeof H0);
+    return -1;
+  }
 #if (defined TRACE || defined CFRG_TEST_VEC)
   dump(H0,sizeof H0, "H0");
 #endif
-- 
2.43.0


From 5a0c4371ac199171750876b00c317b6c09b452ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:53 +0000
Subject: [PATCH 16/36] fix: refuse group elements with the highest bit set

These are not valid encodings, but libsodium up to 1.0.18 accepts them.
---
 src/oprf.c  | 4 ++++
 src/toprf.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/oprf.c b/src/oprf.c
index cdb3e2b..5ad6a54 100644
--- a/src/oprf.c
+++ b/src/oprf.c
@@ -348,6 +348,8 @@ int oprf_Blind(const uint8_t *x, const uint8_t x_len,
 int oprf_Evaluate(const uint8_t k[crypto_core_ristretto255_SCALARBYTES],
                   const uint8_t blinded[crypto_core_ristretto255_BYTES],
                   uint8_t Z[crypto_core_ristretto255_BYTES]) {
+  // libsodium before 1.0.19 ignores the highest bit, which must be 0
+  if(blinded[crypto_core_ristretto255_BYTES-1] & 0x80) return -1;
   return crypto_scalarmult_ristretto255(Z, k, blinded);
 }
 
@@ -373,6 +375,8 @@ int oprf_Unblind(const uint8_t r[crypto_core_ristretto255_SCALARBYTES],
 
   // (a) Checks that β ∈ G ∗ . If not, outputs (abort, sid , ssid ) and halts;
   if(crypto_core_ristretto255_is_valid_point(Z) != 1) return -1;
+  // libsodium before 1.0.19 ignores the highest bit, which must be 0
+  if(Z[crypto_core_ristretto255_BYTES-1] & 0x80) return -1;
 
   // (b) Computes rw := H(pw, β^1/r );
   // invert r = 1/r
diff --git a/src/toprf.c b/src/toprf.c
index e92298f..a7be08f 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -148,6 +148,8 @@ int toprf_thresholdmult(const size_t response_len,
   for(size_t i=0;i<response_len;i++) {
     coeff(responses[indexed_indexes[i]].index, response_len, indexes, lpoly);
 
+    // libsodium before 1.0.19 ignores the highest bit, which must be 0
+    if(responses[indexed_indexes[i]].value[crypto_core_ristretto255_BYTES-1] & 0x80) return 1;
     // betaki = g^{k_i}^{lpoly}
     if(crypto_scalarmult_ristretto255(gki, lpoly, responses[indexed_indexes[i]].value)) {
       return 1;
@@ -189,6 +191,8 @@ int toprf_thresholdcombine(const size_t response_len,
     const uint8_t *value = responses[indexed_indexes[i]].value;
     // a share multiplied with a point is never the neutral element
     if(sodium_is_zero(value, crypto_core_ristretto255_BYTES)) return 1;
+    // libsodium before 1.0.19 ignores the highest bit, which must be 0
+    if(value[crypto_core_ristretto255_BYTES-1] & 0x80) return 1;
     if(crypto_core_ristretto255_add(result,result,value)) return 1;
   }
   return 0;
-- 
2.43.0


From 3acc1d7eb6194d3757aaeb2a811cc0f583b41249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:03 +0000
Subject: [PATCH 17/36] fix: connect to and gather from plain TCP peers

Peers of type TCP are accepted as supported, but connecting to one
failed since only the SSL branch ever set the peers socket, and gathering
asked every socket for the data pending in its TLS layer.
---
 python/pyoprf/multiplexer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index e163af3..0646191 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -39,6 +39,8 @@ class Peer:
         s.settimeout(self.timeout)
         if self.type == "SSL":
             self.fd = ctx.wrap_socket(s, server_hostname=self.address[0])
+        else:
+            self.fd = s
         self.fd.connect(self.address)
         self.state="connected"
 
@@ -111,7 +113,7 @@ class Multiplexer:
            n=len(self.peers)
        responses={}
        for idx, peer in enumerate(self.peers):
-           pending = peer.fd.pending()
+           pending = peer.fd.pending() if peer.type == "SSL" else 0
            if pending == expectedmsglen:
                pkt = peer.read(expectedmsglen)
                if debug: print(f"{idx} got pending {len(pkt)}")
-- 
2.43.0


From e173bbb5e6229f2b0a588e68ed2f821ea55c575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:29 +0000
Subject: [PATCH 18/36] fix: collect buffered replies when more than one is
 pending

If the TLS layer already holds several replies of a peer, gather waited
for the socket to become readable, which may never happen.
---
 python/pyoprf/multiplexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index 0646191..945946f 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -114,7 +114,7 @@ class Multiplexer:
        responses={}
        for idx, peer in enumerate(self.peers):
            pending = peer.fd.pending() if peer.type == "SSL" else 0
-           if pending == expectedmsglen:
+           if pending >= expectedmsglen:
                pkt = peer.read(expectedmsglen)
                if debug: print(f"{idx} got pending {len(pkt)}")
                if pkt == b'\x00\x04fail':
-- 
2.43.0


From 6d409482d559120c69b04bd92f4cff9723c7537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:29 +0000
Subject: [PATCH 19/36] fix: report peers that disconnect within a reply as
 failed

A reply cut off by the end of the connection was handed out like a
complete one.
---
 python/pyoprf/multiplexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index 945946f..ca2e6c4 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -139,7 +139,7 @@ class Multiplexer:
                 continue
              #print(f"gathering {idx}")
              pkt = fds[fd][1].read(expectedmsglen)
-             if pkt == b'\x00\x04fail':
+             if pkt == b'\x00\x04fail' or len(pkt) < expectedmsglen:
                  responses[idx]=None
                  continue
              if debug: print(f"{idx} got response of {len(pkt)}")
-- 
2.43.0


From 84ea7324cc904af858c5e2a77a1565256a081aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:29 +0000
Subject: [PATCH 20/36] fix: do not wait for disconnected peers when gathering

The socket of a peer that has disconnected is always readable, but
reading from it raises an error. Gathering failed because of it even if
enough other peers answered.
---
 python/pyoprf/multiplexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index ca2e6c4..bc02261 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -126,7 +126,7 @@ class Multiplexer:
            #elif pending != 0:
            #    print(f"wtf peer {peer.name} has {peer.fd.pending()} bytes pending, which is not equ {expectedmsglen}")
        while len(responses)<n:
-          fds={x.fd.fileno(): (i, x) for i,x in enumerate(self.peers) if i not in responses and x.fd.fileno() >= 0}
+          fds={x.fd.fileno(): (i, x) for i,x in enumerate(self.peers) if i not in responses and x.state == "connected" and x.fd.fileno() >= 0}
           if not fds: raise ValueError("not enough peers left to get enough results")
           #print("select")
           r, _,_ =select.select(fds.keys(),[],[],2)
-- 
2.43.0


From 73e5581e22fd24cdf4d10374076bb7c8daaf6ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:29 +0000
Subject: [PATCH 21/36] fix: a broken or stalled connection only fails the peer
 it belongs to

An error while reading from one peer aborted gathering, even if enough
other peers have answered.
---
 python/pyoprf/multiplexer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index bc02261..fac24f5 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -138,7 +138,13 @@ class Multiplexer:
              if idx in responses:
                 continue
              #print(f"gathering {idx}")
-             pkt = fds[fd][1].read(expectedmsglen)
+             try:
+                 pkt = fds[fd][1].read(expectedmsglen)
+             except OSError:
+                 # reset, or timed out in the middle of a reply
+                 fds[fd][1].close()
+                 responses[idx]=None
+                 continue
              if pkt == b'\x00\x04fail' or len(pkt) < expectedmsglen:
                  responses[idx]=None
                  continue
-- 
2.43.0


From 95f9bedb6e19fd70fe0a2ae992e3fcefadc188d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:29 +0000
Subject: [PATCH 22/36] fix: stop gathering if too few peers are connected

With less connected peers left than replies still needed, gathering
waited forever if one of the remaining peers did not answer.
---
 python/pyoprf/multiplexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index fac24f5..abdd1d5 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -127,7 +127,7 @@ class Multiplexer:
            #    print(f"wtf peer {peer.name} has {peer.fd.pending()} bytes pending, which is not equ {expectedmsglen}")
        while len(responses)<n:
           fds={x.fd.fileno(): (i, x) for i,x in enumerate(self.peers) if i not in responses and x.state == "connected" and x.fd.fileno() >= 0}
-          if not fds: raise ValueError("not enough peers left to get enough results")
+          if len(responses)+len(fds)<n: raise ValueError("not enough peers left to get enough results")
           #print("select")
           r, _,_ =select.select(fds.keys(),[],[],2)
           #print("select done")
-- 
2.43.0


From 0f131fbe56ab6030ca086ac5237a6a420e9a9793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:38 +0000
Subject: [PATCH 23/36] fix: hash the whole protocol name if it is given as a
 str

ctypes passes a str as an array of wide characters, of which only the
first quarter was hashed into the domain separation tag. Protocol names
of equal length that only differ later shared their tag.
---
 python/pyoprf/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index bac9ce0..75f6bb1 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -539,6 +539,7 @@ class TP_DKG_TPState(ctypes.Structure):
 #                  uint8_t (*peer_lt_pks)[][crypto_sign_PUBLICKEYBYTES],
 #                  uint64_t (*last_ts)[]);
 def tpdkg_start_tp(n, t, ts_epsilon, proto_name, peer_lt_pks):
+    if isinstance(proto_name, str): proto_name = proto_name.encode('utf8')
     #state = TP_DKG_TPState()
     ## force 32 byte alignment of state
     #while ctypes.addressof(state) % 32 != 0:
-- 
2.43.0


From 5be955032d623a1f3f27d91d14091c1d7e7d3d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:38 +0000
Subject: [PATCH 24/36] fix: raise an error if a noise session cannot be
 created

ctypes returns a NULL pointer as None, so the check for 0 never matched
and None was returned instead of raising the error.
---
 python/pyoprf/noisexk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pyoprf/noisexk.py b/python/pyoprf/noisexk.py
index b080a9d..4be3522 100755
--- a/python/pyoprf/noisexk.py
+++ b/python/pyoprf/noisexk.py
@@ -77,14 +77,14 @@ lib.Noise_XK_session_create_initiator.restype = c_void_p
 lib.Noise_XK_session_create_initiator.argtypes = [c_void_p, c_void_p]
 def create_session_initiator(device, peerid):
     res = lib.Noise_XK_session_create_initiator(device, peerid)
-    if res == 0: raise ValueError
+    if not res: raise ValueError
     return res
 
 lib.Noise_XK_session_create_responder.restype = c_void_p
 lib.Noise_XK_session_create_responder.argtypes = [c_void_p]
 def create_session_responder(device):
     res = lib.Noise_XK_session_create_responder(device)
-    if res == 0: raise ValueError
+    if not res: raise ValueError
     return res
 
 lib.Noise_XK_pack_message_with_conf_level.restype = c_void_p
-- 
2.43.0


From df14cf0c056598481ec7eae8af46b599941ed629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:51:39 +0000
Subject: [PATCH 25/36] fix: skip invalid indexes in the list of cheaters

The condition could never be true, so that peer 0 was reported as a
cheater if there were too many complaints to tell who is cheating.
---
 python/pyoprf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 75f6bb1..21019ed 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -620,7 +620,7 @@ def tpdkg_get_cheaters(ctx):
     for i in range(ctx[0].cheater_len):
         err = ctypes.create_string_buffer(tpdkg_max_err_SIZE)
         p = liboprf.tpdkg_cheater_msg(ctypes.byref(ctx[1][i]), err, tpdkg_max_err_SIZE)
-        if 0 >= p > ctx[0].n:
+        if not 0 < p <= ctx[0].n:
             print(f"invalid cheater index: {p}, skipping this entry")
             continue
         cheaters.add(p)
-- 
2.43.0


From 0c96d6f193745a8282c9a19a87430016ecf232c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:13:20 +0000
Subject: [PATCH 26/36] fix: name the peer whose long-term signature is wrong

The coordinator ended the session without recording who sent the
message. Record it like any other invalid signature.
---
 src/tp-dkg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 46492df..6f107b9 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -814,7 +814,11 @@ static int tp_step4_handler(TP_DKG_TPState *ctx, const uint8_t *msg2s, const siz
       dump(ptr, tpdkg_msg2_SIZE, "msg");
     }
 #if !defined(FUZZING_BUILD_MODE_UNSAFE_FOR_PRODUCTION)
-    if(0!=crypto_sign_verify_detached(ptr+tpdkg_msg2_SIZE,ptr,tpdkg_msg2_SIZE,(*ctx->peer_lt_pks)[i])) return 3;
+    if(0!=crypto_sign_verify_detached(ptr+tpdkg_msg2_SIZE,ptr,tpdkg_msg2_SIZE,(*ctx->peer_lt_pks)[i])) {
+      // same code as an invalid signature found by recv_msg
+      if(add_cheater(ctx, 4, 64+6, i+1,0xff) == NULL) return 7;
+      continue;
+    }
 #endif
     int ret = recv_msg(ptr, tpdkg_msg2_SIZE, 2, i+1, 0xff, msg->data, ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
     if(0!=ret) {
-- 
2.43.0


From ba857903d7281ea536e9224b96f93bc9faa86919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:20:49 +0000
Subject: [PATCH 27/36] fix: set the index in the result of toprf_Evaluate

The index byte of the part was left unwritten.
---
 src/toprf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toprf.c b/src/toprf.c
index a7be08f..21cb9bf 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -172,6 +172,7 @@ int toprf_Evaluate(const uint8_t _k[TOPRF_Share_BYTES],
   crypto_core_ristretto255_scalar_mul(kl, k->value, lpoly);
 
   TOPRF_Part *Z=(TOPRF_Part*) _Z;
+  Z->index=self;
   if(oprf_Evaluate(kl,blinded, Z->value)) return 1;
 
   return 0;
-- 
2.43.0


From 02860c6983510156b2f5f82b480a5192851b44d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:20:49 +0000
Subject: [PATCH 28/36] fix: let the coeff wrapper take a list of indexes

ctypes cannot convert a list, so every documented call failed.
---
 python/pyoprf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 21019ed..2988529 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -200,7 +200,7 @@ def coeff(index: int, peers: list) -> bytes:
     if len(peers) < 2: ValueError("peers must be a list of at least 2 integers")
     peers_len=ctypes.c_size_t(len(peers))
     c = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_SCALARBYTES)
-    liboprf.coeff(index, peers_len, peers, c)
+    liboprf.coeff(index, peers_len, bytes(peers), c)
     return c.raw
 
 
-- 
2.43.0


From cd7860f078952d5adfe4411b4d2a08135df75527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:20:49 +0000
Subject: [PATCH 29/36] fix: return the rejected dealers from the
 dkg_verify_commitments wrapper

The wrapper raised an error without saying which dealers failed.
---
 python/pyoprf/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 2988529..636e32a 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -413,9 +413,11 @@ def dkg_verify_commitments(n: int, t: int, self: int,
     shares = ctypes.create_string_buffer(shares)
     fails = ctypes.create_string_buffer(n)
     fails_len = ctypes.c_uint8()
-    __check(liboprf.dkg_verify_commitments(n, t, self,
-                                           commitments, shares,
-                                           fails, ctypes.byref(fails_len)))
+    ret = liboprf.dkg_verify_commitments(n, t, self,
+                                         commitments, shares,
+                                         fails, ctypes.byref(fails_len))
+    # rejected dealers are reported to the caller
+    if fails_len.value == 0: __check(ret)
     return fails[:fails_len.value]
 
 #void dkg_finish(const uint8_t n,
-- 
2.43.0


From 7ad54d570b652e2a5b63127a6bfe667cd9fe9c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:20:49 +0000
Subject: [PATCH 30/36] fix: refuse inputs whose length the library cannot take

The length was truncated, so only a prefix of the input was used.
---
 python/pyoprf/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 636e32a..125c071 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -79,6 +79,8 @@ def keygen() -> bytes:
 #               uint8_t r[crypto_core_ristretto255_SCALARBYTES],
 #               uint8_t blinded[crypto_core_ristretto255_BYTES]);
 def blind(x: bytes) -> (bytes, bytes):
+    if len(x) > 255:
+        raise ValueError("x is too long")
     r =       ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_SCALARBYTES)
     blinded = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_BYTES)
     __check(liboprf.oprf_Blind(x, ctypes.c_size_t(len(x)), r, blinded))
@@ -172,6 +174,8 @@ def finalize(x: bytes, N: bytes) -> bytes:
         raise ValueError("param N has incorrect length")
     if not isinstance(N, bytes):
         raise ValueError("param N is not of type bytes")
+    if len(x) > (1<<16)-1:
+        raise ValueError("x is too long")
     y = ctypes.create_string_buffer(OPRF_BYTES)
     __check(liboprf.oprf_Finalize(x, ctypes.c_size_t(len(x)), N, y))
     return y.raw
-- 
2.43.0


From 4e32486d048d800ea12d742cf9a1ed19e0c5580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:20:49 +0000
Subject: [PATCH 31/36] fix: refuse to share among more than 255 parties in the
 wrappers

The number was truncated and the remaining shares were all zero.
---
 python/pyoprf/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 125c071..bbf8409 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -234,6 +234,8 @@ def create_shares(secret: bytes, n: int, t: int) -> bytes_list_t:
         raise ValueError("t cannot be bigger than n")
     if t < 2:
         raise ValueError("t must be bigger than 1")
+    if n > 255:
+        raise ValueError("n cannot be bigger than 255")
     shares = ctypes.create_string_buffer(n*TOPRF_Share_BYTES)
     __check(liboprf.toprf_create_shares(secret, n, t, shares))
     return tuple([bytes(s) for s in split_by_n(shares.raw, TOPRF_Share_BYTES)])
@@ -384,6 +386,8 @@ def dkg_start(n : int, t : int) -> (bytes, bytes, bytes_list_t):
         raise ValueError("t cannot be bigger than n")
     if t < 2:
         raise ValueError("t must be bigger than 1")
+    if n > 255:
+        raise ValueError("n cannot be bigger than 255")
     shares = ctypes.create_string_buffer(n*TOPRF_Share_BYTES)
     commitments = ctypes.create_string_buffer(t*pysodium.crypto_core_ristretto255_BYTES)
 
-- 
2.43.0


From 73c9381d7ab1a8ad785036cfef2b5b102f2e9bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:20:49 +0000
Subject: [PATCH 32/36] fix: raise the errors about too few peers or responses

---
 python/pyoprf/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index bbf8409..a7833ee 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -201,7 +201,7 @@ TOPRF_Part_BYTES=pysodium.crypto_core_ristretto255_BYTES+1
 #void coeff(const int index, const int peers_len, const uint8_t peers[peers_len], uint8_t result[crypto_scalarmult_ristretto255_SCALARBYTES]);
 def coeff(index: int, peers: list) -> bytes:
     if index < 1: raise ValueError("index must be positive integer")
-    if len(peers) < 2: ValueError("peers must be a list of at least 2 integers")
+    if len(peers) < 2: raise ValueError("peers must be a list of at least 2 integers")
     peers_len=ctypes.c_size_t(len(peers))
     c = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_SCALARBYTES)
     liboprf.coeff(index, peers_len, bytes(peers), c)
@@ -260,7 +260,7 @@ def create_shares(secret: bytes, n: int, t: int) -> bytes_list_t:
 #                        const uint8_t responses[response_len][TOPRF_Part_BYTES],
 #                        uint8_t result[crypto_scalarmult_ristretto255_BYTES]);
 def thresholdmult(responses: bytes_list_t) -> bytes:
-    if len(responses) < 2: ValueError("responses must be a list of at least 2 integers")
+    if len(responses) < 2: raise ValueError("responses must be a list of at least 2 integers")
     if not all(isinstance(r,bytes) for r in responses):
         raise ValueError("at least one of the responses is not of type bytes")
     if not all(len(r)==TOPRF_Part_BYTES for r in responses):
@@ -335,7 +335,7 @@ def threshold_evaluate(k: bytes, blinded: bytes, self: int, indexes: list) -> by
 #                            const uint8_t _responses[response_len][TOPRF_Part_BYTES],
 #                            uint8_t result[crypto_scalarmult_ristretto255_BYTES]);
 def threshold_combine(responses: bytes_list_t) -> bytes:
-    if len(responses) < 2: ValueError("responses must be a list of at least 2 integers")
+    if len(responses) < 2: raise ValueError("responses must be a list of at least 2 integers")
     if not all(isinstance(r,bytes) for r in responses):
         raise ValueError("at least one of the responses is not of type bytes")
     if not all(len(r)==TOPRF_Part_BYTES for r in responses):
-- 
2.43.0


From 83fab968928c0ca684c2954d861c4912e2c2b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:15:46 +0000
Subject: [PATCH 33/36] fix: take no result from toprf_create_shares, which
 returns none

---
 python/pyoprf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index a7833ee..bac1399 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -237,7 +237,7 @@ def create_shares(secret: bytes, n: int, t: int) -> bytes_list_t:
     if n > 255:
         raise ValueError("n cannot be bigger than 255")
     shares = ctypes.create_string_buffer(n*TOPRF_Share_BYTES)
-    __check(liboprf.toprf_create_shares(secret, n, t, shares))
+    liboprf.toprf_create_shares(secret, n, t, shares)
     return tuple([bytes(s) for s in split_by_n(shares.raw, TOPRF_Share_BYTES)])
 
 
-- 
2.43.0


From 81fa649dda1898d5478be050e6602c754912ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:15:08 +0000
Subject: [PATCH 34/36] fix: free the registered peers and the storage key of a
 noise device

Noise_XK_device_free gave back neither the records of the registered
peers nor the storage key, so every device and every key generation
participant left memory behind.
---
 src/noise_xk/src/XK.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/noise_xk/src/XK.c b/src/noise_xk/src/XK.c
index d928b67..d587772 100644
--- a/src/noise_xk/src/XK.c
+++ b/src/noise_xk/src/XK.c
@@ -608,8 +608,12 @@ void Noise_XK_device_free(Noise_XK_device_t *dvp)
   if (!(str == NULL))
     KRML_HOST_FREE(str);
   KRML_HOST_FREE(dv.dv_info);
+  // removing a peer also frees what belongs to it
+  while (*dv.dv_peers != NULL)
+    Noise_XK_device_remove_peer(dvp, (*dv.dv_peers)->data[0U].p_id);
   free__Impl_Noise_API_Device_raw_peer_p_or_null_raw_Impl_Noise_API_Device_raw_peer_t_raw_uint32_t_Impl_Noise_String_hstring__uint8_t____(dv.dv_peers);
   KRML_HOST_FREE(dv.dv_peers);
+  KRML_HOST_FREE(dv.dv_sk);
   KRML_HOST_FREE(dv.dv_spriv);
   KRML_HOST_FREE(dv.dv_spub);
   if (!(dv.dv_prologue.buffer == NULL))
-- 
2.43.0


From b6fa313eb61b25b54012ad11f88d4af3aa2d69a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:28:43 +0000
Subject: [PATCH 35/36] fix: do not wrap around when checking timestamps
 against the window

The window was added to and subtracted from timestamps without regard to
overflow. With a window larger than the current time, the subtraction
wrapped around and every message was refused. Compare differences instead.
---
 src/tp-dkg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 6f107b9..e22ca26 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -98,11 +98,12 @@ static uint64_t ntohll(uint64_t n) {
 static int check_ts(const uint64_t ts_epsilon, uint64_t *last_ts, const uint64_t ts) {
   if(*last_ts == 0) {
     uint64_t now = (uint64_t)time(NULL);
-    if(ts < now - ts_epsilon) return 3;
-    if(ts > now + ts_epsilon) return 4;
+    // differences, as sums and now - ts_epsilon may wrap around
+    if(ts < now && now - ts > ts_epsilon) return 3;
+    if(ts > now && ts - now > ts_epsilon) return 4;
   } else {
     if(*last_ts > ts) return 1;
-    if(ts > *last_ts + ts_epsilon) return 2;
+    if(ts - *last_ts > ts_epsilon) return 2;
   }
   *last_ts = ts;
   return 0;
-- 
2.43.0


From 9797c3ef9d440f780adce9d8419a0ccc5729b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:37:18 +0000
Subject: [PATCH 36/36] fix: pass the freshness window of key generation with
 its full width

Without an explicit type ctypes passes an int of 32 bits. A window of more
than 2^32 seconds was cut to its low bits, so fresh messages were refused.
---
 python/pyoprf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index bac1399..a47a5d6 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -563,7 +563,7 @@ def tpdkg_start_tp(n, t, ts_epsilon, proto_name, peer_lt_pks):
       raise ValueError("cannot align at 32bytes the TP_DKG_PeerState struct")
 
     msg = ctypes.create_string_buffer(tpdkg_msg0_SIZE)
-    __check(liboprf.tpdkg_start_tp(ctypes.byref(state), ts_epsilon, n, t, proto_name, ctypes.c_size_t(len(proto_name)), ctypes.c_size_t(len(msg.raw)), msg))
+    __check(liboprf.tpdkg_start_tp(ctypes.byref(state), ctypes.c_uint64(ts_epsilon), n, t, proto_name, ctypes.c_size_t(len(proto_name)), ctypes.c_size_t(len(msg.raw)), msg))
 
     peers_sig_pks = ctypes.create_string_buffer(n*pysodium.crypto_sign_PUBLICKEYBYTES)
     commitments = ctypes.create_string_buffer(n*t*pysodium.crypto_core_ristretto255_BYTES)
@@ -666,7 +666,7 @@ def tpdkg_peer_start(ts_epsilon, peer_lt_sk, msg0):
     if ctypes.addressof(state) % 32 != 0:
       raise ValueError("cannot align at 32bytes the TP_DKG_PeerState struct")
 
-    __check(liboprf.tpdkg_start_peer(ctypes.byref(state), ts_epsilon, peer_lt_sk, msg0))
+    __check(liboprf.tpdkg_start_peer(ctypes.byref(state), ctypes.c_uint64(ts_epsilon), peer_lt_sk, msg0))
 
     peers_sig_pks = ctypes.create_string_buffer(b"peer_sig_pks", state.n * pysodium.crypto_sign_PUBLICKEYBYTES)
     peers_noise_pks = ctypes.create_string_buffer(b"peer_noise_pks", state.n * pysodium.crypto_scalarmult_BYTES)
-- 
2.43.0

