From dc94938efaaa21292e3d08aa9a98cb87c55dca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:46 +0000
Subject: [PATCH 01/26] fix: do not read past the end of a message that has no
 payload marker

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index af1c50d..b9c609e 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -640,7 +640,7 @@ static ssize_t coap_msg_parse_ops(coap_msg_t *msg, char *buf, size_t len)
 
     while (1)
     {
-        if (((p[0] & 0xff) == 0xff) || (len == 0))
+        if ((len == 0) || ((p[0] & 0xff) == 0xff))
         {
             break;
         }
-- 
2.43.0


From e0bcb90b4f8649818eade0fbd0ea183f91ec7822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:46 +0000
Subject: [PATCH 02/26] fix: decode one byte extended option deltas and lengths
 as unsigned

---
 lib/src/coap_msg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index b9c609e..69ca26f 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -566,7 +566,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_delta += p[0];
+        op_delta += (unsigned char)p[0];
         p++;
         len--;
     }
@@ -586,7 +586,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_len += p[0];
+        op_len += (unsigned char)p[0];
         p++;
         len--;
     }
-- 
2.43.0


From 330eda5fd7a381b5e39a0ab16656686cc9fc2daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:46 +0000
Subject: [PATCH 03/26] fix: reserve space for the extended option length by
 length, not by number

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 69ca26f..040c75e 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -931,7 +931,7 @@ static ssize_t coap_msg_format_op(coap_msg_op_t *op, unsigned prev_num, char *bu
     {
         num += 2;
     }
-    else if (op->num >= 13)
+    else if (op->len >= 13)
     {
         num += 1;
     }
-- 
2.43.0


From e6dcfa719b24e9e99ae25ccce1d70d8414468186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:46 +0000
Subject: [PATCH 04/26] fix: return an option structure to the allocator it
 came from

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 040c75e..3b06442 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -206,7 +206,7 @@ static coap_msg_op_t *coap_msg_op_new(unsigned num, unsigned len, const char *va
     op->val = (char *)coap_mem_medium_alloc(len);
     if (op->val == NULL)
     {
-        coap_mem_medium_free(op);
+        coap_mem_small_free(op);
         return NULL;
     }
     memcpy(op->val, val, len);
-- 
2.43.0


From 4ea1774c65c46d3efd3c15472338ae8381cd5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:46 +0000
Subject: [PATCH 05/26] fix: reject block numbers that do not fit in the block
 option value

---
 lib/src/coap_msg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 3b06442..c88531c 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -149,7 +149,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
     switch (len)
     {
     case 1:
-        if (num > (1 << 4))
+        if (num >= (1 << 4))
         {
             return -EINVAL;
         }
@@ -158,7 +158,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
         val[0] |= szx;
         return 1;
     case 2:
-        if (num > (1 << 12))
+        if (num >= (1 << 12))
         {
             return -EINVAL;
         }
@@ -168,7 +168,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
         val[1] |= szx;
         return 2;
     case 3:
-        if (num > (1 << 20))
+        if (num >= (1 << 20))
         {
             return -EINVAL;
         }
-- 
2.43.0


From 56fbaecd2f772e8f0156e32bcec35e1c184f666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:58 +0000
Subject: [PATCH 06/26] fix: parse block option values of any length without
 reading past the value

---
 lib/src/coap_msg.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index c88531c..a44315d 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -109,6 +109,11 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
 {
     switch (len)
     {
+    case 0:
+        *size = 1 << 4;
+        *more = 0;
+        *num = 0;
+        break;
     case 1:
         *size = 1 << ((val[0] & 0x07) + 4);
         *more = !!(val[0] & 0x08);
@@ -120,12 +125,15 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
         *num = ((unsigned)(unsigned char)val[0] << 4)
              | (((unsigned)(unsigned char)val[1] & 0x000000f0) >> 4);
         break;
-    default:
+    case 3:
         *size = 1 << ((val[2] & 0x07) + 4);
         *more = !!(val[2] & 0x08);
         *num = ((unsigned)(unsigned char)val[0] << 12)
              | ((unsigned)(unsigned char)val[1] << 4)
              | (((unsigned)(unsigned char)val[2] & 0x000000f0) >> 4);
+        break;
+    default:
+        return -EINVAL;
     }
     if (*size > COAP_MSG_OP_MAX_BLOCK_SIZE)
     {
-- 
2.43.0


From d5e463abcd28790207644f92a99c79b65e66faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:15 +0000
Subject: [PATCH 07/26] fix: refuse a memory allocator whose total size
 overflows

---
 lib/src/coap_mem.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_mem.c b/lib/src/coap_mem.c
index 41509ec..d05e4e8 100755
--- a/lib/src/coap_mem.c
+++ b/lib/src/coap_mem.c
@@ -32,6 +32,7 @@
  */
 
 #include <stdlib.h>
+#include <stdint.h>
 #include <string.h>
 #include <errno.h>
 #include "coap_mem.h"
@@ -39,7 +40,7 @@
 int coap_mem_create(coap_mem_t *mem, size_t num, size_t len)
 {
     memset(mem, 0, sizeof(coap_mem_t));
-    if (((num & 0x7) != 0) || (len == 0))
+    if (((num & 0x7) != 0) || (len == 0) || (num > SIZE_MAX / len))
     {
         return -EINVAL;
     }
-- 
2.43.0


From e949c261bdb4532a67cda871b8c1049dc6a53e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:15 +0000
Subject: [PATCH 08/26] fix: do not take a first request with message ID 0 for
 a duplicate

---
 lib/src/coap_server.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 30f0bc0..dbcc9fb 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1364,8 +1364,6 @@ static int coap_server_trans_create(coap_server_trans_t *trans, coap_server_t *s
         memset(trans, 0, sizeof(coap_server_trans_t));
         return -errno;
     }
-    coap_msg_create(&trans->req);
-    coap_msg_create(&trans->resp);
     trans->server = server;
 #ifdef COAP_DTLS_EN
     ret = coap_server_trans_dtls_create(trans);
-- 
2.43.0


From 405bb309b119b3f477c0425f3f5296f24c989636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:15 +0000
Subject: [PATCH 09/26] fix: report a failure to send a piggy-backed response
 again

---
 lib/src/coap_server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index dbcc9fb..16e5520 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2321,7 +2321,7 @@ static int coap_server_exchange(coap_server_t *server)
                 if (num < 0)
                 {
                     coap_server_trans_destroy(trans);
-                    return ret;
+                    return num;
                 }
             }
             return 0;
-- 
2.43.0


From 374b40a8cab6e85810745f2296ee7790e481ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:15 +0000
Subject: [PATCH 10/26] fix: reject an empty confirmable message instead of
 passing it to the request handler

---
 lib/src/coap_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 16e5520..8ec6d46 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2372,7 +2372,8 @@ static int coap_server_exchange(coap_server_t *server)
     /* check for a valid request */
     if ((coap_msg_get_type(&recv_msg) == COAP_MSG_ACK)
      || (coap_msg_get_type(&recv_msg) == COAP_MSG_RST)
-     || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ))
+     || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ)
+     || (coap_msg_is_empty(&recv_msg)))
     {
         coap_server_trans_reject(trans, &recv_msg);
         coap_msg_destroy(&recv_msg);
-- 
2.43.0


From ef3fcc7d905438d61a8bcf7f9b185b541c6e40f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:15 +0000
Subject: [PATCH 11/26] fix: stop the acknowledgement timer when a new request
 replaces the previous response

---
 lib/src/coap_server.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 8ec6d46..44896e8 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2390,7 +2390,15 @@ static int coap_server_exchange(coap_server_t *server)
         coap_log_info("Received non-confirmable request from address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
     }
 
+    /* stop retransmitting the previous response, */
     /* clear details of the previous request/response */
+    ret = coap_server_trans_stop_ack_timer(trans);
+    if (ret < 0)
+    {
+        coap_server_trans_destroy(trans);
+        coap_msg_destroy(&recv_msg);
+        return ret;
+    }
     coap_server_trans_clear_req(trans);
     coap_server_trans_clear_resp(trans);
 
-- 
2.43.0


From dbbf281b9cd8ea8cd975a12735c61efb365e7984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:16 +0000
Subject: [PATCH 12/26] fix: release the copied request when a block-wise
 exchange runs out of memory

A failing coap_msg_copy leaves the options copied so far in the local
message; both block-wise exchange functions returned without destroying it.
---
 lib/src/coap_client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 812d1cd..8f4d5fe 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1690,6 +1690,7 @@ static ssize_t coap_client_exchange_blockwise1(coap_client_t *client,
         ret = coap_msg_copy(&msg, req);
         if (ret < 0)
         {
+            coap_msg_destroy(&msg);
             return ret;
         }
         block1_more = 1;
@@ -1851,6 +1852,7 @@ static ssize_t coap_client_exchange_blockwise2(coap_client_t *client,
             ret = coap_msg_copy(&msg, req);
             if (ret < 0)
             {
+                coap_msg_destroy(&msg);
                 return ret;
             }
             block2_more = 0;  /* more must be zero for this use case */
-- 
2.43.0


From e8d3dcd22276b592bc0c09e6a755318346979d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:54 +0000
Subject: [PATCH 13/26] fix: clear the terminating byte when a data buffer is
 expanded

---
 proxy/common/src/data_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/data_buf.c b/proxy/common/src/data_buf.c
index 8baba87..3d3b99f 100755
--- a/proxy/common/src/data_buf.c
+++ b/proxy/common/src/data_buf.c
@@ -75,7 +75,7 @@ int data_buf_expand(data_buf_t *buf)
         return -ENOMEM;
     }
     memcpy(new_data, buf->data, buf->count);
-    memset(new_data + buf->count, 0, new_size - buf->count);
+    memset(new_data + buf->count, 0, new_size + 1 - buf->count);
     free(buf->data);
     buf->data = new_data;
     buf->size = new_size;
-- 
2.43.0


From 8313f871741139989a0a18763687cb962713f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:34 +0000
Subject: [PATCH 14/26] fix: HTTP chunk lengths beyond the range of int
 corrupted memory

---
 proxy/common/src/http_msg.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index f8afeee..390d24c 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -377,8 +377,8 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     char *param = NULL;
     char *next = NULL;
     char *dest = NULL;
-    int total_len = 0;
-    int chunk_len = 0;
+    size_t total_len = 0;
+    unsigned long chunk_len = 0;
     int chunked = 0;
     int ret = 0;
     int i = 0;
@@ -431,7 +431,7 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
                 }
 
                 /* parse chunk length */
-                ret = sscanf(chunk_size, "%x", &chunk_len);
+                ret = sscanf(chunk_size, "%lx", &chunk_len);
                 if (ret != 1)
                 {
                     return -EBADMSG;
@@ -440,25 +440,25 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
                 {
                     break;
                 }
-                if (i == 0)
-                {
-                    total_len += chunk_len;
-                }
-
                 chunk_data = next;
-                next += chunk_len;
 
                 /* parse the end of chunk-data */
-                if (next + 2 > str + str_len)
+                if ((str_len - (next - str) < 2)
+                 || (chunk_len > str_len - (next - str) - 2))
                 {
                     return -EAGAIN;
                 }
+                next += chunk_len;
                 if ((*next != '\r')
                  || (*(next + 1) != '\n'))
                 {
                     return -EBADMSG;
                 }
                 next += 2;
+                if (i == 0)
+                {
+                    total_len += chunk_len;
+                }
 
                 /* copy data on the second pass */
                 if (i == 1)
-- 
2.43.0


From 6e05f28e3f3b0e94fae9b5d0fbdf1eef5b64ef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:34 +0000
Subject: [PATCH 15/26] fix: an HTTP message with a null byte in its body was
 never complete

---
 proxy/common/src/http_msg.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index 390d24c..7805aec 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -361,17 +361,17 @@ static ssize_t http_msg_parse_headers(http_msg_t *msg, char *str)
  *
  *  @param[in,out] msg Pointer to a message structure
  *  @param[in] str String representation of the message body
+ *  @param[in] str_len Number of bytes in the message body, which may include null bytes
  *
  *  @returns Number of bytes parsed or error code
  *  @retval >=0 Number of bytes parsed
  *  @retval <0 Error code
  */
-static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
+static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
 {
     http_msg_header_t *header = NULL;
     ssize_t num = 0;
     size_t content_len = 0;
-    size_t str_len = 0;
     char *chunk_size = NULL;
     char *chunk_data = NULL;
     char *param = NULL;
@@ -383,8 +383,6 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     int ret = 0;
     int i = 0;
 
-    str_len = strlen(str);
-
     header = http_msg_get_first_header(msg);
     while (header != NULL)
     {
@@ -521,11 +519,12 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
  *
  *  @param[out] msg Pointer to a message structure
  *  @param[in,out] str String containing the message
+ *  @param[in] len Number of bytes in the message
  *
  *  @returns Number of bytes parsed or error code
  *  @retval >0 Number of bytes
  *  @retval <0 Error code
- */static ssize_t __http_msg_parse(http_msg_t *msg, char *str)
+ */static ssize_t __http_msg_parse(http_msg_t *msg, char *str, size_t len)
 {
     ssize_t num = 0;
     char *next = str;
@@ -544,7 +543,7 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     }
     next += num;
 
-    num = http_msg_parse_body(msg, next);
+    num = http_msg_parse_body(msg, next, len - (next - str));
     if (num < 0)
     {
         return num;
@@ -567,7 +566,7 @@ ssize_t http_msg_parse(http_msg_t *msg, const char *buf, size_t len)
     }
     memcpy(str, buf, len);
     str[len] = '\0';
-    num = __http_msg_parse(msg, str);
+    num = __http_msg_parse(msg, str, len);
     free(str);
     return num;
 }
-- 
2.43.0


From 43907d95b8cca2a8e4e53c2e13f50cde8b700a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:34 +0000
Subject: [PATCH 16/26] fix: HTTP content lengths beyond the range of int were
 taken modulo 2^32

---
 proxy/common/src/http_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index 7805aec..ee2b341 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -393,7 +393,7 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
         }
         if (strcasecmp(header->name, "Content-Length") == 0)
         {
-            content_len = atoi(header->value);
+            content_len = strtoul(header->value, NULL, 10);
         }
         header = header->next;
     }
-- 
2.43.0


From 860c41c9c46a9c1ee88f54ca3eab9fc410b536cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:34 +0000
Subject: [PATCH 17/26] fix: writing an HTTP message into a full buffer
 underflowed its length

---
 proxy/common/src/http_msg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index ee2b341..9d529d7 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -640,7 +640,7 @@ size_t http_msg_generate(http_msg_t *msg, char *buf, size_t len)
         {
             memcpy(buf + str_len, msg->body, msg->body_len);  /* full copy */
         }
-        else if (str_len < (len - 1))  /* if there is space for one byte not including the '\0' */
+        else if (str_len + 1 < len)  /* if there is space for one byte not including the '\0' */
         {
             memcpy(buf + str_len, msg->body, (len - 1) - str_len);  /* partial copy */
         }
@@ -658,13 +658,13 @@ size_t http_msg_generate_chunk(char *out, size_t out_len, const char *in, size_t
     memset(out, 0, out_len);
 
     target = snprintf(out, out_len, "%zx\r\n", in_len);
-    actual = (target <= out_len) ? target : out_len;
+    actual = (target < out_len) ? target : ((out_len > 0) ? out_len - 1 : 0);
     out += actual;
     out_len -= actual;
     num += target;
 
     target = in_len;
-    actual = (target <= (out_len - 1)) ? target : (out_len - 1);
+    actual = (target < out_len) ? target : ((out_len > 0) ? out_len - 1 : 0);
     memcpy(out, in, actual);
     out += actual;
     out_len -= actual;
-- 
2.43.0


From a7ec82a07e80b938624a329405936e9e82d231ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:34 +0000
Subject: [PATCH 18/26] fix: setting the start line or body of an HTTP message
 again leaked the old one

---
 proxy/common/src/http_msg.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index 9d529d7..ec1438a 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -573,6 +573,13 @@ ssize_t http_msg_parse(http_msg_t *msg, const char *buf, size_t len)
 
 int http_msg_set_start(http_msg_t *msg, const char *start1, const char *start2, const char *start3)
 {
+    int i = 0;
+
+    for (i = 0; i < HTTP_MSG_NUM_START; i++)
+    {
+        free(msg->start[i]);
+        msg->start[i] = NULL;
+    }
     msg->start[0] = strdup(start1);
     if (msg->start[0] == NULL)
     {
@@ -598,6 +605,8 @@ int http_msg_set_header(http_msg_t *msg, const char *name, const char *value)
 
 int http_msg_set_body(http_msg_t *msg, const char *buf, size_t len)
 {
+    free(msg->body);
+    msg->body_len = 0;
     msg->body = calloc(len + 1, 1);  /* allocate space for a terminating null character */
     if (msg->body == NULL)           /* even if the body carries binary data */
     {
-- 
2.43.0


From 6708b27c9c40947e93d55549f9f62010b2d5e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:35 +0000
Subject: [PATCH 19/26] fix: check the copied host and port in uri_copy

The scheme was tested instead: copying a URI without a scheme failed with
-ENOMEM, and a failed copy of the host or port went unnoticed.
---
 proxy/common/src/uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 48dcba4..d580b10 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -748,7 +748,7 @@ int uri_copy(uri_t *dest, uri_t *src)
     if (src->host != NULL)
     {
         dest->host = strdup(src->host);
-        if (dest->scheme == NULL)
+        if (dest->host == NULL)
         {
             uri_destroy(dest);
             return -ENOMEM;
@@ -757,7 +757,7 @@ int uri_copy(uri_t *dest, uri_t *src)
     if (src->port != NULL)
     {
         dest->port = strdup(src->port);
-        if (dest->scheme == NULL)
+        if (dest->port == NULL)
         {
             uri_destroy(dest);
             return -ENOMEM;
-- 
2.43.0


From 6a7fa38b9a3cf41739231d1533a00a408f92bc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:35 +0000
Subject: [PATCH 20/26] fix: do not convert unknown CoAP response codes to HTTP
 codes of another class

A missing break turned, for example, 2.00 into 400 and 2.06 into 406.
---
 proxy/common/src/cross.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index ab86497..a48592a 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -145,6 +145,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_CONTENT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "200", "OK");
         }
+        break;
     case COAP_MSG_CLIENT_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
@@ -170,6 +171,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_UNSUP_CONT_FMT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "415", "Unsupported Media Type");
         }
+        break;
     case COAP_MSG_SERVER_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
-- 
2.43.0


From 6a40a716303d87ba31081bdde3d328fe1dcaaeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:35 +0000
Subject: [PATCH 21/26] fix: send the last byte of a response that is as long
 as the send buffer

http_msg_generate keeps one byte for the terminator, so a text of exactly the
size of the buffer is truncated, and a zero byte was sent instead.
---
 proxy/http_coap/src/connection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index b730fd8..90732e5 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -290,7 +290,7 @@ static int connection_send(connection_t *con, http_msg_t *msg)
     while (1)
     {
         len = http_msg_generate(msg, data_buf_get_data(&con->send_buf), data_buf_get_space(&con->send_buf));
-        if (len <= data_buf_get_space(&con->send_buf))
+        if (len < data_buf_get_space(&con->send_buf))
         {
             break;
         }
-- 
2.43.0


From 1a2f282b7fd194ef811244f47442a32d5829fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:54 +0000
Subject: [PATCH 22/26] fix: look for the user info and port of a URI in its
 authority only

An '@' or ':' in the path was taken for the end of the user info or the start of
the port: coap://host/a@b was sent to the host b.
---
 proxy/common/src/uri.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index d580b10..0ca8cfa 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -432,6 +432,11 @@ static int uri_parse_hier_part(uri_t *uri, char **q)
         /* parse authority and path */
 
         p += 2;
+        path = strchr(p, '/');
+        if (path != NULL)
+        {
+            *path++ = '\0';
+        }
         r = strchr(p, '@');
         if (r != NULL)
         {
@@ -454,20 +459,11 @@ static int uri_parse_hier_part(uri_t *uri, char **q)
             p = r + 1;
         }
 
-        /* check for port and path */
+        /* check for port */
         port = uri_find_port(p);
         if (port != NULL)
         {
             *port++ = '\0';
-            path = strchr(port, '/');
-        }
-        else
-        {
-            path = strchr(p, '/');
-        }
-        if (path != NULL)
-        {
-            *path++ = '\0';
         }
 
         /* parse host */
-- 
2.43.0


From a93476abacc2258e1948081f07f03954de183053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:54 +0000
Subject: [PATCH 23/26] fix: refuse a request without a host or port instead of
 dereferencing null

The host and port of the request URI were compared and copied without a check:
a request for coap://host/path on an active connection crashed the proxy.
---
 proxy/http_coap/src/connection.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 90732e5..5d1d00f 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -544,6 +544,14 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         coap_msg_destroy(&coap_req_msg);
         return ret;
     }
+    if ((uri_get_host(&uri) == NULL) || (uri_get_port(&uri) == NULL))
+    {
+        coap_log_error("[%u] <%u> %s No host or port in request message from HTTP client",
+                       con->listener_index, con->con_index, con->addr);
+        uri_destroy(&uri);
+        coap_msg_destroy(&coap_req_msg);
+        return connection_gen_error_resp(con, resp_msg, 400);
+    }
     if (!con->coap_client_active)
     {
         /* first exchange with a CoAP server */
-- 
2.43.0


From a9bbd0ba41d116ca19e953fe5b9e2c50fc6dce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:15 +0000
Subject: [PATCH 24/26] fix: forward DELETE requests to the CoAP server

The request was converted but never sent, and the client was told 502.
---
 proxy/http_coap/src/connection.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 5d1d00f..f7ad795 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -511,6 +511,18 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
             con->body_end = num;
         }
     }
+    else
+    {
+        /* execute regular exchange */
+        coap_log_info("[%u] <%u> %s Sending request to CoAP server host %s and port %s",
+                      con->listener_index, con->con_index, con->addr,
+                      con->coap_client_host, con->coap_client_port);
+        ret = coap_client_exchange(&con->coap_client, req_msg, resp_msg);
+        if (ret < 0)
+        {
+            return ret;
+        }
+    }
     return 0;
 }
 
-- 
2.43.0


From e815b596f218da9131e96ee38c681f45486cf861 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 14:07:24 +0000
Subject: [PATCH 25/26] fix: proxy returned the body of a long GET or DELETE
 request as the body of the response

---
 proxy/http_coap/src/connection.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index f7ad795..fd0867c 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -367,6 +367,8 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
 
     if (coap_msg_get_code_detail(req_msg) == COAP_MSG_GET)
     {
+        /* a body that is not sent to the CoAP server must not be taken for the body of the response */
+        con->body_end = 0;
         /* execute regular exchange */
         coap_log_info("[%u] <%u> %s Sending GET request to CoAP server host %s and port %s",
                       con->listener_index, con->con_index, con->addr,
@@ -513,6 +515,8 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
     }
     else
     {
+        /* a body that is not sent to the CoAP server must not be taken for the body of the response */
+        con->body_end = 0;
         /* execute regular exchange */
         coap_log_info("[%u] <%u> %s Sending request to CoAP server host %s and port %s",
                       con->listener_index, con->con_index, con->addr,
-- 
2.43.0


From 77c29c2af1021f5c536651774a064b0d9f76c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:57 +0000
Subject: [PATCH 26/26] fix: proxy let requests that were already received time
 out (a second request in the same TLS record, or the rest of a long record)

---
 proxy/common/include/tls_sock.h  |   1 +
 proxy/http_coap/src/connection.c | 112 +++++++++++++++++--------------
 2 files changed, 61 insertions(+), 52 deletions(-)

diff --git a/proxy/common/include/tls_sock.h b/proxy/common/include/tls_sock.h
index ea004df..bbbb432 100755
--- a/proxy/common/include/tls_sock.h
+++ b/proxy/common/include/tls_sock.h
@@ -48,6 +48,7 @@
 #define tls_sock_get_addr_string(s, out, out_len)    (tls_sock_get_addr_string_(out, out_len, (s)->sin.SOCK_SIN_ADDR))
 #define tls_sock_get_timeout(s)                      ((s)->timeout)
 #define tls_sock_get_session(s)                      ((s)->session)
+#define tls_sock_get_pending(s)                      (gnutls_record_check_pending((s)->session))
 #define tls_sock_is_resumed(s)                       (gnutls_session_is_resumed((s)->session))
 
 #define tls_ssoct_get_sd(ss)                         ((ss)->sd)
diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index fd0867c..d8b38c9 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -203,21 +203,69 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
     sd = tls_sock_get_sd(con->sock);
     while (1)
     {
-        FD_ZERO(&readfds);
-        FD_SET(sd, &readfds);
-        errno = 0;
-        ret = select(sd + 1, &readfds, NULL, NULL, &tv);
-        if (ret == 0)
+        /* the buffer can already hold a complete message, received together with the previous one */
+        if (data_buf_get_count(&con->recv_buf) > 0)
         {
-            coap_log_info("[%u] <%u> %s Timed out waiting to read from socket connected to HTTP client",
-                          con->listener_index, con->con_index, con->addr);
-            return CON_RET_TIMEDOUT;
+            num = http_msg_parse(msg, data_buf_get_data(&con->recv_buf), data_buf_get_count(&con->recv_buf));
+            if (num > 0)
+            {
+                data_buf_consume(&con->recv_buf, num);
+                coap_log_debug("[%u] <%u> %s Received from HTTP client: %s %s %s",
+                               con->listener_index, con->con_index, con->addr,
+                               http_msg_get_start(msg, 0),
+                               http_msg_get_start(msg, 1),
+                               http_msg_get_start(msg, 2));
+                return 0;  /* success */
+            }
+            else if (num == -EAGAIN)
+            {
+                coap_log_debug("[%u] <%u> %s Received incomplete request message from HTTP client",
+                               con->listener_index, con->con_index, con->addr);
+                if (data_buf_get_space(&con->recv_buf) < CONNECTION_DATA_BUF_MIN_SPACE)
+                {
+                    coap_log_debug("[%u] <%u> %s Increasing size of receive buffer",
+                                   con->listener_index, con->con_index, con->addr);
+                    ret = data_buf_expand(&con->recv_buf);
+                    if (ret == -EINVAL)
+                    {
+                        coap_log_error("[%u] <%u> %s Request message from HTTP client too long",
+                                       con->listener_index, con->con_index, con->addr);
+                        return ret;
+                    }
+                    else if (ret == -ENOMEM)
+                    {
+                        coap_log_error("[%u] <%u> %s Out of memory",
+                                       con->listener_index, con->con_index, con->addr);
+                        return ret;
+                    }
+                }
+            }
+            else
+            {
+                coap_log_error("[%u] <%u> %s Failed to parse request message from HTTP client: %s",
+                               con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
+                return num;
+            }
         }
-        else if (ret == -1)
+        /* data that are buffered in the TLS session do not make the socket readable */
+        if (tls_sock_get_pending(con->sock) == 0)
         {
-            coap_log_error("[%u] <%u> %s Call to select returned: -1, errno: %d (%s)",
-                           con->listener_index, con->con_index, con->addr, errno, strerror(errno));
-            return -errno;
+            FD_ZERO(&readfds);
+            FD_SET(sd, &readfds);
+            errno = 0;
+            ret = select(sd + 1, &readfds, NULL, NULL, &tv);
+            if (ret == 0)
+            {
+                coap_log_info("[%u] <%u> %s Timed out waiting to read from socket connected to HTTP client",
+                              con->listener_index, con->con_index, con->addr);
+                return CON_RET_TIMEDOUT;
+            }
+            else if (ret == -1)
+            {
+                coap_log_error("[%u] <%u> %s Call to select returned: -1, errno: %d (%s)",
+                               con->listener_index, con->con_index, con->addr, errno, strerror(errno));
+                return -errno;
+            }
         }
         num = tls_sock_read(con->sock, data_buf_get_next(&con->recv_buf), data_buf_get_space(&con->recv_buf));
         if (num < 0)
@@ -233,46 +281,6 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
             return CON_RET_CLOSED;
         }
         data_buf_add(&con->recv_buf, num);
-        num = http_msg_parse(msg, data_buf_get_data(&con->recv_buf), data_buf_get_count(&con->recv_buf));
-        if (num > 0)
-        {
-            data_buf_consume(&con->recv_buf, num);
-            coap_log_debug("[%u] <%u> %s Received from HTTP client: %s %s %s",
-                           con->listener_index, con->con_index, con->addr,
-                           http_msg_get_start(msg, 0),
-                           http_msg_get_start(msg, 1),
-                           http_msg_get_start(msg, 2));
-            return 0;  /* success */
-        }
-        else if (num == -EAGAIN)
-        {
-            coap_log_debug("[%u] <%u> %s Received incomplete request message from HTTP client",
-                           con->listener_index, con->con_index, con->addr);
-            if (data_buf_get_space(&con->recv_buf) < CONNECTION_DATA_BUF_MIN_SPACE)
-            {
-                coap_log_debug("[%u] <%u> %s Increasing size of receive buffer",
-                               con->listener_index, con->con_index, con->addr);
-                ret = data_buf_expand(&con->recv_buf);
-                if (ret == -EINVAL)
-                {
-                    coap_log_error("[%u] <%u> %s Request message from HTTP client too long",
-                                   con->listener_index, con->con_index, con->addr);
-                    return ret;
-                }
-                else if (ret == -ENOMEM)
-                {
-                    coap_log_error("[%u] <%u> %s Out of memory",
-                                   con->listener_index, con->con_index, con->addr);
-                    return ret;
-                }
-            }
-        }
-        else
-        {
-            coap_log_error("[%u] <%u> %s Failed to parse request message from HTTP client: %s",
-                           con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
-            return num;
-        }
     }
     return 0;
 }
-- 
2.43.0

