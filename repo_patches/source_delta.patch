From 2b278537cd4315a84122da6f18829b7b8e4e80fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 001/107] fix: restore the colon of a decoded URL image at the
 right position

---
 src/trax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 9e8286f..8066d27 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -364,7 +364,7 @@ trax_image* image_decode(char* buffer) {
         result->data = (char*) malloc(sizeof(char) * (outlen));
         base64decode((unsigned char*)result->data, resource);
     } else {
-        *(resource--) = ':'; // Restore the semicolon and use the buffer as URL
+        *(--resource) = ':'; // Restore the colon and use the buffer as URL
         result = trax_image_create_url(buffer);
     }
     return result;
-- 
2.43.0


From fbce02338c47af6a13b6554604ab092623337d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 002/107] fix: report all properties of a quit message in
 trax_server_wait_mot

---
 src/trax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 8066d27..3e848e7 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1236,7 +1236,7 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
             }   
 
             if (properties)
-                copy_properties(tmp_properties, properties, COPY_EXTERNAL | COPY_OVERWRITE);
+                copy_properties(tmp_properties, properties, COPY_ALL | COPY_OVERWRITE);
 
             result = TRAX_QUIT;
             server->flags |= TRAX_FLAG_TERMINATED;
-- 
2.43.0


From d3cb3cb249dc7db6e20015497a9ca626758ebba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 003/107] fix: bytes above 127 in a message are data, not the
 end of the stream

---
 src/message.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/message.c b/src/message.c
index 8be8510..c0566f2 100644
--- a/src/message.c
+++ b/src/message.c
@@ -74,7 +74,7 @@ int __is_valid_key(char* c, int len) {
     if (len > MAX_KEY_LENGTH) return 0;
 
     for (i = 0; i < len; i++) {
-        if (!(isalnum(c[i]) || c[i] == '.' || c[i] == '_')) return 0;
+        if (!(isalnum((unsigned char) c[i]) || c[i] == '.' || c[i] == '_')) return 0;
     }
 
     return 1;
@@ -295,7 +295,7 @@ static __INLINE int read_character(message_stream* stream) {
 
     stream->buffer_position++;
 
-    return chr;
+    return (unsigned char) chr;
 
 }
 
@@ -321,7 +321,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
         switch (stream->input.state) {
             case PARSE_STATE_TYPE: { // Parsing message type
 
-                if (isalnum(chr)) {
+                if (isalnum((unsigned char) chr)) {
 
                     buffer_push(stream->input.key_buffer, chr);
 
-- 
2.43.0


From 1f99059b96098fe3ca821c2b90efbd245195ed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 004/107] fix: a malformed line leaves nothing behind and does
 not swallow the next line

---
 src/message.c | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/message.c b/src/message.c
index c0566f2..3af51f4 100644
--- a/src/message.c
+++ b/src/message.c
@@ -299,6 +299,20 @@ static __INLINE int read_character(message_stream* stream) {
 
 }
 
+// Drops everything parsed from a malformed line, the rest of the line (if any) will be ignored.
+static void discard_line(message_stream* stream, char chr, string_list* arguments, trax_properties* properties) {
+
+    stream->input.message_type = -1;
+    stream->input.state = chr == '\n' ? -prefix_length : PARSE_STATE_PASS;
+
+    buffer_reset(stream->input.key_buffer);
+    buffer_reset(stream->input.value_buffer);
+
+    list_reset(arguments);
+    trax_properties_clear(properties);
+
+}
+
 int read_message(message_stream* stream, trax_logging* log, string_list* arguments, trax_properties* properties) {
 	
 	VALIDATE_MESSAGE_STREAM(stream);
@@ -348,8 +362,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     free(key_tmp);
 
                     if (stream->input.message_type == -1) {
-                		stream->input.state = PARSE_STATE_PASS;
-                		stream->input.message_type = -1;
+                		stream->input.state = -prefix_length;
                     } else {
                         stream->input.complete = TRUE;
                     }
@@ -371,11 +384,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 } else if (chr == '\n') {
                 	stream->input.complete = TRUE;
                 } else {
-                	stream->input.message_type = -1;
-                	stream->input.state = PARSE_STATE_PASS;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
-                    buffer_push(stream->input.key_buffer, chr);             	
+                    discard_line(stream, chr, arguments, properties);
                 }
 
                 break;
@@ -475,11 +484,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_KEY;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
-
+                    discard_line(stream, chr, arguments, properties);
                 }
                 
                 break;
@@ -494,10 +499,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_VALUE;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
+                    discard_line(stream, chr, arguments, properties);
                 }
                 
                 break;
@@ -558,11 +560,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_KEY;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
-
+                    discard_line(stream, chr, arguments, properties);
                 }
                 
                 break;
@@ -577,10 +575,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_VALUE;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
+                    discard_line(stream, chr, arguments, properties);
                 }
                 
                 break;
-- 
2.43.0


From 0af33c2a7c06ea67c0f76bec9362ab862bac4045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 005/107] fix: a new line ends a message even inside an
 unterminated quote

---
 src/message.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message.c b/src/message.c
index 3af51f4..6b78c7f 100644
--- a/src/message.c
+++ b/src/message.c
@@ -510,6 +510,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 
                 if (chr == '\\') {
                     stream->input.state = PARSE_STATE_QUOTED_ESCAPE_KEY;
+                } else if (chr == '\n') { // quote was never closed
+                    discard_line(stream, chr, arguments, properties);
                 } else if (chr == '"') { // append arg and move on
                     char *key_tmp;
                     key_tmp = buffer_extract(stream->input.key_buffer);            
@@ -534,6 +536,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 
                 if (chr == '\\') {
                     stream->input.state = PARSE_STATE_QUOTED_ESCAPE_VALUE;
+                } else if (chr == '\n') { // quote was never closed
+                    discard_line(stream, chr, arguments, properties);
                 } else if (chr == '"') {
                     char *key_tmp, *value_tmp;
                     key_tmp = buffer_extract(stream->input.key_buffer);
-- 
2.43.0


From 69dd6c63d397b8f82982ea20b00271d13a49915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 006/107] fix: never deliver an incomplete or already delivered
 message at the end of the stream

---
 src/message.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/message.c b/src/message.c
index 6b78c7f..ad04ed5 100644
--- a/src/message.c
+++ b/src/message.c
@@ -319,16 +319,20 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 
     list_reset(arguments);
 
+    stream->input.message_type = -1;
+
     while (!stream->input.complete) {
 
     	char chr; 
     	int val = read_character(stream);
 
     	if (val < 0) {
-    		if (stream->input.message_type == -1) break;
-    		chr = '\n';
-    		stream->input.complete = TRUE;
-    	} else chr = (char) val;
+    		// No more data, message that was not terminated is not complete
+    		stream->input.message_type = -1;
+    		break;
+    	}
+
+    	chr = (char) val;
 
         LOG_CHAR(log, chr);
 
-- 
2.43.0


From 13bb8a46397de9dd29238cdbcbdea696ceb988be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 007/107] fix: a message that only a server can send is an
 error in trax_server_wait_mot

---
 src/trax.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index 3e848e7..8ca9f30 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1307,6 +1307,9 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
             copy_properties(tmp_properties, object_properties[object_count-1], COPY_ALL | COPY_OVERWRITE);
 
             result = TRAX_INITIALIZE;
+        } else {
+            set_error(server, "Protocol error, unexpected message");
+            goto failure;
         }
 
         list_destroy(&arguments);
-- 
2.43.0


From 5f52daae9bd8e84775ffc84d85a5466f4dded6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 008/107] fix: an empty initialize or quit message drops
 pending objects in trax_server_wait_mot

---
 src/trax.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index 8ca9f30..56f75fd 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1240,6 +1240,12 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
             result = TRAX_QUIT;
             server->flags |= TRAX_FLAG_TERMINATED;
+
+            for (i = 0; i < object_count; i++) {
+                trax_region_release(&(object_regions[i]));
+                trax_properties_release(&(object_properties[i]));
+            }
+            object_count = 0;
             goto end;
         }
 
@@ -1280,8 +1286,16 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
         if (code == TRAX_INITIALIZE) {
 
             if (list_size(arguments) == 0) {
+                // Start over, also forget about the objects that were just received
                 result = TRAX_INITIALIZE;
                 server->objects = 0;
+                for (i = 0; i < object_count; i++) {
+                    trax_region_release(&(object_regions[i]));
+                    trax_properties_release(&(object_properties[i]));
+                }
+                object_count = 0;
+                list_destroy(&arguments);
+                trax_properties_release(&tmp_properties);
                 continue;
             }
 
-- 
2.43.0


From 57bd8d84b9032808b86240ddaa00328aba1ff391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 009/107] fix: a frame without an initialized object is an
 error on the server side

---
 src/trax.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 56f75fd..ed74a4a 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1100,6 +1100,11 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
 
     if (result == TRAX_FRAME) {
 
+        if (server->objects == 0) {
+            set_error(server, "No object was given to track");
+            goto failure;
+        }
+
         if (list_size(arguments) != argument_count) {
             set_error(server, "Protocol error, illegal argument number %d != %d", list_size(arguments), argument_count);
             goto failure;
@@ -1251,7 +1256,7 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
         if (code == TRAX_FRAME) {
 
-            if (result == TRAX_INITIALIZE && object_count == 0) {
+            if (server->objects + object_count == 0) {
                 set_error(server, "No object was given to track");
                 goto failure;
             }
-- 
2.43.0


From a193c814104b191f05eb8ec7b6d11924cb5c49ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 010/107] fix: a server without multi-object support accepts
 only one object

---
 src/trax.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index ed74a4a..8f35755 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1309,6 +1309,11 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
                 goto failure;
             }
 
+            if (!IS_MULTI_OBJECT(server) && server->objects + object_count > 0) {
+                set_error(server, "Too many objects given");
+                goto failure;
+            }
+
             object_count++;
 
             if (object_count > object_capacity) {
-- 
2.43.0


From 4446bdce758a5869ca30e815fac493976003d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 011/107] fix: server wait never releases what it was not given
 and leaks nothing when not alive

---
 src/trax.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 8f35755..c78f605 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1081,6 +1081,9 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
 
     clear_error(server);
 
+    *images = NULL;
+    *region = NULL;
+
     if (!HANDLE_ALIVE(server)) {
         set_error(server, "Server not alive");
         return TRAX_ERROR;
@@ -1207,13 +1210,14 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
     trax_properties* tmp_properties;
     int object_capacity = 1;
     int object_count = 0;
-    trax_region** object_regions = (trax_region**) malloc(sizeof(trax_region*) * object_capacity);
-    trax_properties** object_properties = (trax_properties**) malloc(sizeof(trax_properties*) * object_capacity);
+    trax_region** object_regions;
+    trax_properties** object_properties;
 
     VALIDATE_SERVER_HANDLE(server);
 
     clear_error(server);
 
+    *images = NULL;
     *objects = NULL;
 
     if (!HANDLE_ALIVE(server)) {
@@ -1223,6 +1227,9 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
     int argument_count = trax_image_list_count(server->metadata->channels);
 
+    object_regions = (trax_region**) malloc(sizeof(trax_region*) * object_capacity);
+    object_properties = (trax_properties**) malloc(sizeof(trax_properties*) * object_capacity);
+
     while (1) {
         tmp_properties = trax_properties_create();
         arguments = list_create(8);
-- 
2.43.0


From 6ed126ab62ed66cc565f95252b921d283fa8a7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 012/107] fix: a message that only a client can send is an
 error in trax_client_wait

---
 src/trax.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index c78f605..fb0b105 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -833,10 +833,12 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
             trax_properties_release(&tmp_properties);
             trax_object_list_release(objects);
             break;
-        } else if (result == TRAX_ERROR) {
+        } else {
+            // Either an error or a message that is not expected from a server
             list_destroy(&arguments);
             trax_properties_release(&tmp_properties);
             trax_object_list_release(objects);
+            result = TRAX_ERROR;
             break;
         }
 
-- 
2.43.0


From 8b8c08ac7c481466c47c9422b89d940008e44515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 013/107] fix: trax_client_wait returns no object list when
 there is nothing to wait for

---
 src/trax.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index fb0b105..68dcad7 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -782,6 +782,11 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
         return TRAX_ERROR;
     }
 
+    if (client->objects < 1) {
+        set_error(client, "No objects to wait for");
+        return TRAX_ERROR;
+    }
+
     (*objects) = trax_object_list_create(client->objects);
 
     for (int i = 0; i < client->objects; i++) {
-- 
2.43.0


From 2ee17a0606bf745a6959c492b75b0aabc59c9a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 014/107] fix: recognize URL schemes that contain digits

---
 src/trax.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index 68dcad7..41084e0 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -117,6 +117,8 @@ char* parse_uri(char* buffer) {
     for (; i < MAX_URI_SCHEME; i++) {
         if ((buffer[i] >= 'a' && buffer[i] <= 'z') || buffer[i] == '+' || buffer[i] == '.' || buffer[i] == '-') continue;
 
+        if (i > 0 && buffer[i] >= '0' && buffer[i] <= '9') continue;
+
         if (buffer[i] == ':') {
             buffer[i] = 0; // Insert a stop char so that we can compare the prefix
             return buffer + i + 1;
-- 
2.43.0


From a59644c48b7a49d62b0a8838047b087dc84cf52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 015/107] fix: retry interrupted reads and writes of a message
 stream

---
 src/message.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/message.c b/src/message.c
index ad04ed5..93a4c30 100644
--- a/src/message.c
+++ b/src/message.c
@@ -24,6 +24,7 @@
 #endif
 
 #include <ctype.h>
+#include <errno.h>
 
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
 #include <winsock2.h>
@@ -268,15 +269,19 @@ static __INLINE int read_character(message_stream* stream) {
 
     if (stream->buffer_position >= stream->buffer_length) {
 
-        if (stream->flags & TRAX_STREAM_SOCKET) {
+        do {
 
-		    stream->buffer_length = recv(stream->socket.socket, stream->buffer, TRAX_BUFFER_SIZE, 0);
+            if (stream->flags & TRAX_STREAM_SOCKET) {
 
-        } else {
+                stream->buffer_length = recv(stream->socket.socket, stream->buffer, TRAX_BUFFER_SIZE, 0);
 
-        	stream->buffer_length = read(stream->files.input, stream->buffer, TRAX_BUFFER_SIZE);
-           
-        }
+            } else {
+
+                stream->buffer_length = read(stream->files.input, stream->buffer, TRAX_BUFFER_SIZE);
+
+            }
+
+        } while (stream->buffer_length < 0 && errno == EINTR); // Interrupted, try again
 
         if (stream->buffer_length < 0) {
             return -1; // An error has occured  
@@ -639,6 +644,7 @@ int write_buffer(message_stream* stream, const char* buf, int len, trax_logging*
             int l = send(stream->socket.socket, buf+cnt, len-cnt, 0);
             #endif
             if(l == -1) {
+                if (errno == EINTR) continue;
                 return -1;
             }
             cnt += l;
@@ -651,6 +657,7 @@ int write_buffer(message_stream* stream, const char* buf, int len, trax_logging*
         while(cnt < len) {
             int l = write(stream->files.output, buf+cnt, len-cnt);
             if(l == -1) {
+                if (errno == EINTR) continue;
                 return -1;
             }
             cnt += l;
-- 
2.43.0


From 0560ca1f02fd6b0e1c48f824f7076b23a022e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 016/107] fix: log exactly the bytes that were written

---
 src/message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.c b/src/message.c
index 93a4c30..6a56993 100644
--- a/src/message.c
+++ b/src/message.c
@@ -647,6 +647,7 @@ int write_buffer(message_stream* stream, const char* buf, int len, trax_logging*
                 if (errno == EINTR) continue;
                 return -1;
             }
+            LOG_BUFFER(log, buf+cnt, l);
             cnt += l;
         }
 
@@ -660,14 +661,13 @@ int write_buffer(message_stream* stream, const char* buf, int len, trax_logging*
                 if (errno == EINTR) continue;
                 return -1;
             }
+            LOG_BUFFER(log, buf+cnt, l);
             cnt += l;
 
         }
 
     }
 
-    LOG_BUFFER(log, buf, len);
-
     return 1;
 }
 
-- 
2.43.0


From c81eea6e51fed81ce1960435ef9156bdf962ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 017/107] fix: report messages that could not be written

---
 src/message.c | 19 +++++++++++++++----
 src/message.h |  2 +-
 src/trax.c    | 42 ++++++++++++++++++++++++++++++++++--------
 3 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/src/message.c b/src/message.c
index 6a56993..383dbc3 100644
--- a/src/message.c
+++ b/src/message.c
@@ -704,10 +704,12 @@ int write_buffer_escaped(message_stream* stream, const char* buf, int len, trax_
 typedef struct file_pair {
     message_stream* stream;
     trax_logging* log;
+    int failed;
 } file_pair;
 
-#define OUTPUT_STRING(S) { int len = strlen(S); write_buffer(stream, S, len, log); }
-#define OUTPUT_ESCAPED(S) { int len = strlen(S); write_buffer_escaped(stream, S, len, log); }
+// Once writing fails the rest of the message is not written
+#define OUTPUT_STRING(S) { int len = strlen(S); if (!failed && write_buffer(stream, S, len, log) == -1) failed = TRUE; }
+#define OUTPUT_ESCAPED(S) { int len = strlen(S); if (!failed && write_buffer_escaped(stream, S, len, log) == -1) failed = TRUE; }
 /*#define OUTPUT_ESCAPED(S) { int i = 0; while (1) { \
     if (!S[i]) break; \
     if (S[i] == '"' || S[i] == '\\') { write_string(stream, "\\", 1); LOG_STR(log, "\\"); } \
@@ -718,6 +720,7 @@ void __output_properties(const char *key, const char *value, const void *obj) {
     
     message_stream* stream = ((file_pair *) obj)->stream;
     trax_logging* log = ((file_pair *) obj)->log;
+    int failed = ((file_pair *) obj)->failed;
 
     OUTPUT_STRING("\"");
     OUTPUT_STRING(key);
@@ -725,11 +728,14 @@ void __output_properties(const char *key, const char *value, const void *obj) {
     OUTPUT_ESCAPED(value);
     OUTPUT_STRING("\" ");
 
+    ((file_pair *) obj)->failed = failed;
+
 }
 
-void write_message(message_stream* stream, trax_logging* log, int type, const string_list* arguments, trax_properties* properties) {
+int write_message(message_stream* stream, trax_logging* log, int type, const string_list* arguments, trax_properties* properties) {
 
     int i;
+    int failed = FALSE;
 
     assert(type >= TRAX_HELLO);
 
@@ -757,7 +763,7 @@ void write_message(message_stream* stream, trax_logging* log, int type, const st
             OUTPUT_STRING("quit");
             break;
         default: {
-            return;
+            return TRAX_ERROR;
         }
     }
 
@@ -777,13 +783,18 @@ void write_message(message_stream* stream, trax_logging* log, int type, const st
         file_pair pair;
         pair.stream = stream;
         pair.log = log;
+        pair.failed = failed;
 
         trax_properties_enumerate(properties, __output_properties, &pair);
 
+        failed = pair.failed;
+
     }
 
     OUTPUT_STRING("\n");
     LOG_BUFFER(log, NULL, 0); // Flush the log stream
 
+    return failed ? TRAX_ERROR : TRAX_OK;
+
 }
 
diff --git a/src/message.h b/src/message.h
index 412c00a..a04c941 100644
--- a/src/message.h
+++ b/src/message.h
@@ -62,7 +62,7 @@ void destroy_message_stream(message_stream** stream);
 
 int read_message(message_stream* stream, trax_logging* log, string_list* arguments, trax_properties* properties);
 	
-void write_message(message_stream* stream, trax_logging* log, int type, const string_list* arguments, trax_properties* properties);
+int write_message(message_stream* stream, trax_logging* log, int type, const string_list* arguments, trax_properties* properties);
 
 #define LOG_STRING(L, S) { if ((L) && (L)->callback ) { (L)->callback(S, strlen(S), (L)->data); } }
 #define LOG_BUFFER(L, S, N) { if ((L) && (L)->callback ) { (L)->callback(S, N, (L)->data); } }
diff --git a/src/trax.c b/src/trax.c
index 41084e0..4050b20 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -891,7 +891,10 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
     if (IS_VERSION_4(client)) {
         if (client->objects > 0) {
             // Reset object count with an empty initialize message
-            write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, NULL, NULL);
+            if (write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, NULL, NULL) != TRAX_OK) {
+                set_error(client, "Unable to send message");
+                return TRAX_ERROR;
+            }
             client->objects = 0;
         }
         return trax_client_frame(client, images, objects, properties);
@@ -937,7 +940,10 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
         free(data);
     }
 
-    write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, properties);
+    if (write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, properties) != TRAX_OK) {
+        set_error(client, "Unable to send message");
+        goto failure;
+    }
 
     list_destroy(&arguments);
 
@@ -995,7 +1001,11 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
                 free(data);
             }
 
-            write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, trax_object_list_properties(objects, i));
+            if (write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, trax_object_list_properties(objects, i)) != TRAX_OK) {
+                set_error(client, "Unable to send message");
+                list_destroy(&arguments);
+                return TRAX_ERROR;
+            }
 
             list_destroy(&arguments);
 
@@ -1030,7 +1040,11 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
             } 
         }
 
-        write_message((message_stream*)client->stream, &LOGGER(client), TRAX_FRAME, arguments, properties);
+        if (write_message((message_stream*)client->stream, &LOGGER(client), TRAX_FRAME, arguments, properties) != TRAX_OK) {
+            set_error(client, "Unable to send message");
+            list_destroy(&arguments);
+            return TRAX_ERROR;
+        }
         list_destroy(&arguments);
 
         return TRAX_OK;
@@ -1423,7 +1437,11 @@ int trax_server_reply_sot(trax_handle* server, trax_region* region, trax_propert
 
     list_append_direct(arguments, data);
 
-    write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, properties);
+    if (write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, properties) != TRAX_OK) {
+        set_error(server, "Unable to send message");
+        list_destroy(&arguments);
+        return TRAX_ERROR;
+    }
 
     list_destroy(&arguments);
 
@@ -1465,7 +1483,11 @@ int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
         if (!data) return TRAX_ERROR;
         arguments = list_create(1);
         list_append_direct(arguments, data);
-        write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, trax_object_list_properties(objects, i));
+        if (write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, trax_object_list_properties(objects, i)) != TRAX_OK) {
+            set_error(server, "Unable to send message");
+            list_destroy(&arguments);
+            return TRAX_ERROR;
+        }
         list_destroy(&arguments);
     }
 
@@ -1493,6 +1515,7 @@ int trax_terminate(trax_handle* handle, const char* reason) {
 
     string_list *arguments;
     trax_properties* tmp_properties;
+    int result;
 
     VALIDATE_HANDLE(handle);
 
@@ -1509,12 +1532,15 @@ int trax_terminate(trax_handle* handle, const char* reason) {
 
     handle->flags |= TRAX_FLAG_TERMINATED;
 
-    write_message((message_stream*)handle->stream, &LOGGER(handle), TRAX_QUIT, arguments, tmp_properties);
+    result = write_message((message_stream*)handle->stream, &LOGGER(handle), TRAX_QUIT, arguments, tmp_properties);
+
+    if (result != TRAX_OK)
+        set_error(handle, "Unable to send message");
 
     list_destroy(&arguments);
     trax_properties_release(&tmp_properties);
 
-    return TRAX_OK;
+    return result;
 
 }
 
-- 
2.43.0


From f6c57fe6b306497557e2f1ec31b6ec91988511cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 018/107] fix: trax_properties_append keeps existing keys
 unless asked to overwrite them

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 4050b20..dd9978b 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -522,8 +522,8 @@ void channels_encode(int channels, char *key) {
 void copy_properties(const trax_properties* source, trax_properties* dest, int flags) {
 
     trax_enumerator f = (flags & COPY_ALL) ?
-     ((flags && COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
-     ((flags && COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
+     ((flags & COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
+     ((flags & COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
     
     trax_properties_enumerate(source, f, dest);
 
-- 
2.43.0


From fcf6be6438404df3ac095f74b451510a7d885452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 019/107] fix: a property value that is empty or out of range
 is not an integer, use the default

---
 src/trax.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index dd9978b..36310a0 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -4,6 +4,7 @@
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 
 #define _TRAX_BUILDING
 
@@ -2067,14 +2068,15 @@ int trax_properties_has(const trax_properties* properties, const char* key) {
 int trax_properties_get_int(const trax_properties* properties, const char* key, int def) {
 
     char* end;
-    long ret;
+    long ret = def;
     char* value = trax_properties_get(properties, key);
 
     if (value == NULL) return def;
 
     if (value[0] != '\0') {
-        ret = (int) strtod(value, &end);
-        ret = (*end == '\0' && end != value) ? ret : def;
+        double number = strtod(value, &end);
+        if (*end == '\0' && end != value && number > (double) INT_MIN - 1 && number < (double) INT_MAX + 1)
+            ret = (int) number;
     }
 
     free(value);
@@ -2086,7 +2088,7 @@ int trax_properties_get_int(const trax_properties* properties, const char* key,
 float trax_properties_get_float(const trax_properties* properties, const char* key, float def) {
 
     char* end;
-    float ret;
+    float ret = def;
     char* value = trax_properties_get(properties, key);
 
     if (value == NULL) return def;
-- 
2.43.0


From b934832b9b4c8976bc46d786937dc672a9eb5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 020/107] fix: appending a property map to itself is a no-op

---
 src/trax.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index 36310a0..98e193f 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2018,6 +2018,9 @@ trax_properties* trax_properties_copy(const trax_properties* original) {
 void trax_properties_append(const trax_properties* source, trax_properties* drain, int overwrite) {
 
     int flags = COPY_ALL;
+
+    if (source == drain) return;
+
     if (overwrite) flags |= COPY_OVERWRITE;
 
     copy_properties(source, drain, flags);
-- 
2.43.0


From 658ec4e7eea0d0b935bb04ce82b23f6de72daf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 021/107] fix: an object list can be appended to itself

---
 src/trax.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 98e193f..7ab7c55 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2185,17 +2185,18 @@ int trax_object_list_count(const trax_object_list* list) {
 
 int trax_object_list_append(trax_object_list* list, const trax_object_list* src) {
 
-    int i, o;
+    int i, o, n;
 
     assert(list && src);
 
     o = list->size;
-    list->size += src->size;
+    n = src->size;
+    list->size += n;
 
     list->regions = (trax_region**) realloc(list->regions, sizeof(trax_region*) * list->size);
     list->properties = (trax_properties**) realloc(list->properties, sizeof(trax_properties*) * list->size);
 
-    for (i = 0; i < src->size; i++) {
+    for (i = 0; i < n; i++) {
         list->regions[i + o] = trax_region_clone(src->regions[i]);
         list->properties[i + o] = trax_properties_create();
         copy_properties(src->properties[i], list->properties[i + o], COPY_ALL | COPY_OVERWRITE);
-- 
2.43.0


From ea86909ba635c648a2be02ca6e6193b8a83bd549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 022/107] fix: an object list slot can be set from itself or
 emptied

---
 src/region.c | 2 ++
 src/trax.c   | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index cae061b..2c0dfd8 100644
--- a/src/region.c
+++ b/src/region.c
@@ -714,6 +714,8 @@ region_container* region_convert(const region_container* region, region_type typ
 
 void region_release(region_container** region) {
 
+	if (!*region) return;
+
 	switch ((*region)->type) {
 	case RECTANGLE:
 		break;
diff --git a/src/trax.c b/src/trax.c
index 7ab7c55..9685719 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2158,11 +2158,16 @@ void trax_object_list_release(trax_object_list** list) {
 
 void trax_object_list_set(trax_object_list* list, int index, trax_region* region) {
 
+    trax_region* copy;
+
     if (index < 0 || index >= list->size) return;
 
+    // The region may be the one that is being replaced
+    copy = trax_region_clone(region);
+
     trax_region_release(&(list->regions[index]));
 
-    list->regions[index] = trax_region_clone(region);
+    list->regions[index] = copy;
 
 }
 
-- 
2.43.0


From 6b5d3a43bda5d0e7983138de95a1416a662276da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 023/107] fix: rows of a memory image are a whole row of pixels
 apart

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 9685719..727985e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1733,7 +1733,7 @@ char* trax_image_write_memory_row(trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[(size_t) depth * channels * image->width * row]);
 }
 
 const char* trax_image_get_memory_row(const trax_image* image, int row) {
@@ -1746,7 +1746,7 @@ const char* trax_image_get_memory_row(const trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[(size_t) depth * channels * image->width * row]);
 }
 
 const char* trax_image_get_buffer(const trax_image* image, int* length, int* format) {
-- 
2.43.0


From 2ce7b4a555d410351e644c4e1d2bdc6ea2a3aa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 024/107] fix: decoding a memory or buffer image stays within
 its memory and yields its exact length

---
 src/base64.c | 13 ++++++-------
 src/trax.c   | 24 +++++++++++++++---------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index b432bf3..8918c53 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -87,15 +87,14 @@ static const unsigned char pr2six[256] =
 
 int base64decodelen(const char *bufcoded) {
 
-    size_t len = strlen(bufcoded),
-        padding = 0;
+    // Has to agree with base64decode for any text
+    const unsigned char *bufin = (const unsigned char *) bufcoded;
+    int nprbytes;
 
-    if (bufcoded[len-1] == '=' && bufcoded[len-2] == '=') //last two chars are =
-        padding = 2;
-    else if (bufcoded[len-1] == '=') //last char is =
-        padding = 1;
+    while (pr2six[*(bufin++)] <= 63);
+    nprbytes = (bufin - (const unsigned char *) bufcoded) - 1;
 
-    return ((len*3)/4 - padding) + 1;
+    return ((nprbytes + 3) / 4) * 3 - ((4 - nprbytes) & 3) + 1;
 }
 
 int base64decode(unsigned char *bufplain, const char *bufcoded) {
diff --git a/src/trax.c b/src/trax.c
index 727985e..bdc3045 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -315,7 +315,9 @@ trax_image* image_decode(char* buffer) {
     if (strcmp(buffer, "file") == 0) {
         result = trax_image_create_path(buffer + (compare_prefix(resource, "//") ? 7 : 5));
     } else if (strcmp(buffer, "image") == 0) {
-        int outlen, width, height, depth, format, channels, allocated, verify;
+        int outlen, depth, format, channels;
+        long width, height;
+        size_t allocated;
         char* token;
 
         width = strtol(resource, &resource, 10);
@@ -334,19 +336,21 @@ trax_image* image_decode(char* buffer) {
                 (format == TRAX_IMAGE_MEMORY_GRAY8 ? 1 :
                  (format == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 0));
         channels = format == TRAX_IMAGE_MEMORY_RGB ? 3 : 1;
-        allocated =  (width * height * depth * channels);
 
-        if (width < 1 || height < 1 || outlen != allocated) return result;
+        if (format == TRAX_IMAGE_MEMORY_ILLEGAL) return result;
+        if (width < 1 || height < 1 || width > outlen || height > outlen) return result;
+
+        allocated = (size_t) width * height * depth * channels;
+
+        if (outlen != allocated) return result;
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_MEMORY;
         result->width = width;
         result->height = height;
         result->format = format;
-        result->data = (char*) malloc(sizeof(char) * allocated);
-        verify = base64decode((unsigned char*)result->data, resource);
-
-        assert(verify == allocated);
+        result->data = (char*) malloc(sizeof(char) * (allocated + 1)); // Decoder terminates its output
+        base64decode((unsigned char*)result->data, resource);
 
     } else if (strcmp(buffer, "data") == 0) {
         int format, outlen;
@@ -356,7 +360,9 @@ trax_image* image_decode(char* buffer) {
         resource = strntok(token, ';', 32);
         if (!resource) return NULL;
         format = decode_buffer_format(token);
-        outlen = base64decodelen(resource);
+        outlen = base64decodelen(resource) - 1;
+
+        if (format == TRAX_IMAGE_BUFFER_ILLEGAL || outlen < 1) return NULL;
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_BUFFER;
@@ -364,7 +370,7 @@ trax_image* image_decode(char* buffer) {
         result->height = 1;
         result->format = format;
 
-        result->data = (char*) malloc(sizeof(char) * (outlen));
+        result->data = (char*) malloc(sizeof(char) * (outlen + 1)); // Decoder terminates its output
         base64decode((unsigned char*)result->data, resource);
     } else {
         *(--resource) = ':'; // Restore the colon and use the buffer as URL
-- 
2.43.0


From e5dbdc26b9998b81f19b9c99c6e12720caaf1c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 025/107] fix: region text: reject malformed text instead of
 aborting, exact prefixes and integers, masks without foreground

---
 src/region.c | 57 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/region.c b/src/region.c
index 2c0dfd8..cc6304d 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1,6 +1,7 @@
 
 #include <stdio.h>
 #include <float.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <math.h>
@@ -51,7 +52,7 @@ int region_clear_flags(int mask) {
 
 }
 
-int __is_valid_sequence(float* sequence, int len) {
+int __is_valid_sequence(double* sequence, int len) {
 	int i;
 
 	for (i = 0; i < len; i++) {
@@ -246,13 +247,13 @@ const char* __parse_uri_prefix(const char* buffer, region_type* type) {
 		if ((buffer[i] >= 'a' && buffer[i] <= 'z') || buffer[i] == '+' || buffer[i] == '.' || buffer[i] == '-') continue;
 
 		if (buffer[i] == ':') {
-			if (strncmp(buffer, "rect", i - 1) == 0)
+			if (i == 4 && strncmp(buffer, "rect", i) == 0)
 				*type = RECTANGLE;
-			else if (strncmp(buffer, "poly", i - 1) == 0)
+			else if (i == 4 && strncmp(buffer, "poly", i) == 0)
 				*type = POLYGON;
-			else if (strncmp(buffer, "mask", i - 1) == 0)
+			else if (i == 4 && strncmp(buffer, "mask", i) == 0)
 				*type = MASK;
-			else if (strncmp(buffer, "special", i - 1) == 0)
+			else if (i == 7 && strncmp(buffer, "special", i) == 0)
 				*type = SPECIAL;
 			return &(buffer[i + 1]);
 		}
@@ -285,11 +286,12 @@ static inline const char* _str_find(const char* in, const char delimiter) {
 
 }
 
-int _parse_sequence(const char* buffer, float** data) {
+int _parse_sequence(const char* buffer, double** data) {
 
 	int i;
 
-	float* numbers = (float*) malloc(sizeof(float) * (strlen(buffer)));
+	// One number more than there are delimiters
+	double* numbers = (double*) malloc(sizeof(double) * (strlen(buffer) + 1));
 
 	const char* pch = buffer;
 	for (i = 0; ; i++) {
@@ -299,10 +301,10 @@ int _parse_sequence(const char* buffer, float** data) {
 			if (tolower(pch[0]) == 'n' && tolower(pch[1]) == 'a' && tolower(pch[2]) == 'n') {
 				numbers[i] = NAN;
 			} else {
-				numbers[i] = (float) atof(pch);
+				numbers[i] = atof(pch);
 			}
 #else
-			numbers[i] = (float) atof(pch);
+			numbers[i] = atof(pch);
 #endif
 		} else
 			break;
@@ -312,7 +314,7 @@ int _parse_sequence(const char* buffer, float** data) {
 
 	if (i > 0) {
 		int j;
-		*data = (float*) malloc(sizeof(float) * i);
+		*data = (double*) malloc(sizeof(double) * i);
 		for (j = 0; j < i; j++) { (*data)[j] = numbers[j]; }
 		free(numbers);
 	} else {
@@ -323,9 +325,15 @@ int _parse_sequence(const char* buffer, float** data) {
 	return i;
 }
 
+static int _fits_integer(double value) {
+
+	return value > (double) INT_MIN - 1 && value < (double) INT_MAX + 1;
+
+}
+
 int region_parse(const char* buffer, region_container** region) {
 
-	float* data = NULL;
+	double* data = NULL;
 	const char* strdata = NULL;
 	int num;
 
@@ -336,7 +344,7 @@ int region_parse(const char* buffer, region_container** region) {
 	(*region) = NULL;
 
 	if (!buffer || !buffer[0]) {
-		return 1;
+		return 0;
 	}
 
 	strdata = __parse_uri_prefix(buffer, &prefix_type);
@@ -348,7 +356,7 @@ int region_parse(const char* buffer, region_container** region) {
 	if (!__is_valid_sequence(data, num) || num == 0) {
 		// Preserve legacy support: if four values are given and the fourth one is a number
 		// then this number is taken as a code.
-		if (num == 4 && !isnan(data[3])) {
+		if (num == 4 && _fits_integer(data[3]) && (int) data[3] != INT_MIN) {
 			(*region) = region_create_special(-(int) data[3]);
 		} else {
 			(*region) = region_create_special(TRAX_DEFAULT_CODE);
@@ -368,7 +376,7 @@ int region_parse(const char* buffer, region_container** region) {
 
 	switch (prefix_type) {
 	case SPECIAL: {
-		assert(num == 1);
+		if (num != 1 || !_fits_integer(data[0])) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = SPECIAL;
 		(*region)->data.special = (int) data[0];
@@ -377,7 +385,7 @@ int region_parse(const char* buffer, region_container** region) {
 
 	}
 	case RECTANGLE: {
-		assert(num == 4);
+		if (num != 4) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = RECTANGLE;
 
@@ -393,7 +401,7 @@ int region_parse(const char* buffer, region_container** region) {
 	case POLYGON: {
 		int j;
 
-		assert(num >= 6 && num % 2 == 0);
+		if (num < 6 || num % 2 != 0) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = POLYGON;
@@ -416,7 +424,16 @@ int region_parse(const char* buffer, region_container** region) {
 		int position, length;
 		char value;
 
-		assert(num > 4);
+		// A mask without foreground has no runs
+		if (num < 4) break;
+
+		for (i = 0; i < num; i++) {
+			if (!_fits_integer(data[i]) || (i > 1 && data[i] < 0)) break;
+		}
+
+		if (i < num) break;
+
+		if ((int) data[2] < 1 || (int) data[3] < 1 || (int) data[2] > INT_MAX / (int) data[3]) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = MASK;
@@ -429,6 +446,12 @@ int region_parse(const char* buffer, region_container** region) {
 		length = (*region)->data.mask.width * (*region)->data.mask.height;
 		(*region)->data.mask.data = (char*) malloc(sizeof(char) * length);
 
+		if (!(*region)->data.mask.data) {
+			free(*region);
+			(*region) = NULL;
+			break;
+		}
+
 		value = 0;
 		position = 0;
 
-- 
2.43.0


From 1c02493671834112ea9d25c19c331a419e46bec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 026/107] fix: points with negative coordinates are looked up
 in the right mask pixel

---
 src/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index cc6304d..daadf84 100644
--- a/src/region.c
+++ b/src/region.c
@@ -842,7 +842,7 @@ int point_in_mask(const region_mask* mask, float x, float y) {
 	if (x < mask->x || y < mask->y || x >= mask->x + mask->width || y >= mask->y + mask->height)
 		return 0;
 
-	return mask->data[((int)x - mask->x) + ((int)y - mask->y) * mask->width] != 0;
+	return mask->data[((int)floor(x) - mask->x) + ((int)floor(y) - mask->y) * mask->width] != 0;
 }
 
 
-- 
2.43.0


From cc5a7d4ddb5cb4d59c7f59cfcdef882b28a3fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 027/107] fix: a polygon at negative coordinates converts to
 its tight rectangle

---
 src/region.c | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/region.c b/src/region.c
index daadf84..ed8d147 100644
--- a/src/region.c
+++ b/src/region.c
@@ -574,23 +574,12 @@ region_container* region_convert(const region_container* region, region_type typ
 			break;
 		case POLYGON: {
 
-			float top = FLT_MAX;
-			float bottom = FLT_MIN;
-			float left = FLT_MAX;
-			float right = FLT_MIN;
-			int i;
-
-			for (i = 0; i < region->data.polygon.count; i++) {
-				top = MIN(top, region->data.polygon.y[i]);
-				bottom = MAX(bottom, region->data.polygon.y[i]);
-				left = MIN(left, region->data.polygon.x[i]);
-				right = MAX(right, region->data.polygon.x[i]);
-			}
+			region_bounds b = compute_bounds_polygon(&(region->data.polygon));
 
-			reg->data.rectangle.x = left;
-			reg->data.rectangle.y = top;
-			reg->data.rectangle.width = right - left;
-			reg->data.rectangle.height = bottom - top;
+			reg->data.rectangle.x = b.left;
+			reg->data.rectangle.y = b.top;
+			reg->data.rectangle.width = b.right - b.left;
+			reg->data.rectangle.height = b.bottom - b.top;
 			break;
 			}
 		case MASK: {
-- 
2.43.0


From 3d14166256c095098b2af793ae5fc414e59136ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 028/107] fix: a polygon converts to a mask at its own position
 with all of its pixels

---
 src/region.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/region.c b/src/region.c
index ed8d147..ae98ee9 100644
--- a/src/region.c
+++ b/src/region.c
@@ -559,6 +559,27 @@ void region_print(FILE* out, region_container* region) {
 
 }
 
+// Creates a mask for the given inclusive pixel limits, returns NULL if such mask is not possible
+static region_container* _create_mask_limits(double left, double top, double right, double bottom) {
+
+	double width = right - left + 1;
+	double height = bottom - top + 1;
+	region_container* reg;
+
+	if (!_fits_integer(left) || !_fits_integer(top) || !_fits_integer(right) || !_fits_integer(bottom))
+		return NULL;
+
+	if (width < 1 || height < 1 || width * height > INT_MAX)
+		return NULL;
+
+	reg = region_create_mask((int) left, (int) top, (int) width, (int) height);
+
+	if (!reg->data.mask.data) region_release(&reg);
+
+	return reg;
+
+}
+
 region_container* region_convert(const region_container* region, region_type type) {
 
 	region_container* reg = NULL;
@@ -682,14 +703,14 @@ region_container* region_convert(const region_container* region, region_type typ
 		}
 		case POLYGON: {
 
-			reg = (region_container*) malloc(sizeof(region_container));
-			reg->type = type;
+			region_bounds b = bounds_round(compute_bounds_polygon(&(region->data.polygon)));
 
-			region_bounds b = compute_bounds_polygon(&(region->data.polygon));
+			reg = _create_mask_limits(b.left, b.top, b.right, b.bottom);
 
-			reg = region_create_mask(b.left, b.right, b.right - b.left, b.bottom - b.top);
+			if (!reg) break;
 
-			region_get_mask_offset(region, reg->data.mask.data, b.left, b.right, b.right - b.left, b.bottom - b.top);
+			region_get_mask_offset(region, reg->data.mask.data, reg->data.mask.x, reg->data.mask.y,
+				reg->data.mask.width, reg->data.mask.height);
 
 			break;
 		}
-- 
2.43.0


From d9e488797dd1bc6597d2a9df48ea66cbc362b06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 029/107] fix: a rectangle of any size or position converts to
 the mask of its pixels

---
 src/region.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/region.c b/src/region.c
index ae98ee9..740eb09 100644
--- a/src/region.c
+++ b/src/region.c
@@ -696,8 +696,16 @@ region_container* region_convert(const region_container* region, region_type typ
 		switch (region->type) {
 		case RECTANGLE: {
 
-			reg = region_create_mask((int)region->data.rectangle.x, (int)region->data.rectangle.y, (int)region->data.rectangle.width, (int)region->data.rectangle.height);
-			memset(reg->data.mask.data, 255, reg->data.mask.width * reg->data.mask.height);
+			// The same pixels as when the rectangle is rasterized, none if it is empty
+			const region_rectangle* r = &(region->data.rectangle);
+			double left = floor(r->x + 0.5), top = floor(r->y + 0.5);
+			double right = floor((double) r->x + r->width - 0.5), bottom = floor((double) r->y + r->height - 0.5);
+
+			reg = _create_mask_limits(left, top, MAX(right, left), MAX(bottom, top));
+
+			if (!reg) break;
+
+			memset(reg->data.mask.data, (r->width > 0 && r->height > 0) ? 255 : 0, (size_t) reg->data.mask.width * reg->data.mask.height);
 
 			break;
 		}
-- 
2.43.0


From 1dcc70ab874dccf88cade61998b4f20ddc9a8514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 030/107] fix: a mask without foreground converts to an empty
 box at its position

---
 src/region.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/region.c b/src/region.c
index 740eb09..684c97c 100644
--- a/src/region.c
+++ b/src/region.c
@@ -606,6 +606,15 @@ region_container* region_convert(const region_container* region, region_type typ
 		case MASK: {
 			region_bounds b = compute_bounds_mask(&(region->data.mask));
 
+			if (b.right < b.left) {
+				// No foreground
+				reg->data.rectangle.x = region->data.mask.x;
+				reg->data.rectangle.y = region->data.mask.y;
+				reg->data.rectangle.width = 0;
+				reg->data.rectangle.height = 0;
+				break;
+			}
+
 			reg->data.rectangle.x = b.left;
 			reg->data.rectangle.y = b.top;
 			reg->data.rectangle.width = b.right - b.left + 1;
@@ -666,6 +675,11 @@ region_container* region_convert(const region_container* region, region_type typ
 			region_bounds b = compute_bounds_mask(&(region->data.mask));
 			reg->data.polygon = allocate_polygon(4);
 
+			if (b.right < b.left) {
+				// No foreground
+				b = region_create_bounds(region->data.mask.x, region->data.mask.y, region->data.mask.x, region->data.mask.y);
+			}
+
 			reg->data.polygon.x[0] = b.left;
 			reg->data.polygon.x[1] = b.right;
 			reg->data.polygon.x[2] = b.right;
-- 
2.43.0


From e74d2643c9d48ade2bc3dfd86789e56700bdc2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 031/107] fix: overlap of one pixel wide, clipped away, empty,
 special and oversized regions is well defined

---
 src/region.c | 97 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 73 insertions(+), 24 deletions(-)

diff --git a/src/region.c b/src/region.c
index 684c97c..1b0b98e 100644
--- a/src/region.c
+++ b/src/region.c
@@ -118,8 +118,9 @@ region_polygon round_polygon(const region_polygon polygon) {
 	region_polygon clone = clone_polygon(polygon);
 
 	for (i = 0; i < clone.count; i++) {
-		clone.x[i] = round(clone.x[i]);
-		clone.y[i] = round(clone.y[i]);
+		// Halves go the same way on both sides of the origin
+		clone.x[i] = floor(clone.x[i] + 0.5);
+		clone.y[i] = floor(clone.y[i] + 0.5);
 	}
 
 	return clone;
@@ -1159,8 +1160,8 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 
 	int x, y;
 	int width, height;
-	region_bounds b1, b2;
-	double a1, a2;
+	region_bounds b1, b2, bi;
+	double a1, a2, w, h, e;
 	int vol_1 = 0;
 	int vol_2 = 0;
 	int mask_1 = 0;
@@ -1174,6 +1175,8 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 	overlap.only1 = 0;
 	overlap.only2 = 0;
 
+	if (ra->type == SPECIAL || rb->type == SPECIAL || ra->type == EMPTY || rb->type == EMPTY)
+		return overlap;
 
 	if (__flags & REGION_LEGACY_RASTERIZATION) {
 		b1 = bounds_intersection(region_compute_bounds(ra), bounds);
@@ -1183,42 +1186,67 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 		b2 = bounds_intersection(bounds_round(region_compute_bounds(rb)), bounds);
 	}
 
-	x = MIN(b1.left, b2.left);
-	y = MIN(b1.top, b2.top);
+	// The right and bottom edge of the bounding boxes are pixels of the region as well.
+	e = (__flags & REGION_LEGACY_RASTERIZATION) ? 0 : 1;
 
-	width = (int) (MAX(b1.right, b2.right) - x) + 1;
-	height = (int) (MAX(b1.bottom, b2.bottom) - y) + 1;
+	if (e) {
+		// Only the pixels that are entirely within the bounds
+		b1 = region_create_bounds(ceil(b1.left), ceil(b1.top), floor(b1.right), floor(b1.bottom));
+		b2 = region_create_bounds(ceil(b2.left), ceil(b2.top), floor(b2.right), floor(b2.bottom));
+	}
+
+	// Nothing of the region remains within the bounds
+	if (!(b1.left <= b1.right && b1.top <= b1.bottom && b2.left <= b2.right && b2.top <= b2.bottom))
+		return overlap;
+
+	w = floor((double) MAX(b1.right, b2.right) - floor(MIN(b1.left, b2.left))) + 1;
+	h = floor((double) MAX(b1.bottom, b2.bottom) - floor(MIN(b1.top, b2.top))) + 1;
 
 	// Fixing crashes due to overflowed regions, a simple check if the ratio
 	// between the two bounding boxes is simply too big and the overlap would
 	// be 0 anyway.
 	
-	a1 = (b1.right - b1.left) * (b1.bottom - b1.top);
-	a2 = (b2.right - b2.left) * (b2.bottom - b2.top);
+	a1 = ((double) b1.right - b1.left + e) * ((double) b1.bottom - b1.top + e);
+	a2 = ((double) b2.right - b2.left + e) * ((double) b2.bottom - b2.top + e);
 
-	if (a1 / a2 < 1e-10 || a2 / a1 < 1e-10 || width < 1 || height < 1) 
+	if (a1 / a2 < 1e-10 || a2 / a1 < 1e-10) 
 		return overlap;
 
-	if (bounds_overlap(b1, b2) == 0) {
+	bi = bounds_intersection(b1, b2);
 
-		int i;
+	if (!(bi.right - bi.left + e > 0 && bi.bottom - bi.top + e > 0)) {
+
+		int i, w1, h1, w2, h2;
+
+		if (!_fits_integer(a1) || !_fits_integer(a2) || !_fits_integer(b1.left) || !_fits_integer(b1.top)
+			|| !_fits_integer(b2.left) || !_fits_integer(b2.top))
+			return overlap;
 
-		ta = region_create_mask(b1.left, b1.top, b1.right - b1.left + 1, b1.bottom - b1.top + 1);
-		tb = region_create_mask(b2.left, b2.top, b2.right - b2.left + 1, b2.bottom - b2.top + 1);
+		w1 = (int) ((double) b1.right - b1.left + 1);
+		h1 = (int) ((double) b1.bottom - b1.top + 1);
+		w2 = (int) ((double) b2.right - b2.left + 1);
+		h2 = (int) ((double) b2.bottom - b2.top + 1);
 
-		region_get_mask_offset(ra, ta->data.mask.data, b1.left, b1.top, b1.right - b1.left + 1, b1.bottom - b1.top + 1);
-		region_get_mask_offset(rb, tb->data.mask.data, b2.left, b2.top, b2.right - b2.left + 1, b2.bottom - b2.top + 1);
+		ta = region_create_mask(b1.left, b1.top, w1, h1);
+		tb = region_create_mask(b2.left, b2.top, w2, h2);
 
-		for (i = 0; i < (b1.right - b1.left + 1) * (b1.bottom - b1.top + 1); i++) {
+		if (!ta->data.mask.data || !tb->data.mask.data) goto end;
+
+		region_get_mask_offset(ra, ta->data.mask.data, b1.left, b1.top, w1, h1);
+		region_get_mask_offset(rb, tb->data.mask.data, b2.left, b2.top, w2, h2);
+
+		for (i = 0; i < w1 * h1; i++) {
 			if (ta->data.mask.data[i]) vol_1++;
 		}
 
-		for (i = 0; i < (b2.right - b2.left + 1) * (b2.bottom - b2.top + 1); i++) {
+		for (i = 0; i < w2 * h2; i++) {
 			if (tb->data.mask.data[i]) vol_2++;
 		}
 
-		overlap.only1 = (float) vol_1 / (float) (vol_1 + vol_2);
-		overlap.only2 = (float) vol_2 / (float) (vol_1 + vol_2);
+		if (vol_1 + vol_2 > 0) {
+			overlap.only1 = (float) vol_1 / (float) (vol_1 + vol_2);
+			overlap.only2 = (float) vol_2 / (float) (vol_1 + vol_2);
+		}
 
 	} else {
 
@@ -1226,9 +1254,19 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 		char* mask1;
 		char* mask2;
 
+		if (!_fits_integer(w * h) || !_fits_integer(MIN(b1.left, b2.left)) || !_fits_integer(MIN(b1.top, b2.top)))
+			return overlap;
+
+		x = floor(MIN(b1.left, b2.left));
+		y = floor(MIN(b1.top, b2.top));
+		width = (int) w;
+		height = (int) h;
+
 		ta = region_create_mask(x, y, width, height);
 		tb = region_create_mask(x, y, width, height);
 
+		if (!ta->data.mask.data || !tb->data.mask.data) goto end;
+
 		mask1 = ta->data.mask.data;
 		mask2 = tb->data.mask.data;
 
@@ -1244,12 +1282,16 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 			else if (mask2[i]) mask_2++;
 		}
 
-		overlap.only1 = (float) mask_1 / (float) (mask_1 + mask_2 + mask_intersect);
-		overlap.only2 = (float) mask_2 / (float) (mask_1 + mask_2 + mask_intersect);
-		overlap.overlap = mask_intersect / (float) (mask_1 + mask_2 + mask_intersect);
+		if (mask_1 + mask_2 + mask_intersect > 0) {
+			overlap.only1 = (float) mask_1 / (float) (mask_1 + mask_2 + mask_intersect);
+			overlap.only2 = (float) mask_2 / (float) (mask_1 + mask_2 + mask_intersect);
+			overlap.overlap = mask_intersect / (float) (mask_1 + mask_2 + mask_intersect);
+		}
 
 	}
 
+end:
+
 	if (ta) region_release(&ta);
 	if (tb) region_release(&tb);
 
@@ -1313,6 +1355,13 @@ void region_get_mask_offset(const region_container* r, char* mask, int x, int y,
 
 		if (r->type == RECTANGLE) {
 			region_container* t = region_convert(r, POLYGON);
+			if (!(__flags & REGION_LEGACY_RASTERIZATION) && (floor(t->data.polygon.x[1] + 0.5) < floor(t->data.polygon.x[0] + 0.5)
+				|| floor(t->data.polygon.y[2] + 0.5) < floor(t->data.polygon.y[0] + 0.5))) {
+				// The rectangle is too small to contain a pixel
+				memset(mask, 0, width * height * sizeof(char));
+				region_release(&t);
+				return;
+			}
 			p = offset_polygon(t->data.polygon, -x, -y);
 			region_release(&t);
 		} else {
-- 
2.43.0


From 53c64f754bfa6c5a152fae6f09a0cc5e00c1f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 032/107] fix: concave, self-intersecting and degenerate
 polygons rasterize to all of their pixels

---
 src/region.c | 103 ++++++++++++++++++++++++++-------------------------
 1 file changed, 53 insertions(+), 50 deletions(-)

diff --git a/src/region.c b/src/region.c
index 1b0b98e..a56dc93 100644
--- a/src/region.c
+++ b/src/region.c
@@ -927,6 +927,19 @@ region_bounds region_compute_bounds(const region_container* region) {
 
 }
 
+static void fill_span(char* row, int width, double left, double right) {
+
+	int i, last;
+
+	if (!(right >= 0) || !(left < width)) return;
+
+	last = right < width - 1 ? (int) right : width - 1;
+
+	for (i = left > 0 ? (int) left : 0; i <= last; i++)
+		row[i] = 1;
+
+}
+
 int rasterize_polygon(const region_polygon polygon_input, char* mask, int width, int height) {
 
 	int nodes, pixelY, i, j, swap;
@@ -984,68 +997,58 @@ int rasterize_polygon(const region_polygon polygon_input, char* mask, int width,
 
 	} else {
 
+		double* crossX = (double*) malloc(sizeof(double) * (polygon.count + 1));
+		char* scratch = (char*) malloc(sizeof(char) * (width > 0 ? width : 1));
+
 		polygon = round_polygon(polygon_input);
 
 		/*  Loop through the rows of the image. */
 		for (pixelY = 0; pixelY < height; pixelY++) {
 
-			/*  Build a list of nodes. */
-			nodes = 0;
-			j = polygon.count - 1;
-
-			for (i = 0; i < polygon.count; i++) {
-				if ((((int)polygon.y[i] <= pixelY) && ((int)polygon.y[j] > pixelY)) ||
-				        (((int)polygon.y[j] <= pixelY) && ((int)polygon.y[i] > pixelY)) ||
-				        (((int)polygon.y[i] < pixelY) && ((int)polygon.y[j] >= pixelY)) ||
-				        (((int)polygon.y[j] < pixelY) && ((int)polygon.y[i] >= pixelY)) ||
-				        (((int)polygon.y[i] == (int)polygon.y[j]) && ((int)polygon.y[i] == pixelY))) {
-					double r = (polygon.y[j] - polygon.y[i]);
-					double k = (polygon.x[j] - polygon.x[i]);
-					if (r != 0) {
-						nodeX[nodes++] = (int) ((double) polygon.x[i] + (double) (pixelY - polygon.y[i]) / r * k);
-					} else {
-						nodeX[nodes++] = (double) polygon.x[i];
+			int pass;
+			char* row = mask ? mask + (size_t) pixelY * width : scratch;
+
+			if (!mask) memset(scratch, 0, width * sizeof(char));
+
+			// The row is touched by the part of the polygon just below it (first pass), by
+			// the part just above it (second pass) and by the horizontal edges.
+			for (pass = 0; pass < 2; pass++) {
+
+				nodes = 0;
+				j = polygon.count - 1;
+
+				for (i = 0; i < polygon.count; i++) {
+					double low = MIN(polygon.y[i], polygon.y[j]);
+					double high = MAX(polygon.y[i], polygon.y[j]);
+					if (pass ? (low < pixelY && pixelY <= high) : (low <= pixelY && pixelY < high)) {
+						double r = (double) polygon.y[j] - (double) polygon.y[i];
+						double k = (double) polygon.x[j] - (double) polygon.x[i];
+						double n = (double) polygon.x[i] + (pixelY - (double) polygon.y[i]) * k / r;
+						// Keep the list of nodes sorted
+						int p = nodes++;
+						while (p > 0 && crossX[p - 1] > n) {
+							crossX[p] = crossX[p - 1];
+							p--;
+						}
+						crossX[p] = n;
 					}
+					if (!pass && low == high && low == pixelY)
+						fill_span(row, width, MIN(polygon.x[i], polygon.x[j]), MAX(polygon.x[i], polygon.x[j]));
+					j = i;
 				}
-				j = i;
-			}
-			/* Sort the nodes, via a simple “Bubble” sort. */
-			i = 0;
-			while (i < nodes - 1) {
-				if (nodeX[i] > nodeX[i + 1]) {
-					swap = nodeX[i];
-					nodeX[i] = nodeX[i + 1];
-					nodeX[i + 1] = swap;
-					if (i) i--;
-				} else {
-					i++;
-				}
-			}
 
-			/*  Fill the pixels between node pairs. */
-			i = 0;
-			while (i < nodes - 1) {
-				if (nodeX[i] >= width) break;
-				// If a point is in the line then we get two identical values
-				// Ignore the first, except when it is the last point in vector
-				if (nodeX[i] == nodeX[i + 1] && i < nodes - 2) {
-					i++;
-					continue;
-				}
-
-				if (nodeX[i + 1] >= 0) {
-					if (nodeX[i] < 0) nodeX[i] = 0;
-					if (nodeX[i + 1] >= width) nodeX[i + 1] = width - 1;
-					for (j = nodeX[i]; j <= nodeX[i + 1]; j++) {
-						if (mask) mask[pixelY * width + j] = 1;
-						sum++;
-					}
-				}
-				i += 2;
+				/*  Fill the pixels between node pairs. */
+				for (i = 0; i < nodes - 1; i += 2)
+					fill_span(row, width, crossX[i], crossX[i + 1]);
+			}
 
+			for (i = 0; i < width; i++) {
+				if (row[i]) sum++;
 			}
 		}
 
+		free(crossX);
+		free(scratch);
 		free_polygon(&polygon);
 
 	}
-- 
2.43.0


From d00e8f427cc67d89543b9300e935a5b366630f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 033/107] fix: polygon point accessors check the index

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index bdc3045..8901013 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1904,7 +1904,7 @@ void trax_region_set_polygon_point(trax_region* region, int index, float x, floa
 
     assert(REGION(region)->type == POLYGON);
 
-    assert(index >= 0 || index < (REGION(region)->data.polygon.count));
+    assert(index >= 0 && index < (REGION(region)->data.polygon.count));
 
     REGION(region)->data.polygon.x[index] = x;
     REGION(region)->data.polygon.y[index] = y;
@@ -1914,7 +1914,7 @@ void trax_region_get_polygon_point(const trax_region* region, int index, float*
 
     assert(REGION(region)->type == POLYGON);
 
-    assert (index >= 0 || index < (REGION(region)->data.polygon.count));
+    assert (index >= 0 && index < (REGION(region)->data.polygon.count));
 
     if (x) *x = REGION(region)->data.polygon.x[index];
     if (y) *y = REGION(region)->data.polygon.y[index];
-- 
2.43.0


From cf4c089b5c0c3682697f17624543d44fe515b754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 034/107] fix: points are looked up in masks at any position,
 undefined points are outside

---
 src/region.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/region.c b/src/region.c
index a56dc93..ee0d499 100644
--- a/src/region.c
+++ b/src/region.c
@@ -872,10 +872,14 @@ int point_in_polygon(const region_polygon* polygon, float x, float y) {
 
 int point_in_mask(const region_mask* mask, float x, float y) {
 	
-	if (x < mask->x || y < mask->y || x >= mask->x + mask->width || y >= mask->y + mask->height)
+	// Distance to the corner of the mask, exact for all numbers
+	double px = floor(x) - mask->x;
+	double py = floor(y) - mask->y;
+
+	if (!(px >= 0 && py >= 0 && px < mask->width && py < mask->height))
 		return 0;
 
-	return mask->data[((int)floor(x) - mask->x) + ((int)floor(y) - mask->y) * mask->width] != 0;
+	return mask->data[(size_t) px + (size_t) py * mask->width] != 0;
 }
 
 
-- 
2.43.0


From 34ab416fee17f42b35359bb64d8930c7f7a926f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 035/107] fix: the error text of a refused call was formatted
 from a va_list passed to a variadic function

---
 src/trax.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 8901013..8a20709 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -547,12 +547,11 @@ void clear_error(trax_handle* handle) {
 
 void set_error(trax_handle* handle, const char *format, ...) {
 	va_list args;
-
-    string_buffer* buffer = buffer_create(100);
+    char message[4 * BUFFER_LENGTH];
 
 	va_start(args, format);
-	
-    buffer_append(buffer, format, args);
+
+    vsnprintf(message, sizeof(message), format, args);
 
 	va_end(args);
 
@@ -560,9 +559,7 @@ void set_error(trax_handle* handle, const char *format, ...) {
         free(handle->error);
     }
 
-    handle->error = buffer_extract(buffer);
-
-    buffer_destroy(&buffer);
+    handle->error = strdup(message);
 
 }
 
-- 
2.43.0


From 532f77b650ca648ca444dfa35dcece1bf15bc0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 036/107] fix: client initialize and frame calls that were
 refused had already sent messages or counted objects

---
 src/trax.c | 255 +++++++++++++++++++++++++++--------------------------
 1 file changed, 131 insertions(+), 124 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 8a20709..b230f16 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -862,110 +862,131 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
 
 }
 
-int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
+// Encodes images for all channels of the tracker, NULL if this is not possible
+static string_list* client_encode_images(trax_handle* client, trax_image_list* images) {
 
-    char* data = NULL;
-    trax_region* region;
-    string_list* arguments;
-    int i, n;
+    int i;
+    string_list* arguments = list_create(TRAX_CHANNELS + 1);
 
-    VALIDATE_CLIENT_HANDLE(client);
+    for (i = 0; i < TRAX_CHANNELS; i++) {
+        char* data;
 
-    clear_error(client);
+        if (!TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i))) continue;
 
-    if (!HANDLE_ALIVE(client)) {
-        set_error(client, "Client not alive");
-        return TRAX_ERROR;
+        if (!images || !images->images[i]) {
+            set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
+            list_destroy(&arguments);
+            return NULL;
+        }
+
+        data = image_encode(images->images[i]);
+        list_append_direct(arguments, data);
     }
 
-    assert(images && objects);
+    return arguments;
+}
 
-    n = trax_object_list_count(objects);
+// Encodes region in a format that is supported by the tracker, NULL if this is not possible
+static char* client_encode_region(trax_handle* client, trax_region* region) {
 
-    if (n < 1) {
-        set_error(client, "At least one object required");
-        return TRAX_ERROR;
-    }
+    char* data = NULL;
 
-    if (!IS_MULTI_OBJECT(client) && n > 1) {
-        set_error(client, "Too many objects given");
-        return TRAX_ERROR;
-    }
+    if (region && REGION_TYPE(region) != TRAX_REGION_SPECIAL) {
 
-    if (IS_VERSION_4(client)) {
-        if (client->objects > 0) {
-            // Reset object count with an empty initialize message
-            if (write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, NULL, NULL) != TRAX_OK) {
-                set_error(client, "Unable to send message");
-                return TRAX_ERROR;
-            }
-            client->objects = 0;
-        }
-        return trax_client_frame(client, images, objects, properties);
-    }
+        if (!TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
 
-    // Legacy single target mode from now on.
+            trax_region* converted = region_autoconvert(region, client->metadata->format_region);
 
-    region = trax_object_list_get(objects, 0);
+            data = region_string((region_container *)converted);
 
-    assert(REGION_TYPE(region) != SPECIAL);
+            if (converted) trax_region_release(&converted);
 
-    // TODO: verify server version?
+        } else data = region_string((region_container *)region);
 
-    arguments = list_create(1);
+    }
 
-    for (i = 0; i < TRAX_CHANNELS; i++) {
-        if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i))) {
+    if (!data) set_error(client, "Region cannot be represented in a supported format");
 
-            if (!images->images[i]) {
-                set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
-                goto failure;
-            }
-            char* buffer = image_encode(images->images[i]);
-            list_append_direct(arguments, buffer);
+    return data;
+}
 
-        }
+static int client_send(trax_handle* client, int type, string_list* arguments, trax_properties* properties) {
+
+    if (write_message((message_stream*)client->stream, &LOGGER(client), type, arguments, properties) != TRAX_OK) {
+        set_error(client, "Unable to send message");
+        return TRAX_ERROR;
     }
 
-    if (!TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
+    return TRAX_OK;
+}
 
-        trax_region* converted = region_autoconvert(region, client->metadata->format_region);
+// Sends a frame with optional new objects. Nothing is sent until all arguments are verified and encoded.
+static int client_frame(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties, int reset) {
 
-        assert(converted);
+    int i;
+    int result = TRAX_ERROR;
+    int n = (objects) ? trax_object_list_count(objects) : 0;
+    int tracked = reset ? 0 : client->objects;
+    string_list* frame = NULL;
+    string_list* regions = NULL;
 
-        data = region_string((region_container *)converted);
+    if (tracked + n > 1 && !IS_MULTI_OBJECT(client)) {
+        set_error(client, "Invalid mode");
+        return TRAX_ERROR;
+    }
 
-        trax_region_release(&converted);
+    if (tracked + n < 1) {
+        set_error(client, "No object to track");
+        return TRAX_ERROR;
+    }
+
+    frame = client_encode_images(client, images);
 
-    } else data = region_string((region_container *)region);
+    if (!frame) return TRAX_ERROR;
 
-    if (data) {
-        list_append(arguments, data);
-        free(data);
+    regions = list_create(n + 1);
+
+    for (i = 0; i < n; i++) {
+        char* data = client_encode_region(client, trax_object_list_get(objects, i));
+        if (!data) goto end;
+        list_append_direct(regions, data);
     }
 
-    if (write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, properties) != TRAX_OK) {
-        set_error(client, "Unable to send message");
-        goto failure;
+    if (reset && client->objects > 0) {
+        // Reset object count with an empty initialize message
+        if (client_send(client, TRAX_INITIALIZE, NULL, NULL) != TRAX_OK) goto end;
+        client->objects = 0;
     }
 
-    list_destroy(&arguments);
+    for (i = 0; i < n; i++) {
+        int status;
+        string_list* arguments = list_create(1);
 
-    client->objects = 1;
+        list_append(arguments, regions->buffer[i]);
+        status = client_send(client, TRAX_INITIALIZE, arguments, trax_object_list_properties(objects, i));
+        list_destroy(&arguments);
 
-    return TRAX_OK;
+        if (status != TRAX_OK) goto end;
+    }
 
-failure:
+    client->objects += n;
 
-    list_destroy(&arguments);
+    result = client_send(client, TRAX_FRAME, frame, properties);
+
+end:
 
-    return TRAX_ERROR;
+    list_destroy(&frame);
+    list_destroy(&regions);
 
+    return result;
 }
 
-int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
+int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
+
+    char* data = NULL;
+    string_list* arguments;
+    int n;
 
-    int i;
     VALIDATE_CLIENT_HANDLE(client);
 
     clear_error(client);
@@ -975,85 +996,71 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
         return TRAX_ERROR;
     }
 
-    if (IS_VERSION_4(client)) {
+    assert(images && objects);
 
-        int n = (objects) ? trax_object_list_count(objects) : 0;
+    n = trax_object_list_count(objects);
 
-        if (client->objects + n > 1 && !IS_MULTI_OBJECT(client)) {
-            set_error(client, "Invalid mode");
-            return TRAX_ERROR;
-        }
+    if (n < 1) {
+        set_error(client, "At least one object required");
+        return TRAX_ERROR;
+    }
 
-        for (i = 0; i < n; i++) {
-            char* data = NULL;
-            string_list* arguments;
-            trax_region* region = trax_object_list_get(objects, i);
+    if (!IS_MULTI_OBJECT(client) && n > 1) {
+        set_error(client, "Too many objects given");
+        return TRAX_ERROR;
+    }
 
-            arguments = list_create(1);
+    if (IS_VERSION_4(client))
+        return client_frame(client, images, objects, properties, 1);
 
-            if (!TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
+    // Legacy single target mode from now on.
 
-                    trax_region* converted = region_autoconvert(region, client->metadata->format_region);
-                    assert(converted);
-                    data = region_string((region_container *)converted);
-                    trax_region_release(&converted);
+    // TODO: verify server version?
 
-            } else data = region_string((region_container *)region);
+    arguments = client_encode_images(client, images);
 
-            if (data) {
-                list_append(arguments, data);
-                free(data);
-            }
+    if (!arguments) return TRAX_ERROR;
 
-            if (write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, trax_object_list_properties(objects, i)) != TRAX_OK) {
-                set_error(client, "Unable to send message");
-                list_destroy(&arguments);
-                return TRAX_ERROR;
-            }
+    data = client_encode_region(client, trax_object_list_get(objects, 0));
 
-            list_destroy(&arguments);
+    if (!data) {
+        list_destroy(&arguments);
+        return TRAX_ERROR;
+    }
 
-        }
-        
-        client->objects += n;
-        
-    } else {
+    list_append_direct(arguments, data);
 
-        int n = (objects) ? trax_object_list_count(objects) : 0;
+    if (client_send(client, TRAX_INITIALIZE, arguments, properties) != TRAX_OK) {
+        list_destroy(&arguments);
+        return TRAX_ERROR;
+    }
 
-        if (n > 0) {
-            set_error(client, "Unable to add new objects");
-            return TRAX_ERROR;
-        }
+    list_destroy(&arguments);
 
-    }
+    client->objects = 1;
 
-    {
-        string_list* arguments;
-        arguments = list_create(1);
+    return TRAX_OK;
 
-        for (i = 0; i < TRAX_CHANNELS; i++) {
-            if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i))) {
-                if (!images->images[i]) {
-                    set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
-                    list_destroy(&arguments);
-                    return TRAX_ERROR;
-                }
-                char* buffer = image_encode(images->images[i]);
-                list_append_direct(arguments, buffer);
-            } 
-        }
+}
 
-        if (write_message((message_stream*)client->stream, &LOGGER(client), TRAX_FRAME, arguments, properties) != TRAX_OK) {
-            set_error(client, "Unable to send message");
-            list_destroy(&arguments);
-            return TRAX_ERROR;
-        }
-        list_destroy(&arguments);
+int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
 
-        return TRAX_OK;
+    VALIDATE_CLIENT_HANDLE(client);
+
+    clear_error(client);
+
+    if (!HANDLE_ALIVE(client)) {
+        set_error(client, "Client not alive");
+        return TRAX_ERROR;
     }
 
+    if (!IS_VERSION_4(client) && objects && trax_object_list_count(objects) > 0) {
+        set_error(client, "Unable to add new objects");
+        return TRAX_ERROR;
+    }
+
+    return client_frame(client, images, objects, properties, 0);
+
 }
 
 trax_handle* trax_server_setup_v(trax_metadata *metadata, const trax_logging log, int version) {
-- 
2.43.0


From 6f3293db7e3a77333bba7f0381c8eaf7dd30e7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 037/107] fix: a server reply with a region that cannot be
 encoded had already sent the states before it

---
 src/trax.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index b230f16..570d18e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1442,7 +1442,10 @@ int trax_server_reply_sot(trax_handle* server, trax_region* region, trax_propert
 
     data = region_string(REGION(region));
 
-    if (!data) return TRAX_ERROR;
+    if (!data) {
+        set_error(server, "Illegal region");
+        return TRAX_ERROR;
+    }
 
     arguments = list_create(1);
 
@@ -1465,6 +1468,7 @@ int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
     int n, i;
     char* data;
     string_list* arguments;
+    string_list* states;
 
     VALIDATE_SERVER_HANDLE(server);
 
@@ -1489,19 +1493,33 @@ int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
         return TRAX_ERROR;
     }
 
+    // Nothing is sent until all regions are encoded
+    states = list_create(n + 1);
+
     for (i = 0; i < n; i++) {
         data = region_string(REGION(trax_object_list_get(objects, i)));
-        if (!data) return TRAX_ERROR;
+        if (!data) {
+            set_error(server, "Illegal region");
+            list_destroy(&states);
+            return TRAX_ERROR;
+        }
+        list_append_direct(states, data);
+    }
+
+    for (i = 0; i < n; i++) {
         arguments = list_create(1);
-        list_append_direct(arguments, data);
+        list_append(arguments, states->buffer[i]);
         if (write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, trax_object_list_properties(objects, i)) != TRAX_OK) {
             set_error(server, "Unable to send message");
             list_destroy(&arguments);
+            list_destroy(&states);
             return TRAX_ERROR;
         }
         list_destroy(&arguments);
     }
 
+    list_destroy(&states);
+
     return TRAX_OK;
 }
 
-- 
2.43.0


From 86ec69fa8d1a2b570555541adf6a7a289647ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 038/107] fix: client setup ignored unknown formats, left
 defaults unset and leaked the stream on failure

---
 src/trax.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 570d18e..9a203b4 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -595,21 +595,34 @@ trax_handle* client_setup(message_stream* stream, const trax_logging log) {
 
     client->version = trax_properties_get_int(tmp_properties, "trax.version", 1);
 
+    // The formats that are assumed if they are not given
+    region_formats = TRAX_REGION_RECTANGLE;
+    image_formats = TRAX_IMAGE_PATH;
+
     tmp = trax_properties_get(tmp_properties, "trax.region");
-    region_formats = region_formats_decode(tmp);
+    if (tmp) region_formats = region_formats_decode(tmp);
     free(tmp);
 
     tmp = trax_properties_get(tmp_properties, "trax.image");
-    image_formats = image_formats_decode(tmp);
+    if (tmp) image_formats = image_formats_decode(tmp);
     free(tmp);
 
+    if (region_formats < 0 || image_formats < 0) {
+        DEBUGMSG("Unknown region or image format.");
+        goto failure;
+    }
+
     // Multiple channels are only supported in TraX protocol version 2
     if (client->version < 2) {
         channels = TRAX_CHANNEL_COLOR;
     } else {
         tmp = trax_properties_get(tmp_properties, "trax.channels");
-        channels = channels_decode(tmp);
+        channels = tmp ? channels_decode(tmp) : 0;
         free(tmp);
+        if (channels < 0) {
+            DEBUGMSG("Unknown channel.");
+            goto failure;
+        }
         if (channels == 0)
             channels = TRAX_CHANNEL_COLOR;
     }
@@ -643,6 +656,7 @@ failure:
 
     list_destroy(&arguments);
     trax_properties_release(&tmp_properties);
+    destroy_message_stream((message_stream**) & client->stream);
     free(client);
     return NULL;
 
-- 
2.43.0


From 2cafe5e46cb932b57fdd1889642f315bede9b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 039/107] fix: server setup used uninitialised flags before
 version 4 and lost the custom properties

---
 src/trax.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 9a203b4..880b316 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -706,8 +706,9 @@ trax_handle* server_setup(trax_metadata *metadata, message_stream* stream, const
     if (metadata->tracker_family)
         trax_properties_set(properties, "trax.family", metadata->tracker_family);
 
+    flags = 0;
+
     if (IS_VERSION_4(server)) {
-        flags = 0;
         if (metadata->flags & TRAX_METADATA_MULTI_OBJECT) {
             flags |= TRAX_METADATA_MULTI_OBJECT;
             trax_properties_set_int(properties, "trax.multiobject", 1);
@@ -717,6 +718,9 @@ trax_handle* server_setup(trax_metadata *metadata, message_stream* stream, const
     server->metadata = trax_metadata_create(metadata->format_region, metadata->format_image, metadata->channels,
                                             metadata->tracker_name, metadata->tracker_description, metadata->tracker_family, flags);
 
+    if (metadata->custom)
+        copy_properties(metadata->custom, server->metadata->custom, COPY_EXTERNAL | COPY_OVERWRITE);
+
     arguments = list_create(1);
 
     write_message((message_stream*)server->stream, &LOGGER(server), TRAX_HELLO, arguments, properties);
-- 
2.43.0


From 5952beda1dfe15c29a6468b1c82b0d2268196dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 040/107] fix: trax_image_release crashed when given a released
 image

---
 src/trax.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index 880b316..5588d13 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1646,6 +1646,8 @@ int trax_get_parameter(trax_handle* handle, int id, int* value) {
 
 void trax_image_release(trax_image** image) {
 
+    if (!*image) return;
+
     if ((*image)->data) {
         free((*image)->data);
         (*image)->data = 0;
-- 
2.43.0


From a68b9f8374f7d5ff756750489cc66d3c985c3d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 041/107] fix: define the move assignment of Properties

---
 src/traxpp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 67c2b27..79de99a 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -1045,6 +1045,12 @@ Properties& Properties::operator=(const Properties& original) throw() {
 	return *this;
 }
 
+Properties& Properties::operator=(Properties&& original) throw() {
+	swap(original);
+	std::swap(properties, original.properties);
+	return *this;
+}
+
 Properties::~Properties() {
 	release();
 }
-- 
2.43.0


From 41fc947c8f75158138a8cb1ae4b6c110757b3697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 042/107] fix: keep C++ wrappers valid on self-assignment and
 copies of empty wrappers empty

---
 src/traxpp.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 79de99a..2bd5eec 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -59,7 +59,8 @@ Wrapper::Wrapper() : pn(NULL) {
 }
 
 Wrapper::Wrapper(const Wrapper& count) : pn(count.pn) {
-	acquire();
+	// A copy of an empty wrapper is empty as well
+	if (NULL != pn) acquire();
 }
 
 
@@ -72,9 +73,11 @@ Wrapper::~Wrapper() {
 }
 
 void Wrapper::acquire(const Wrapper& lhs) {
+	// Already the same object, releasing it first would destroy it
+	if (pn == lhs.pn) return;
 	release();
 	pn = lhs.pn;
-	acquire();
+	if (NULL != pn) acquire();
 }
 
 void Wrapper::swap(Wrapper& lhs) {
-- 
2.43.0


From 9a037eca16f7257ca05836aee388b21492e45426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 043/107] fix: do not change other copies of a C++ mask or
 memory image by writing its rows

---
 src/traxpp.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 2bd5eec..26392ad 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -1,4 +1,6 @@
 
+#include <string.h>
+
 #include "trax.h"
 
 namespace trax {
@@ -585,6 +587,17 @@ void Image::get_memory_header(int* width, int* height, int* format) const {
 }
 
 char* Image::write_memory_row(int row) {
+
+	if (claims() > 1) {
+		// Do not change the image for the other objects that share it
+		int width, height, format;
+		trax_image_get_memory_header(image, &width, &height, &format);
+		trax_image* copy = trax_image_create_memory(width, height, format);
+		size_t length = (size_t) width * (format == TRAX_IMAGE_MEMORY_RGB ? 3 : format == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1);
+		for (int i = 0; i < height; i++)
+			memcpy(trax_image_write_memory_row(copy, i), trax_image_get_memory_row(image, i), length);
+		wrap(copy);
+	}
 	return trax_image_write_memory_row(image, row);
 }
 
@@ -900,6 +913,10 @@ void Region::get_mask_header(int* x, int* y, int* width, int* height) const {
 
 char* Region::write_mask_row(int row) {
 
+	if (claims() > 1) {
+		wrap(trax_region_clone(region));
+	}
+
 	return trax_region_write_mask_row(region, row);
 
 }
-- 
2.43.0


From 0e909603bf170b45c040ed4ecc2ab4a454c4db3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 044/107] fix: leave moved-from C++ objects empty instead of
 with dangling or uninitialised pointers

---
 src/traxpp.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 26392ad..100b8e6 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -117,8 +117,9 @@ Metadata::Metadata() {
     wrap(trax_metadata_create(0, 0, TRAX_CHANNEL_COLOR, NULL, NULL, NULL, 0));
 }
 
-Metadata::Metadata(Metadata&& original) : Wrapper(std::move(original)) {
-	metadata = original.metadata;
+Metadata::Metadata(Metadata&& original) : Metadata() {
+	swap(original);
+	std::swap(metadata, original.metadata);
 }
 
 Metadata::Metadata(const Metadata& original) : Wrapper(original) {
@@ -522,8 +523,8 @@ Image::Image(const Image& original) : Wrapper(original) {
 	image = original.image;
 }
 
-Image::Image(Image&& original) : Wrapper(std::move(original)) {
-	image = original.image;
+Image::Image(Image&& original) : Wrapper(std::move(original)), image(NULL) {
+	std::swap(image, original.image);
 }
 
 Image& Image::operator=(const Image& lhs) throw() {
@@ -637,7 +638,7 @@ ObjectList::ObjectList(const ObjectList& original) : Wrapper(original) {
 	_properties = original._properties;
 }
 
-ObjectList::ObjectList(ObjectList&& original) : Wrapper(std::move(original)) {
+ObjectList::ObjectList(ObjectList&& original) : Wrapper(std::move(original)), list(NULL) {
 	std::swap(list, original.list);
 	std::swap(_regions, original._regions);
 	std::swap(_properties, original._properties);
@@ -722,7 +723,8 @@ ImageList::ImageList(const ImageList& original)  : Wrapper(original) {
 	images = original.images;
 }
 
-ImageList::ImageList(ImageList&& original)  : Wrapper(std::move(original)) {
+ImageList::ImageList(ImageList&& original)  : ImageList() {
+	swap(original);
 	std::swap(list, original.list);
 	std::swap(images, original.images);
 }
@@ -805,7 +807,7 @@ Region::Region(const Region& original) : Wrapper(original) {
 	region = original.region;
 }
 
-Region::Region(Region&& original) : Wrapper(std::move(original)) {
+Region::Region(Region&& original) : Wrapper(std::move(original)), region(NULL) {
 	std::swap(region, original.region);
 }
 
@@ -1055,7 +1057,7 @@ Properties::Properties(const Properties& original) : Wrapper(original) {
 	properties = original.properties;
 }
 
-Properties::Properties(Properties&& original) : Wrapper(std::move(original)) {
+Properties::Properties(Properties&& original) : Wrapper(std::move(original)), properties(NULL) {
 	std::swap(properties, original.properties);
 }
 
-- 
2.43.0


From e6dbb9b787ea108a2c7056c0ad28266328a7ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 045/107] fix: do not keep a dangling pointer after clearing a
 shared Properties object

---
 src/traxpp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 100b8e6..ccf4854 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -1084,9 +1084,10 @@ int Properties::size() const {
 
 void Properties::clear()  {
 	if (!properties) return;
-	if (claims() > 1)
+	if (claims() > 1) {
 		release();
-	else
+		properties = NULL;
+	} else
 		trax_properties_clear(properties);
 }
 
-- 
2.43.0


From 87c361698f41c0bf0e916325a177b212cf42f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 046/107] fix: do not change the custom properties of other
 copies of a C++ Metadata object

---
 src/traxpp.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index ccf4854..c19e200 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -223,6 +223,14 @@ std::string Metadata::get_custom(const std::string key) const {
 
 void Metadata::set_custom(const std::string key, const std::string value) {
 
+	if (claims() > 1) {
+		// Do not change the object for others that share it
+		trax_metadata* copy = trax_metadata_create(metadata->format_region, metadata->format_image, metadata->channels,
+			metadata->tracker_name, metadata->tracker_description, metadata->tracker_family, metadata->flags);
+		trax_properties_append(metadata->custom, copy->custom, 1);
+		wrap(copy);
+	}
+
 	trax_properties_set(metadata->custom, key.c_str(), value.c_str());
 
 }
-- 
2.43.0


From ba0a913e074bcd6acc919524c7878e49cc39444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 047/107] fix: release C++ image and object lists and do not
 share changes between their copies

---
 src/traxpp.cpp | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index c19e200..2dd3459 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -635,9 +635,8 @@ ObjectList::ObjectList() {
 }
 
 ObjectList::ObjectList(int count) {
-	list = trax_object_list_create(count);
-	_regions.resize(count);
-	_properties.resize(count);
+	list = NULL;
+	wrap(trax_object_list_create(count));
 }
 
 ObjectList::ObjectList(const ObjectList& original) : Wrapper(original) {
@@ -678,6 +677,18 @@ Region ObjectList::get(int index) const {
 }
 
 void ObjectList::set(int index, Region region) {
+	if (claims() > 1) {
+		// Do not change the list for the other objects that share it
+		trax_object_list* copy = (trax_object_list*) malloc(sizeof(trax_object_list));
+		copy->size = list->size;
+		copy->regions = (trax_region**) malloc(sizeof(trax_region*) * list->size);
+		copy->properties = (trax_properties**) malloc(sizeof(trax_properties*) * list->size);
+		std::copy(list->regions, list->regions + list->size, copy->regions);
+		std::copy(list->properties, list->properties + list->size, copy->properties);
+		release();
+		list = copy;
+		acquire();
+	}
 	_regions[index] = region;
 	list->regions[index] = region.region;
 	// Do not use C function as it will try to free old region
@@ -701,6 +712,7 @@ void ObjectList::cleanup() {
 	free(list->regions);
 	free(list->properties);
 	free(list);
+	list = NULL;
 	_regions.clear();
 	_properties.clear();
 }
@@ -711,8 +723,8 @@ void ObjectList::wrap(trax_object_list* obj) {
 	list = obj;
 	if (list) acquire();
 
-	_regions.resize(trax_object_list_count(obj));
-	_properties.resize(trax_object_list_count(obj));
+	_regions.assign(trax_object_list_count(obj), Region());
+	_properties.assign(trax_object_list_count(obj), Properties());
 
 	for (int i = 0; i < trax_object_list_count(obj); i++) {
 		_regions[i].wrap(obj->regions[i]);
@@ -722,8 +734,8 @@ void ObjectList::wrap(trax_object_list* obj) {
 
 
 ImageList::ImageList()  {
-	list = trax_image_list_create();
-	images.resize(TRAX_CHANNELS);
+	list = NULL;
+	wrap(trax_image_list_create());
 }
 
 ImageList::ImageList(const ImageList& original)  : Wrapper(original) {
@@ -769,6 +781,15 @@ bool ImageList::has(int channel) const {
 
 void ImageList::set(Image image, int channel) {
 
+	if (claims() > 1) {
+		// Do not change the list for the other objects that share it
+		trax_image_list* copy = trax_image_list_create();
+		std::copy(list->images, list->images + TRAX_CHANNELS, copy->images);
+		release();
+		list = copy;
+		acquire();
+	}
+
 	images[TRAX_CHANNEL_INDEX(channel)] = image;
 	list->images[TRAX_CHANNEL_INDEX(channel)] = image.image;
 
@@ -801,6 +822,8 @@ void ImageList::wrap(trax_image_list* obj) {
 	list = obj;
 	if (list) acquire();
 
+	images.assign(TRAX_CHANNELS, Image());
+
 	for (int i = 0; i < TRAX_CHANNELS; i++)
 		images[i].wrap(obj->images[i]);
 
-- 
2.43.0


From 30f2917ceb26ab6780f19992781a892c3afa1619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 048/107] fix: return the custom properties with the C++
 metadata of a handle

---
 src/traxpp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 2dd3459..f763237 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -143,6 +143,8 @@ Metadata::Metadata(trax_metadata* metadata) {
     wrap(trax_metadata_create(metadata->format_region, metadata->format_image, metadata->channels,
 		metadata->tracker_name, metadata->tracker_description, metadata->tracker_family, metadata->flags));
 
+    trax_properties_append(metadata->custom, this->metadata->custom, 1);
+
 }
 
 Metadata::~Metadata() {
-- 
2.43.0


From 49550a8f790d254b1a6b74350cc7037771c2eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 049/107] fix: let new object properties replace old values in
 the C++ single-region waits

---
 src/traxpp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index f763237..aa3aa8d 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -333,7 +333,7 @@ int Client::wait(Region& region, Properties& properties) {
 		if (trax_object_list_count(tobjects) == 1) {
 			tregion = trax_region_clone(trax_object_list_get(tobjects, 0));
 			region.wrap(tregion);
-			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 0);
+			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 1);
 		}
 		trax_object_list_release(&tobjects);
 	}
@@ -471,7 +471,7 @@ int ServerMOT::wait(ImageList& image, Region& region, Properties& properties) {
 		if (trax_object_list_count(tobjects) == 1) {
 			tregion = trax_region_clone(trax_object_list_get(tobjects, 0));
 			region.wrap(tregion);
-			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 0);
+			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 1);
 		}
 	}
 
-- 
2.43.0


From 9631c70891240efb2d2a5cbf2829ef01b6fef4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 050/107] fix: refuse all calls on a C++ handle without a
 connection

---
 src/traxpp.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index aa3aa8d..7f05f99 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -258,10 +258,12 @@ void Handle::cleanup() {
 }
 
 int Handle::set_parameter(int id, int value) {
+	if (!claims()) return -1;
 	return trax_set_parameter(handle, id, value);
 }
 
 int Handle::get_parameter(int id, int* value) {
+	if (!claims()) return -1;
 	return trax_get_parameter(handle, id, value);
 }
 
@@ -281,7 +283,7 @@ const Metadata Handle::metadata() {
 }
 
 bool Handle::terminate(const std::string reason) {
-	if (!claims()) return -1;
+	if (!claims()) return false;
 	return trax_terminate(handle, reason.c_str()) == TRAX_OK;
 }
 
@@ -497,6 +499,8 @@ int ServerMOT::reply(const Region& region, const Properties& properties) {
 
 int ServerMOT::wait(ImageList& image, ObjectList& objects, Properties& properties) {
 
+	if (!claims()) return -1;
+
 	trax_object_list* tobjects = NULL;
     trax_image_list* timagelist = NULL;
 
-- 
2.43.0


From 8b3f0e751e19fa17d5190846227618497aa0fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 051/107] fix: release the received objects in the
 single-region wait of the C++ multi-object server

---
 src/traxpp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 7f05f99..3ac055a 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -475,6 +475,7 @@ int ServerMOT::wait(ImageList& image, Region& region, Properties& properties) {
 			region.wrap(tregion);
 			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 1);
 		}
+		trax_object_list_release(&tobjects);
 	}
 
 	return result;
-- 
2.43.0


From 37aa393abec1ca2173adf0277215fa0bc2282d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 052/107] fix: send the properties given to the single-region
 reply of the C++ multi-object server

---
 src/traxpp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 3ac055a..05fcba8 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -488,7 +488,8 @@ int ServerMOT::reply(const Region& region, const Properties& properties) {
 
 	trax_object_list* objects = trax_object_list_create(1);
 	trax_object_list_set(objects, 0, region.region);
-	trax_properties_append(trax_object_list_properties(objects, 0), properties.properties, 0);
+	if (properties.properties)
+		trax_properties_append(properties.properties, trax_object_list_properties(objects, 0), 1);
 
 	int result = trax_server_reply_mot(handle, objects);
 
-- 
2.43.0


From 10cdfd219f5b1ef277470e29df6c79df37e016d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 053/107] fix: make Signal::wait return only on a notification
 or at its deadline, for any timeout

---
 support/client/threads.cpp | 509 +++++++++++++++++++------------------
 support/client/threads.h   | 445 ++++++++++++++++----------------
 2 files changed, 489 insertions(+), 465 deletions(-)

diff --git a/support/client/threads.cpp b/support/client/threads.cpp
index 24e3298..40f3c84 100644
--- a/support/client/threads.cpp
+++ b/support/client/threads.cpp
@@ -1,245 +1,264 @@
-
-#include "threads.h"
-
-#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
-
-int simple_threads_cond_wait(THREAD h, HANDLE m, long milisec) {
-	if (milisec < 0)
-		return WaitForSingleObject(h, INFINITE);
-
-	return WaitForSingleObject(h, milisec);
-}
-
-int WINAPI simple_threads_create_thread(THREAD* h, LPTHREAD_START_ROUTINE lpStartAddress, LPVOID lpParameter) {
-
-	HANDLE hn = CreateThread(NULL, 0, lpStartAddress, lpParameter, 0, NULL);
-
-	if (hn == 0)
-		return -1;
-	*h = hn;
-
-	return 0;
-}
-
-void* simple_threads_release_thread(THREAD t) {
-
-	void* result = simple_threads_join_thread(t);
-
-	CloseHandle(t);
-
-	return result;
-}
-
-void* simple_threads_join_thread(THREAD t) {
-
-	WaitForSingleObject(t, INFINITE);
-
-	return NULL; // TODO: also get thread exit status
-
-}
-
-#else
-
-int simple_threads_cond_wait(pthread_cond_t * h, pthread_mutex_t *m, long milisec) {
-	struct timespec waittime;
-	struct timeval curtime;
-	int retcode;
-
-	if (milisec < 0) {
-		return pthread_cond_wait(h, m);
-
-	}
-
-	/*
-	 * We calculate the delay time (representing the desired frame
-	 * rate).  This delay time is in *nanoseconds*.
-	 * We will wait 0.5 seconds which gives a practical minimum
-	 * framerate of 2 which is desired for the motion_loop to
-	 * function.
-	 */
-	gettimeofday(&curtime, NULL);
-	curtime.tv_usec += milisec * 1000;
-
-	if (curtime.tv_usec > 1000000) {
-		curtime.tv_usec -= 1000000;
-		curtime.tv_sec++;
-	}
-
-	waittime.tv_sec = curtime.tv_sec;
-	waittime.tv_nsec = 1000L * curtime.tv_usec;
-
-	do {
-		retcode = pthread_cond_timedwait(h, m, &waittime);
-	} while (retcode == EINTR);
-
-	return retcode;
-}
-
-int simple_threads_create_thread(THREAD* t, void *(*start_routine)(void*), void *arg) {
-
-	pthread_attr_init(&(t->attr));
-
-	//pthread_attr_setdetachstate(&(t->attr), PTHREAD_CREATE_DETACHED);
-
-	return pthread_create(&(t->thread), &(t->attr), start_routine, arg);
-}
-
-void* simple_threads_release_thread(THREAD t) {
-
-	void* result = simple_threads_join_thread(t);
-
-	pthread_attr_destroy(&(t.attr));
-
-	return result;
-}
-
-void* simple_threads_join_thread(THREAD t) {
-
-	void* result;
-
-	pthread_join(t.thread, &result);
-
-	return result;
-
-}
-
-#endif
-
-Mutex::Mutex() {
-	MUTEX_INIT(mutex);
-
-	owner = THREAD_NONE;
-
-	counter = 0;
-
-	recursive = false;
-}
-
-Mutex::~Mutex() {
-	MUTEX_DESTROY(mutex);
-}
-
-void Mutex::acquire() {
-
-	if (!recursive) {
-    	MUTEX_LOCK(mutex);		
-	} else {
-		THREAD_IDENTIFIER tid = THREAD_GET_IDENTIFIER();
-
-	    if (!THREAD_EQUALS(tid, owner)) {
-	    	MUTEX_LOCK(mutex);
-	    	owner = tid;
-	    	counter = 0;
-	    }
-
-	    counter++;
-	}
-
-}
-
-void Mutex::release() {
-
-	if (!recursive) {
-    	MUTEX_UNLOCK(mutex);
-	} else {
-
-		THREAD_IDENTIFIER tid = THREAD_GET_IDENTIFIER();
-
-		if (THREAD_EQUALS(tid, owner)) {
-			counter--;
-
-			if (counter < 1) {
-				owner = THREAD_NONE;
-	    		MUTEX_UNLOCK(mutex);
-	    	}
-	    }
-	}
-
-
-}
-
-RecursiveMutex::RecursiveMutex() : Mutex() {
-	recursive = true;
-}
-
-RecursiveMutex::~RecursiveMutex() {
-
-}
-
-Lock::Lock(Mutex& mutex) : mutex(mutex), locked(false)
-{
-	lock();
-}
-
-Lock::Lock(Synchronized& mutex) : mutex(mutex.object_mutex), locked(false) {
-	
-	lock();
-
-}
-
-Lock::~Lock()
-{
-	unlock();
-}
-
-
-Lock::operator bool () const
-{
-	return locked;
-}
-
-void Lock::lock() {
-	if (!locked) {
-		mutex.acquire();
-		locked = true;
-	}
-}
-
-void Lock::unlock() {
-	if (locked) {
-		locked = false;
-		mutex.release();
-
-	}
-}
-
-
-Signal::Signal() {
-
-	CONDITION_INIT(condition);
-	MUTEX_INIT(mutex);
-}
-
-Signal::~Signal() {
-
-	CONDITION_DESTROY(condition);
-	MUTEX_DESTROY(mutex);
-}
-
-void Signal::wait(long timeout) {
-	MUTEX_LOCK(mutex);
-
-	if (timeout > 0) {
-		CONDITION_TIMEDWAIT(condition, mutex, timeout);
-	} else {
-		CONDITION_WAIT(condition, mutex);
-	}
-	MUTEX_UNLOCK(mutex);
-}
-
-void Signal::notify() {
-	
-	MUTEX_LOCK(mutex);
-	CONDITION_SIGNAL(condition);
-	MUTEX_UNLOCK(mutex);
-
-}
-
-
-Synchronized::Synchronized() {
-
-}
-
-Synchronized::~Synchronized() {
-
-}
+
+#include "threads.h"
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+
+int simple_threads_cond_wait(THREAD h, HANDLE m, long milisec) {
+	if (milisec < 0)
+		return WaitForSingleObject(h, INFINITE);
+
+	return WaitForSingleObject(h, milisec);
+}
+
+int WINAPI simple_threads_create_thread(THREAD* h, LPTHREAD_START_ROUTINE lpStartAddress, LPVOID lpParameter) {
+
+	HANDLE hn = CreateThread(NULL, 0, lpStartAddress, lpParameter, 0, NULL);
+
+	if (hn == 0)
+		return -1;
+	*h = hn;
+
+	return 0;
+}
+
+void* simple_threads_release_thread(THREAD t) {
+
+	void* result = simple_threads_join_thread(t);
+
+	CloseHandle(t);
+
+	return result;
+}
+
+void* simple_threads_join_thread(THREAD t) {
+
+	WaitForSingleObject(t, INFINITE);
+
+	return NULL; // TODO: also get thread exit status
+
+}
+
+#else
+
+int simple_threads_cond_wait(pthread_cond_t * h, pthread_mutex_t *m, long milisec) {
+	struct timespec waittime;
+	int retcode;
+
+	if (milisec < 0) {
+		return pthread_cond_wait(h, m);
+
+	}
+
+	simple_threads_deadline(&waittime, milisec);
+
+	do {
+		retcode = pthread_cond_timedwait(h, m, &waittime);
+	} while (retcode == EINTR);
+
+	return retcode;
+}
+
+void simple_threads_deadline(struct timespec* deadline, long milisec) {
+	struct timeval curtime;
+
+	gettimeofday(&curtime, NULL);
+	curtime.tv_sec += milisec / 1000;
+	curtime.tv_usec += (milisec % 1000) * 1000;
+
+	if (curtime.tv_usec >= 1000000) {
+		curtime.tv_usec -= 1000000;
+		curtime.tv_sec++;
+	}
+
+	deadline->tv_sec = curtime.tv_sec;
+	deadline->tv_nsec = 1000L * curtime.tv_usec;
+}
+
+int simple_threads_create_thread(THREAD* t, void *(*start_routine)(void*), void *arg) {
+
+	pthread_attr_init(&(t->attr));
+
+	//pthread_attr_setdetachstate(&(t->attr), PTHREAD_CREATE_DETACHED);
+
+	return pthread_create(&(t->thread), &(t->attr), start_routine, arg);
+}
+
+void* simple_threads_release_thread(THREAD t) {
+
+	void* result = simple_threads_join_thread(t);
+
+	pthread_attr_destroy(&(t.attr));
+
+	return result;
+}
+
+void* simple_threads_join_thread(THREAD t) {
+
+	void* result;
+
+	pthread_join(t.thread, &result);
+
+	return result;
+
+}
+
+#endif
+
+Mutex::Mutex() {
+	MUTEX_INIT(mutex);
+
+	owner = THREAD_NONE;
+
+	counter = 0;
+
+	recursive = false;
+}
+
+Mutex::~Mutex() {
+	MUTEX_DESTROY(mutex);
+}
+
+void Mutex::acquire() {
+
+	if (!recursive) {
+    	MUTEX_LOCK(mutex);		
+	} else {
+		THREAD_IDENTIFIER tid = THREAD_GET_IDENTIFIER();
+
+	    if (!THREAD_EQUALS(tid, owner)) {
+	    	MUTEX_LOCK(mutex);
+	    	owner = tid;
+	    	counter = 0;
+	    }
+
+	    counter++;
+	}
+
+}
+
+void Mutex::release() {
+
+	if (!recursive) {
+    	MUTEX_UNLOCK(mutex);
+	} else {
+
+		THREAD_IDENTIFIER tid = THREAD_GET_IDENTIFIER();
+
+		if (THREAD_EQUALS(tid, owner)) {
+			counter--;
+
+			if (counter < 1) {
+				owner = THREAD_NONE;
+	    		MUTEX_UNLOCK(mutex);
+	    	}
+	    }
+	}
+
+
+}
+
+RecursiveMutex::RecursiveMutex() : Mutex() {
+	recursive = true;
+}
+
+RecursiveMutex::~RecursiveMutex() {
+
+}
+
+Lock::Lock(Mutex& mutex) : mutex(mutex), locked(false)
+{
+	lock();
+}
+
+Lock::Lock(Synchronized& mutex) : mutex(mutex.object_mutex), locked(false) {
+	
+	lock();
+
+}
+
+Lock::~Lock()
+{
+	unlock();
+}
+
+
+Lock::operator bool () const
+{
+	return locked;
+}
+
+void Lock::lock() {
+	if (!locked) {
+		mutex.acquire();
+		locked = true;
+	}
+}
+
+void Lock::unlock() {
+	if (locked) {
+		locked = false;
+		mutex.release();
+
+	}
+}
+
+
+Signal::Signal() : notifications(0) {
+
+	CONDITION_INIT(condition);
+	MUTEX_INIT(mutex);
+}
+
+Signal::~Signal() {
+
+	CONDITION_DESTROY(condition);
+	MUTEX_DESTROY(mutex);
+}
+
+void Signal::wait(long timeout) {
+	MUTEX_LOCK(mutex);
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+	if (timeout > 0) {
+		CONDITION_TIMEDWAIT(condition, mutex, timeout);
+	} else {
+		CONDITION_WAIT(condition, mutex);
+	}
+#else
+	// A condition may also wake up without a notification
+	unsigned long current = notifications;
+
+	if (timeout > 0) {
+		struct timespec deadline;
+		simple_threads_deadline(&deadline, timeout);
+
+		while (current == notifications) {
+			if (pthread_cond_timedwait(&condition, &mutex, &deadline) == ETIMEDOUT)
+				break;
+		}
+	} else {
+		while (current == notifications)
+			CONDITION_WAIT(condition, mutex);
+	}
+#endif
+
+	MUTEX_UNLOCK(mutex);
+}
+
+void Signal::notify() {
+	
+	MUTEX_LOCK(mutex);
+	notifications++;
+	CONDITION_SIGNAL(condition);
+	MUTEX_UNLOCK(mutex);
+
+}
+
+
+Synchronized::Synchronized() {
+
+}
+
+Synchronized::~Synchronized() {
+
+}
diff --git a/support/client/threads.h b/support/client/threads.h
index 762d0b6..ed5a66d 100644
--- a/support/client/threads.h
+++ b/support/client/threads.h
@@ -1,220 +1,225 @@
-
-#ifndef SIMPLE_THREADS
-#define SIMPLE_THREADS
-
-#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
-#include <windows.h>
-#include <process.h>
-#else
-#include <pthread.h>
-#include <sys/types.h>
-#include <sys/time.h>
-#include <sys/stat.h>
-#include <sys/wait.h>
-#include <sys/ioctl.h>
-#include <sys/param.h>
-#endif
-
-#include <errno.h>
-
-#undef HAVE_STDLIB_H
-#include <stdio.h>
-
-#ifdef __cplusplus
-extern "C" {
-#endif
-
-#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
-
-#define CREATE_THREAD(T, R, P) simple_threads_create_thread(&T, R, P)
-#define RELEASE_THREAD(T) simple_threads_release_thread(T)
-#define JOIN_THREAD(T) simple_threads_join_thread(T)
-
-#define THREAD_CALLBACK(NAME, ARGUMENT) DWORD WINAPI NAME(void* ARGUMENT)
-#define THREAD_IDENTIFIER DWORD
-#define THREAD_GET_IDENTIFIER() GetCurrentThreadId()
-#define THREAD HANDLE
-#define THREAD_MUTEX HANDLE
-#define THREAD_COND HANDLE
-#define MUTEX_LOCK(M) WaitForSingleObject(M, INFINITE)
-#define MUTEX_UNLOCK(M) ReleaseMutex(M)
-#define MUTEX_INIT(M) (M = CreateMutex(NULL, FALSE, NULL))
-#define MUTEX_DESTROY(M) WaitForSingleObject(M, INFINITE); CloseHandle(M)
-#define THREAD_EQUALS(T1, T2) (T1 == T2)
-#define THREAD_NONE -1
-
-#define CONDITION_SIGNAL(C) SetEvent(C)
-#define CONDITION_DESTROY(C) CloseHandle(C)
-#define CONDITION_INIT(C) (C = CreateEvent(NULL, FALSE, FALSE, NULL))
-#define CONDITION_TIMEDWAIT(C, M, T) simple_threads_cond_wait(C, M, T)
-#define CONDITION_WAIT(C, M) simple_threads_cond_wait(C, M, -1)
-
-int simple_threads_cond_wait(HANDLE h, HANDLE m, long milisec);
-
-int WINAPI simple_threads_create_thread(HANDLE* h, LPTHREAD_START_ROUTINE lpStartAddress, LPVOID lpParameter);
-
-void* simple_threads_release_thread(THREAD t);
-
-void* simple_threads_join_thread(THREAD t);
-
-#else
-
-typedef struct pthread_wrapper {
-	pthread_t thread;
-	pthread_attr_t attr;
-} pthread_wrapper;
-
-#define CREATE_THREAD(T, R, P) simple_threads_create_thread(&T, R, P)
-#define RELEASE_THREAD(T) simple_threads_release_thread(T)
-#define JOIN_THREAD(T) simple_threads_join_thread(T)
-
-#define THREAD_CALLBACK(NAME, ARGUMENT) void* NAME(void* ARGUMENT)
-#define THREAD_IDENTIFIER pthread_t
-#define THREAD_GET_IDENTIFIER() pthread_self()
-#define THREAD pthread_wrapper
-#define THREAD_MUTEX pthread_mutex_t
-#define THREAD_COND pthread_cond_t
-#define SSIZE_T ssize_t
-#define MUTEX_LOCK(M) pthread_mutex_lock(&M)
-#define MUTEX_UNLOCK(M) pthread_mutex_unlock(&M)
-#define MUTEX_INIT(M) pthread_mutex_init(&M, NULL)
-#define MUTEX_DESTROY(M) pthread_mutex_destroy(&M)
-#define THREAD_EQUALS(T1, T2) (T1 == T2 || (T1 && T2 && pthread_equal(T1, T2)))
-#define THREAD_NONE ((pthread_t) 0)
-
-#define CONDITION_SIGNAL(C) pthread_cond_signal(&C)
-#define CONDITION_DESTROY(C) pthread_cond_destroy(&C)
-#define CONDITION_INIT(C) pthread_cond_init(&C, NULL)
-#define CONDITION_TIMEDWAIT(C, M, T) simple_threads_cond_wait(&C, &M, T)
-#define CONDITION_WAIT(C, M) simple_threads_cond_wait(&C, &M, -1)
-
-
-typedef void *LPVOID;
-
-int simple_threads_cond_wait(pthread_cond_t* h, pthread_mutex_t* m, long milisec);
-
-int simple_threads_create_thread(THREAD* t, void *(*start_routine)(void*), void *arg);
-
-void* simple_threads_release_thread(THREAD t);
-
-void* simple_threads_join_thread(THREAD t);
-
-#endif
-
-#ifdef __cplusplus
-}
-
-class Synchronized;
-
-class Mutex {
-public:
-
-	Mutex();
-
-	virtual ~Mutex();
-
-	void acquire();
-
-	void release();
-
-protected:
-
-	THREAD_MUTEX mutex;
-
-	THREAD_IDENTIFIER owner;
-
-	int counter;
-
-	bool recursive;
-
-private:
-
-	Mutex& operator=(Mutex& p) throw();
-    //const Mutex& operator=(const Mutex&);
-
-};
-
-class RecursiveMutex : public Mutex {
-public:
-
-	RecursiveMutex();
-
-	RecursiveMutex(const RecursiveMutex& m);
-
-	virtual ~RecursiveMutex();
-
-private:
-
-	RecursiveMutex& operator=(RecursiveMutex& p) throw();
-    //const RecursiveMutex& operator=(const RecursiveMutex&);
-
-};
-
-class Lock {
-public:
-
-	Lock(Mutex& mutex);
-
-	Lock(Synchronized& mutex);
-
-	~Lock();
-
-	//report the state of locking when used as a boolean
-	operator bool () const;
-
-	void lock();
-
-	void unlock();
-
-private:
-
-	Lock& operator=(Lock& p) throw();
-	//const Lock& operator=(const Lock&);
-
-	Mutex& mutex;
-
-	bool locked;
-
-};
-
-class Signal {
-
-public:
-
-	Signal();
-
-	~Signal();
-
-	void wait(long timeout = -1);
-
-	void notify();
-
-private:
-
-	THREAD_COND condition;
-
-	THREAD_MUTEX mutex;
-
-};
-
-class Synchronized {
-friend class Lock;
-public:
-
-	Synchronized();
-	virtual ~Synchronized();
-
-protected:
-
-	RecursiveMutex object_mutex;
-
-};
-
-#define OBJECT_SYNCHRONIZE for(Lock M##_lock(object_mutex); M##_lock; M##_lock.unlock())
-
-#define MUTEX_SYNCHRONIZE(mutex) for(Lock M##_lock(mutex); M##_lock; M##_lock.unlock())
-
-
-#endif
-
-#endif
+
+#ifndef SIMPLE_THREADS
+#define SIMPLE_THREADS
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+#include <windows.h>
+#include <process.h>
+#else
+#include <pthread.h>
+#include <sys/types.h>
+#include <sys/time.h>
+#include <sys/stat.h>
+#include <sys/wait.h>
+#include <sys/ioctl.h>
+#include <sys/param.h>
+#endif
+
+#include <errno.h>
+
+#undef HAVE_STDLIB_H
+#include <stdio.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+
+#define CREATE_THREAD(T, R, P) simple_threads_create_thread(&T, R, P)
+#define RELEASE_THREAD(T) simple_threads_release_thread(T)
+#define JOIN_THREAD(T) simple_threads_join_thread(T)
+
+#define THREAD_CALLBACK(NAME, ARGUMENT) DWORD WINAPI NAME(void* ARGUMENT)
+#define THREAD_IDENTIFIER DWORD
+#define THREAD_GET_IDENTIFIER() GetCurrentThreadId()
+#define THREAD HANDLE
+#define THREAD_MUTEX HANDLE
+#define THREAD_COND HANDLE
+#define MUTEX_LOCK(M) WaitForSingleObject(M, INFINITE)
+#define MUTEX_UNLOCK(M) ReleaseMutex(M)
+#define MUTEX_INIT(M) (M = CreateMutex(NULL, FALSE, NULL))
+#define MUTEX_DESTROY(M) WaitForSingleObject(M, INFINITE); CloseHandle(M)
+#define THREAD_EQUALS(T1, T2) (T1 == T2)
+#define THREAD_NONE -1
+
+#define CONDITION_SIGNAL(C) SetEvent(C)
+#define CONDITION_DESTROY(C) CloseHandle(C)
+#define CONDITION_INIT(C) (C = CreateEvent(NULL, FALSE, FALSE, NULL))
+#define CONDITION_TIMEDWAIT(C, M, T) simple_threads_cond_wait(C, M, T)
+#define CONDITION_WAIT(C, M) simple_threads_cond_wait(C, M, -1)
+
+int simple_threads_cond_wait(HANDLE h, HANDLE m, long milisec);
+
+int WINAPI simple_threads_create_thread(HANDLE* h, LPTHREAD_START_ROUTINE lpStartAddress, LPVOID lpParameter);
+
+void* simple_threads_release_thread(THREAD t);
+
+void* simple_threads_join_thread(THREAD t);
+
+#else
+
+typedef struct pthread_wrapper {
+	pthread_t thread;
+	pthread_attr_t attr;
+} pthread_wrapper;
+
+#define CREATE_THREAD(T, R, P) simple_threads_create_thread(&T, R, P)
+#define RELEASE_THREAD(T) simple_threads_release_thread(T)
+#define JOIN_THREAD(T) simple_threads_join_thread(T)
+
+#define THREAD_CALLBACK(NAME, ARGUMENT) void* NAME(void* ARGUMENT)
+#define THREAD_IDENTIFIER pthread_t
+#define THREAD_GET_IDENTIFIER() pthread_self()
+#define THREAD pthread_wrapper
+#define THREAD_MUTEX pthread_mutex_t
+#define THREAD_COND pthread_cond_t
+#define SSIZE_T ssize_t
+#define MUTEX_LOCK(M) pthread_mutex_lock(&M)
+#define MUTEX_UNLOCK(M) pthread_mutex_unlock(&M)
+#define MUTEX_INIT(M) pthread_mutex_init(&M, NULL)
+#define MUTEX_DESTROY(M) pthread_mutex_destroy(&M)
+#define THREAD_EQUALS(T1, T2) (T1 == T2 || (T1 && T2 && pthread_equal(T1, T2)))
+#define THREAD_NONE ((pthread_t) 0)
+
+#define CONDITION_SIGNAL(C) pthread_cond_signal(&C)
+#define CONDITION_DESTROY(C) pthread_cond_destroy(&C)
+#define CONDITION_INIT(C) pthread_cond_init(&C, NULL)
+#define CONDITION_TIMEDWAIT(C, M, T) simple_threads_cond_wait(&C, &M, T)
+#define CONDITION_WAIT(C, M) simple_threads_cond_wait(&C, &M, -1)
+
+
+typedef void *LPVOID;
+
+int simple_threads_cond_wait(pthread_cond_t* h, pthread_mutex_t* m, long milisec);
+
+// Absolute point in time that is the given number of milliseconds ahead
+void simple_threads_deadline(struct timespec* deadline, long milisec);
+
+int simple_threads_create_thread(THREAD* t, void *(*start_routine)(void*), void *arg);
+
+void* simple_threads_release_thread(THREAD t);
+
+void* simple_threads_join_thread(THREAD t);
+
+#endif
+
+#ifdef __cplusplus
+}
+
+class Synchronized;
+
+class Mutex {
+public:
+
+	Mutex();
+
+	virtual ~Mutex();
+
+	void acquire();
+
+	void release();
+
+protected:
+
+	THREAD_MUTEX mutex;
+
+	THREAD_IDENTIFIER owner;
+
+	int counter;
+
+	bool recursive;
+
+private:
+
+	Mutex& operator=(Mutex& p) throw();
+    //const Mutex& operator=(const Mutex&);
+
+};
+
+class RecursiveMutex : public Mutex {
+public:
+
+	RecursiveMutex();
+
+	RecursiveMutex(const RecursiveMutex& m);
+
+	virtual ~RecursiveMutex();
+
+private:
+
+	RecursiveMutex& operator=(RecursiveMutex& p) throw();
+    //const RecursiveMutex& operator=(const RecursiveMutex&);
+
+};
+
+class Lock {
+public:
+
+	Lock(Mutex& mutex);
+
+	Lock(Synchronized& mutex);
+
+	~Lock();
+
+	//report the state of locking when used as a boolean
+	operator bool () const;
+
+	void lock();
+
+	void unlock();
+
+private:
+
+	Lock& operator=(Lock& p) throw();
+	//const Lock& operator=(const Lock&);
+
+	Mutex& mutex;
+
+	bool locked;
+
+};
+
+class Signal {
+
+public:
+
+	Signal();
+
+	~Signal();
+
+	void wait(long timeout = -1);
+
+	void notify();
+
+private:
+
+	THREAD_COND condition;
+
+	THREAD_MUTEX mutex;
+
+	unsigned long notifications;
+
+};
+
+class Synchronized {
+friend class Lock;
+public:
+
+	Synchronized();
+	virtual ~Synchronized();
+
+protected:
+
+	RecursiveMutex object_mutex;
+
+};
+
+#define OBJECT_SYNCHRONIZE for(Lock M##_lock(object_mutex); M##_lock; M##_lock.unlock())
+
+#define MUTEX_SYNCHRONIZE(mutex) for(Lock M##_lock(mutex); M##_lock; M##_lock.unlock())
+
+
+#endif
+
+#endif
-- 
2.43.0


From b016edec153d2e81cd4937cc8d9a31d4b1c36da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 054/107] fix: read an empty line into a region as an empty
 region

---
 src/traxpp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 05fcba8..18d1eab 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -1082,7 +1082,12 @@ std::istream& operator>> (std::istream& input, Region &region) {
 		}
 	}
 
-	region.wrap(trax_region_decode(str.c_str()));
+	trax_region* decoded = trax_region_decode(str.c_str());
+
+	if (decoded)
+		region.wrap(decoded);
+	else
+		region = Region();
 
 	return input;
 }
-- 
2.43.0


From 16650ca1dec77d4455e36cd0b7a988feaaa73ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 055/107] fix: keep track of the child exactly: no descriptors
 from uninitialised memory closed, no zombie or leaked pipe left, exit status
 kept by a repeated start

---
 support/client/process.cpp | 52 +++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index b0265d6..c9b7ee9 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -144,15 +144,36 @@ char** parse_command(const char* command) {
 
 Process::Process(string command, bool explicit_mode) : running(false), explicit_mode(explicit_mode) {
 
+    exit_status = -1;
+
+    p_stdin = -1;
+    p_stdout = -1;
+    p_stderr = -1;
+
+    for (int i = 0; i < 2; i++) {
+        out[i] = -1;
+        in[i] = -1;
+        err[i] = -1;
+    }
+
 #ifdef WIN32
     piProcInfo.hProcess = 0;
+    piProcInfo.hThread = 0;
+
+    handle_IN_Rd = NULL;
+    handle_IN_Wr = NULL;
+    handle_OUT_Rd = NULL;
+    handle_OUT_Wr = NULL;
+    handle_ERR_Rd = NULL;
+    handle_ERR_Wr = NULL;
 #else
     pid = 0;
+    action_initialized = false;
 #endif
 
     char** tokens = parse_command(command.c_str());
 
-    if (!tokens[0])
+    if (!tokens)
         throw std::runtime_error("Unable to parse command string");
 
     program = tokens[0];
@@ -164,6 +185,15 @@ Process::~Process() {
 
     kill();
 
+#ifndef WIN32
+    if (running) {
+        // The process may need a moment to end, wait for it so that it does not remain a zombie
+        int status;
+        while (waitpid(pid, &status, 0) == -1 && errno == EINTR) {}
+        running = false;
+    }
+#endif
+
     cleanup();
 
     int i = 0;
@@ -183,6 +213,10 @@ bool Process::start() {
 
         if (running) return false;
 
+#ifndef WIN32
+        if (pid) return false;
+#endif
+
         exit_status = -1;
 
         p_stdin = -1;
@@ -316,12 +350,13 @@ bool Process::start() {
 
 #else
 
-        action_initialized = false;
+        string cwd;
 
-        if (pid) return false;
+        if (directory.size() > 0) cwd = __getcwd();
 
         if (pipe(out) == -1 || pipe(in) == -1 || pipe(err) == -1) {
             std::cerr << "Error: unable to configure process streams" << std::endl;
+            cleanup();
             return false;
         }
 
@@ -357,8 +392,6 @@ bool Process::start() {
 
         vars_c[vars.size()] = NULL;
 
-        string cwd = __getcwd();
-
 #define CHDIR_SOFT(D) \
         { if (chdir((D).c_str()) == -1) { \
             std::cerr << "Error: unable to switch to working directory" << std::endl; \
@@ -582,8 +615,15 @@ bool Process::is_alive(int *status) {
 
         int childExitStatus;
         int result = waitpid(pid, &childExitStatus, WNOHANG);
+        if (result == -1 && errno == ECHILD) {
+            // Already waited for by someone else, exit status is not available
+            running = false;
+            if (status) *status = exit_status;
+            return false;
+        }
+
         if (result <= 0) {
-            return result == 0;
+            return true;
         }
 
         if (WIFEXITED(childExitStatus)) {
-- 
2.43.0


From e6cc8c6616296d0d0cd1de06c9df11934213b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 056/107] fix: parse every command line into its tokens, or
 refuse it, and give the child exactly one value of each connection variable

---
 support/client/process.cpp | 40 ++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index c9b7ee9..926d175 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -54,6 +54,7 @@ inline const string int_to_string(int i) {
 }
 
 
+// Returns the position after the token, -1 if there are no more tokens or -2 if the token is not valid
 int __next_token(const char* str, int start, char* buffer, int len)
 {
     int i;
@@ -85,32 +86,35 @@ int __next_token(const char* str, int start, char* buffer, int len)
     if (s < 0) return -1;
 
     if (e < 0 && !quotes) e = i;
-    if (e < 0 && quotes) return -1;
+    if (e < 0 && quotes) return -2;
 
-    if (e - s > len - 1) return -1;
+    if (e - s > len - 1) return -2;
 
 
     memcpy(buffer, &(str[s]), e - s);
 
     buffer[e - s] = '\0';
 
-    return str[e] == '\0' ? e : (quotes ? e + 2 : e + 1);
+    return str[e] == '\0' ? e : e + 1;
 }
 
 char** parse_command(const char* command) {
 
     int length = (int)strlen(command);
     char* buffer = new char[length+1];
-    char** tokens = new char*[length];
+    char** tokens = new char*[length+1];
     int position = 0;
     int i = 0;
 
     while (1) {
 
-        position = __next_token(command, position, buffer, 1024);
+        position = __next_token(command, position, buffer, length+1);
+
+        if (position == -1)
+            break;
 
         if (position < 0) {
-            for (int j = 0; j < i; j++) delete[] tokens[j];
+            for (int j = 0; j < i; j++) free(tokens[j]);
             delete [] tokens;
             delete [] buffer;
             return NULL;
@@ -360,6 +364,11 @@ bool Process::start() {
             return false;
         }
 
+        if (explicit_mode) {
+            env["TRAX_OUT"] = int_to_string(in[1]);
+            env["TRAX_IN"] = int_to_string(out[0]);
+        }
+
         vector<string> vars;
 
         map<string, string>::iterator iter;
@@ -380,8 +389,6 @@ bool Process::start() {
             posix_spawn_file_actions_adddup2(&action, err[1], 2);
         } else {
             posix_spawn_file_actions_adddup2(&action, err[1], 2);
-            vars.push_back(string("TRAX_OUT=") + int_to_string(in[1]));
-            vars.push_back(string("TRAX_IN=") + int_to_string(out[0]));
         }
 
         std::vector<char *> vars_c(vars.size() + 1);
@@ -676,6 +683,13 @@ void Process::set_environment(string key, string value) {
 
 }
 
+// Variables that describe the connection of this process are not meant for its children
+static bool is_connection_variable(const string& key) {
+
+    return key == "TRAX_SOCKET" || key == "TRAX_IN" || key == "TRAX_OUT";
+
+}
+
 void Process::copy_environment() {
 //GetEnvironmentVariable
 
@@ -695,7 +709,10 @@ void Process::copy_environment() {
 
         if (!ptr) continue;
 
-        set_environment(string(lpszVariable, ptr - lpszVariable), string(ptr + 1));
+        string key(lpszVariable, ptr - lpszVariable);
+
+        if (!is_connection_variable(key))
+            set_environment(key, string(ptr + 1));
 
         lpszVariable += strlen(lpszVariable) ;
 
@@ -711,7 +728,10 @@ void Process::copy_environment() {
         char* ptr = strchr(var, '=');
         if (!ptr) continue;
 
-        set_environment(string(var, ptr - var), string(ptr + 1));
+        string key(var, ptr - var);
+
+        if (!is_connection_variable(key))
+            set_environment(key, string(ptr + 1));
 
     }
 
-- 
2.43.0


From edc40d098e6e8958586d0147cc44a45a9319d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 057/107] fix: announce the port that was bound after the
 search wraps around, accept descriptor 0, release the socket on failure

---
 support/client/client.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 083fc91..7a53ec7 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -98,6 +98,7 @@ int create_server_socket(int port) {
 		const int enable = 1;
 		if (setsockopt(sid, SOL_SOCKET, SO_REUSEADDR, (const char*) &enable, sizeof(int)) < 0) {
 			perror("setsockopt");
+			closesocket(sid);
 			return -1;
 		}
 	}
@@ -107,6 +108,7 @@ int create_server_socket(int port) {
 		const int enable = 1;
 		if (setsockopt(sid, SOL_SOCKET, SO_NOSIGPIPE, (const char*) &enable, sizeof(int)) < 0) {
 			perror("setsockopt");
+			closesocket(sid);
 			return -1;
 		}
 	}
@@ -239,17 +241,16 @@ public:
 			// Try to create a listening socket by looking for a free port number.
 			int attempts = 10;
 			while (attempts--) {
-				socket_id = create_server_socket(next_available_socket_port++);
+				socket_port = next_available_socket_port++;
 				if (next_available_socket_port > 65535)
 					next_available_socket_port = TRAX_DEFAULT_PORT;
 
-				if (socket_id > 0) break;
+				socket_id = create_server_socket(socket_port);
+				if (socket_id >= 0) break;
 			}
 			if (socket_id < 0)
 				throw std::runtime_error("Unable to configure TCP server socket.");
 
-			socket_port = next_available_socket_port-1;
-
 			print_debug("Socket opened successfully on port %d.", socket_port);
 
 		}
-- 
2.43.0


From 61f5ecb4f2a14f79ab386330a80ad4a49296700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 058/107] fix: close the child's ends of the streams so that
 the end of the tracker can be noticed

---
 support/client/process.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index 926d175..2da8f73 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -417,6 +417,11 @@ bool Process::start() {
 
         if (directory.size() > 0) CHDIR_SOFT(cwd);
 
+        // These ends belong to the child, if they stay open here then its end cannot be detected
+        close(out[0]); out[0] = -1;
+        close(in[1]); in[1] = -1;
+        close(err[1]); err[1] = -1;
+
         p_stdin = out[1];
         p_stdout = in[0];
         p_stderr = err[0];
-- 
2.43.0


From fa832aa411e917b18f7cb25229873aef184c0090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 059/107] fix: supervise trackers safely: process and client
 change under one lock and outlive the conversation that uses them, no
 SIGPIPE, no blocking quit, stale connections dropped, one reader of the error
 stream

---
 support/client/client.cpp | 671 ++++++++++++++++++++++++--------------
 1 file changed, 419 insertions(+), 252 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 7a53ec7..530b2cc 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -57,6 +57,9 @@ __inline void sleep(long time) {
 //#else
 #include <sys/socket.h>
 #include <unistd.h>
+#include <errno.h>
+#include <fcntl.h>
+#include <pthread.h>
 #include <sys/select.h>
 #include <arpa/inet.h>
 #include <netinet/tcp.h>
@@ -192,14 +195,14 @@ bool line_buffer_flush(line_buffer& buffer, ostream* out) {
 	return true;
 }
 
-
+// Reads available data, returns 0 if there is none for some time and -1 at the end of the stream.
 int read_stream(int fd, char* buffer, int len) {
 
 	fd_set readfds, writefds, exceptfds;
 	struct timeval tv;
 
-	tv.tv_sec = 1;
-	tv.tv_usec = 0;
+	tv.tv_sec = 0;
+	tv.tv_usec = 100000;
 
 	if (fd < 0 || fd >= FD_SETSIZE)
 		return -1;
@@ -211,24 +214,102 @@ int read_stream(int fd, char* buffer, int len) {
 	FD_SET(fd, &exceptfds);
 
 	if (select(fd + 1, &readfds, &writefds, &exceptfds, &tv) < 0)
-		return -1;
+		return errno == EINTR ? 0 : -1;
 
 	if (FD_ISSET(fd, &readfds)) {
-		return read(fd, buffer, len);
+		int result = read(fd, buffer, len);
+		if (result < 0 && errno == EINTR) return 0;
+		return result > 0 ? result : -1;
 	} else if (FD_ISSET(fd, &exceptfds)) {
 		return -1;
 	} else return 0;
 
 }
 
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+
+class PipeSignalGuard {
+public:
+	PipeSignalGuard() {}
+	~PipeSignalGuard() {}
+};
+
+static bool set_nonblocking(int fd) { return false; }
+
+#else
+
+// A tracker that ends during a conversation should not end this process as well, while the
+// guard exists writing to a closed stream is only reported as an error of the call.
+class PipeSignalGuard {
+public:
+	PipeSignalGuard() {
+		sigset_t pending;
+		sigemptyset(&pipe);
+		sigaddset(&pipe, SIGPIPE);
+		sigemptyset(&pending);
+		sigpending(&pending);
+		ignore = sigismember(&pending, SIGPIPE);
+		pthread_sigmask(SIG_BLOCK, &pipe, &previous);
+	}
+
+	~PipeSignalGuard() {
+		sigset_t pending;
+		int number;
+		sigemptyset(&pending);
+		sigpending(&pending);
+		if (!ignore && sigismember(&pending, SIGPIPE))
+			sigwait(&pipe, &number);
+		pthread_sigmask(SIG_SETMASK, &previous, NULL);
+	}
+
+private:
+	sigset_t pipe;
+	sigset_t previous;
+	bool ignore;
+};
+
+static bool set_nonblocking(int fd) {
+	int flags = fcntl(fd, F_GETFL, 0);
+	return flags >= 0 && fcntl(fd, F_SETFL, flags | O_NONBLOCK) == 0;
+}
+
+#endif
+
+// Drops connections of trackers that are no longer of interest
+static void drop_connections(int server) {
+
+	while (true) {
+
+		fd_set readfds;
+		struct timeval tv;
+
+		tv.tv_sec = 0;
+		tv.tv_usec = 0;
+
+		FD_ZERO(&readfds);
+		FD_SET(server, &readfds);
+
+		if (select(server + 1, &readfds, NULL, NULL, &tv) < 1)
+			break;
+
+		int connection = (int) accept(server, NULL, NULL);
+		if (connection < 0)
+			break;
+
+		closesocket(connection);
+
+	}
+
+}
+
 namespace trax {
 
 int next_available_socket_port = TRAX_DEFAULT_PORT;
 class TrackerProcess::State : public Synchronized {
 public:
 	State(const string& command, const map<std::string, std::string> environment, ConnectionMode connection, VerbosityMode verbosity, int timeout, string directory, ostream *log):
-		client(NULL), process(NULL), command(command), environment(environment), socket_id(-1), socket_port(-1),
-		connection(connection), verbosity(verbosity), timeout(timeout), directory(directory) {
+		client(NULL), process(NULL), conversation(false), responsive(false), process_input(-1), command(command), environment(environment), socket_id(-1), socket_port(-1),
+		tracking(false), connection(connection), verbosity(verbosity), timeout(timeout), logging(false), directory(directory) {
 
 		timer_init();
 
@@ -256,13 +337,12 @@ public:
 		}
 
 		watchdog_active = true;
-		logger_active = true;
+		logger_active = false;
 
 		stop_watchdog();
 		reset_logger();
 
 		CREATE_THREAD(watchdog_thread, watchdog_loop, this);
-		CREATE_THREAD(logger_thread, logger_loop, this);
 
 	}
 
@@ -270,19 +350,14 @@ public:
 
 		print_debug("Cleaning up.");
 
-		watchdog_active = false;
-		logger_active = false;
+		MUTEX_SYNCHRONIZE(watchdog_mutex) {
+			watchdog_active = false;
+		}
 
 		RELEASE_THREAD(watchdog_thread);
-		RELEASE_THREAD(logger_thread);
 
 		stop_process();
 
-		if (client) {
-			delete client;
-			client = NULL;
-		}
-
 		if (connection == CONNECTION_SOCKETS) {
 			print_debug("Closing server socket.");
 			destroy_server_socket(socket_id);
@@ -290,30 +365,66 @@ public:
 
 	}
 
-	bool process_running() {
+	// A conversation with the tracker. The watchdog may stop the process meanwhile, but the client
+	// and the streams that are in use stay available until the end of the conversation.
+	class Conversation {
+	public:
+		Conversation(State* state) : state(state) {
+			Lock lock(state->process_state_mutex);
+			if (!state->is_ready()) throw std::runtime_error("Tracker process not alive");
+			begin();
+		}
+
+		~Conversation() {
+			Lock lock(state->process_state_mutex);
+			state->conversation = false;
+			state->stop_watchdog();
+		}
+
+		int finish(int result, const char* message) {
+			if (result == TRAX_ERROR)
+				state->print_debug("%s: %s", message, state->client->get_error().c_str());
+			return result;
+		}
+
+	private:
+
+		friend class State;
+
+		// The first conversation of a process, state is already locked.
+		Conversation(State* state, Lock& lock) : state(state) { begin(); }
+
+		void begin() {
+			state->conversation = true;
+			state->start_watchdog();
+		}
+
+		PipeSignalGuard guard;
+		State* state;
+	};
+
+	bool process_ready() {
 		Lock lock(process_state_mutex);
-		return process && process->is_alive();
+		return is_ready();
 	}
 
 	bool start_process() {
 
-		if (process_running()) return false;
+		Lock lock(process_state_mutex);
 
-		if (client) {
-			delete client;
-			client = NULL;
-			print_debug("Deleted stale client");
-		}
+		if (process && process->is_alive()) return false;
+
+		tracking = false;
+
+		release_process();
 
 		print_debug("Creating process %s", command.c_str());
 
-		process_state_mutex.acquire();
 		process = new Process(command, connection == CONNECTION_EXPLICIT);
 		if (!directory.empty()) {
 			print_debug("Working directory is %s", directory.c_str());
 			process->set_directory(directory);
 		}
-		process_state_mutex.release();
 
 		process->copy_environment();
 
@@ -326,123 +437,90 @@ public:
 			char port_buffer[24];
 			sprintf(port_buffer, "%d", socket_port);
 			process->set_environment("TRAX_SOCKET", port_buffer);
+			drop_connections(socket_id);
 		}
 
-		reset_logger();
-
-		bool started = false;
 		print_debug("Starting process");
-		started = process->start();
+
+		bool started = process->start();
+
+		if (started) {
+
+			start_logger();
+
+			sleepf(0.1);
+
+			started = process->is_alive();
+		}
 
 		if (!started) {
 			print_debug("Unable to start process");
+			release_process();
 			throw std::runtime_error("Unable to start the tracker process");
-		} else {
+		}
 
-			sleepf(0.1);
-			if (!process->is_alive()) {
-				print_debug("Unable to start process");
-				throw std::runtime_error("Unable to start the tracker process");
-			}
+		Logging logger = trax_no_log;
+
+		if (verbosity != VERBOSITY_SILENT)
+			logger = Logging(client_logger, this, 0);
+
+		{
+			Conversation introduction(this, lock);
+			int output = process->get_output();
 
-			start_watchdog();
+			process_input = connection == CONNECTION_SOCKETS ? -1 : process->get_input();
 
-			Logging logger = trax_no_log;
+			lock.unlock();
 
-			if (verbosity != VERBOSITY_SILENT)
-				logger = Logging(client_logger, this, 0);
+			Client* connected;
 
 			if (connection == CONNECTION_SOCKETS) {
 				print_debug("Setting up TraX with TCP socket connection");
-				client = new Client(socket_id, logger, timeout);
+				connected = new Client(socket_id, logger, timeout);
 			} else {
 				print_debug("Setting up TraX with %s streams connection", (connection == CONNECTION_EXPLICIT) ? "dedicated" : "standard");
-				client = new Client(process->get_output(), process->get_input(), logger);
+				connected = new Client(output, process_input, logger);
 			}
-			// TODO: check tracker exit state
-			if (!(*client)) {
-				print_debug("Unable to establish connection.");
-				throw std::runtime_error("Unable to establish connection.");
-			}
-
-			stop_watchdog();
-
-			print_debug("Tracker process ID: %d", process->get_handle());
-			int server_version = 0;
-
-			client->get_parameter(TRAX_PARAMETER_VERSION, &server_version);
-
-			if (server_version > TRAX_VERSION) throw std::runtime_error("Unsupported protocol version");
-
-			print_debug("Connection with tracker established.");
-
-			return true;
 
+			MUTEX_SYNCHRONIZE(process_state_mutex) {
+				client = connected;
+				responsive = true;
+			}
 		}
 
-	}
+		lock.lock();
 
+		int server_version = 0;
 
-	bool stop_process() {
-
-		int exit_status = -1;
+		if (!client || !(*client)) {
+			print_debug("Unable to establish connection.");
+			shutdown_process();
+			throw std::runtime_error("Unable to establish connection.");
+		}
 
-		stop_watchdog();
+		print_debug("Tracker process ID: %d", process->get_handle());
 
-		Lock lock(process_state_mutex);
+		client->get_parameter(TRAX_PARAMETER_VERSION, &server_version);
 
-		if (client != NULL) {
-			print_debug("Trying to stop process using protocol.");
-			client->terminate();
+		if (server_version > TRAX_VERSION) {
+			shutdown_process();
+			throw std::runtime_error("Unsupported protocol version");
 		}
 
-		if (process) {
-
-			for (int i = 0; i < 5; i++) {
-				if (!process->is_alive(&exit_status)) break;
-				sleepf(0.1);
-			}
-
-			if (process->is_alive(&exit_status)) {
-				print_debug("Trying to terminate process nicely.");
-				process->stop();
-				for (int i = 0; i < 5; i++) {
-					if (!process->is_alive(&exit_status)) break;
-					sleepf(0.1);
-				}
-
-				if (process->is_alive(&exit_status)) {
-					print_debug("Escalating to brute-force termination.");
-					process->kill();
-					sleepf(0.1);
-					process->is_alive(&exit_status);
-				}
-			}
+		print_debug("Connection with tracker established.");
 
-			flush_streams();
+		return true;
 
-			delete process;
-			process = NULL;
+	}
 
-			print_debug("Process should be terminated.");
 
-			reset_logger();
+	bool stop_process() {
 
-			print_debug("Stopping logger.");
+		Lock lock(process_state_mutex);
 
-			if (exit_status == 0) {
-				print_debug("Tracker exited normally.");
-				return true;
-			} else if (exit_status < 0) {
-				print_debug("Tracker exited (stopped by signal %d)", -exit_status);
-				return false;
-			} else {
-				print_debug("Tracker exited (exit code %d)", exit_status);
-				return false;
-			}
-		}
+		stop_watchdog();
 
-		return true;
+		return shutdown_process();
 
 	}
 
@@ -476,33 +554,6 @@ public:
 
 	}
 
-	void flush_streams() {
-
-		print_debug("Flushing streams");
-
-#ifdef _MSC_VER
-flush_condition.wait(1000);
-			return;
-#endif
-
-		char buffer[LOGGER_BUFFER_SIZE];
-
-		for (int i = 0; i < 10; i++) {
-
-			int read = read_stream(process->get_error(), buffer, LOGGER_BUFFER_SIZE);
-
-			if (read <= 0) break;
-
-			client_logger(buffer, read, this);
-
-			sleepf(0.05);
-
-		}
-
-		flush_condition.wait(1000);
-
-	}
-
 	void print_debug(const char *format, ...) {
 		if (verbosity != VERBOSITY_DEBUG || !logger_stream)
 			return;
@@ -555,27 +606,13 @@ flush_condition.wait(1000);
 
 			run = state->watchdog_active;
 
-			bool terminate = !state->process_running();
+			bool terminate = false;
 
 			for (vector<WatchdogCallback*>::iterator c = state->callbacks.begin(); c != state->callbacks.end(); c++) {
 				terminate |= (*c)();
 			}
 
-			if (terminate) {
-				state->stop_process();
-			} else {
-
-				if (state->watchdog_timeout > 0) {
-
-					state->watchdog_timeout--;
-
-					if (state->watchdog_timeout == 0) {
-						
-						state->stop_process();
-					}
-
-				}
-			}
+			if (run) state->watch_process(terminate);
 
 			state->watchdog_mutex.release();
 
@@ -589,60 +626,33 @@ flush_condition.wait(1000);
 
 		State* state  = (State*) param;
 
-		bool run = true;
-		int err = -1;
-
-		while (run) {
-
-			run = state->logger_active;
-
-			if (err == -1) {
-
-				if (state->process_running()) {
-
-					err = state->process->get_error();
-
-				} else {
+		char buffer[LOGGER_BUFFER_SIZE];
+		int remaining = 1000;
 
-					state->flush_condition.notify();
+		while (remaining > 0) {
 
-				}
-				if (err == -1) {
-					sleep(0);
-					continue;
-				}
+			bool run = true;
 
+			MUTEX_SYNCHRONIZE(state->logger_mutex) {
+				run = state->logger_active;
 			}
 
-			char chr;
-			bool flush = false;
-			int read = read_stream(err, &chr, 1);
+			int read = read_stream(state->logger_stderr, buffer, LOGGER_BUFFER_SIZE);
 
-			if (read != 1) {
-
-				if (state->process_running()) err =  -1;
-				flush = true;
-
-			} else {
-
-				flush = line_buffer_push(state->stderr_buffer, chr, state->line_truncate);
+			if (read < 0) break;
 
+			// The process has ended, but someone else may have its stream open
+			if (!run) {
+				if (read == 0) break;
+				remaining--;
 			}
 
-			if (flush) {
-
-				MUTEX_SYNCHRONIZE(state->logger_mutex) {
-
-					line_buffer_flush(state->stderr_buffer, (state->verbosity != VERBOSITY_SILENT) ? state->logger_stream : NULL);
-
-				}
-
-				if (err == -1) state->flush_condition.notify();
-
-			}
+			state->log(state->stderr_buffer, buffer, read);
 
 		}
 
+		state->log(state->stderr_buffer, NULL, 0);
+
 		state->print_debug("Stopping logger thread");
 
 		return 0;
@@ -653,31 +663,7 @@ flush_condition.wait(1000);
 
 		State* state  = (State*) obj;
 
-		if (!string) {
-
-			MUTEX_SYNCHRONIZE(state->logger_mutex) {
-
-				line_buffer_flush(state->stdout_buffer, state->logger_stream);
-
-			}
-
-		} else {
-
-			for (int i = 0; i < length; i++) {
-
-				if (line_buffer_push(state->stdout_buffer, string[i], state->line_truncate)) {
-
-					MUTEX_SYNCHRONIZE(state->logger_mutex) {
-
-						line_buffer_flush(state->stdout_buffer, state->logger_stream);
-
-					}
-
-				}
-
-			}
-
-		}
+		state->log(state->stdout_buffer, string, length);
 
 	}
 
@@ -688,9 +674,15 @@ flush_condition.wait(1000);
 
 	}
 
+	// The client, the process and the state of the watchdog are protected by process_state_mutex,
+	// the client may also be used without it during a conversation.
 	Client* client;
 	Process* process;
 
+	bool conversation;
+	bool responsive;
+	int process_input;
+
 	vector<WatchdogCallback*> callbacks;
 	string command;
 	map<string, string> environment;
@@ -707,7 +699,9 @@ flush_condition.wait(1000);
 	bool watchdog_active;
 	int watchdog_timeout;
 
+	bool logging;
 	bool logger_active;
+	int logger_stderr;
 	line_buffer stdout_buffer;
 	line_buffer stderr_buffer;
 	int line_truncate;
@@ -722,10 +716,163 @@ flush_condition.wait(1000);
 	THREAD logger_thread;
 
 	THREAD watchdog_thread;
-	Signal flush_condition;
 
 	string directory;
 
+	// The following functions require that process_state_mutex is locked
+
+	bool is_ready() {
+
+		return process && process->is_alive() && client && client->is_alive();
+
+	}
+
+	void watch_process(bool terminate) {
+
+		Lock lock(process_state_mutex);
+
+		if (!process) return;
+
+		if (watchdog_timeout > 0) {
+
+			watchdog_timeout--;
+
+			if (watchdog_timeout == 0) terminate = true;
+
+		}
+
+		if (!process->is_alive()) terminate = !conversation;
+
+		if (terminate) shutdown_process();
+
+	}
+
+	bool shutdown_process() {
+
+		int exit_status = -1;
+
+		if (!process) return true;
+
+		// A tracker that has not answered yet may not read its input
+		if (client && !conversation && (responsive || set_nonblocking(process_input))) {
+			PipeSignalGuard guard;
+			print_debug("Trying to stop process using protocol.");
+			client->terminate();
+		}
+
+		for (int i = 0; i < 5; i++) {
+			if (!process->is_alive(&exit_status)) break;
+			sleepf(0.1);
+		}
+
+		if (process->is_alive(&exit_status)) {
+			print_debug("Trying to terminate process nicely.");
+			process->stop();
+			for (int i = 0; i < 5; i++) {
+				if (!process->is_alive(&exit_status)) break;
+				sleepf(0.1);
+			}
+
+			if (process->is_alive(&exit_status)) {
+				print_debug("Escalating to brute-force termination.");
+				process->kill();
+				sleepf(0.1);
+				process->is_alive(&exit_status);
+			}
+		}
+
+		print_debug("Process should be terminated.");
+
+		if (!conversation) release_process();
+
+		if (exit_status == 0) {
+			print_debug("Tracker exited normally.");
+			return true;
+		} else if (exit_status < 0) {
+			print_debug("Tracker exited (stopped by signal %d)", -exit_status);
+			return false;
+		} else {
+			print_debug("Tracker exited (exit code %d)", exit_status);
+			return false;
+		}
+
+	}
+
+	void release_process() {
+
+		if (!process) return;
+
+		process->kill();
+
+		stop_logger();
+
+		if (client) {
+			PipeSignalGuard guard;
+			set_nonblocking(process_input);
+			delete client;
+			client = NULL;
+		}
+
+		delete process;
+		process = NULL;
+
+	}
+
+	void start_logger() {
+
+		logger_stderr = process->get_error();
+
+		reset_logger();
+
+		if (logger_stderr < 0) return;
+
+		MUTEX_SYNCHRONIZE(logger_mutex) {
+			logger_active = true;
+		}
+
+		logging = CREATE_THREAD(logger_thread, logger_loop, this) == 0;
+
+	}
+
+	void stop_logger() {
+
+		if (!logging) return;
+
+		print_debug("Stopping logger.");
+
+		MUTEX_SYNCHRONIZE(logger_mutex) {
+			logger_active = false;
+		}
+
+		RELEASE_THREAD(logger_thread);
+
+		logging = false;
+
+	}
+
+	// Writes complete lines to the log, without data the current line is completed.
+	void log(line_buffer& buffer, const char* data, int length) {
+
+		MUTEX_SYNCHRONIZE(logger_mutex) {
+
+			ostream* stream = verbosity != VERBOSITY_SILENT ? logger_stream : NULL;
+
+			if (!data && buffer.length > 0) {
+				data = "\n";
+				length = 1;
+			}
+
+			for (int i = 0; i < length; i++) {
+
+				if (line_buffer_push(buffer, data[i], line_truncate))
+					line_buffer_flush(buffer, stream);
+
+			}
+
+		}
+
+	}
+
 };
 
 TrackerProcess::TrackerProcess(const string& command, const map<string, string> environment, int timeout,
@@ -756,18 +903,21 @@ bool TrackerProcess::initialize(const ImageList& image, const Region& region, co
 
 	state->tracking = false;
 
-	state->start_watchdog();
+	int result;
 
-	// Initialize the tracker ...
-	int result = state->client->initialize(image, region, properties);
+	{
+		State::Conversation conversation(state);
 
-	state->stop_watchdog();
+		state->responsive = false;
+
+		// Initialize the tracker ...
+		result = conversation.finish(state->client->initialize(image, region, properties), "Unable to initialize tracker");
+	}
 
 	state->tracking = result == TRAX_OK;
 
 	if (result == TRAX_ERROR) {
 		state->stop_process();
-		std::runtime_error("Unable to initialize tracker: " + state->client->get_error());
 	}
 
 	return result == TRAX_OK;
@@ -781,17 +931,20 @@ bool TrackerProcess::wait(Region& region, Properties& properties) {
 
 	if (!state->tracking) throw std::runtime_error("Tracker not initialized yet.");
 
-	state->start_watchdog();
+	int result;
+
+	{
+		State::Conversation conversation(state);
 
-	int result = state->client->wait(region, properties);
+		result = conversation.finish(state->client->wait(region, properties), "Unable to retrieve response");
 
-	state->stop_watchdog();
+		state->responsive = result == TRAX_STATE;
+	}
 
 	state->tracking = result == TRAX_STATE;
 
 	if (result == TRAX_ERROR) {
 		state->stop_process();
-		std::runtime_error("Unable to retrieve response: " + state->client->get_error());
 	}
 
 	return result == TRAX_STATE;
@@ -804,17 +957,20 @@ bool TrackerProcess::frame(const ImageList& image, const Properties& properties)
 
 	if (!state->tracking) throw std::runtime_error("Tracker not initialized yet.");
 
-	state->start_watchdog();
+	int result;
 
-	int result = state->client->frame(image, properties);
+	{
+		State::Conversation conversation(state);
 
-	state->stop_watchdog();
+		state->responsive = false;
+
+		result = conversation.finish(state->client->frame(image, properties), "Unable to send new frame");
+	}
 
 	state->tracking = result == TRAX_OK;
 
 	if (result == TRAX_ERROR) {
 		state->stop_process();
-		std::runtime_error("Unable to send new frame: " + state->client->get_error());
 	}
 
 	return result == TRAX_OK;
@@ -829,18 +985,21 @@ bool TrackerProcess::initialize(const ImageList& image, const ObjectList& object
 
 	state->tracking = false;
 
-	state->start_watchdog();
+	int result;
 
-	// Initialize the tracker ...
-	int result = state->client->initialize(image, objects, properties);
+	{
+		State::Conversation conversation(state);
 
-	state->stop_watchdog();
+		state->responsive = false;
+
+		// Initialize the tracker ...
+		result = conversation.finish(state->client->initialize(image, objects, properties), "Unable to initialize tracker");
+	}
 
 	state->tracking = result == TRAX_OK;
 
 	if (result == TRAX_ERROR) {
 		state->stop_process();
-		std::runtime_error("Unable to initialize tracker: " + state->client->get_error());
 	}
 
 	return result == TRAX_OK;
@@ -853,17 +1012,20 @@ bool TrackerProcess::wait(ObjectList& objects, Properties& properties) {
 
 	if (!state->tracking) throw std::runtime_error("Tracker not initialized yet.");
 
-	state->start_watchdog();
+	int result;
+
+	{
+		State::Conversation conversation(state);
 
-	int result = state->client->wait(objects, properties);
+		result = conversation.finish(state->client->wait(objects, properties), "Unable to retrieve response");
 
-	state->stop_watchdog();
+		state->responsive = result == TRAX_STATE;
+	}
 
 	state->tracking = result == TRAX_STATE;
 
 	if (result == TRAX_ERROR) {
 		state->stop_process();
-		std::runtime_error("Unable to retrieve response: " + state->client->get_error());
 	}
 
 	return result == TRAX_STATE;
@@ -876,17 +1038,20 @@ bool TrackerProcess::frame(const ImageList& image, const ObjectList& objects, co
 
 	if (!state->tracking) throw std::runtime_error("Tracker not initialized yet.");
 
-	state->start_watchdog();
+	int result;
 
-	int result = state->client->frame(image, objects, properties);
+	{
+		State::Conversation conversation(state);
 
-	state->stop_watchdog();
+		state->responsive = false;
+
+		result = conversation.finish(state->client->frame(image, objects, properties), "Unable to send new frame");
+	}
 
 	state->tracking = result == TRAX_OK;
 
 	if (result == TRAX_ERROR) {
 		state->stop_process();
-		std::runtime_error("Unable to send new frame: " + state->client->get_error());
 	}
 
 	return result == TRAX_OK;
@@ -896,9 +1061,7 @@ bool TrackerProcess::frame(const ImageList& image, const ObjectList& objects, co
 
 bool TrackerProcess::ready() const {
 
-	if (!state || !state->process_running() || !state->client->is_alive()) return false;
-
-	return true;
+	return state && state->process_ready();
 
 }
 
@@ -920,7 +1083,9 @@ bool TrackerProcess::reset() {
 
 bool TrackerProcess::multiobject() const {
 
-	if (!ready()) return false;
+	Lock lock(state->process_state_mutex);
+
+	if (!state->is_ready()) return false;
 	int value = 0;
 	state->client->get_parameter(TRAX_PARAMETER_MULTIOBJECT, &value);
 	return value != 0;
@@ -930,7 +1095,9 @@ bool TrackerProcess::multiobject() const {
 
 Metadata TrackerProcess::metadata() {
 
-	if (!ready()) throw std::runtime_error("Tracker not initialized yet.");
+	Lock lock(state->process_state_mutex);
+
+	if (!state->is_ready()) throw std::runtime_error("Tracker not initialized yet.");
 	return state->client->metadata();
 
 }
-- 
2.43.0


From d1b0318f005932ce3c5c2dbcffbd9fd9d754e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 060/107] fix: convert gray images, masks at an offset and
 submatrices to and from OpenCV, draw masks

---
 support/opencv/opencv.cpp | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index 4289dd6..94290b0 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -27,8 +27,11 @@ cv::Mat image_to_mat(const Image& image) {
 
         cv::Mat result;
 
-        cv::cvtColor(tmp, result, cv::COLOR_BGR2RGB);
-        
+        if (format == TRAX_IMAGE_MEMORY_RGB)
+            cv::cvtColor(tmp, result, cv::COLOR_RGB2BGR);
+        else
+            tmp.copyTo(result);
+
         return result;
     }
     case TRAX_IMAGE_BUFFER: {
@@ -47,7 +50,7 @@ cv::Mat image_to_mat(const Image& image) {
 
 cv::Rect region_to_rect(const Region& region) {
 	
-	float x, y, width, height;
+	float x = 0, y = 0, width = 0, height = 0;
 	cv::Rect rect;
 
 	Region trect = region.convert(TRAX_REGION_RECTANGLE);
@@ -100,7 +103,11 @@ Image mat_to_image(const cv::Mat& mat) {
     Image image = Image::create_memory(mat.cols, mat.rows, format);
     char* dst = image.write_memory_row(0);
     cv::Mat tmp(mat.size(), mat.type(), dst);
-    cv::cvtColor(mat, tmp, cv::COLOR_BGR2RGB);
+
+    if (format == TRAX_IMAGE_MEMORY_RGB)
+        cv::cvtColor(mat, tmp, cv::COLOR_BGR2RGB);
+    else
+        mat.copyTo(tmp);
 
     return image;
 }
@@ -128,12 +135,16 @@ cv::Mat region_to_mat(const Region& region) {
     int height, width, x, y;
     region.get_mask_header(&x, &y, &width, &height);
 
-    cv::Mat result(height + y, width + x, CV_8UC1);
+    // The matrix starts at the origin, what is left of it or above it is cut off.
+    cv::Mat result = cv::Mat::zeros(MAX(0, height + y), MAX(0, width + x), CV_8UC1);
+
+    int offset = MAX(0, -x);
 
-    for (int i = 0; i < height; i++) {
-            const char* data = region.get_mask_row(i);
-            memcpy(&(result.data[(i + y) * width + x]), data, width);
+    if (result.empty()) return result;
 
+    for (int i = MAX(0, -y); i < height; i++) {
+        const char* data = region.get_mask_row(i);
+        memcpy(result.ptr(i + y) + (x + offset), data + offset, width - offset);
     }
     return result;
 
@@ -144,7 +155,10 @@ Region mat_to_region(const cv::Mat& mat) {
     CV_Assert(mat.type() == CV_8UC1);
 
     Region r = Region::create_mask(0, 0, mat.cols, mat.rows);
-    memcpy(r.write_mask_row(0), mat.data, mat.cols * mat.rows);
+
+    for (int i = 0; i < mat.rows; i++) {
+        memcpy(r.write_mask_row(i), mat.ptr(i), mat.cols);
+    }
 
     return r;
 
@@ -186,11 +200,11 @@ void draw_region(cv::Mat& canvas, const Region& region, cv::Scalar color, int wi
             int width = MIN(canvas.cols, mask.cols);
             int height = MIN(canvas.rows, mask.rows);
 
-            cv::Mat stencil = cv::Mat::zeros(cv::Size(height, width), CV_8UC3);
+            if (width < 1 || height < 1) break;
 
-            stencil(cv::Range(0, height), cv::Range(0, width)).setTo(color, mask);
+            cv::Rect common(0, 0, width, height);
 
-            canvas = canvas * (1 - stencil) + stencil;
+            canvas(common).setTo(color, mask(common));
 
             break;
         }
-- 
2.43.0


From e37dd77a6bb08cb3f02d6aab1890b798cb7db659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:37 +0000
Subject: [PATCH 061/107] fix: make the points of a polygon iterable

---
 support/python/trax/region.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/support/python/trax/region.py b/support/python/trax/region.py
index 230dc2a..7647401 100644
--- a/support/python/trax/region.py
+++ b/support/python/trax/region.py
@@ -214,6 +214,10 @@ if (sys.version_info > (3, 0)):
             self.position = 0
             self.size = polygon.size()
 
+        def __iter__(self):
+            """An iterator is its own iterator."""
+            return self
+
         def __next__(self):
             """Next element in the polygon.
             
@@ -235,6 +239,10 @@ else:
             self.position = 0
             self.size = polygon.size()
 
+        def __iter__(self):
+            """An iterator is its own iterator."""
+            return self
+
         def next(self):
             """Next element in the polygon."""
             if self.position == self.size:
-- 
2.43.0


From 66e0c3ce753e27c6e9335b883792b6c770df7c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 062/107] fix: copy masks from arrays of any layout and crop
 them at negative offsets

---
 support/python/trax/region.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/region.py b/support/python/trax/region.py
index 7647401..435c421 100644
--- a/support/python/trax/region.py
+++ b/support/python/trax/region.py
@@ -352,6 +352,8 @@ class Mask(Region):
         """
         assert(len(source.shape) == 2 and source.dtype == np.uint8)
 
+        source = np.ascontiguousarray(source)
+
         mask = cast(trax_region_create_mask(x, y, source.shape[1], source.shape[0]), c_void_p)
 
         data = trax_region_write_mask_row(mask, 0)
@@ -416,7 +418,8 @@ class Mask(Region):
         return x.value, y.value
 
     def array(self, normalize=False):
-        """Returns the mask region object as a numpy array. If normalize is True, the mask is padded with zeros for the offset.
+        """Returns the mask region object as a numpy array. If normalize is True, the mask is padded with zeros for the offset
+        or cropped if the offset is negative.
         
         Args:
             normalize (bool, optional): whether to normalize the mask by adding the offset. Defaults to False.
@@ -437,4 +440,6 @@ class Mask(Region):
         if not normalize:
             return mat
 
-        return np.pad(mat, pad_width=[(y.value, 0), (x.value, 0)], mode='constant')
+        mat = mat[max(0, -y.value):, max(0, -x.value):]
+
+        return np.pad(mat, pad_width=[(max(0, y.value), 0), (max(0, x.value), 0)], mode='constant')
-- 
2.43.0


From 7f10c0dd3f3a0567af66a479514f3dd78afa7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 063/107] fix: name the formats of encoded images as the
 library does

---
 support/python/trax/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/image.py b/support/python/trax/image.py
index 375c46b..cfa7979 100644
--- a/support/python/trax/image.py
+++ b/support/python/trax/image.py
@@ -314,8 +314,8 @@ class MemoryImage(Image):
             raise TraxException("NumPy is not installed")
 
 
-IMAGE_BUFFER_JPEG = 1
-IMAGE_BUFFER_PNG = 2
+IMAGE_BUFFER_PNG = 1
+IMAGE_BUFFER_JPEG = 2
 
 _image_buffer_map_string = {IMAGE_BUFFER_JPEG : "jpeg", IMAGE_BUFFER_PNG: "png"}
 
-- 
2.43.0


From 760da6042bebe3065700eb4c0c46cc4f65d82668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 064/107] fix: take images of unsigned values only and in any
 byte order

---
 support/python/trax/image.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/image.py b/support/python/trax/image.py
index cfa7979..9b24e36 100644
--- a/support/python/trax/image.py
+++ b/support/python/trax/image.py
@@ -253,10 +253,15 @@ class MemoryImage(Image):
 
             assert(isinstance(image, np.ndarray))
 
-            image = np.ascontiguousarray(image)
+            # The library stores unsigned values in native byte order
+            if image.dtype.kind == "u" and image.itemsize <= 2:
+                image = np.ascontiguousarray(image, dtype=image.dtype.newbyteorder("="))
+            elif image.dtype.kind == "b":
+                image = np.ascontiguousarray(image, dtype=np.uint8)
+            else:
+                raise TraxException("Image format not supported")
 
         except ImportError:
-            from . import TraxException
             raise TraxException("Numpy is not installed")
 
         width = image.shape[1]
-- 
2.43.0


From d57eb9d368d1220db4da63caa853940a1d177d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 065/107] fix: read properties by subscript, copy them and
 release what is read

---
 support/python/trax/__init__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 20beec5..db18a30 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -13,7 +13,7 @@ from ctypes import py_object, c_void_p, cast, byref, POINTER
 
 from ._ctypes import \
     trax_properties_create, \
-    trax_properties_get, trax_properties_set, trax_object_list, \
+    trax_properties_set, trax_object_list, \
     trax_image_release, trax_region_release, trax_object_list_release, \
     trax_cleanup, trax_properties_release, trax_image_list_release, \
     struct_trax_handle, struct_trax_image, struct_trax_image_list, \
@@ -398,6 +398,11 @@ class Properties(object):
             self._ref = PropertiesWrapper(trax_properties_create())
             for key, value in data.items():
                 trax_properties_set(self._ref.reference, key.encode('utf8'), str(value).encode('utf8'))
+        elif isinstance(data, Properties):
+            self._ref = PropertiesWrapper(trax_properties_create())
+            self.copy(data)
+        else:
+            raise TraxException("Not a set of properties")
 
     def copy(self, source: "Properties"):
         """ Copy properties from another properties structure.
@@ -423,7 +428,10 @@ class Properties(object):
         Args:
             key (str): property key
         """
-        return trax_properties_get(self._ref.reference, key)
+        value = self.get(key)
+        if value is None:
+            raise KeyError(key)
+        return value
 
     def __setitem__(self, key: str, value: str):
         """ Set a property value.
@@ -444,10 +452,8 @@ class Properties(object):
         Returns:
             str: property value
         """
-        value = trax_properties_get(self._ref.reference, key.encode('utf8'))
-        if value == None:
-            return default
-        return value.decode('utf8') if not value is None else None
+        # The string returned by trax_properties_get would have to be released
+        return self.dict().get(key, default)
 
     def set(self, key: str, value: str):
         """ Set a property value.
-- 
2.43.0


From a62a9fb547bfaff78ddef9f559003b71ac7b96d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:17 +0000
Subject: [PATCH 066/107] fix: connect a Python client without a log and report
 the reason of a failed connection

---
 support/python/trax/client.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 6251107..aee7407 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -45,7 +45,7 @@ class Client(object):
         else:
             self._logger = None
 
-        self._clogger = trax_logger(self._logger) if not self._logger is None else None
+        self._clogger = trax_logger(self._logger) if not self._logger is None else trax_logger()
 
         logger = trax_logger_setup(self._clogger, 0, 0)
 
@@ -68,6 +68,9 @@ class Client(object):
         else:
             raise TraxException("Invalid parameters")
 
+        if handle:
+            self._handle = HandleWrapper(handle)
+
         if self._logger and self._logger.interrupted:
             raise KeyboardInterrupt("Interrupted by user in log callback")
 
@@ -75,12 +78,10 @@ class Client(object):
             raise TraxException("Unable to connect to tracker")
 
         if trax_is_alive(handle) == 0:
-            message = trax_get_error(handle.reference)
+            message = trax_get_error(handle)
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when connecting to tracker: {}".format(message))
 
-        self._handle = HandleWrapper(handle)
-
         metadata = self._handle.reference.contents.metadata
 
         self._format_region = Region.decode_list(metadata.contents.format_region)
@@ -202,8 +203,6 @@ class Client(object):
         if self._logger and self._logger.interrupted:
             raise KeyboardInterrupt("Interrupted by user in log callback")
 
-        if status == TraxStatus.ERROR:
-            raise TraxException("Exception when waiting for response")
         if status == TraxStatus.QUIT:
             reason = properties.get("trax.reason", None)
             if reason is None:
-- 
2.43.0


From 4e68c9ad4266e7dee3aadb6ada486b2273a40e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:54 +0000
Subject: [PATCH 067/107] fix: send a frame without new objects from Python

---
 support/python/trax/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index aee7407..6abefb0 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -232,7 +232,7 @@ class Client(object):
         """
 
         timage = wrap_images(images)
-        tobjects = wrap_objects(objects)
+        tobjects = wrap_objects(objects if not objects is None else [])
         tproperties = Properties(properties)
 
         status = TraxStatus.decode(trax_client_frame(self._handle.reference, timage.reference, tobjects.reference, tproperties.reference))
-- 
2.43.0


From ee497e61e41265ad051510fba44ebfeb71116069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 068/107] fix: deliver the properties of a Python server's
 reply, allow a session to be ended twice, report failures of the set-up

---
 support/python/trax/server.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index b969e5d..fbc941b 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -8,7 +8,7 @@ import collections
 from ctypes import byref, cast, py_object
 
 __all__ = \
-    ['Server', 'Rquest']
+    ['Server', 'Request']
 
 from .image import ImageChannel, Image
 from .region import Region
@@ -20,7 +20,8 @@ from ._ctypes import \
         trax_server_wait, trax_server_reply, \
         trax_image_list_release,  \
         trax_logger, trax_terminate, \
-        trax_is_alive, trax_get_error, trax_object_list_release
+        trax_is_alive, trax_get_error, trax_object_list_release, \
+        trax_properties_append, trax_object_list_properties
 
 
 class Request(collections.namedtuple('Request', ['type', 'image', 'objects', 'properties'])):
@@ -78,13 +79,13 @@ class Server(object):
         if not handle:
             raise TraxException("Exception when setting up.")
 
+        self._handle = HandleWrapper(handle)
+
         if trax_is_alive(handle) == 0:
-            message = trax_get_error(handle.reference)
+            message = trax_get_error(handle)
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when setting up: {}".format(message))
 
-        self._handle = HandleWrapper(handle)
-
     def wait(self):
         """ Wait for client message request. Recognize it and parse them when received .
 
@@ -93,6 +94,9 @@ class Server(object):
         """
         from . import TraxException, Properties, TraxStatus, wrap_image_list, wrap_object_list, trax_image_list_p, trax_object_list_p
 
+        if self._handle is None:
+            raise TraxException("Session terminated")
+
         timage = trax_image_list_p()
         tobjects = trax_object_list_p()
         properties = Properties()
@@ -134,9 +138,19 @@ class Server(object):
         from . import TraxException, TraxStatus, Properties, wrap_objects
 
         assert(isinstance(objects, list))
-        tproperties = Properties(properties)
+
+        if self._handle is None:
+            raise TraxException("Session terminated")
+
         tobjects = wrap_objects(objects)
-        status = TraxStatus.decode(trax_server_reply(self._handle.reference, tobjects.reference, tproperties.reference))
+
+        if properties:
+            # A reply has no properties of its own, every object carries them
+            tproperties = Properties(properties)
+            for i in range(len(objects)):
+                trax_properties_append(tproperties.reference, trax_object_list_properties(tobjects.reference, i), 0)
+
+        status = TraxStatus.decode(trax_server_reply(self._handle.reference, tobjects.reference))
 
         if status == TraxStatus.ERROR:
             message = trax_get_error(self._handle.reference)
@@ -161,6 +175,9 @@ class Server(object):
         """ Sends quit message and end terminates communication. """
         from . import TraxException, TraxStatus
 
+        if self._handle is None:
+            return
+
         if not reason is None:
             status = TraxStatus.decode(trax_terminate(self._handle.reference, reason.encode('utf-8')))
         else:
-- 
2.43.0


From 3ca61073c0955684f20ec6babe8c2e9b9cc5adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 069/107] fix: log exactly what is said: no reading past the
 end, characters divided between calls, a log in the working directory

---
 support/python/trax/__init__.py | 12 ++++++++----
 support/python/trax/_ctypes.py  |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index db18a30..4c9d5fa 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -6,6 +6,7 @@ __all__ = \
     'MemoryImage', 'BufferImage', 'Region', 'Image', 'Polygon',
     'Rectangle', 'Special', 'Mask', 'TraxStatus', 'Properties']
 
+import codecs
 import os
 import traceback
 import weakref
@@ -70,12 +71,14 @@ class Logger(object):
     def __init__(self):
         """ Initialize logger"""
         self._interrupted = False
+        # Characters can be divided between calls
+        self._decoder = codecs.getincrementaldecoder("utf-8")("replace")
 
     def __call__(self, buffer, length, _):
         """ Call logger with buffer and length, this method is called from C code, handles buffer decoding and calls handle() method. It also handles KeyboardInterrupt exception.
         
         Args:
-            buffer (bytes): buffer to decode
+            buffer (ctypes.POINTER(ctypes.c_char)): buffer to decode, not terminated
             length (int): length of the buffer
             _ (ctypes.c_void_p): unused
             
@@ -83,8 +86,9 @@ class Logger(object):
         try:
             if not buffer:
                 return
-            message = buffer[:length].decode("utf-8")
-            self.handle(message)
+            message = self._decoder.decode(buffer[:length])
+            if message:
+                self.handle(message)
         except KeyboardInterrupt:
             self._interrupted = True
 
@@ -122,7 +126,7 @@ class FileLogger(Logger):
             filename (str): name of the file to write messages to
         """
         super().__init__()
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
+        os.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
         self._fp = open(filename, "w")
 
     def handle(self, message: str):
diff --git a/support/python/trax/_ctypes.py b/support/python/trax/_ctypes.py
index a4e12e0..be242e7 100644
--- a/support/python/trax/_ctypes.py
+++ b/support/python/trax/_ctypes.py
@@ -600,7 +600,7 @@ struct_trax_bounds._fields_ = [
 
 trax_bounds = struct_trax_bounds# /home/lukacu/Checkouts/vot/trax/include/trax.h: 168
 
-trax_logger = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_int32, ctypes.c_void_p)
+trax_logger = ctypes.CFUNCTYPE(None, POINTER(ctypes.c_char), ctypes.c_int32, ctypes.c_void_p)
 trax_enumerator = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_void_p)
 
 # /home/lukacu/Checkouts/vot/trax/include/trax.h: 181
-- 
2.43.0


From 76d21f6be43ce1ae225a00358a3ff1b07075f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 070/107] fix: keep the log callback of a Python session until
 its handle is released

---
 support/python/trax/__init__.py | 8 ++++++--
 support/python/trax/client.py   | 2 +-
 support/python/trax/server.py   | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 4c9d5fa..8ab75ad 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -300,14 +300,18 @@ class PropertiesWrapper(Wrapper):
 class HandleWrapper(Wrapper):
     """ Wrapper for trax_handle_t structure."""
 
-    def __init__(self, reference, owner=True):
+    def __init__(self, reference, owner=True, logger=None):
         """ Initialize wrapper with reference to trax_handle_t structure.
         
         Args:
             reference (c_void_p): reference to trax_handle_t structure
             owner (bool): whether to take ownership of the structure
+            logger (trax_logger): callback that the structure uses, kept until the structure is released
         """
-        super().__init__(POINTER(struct_trax_handle), reference, lambda x: trax_cleanup(byref(x)) if owner else None)
+        def finalizer(x, logger=logger):
+            if owner:
+                trax_cleanup(byref(x))
+        super().__init__(POINTER(struct_trax_handle), reference, finalizer)
 
 def wrap_image_list(list):
     """ Wrap image list internal C structure into a dictionary of images.
diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 6abefb0..78b6e5e 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -69,7 +69,7 @@ class Client(object):
             raise TraxException("Invalid parameters")
 
         if handle:
-            self._handle = HandleWrapper(handle)
+            self._handle = HandleWrapper(handle, logger=self._clogger)
 
         if self._logger and self._logger.interrupted:
             raise KeyboardInterrupt("Interrupted by user in log callback")
diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index fbc941b..8d1e9b9 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -79,7 +79,7 @@ class Server(object):
         if not handle:
             raise TraxException("Exception when setting up.")
 
-        self._handle = HandleWrapper(handle)
+        self._handle = HandleWrapper(handle, logger=self._logger)
 
         if trax_is_alive(handle) == 0:
             message = trax_get_error(handle)
-- 
2.43.0


From 7fd4aa6e301f76a8aa9f4b8f5aebf7a1d1a5bda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:01 +0000
Subject: [PATCH 071/107] fix: record a time for the frames without
 initialization

---
 support/client/cli.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index d47e39c..54999c5 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -627,6 +627,7 @@ int main( int argc, char** argv) {
                     if (!initialization[frame].empty()) break;
                     print_debug("Skipping frame %d, no initialization data. \n", (int) frame);
                     output.push_back(Region::create_special(0));
+                    timings.push_back(0);
                 }
 
                 if (frame == images.size()) break;
-- 
2.43.0


From 56f035feab47a290be84ea7078cc3414ea80d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 072/107] fix: read the last line of an image list that is not
 terminated

---
 support/client/cli.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 54999c5..7422c27 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -311,8 +311,7 @@ void read_images(const string& file, vector<vector<string> >& list) {
     while (true) {
         string line;
         vector<string> images;
-        getline(input, line);
-        if (!input.good()) break;
+        if (!getline(input, line)) break;
 
         size_t pos = 0;
         std::string token;
-- 
2.43.0


From 211c7802eef0d7d16f3a5ceba1e22955aa004c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 073/107] fix: do not read behind the end of an initialization
 file that is shorter than the sequence

---
 support/client/cli.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 7422c27..11e34b0 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -607,6 +607,8 @@ int main( int argc, char** argv) {
             if (!initialization_file.empty()) {
                 load_trajectory(initialization_file, initialization);
                 print_debug("Initialization loaded from file %s.\n", initialization_file.c_str());
+                // No initialization for the frames that are not in the file
+                initialization.resize(images.size());
             } else {
                 initialization = vector<Region>(groundtruth.begin(), groundtruth.end());
             }
-- 
2.43.0


From 420baaada08350036f9732cc60e72e8d9f0b80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 074/107] fix: send the channels and image formats that the
 tracker declares, not the other way around

---
 support/client/cli.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 11e34b0..a2e3188 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -642,7 +642,7 @@ int main( int argc, char** argv) {
                 Metadata metadata = tracker.metadata();
 
                 Region initialize = initialization[frame];
-                ImageList image = load_images(images[frame], metadata.image_formats(), metadata.channels());
+                ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                 // Start timing a frame
                 double timing_elapsed;
@@ -712,7 +712,7 @@ int main( int argc, char** argv) {
                     if (frame >= images.size()) break;
 
                     print_debug("Loading frame images.\n");
-                    ImageList image = load_images(images[frame], metadata.image_formats(), metadata.channels());
+                    ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                     // Start timing a frame
                     timing_start = timer_clock();
-- 
2.43.0


From 104113defa4f1957b6bba3f74e150e4aa10faf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:15 +0000
Subject: [PATCH 075/107] fix: report an image file that cannot be read

---
 support/client/cli.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index a2e3188..78958cb 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -374,7 +374,9 @@ Image load_image(string& path, int formats) {
     }
     case TRAX_IMAGE_BUFFER: {
         // Read the file to memory
-        std::ifstream t(path.c_str());
+        std::ifstream t(path.c_str(), std::ios::in | std::ios::binary);
+        if (!t.is_open())
+            throw std::runtime_error("Unable to read image file.");
         t.seekg(0, std::ios::end);
         size_t size = t.tellg();
         std::string buffer(size, ' ');
-- 
2.43.0


From 3661bf293fc247413fceee50969cc683d3cf4149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:43 +0000
Subject: [PATCH 076/107] fix: report an image file that cannot be decoded

---
 support/client/cli.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 78958cb..ac9861b 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -388,6 +388,8 @@ Image load_image(string& path, int formats) {
 #ifdef TRAX_BUILD_OPENCV
     case TRAX_IMAGE_MEMORY: {
         cv::Mat cvmat = cv::imread(path);
+        if (cvmat.empty())
+            throw std::runtime_error("Unable to read image file.");
         image = trax::mat_to_image(cvmat);
         break;
     }
-- 
2.43.0


From a3acf80875712abd9af390de7c0f350516f3c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:26 +0000
Subject: [PATCH 077/107] fix: bound the overlap by the size of the image of
 the frame, not of the one of the initialization

---
 support/client/cli.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index ac9861b..ece064f 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -716,7 +716,7 @@ int main( int argc, char** argv) {
                     if (frame >= images.size()) break;
 
                     print_debug("Loading frame images.\n");
-                    ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
+                    image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                     // Start timing a frame
                     timing_start = timer_clock();
-- 
2.43.0


From 444b210ca17abbdab011d9f1f7dcae7859b5c677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 078/107] fix: image size of the bounded overlap: memory
 images, encoded images, JPEG files with other headers, unknown sizes

---
 support/client/cli.cpp | 82 +++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 50 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index ece064f..a1dfd31 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -191,73 +191,52 @@ typedef struct image_size {
 // Retrieve image size from image header
 image_size image_get_size(Image image) {
 
-    int len;
     image_size result;
-    unsigned char buf[24];
+    string data;
+
+    result.width = -1;
+    result.height = -1;
 
     if (image.type() == TRAX_IMAGE_MEMORY) {
 
-        image.get_memory_header(&result.width, &result.height, NULL);
+        int format;
+        image.get_memory_header(&result.width, &result.height, &format);
         return result;
 
     }
 
     if (image.type() == TRAX_IMAGE_PATH) {
-        const string filename = image.get_path();
-        int r;
-
-        result.width = -1;
-        result.height = -1;
-
-        FILE *f=fopen(filename.c_str(),"rb");
-        if ( f==0 ) return result;
-
-        fseek(f,0,SEEK_END);
-        int len=ftell(f);
-        fseek(f,0,SEEK_SET);
-
-        if (len<24) {fclose(f); return result;}
-
-        // Strategy:
-        // reading GIF dimensions requires the first 10 bytes of the file
-        // reading PNG dimensions requires the first 24 bytes of the file
-        // reading JPEG dimensions requires scanning through jpeg chunks
-        // In all formats, the file is at least 24 bytes big, so we'll read that always    
-        r = fread(buf,1,24,f);
-        if (r == -1) {
-            return result;
-        }
 
-        // For JPEGs, we need to read the first 12 bytes of each chunk.
-        // We'll read those 12 bytes at buf+2...buf+14, i.e. overwriting the existing buf.
-        if (buf[0]==0xFF && buf[1]==0xD8 && buf[2]==0xFF && buf[3]==0xE0 && buf[6]=='J' && buf[7]=='F' && buf[8]=='I' && buf[9]=='F') {
-            long pos=2;
-            while (buf[2]==0xFF) {
-                if (buf[3]==0xC0 || buf[3]==0xC1 || buf[3]==0xC2 || buf[3]==0xC3 || buf[3]==0xC9 || buf[3]==0xCA || buf[3]==0xCB) break;
-                pos += 2+(buf[4]<<8)+buf[5];
-                if (pos+12>len) break;
-                fseek(f,pos,SEEK_SET);
-                r = fread(buf+2,1,12,f);
-                if (r == -1) { return result; }
-            }
-        }
+        std::ifstream input(image.get_path().c_str(), std::ios::in | std::ios::binary);
+        data.assign(std::istreambuf_iterator<char>(input), std::istreambuf_iterator<char>());
 
-        fclose(f);
-        
     } else if (image.type() == TRAX_IMAGE_BUFFER) {
 
-        const char* src = image.get_buffer(&len, NULL);
+        int length, format;
+        const char* buffer = image.get_buffer(&length, &format);
+        data.assign(buffer, length);
 
-        if (len<24) { return result; }
+    }
 
-        memcpy(buf, src, 24);
+    const unsigned char* buf = (const unsigned char*) data.data();
+    const size_t len = data.size();
 
-    }
+    // In all formats, the file is at least 24 bytes big
+    if (len < 24) return result;
 
-    // JPEG: (first two bytes of buf are first two bytes of the jpeg file; rest of buf is the DCT frame
+    // JPEG: the dimensions are in the frame header, scan the segments that are before it
     if (buf[0]==0xFF && buf[1]==0xD8 && buf[2]==0xFF) {
-        result.height = (buf[7]<<8) + buf[8];
-        result.width = (buf[9]<<8) + buf[10];
+        size_t pos = 2;
+        while (pos + 9 <= len && buf[pos] == 0xFF) {
+            unsigned char marker = buf[pos+1];
+            if (marker == 0xFF) { pos++; continue; } // Padding
+            if (marker >= 0xC0 && marker <= 0xCF && marker != 0xC4 && marker != 0xC8 && marker != 0xCC) {
+                result.height = (buf[pos+5]<<8) + buf[pos+6];
+                result.width = (buf[pos+7]<<8) + buf[pos+8];
+                break;
+            }
+            pos += 2 + (buf[pos+2]<<8) + buf[pos+3];
+        }
     }
 
     // GIF: first three bytes say "GIF", next three give version number. Then dimensions
@@ -291,6 +270,8 @@ image_size image_get_size(ImageList image) {
     }
 
     image_size size;
+    size.width = -1;
+    size.height = -1;
     return size;
 }
 
@@ -678,7 +659,8 @@ int main( int argc, char** argv) {
                         if (overlap_bounded) {
                             image_size is = image_get_size(image);
                             print_debug("Bounds for overlap calculation %dx%d\n", is.width, is.height);
-                            bounds = Bounds(0, 0, is.width, is.height);
+                            if (is.width > 0 && is.height > 0)
+                                bounds = Bounds(0, 0, is.width, is.height);
                         }
 
                         float overlap = reference.overlap(status, bounds);
-- 
2.43.0


From 2370115a5f3b826646b142c82ededad831f727fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 079/107] fix: accept JPEG buffers that do not begin with a
 JFIF segment (Exif and others) instead of aborting

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 5588d13..4eb5bb8 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -135,10 +135,10 @@ char* parse_uri(char* buffer) {
 int verify_image_format(const char* buffer) {
 
     int i;
-    char jpeg_prefix[] = { (char) 255, (char) 216, (char) 255, (char) 224 };
+    char jpeg_prefix[] = { (char) 255, (char) 216, (char) 255 };
     char png_prefix[] = { (char) 137, (char) 80, (char) 78, (char) 71 };
 
-    for (i = 0; i < 4; i++) {
+    for (i = 0; i < 3; i++) {
         if (buffer[i] != jpeg_prefix[i])
             goto png;
     }
-- 
2.43.0


From 04c1c987f1af6f1842b533ad77296fce52212654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 080/107] fix: read the URL of a URL image in the MATLAB
 bindings

---
 support/matlab/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 37e4803..3f09f50 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -323,7 +323,7 @@ mxArray* image_to_array(const Image& img) {
         break;
     }
     case TRAX_IMAGE_URL: {
-        std::string s = img.get_path();
+        std::string s = img.get_url();
         const char* cp = s.c_str();
         val = mxCreateCharMatrixFromStrings(1, &cp);
         break;
-- 
2.43.0


From 59a9ca63ea4bf0cb4951739082a3890cffa9de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 081/107] fix: end a MATLAB session without a reason, release
 it when the set-up or the quit message fails, refuse a second set-up

---
 support/matlab/traxserver.cpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index 471b5ff..23fecb2 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -42,6 +42,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
     if (operation == "setup") {
 
+        if (handle) { MEX_ERROR("Protocol already initialized."); return; }
+
         if ( nrhs < 3 ) { MEX_ERROR("At least three parameters required."); return; }
 
         if ( nlhs > 1 ) { MEX_ERROR("At most one output argument supported."); return; }
@@ -99,12 +101,12 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         handle = new Server(metadata, trax_no_log);
 
-        if (!handle)
-            MEX_ERROR("Unable to initialize protocol.");
-
         if (!handle->is_alive()) {
             std::string tmp("Unable to initialize protocol: " + handle->get_error());
+            delete handle;
+            handle = NULL;
             MEX_ERROR(tmp.c_str());
+            return;
         }
 
         if (nlhs == 1)
@@ -190,23 +192,29 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
     } else if (operation == "quit") {
 
-        if (!handle)
-            return;
+        if ( nrhs > 2 ) { MEX_ERROR("Only one optional string argument allowed."); return; }
+
+        if ( nlhs > 1 ) { MEX_ERROR("At most one output argument supported."); return; }
 
         std::string reason;
 
-        if (nrhs > 2)
-            MEX_ERROR("Only one optional string argument allowed.");
-        else
+        if (nrhs == 2)
             reason = get_string(prhs[1]);
 
-        if (handle->terminate(reason) == TRAX_ERROR) {
-            std::string tmp("Unable to terminate protocol: " + handle->get_error());
-            MEX_ERROR(tmp.c_str());
+        if (handle) {
+            std::string error;
+
+            if (!handle->terminate(reason))
+                error = "Unable to terminate protocol: " + handle->get_error();
+
+            delete handle;
+            handle = NULL;
+
+            if (!error.empty()) { MEX_ERROR(error.c_str()); return; }
         }
 
-		if (handle) delete handle;
-		handle = NULL;
+        if (nlhs == 1)
+            plhs[0] = mxCreateLogicalScalar(true);
 
     } else {
         MEX_ERROR("Unknown operation.");
-- 
2.43.0


From 5744c03519d14d1d6466bdf748e32075853b0758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:34 +0000
Subject: [PATCH 082/107] fix: crop masks at negative offsets in the MATLAB
 bindings

---
 support/matlab/helpers.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 3f09f50..dfa6eaa 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -290,17 +290,19 @@ mxArray* region_to_array(const Region& region) {
         int x, y, width, height;
         region.get_mask_header(&x, &y, &width, &height);
         mwSize dims[2];
-        dims[0] = height + y;
-        dims[1] = width + x;
-        
+        // Pixels at negative coordinates have no place in a matrix
+        dims[0] = max(0, height + y);
+        dims[1] = max(0, width + x);
+
+
         val = mxCreateNumericArray(2, dims, mxUINT8_CLASS, mxREAL);
         char *data = (char*) mxGetPr(val);
         memset(data, 0, dims[0] * dims[1]);
 
-        for (int i = 0; i < height; i++) {
+        for (int i = max(0, -y); i < height; i++) {
             const char *row = region.get_mask_row(i);
-            for (int j = 0; j < width; j++) {
-                *(data + (j + x) * (height + y) + y + i) = row[j];          
+            for (int j = max(0, -x); j < width; j++) {
+                data[(j + x) * dims[0] + y + i] = row[j];
             }
         }
 
-- 
2.43.0


From 9abc13d0479445ea1585c4b910b73507378d49a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 083/107] fix: give every property a field of its own in MATLAB
 structures

---
 support/matlab/helpers.cpp | 49 ++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index dfa6eaa..8d53a1d 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -1,5 +1,6 @@
 
 #include <algorithm>
+#include <set>
 
 #include "helpers.h"
 
@@ -152,20 +153,30 @@ mxArray* parameters_to_cell(Properties& input) {
 
 void _param_names_enumerator(const char *key, const char *value, const void *obj) {
 
-	int i;
-    char*** fieldnames = (char ***) obj;
-    int len = strlen(key);
+    ((vector<string> *) obj)->push_back(key);
 
-	**fieldnames = (char*)mxMalloc(len+1);
+}
 
-	memcpy(**fieldnames, key, len+1);
+// Turns property names to field names: letters, digits and underscores, not starting with a digit, each name once
+static vector<string> field_names(const vector<string>& keys) {
 
-	for (i = 1; i < len; i++) {
-		if (!isalnum((**fieldnames)[i]) && (**fieldnames)[i] != '_')
-			(**fieldnames)[i] = '_';
-	}
+    vector<string> names(keys);
+    set<string> used;
+
+    for (size_t i = 0; i < keys.size(); i++) {
+        for (size_t j = 0; j < keys[i].size(); j++) {
+            if (!isalnum((unsigned char) keys[i][j])) names[i][j] = '_';
+        }
+        if (names[i].empty() || isdigit((unsigned char) names[i][0])) names[i] = "x" + names[i];
+        if (names[i] == keys[i]) used.insert(names[i]);
+    }
 
-    (*fieldnames) ++;
+    for (size_t i = 0; i < keys.size(); i++) {
+        if (names[i] == keys[i]) continue;
+        while (!used.insert(names[i]).second) names[i] += "_";
+    }
+
+    return names;
 }
 
 void _param_struct_enumerator(const char *key, const char *value, const void *obj) {
@@ -183,24 +194,20 @@ void _param_struct_enumerator(const char *key, const char *value, const void *ob
 
 mxArray* parameters_to_struct(Properties& input) {
 
-    int length = 0;
+    vector<string> keys;
 
-    input.enumerate(_param_count_enumerator, &length);
+    input.enumerate(_param_names_enumerator, &keys);
 
-	char **fieldnames = (char **) mxMalloc(sizeof(char*) * length);
+    vector<string> names = field_names(keys);
+    vector<const char*> fieldnames;
 
-    char **fields = fieldnames;
-	input.enumerate(_param_names_enumerator, &fields);
+    for (size_t i = 0; i < names.size(); i++) fieldnames.push_back(names[i].c_str());
 
     _param_copy tmp;
 
-    tmp.array = mxCreateStructMatrix(1, 1, length,  (const char **) fieldnames);
+    tmp.array = mxCreateStructMatrix(1, 1, (int) fieldnames.size(), fieldnames.data());
     tmp.pos = 0;
-    tmp.length = length;
-
-    for (int i = 0; i < length; i++) mxFree(fieldnames[i]);
- 
-    mxFree(fieldnames);
+    tmp.length = (int) fieldnames.size();
 
     input.enumerate(_param_struct_enumerator, &tmp);
 
-- 
2.43.0


From 6046771566fa559949224e794b17aa35c733650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 084/107] fix: accept the documented name of the MATLAB state
 operation

---
 support/matlab/traxserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index 23fecb2..8952714 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -166,7 +166,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         }
 
-    } else if (operation == "status") {
+    } else if (operation == "status" || operation == "state") {
 
         if (!handle) { MEX_ERROR("Protocol not initialized."); return; }
 
-- 
2.43.0


From 2cfb11dd3a0a479a1d25f408c0ed1cd1eafb2c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:37 +0000
Subject: [PATCH 085/107] fix: refuse matrices that are no region in the MATLAB
 bindings

---
 support/matlab/helpers.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 8d53a1d..06209b7 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -218,12 +218,10 @@ mxArray* parameters_to_struct(Properties& input) {
 Region array_to_region(const mxArray* input) {
 
     Region p;
-    int l = mxGetN(input);
 
-    if (mxIsUint8(input)) {
+    if (mxGetNumberOfDimensions(input) == 2 && mxIsUint8(input)) {
 
-        int i = 0;
-        int width = l;
+        int width = mxGetN(input);
         int height = mxGetM(input);
         char *r = (char*)mxGetPr(input);
 
@@ -232,13 +230,14 @@ Region array_to_region(const mxArray* input) {
         for (int i = 0; i < height; i++) {
             char *row = p.write_mask_row(i);
             for (int j = 0; j < width; j++) {
-                row[j] = r[j * (height) + i];          
+                row[j] = r[j * (height) + i] != 0;
             }
         }
 
         return p;
-    } else if (mxGetClassID(input) == mxDOUBLE_CLASS) {
+    } else if (mxGetClassID(input) == mxDOUBLE_CLASS && mxGetNumberOfDimensions(input) == 2 && mxGetM(input) == 1) {
         double *r = (double*)mxGetPr(input);
+        int l = mxGetN(input);
 
         if (l % 2 == 0 && l >= 6) {
 
@@ -259,6 +258,7 @@ Region array_to_region(const mxArray* input) {
     }
 
     MEX_ERROR("Illegal region format.");
+    return p;
 
 }
 
-- 
2.43.0


From 884b16cf464c0803e84c989838f5e23a7fda1ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 086/107] fix: refuse empty masks in the MATLAB bindings

---
 support/matlab/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 06209b7..5830fde 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -219,7 +219,7 @@ Region array_to_region(const mxArray* input) {
 
     Region p;
 
-    if (mxGetNumberOfDimensions(input) == 2 && mxIsUint8(input)) {
+    if (mxGetNumberOfDimensions(input) == 2 && mxIsUint8(input) && !mxIsEmpty(input)) {
 
         int width = mxGetN(input);
         int height = mxGetM(input);
-- 
2.43.0


From 48511e6eb01ddf6ba4d77d5725128de67edf517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 087/107] fix: take cells of several parameters, empty strings
 and all numbers exactly in the MATLAB bindings, refuse what is no string,
 number or pair

---
 support/matlab/helpers.cpp | 62 +++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 5830fde..6b980a0 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -1,5 +1,6 @@
 
 #include <algorithm>
+#include <cstdlib>
 #include <set>
 
 #include "helpers.h"
@@ -17,12 +18,12 @@ bool is_property_name(const std::string &str) {
 
 string get_string(const mxArray *arg) {
 
-    if (mxGetM(arg) != 1) {
+    if (!arg || !mxIsChar(arg) || mxGetNumberOfDimensions(arg) > 2 || (mxGetM(arg) != 1 && !mxIsEmpty(arg))) {
         MEX_ERROR("Must be a string");
         return string();
     }
 
-    int l = (int) mxGetN(arg);
+    int l = mxIsEmpty(arg) ? 0 : (int) mxGetN(arg);
 
     char* cstr = (char *) malloc(sizeof(char) * (l + 1));
 
@@ -41,6 +42,23 @@ mxArray* set_string(const char* str) {
 
 }
 
+static void set_parameter(Properties& prop, const string& key, const mxArray* value) {
+
+    if (value && mxIsChar(value)) {
+        prop.set(key, get_string(value));
+    } else if (value && (mxIsNumeric(value) || mxIsLogical(value)) && !mxIsEmpty(value)) {
+        // The shortest text that is read as the same number
+        char number[64];
+        double scalar = mxGetScalar(value);
+        sprintf(number, "%.15g", scalar);
+        if (strtod(number, NULL) != scalar) sprintf(number, "%.17g", scalar);
+        prop.set(key, string(number));
+    } else {
+        MEX_ERROR("Parameter values can only be strings or numbers.");
+    }
+
+}
+
 Properties struct_to_parameters(const mxArray * input) {
 
     if (!mxIsStruct(input)) {
@@ -50,18 +68,10 @@ Properties struct_to_parameters(const mxArray * input) {
 
     Properties prop;
 
-    for (int i = 0; i < mxGetNumberOfFields(input); i++) {
-
-        const char* name = mxGetFieldNameByNumber(input, i);
-
-        mxArray * value = mxGetFieldByNumber(input, 0, i);
+    if (mxIsEmpty(input)) return prop;
 
-        if (mxIsChar(value)) {
-            string s = get_string(value);
-            prop.set(name, s.c_str());
-        } else {
-            prop.set(name, (float) mxGetScalar(value));
-        }
+    for (int i = 0; i < mxGetNumberOfFields(input); i++) {
+        set_parameter(prop, mxGetFieldNameByNumber(input, i), mxGetFieldByNumber(input, 0, i));
     }
 
     return prop;
@@ -74,29 +84,19 @@ Properties cell_to_parameters(const mxArray * input) {
         return Properties();
     }
 
-    int length = mxGetM(input);
-    int n = mxGetN(input);
-
-    if ( min(mxGetM(input), mxGetN(input)) != 1 ) {
-        MEX_ERROR("Array must be a vector");
-    }
-
-
     Properties prop;
 
-    for (int i = 0; i < length; i++) {
-        mxArray* key = mxGetCell(input, i);
-        mxArray* value = mxGetCell(input, i + length);
+    if (mxIsEmpty(input)) return prop;
 
-        string skey = get_string(key);
+    if (mxGetNumberOfDimensions(input) != 2 || mxGetN(input) != 2) {
+        MEX_ERROR("Array must have two columns");
+        return prop;
+    }
 
-        if (mxIsChar(value)) {
-            string s = get_string(value);
-            prop.set(skey.c_str(), s.c_str());
-        } else {
-            prop.set(skey.c_str(), (float) mxGetScalar(value));
-        }
+    int length = mxGetM(input);
 
+    for (int i = 0; i < length; i++) {
+        set_parameter(prop, get_string(mxGetCell(input, i)), mxGetCell(input, i + length));
     }
 
     return prop;
-- 
2.43.0


From ace076ca4e64b51d78a172849370bf9b7fcc49f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:53 +0000
Subject: [PATCH 088/107] fix: refuse parameter names that the protocol cannot
 carry in the MATLAB bindings

---
 support/matlab/helpers.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 6b980a0..d1d1994 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -7,13 +7,13 @@
 
 using namespace std;
 
-static inline bool is_not_alnum_dot_dash(char c) {
+static inline bool is_not_alnum_dot_dash(unsigned char c) {
     return !(isalpha(c) || isdigit(c) || (c == '.') || (c == '_'));
 }
 
 bool is_property_name(const std::string &str) {
 
-    return find_if(str.begin(), str.end(), is_not_alnum_dot_dash) == str.end();
+    return !str.empty() && str.size() <= 64 && find_if(str.begin(), str.end(), is_not_alnum_dot_dash) == str.end();
 }
 
 string get_string(const mxArray *arg) {
@@ -44,6 +44,11 @@ mxArray* set_string(const char* str) {
 
 static void set_parameter(Properties& prop, const string& key, const mxArray* value) {
 
+    if (!is_property_name(key)) {
+        MEX_ERROR("Illegal parameter name.");
+        return;
+    }
+
     if (value && mxIsChar(value)) {
         prop.set(key, get_string(value));
     } else if (value && (mxIsNumeric(value) || mxIsLogical(value)) && !mxIsEmpty(value)) {
-- 
2.43.0


From 8d6d6577447b92116583ca694863fce268dfec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:20 +0000
Subject: [PATCH 089/107] fix: accept the documented name of the buffer image
 format in the MATLAB bindings

---
 support/matlab/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index d1d1994..941659b 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -676,7 +676,7 @@ int get_image_code(string str) {
         return TRAX_IMAGE_URL;
     }
 
-    if (str == "buffer") {
+    if (str == "buffer" || str == "data") {
         return TRAX_IMAGE_BUFFER;
     }
 
-- 
2.43.0


From dfebc7e4ea55acc26a5f1e3fb41c9b939f9e6ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:53 +0000
Subject: [PATCH 090/107] fix: refuse MATLAB set-up and wait arguments without
 a value instead of reading behind the arguments, and values that are no
 number

---
 support/matlab/helpers.cpp    | 10 ++++++++++
 support/matlab/helpers.h      |  2 ++
 support/matlab/traxserver.cpp | 10 +++++++---
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 941659b..402052d 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -36,6 +36,16 @@ string get_string(const mxArray *arg) {
     return str;
 }
 
+double get_number(const mxArray *arg) {
+
+    if (!arg || !(mxIsNumeric(arg) || mxIsLogical(arg)) || mxIsEmpty(arg)) {
+        MEX_ERROR("Must be a number");
+        return 0;
+    }
+
+    return mxGetScalar(arg);
+}
+
 mxArray* set_string(const char* str) {
 
     return mxCreateString(str);
diff --git a/support/matlab/helpers.h b/support/matlab/helpers.h
index 7a160d4..6d9b20f 100644
--- a/support/matlab/helpers.h
+++ b/support/matlab/helpers.h
@@ -41,6 +41,8 @@ bool is_property_name(const std::string &str);
 
 string get_string(const mxArray *arg);
 
+double get_number(const mxArray *arg);
+
 mxArray* set_string(const char* str);
 
 Properties struct_to_parameters(const mxArray * input);
diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index 8952714..e626c10 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -56,7 +56,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if ( nrhs > 3 ) {
 
-            for (int i = 3; i < std::floor((float)nrhs/2) * 2; i+=2) {
+            if ((nrhs - 3) % 2 != 0) { MEX_ERROR("Argument without a value."); return; }
+
+            for (int i = 3; i < nrhs; i+=2) {
                 string key = get_string(prhs[i]);
                 switch (get_argument_code(key)) {
                 case ARGUMENT_TRACKERNAME: tracker_name = get_string(prhs[i+1]); break;
@@ -120,9 +122,11 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if ( nrhs > 1 ) {
 
-			for (int i = 1; i < std::floor((float)nrhs/2) * 2; i+=2) {
+			if ((nrhs - 1) % 2 != 0) { MEX_ERROR("Argument without a value."); return; }
+
+			for (int i = 1; i < nrhs; i+=2) {
 				switch (get_argument_code(get_string(prhs[i]))) {
-				case ARGUMENT_PROPSTRUCT: propstruct = mxGetScalar(prhs[i+1]) > 0; break;
+				case ARGUMENT_PROPSTRUCT: propstruct = get_number(prhs[i+1]) > 0; break;
 				default:
 					MEX_ERROR("Illegal argument.");
 					return;
-- 
2.43.0


From d4068393834b55a8e1765115ebde34c66ff8c438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:36 +0000
Subject: [PATCH 091/107] fix: refuse traxclient arguments without a value,
 values that are no number and environments without values in the MATLAB
 bindings

---
 support/matlab/traxclient.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index d10a6d6..bafc0a2 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -233,12 +233,14 @@ void struct_to_env(const mxArray * input, map<string, string>& env) {
 		MEX_ERROR("Parameter has to be a structure.");
 	}
 
+	if (mxIsEmpty(input)) return;
+
 	for (int i = 0; i < mxGetNumberOfFields(input); i++) {
 
 		const char* name = mxGetFieldNameByNumber(input, i);
 		mxArray * value = mxGetFieldByNumber(input, 0, i);
 
-		if (mxIsChar(value)) {
+		if (value && mxIsChar(value)) {
 			string s = get_string(value);
 			env[name] = s;
 		} else MEX_ERROR("Environment values can only be strings.");
@@ -348,10 +350,12 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
 	if ( nrhs > 1 ) {
 
-		for (int i = 2; i < std::floor((float)nrhs / 2) * 2; i += 2) {
+		if (nrhs % 2 != 0) { MEX_ERROR("Argument without a value."); return; }
+
+		for (int i = 2; i < nrhs; i += 2) {
 			switch (get_argument_code(get_string(prhs[i]))) {
-			case ARGUMENT_DEBUG: verbosity = (mxGetScalar(prhs[i + 1]) != 0) ? VERBOSITY_DEBUG : VERBOSITY_DEFAULT; break;
-			case ARGUMENT_TIMEOUT: timeout = (int) mxGetScalar(prhs[i + 1]); break;
+			case ARGUMENT_DEBUG: verbosity = (get_number(prhs[i + 1]) != 0) ? VERBOSITY_DEBUG : VERBOSITY_DEFAULT; break;
+			case ARGUMENT_TIMEOUT: timeout = (int) get_number(prhs[i + 1]); break;
 			case ARGUMENT_CONNECTION: connection = get_connection_mode(get_string(prhs[i + 1])); break;
 			case ARGUMENT_ENVIRONMENT: struct_to_env(prhs[i + 1], environment); break;
 			case ARGUMENT_STATEOBJECT: data = mxDuplicateArray(prhs[i + 1]); break;
-- 
2.43.0


From ea21e2ef7fe80023362156b869eeb0c73f161ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 092/107] fix: give the interrupt handling back to Octave when
 traxclient ends

---
 support/matlab/traxclient.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index bafc0a2..2bf3204 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -58,14 +58,16 @@ extern bool utIsInterruptPending();
 	#define OCTAVE_USE_DEPRECATED_FUNCTIONS 1
 
 	#if (OCTAVE_MAJOR_VERSION >= 4) && (OCTAVE_MINOR_VERSION >= 1)
-		#define SET_INTERRUPT_HANDLER(H) { octave::interrupt_handler h; h.int_handler = H; h.brk_handler = H; octave::set_interrupt_handler(h); }
+		#define INTERRUPT_HANDLER octave::interrupt_handler
+		#define SET_INTERRUPT_HANDLER(H) octave::set_interrupt_handler(H)
 	#else
 		#ifdef OCTINTERP_API
 			#undef OCTINTERP_API
 		#endif
 
 		#include <octave/config.h>
-		#define SET_INTERRUPT_HANDLER(H) { octave_interrupt_handler h; h.int_handler = H; octave_set_interrupt_handler(h); }
+		#define INTERRUPT_HANDLER octave_interrupt_handler
+		#define SET_INTERRUPT_HANDLER(H) octave_set_interrupt_handler(H)
 	#endif
 
 	#include <octave/quit.h>
@@ -77,6 +79,21 @@ extern bool utIsInterruptPending();
 		octave_interrupted = true;
 	}
 
+	// Takes over the interrupt handling and returns it to Octave when the function ends
+	class interrupt_guard {
+	public:
+		interrupt_guard() {
+			octave_interrupted = false;
+			INTERRUPT_HANDLER h;
+			h.int_handler = &interrupt_handler;
+			h.brk_handler = &interrupt_handler;
+			previous = SET_INTERRUPT_HANDLER(h);
+		}
+		~interrupt_guard() { SET_INTERRUPT_HANDLER(previous); }
+	private:
+		INTERRUPT_HANDLER previous;
+	};
+
 	#define IS_INTERRUPTED (octave_interrupted) // (octave_interrupt_state != 0)
 
 #endif
@@ -370,8 +387,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 	}
 
 #ifdef OCTAVE
-	octave_interrupted = false;
-	SET_INTERRUPT_HANDLER(&interrupt_handler);
+	interrupt_guard guard;
 #endif
 
 	if (!data) data = mxCreateDoubleMatrix( 0, 0, mxREAL );
-- 
2.43.0


From e32b3064d21bd657587622d63be07079055d3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 093/107] fix: send URLs given to the MATLAB client as URLs

---
 support/matlab/helpers.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 402052d..c410f03 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -472,6 +472,20 @@ mxArray* images_to_array(const ImageList& img) {
 }
 
 
+// A scheme (a letter and then letters, digits, '+', '-' and '.') followed by ://
+static bool is_url(const string& str) {
+
+	size_t length = str.find("://");
+
+	if (length == string::npos || length == 0 || !isalpha((unsigned char) str[0])) return false;
+
+	for (size_t i = 0; i < length; i++) {
+		if (!isalnum((unsigned char) str[i]) && str[i] != '+' && str[i] != '-' && str[i] != '.') return false;
+	}
+
+	return true;
+}
+
 Image array_to_image(const mxArray* arr) {
 
 	int ndims = mxGetNumberOfDimensions(arr);
@@ -482,7 +496,12 @@ Image array_to_image(const mxArray* arr) {
 			MEX_ERROR("Illegal image format, not a valid path or URL");
 
 		string pth = get_string(arr);
-		// TODO: determine if path is url
+
+		if (pth.compare(0, 7, "file://") == 0)
+			return Image::create_path(pth.substr(7));
+
+		if (is_url(pth))
+			return Image::create_url(pth);
 
 		return Image::create_path(pth);
 
-- 
2.43.0


From 57a5bed49aea0af7b3773df3a8fa82b6ca1e6a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 094/107] fix: refuse empty and missing images in the MATLAB
 client instead of aborting

---
 support/matlab/helpers.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index c410f03..b664b22 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -488,6 +488,11 @@ static bool is_url(const string& str) {
 
 Image array_to_image(const mxArray* arr) {
 
+	if (!arr || mxIsEmpty(arr)) {
+		MEX_ERROR("Illegal image format, empty image");
+		return Image();
+	}
+
 	int ndims = mxGetNumberOfDimensions(arr);
 	const mwSize* dims = mxGetDimensions(arr);
 
-- 
2.43.0


From e31157aae600c1fc8264c4412e3d6b8357dc29ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 095/107] fix: refuse illegal parameters of the callback in the
 MATLAB client instead of ignoring them

---
 support/matlab/traxclient.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index 2bf3204..ab2ecbb 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -324,8 +324,7 @@ command call_callback(const mxArray *callback, status& s, mxArray* data) {
 	if (!mxIsEmpty(lhs[2])) {
 		if (mxIsStruct(lhs[2])) {
 			cmd.parameters = struct_to_parameters(lhs[2]);
-		}
-		if (mxIsCell(lhs[2])) {
+		} else {
 			cmd.parameters = cell_to_parameters(lhs[2]);
 		}
         mxDestroyArray(lhs[2]);
-- 
2.43.0


From 2d2dfda387fa7e65ea8fd40c24c808a357f1cf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:09 +0000
Subject: [PATCH 096/107] fix: send the whole test picture to trackers that
 take pixels, not a third of its scrambled values

---
 support/client/tester.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support/client/tester.cpp b/support/client/tester.cpp
index f44f20c..8b3aca6 100644
--- a/support/client/tester.cpp
+++ b/support/client/tester.cpp
@@ -262,8 +262,13 @@ int main(int argc, char** argv) {
             char* buffer = NULL;
             tester_copy_resource("static.bin", &buffer, &length);
             Image tmp = Image::create_memory(320, 240, TRAX_IMAGE_MEMORY_RGB);
-            char* dst = tmp.write_memory_row(0);
-            memcpy(dst, buffer, 320 * 240);
+            // The resource is stored plane by plane and column by column
+            for (int y = 0; y < 240; y++) {
+                char* dst = tmp.write_memory_row(y);
+                for (int x = 0; x < 320; x++)
+                    for (int i = 0; i < 3; i++)
+                        dst[x * 3 + i] = buffer[(i * 320 + x) * 240 + y];
+            }
             free(buffer);
             image.set(tmp, TRAX_CHANNEL_COLOR);
         } else if TRAX_SUPPORTS(image_formats, TRAX_IMAGE_PATH) {
-- 
2.43.0


From ab6515678581420339f3c8e46133edadeda14711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:09 +0000
Subject: [PATCH 097/107] fix: wait for the answer to the last frame in the
 test utility and accept the number of its initializations

---
 support/client/tester.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support/client/tester.cpp b/support/client/tester.cpp
index 8b3aca6..4ee686b 100644
--- a/support/client/tester.cpp
+++ b/support/client/tester.cpp
@@ -168,7 +168,7 @@ void print_debug(const char *format, ...) {
 }
 
 
-#define CMD_OPTIONS "hdt:p:e:xXI"
+#define CMD_OPTIONS "hdt:p:e:xXI:"
 
 int main(int argc, char** argv) {
 
@@ -316,7 +316,7 @@ int main(int argc, char** argv) {
 
             frame = 0;
 
-            while (frame < 20) {
+            while (true) {
                 // Repeat while tracking the target.
                 bool result = false;
                 Properties additional;
@@ -337,6 +337,9 @@ int main(int argc, char** argv) {
                     if (tracker.ready()) {
                         // The tracker has requested termination of connection.
                         print_debug("Termination requested by tracker.\n");
+                        if (initializations < reinitializations && !tracker.reset()) {
+                            throw std::runtime_error("Unable to restart tracker.");
+                        }
                         break;
                     } else {
                         // In case of an error ...
@@ -344,6 +347,8 @@ int main(int argc, char** argv) {
                     }
                 }
 
+                if (frame == 20) break;
+
                 Properties no_properties;
 
                 if (multiobject && frame % 5 == 3) {
-- 
2.43.0


From 1e91d1db5f237c98962ed30b7544b4a071904192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:32 +0000
Subject: [PATCH 098/107] fix: report a test image that cannot be written

---
 support/client/tester.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/support/client/tester.cpp b/support/client/tester.cpp
index 4ee686b..4cd0dcb 100644
--- a/support/client/tester.cpp
+++ b/support/client/tester.cpp
@@ -278,6 +278,11 @@ int main(int argc, char** argv) {
             string temp_path = get_temp_name("trax_testing.jpg");
             std::ofstream output(temp_path.c_str(), std::ios::out | std::ios::binary );
             output.write(buffer, length);
+            output.close();
+            if (!output) {
+                free(buffer);
+                throw std::runtime_error("Unable to write the test image.");
+            }
             image.set(Image::create_path(temp_path), TRAX_CHANNEL_COLOR);
             free(buffer);
         }
-- 
2.43.0


From 2237300dc24ff1760e67ea6529ba912d69ecd219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:28 +0000
Subject: [PATCH 099/107] fix: return no handle instead of crashing when the
 tracker cannot open a socket

---
 src/trax.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index 4eb5bb8..c8defe4 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1091,6 +1091,8 @@ trax_handle* trax_server_setup_v(trax_metadata *metadata, const trax_logging log
 
         stream = create_message_stream_socket_connect(atoi(env_socket));
 
+        if (!stream) return NULL;
+
     } else {
 
         int fin = fileno(stdin);
-- 
2.43.0


From 1ae5ac8254d7792ce58be6ac5f97720a7bb9deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:37 +0000
Subject: [PATCH 100/107] fix: do not try to connect a socket that was closed,
 for ever

---
 src/message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/message.c b/src/message.c
index 383dbc3..fb357da 100644
--- a/src/message.c
+++ b/src/message.c
@@ -149,6 +149,7 @@ message_stream* create_message_stream_socket_connect(int port) {
 						 (const char *)&one, sizeof(int)) == -1) {
         perror("nodelay");
         closesocket(sid);
+        return NULL;
     }
 
 	while (1) {
-- 
2.43.0


From 292d391993cce9d30e118319d1133eacfcecbe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:58 +0000
Subject: [PATCH 101/107] fix: do not wait without a limit for a connection
 when a signal arrives before it

---
 src/message.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/message.c b/src/message.c
index fb357da..18bb3ca 100644
--- a/src/message.c
+++ b/src/message.c
@@ -187,6 +187,7 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 	fd_set readfds,writefds,exceptfds;
 	int asock=-1;
     int one = 1;
+    int ready;
     message_stream* stream = NULL;
     struct timeval tv;
     tv.tv_sec = timeout;
@@ -199,15 +200,18 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 		return NULL;
 	}
 
-	FD_ZERO(&readfds);
-	FD_ZERO(&writefds);
-	FD_ZERO(&exceptfds);
-	FD_SET(server,&readfds);
-	FD_SET(server,&exceptfds);
+    // A signal does not end the waiting (the rest of the time is in tv)
+    do {
+        FD_ZERO(&readfds);
+        FD_ZERO(&writefds);
+        FD_ZERO(&exceptfds);
+        FD_SET(server,&readfds);
+        FD_SET(server,&exceptfds);
 
-    select(server+1,&readfds,&writefds,&exceptfds,&tv);
+        ready = select(server+1,&readfds,&writefds,&exceptfds,&tv);
+    } while (ready < 0 && errno == EINTR);
 	
-	if(FD_ISSET(server,&readfds)) {
+	if(ready > 0 && FD_ISSET(server,&readfds)) {
 		struct sockaddr_in pin;
 		int addrlen = sizeof(struct sockaddr_in);
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
-- 
2.43.0


From e8b2eb34c28ceb1c20f0f8ea1c2d6b71ab20878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:11 +0000
Subject: [PATCH 102/107] fix: close a connection that is accepted but not used

---
 src/message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/message.c b/src/message.c
index 18bb3ca..3f98b48 100644
--- a/src/message.c
+++ b/src/message.c
@@ -228,6 +228,7 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 	if (setsockopt(asock, IPPROTO_TCP , TCP_NODELAY,
 						 (const char *)&one, sizeof(int)) == -1) {
         perror("nodelay");
+        if (asock != -1) closesocket(asock);
         return NULL;
     }
 
-- 
2.43.0


From f6ae882fdf64d8318d25163f7ea1786b0550156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:28 +0000
Subject: [PATCH 103/107] fix: the pixels of a region do not depend on the
 window they are drawn into

---
 src/region.c | 49 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/region.c b/src/region.c
index ee0d499..abf4269 100644
--- a/src/region.c
+++ b/src/region.c
@@ -581,6 +581,18 @@ static region_container* _create_mask_limits(double left, double top, double rig
 
 }
 
+// Computes the inclusive limits of the pixels of a rectangle, returns 0 if it does not contain any
+static int _rectangle_limits(const region_rectangle* r, double* left, double* top, double* right, double* bottom) {
+
+	*left = floor(r->x + 0.5);
+	*top = floor(r->y + 0.5);
+	*right = floor((double) r->x + r->width - 0.5);
+	*bottom = floor((double) r->y + r->height - 0.5);
+
+	return r->width > 0 && r->height > 0 && *left <= *right && *top <= *bottom;
+
+}
+
 region_container* region_convert(const region_container* region, region_type type) {
 
 	region_container* reg = NULL;
@@ -712,15 +724,14 @@ region_container* region_convert(const region_container* region, region_type typ
 		case RECTANGLE: {
 
 			// The same pixels as when the rectangle is rasterized, none if it is empty
-			const region_rectangle* r = &(region->data.rectangle);
-			double left = floor(r->x + 0.5), top = floor(r->y + 0.5);
-			double right = floor((double) r->x + r->width - 0.5), bottom = floor((double) r->y + r->height - 0.5);
+			double left, top, right, bottom;
+			int foreground = _rectangle_limits(&(region->data.rectangle), &left, &top, &right, &bottom);
 
 			reg = _create_mask_limits(left, top, MAX(right, left), MAX(bottom, top));
 
 			if (!reg) break;
 
-			memset(reg->data.mask.data, (r->width > 0 && r->height > 0) ? 255 : 0, (size_t) reg->data.mask.width * reg->data.mask.height);
+			memset(reg->data.mask.data, foreground ? 255 : 0, (size_t) reg->data.mask.width * reg->data.mask.height);
 
 			break;
 		}
@@ -1360,19 +1371,33 @@ void region_get_mask_offset(const region_container* r, char* mask, int x, int y,
 
 		region_polygon p;
 
+		if (r->type == RECTANGLE && !(__flags & REGION_LEGACY_RASTERIZATION)) {
+			int i;
+			double left, top, right, bottom;
+
+			memset(mask, 0, width * height * sizeof(char));
+
+			if (!_rectangle_limits(&(r->data.rectangle), &left, &top, &right, &bottom)) return;
+
+			for (i = 0; i < height; i++) {
+				if ((double) y + i >= top && (double) y + i <= bottom)
+					fill_span(mask + (size_t) i * width, width, left - x, right - x);
+			}
+
+			return;
+		}
+
 		if (r->type == RECTANGLE) {
 			region_container* t = region_convert(r, POLYGON);
-			if (!(__flags & REGION_LEGACY_RASTERIZATION) && (floor(t->data.polygon.x[1] + 0.5) < floor(t->data.polygon.x[0] + 0.5)
-				|| floor(t->data.polygon.y[2] + 0.5) < floor(t->data.polygon.y[0] + 0.5))) {
-				// The rectangle is too small to contain a pixel
-				memset(mask, 0, width * height * sizeof(char));
-				region_release(&t);
-				return;
-			}
 			p = offset_polygon(t->data.polygon, -x, -y);
 			region_release(&t);
-		} else {
+		} else if (__flags & REGION_LEGACY_RASTERIZATION) {
 			p = offset_polygon(r->data.polygon, -x, -y);
+		} else {
+			// The corners are rounded before they are moved as this is exact
+			region_polygon rounded = round_polygon(r->data.polygon);
+			p = offset_polygon(rounded, -x, -y);
+			free_polygon(&rounded);
 		}
 
 		rasterize_polygon(p, mask, width, height);
-- 
2.43.0


From 2fb3ef3adfd4f1e85c3ad5a494e82e1fd98e2845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 104/107] fix: text is read and written in the same way in
 every locale

---
 src/buffer.h               | 79 ++++++++++++++++++++++++++++++++++++++
 src/message.c              | 21 ++++------
 src/region.c               | 14 ++++---
 src/trax.c                 | 20 +++++-----
 support/client/process.cpp |  1 +
 5 files changed, 105 insertions(+), 30 deletions(-)

diff --git a/src/buffer.h b/src/buffer.h
index a85c769..74e2cf1 100644
--- a/src/buffer.h
+++ b/src/buffer.h
@@ -11,9 +11,88 @@
 #define __INLINE inline
 #endif
 
+#include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
 #include <stdarg.h>
+#include <locale.h>
+
+// Text is written and read in the same way whatever the locale of the program, numbers have
+// a decimal point and only letters and digits of ASCII are letters and digits.
+
+static __INLINE int ascii_lower(int C) {
+	return (C >= 'A' && C <= 'Z') ? C - 'A' + 'a' : C;
+}
+
+static __INLINE int ascii_alnum(int C) {
+	return (C >= '0' && C <= '9') || (ascii_lower(C) >= 'a' && ascii_lower(C) <= 'z');
+}
+
+static __INLINE int ascii_compare(const char* A, const char* B) {
+	while (*A && ascii_lower((unsigned char) *A) == ascii_lower((unsigned char) *B)) {
+		A++;
+		B++;
+	}
+	return ascii_lower((unsigned char) *A) - ascii_lower((unsigned char) *B);
+}
+
+// As strtod in the standard locale
+static __INLINE double number_parse(const char* S, char** end) {
+
+	const char* point = localeconv()->decimal_point;
+	size_t length, dot, symbol = strlen(point);
+	char *copy, *rest;
+	double result;
+
+	if (strcmp(point, ".") == 0) return strtod(S, end);
+
+	// The longest text that can be a number, its first point is replaced
+	length = strspn(S, " \t\n\v\f\r0123456789.+-_()abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ");
+	dot = strcspn(S, ".");
+
+	copy = (char*) malloc(sizeof(char) * (length + symbol + 1));
+	memcpy(copy, S, length);
+	copy[length] = '\0';
+
+	if (dot < length) {
+		memcpy(copy + dot, point, symbol);
+		memcpy(copy + dot + symbol, S + dot + 1, length - dot - 1);
+		copy[length - 1 + symbol] = '\0';
+	}
+
+	result = strtod(copy, &rest);
+
+	if (end) {
+		size_t used = rest - copy;
+		*end = (char*) S + ((dot < length && used > dot) ? used - symbol + 1 : used);
+	}
+
+	free(copy);
+
+	return result;
+}
+
+// As sprintf in the standard locale, returns the buffer
+static __INLINE char* number_format(char* S, int decimals, double value) {
+
+	const char* point = localeconv()->decimal_point;
+	size_t symbol = strlen(point);
+	char* position;
+
+	sprintf(S, "%.*f", decimals, value);
+
+	position = strcmp(point, ".") ? strstr(S, point) : NULL;
+
+	if (position) {
+		*position = '.';
+		memmove(position + 1, position + symbol, strlen(position + symbol) + 1);
+	}
+
+	return S;
+}
+
+// Enough for any number with up to eight decimals
+#define NUMBER_LENGTH 400
 
 typedef struct string_buffer {
 	char* buffer;
diff --git a/src/message.c b/src/message.c
index 3f98b48..bea2693 100644
--- a/src/message.c
+++ b/src/message.c
@@ -23,7 +23,6 @@
 #define FALSE 0
 #endif
 
-#include <ctype.h>
 #include <errno.h>
 
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
@@ -35,8 +34,6 @@
 #include <io.h>
 #endif
 
-#define strcmpi _strcmpi
-
 static int initialized = 0;
 static void initialize_sockets(void) {
     WSADATA data;
@@ -57,8 +54,6 @@ static void initialize_sockets(void) {
 #include <netinet/tcp.h>
 #define closesocket close
 
-#define strcmpi strcasecmp
-
 static void initialize_sockets(void) {}
 
 #endif
@@ -75,7 +70,7 @@ int __is_valid_key(char* c, int len) {
     if (len > MAX_KEY_LENGTH) return 0;
 
     for (i = 0; i < len; i++) {
-        if (!(isalnum((unsigned char) c[i]) || c[i] == '.' || c[i] == '_')) return 0;
+        if (!(ascii_alnum((unsigned char) c[i]) || c[i] == '.' || c[i] == '_')) return 0;
     }
 
     return 1;
@@ -83,12 +78,12 @@ int __is_valid_key(char* c, int len) {
 
 int __parse_message_type(const char *str) {
     
-    if (strcmpi(str, "hello") == 0) return TRAX_HELLO;
-    if (strcmpi(str, "initialize") == 0) return TRAX_INITIALIZE;
-    if (strcmpi(str, "state") == 0) return TRAX_STATE; // Compatibility reasons
-    if (strcmpi(str, "status") == 0) return TRAX_STATE;
-    if (strcmpi(str, "frame") == 0) return TRAX_FRAME;
-    if (strcmpi(str, "quit") == 0) return TRAX_QUIT;
+    if (ascii_compare(str, "hello") == 0) return TRAX_HELLO;
+    if (ascii_compare(str, "initialize") == 0) return TRAX_INITIALIZE;
+    if (ascii_compare(str, "state") == 0) return TRAX_STATE; // Compatibility reasons
+    if (ascii_compare(str, "status") == 0) return TRAX_STATE;
+    if (ascii_compare(str, "frame") == 0) return TRAX_FRAME;
+    if (ascii_compare(str, "quit") == 0) return TRAX_QUIT;
 
     return -1;
 }
@@ -350,7 +345,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
         switch (stream->input.state) {
             case PARSE_STATE_TYPE: { // Parsing message type
 
-                if (isalnum((unsigned char) chr)) {
+                if (ascii_alnum((unsigned char) chr)) {
 
                     buffer_push(stream->input.key_buffer, chr);
 
diff --git a/src/region.c b/src/region.c
index abf4269..0f17191 100644
--- a/src/region.c
+++ b/src/region.c
@@ -302,10 +302,10 @@ int _parse_sequence(const char* buffer, double** data) {
 			if (tolower(pch[0]) == 'n' && tolower(pch[1]) == 'a' && tolower(pch[2]) == 'n') {
 				numbers[i] = NAN;
 			} else {
-				numbers[i] = atof(pch);
+				numbers[i] = number_parse(pch, NULL);
 			}
 #else
-			numbers[i] = atof(pch);
+			numbers[i] = number_parse(pch, NULL);
 #endif
 		} else
 			break;
@@ -486,6 +486,7 @@ int region_parse(const char* buffer, region_container** region) {
 char* region_string(region_container* region) {
 
 	int i;
+	char n1[NUMBER_LENGTH], n2[NUMBER_LENGTH], n3[NUMBER_LENGTH], n4[NUMBER_LENGTH];
 	char* result = NULL;
 	string_buffer *buffer;
 
@@ -499,14 +500,15 @@ char* region_string(region_container* region) {
 
 	} else if (region->type == RECTANGLE) {
 
-		buffer_append(buffer, "%.4f,%.4f,%.4f,%.4f",
-		              region->data.rectangle.x, region->data.rectangle.y,
-		              region->data.rectangle.width, region->data.rectangle.height);
+		buffer_append(buffer, "%s,%s,%s,%s",
+		              number_format(n1, 4, region->data.rectangle.x), number_format(n2, 4, region->data.rectangle.y),
+		              number_format(n3, 4, region->data.rectangle.width), number_format(n4, 4, region->data.rectangle.height));
 
 	} else if (region->type == POLYGON) {
 
 		for (i = 0; i < region->data.polygon.count; i++) {
-			buffer_append(buffer, (i == 0 ? "%.4f,%.4f" : ",%.4f,%.4f"), region->data.polygon.x[i], region->data.polygon.y[i]);
+			buffer_append(buffer, (i == 0 ? "%s,%s" : ",%s,%s"), number_format(n1, 4, region->data.polygon.x[i]),
+			              number_format(n2, 4, region->data.polygon.y[i]));
 		}
 
 	} else if (region->type == MASK) {
diff --git a/src/trax.c b/src/trax.c
index c8defe4..669150d 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -59,7 +59,6 @@ int get_shared_fd(int h, int read) {
     return _open_osfhandle((intptr_t)h, read ? _O_RDONLY : 0);
 }
 #else
-#define strcmpi strcasecmp
 int get_shared_fd(int h, int read) {
     return h;
 }
@@ -161,10 +160,10 @@ end:
 
 int decode_buffer_format(char* name) {
 
-    if (strcmpi(name, "image/jpeg") == 0)
+    if (ascii_compare(name, "image/jpeg") == 0)
         return TRAX_IMAGE_BUFFER_JPEG;
 
-    if (strcmpi(name, "image/png") == 0)
+    if (ascii_compare(name, "image/png") == 0)
         return TRAX_IMAGE_BUFFER_PNG;
 
     return TRAX_IMAGE_BUFFER_ILLEGAL;
@@ -174,13 +173,13 @@ int decode_buffer_format(char* name) {
 
 int decode_memory_format(char* name) {
 
-    if (strcmpi(name, "rgb") == 0)
+    if (ascii_compare(name, "rgb") == 0)
         return TRAX_IMAGE_MEMORY_RGB;
 
-    if (strcmpi(name, "gray8") == 0)
+    if (ascii_compare(name, "gray8") == 0)
         return TRAX_IMAGE_MEMORY_GRAY8;
 
-    if (strcmpi(name, "gray16") == 0)
+    if (ascii_compare(name, "gray16") == 0)
         return TRAX_IMAGE_MEMORY_GRAY16;
 
     return TRAX_IMAGE_MEMORY_ILLEGAL;
@@ -2093,9 +2092,8 @@ void trax_properties_set_int(trax_properties* properties, const char* key, int v
 
 void trax_properties_set_float(trax_properties* properties, const char* key, float value) {
 
-    char tmp[128];
-    sprintf(tmp, "%f", value);
-    trax_properties_set(properties, key, tmp);
+    char tmp[NUMBER_LENGTH];
+    trax_properties_set(properties, key, number_format(tmp, 6, value));
 
 }
 
@@ -2127,7 +2125,7 @@ int trax_properties_get_int(const trax_properties* properties, const char* key,
     if (value == NULL) return def;
 
     if (value[0] != '\0') {
-        double number = strtod(value, &end);
+        double number = number_parse(value, &end);
         if (*end == '\0' && end != value && number > (double) INT_MIN - 1 && number < (double) INT_MAX + 1)
             ret = (int) number;
     }
@@ -2147,7 +2145,7 @@ float trax_properties_get_float(const trax_properties* properties, const char* k
     if (value == NULL) return def;
 
     if (value[0] != '\0') {
-        ret = (float) strtod(value, &end);
+        ret = (float) number_parse(value, &end);
         ret = (*end == '\0' && end != value) ? ret : def;
     }
 
diff --git a/support/client/process.cpp b/support/client/process.cpp
index 2da8f73..a3122b4 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -48,6 +48,7 @@ const string __getcwd()
 inline const string int_to_string(int i) {
 
     stringstream buffer;
+    buffer.imbue(locale::classic()); // The same digits whatever the locale of the program
     buffer << i;
     return buffer.str();
 
-- 
2.43.0


From 2507dbb117176e0bf82fc2aeae98ee7f6d886bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:31 +0000
Subject: [PATCH 105/107] fix: threads that set up different sessions do not
 disturb each other

---
 src/trax.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 669150d..8a9b419 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -55,6 +55,9 @@
 
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
 #include <io.h>
+#ifdef _MSC_VER
+#define strtok_r strtok_s
+#endif
 int get_shared_fd(int h, int read) {
     return _open_osfhandle((intptr_t)h, read ? _O_RDONLY : 0);
 }
@@ -383,8 +386,8 @@ int image_formats_decode(char *str) {
 
     int formats = 0;
 
-    char *pch;
-    pch = strtok (str, " ;");
+    char *pch, *rest;
+    pch = strtok_r (str, " ;", &rest);
     while (pch != NULL) {
         if (strcmp(pch, "path") == 0)
             formats |= TRAX_IMAGE_PATH;
@@ -398,7 +401,7 @@ int image_formats_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = strtok_r (NULL, ";", &rest);
     }
 
     return formats;
@@ -429,8 +432,8 @@ int region_formats_decode(char *str) {
 
     int formats = 0;
 
-    char *pch;
-    pch = strtok (str, " ;");
+    char *pch, *rest;
+    pch = strtok_r (str, " ;", &rest);
     while (pch != NULL) {
 
         if (strcmp(pch, "rectangle") == 0)
@@ -443,7 +446,7 @@ int region_formats_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = strtok_r (NULL, ";", &rest);
     }
 
     return formats;
@@ -486,8 +489,8 @@ int channels_decode(char *str) {
 
     int channels = 0;
 
-    char *pch;
-    pch = strtok (str, " ;");
+    char *pch, *rest;
+    pch = strtok_r (str, " ;", &rest);
     while (pch != NULL) {
 
         if (strcmp(pch, "color") == 0)
@@ -501,7 +504,7 @@ int channels_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = strtok_r (NULL, ";", &rest);
     }
 
     return channels;
-- 
2.43.0


From a676254f8ca27e2cfdc67fe4702759ff07bb2f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:26 +0000
Subject: [PATCH 106/107] fix: a tracker does not inherit the streams and
 sockets of other trackers

---
 src/message.c              |  5 +++++
 support/client/client.cpp  |  5 +++++
 support/client/process.cpp | 16 ++++++++++++++++
 3 files changed, 26 insertions(+)

diff --git a/src/message.c b/src/message.c
index bea2693..1acbc41 100644
--- a/src/message.c
+++ b/src/message.c
@@ -49,6 +49,7 @@ static void initialize_sockets(void) {
 
 #include <sys/socket.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <sys/select.h>
 #include <arpa/inet.h>
 #include <netinet/tcp.h>
@@ -227,6 +228,10 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
         return NULL;
     }
 
+#ifdef FD_CLOEXEC
+    // Processes that are started later should not keep the connection open
+    fcntl(asock, F_SETFD, FD_CLOEXEC);
+#endif
 
     stream = (message_stream*) malloc(sizeof(message_stream));
 
diff --git a/support/client/client.cpp b/support/client/client.cpp
index 530b2cc..68f848c 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -97,6 +97,11 @@ int create_server_socket(int port) {
 		return -1;
 	}
 
+#ifdef FD_CLOEXEC
+	// Trackers should not keep the socket open
+	fcntl(sid, F_SETFD, FD_CLOEXEC);
+#endif
+
 	{
 		const int enable = 1;
 		if (setsockopt(sid, SOL_SOCKET, SO_REUSEADDR, (const char*) &enable, sizeof(int)) < 0) {
diff --git a/support/client/process.cpp b/support/client/process.cpp
index a3122b4..4c73ad6 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -19,6 +19,16 @@
 
 extern char **environ;
 
+// The working directory and the table of descriptors belong to the whole program, so only one
+// process is started at a time
+static Mutex start_mutex;
+
+// Processes that are started later should not keep a stream of this one open
+static void keep_private(int fd)
+{
+    fcntl(fd, F_SETFD, FD_CLOEXEC);
+}
+
 const string __getcwd()
 {
     size_t buf_size = 1024;
@@ -355,6 +365,8 @@ bool Process::start() {
 
 #else
 
+        Lock start_lock(start_mutex);
+
         string cwd;
 
         if (directory.size() > 0) cwd = __getcwd();
@@ -365,6 +377,10 @@ bool Process::start() {
             return false;
         }
 
+        keep_private(out[1]);
+        keep_private(in[0]);
+        keep_private(err[0]);
+
         if (explicit_mode) {
             env["TRAX_OUT"] = int_to_string(in[1]);
             env["TRAX_IN"] = int_to_string(out[0]);
-- 
2.43.0


From 63e4bf3a0eb6b0750678ca1f576240898f6e3e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:24 +0000
Subject: [PATCH 107/107] fix: a tracker that is connected by a socket can
 print as much as it wants

---
 support/client/client.cpp  | 3 ++-
 support/client/process.cpp | 6 +++---
 support/client/process.h   | 4 +++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 68f848c..642b9da 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -425,7 +425,8 @@ public:
 
 		print_debug("Creating process %s", command.c_str());
 
-		process = new Process(command, connection == CONNECTION_EXPLICIT);
+		// Nobody else reads what a tracker that talks over a socket prints
+		process = new Process(command, connection == CONNECTION_EXPLICIT, connection == CONNECTION_SOCKETS);
 		if (!directory.empty()) {
 			print_debug("Working directory is %s", directory.c_str());
 			process->set_directory(directory);
diff --git a/support/client/process.cpp b/support/client/process.cpp
index 4c73ad6..163c8b5 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -157,7 +157,7 @@ char** parse_command(const char* command) {
 }
 
 
-Process::Process(string command, bool explicit_mode) : running(false), explicit_mode(explicit_mode) {
+Process::Process(string command, bool explicit_mode, bool joint_output) : running(false), explicit_mode(explicit_mode), joint_output(joint_output) {
 
     exit_status = -1;
 
@@ -316,7 +316,7 @@ bool Process::start() {
         siStartInfo.dwFlags |= STARTF_USESHOWWINDOW;
         if (!explicit_mode) {
             siStartInfo.hStdError = handle_ERR_Wr;
-            siStartInfo.hStdOutput = handle_OUT_Wr;
+            siStartInfo.hStdOutput = joint_output ? handle_ERR_Wr : handle_OUT_Wr;
             siStartInfo.hStdInput = handle_IN_Rd;
             siStartInfo.dwFlags |= STARTF_USESTDHANDLES;
         } else {
@@ -402,7 +402,7 @@ bool Process::start() {
 
         if (!explicit_mode) {
             posix_spawn_file_actions_adddup2(&action, out[0], 0);
-            posix_spawn_file_actions_adddup2(&action, in[1], 1);
+            posix_spawn_file_actions_adddup2(&action, joint_output ? err[1] : in[1], 1);
             posix_spawn_file_actions_adddup2(&action, err[1], 2);
         } else {
             posix_spawn_file_actions_adddup2(&action, err[1], 2);
diff --git a/support/client/process.h b/support/client/process.h
index ae5974c..dc05d78 100644
--- a/support/client/process.h
+++ b/support/client/process.h
@@ -32,7 +32,8 @@ using namespace std;
 class Process : public Synchronized {
 public:
 
-    Process(string command, bool explicit_mode = false);
+    // With a joint output everything that the process prints is read from its error stream
+    Process(string command, bool explicit_mode = false, bool joint_output = false);
     ~Process();
 
     void set_directory(string pwd);
@@ -79,6 +80,7 @@ private:
     bool running;
 
     int explicit_mode;
+    bool joint_output;
     int exit_status;
 
 #ifdef WIN32
-- 
2.43.0

