From 9d1bf4cd4769c1f8cf2bb14b99d076a945351981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:59 +0000
Subject: [PATCH 001/109] fix: leave no dangling relay handle when a connection
 attempt fails

A failed nostr_relay_connect freed its context but left relay->ws_handle
pointing at it, so the next call on the relay used freed memory. The URL
copy was used unchecked, a failed nostr_relay_create left a dangling out
pointer, and CONNECTING could be reported after CONNECTED because the
service thread was already running.
---
 src/relay.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 2d08bd8..eeb8221 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -171,6 +171,7 @@ nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
     (*relay)->url = strdup(url);
     if (!(*relay)->url) {
         free(*relay);
+        *relay = NULL;
         return NOSTR_ERR_MEMORY;
     }
 
@@ -223,6 +224,10 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     ccinfo.ssl_connection = LCCSCF_USE_SSL;
     
     char* url_copy = strdup(relay->url);
+    if (!url_copy) {
+        lws_context_destroy(context);
+        return NOSTR_ERR_MEMORY;
+    }
     if (strncmp(url_copy, "wss://", 6) == 0) {
         ccinfo.address = url_copy + 6;
         ccinfo.ssl_connection = LCCSCF_USE_SSL;
@@ -281,8 +286,10 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     struct lws* wsi = lws_client_connect_via_info(&ccinfo);
     if (!wsi) {
         free(url_copy);
-        free(ctx);
+        destroy_queue_mutex(ctx);
+        relay->ws_handle = NULL;
         lws_context_destroy(context);
+        free(ctx);
         relay->state = NOSTR_RELAY_ERROR;
         return NOSTR_ERR_CONNECTION;
     }
@@ -291,6 +298,9 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     lws_set_opaque_user_data(wsi, relay);
     free(url_copy);
 
+    /* Before the service thread starts, so that it precedes CONNECTED */
+    callback(relay, NOSTR_RELAY_CONNECTING, user_data);
+
 #ifdef NOSTR_FEATURE_THREADING
     ctx->service_running = true;
     ctx->service_thread_created = false;
@@ -319,10 +329,6 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     ctx->service_thread_created = true;
 #endif
 
-    if (callback) {
-        callback(relay, NOSTR_RELAY_CONNECTING, user_data);
-    }
-
     return NOSTR_OK;
 }
 
-- 
2.43.0


From 17b2b2cebb4316c4d531f560024a78d8f283ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:59 +0000
Subject: [PATCH 002/109] fix: release the service thread and context of a lost
 connection

Once a connection had failed or been lost, nostr_relay_destroy freed the
relay while its service thread was still running, and nostr_relay_connect
replaced the handle and leaked the old thread and context.
---
 src/relay.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/relay.c b/src/relay.c
index eeb8221..6731246 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -187,7 +187,8 @@ nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
 void nostr_relay_destroy(nostr_relay* relay) {
     if (!relay) return;
 
-    if (relay->state == NOSTR_RELAY_CONNECTED || relay->state == NOSTR_RELAY_CONNECTING) {
+    /* A lost connection still owns its service thread and context */
+    if (relay->ws_handle) {
         nostr_relay_disconnect(relay);
     }
 
@@ -204,6 +205,17 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         return NOSTR_ERR_CONNECTION;
     }
 
+    /* Release what a lost connection left behind */
+    if (relay->ws_handle) {
+#if defined(NOSTR_FEATURE_THREADING) && !defined(_WIN32)
+        relay_context* lost = (relay_context*)relay->ws_handle;
+        if (lost->service_thread_created && pthread_equal(lost->service_thread, pthread_self())) {
+            return NOSTR_ERR_CONNECTION;
+        }
+#endif
+        nostr_relay_disconnect(relay);
+    }
+
     struct lws_context_creation_info info;
     memset(&info, 0, sizeof(info));
     info.port = CONTEXT_PORT_NO_LISTEN;
-- 
2.43.0


From 73f45c467155649177b0bc845d2a81162795f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:59 +0000
Subject: [PATCH 003/109] fix: notice when the relay closes the connection

libwebsockets reports the end of an established client connection as
LWS_CALLBACK_CLIENT_CLOSED, which was ignored: the relay stayed CONNECTED
and later sends used the freed websocket handle.
---
 src/relay.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 6731246..acc6ec5 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -431,7 +431,7 @@ nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* even
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
     free(msg);
@@ -493,7 +493,7 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
     free(msg);
@@ -566,7 +566,7 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
     free(msg);
@@ -724,8 +724,13 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
             break;
             
         case LWS_CALLBACK_CLIENT_CONNECTION_ERROR:
+        case LWS_CALLBACK_CLIENT_CLOSED:
         case LWS_CALLBACK_CLOSED:
             if (relay && ctx) {
+                lock_queue_mutex(ctx);
+                ctx->wsi = NULL;
+                unlock_queue_mutex(ctx);
+                ctx->buffer_pos = 0;
                 relay->state = NOSTR_RELAY_DISCONNECTED;
                 if (ctx->state_callback) {
                     ctx->state_callback(relay, NOSTR_RELAY_DISCONNECTED, ctx->user_data);
-- 
2.43.0


From 0214356a5b2599495f9655442bf2b1af6f8a09c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 004/109] fix: honour the port in a relay URL

ws://host:7777 was passed to libwebsockets as the host name "host:7777"
on port 80.
---
 src/relay.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/relay.c b/src/relay.c
index acc6ec5..4197031 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -260,6 +260,20 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     } else {
         ccinfo.path = "/";
     }
+
+    /* "host:port"; a bare IPv6 address has more than one colon */
+    char* port = strchr(ccinfo.address, ':');
+    if (port && !strchr(port + 1, ':')) {
+        char* port_end = NULL;
+        long value = strtol(port + 1, &port_end, 10);
+        if (port_end == port + 1 || *port_end != '\0' || value < 1 || value > 65535) {
+            free(url_copy);
+            lws_context_destroy(context);
+            return NOSTR_ERR_INVALID_PARAM;
+        }
+        *port = '\0';
+        ccinfo.port = (int)value;
+    }
     
     ccinfo.host = ccinfo.address;
     ccinfo.origin = ccinfo.address;
-- 
2.43.0


From 190d5b1ccb17ff60825c162b43bc4721b93ff21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 005/109] fix: make the connection attempt that a lost relay
 reports

After a loss the relay reported CONNECTING without connecting to anything;
it stayed CONNECTING for good and nostr_relay_connect refused to help.
---
 src/relay.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/relay.c b/src/relay.c
index 4197031..56e0e19 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -80,6 +80,8 @@ typedef struct {
     bool reconnect_enabled;
     int reconnect_interval;
     time_t last_connect_attempt;
+    struct lws_client_connect_info connect_info;
+    char* connect_url;
     subscription_t* subscriptions;
     char* receive_buffer;
     size_t buffer_size;
@@ -322,7 +324,8 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     
     ctx->wsi = wsi;
     lws_set_opaque_user_data(wsi, relay);
-    free(url_copy);
+    ctx->connect_info = ccinfo;
+    ctx->connect_url = url_copy;
 
     /* Before the service thread starts, so that it precedes CONNECTED */
     callback(relay, NOSTR_RELAY_CONNECTING, user_data);
@@ -337,6 +340,7 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         destroy_queue_mutex(ctx);
         relay->ws_handle = NULL;
         lws_context_destroy(context);
+        free(url_copy);
         free(ctx);
         relay->state = NOSTR_RELAY_ERROR;
         return NOSTR_ERR_MEMORY;
@@ -347,6 +351,7 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         destroy_queue_mutex(ctx);
         relay->ws_handle = NULL;
         lws_context_destroy(context);
+        free(url_copy);
         free(ctx);
         relay->state = NOSTR_RELAY_ERROR;
         return NOSTR_ERR_MEMORY;
@@ -400,6 +405,7 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
     }
     
     free(ctx->data);
+    free(ctx->connect_url);
     free(ctx->receive_buffer);
     free(ctx);
     
@@ -758,6 +764,18 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                         if (ctx->state_callback) {
                             ctx->state_callback(relay, NOSTR_RELAY_CONNECTING, ctx->user_data);
                         }
+                        struct lws* next = lws_client_connect_via_info(&ctx->connect_info);
+                        if (next) {
+                            lws_set_opaque_user_data(next, relay);
+                            lock_queue_mutex(ctx);
+                            ctx->wsi = next;
+                            unlock_queue_mutex(ctx);
+                        } else {
+                            relay->state = NOSTR_RELAY_DISCONNECTED;
+                            if (ctx->state_callback) {
+                                ctx->state_callback(relay, NOSTR_RELAY_DISCONNECTED, ctx->user_data);
+                            }
+                        }
                     }
                 }
             }
-- 
2.43.0


From 7a406724b970e06340e2438761539cdc27b51674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 006/109] fix: guard the subscription list shared with the
 service thread

A failed subscribe no longer leaves a registered subscription, a repeated
id replaces the earlier one, and the list is only touched under the queue
mutex.
---
 src/relay.c | 98 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 60 insertions(+), 38 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 56e0e19..3cd3c7a 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -155,6 +155,21 @@ static void lock_queue_mutex(relay_context* ctx) { (void)ctx; }
 static void unlock_queue_mutex(relay_context* ctx) { (void)ctx; }
 #endif
 
+/* Caller holds the queue mutex */
+static void remove_subscription(relay_context* ctx, const char* id) {
+    subscription_t** sub_ptr = &ctx->subscriptions;
+    while (*sub_ptr) {
+        if (strcmp((*sub_ptr)->id, id) == 0) {
+            subscription_t* to_remove = *sub_ptr;
+            *sub_ptr = to_remove->next;
+            free(to_remove->id);
+            free(to_remove);
+            break;
+        }
+        sub_ptr = &(*sub_ptr)->next;
+    }
+}
+
 static struct lws_protocols protocols[] = {
     { "nostr-protocol", callback_nostr_relay, sizeof(relay_context), 65536 },
     { NULL, NULL, 0, 0 }
@@ -491,13 +506,17 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     }
 
     sub->id = strdup(subscription_id);
+    if (!sub->id) {
+        free(sub);
+        return NOSTR_ERR_MEMORY;
+    }
     sub->callback = callback;
     sub->user_data = user_data;
-    sub->next = ctx->subscriptions;
-    ctx->subscriptions = sub;
 
     char* msg = malloc(strlen(subscription_id) + strlen(filters_json) + 20);
     if (!msg) {
+        free(sub->id);
+        free(sub);
         return NOSTR_ERR_MEMORY;
     }
 
@@ -507,6 +526,8 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     unsigned char* buf = malloc(LWS_PRE + msg_len);
     if (!buf) {
         free(msg);
+        free(sub->id);
+        free(sub);
         return NOSTR_ERR_MEMORY;
     }
     
@@ -514,8 +535,18 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
 
     lock_queue_mutex(ctx);
     int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
+    if (result >= 0) {
+        remove_subscription(ctx, subscription_id);
+        sub->next = ctx->subscriptions;
+        ctx->subscriptions = sub;
+    }
     unlock_queue_mutex(ctx);
 
+    if (result < 0) {
+        free(sub->id);
+        free(sub);
+    }
+
     free(msg);
     free(buf);
 
@@ -557,17 +588,9 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
         return NOSTR_ERR_CONNECTION;
     }
 
-    subscription_t** sub_ptr = &ctx->subscriptions;
-    while (*sub_ptr) {
-        if (strcmp((*sub_ptr)->id, subscription_id) == 0) {
-            subscription_t* to_remove = *sub_ptr;
-            *sub_ptr = to_remove->next;
-            free(to_remove->id);
-            free(to_remove);
-            break;
-        }
-        sub_ptr = &(*sub_ptr)->next;
-    }
+    lock_queue_mutex(ctx);
+    remove_subscription(ctx, subscription_id);
+    unlock_queue_mutex(ctx);
 
     char* msg = malloc(strlen(subscription_id) + 20);
     if (!msg) {
@@ -650,23 +673,30 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                     cJSON* sub_id = cJSON_GetArrayItem(json, 1);
                                     cJSON* event_json = cJSON_GetArrayItem(json, 2);
                                     if (cJSON_IsString(sub_id) && event_json) {
+                                        /* The application may drop the subscription at any time */
+                                        nostr_event_callback event_callback = NULL;
+                                        void* event_user_data = NULL;
+                                        lock_queue_mutex(ctx);
                                         subscription_t* sub = ctx->subscriptions;
-                                        while (sub) {
-                                            if (strcmp(sub->id, sub_id->valuestring) == 0) {
-                                                char* event_str = cJSON_Print(event_json);
-                                                if (event_str) {
-                                                    nostr_event* event;
-                                                    if (nostr_event_from_json(event_str, &event) == NOSTR_OK) {
-                                                        if (sub->callback) {
-                                                            sub->callback(event, sub->user_data);
-                                                        }
-                                                        nostr_event_destroy(event);
-                                                    }
-                                                    free(event_str);
+                                        while (sub && strcmp(sub->id, sub_id->valuestring) != 0) {
+                                            sub = sub->next;
+                                        }
+                                        if (sub) {
+                                            event_callback = sub->callback;
+                                            event_user_data = sub->user_data;
+                                        }
+                                        unlock_queue_mutex(ctx);
+
+                                        if (event_callback) {
+                                            char* event_str = cJSON_Print(event_json);
+                                            if (event_str) {
+                                                nostr_event* event;
+                                                if (nostr_event_from_json(event_str, &event) == NOSTR_OK) {
+                                                    event_callback(event, event_user_data);
+                                                    nostr_event_destroy(event);
                                                 }
-                                                break;
+                                                free(event_str);
                                             }
-                                            sub = sub->next;
                                         }
                                     }
                                 } else if (strcmp(msg_type, "OK") == 0 && array_size >= 4) {
@@ -688,17 +718,9 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                 } else if (strcmp(msg_type, "CLOSED") == 0 && array_size >= 3) {
                                     cJSON* sub_id = cJSON_GetArrayItem(json, 1);
                                     if (cJSON_IsString(sub_id)) {
-                                        subscription_t** sub_ptr = &ctx->subscriptions;
-                                        while (*sub_ptr) {
-                                            if (strcmp((*sub_ptr)->id, sub_id->valuestring) == 0) {
-                                                subscription_t* to_remove = *sub_ptr;
-                                                *sub_ptr = to_remove->next;
-                                                free(to_remove->id);
-                                                free(to_remove);
-                                                break;
-                                            }
-                                            sub_ptr = &(*sub_ptr)->next;
-                                        }
+                                        lock_queue_mutex(ctx);
+                                        remove_subscription(ctx, sub_id->valuestring);
+                                        unlock_queue_mutex(ctx);
                                     }
                                     if (ctx->message_callback) {
                                         char* msg_str = cJSON_Print(json);
-- 
2.43.0


From 824745b7d5c1e87c517c5e628954d99c76f2ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 007/109] fix: keep a bad or oversize relay message from
 swallowing later ones

A message that is incomplete, not JSON, too large or that cannot be
buffered is dropped at its own end instead of stalling or corrupting the
messages that follow it.
---
 src/relay.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 3cd3c7a..6b593e8 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -86,6 +86,7 @@ typedef struct {
     char* receive_buffer;
     size_t buffer_size;
     size_t buffer_pos;
+    bool discard_message;
 } relay_context;
 
 #ifdef NOSTR_FEATURE_THREADING
@@ -313,6 +314,7 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     ctx->receive_buffer = NULL;
     ctx->buffer_size = 0;
     ctx->buffer_pos = 0;
+    ctx->discard_message = false;
     ctx->message_callback = relay->message_callback;
     ctx->message_user_data = relay->message_user_data;
     if (init_queue_mutex(ctx) != 0) {
@@ -634,20 +636,33 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
             break;
             
         case LWS_CALLBACK_CLIENT_RECEIVE:
-            if (relay && ctx && in && len > 0) {
+            if (relay && ctx && (in || len == 0)) {
                 const size_t max_buffer_size = 10 * 1024 * 1024;
+                const bool message_end = lws_is_final_fragment(wsi) && lws_remaining_packet_payload(wsi) == 0;
+
+                if (ctx->discard_message || len == 0) {
+                    if (message_end) {
+                        ctx->buffer_pos = 0;
+                        ctx->discard_message = false;
+                    }
+                    break;
+                }
                 if (ctx->buffer_pos + len >= ctx->buffer_size) {
                     size_t new_size = ctx->buffer_pos + len + 1024;
-                    if (new_size > max_buffer_size) {
+                    char* new_buffer = NULL;
+                    if (new_size <= max_buffer_size) {
+                        new_buffer = realloc(ctx->receive_buffer, new_size);
+                    }
+                    if (!new_buffer) {
+                        /* Drop this message only, up to its end */
                         ctx->buffer_pos = 0;
+                        ctx->discard_message = !message_end;
                         break;
                     }
-                    char* new_buffer = realloc(ctx->receive_buffer, new_size);
-                    if (!new_buffer) break;
                     ctx->receive_buffer = new_buffer;
                     ctx->buffer_size = new_size;
                 }
-                
+
                 memcpy(ctx->receive_buffer + ctx->buffer_pos, in, len);
                 ctx->buffer_pos += len;
                 ctx->receive_buffer[ctx->buffer_pos] = '\0';
@@ -754,7 +769,8 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                     while (*start && (*start == '\n' || *start == '\r' || *start == ' ')) start++;
                 }
                 
-                size_t remaining = strlen(start);
+                /* An incomplete message never continues in the next one */
+                size_t remaining = message_end ? 0 : strlen(start);
                 if (remaining > 0) {
                     memmove(ctx->receive_buffer, start, remaining + 1);
                     ctx->buffer_pos = remaining;
@@ -773,6 +789,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                 ctx->wsi = NULL;
                 unlock_queue_mutex(ctx);
                 ctx->buffer_pos = 0;
+                ctx->discard_message = false;
                 relay->state = NOSTR_RELAY_DISCONNECTED;
                 if (ctx->state_callback) {
                     ctx->state_callback(relay, NOSTR_RELAY_DISCONNECTED, ctx->user_data);
-- 
2.43.0


From 512c985d4cf3bda5fea0e8d6a4b309762feda150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 008/109] fix: never pair a message callback with another
 callback's user data

The service thread reads the pair under the lock that replaces it.
---
 src/relay.c | 57 +++++++++++++++++++++--------------------------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 6b593e8..60af2fd 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -569,8 +569,10 @@ nostr_error_t nostr_relay_set_message_callback(nostr_relay* relay, nostr_message
     
     if (relay->ws_handle) {
         relay_context* ctx = (relay_context*)relay->ws_handle;
+        lock_queue_mutex(ctx);
         ctx->message_callback = callback;
         ctx->message_user_data = user_data;
+        unlock_queue_mutex(ctx);
     }
     
     return NOSTR_OK;
@@ -620,6 +622,21 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
 }
 
+static void notify_message(relay_context* ctx, const char* msg_type, const cJSON* json) {
+    lock_queue_mutex(ctx);
+    nostr_message_callback callback = ctx->message_callback;
+    void* user_data = ctx->message_user_data;
+    unlock_queue_mutex(ctx);
+
+    if (!callback) return;
+
+    char* msg_str = cJSON_Print(json);
+    if (msg_str) {
+        callback(msg_type, msg_str, user_data);
+        free(msg_str);
+    }
+}
+
 static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reason,
                                void* user, void* in, size_t len) {
     nostr_relay* relay = (nostr_relay*)lws_get_opaque_user_data(wsi);
@@ -715,21 +732,9 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                         }
                                     }
                                 } else if (strcmp(msg_type, "OK") == 0 && array_size >= 4) {
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
+                                    notify_message(ctx, msg_type, json);
                                 } else if (strcmp(msg_type, "EOSE") == 0 && array_size >= 2) {
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
+                                    notify_message(ctx, msg_type, json);
                                 } else if (strcmp(msg_type, "CLOSED") == 0 && array_size >= 3) {
                                     cJSON* sub_id = cJSON_GetArrayItem(json, 1);
                                     if (cJSON_IsString(sub_id)) {
@@ -737,27 +742,11 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                         remove_subscription(ctx, sub_id->valuestring);
                                         unlock_queue_mutex(ctx);
                                     }
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
+                                    notify_message(ctx, msg_type, json);
                                 } else if (strcmp(msg_type, "NOTICE") == 0 && array_size >= 2) {
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
-                                } else if (ctx->message_callback) {
-                                    char* msg_str = cJSON_Print(json);
-                                    if (msg_str) {
-                                        ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                        free(msg_str);
-                                    }
+                                    notify_message(ctx, msg_type, json);
+                                } else {
+                                    notify_message(ctx, msg_type, json);
                                 }
                             }
                         }
-- 
2.43.0


From 9e764098c79fcfb94bd3095ee858815a16b98190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:10 +0000
Subject: [PATCH 009/109] fix: reject subscription filters that are not just
 filters

---
 src/relay.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/relay.c b/src/relay.c
index 60af2fd..c0d1336 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -523,7 +523,17 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     }
 
     sprintf(msg, "[\"REQ\",\"%s\",%s]", subscription_id, filters_json);
-    
+
+    /* Trailing text in the filters must not change what is being requested */
+    cJSON* request = cJSON_ParseWithOpts(msg, NULL, 1);
+    if (!request) {
+        free(msg);
+        free(sub->id);
+        free(sub);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+    cJSON_Delete(request);
+
     size_t msg_len = strlen(msg);
     unsigned char* buf = malloc(LWS_PRE + msg_len);
     if (!buf) {
-- 
2.43.0


From 6afd44353016076227b3da007b2b5ec60013a6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:38 +0000
Subject: [PATCH 010/109] fix: keep the subscription list in step with what the
 relay was told

Removing a subscription and sending CLOSE happen under one lock, so a
concurrent subscribe for the same id cannot fall between them.
---
 src/relay.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index c0d1336..26a84e1 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -602,10 +602,6 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
         return NOSTR_ERR_CONNECTION;
     }
 
-    lock_queue_mutex(ctx);
-    remove_subscription(ctx, subscription_id);
-    unlock_queue_mutex(ctx);
-
     char* msg = malloc(strlen(subscription_id) + 20);
     if (!msg) {
         return NOSTR_ERR_MEMORY;
@@ -623,6 +619,7 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
+    remove_subscription(ctx, subscription_id);
     int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
-- 
2.43.0


From 5028914f437baa3c9c0d083b23c39feaaf18ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 011/109] fix: never emit an incomplete event when memory runs
 out

Event ids and JSON were computed from whatever parts could be allocated.
Timestamps are also written as integers: cJSON prints 1e+15 for large ones,
which gives the wrong id.
---
 src/event.c | 104 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 70 insertions(+), 34 deletions(-)

diff --git a/src/event.c b/src/event.c
index 733e358..5a5db33 100644
--- a/src/event.c
+++ b/src/event.c
@@ -280,6 +280,57 @@ static char* escape_json_string(const char* input)
 }
 #endif
 
+#ifdef NOSTR_FEATURE_JSON_ENHANCED
+static int add_to_array(cJSON* array, cJSON* item)
+{
+    if (item && cJSON_AddItemToArray(array, item)) {
+        return 1;
+    }
+    cJSON_Delete(item);
+    return 0;
+}
+
+static int add_to_object(cJSON* object, const char* name, cJSON* item)
+{
+    if (item && cJSON_AddItemToObject(object, name, item)) {
+        return 1;
+    }
+    cJSON_Delete(item);
+    return 0;
+}
+
+/* cJSON prints large numbers in exponent form, which is not a valid timestamp */
+static cJSON* create_timestamp(int64_t created_at)
+{
+    char buffer[24];
+    snprintf(buffer, sizeof(buffer), "%" PRId64, created_at);
+    return cJSON_CreateRaw(buffer);
+}
+
+static cJSON* create_tags_array(const nostr_event* event)
+{
+    cJSON* tags_array = cJSON_CreateArray();
+    if (!tags_array) {
+        return NULL;
+    }
+    for (size_t i = 0; i < event->tags_count; i++) {
+        cJSON* tag_array = cJSON_CreateArray();
+        if (!add_to_array(tags_array, tag_array)) {
+            cJSON_Delete(tags_array);
+            return NULL;
+        }
+        for (size_t j = 0; j < event->tags[i].count; j++) {
+            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
+            if (!add_to_array(tag_array, cJSON_CreateString(tag_value))) {
+                cJSON_Delete(tags_array);
+                return NULL;
+            }
+        }
+    }
+    return tags_array;
+}
+#endif
+
 static char* serialize_for_id(const nostr_event* event)
 {
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
@@ -292,22 +343,18 @@ static char* serialize_for_id(const nostr_event* event)
     pubkey_hex[64] = '\0';
 
     cJSON* serialization = cJSON_CreateArray();
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->created_at));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
-
-    cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
-        cJSON* tag_array = cJSON_CreateArray();
-        for (size_t j = 0; j < event->tags[i].count; j++) {
-            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
-        }
-        cJSON_AddItemToArray(tags_array, tag_array);
+    if (!serialization) {
+        return NULL;
+    }
+    if (!add_to_array(serialization, cJSON_CreateNumber(0)) ||
+        !add_to_array(serialization, cJSON_CreateString(pubkey_hex)) ||
+        !add_to_array(serialization, create_timestamp(event->created_at)) ||
+        !add_to_array(serialization, cJSON_CreateNumber(event->kind)) ||
+        !add_to_array(serialization, create_tags_array(event)) ||
+        !add_to_array(serialization, cJSON_CreateString(content))) {
+        cJSON_Delete(serialization);
+        return NULL;
     }
-    cJSON_AddItemToArray(serialization, tags_array);
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(content));
 
     char* result = cJSON_PrintUnformatted(serialization);
 
@@ -400,37 +447,26 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
         sprintf(hex_buffer + i * 2, "%02x", event->id[i]);
     }
     hex_buffer[64] = '\0';
-    cJSON_AddStringToObject(root, "id", hex_buffer);
+    int complete = cJSON_AddStringToObject(root, "id", hex_buffer) != NULL;
 
     for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
         sprintf(hex_buffer + i * 2, "%02x", event->pubkey.data[i]);
     }
     hex_buffer[64] = '\0';
-    cJSON_AddStringToObject(root, "pubkey", hex_buffer);
-
-    cJSON_AddNumberToObject(root, "created_at", event->created_at);
-    cJSON_AddNumberToObject(root, "kind", event->kind);
-
-    cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
-        cJSON* tag_array = cJSON_CreateArray();
-        for (size_t j = 0; j < event->tags[i].count; j++) {
-            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
-        }
-        cJSON_AddItemToArray(tags_array, tag_array);
-    }
-    cJSON_AddItemToObject(root, "tags", tags_array);
+    complete = complete && cJSON_AddStringToObject(root, "pubkey", hex_buffer);
 
-    cJSON_AddStringToObject(root, "content", event->content ? event->content : "");
+    complete = complete && add_to_object(root, "created_at", create_timestamp(event->created_at));
+    complete = complete && cJSON_AddNumberToObject(root, "kind", event->kind);
+    complete = complete && add_to_object(root, "tags", create_tags_array(event));
+    complete = complete && cJSON_AddStringToObject(root, "content", event->content ? event->content : "");
 
     for (int i = 0; i < NOSTR_SIG_SIZE; i++) {
         sprintf(hex_buffer + i * 2, "%02x", event->sig[i]);
     }
     hex_buffer[128] = '\0';
-    cJSON_AddStringToObject(root, "sig", hex_buffer);
+    complete = complete && cJSON_AddStringToObject(root, "sig", hex_buffer);
 
-    *json = cJSON_Print(root);
+    *json = complete ? cJSON_Print(root) : NULL;
     cJSON_Delete(root);
 
     return *json ? NOSTR_OK : NOSTR_ERR_MEMORY;
-- 
2.43.0


From bc70d8f2f6b82a9866e05e52c3d514022700bcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:40 +0000
Subject: [PATCH 012/109] fix: leave no freed event behind when creating or
 parsing one fails

set_content also keeps the old content when it fails.
---
 src/event.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/event.c b/src/event.c
index 5a5db33..d77287f 100644
--- a/src/event.c
+++ b/src/event.c
@@ -97,6 +97,7 @@ nostr_error_t nostr_event_create(nostr_event** event)
 
     if (tag_arena_create(&(*event)->tag_arena, 1024) != NOSTR_OK) {
         free(*event);
+        *event = NULL;
         return NOSTR_ERR_MEMORY;
     }
 
@@ -122,11 +123,12 @@ nostr_error_t nostr_event_set_content(nostr_event* event, const char* content)
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    free(event->content);
-    event->content = strdup(content);
-    if (!event->content) {
+    char* copy = strdup(content);
+    if (!copy) {
         return NOSTR_ERR_MEMORY;
     }
+    free(event->content);
+    event->content = copy;
 
     return NOSTR_OK;
 }
@@ -489,7 +491,7 @@ static int hex_to_bytes(const char* hex, unsigned char* bytes, size_t bytes_len)
     return 1;
 }
 
-nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
+static nostr_error_t event_from_json(const char* json, nostr_event** event)
 {
     if (!json || !event) {
         return NOSTR_ERR_INVALID_PARAM;
@@ -626,6 +628,15 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
 #endif
 }
 
+nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
+{
+    nostr_error_t result = event_from_json(json, event);
+    if (result != NOSTR_OK && event) {
+        *event = NULL;
+    }
+    return result;
+}
+
 nostr_error_t nostr_event_sign(nostr_event* event, const nostr_privkey* privkey)
 {
     if (!event || !privkey) {
-- 
2.43.0


From f973c24433cb6ae5b5d47fcff6e1301df7de29ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:41 +0000
Subject: [PATCH 013/109] fix: reject event JSON with malformed hex, kinds or
 timestamps

sscanf accepted signs, blanks and 0x in hex fields; a kind above 65535
wrapped around and a huge timestamp was undefined behaviour.
---
 src/event.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/event.c b/src/event.c
index d77287f..55500b1 100644
--- a/src/event.c
+++ b/src/event.c
@@ -483,12 +483,7 @@ static int hex_to_bytes(const char* hex, unsigned char* bytes, size_t bytes_len)
         return 0;
     }
 
-    for (size_t i = 0; i < bytes_len; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &bytes[i]) != 1) {
-            return 0;
-        }
-    }
-    return 1;
+    return nostr_hex_decode(hex, bytes, bytes_len) == (int)bytes_len;
 }
 
 static nostr_error_t event_from_json(const char* json, nostr_event** event)
@@ -535,11 +530,23 @@ static nostr_error_t event_from_json(const char* json, nostr_event** event)
 
     cJSON* created_at_json = cJSON_GetObjectItem(root, "created_at");
     if (created_at_json && cJSON_IsNumber(created_at_json)) {
+        /* Only integers that a JSON number carries exactly */
+        if (!(created_at_json->valuedouble >= -9007199254740992.0 &&
+              created_at_json->valuedouble <= 9007199254740992.0)) {
+            nostr_event_destroy(*event);
+            cJSON_Delete(root);
+            return NOSTR_ERR_INVALID_EVENT;
+        }
         (*event)->created_at = (int64_t)created_at_json->valuedouble;
     }
 
     cJSON* kind_json = cJSON_GetObjectItem(root, "kind");
     if (kind_json && cJSON_IsNumber(kind_json)) {
+        if (kind_json->valueint < 0 || kind_json->valueint > UINT16_MAX) {
+            nostr_event_destroy(*event);
+            cJSON_Delete(root);
+            return NOSTR_ERR_INVALID_EVENT;
+        }
         (*event)->kind = (uint16_t)kind_json->valueint;
     }
 
-- 
2.43.0


From 2313822fa734bbb0ac8fbdd85c87c2dd957c2106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:06 +0000
Subject: [PATCH 014/109] fix: reject filters that cannot be understood instead
 of widening them

---
 src/relay_filter.c | 55 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index 6ef4301..18a3be0 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -17,12 +17,17 @@
 
 static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_t* out_count)
 {
-    if (!arr || !cJSON_IsArray(arr)) {
+    if (!arr) {
         *out_arr = NULL;
         *out_count = 0;
         return NOSTR_RELAY_OK;
     }
 
+    /* Dropping what cannot be understood would widen the filter */
+    if (!cJSON_IsArray(arr)) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
     int count = cJSON_GetArraySize(arr);
     if (count == 0) {
         *out_arr = NULL;
@@ -33,6 +38,12 @@ static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_
     if (count > NOSTR_MAX_TAG_FILTER_VALUES) {
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
+    cJSON* value;
+    cJSON_ArrayForEach(value, arr) {
+        if (!cJSON_IsString(value)) {
+            return NOSTR_RELAY_ERR_INVALID_JSON;
+        }
+    }
 
     *out_arr = calloc((size_t)count, sizeof(char*));
     if (!*out_arr) {
@@ -62,12 +73,16 @@ static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_
 
 static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t* out_count)
 {
-    if (!arr || !cJSON_IsArray(arr)) {
+    if (!arr) {
         *out_arr = NULL;
         *out_count = 0;
         return NOSTR_RELAY_OK;
     }
 
+    if (!cJSON_IsArray(arr)) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
     int count = cJSON_GetArraySize(arr);
     if (count == 0) {
         *out_arr = NULL;
@@ -78,6 +93,12 @@ static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t
     if (count > NOSTR_MAX_TAG_FILTER_VALUES) {
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
+    cJSON* value;
+    cJSON_ArrayForEach(value, arr) {
+        if (!cJSON_IsNumber(value)) {
+            return NOSTR_RELAY_ERR_INVALID_JSON;
+        }
+    }
 
     *out_arr = calloc((size_t)count, sizeof(int32_t));
     if (!*out_arr) {
@@ -95,6 +116,21 @@ static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t
     return NOSTR_RELAY_OK;
 }
 
+static nostr_relay_error_t parse_timestamp(cJSON* item, int64_t* out)
+{
+    if (!item) {
+        return NOSTR_RELAY_OK;
+    }
+
+    if (!cJSON_IsNumber(item) ||
+        !(item->valuedouble >= -9007199254740992.0 && item->valuedouble <= 9007199254740992.0)) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
+    *out = (int64_t)item->valuedouble;
+    return NOSTR_RELAY_OK;
+}
+
 nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_filter_t* filter)
 {
     if (!json || !filter) {
@@ -104,7 +140,8 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
     memset(filter, 0, sizeof(nostr_filter_t));
 
     cJSON* root = (json_len > 0) ? cJSON_ParseWithLength(json, json_len) : cJSON_Parse(json);
-    if (!root) {
+    if (!root || !cJSON_IsObject(root)) {
+        cJSON_Delete(root);
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
@@ -167,15 +204,11 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         filter->generic_tags_count = generic_count;
     }
 
-    cJSON* since = cJSON_GetObjectItem(root, "since");
-    if (since && cJSON_IsNumber(since)) {
-        filter->since = (int64_t)since->valuedouble;
-    }
+    err = parse_timestamp(cJSON_GetObjectItem(root, "since"), &filter->since);
+    if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    cJSON* until = cJSON_GetObjectItem(root, "until");
-    if (until && cJSON_IsNumber(until)) {
-        filter->until = (int64_t)until->valuedouble;
-    }
+    err = parse_timestamp(cJSON_GetObjectItem(root, "until"), &filter->until);
+    if (err != NOSTR_RELAY_OK) goto cleanup;
 
     cJSON* limit = cJSON_GetObjectItem(root, "limit");
     if (limit && cJSON_IsNumber(limit)) {
-- 
2.43.0


From 2a27ed8eb5592d5f6607294da8fb2dea9718d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:06 +0000
Subject: [PATCH 015/109] fix: tell #E and #P filters from #e and #p

---
 src/relay_filter.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index 18a3be0..53c6f2d 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -147,19 +147,19 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
 
     nostr_relay_error_t err;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "ids"), &filter->ids, &filter->ids_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "ids"), &filter->ids, &filter->ids_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "authors"), &filter->authors, &filter->authors_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "authors"), &filter->authors, &filter->authors_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_int_array(cJSON_GetObjectItem(root, "kinds"), &filter->kinds, &filter->kinds_count);
+    err = parse_int_array(cJSON_GetObjectItemCaseSensitive(root, "kinds"), &filter->kinds, &filter->kinds_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "#e"), &filter->e_tags, &filter->e_tags_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#e"), &filter->e_tags, &filter->e_tags_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "#p"), &filter->p_tags, &filter->p_tags_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#p"), &filter->p_tags, &filter->p_tags_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
     size_t generic_count = 0;
@@ -204,18 +204,18 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         filter->generic_tags_count = generic_count;
     }
 
-    err = parse_timestamp(cJSON_GetObjectItem(root, "since"), &filter->since);
+    err = parse_timestamp(cJSON_GetObjectItemCaseSensitive(root, "since"), &filter->since);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_timestamp(cJSON_GetObjectItem(root, "until"), &filter->until);
+    err = parse_timestamp(cJSON_GetObjectItemCaseSensitive(root, "until"), &filter->until);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    cJSON* limit = cJSON_GetObjectItem(root, "limit");
+    cJSON* limit = cJSON_GetObjectItemCaseSensitive(root, "limit");
     if (limit && cJSON_IsNumber(limit)) {
         filter->limit = limit->valueint;
     }
 
-    cJSON* search = cJSON_GetObjectItem(root, "search");
+    cJSON* search = cJSON_GetObjectItemCaseSensitive(root, "search");
     if (search && cJSON_IsString(search) && search->valuestring) {
         if (strlen(search->valuestring) > NOSTR_DEFAULT_MAX_CONTENT_LENGTH) {
             err = NOSTR_RELAY_ERR_INVALID_JSON;
-- 
2.43.0


From 1a89718dd246e999897bc369fb16ff9dcea6e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:39 +0000
Subject: [PATCH 016/109] fix: match filters against all of an event's tags

---
 src/relay_filter.c | 42 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index 53c6f2d..58d0a41 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -376,6 +376,18 @@ static bool hex_starts_with(const char* hex, size_t hex_len, const char* prefix)
     return strncmp(hex, prefix, prefix_len) == 0;
 }
 
+static bool event_has_tag_value(const nostr_event* event, const char* tag_name, const char* value)
+{
+    for (size_t i = 0; i < event->tags_count; i++) {
+        const nostr_tag* tag = &event->tags[i];
+        if (tag->count >= 2 && tag->values[0] && tag->values[1] &&
+            strcmp(tag->values[0], tag_name) == 0 && strcmp(tag->values[1], value) == 0) {
+            return true;
+        }
+    }
+    return false;
+}
+
 bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event)
 {
     if (!filter || !event) return false;
@@ -427,32 +439,16 @@ bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event
 
     if (filter->e_tags_count > 0) {
         bool matched = false;
-        const char* e_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t e_count = nostr_event_get_tag_values(event, "e", e_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
         for (size_t i = 0; i < filter->e_tags_count && !matched; i++) {
-            for (size_t j = 0; j < e_count; j++) {
-                if (e_values[j] && strcmp(e_values[j], filter->e_tags[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
+            matched = event_has_tag_value(event, "e", filter->e_tags[i]);
         }
         if (!matched) return false;
     }
 
     if (filter->p_tags_count > 0) {
         bool matched = false;
-        const char* p_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t p_count = nostr_event_get_tag_values(event, "p", p_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
         for (size_t i = 0; i < filter->p_tags_count && !matched; i++) {
-            for (size_t j = 0; j < p_count; j++) {
-                if (p_values[j] && strcmp(p_values[j], filter->p_tags[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
+            matched = event_has_tag_value(event, "p", filter->p_tags[i]);
         }
         if (!matched) return false;
     }
@@ -460,17 +456,9 @@ bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event
     for (size_t t = 0; t < filter->generic_tags_count; t++) {
         char tag_name[2] = { filter->generic_tags[t].tag_name, '\0' };
 
-        const char* tag_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t tag_count = nostr_event_get_tag_values(event, tag_name, tag_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
         bool matched = false;
         for (size_t i = 0; i < filter->generic_tags[t].values_count && !matched; i++) {
-            for (size_t j = 0; j < tag_count; j++) {
-                if (tag_values[j] && strcmp(tag_values[j], filter->generic_tags[t].values[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
+            matched = event_has_tag_value(event, tag_name, filter->generic_tags[t].values[i]);
         }
         if (!matched) return false;
     }
-- 
2.43.0


From 74803eeca263ee641aea71c78c14192c462ea6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:06 +0000
Subject: [PATCH 017/109] fix: never serialise a relay message or canonical
 event with a part missing

---
 src/relay_message.c  | 56 +++++++++++++++++++++++++++-----------------
 src/relay_protocol.c | 27 ++++++++++++++-------
 2 files changed, 52 insertions(+), 31 deletions(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index 9a8ff3a..4a65e15 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -385,6 +385,15 @@ void nostr_relay_msg_count(nostr_relay_msg_t* msg, const char* query_id, int64_t
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 
+static bool append_item(cJSON* array, cJSON* item)
+{
+    if (item && cJSON_AddItemToArray(array, item)) {
+        return true;
+    }
+    cJSON_Delete(item);
+    return false;
+}
+
 nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char* buf, size_t buf_size, size_t* out_len)
 {
     if (!msg || !buf || buf_size == 0) {
@@ -396,10 +405,13 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
+    /* A message with a part missing must not be sent */
+    bool complete = true;
+
     switch (msg->type) {
         case NOSTR_RELAY_MSG_EVENT: {
-            cJSON_AddItemToArray(root, cJSON_CreateString("EVENT"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.event.subscription_id));
+            complete = append_item(root, cJSON_CreateString("EVENT")) && complete;
+            complete = append_item(root, cJSON_CreateString(msg->data.event.subscription_id)) && complete;
 
             if (!msg->data.event.event) {
                 cJSON_Delete(root);
@@ -416,51 +428,51 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            cJSON_AddItemToArray(root, event_obj);
+            complete = append_item(root, event_obj) && complete;
             break;
         }
 
         case NOSTR_RELAY_MSG_OK:
-            cJSON_AddItemToArray(root, cJSON_CreateString("OK"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.event_id));
-            cJSON_AddItemToArray(root, cJSON_CreateBool(msg->data.ok.success));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.message));
+            complete = append_item(root, cJSON_CreateString("OK")) && complete;
+            complete = append_item(root, cJSON_CreateString(msg->data.ok.event_id)) && complete;
+            complete = append_item(root, cJSON_CreateBool(msg->data.ok.success)) && complete;
+            complete = append_item(root, cJSON_CreateString(msg->data.ok.message)) && complete;
             break;
 
         case NOSTR_RELAY_MSG_EOSE:
-            cJSON_AddItemToArray(root, cJSON_CreateString("EOSE"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.eose.subscription_id));
+            complete = append_item(root, cJSON_CreateString("EOSE")) && complete;
+            complete = append_item(root, cJSON_CreateString(msg->data.eose.subscription_id)) && complete;
             break;
 
         case NOSTR_RELAY_MSG_CLOSED:
-            cJSON_AddItemToArray(root, cJSON_CreateString("CLOSED"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.subscription_id));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.message));
+            complete = append_item(root, cJSON_CreateString("CLOSED")) && complete;
+            complete = append_item(root, cJSON_CreateString(msg->data.closed.subscription_id)) && complete;
+            complete = append_item(root, cJSON_CreateString(msg->data.closed.message)) && complete;
             break;
 
         case NOSTR_RELAY_MSG_NOTICE:
-            cJSON_AddItemToArray(root, cJSON_CreateString("NOTICE"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.notice.message));
+            complete = append_item(root, cJSON_CreateString("NOTICE")) && complete;
+            complete = append_item(root, cJSON_CreateString(msg->data.notice.message)) && complete;
             break;
 
         case NOSTR_RELAY_MSG_AUTH:
-            cJSON_AddItemToArray(root, cJSON_CreateString("AUTH"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.auth.challenge));
+            complete = append_item(root, cJSON_CreateString("AUTH")) && complete;
+            complete = append_item(root, cJSON_CreateString(msg->data.auth.challenge)) && complete;
             break;
 
         case NOSTR_RELAY_MSG_COUNT: {
-            cJSON_AddItemToArray(root, cJSON_CreateString("COUNT"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.count.query_id));
+            complete = append_item(root, cJSON_CreateString("COUNT")) && complete;
+            complete = append_item(root, cJSON_CreateString(msg->data.count.query_id)) && complete;
             cJSON* count_obj = cJSON_CreateObject();
             if (!count_obj) {
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            cJSON_AddNumberToObject(count_obj, "count", (double)msg->data.count.count);
+            complete = cJSON_AddNumberToObject(count_obj, "count", (double)msg->data.count.count) && complete;
             if (msg->data.count.approximate) {
-                cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True);
+                complete = cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True) && complete;
             }
-            cJSON_AddItemToArray(root, count_obj);
+            complete = append_item(root, count_obj) && complete;
             break;
         }
 
@@ -469,7 +481,7 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
             return NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE;
     }
 
-    char* json_str = cJSON_PrintUnformatted(root);
+    char* json_str = complete ? cJSON_PrintUnformatted(root) : NULL;
     cJSON_Delete(root);
 
     if (!json_str) {
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index a698e1b..c3e2f4d 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -310,6 +310,15 @@ nostr_relay_error_t nostr_event_parse(const char* json, size_t json_len, nostr_e
     }
 }
 
+static bool append_item(cJSON* array, cJSON* item)
+{
+    if (item && cJSON_AddItemToArray(array, item)) {
+        return true;
+    }
+    cJSON_Delete(item);
+    return false;
+}
+
 nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, char* buf, size_t buf_size, size_t* out_len)
 {
     if (!event || !buf || buf_size == 0) {
@@ -327,25 +336,25 @@ nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, ch
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber((double)event->created_at));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
+    bool complete = append_item(serialization, cJSON_CreateNumber(0));
+    complete = append_item(serialization, cJSON_CreateString(pubkey_hex)) && complete;
+    complete = append_item(serialization, cJSON_CreateNumber((double)event->created_at)) && complete;
+    complete = append_item(serialization, cJSON_CreateNumber(event->kind)) && complete;
 
     cJSON* tags_array = cJSON_CreateArray();
     for (size_t i = 0; i < event->tags_count; i++) {
         cJSON* tag_array = cJSON_CreateArray();
         for (size_t j = 0; j < event->tags[i].count; j++) {
             const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
+            complete = append_item(tag_array, cJSON_CreateString(tag_value)) && complete;
         }
-        cJSON_AddItemToArray(tags_array, tag_array);
+        complete = append_item(tags_array, tag_array) && complete;
     }
-    cJSON_AddItemToArray(serialization, tags_array);
+    complete = append_item(serialization, tags_array) && complete;
 
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(event->content ? event->content : ""));
+    complete = append_item(serialization, cJSON_CreateString(event->content ? event->content : "")) && complete;
 
-    char* json_str = cJSON_PrintUnformatted(serialization);
+    char* json_str = complete ? cJSON_PrintUnformatted(serialization) : NULL;
     cJSON_Delete(serialization);
 
     if (!json_str) {
-- 
2.43.0


From 2a012072ba2efe9e3531b9da13772ff6d880d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:40 +0000
Subject: [PATCH 018/109] fix: write exact timestamps in relay messages and
 canonical events

---
 src/relay_message.c  | 9 +++++++++
 src/relay_protocol.c | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index 4a65e15..e95cf25 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -6,6 +6,7 @@
 #include "../include/nostr_relay_protocol.h"
 #include <stdlib.h>
 #include <string.h>
+#include <stdio.h>
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
@@ -428,6 +429,14 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
+            /* cJSON prints large numbers in exponent form */
+            char created_at[24];
+            snprintf(created_at, sizeof(created_at), "%lld", (long long)msg->data.event.event->created_at);
+            cJSON* timestamp = cJSON_CreateRaw(created_at);
+            if (!timestamp || !cJSON_ReplaceItemInObjectCaseSensitive(event_obj, "created_at", timestamp)) {
+                cJSON_Delete(timestamp);
+                complete = false;
+            }
             complete = append_item(root, event_obj) && complete;
             break;
         }
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index c3e2f4d..1e612e1 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -338,7 +338,10 @@ nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, ch
 
     bool complete = append_item(serialization, cJSON_CreateNumber(0));
     complete = append_item(serialization, cJSON_CreateString(pubkey_hex)) && complete;
-    complete = append_item(serialization, cJSON_CreateNumber((double)event->created_at)) && complete;
+    /* cJSON prints large numbers in exponent form, which gives another id */
+    char created_at[24];
+    snprintf(created_at, sizeof(created_at), "%lld", (long long)event->created_at);
+    complete = append_item(serialization, cJSON_CreateRaw(created_at)) && complete;
     complete = append_item(serialization, cJSON_CreateNumber(event->kind)) && complete;
 
     cJSON* tags_array = cJSON_CreateArray();
-- 
2.43.0


From 86ee40d8a2c9529e66c44d83ffa987c4e06abf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:53 +0000
Subject: [PATCH 019/109] fix: read no further than the given length when
 parsing an event

---
 src/relay_protocol.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 1e612e1..5df3351 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -288,13 +288,19 @@ bool nostr_event_is_expired_now(const nostr_event* event)
 
 nostr_relay_error_t nostr_event_parse(const char* json, size_t json_len, nostr_event** event)
 {
-    (void)json_len;
-
     if (!json || !event) {
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
-    nostr_error_t err = nostr_event_from_json(json, event);
+    /* The text need not be terminated where it ends */
+    char* copy = json_len > 0 ? strndup(json, json_len) : NULL;
+    if (json_len > 0 && !copy) {
+        *event = NULL;
+        return NOSTR_RELAY_ERR_MEMORY;
+    }
+
+    nostr_error_t err = nostr_event_from_json(copy ? copy : json, event);
+    free(copy);
 
     switch (err) {
         case NOSTR_OK:
-- 
2.43.0


From 3c29c56aea182fc6ff758ae19e3f6e7e04b4e13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:53 +0000
Subject: [PATCH 020/109] fix: accept any timestamp when the allowed future has
 no bound

---
 src/relay_protocol.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 5df3351..152abe3 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -108,6 +108,12 @@ bool nostr_validate_subscription_id(const char* sub_id)
 bool nostr_validate_timestamp(int64_t timestamp, int64_t max_future_seconds)
 {
     int64_t now = nostr_timestamp_now();
+    if (max_future_seconds > 0 && now > INT64_MAX - max_future_seconds) {
+        return true;
+    }
+    if (max_future_seconds < 0 && now < INT64_MIN - max_future_seconds) {
+        return false;
+    }
     return timestamp <= (now + max_future_seconds);
 }
 
-- 
2.43.0


From 78d40fc8d1cc466dea71246d5e3a9d1cec177b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:13 +0000
Subject: [PATCH 021/109] fix: recognise deletions of addresses with long d
 tags

---
 src/relay_protocol.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 152abe3..d4ed542 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -683,15 +683,16 @@ bool nostr_deletion_authorized_address(const nostr_deletion_request_t* request,
         d_tag = "";
     }
 
-    char target_address[256];
-    int written = snprintf(target_address, sizeof(target_address), "%d:%s:%s",
-                          target_event->kind, target_pubkey, d_tag);
-    if (written < 0 || (size_t)written >= sizeof(target_address)) {
+    /* A d tag may be of any length */
+    char prefix[96];
+    int written = snprintf(prefix, sizeof(prefix), "%d:%s:", target_event->kind, target_pubkey);
+    if (written < 0 || (size_t)written >= sizeof(prefix)) {
         return false;
     }
 
     for (size_t i = 0; i < request->addresses_count; i++) {
-        if (strcmp(request->addresses[i], target_address) == 0) {
+        if (strncmp(request->addresses[i], prefix, (size_t)written) == 0 &&
+            strcmp(request->addresses[i] + written, d_tag) == 0) {
             return true;
         }
     }
-- 
2.43.0


From 5c625fb7cc6a6b4c6f619ec046fa2b4ace717c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:13 +0000
Subject: [PATCH 022/109] fix: cut long relay messages at a character boundary

---
 src/relay_message.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index e95cf25..d20e21b 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -295,6 +295,18 @@ void nostr_client_msg_free(nostr_client_msg_t* msg)
     memset(msg, 0, sizeof(nostr_client_msg_t));
 }
 
+/* Copies text, cut at a character boundary where it does not fit */
+static void copy_text(char* dst, size_t dst_size, const char* text)
+{
+    size_t len = strlen(text);
+    if (len >= dst_size) {
+        len = dst_size - 1;
+        while (len > 0 && ((unsigned char)text[len] & 0xc0) == 0x80) len--;
+    }
+    memcpy(dst, text, len);
+    dst[len] = '\0';
+}
+
 void nostr_relay_msg_event(nostr_relay_msg_t* msg, const char* sub_id, const nostr_event* event)
 {
     if (!msg) return;
@@ -318,8 +330,7 @@ void nostr_relay_msg_ok(nostr_relay_msg_t* msg, const char* event_id, bool succe
     }
     msg->data.ok.success = success;
     if (message) {
-        strncpy(msg->data.ok.message, message, 255);
-        msg->data.ok.message[255] = '\0';
+        copy_text(msg->data.ok.message, sizeof(msg->data.ok.message), message);
     }
 }
 
@@ -344,8 +355,7 @@ void nostr_relay_msg_closed(nostr_relay_msg_t* msg, const char* sub_id, const ch
         msg->data.closed.subscription_id[64] = '\0';
     }
     if (message) {
-        strncpy(msg->data.closed.message, message, 255);
-        msg->data.closed.message[255] = '\0';
+        copy_text(msg->data.closed.message, sizeof(msg->data.closed.message), message);
     }
 }
 
@@ -355,8 +365,7 @@ void nostr_relay_msg_notice(nostr_relay_msg_t* msg, const char* message)
     memset(msg, 0, sizeof(nostr_relay_msg_t));
     msg->type = NOSTR_RELAY_MSG_NOTICE;
     if (message) {
-        strncpy(msg->data.notice.message, message, 255);
-        msg->data.notice.message[255] = '\0';
+        copy_text(msg->data.notice.message, sizeof(msg->data.notice.message), message);
     }
 }
 
@@ -366,8 +375,7 @@ void nostr_relay_msg_auth(nostr_relay_msg_t* msg, const char* challenge)
     memset(msg, 0, sizeof(nostr_relay_msg_t));
     msg->type = NOSTR_RELAY_MSG_AUTH;
     if (challenge) {
-        strncpy(msg->data.auth.challenge, challenge, 127);
-        msg->data.auth.challenge[127] = '\0';
+        copy_text(msg->data.auth.challenge, sizeof(msg->data.auth.challenge), challenge);
     }
 }
 
-- 
2.43.0


From 759383d4a27c2aca66bfad6fdca389fec9cc9cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 023/109] fix: refuse JSON that is not an object as an event

---
 src/event.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 55500b1..85fdad2 100644
--- a/src/event.c
+++ b/src/event.c
@@ -494,7 +494,8 @@ static nostr_error_t event_from_json(const char* json, nostr_event** event)
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
     cJSON* root = cJSON_Parse(json);
-    if (!root) {
+    if (!cJSON_IsObject(root)) {
+        cJSON_Delete(root);
         return NOSTR_ERR_JSON_PARSE;
     }
 
-- 
2.43.0


From ba254e0dcf98a590603a1b682ba5f01a5276412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 024/109] fix: publish the noscrypt context only once it is
 initialised

---
 src/key.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/key.c b/src/key.c
index 8b511ed..a6530a5 100644
--- a/src/key.c
+++ b/src/key.c
@@ -218,8 +218,9 @@ nostr_error_t nostr_init(void)
     }
 
 #ifdef HAVE_NOSCRYPT
-    nc_ctx = NCGetSharedContext();
-    if (!nc_ctx) {
+    /* Published only once usable: callers test nc_ctx without the lock */
+    NCContext* new_ctx = NCGetSharedContext();
+    if (!new_ctx) {
         unlock_ctx_init();
         return NOSTR_ERR_MEMORY;
     }
@@ -230,7 +231,7 @@ nostr_error_t nostr_init(void)
         return NOSTR_ERR_MEMORY;
     }
 
-    if (NCInitContext(nc_ctx, entropy) != NC_SUCCESS) {
+    if (NCInitContext(new_ctx, entropy) != NC_SUCCESS) {
         unlock_ctx_init();
         return NOSTR_ERR_MEMORY;
     }
@@ -240,13 +241,15 @@ nostr_error_t nostr_init(void)
     secp256k1_ctx = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
     if (!secp256k1_ctx) {
 #ifdef HAVE_NOSCRYPT
-        NCDestroyContext(nc_ctx);
-        nc_ctx = NULL;
+        NCDestroyContext(new_ctx);
 #endif
         unlock_ctx_init();
         return NOSTR_ERR_MEMORY;
     }
 #endif
+#ifdef HAVE_NOSCRYPT
+    nc_ctx = new_ctx;
+#endif
 
 #if !defined(HAVE_NOSCRYPT) && !defined(HAVE_SECP256K1)
     unlock_ctx_init();
-- 
2.43.0


From 97defd933782d38dd0804afc0e37c2b63f8ab653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:53 +0000
Subject: [PATCH 025/109] fix: return the shared x-coordinate from
 nostr_key_ecdh

---
 src/key.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/key.c b/src/key.c
index a6530a5..87df374 100644
--- a/src/key.c
+++ b/src/key.c
@@ -441,6 +441,18 @@ nostr_error_t nostr_privkey_to_hex(const nostr_privkey* privkey, char* hex, size
     return NOSTR_OK;
 }
 
+#if defined(HAVE_SECP256K1) && !defined(HAVE_NOSCRYPT)
+/* The shared secret is the x-coordinate itself: the default hash would also
+ * cover the y-coordinate, which the two sides do not agree on. */
+static int ecdh_copy_x(unsigned char* output, const unsigned char* x32, const unsigned char* y32, void* data)
+{
+    (void)y32;
+    (void)data;
+    memcpy(output, x32, 32);
+    return 1;
+}
+#endif
+
 nostr_error_t nostr_key_ecdh(const nostr_privkey* privkey, const nostr_key* pubkey, uint8_t shared_secret[32])
 {
     if (!privkey || !pubkey || !shared_secret) {
@@ -482,7 +494,7 @@ nostr_error_t nostr_key_ecdh(const nostr_privkey* privkey, const nostr_key* pubk
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    if (!secp256k1_ecdh(secp256k1_ctx, shared_secret, &secp_pubkey, privkey->data, NULL, NULL)) {
+    if (!secp256k1_ecdh(secp256k1_ctx, shared_secret, &secp_pubkey, privkey->data, ecdh_copy_x, NULL)) {
         return NOSTR_ERR_INVALID_KEY;
     }
 #else
-- 
2.43.0


From 106720643d3ea64850b3ff8be11ce3c6167041e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:53 +0000
Subject: [PATCH 026/109] fix: refuse keys in hex that contain other characters

---
 src/key.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/key.c b/src/key.c
index 87df374..1f85550 100644
--- a/src/key.c
+++ b/src/key.c
@@ -388,10 +388,8 @@ nostr_error_t nostr_key_from_hex(const char* hex, nostr_key* key) {
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &key->data[i]) != 1) {
-            return NOSTR_ERR_INVALID_KEY;
-        }
+    if (nostr_hex_decode(hex, key->data, NOSTR_PUBKEY_SIZE) != NOSTR_PUBKEY_SIZE) {
+        return NOSTR_ERR_INVALID_KEY;
     }
     
     return NOSTR_OK;
@@ -419,10 +417,8 @@ nostr_error_t nostr_privkey_from_hex(const char* hex, nostr_privkey* privkey) {
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    for (int i = 0; i < NOSTR_PRIVKEY_SIZE; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &privkey->data[i]) != 1) {
-            return NOSTR_ERR_INVALID_KEY;
-        }
+    if (nostr_hex_decode(hex, privkey->data, NOSTR_PRIVKEY_SIZE) != NOSTR_PRIVKEY_SIZE) {
+        return NOSTR_ERR_INVALID_KEY;
     }
     
     return NOSTR_OK;
-- 
2.43.0


From 83b6ba2c16e67d04ebf5d8d41a698f65aef4769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:53 +0000
Subject: [PATCH 027/109] fix: leave no part of a key behind when the random
 source fails

---
 src/key.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/key.c b/src/key.c
index 1f85550..6951ce6 100644
--- a/src/key.c
+++ b/src/key.c
@@ -304,6 +304,7 @@ nostr_error_t nostr_key_generate(nostr_privkey* privkey, nostr_key* pubkey)
     
     while (attempts < 128) {
         if (nostr_random_bytes(nc_secret.key, NC_SEC_KEY_SIZE) != 1) {
+            secure_wipe(nc_secret.key, NC_SEC_KEY_SIZE);
             return NOSTR_ERR_MEMORY;
         }
 
@@ -336,6 +337,7 @@ nostr_error_t nostr_key_generate(nostr_privkey* privkey, nostr_key* pubkey)
     int attempts = 0;
     while (attempts < 128) {
         if (nostr_random_bytes(privkey->data, NOSTR_PRIVKEY_SIZE) != 1) {
+            secure_wipe(privkey->data, NOSTR_PRIVKEY_SIZE);
             return NOSTR_ERR_MEMORY;
         }
 
-- 
2.43.0


From 7683f1814357967c485969f02d4fcb2afb031f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:53 +0000
Subject: [PATCH 028/109] fix: a key pair whose generation or import failed is
 not initialised

---
 src/key.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/key.c b/src/key.c
index 6951ce6..41151b3 100644
--- a/src/key.c
+++ b/src/key.c
@@ -521,6 +521,7 @@ nostr_error_t nostr_keypair_generate(nostr_keypair* keypair)
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    keypair->initialized = 0;
     nostr_error_t err = nostr_key_generate(&keypair->privkey, &keypair->pubkey);
     if (err != NOSTR_OK) {
         return err;
@@ -536,12 +537,14 @@ nostr_error_t nostr_keypair_from_private_hex(nostr_keypair* keypair, const char*
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    nostr_error_t err = nostr_privkey_from_hex(privkey_hex, &keypair->privkey);
-    if (err != NOSTR_OK) {
-        return err;
+    nostr_privkey privkey;
+    nostr_error_t err = nostr_privkey_from_hex(privkey_hex, &privkey);
+    if (err == NOSTR_OK) {
+        err = nostr_keypair_from_private_key(keypair, &privkey);
     }
     
-    return nostr_keypair_from_private_key(keypair, &keypair->privkey);
+    secure_wipe(&privkey, sizeof(privkey));
+    return err;
 }
 
 nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr_privkey* privkey)
@@ -557,7 +560,8 @@ nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr
         }
     }
     
-    memcpy(&keypair->privkey, privkey, sizeof(nostr_privkey));
+    memmove(&keypair->privkey, privkey, sizeof(nostr_privkey));
+    keypair->initialized = 0;
     
 #ifdef HAVE_NOSCRYPT
     NCSecretKey nc_secret;
-- 
2.43.0


From 1ff2cfcb52a8c4779bb59d8ac3230df80535df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:53 +0000
Subject: [PATCH 029/109] fix: HD key derivation works without an earlier
 nostr_init

---
 src/hd_key.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hd_key.c b/src/hd_key.c
index 5ffafd6..dd17521 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -43,6 +43,11 @@ nostr_error_t nostr_hd_key_from_seed(const uint8_t* seed, size_t seed_len, nostr
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
+    }
+
     memset(master, 0, sizeof(nostr_hd_key));
     
     if (!HMAC(EVP_sha512(), HD_SEED_KEY, strlen(HD_SEED_KEY), seed, seed_len, hash, &hash_len)) {
@@ -104,6 +109,11 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_INVALID_PARAM;
     }
 
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
+    }
+
     memset(child, 0, sizeof(nostr_hd_key));
 
     unsigned char data[37];
-- 
2.43.0


From 8e5054100d03d90678ba126cc3f13862f5edb788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:53 +0000
Subject: [PATCH 030/109] fix: deriving an HD key in place does not use the
 cleared parent

---
 src/hd_key.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index dd17521..06f0170 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -114,8 +114,6 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return err;
     }
 
-    memset(child, 0, sizeof(nostr_hd_key));
-
     unsigned char data[37];
     uint32_t index_be = htonl(index);
 
@@ -147,11 +145,13 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_MEMORY;
     }
     
-    memcpy(child->chain_code, hash + 32, 32);
-    
     unsigned char child_privkey[32];
     memcpy(child_privkey, parent->privkey.data, 32);
 
+    /* Only now: the child may be stored over its parent */
+    memset(child, 0, sizeof(nostr_hd_key));
+    memcpy(child->chain_code, hash + 32, 32);
+
     if (!secp256k1_ec_seckey_tweak_add(secp256k1_ctx, child_privkey, hash)) {
         secure_wipe(hash, 64);
         secure_wipe(data, sizeof(data));
-- 
2.43.0


From a0e4bc66e7d44bfd90acb97b5fd9f98258f9d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:53 +0000
Subject: [PATCH 031/109] fix: a failed HD derivation leaves no private key
 behind

---
 src/hd_key.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hd_key.c b/src/hd_key.c
index 06f0170..5cf54b1 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -156,6 +156,7 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         secure_wipe(hash, 64);
         secure_wipe(data, sizeof(data));
         secure_wipe(child_privkey, 32);
+        secure_wipe(child, sizeof(nostr_hd_key));
         return NOSTR_ERR_INVALID_KEY;
     }
 
@@ -171,6 +172,7 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         secure_wipe(hash, 64);
         secure_wipe(data, sizeof(data));
         secure_wipe(child_privkey, 32);
+        secure_wipe(child, sizeof(nostr_hd_key));
         secure_wipe(&child_seckey, sizeof(child_seckey));
         return NOSTR_ERR_INVALID_KEY;
     }
@@ -185,6 +187,7 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         secure_wipe(hash, 64);
         secure_wipe(data, sizeof(data));
         secure_wipe(child_privkey, 32);
+        secure_wipe(child, sizeof(nostr_hd_key));
         return NOSTR_ERR_INVALID_KEY;
     }
 
@@ -193,6 +196,7 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         secure_wipe(hash, 64);
         secure_wipe(data, sizeof(data));
         secure_wipe(child_privkey, 32);
+        secure_wipe(child, sizeof(nostr_hd_key));
         secure_wipe(&child_keypair, sizeof(child_keypair));
         return NOSTR_ERR_INVALID_KEY;
     }
@@ -201,6 +205,7 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         secure_wipe(hash, 64);
         secure_wipe(data, sizeof(data));
         secure_wipe(child_privkey, 32);
+        secure_wipe(child, sizeof(nostr_hd_key));
         secure_wipe(&child_keypair, sizeof(child_keypair));
         return NOSTR_ERR_INVALID_KEY;
     }
-- 
2.43.0


From 178ced31239e6666beee746eae7263046d5487c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:53 +0000
Subject: [PATCH 032/109] fix: refuse HD path components that are not numbers
 below 2^31

---
 src/hd_key.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index 5cf54b1..bc4e1c8 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -256,15 +256,19 @@ nostr_error_t nostr_hd_key_derive_path(const nostr_hd_key* master, const char* p
             token[token_len - 1] = '\0';
         }
 
-        char* endptr;
-        uint32_t index = strtoul(token, &endptr, 10);
-        if (*endptr != '\0' || index >= HD_HARDENED_FLAG) {
+        char* endptr = token;
+        unsigned long value = 0;
+        if (*token >= '0' && *token <= '9') {
+            value = strtoul(token, &endptr, 10);
+        }
+        if (endptr == token || *endptr != '\0' || value >= HD_HARDENED_FLAG) {
             secure_wipe(path_copy, path_len);
             free(path_copy);
             secure_wipe(&current, sizeof(current));
             return NOSTR_ERR_INVALID_PARAM;
         }
 
+        uint32_t index = (uint32_t)value;
         if (hardened) {
             index |= HD_HARDENED_FLAG;
         }
-- 
2.43.0


From 39e0d1327d632c9d1155fbd99cb18f1c3414ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:53 +0000
Subject: [PATCH 033/109] fix: leave no part of a mnemonic behind when its
 buffer is too small

---
 src/hd_key.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hd_key.c b/src/hd_key.c
index bc4e1c8..684d915 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -351,6 +351,7 @@ nostr_error_t nostr_mnemonic_generate(int word_count, char* mnemonic, size_t mne
     uint8_t combined[34] = {0};
 
     if (nostr_random_bytes(entropy, entropy_bytes) != 1) {
+        secure_wipe(entropy, sizeof(entropy));
         return NOSTR_ERR_MEMORY;
     }
 
@@ -378,6 +379,7 @@ nostr_error_t nostr_mnemonic_generate(int word_count, char* mnemonic, size_t mne
         if (pos + word_len + (i > 0 ? 1 : 0) >= mnemonic_size) {
             secure_wipe(entropy, sizeof(entropy));
             secure_wipe(combined, sizeof(combined));
+            secure_wipe(mnemonic, pos);
             return NOSTR_ERR_INVALID_PARAM;
         }
 
-- 
2.43.0


From c705cf0b3fa0ead90127c058f5a547bafc6f61b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 034/109] fix: run the configuration callback without holding
 the lock

---
 src/config.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/config.c b/src/config.c
index 4db6996..7e1582c 100644
--- a/src/config.c
+++ b/src/config.c
@@ -255,12 +255,16 @@ nostr_error_t nostr_config_update(const nostr_config* config) {
     }
     
     nostr_config old_config = g_config;
-    g_config = *config;
-    
-    if (g_config_callback) {
-        g_config_callback(&old_config, &g_config, g_config_callback_user_data);
-    }
-    
+    nostr_config new_config = *config;
+    nostr_config_callback callback = g_config_callback;
+    void* user_data = g_config_callback_user_data;
+    g_config = new_config;
     unlock_config();
+
+    /* Without the lock: the callback may use the configuration functions */
+    if (callback) {
+        callback(&old_config, &new_config, user_data);
+    }
+
     return NOSTR_OK;
 }
\ No newline at end of file
-- 
2.43.0


From 184d31df11a9b9c6d4190df6f163cc7e6763abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 035/109] fix: nostr_init_with_config reports success only once
 the library is initialised

---
 src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 7e1582c..9a85cc8 100644
--- a/src/config.c
+++ b/src/config.c
@@ -195,7 +195,7 @@ nostr_error_t nostr_init_with_config(const nostr_config* config) {
     
     if (g_config_initialized) {
         unlock_config();
-        return NOSTR_OK;
+        return nostr_init();
     }
     
     nostr_error_t err;
-- 
2.43.0


From d70d668c60741d5858c0a63e424e1feb73bbee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 036/109] fix: an empty environment variable does not set a
 limit to zero

---
 src/config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 9a85cc8..4b2333b 100644
--- a/src/config.c
+++ b/src/config.c
@@ -79,7 +79,7 @@ static uint32_t parse_uint32_env(const char* name, uint32_t default_val) {
     
     char* endptr;
     unsigned long val = strtoul(env, &endptr, 10);
-    if (*endptr != '\0' || val > UINT32_MAX) return default_val;
+    if (endptr == env || *endptr != '\0' || val > UINT32_MAX) return default_val;
     
     return (uint32_t)val;
 }
@@ -90,7 +90,7 @@ static int parse_int_env(const char* name, int default_val) {
     
     char* endptr;
     long val = strtol(env, &endptr, 10);
-    if (*endptr != '\0' || val > INT_MAX || val < INT_MIN) return default_val;
+    if (endptr == env || *endptr != '\0' || val > INT_MAX || val < INT_MIN) return default_val;
     
     return (int)val;
 }
-- 
2.43.0


From 01db8dd03309de4306e3cde68aa1bd29a7c7099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:26 +0000
Subject: [PATCH 037/109] fix: apply the configured number of values per tag

---
 src/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 85fdad2..b6c4778 100644
--- a/src/event.c
+++ b/src/event.c
@@ -140,7 +140,7 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
     }
 
     const nostr_config* config = nostr_config_get_current();
-    if (config && event->tags_count >= config->max_tags) {
+    if (config && (event->tags_count >= config->max_tags || count > config->max_tag_values)) {
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-- 
2.43.0


From 4503d24117605c8b45a08233dbde05bf51aa2d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 038/109] fix: room for every character of the longest accepted
 bech32 text

A text of up to 90 characters is accepted but its data part was decoded to a
buffer of 84 bytes.
---
 src/bech32.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bech32.c b/src/bech32.c
index 5bb58d9..6eab89c 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -179,7 +179,7 @@ nostr_error_t nostr_key_from_bech32(const char* bech32, nostr_key* key) {
     strncpy(hrp, bech32, sep);
     hrp[sep] = '\0';
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = sep + 1; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
@@ -250,7 +250,7 @@ nostr_error_t nostr_privkey_from_bech32(const char* bech32, nostr_privkey* privk
         return NOSTR_ERR_ENCODING;
     }
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
@@ -321,7 +321,7 @@ nostr_error_t nostr_event_id_from_bech32(const char* bech32, uint8_t* id) {
         return NOSTR_ERR_ENCODING;
     }
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
-- 
2.43.0


From f84f79f90d6075ceaafaf6785863ee73def828e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 039/109] fix: do not write an identifier whose checksum could
 not be computed

---
 src/nip21.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nip21.c b/src/nip21.c
index e3e783d..773264c 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -79,7 +79,10 @@ static nostr_error_t encode_bytes_to_bech32(const uint8_t* data, size_t data_len
     }
 
     uint8_t checksum[6];
-    bech32_create_checksum(hrp, conv, conv_len, checksum);
+    if (!bech32_create_checksum(hrp, conv, conv_len, checksum)) {
+        free(conv);
+        return NOSTR_ERR_MEMORY;
+    }
 
     memcpy(out, hrp, hrp_len);
     out[hrp_len] = '1';
-- 
2.43.0


From 4fbf50b02ac2b373ad604454ee56186b6353fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 040/109] fix: an address with an empty identifier keeps its
 identifier entry

NIP-19 wants an empty entry for replaceable events; naddr left it out.
---
 src/nip21.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip21.c b/src/nip21.c
index 773264c..3ed2e2c 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -186,7 +186,7 @@ static size_t build_tlv(uint8_t* out, size_t out_size,
                         const uint32_t* kind) {
     size_t pos = 0;
 
-    if (special && special_len > 0) {
+    if (special) {
         if (special_len > 255) return 0;
         if (pos + 2 + special_len > out_size) return 0;
         out[pos++] = TLV_SPECIAL;
-- 
2.43.0


From 845d6c77c9a0f974190a59a2141cfee62e516a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:39 +0000
Subject: [PATCH 041/109] fix: setting a nonce stays inside a short nonce tag
 and is all or nothing

A nonce tag without values was written past its end, and running out of memory
half way left a tag value that does not exist.
---
 src/nip13.c | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/nip13.c b/src/nip13.c
index 0adc5e6..6f0ab56 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -157,33 +157,28 @@ nostr_error_t nostr_nip13_add_nonce_tag(nostr_event* event, uint64_t nonce_value
         // Update existing nonce tag
         // Note: Old strings remain in arena (can't be individually freed) but will be
         // cleaned up when the event is destroyed. This is acceptable for mining workloads.
-        char* new_nonce = arena_strdup(event, nonce_str);
-        if (!new_nonce) {
+        // All the room is reserved first, so that a failure leaves the tag as it was.
+        size_t new_values_size = event->tags[nonce_idx].count < count ? count * sizeof(char*) : 0;
+        size_t needed = new_values_size + strlen(nonce_str) + 1;
+        if (target_difficulty > 0) {
+            needed += strlen(target_str) + 1;
+        }
+        if (arena_ensure_capacity(event, needed) != 0) {
             return NOSTR_ERR_MEMORY;
         }
-        event->tags[nonce_idx].values[1] = new_nonce;
 
-        if (target_difficulty > 0) {
-            if (event->tags[nonce_idx].count < 3) {
-                // Need to expand values array - allocate new array from arena
-                size_t new_values_size = 3 * sizeof(char*);
-                if (arena_ensure_capacity(event, new_values_size) != 0) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                char** new_values = (char**)((char*)event->tag_arena->memory + event->tag_arena->used);
-                event->tag_arena->used += new_values_size;
-                new_values[0] = event->tags[nonce_idx].values[0];
-                new_values[1] = event->tags[nonce_idx].values[1];
-                new_values[2] = NULL;
-                event->tags[nonce_idx].values = new_values;
-                event->tags[nonce_idx].count = 3;
-            }
+        if (new_values_size > 0) {
+            // Need to expand values array - allocate new array from arena
+            char** new_values = (char**)((char*)event->tag_arena->memory + event->tag_arena->used);
+            event->tag_arena->used += new_values_size;
+            new_values[0] = event->tags[nonce_idx].values[0];
+            event->tags[nonce_idx].values = new_values;
+            event->tags[nonce_idx].count = count;
+        }
 
-            char* new_target = arena_strdup(event, target_str);
-            if (!new_target) {
-                return NOSTR_ERR_MEMORY;
-            }
-            event->tags[nonce_idx].values[2] = new_target;
+        event->tags[nonce_idx].values[1] = arena_strdup(event, nonce_str);
+        if (target_difficulty > 0) {
+            event->tags[nonce_idx].values[2] = arena_strdup(event, target_str);
         } else {
             event->tags[nonce_idx].count = 2;
         }
-- 
2.43.0


From eb4b3ce2a28b89ca5dd9d2a40b64bae3ae38189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 042/109] fix: threaded mining reports the failure of its
 workers

A worker that ran out of memory stopped silently and mining reported that no
solution exists.
---
 src/nip13.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/nip13.c b/src/nip13.c
index 6f0ab56..f5d6f5a 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -279,6 +279,7 @@ typedef struct {
     uint64_t start_nonce;
     uint64_t max_iterations;
     int found;
+    nostr_error_t error;
     uint64_t result_nonce;
     CRITICAL_SECTION* mutex;
     int* global_found;
@@ -301,6 +302,7 @@ static DWORD WINAPI mining_thread(LPVOID arg)
         
         nostr_error_t err = nostr_nip13_add_nonce_tag(data->event, nonce, data->target_difficulty);
         if (err != NOSTR_OK) {
+            data->error = err;
             LeaveCriticalSection(data->mutex);
             break;
         }
@@ -309,6 +311,7 @@ static DWORD WINAPI mining_thread(LPVOID arg)
         
         err = nostr_event_compute_id(data->event);
         if (err != NOSTR_OK) {
+            data->error = err;
             LeaveCriticalSection(data->mutex);
             break;
         }
@@ -341,6 +344,7 @@ typedef struct {
     uint64_t start_nonce;
     uint64_t max_iterations;
     int found;
+    nostr_error_t error;
     uint64_t result_nonce;
     pthread_mutex_t* mutex;
     int* global_found;
@@ -363,6 +367,7 @@ static void* mining_thread(void* arg)
         
         nostr_error_t err = nostr_nip13_add_nonce_tag(data->event, nonce, data->target_difficulty);
         if (err != NOSTR_OK) {
+            data->error = err;
             pthread_mutex_unlock(data->mutex);
             break;
         }
@@ -371,6 +376,7 @@ static void* mining_thread(void* arg)
         
         err = nostr_event_compute_id(data->event);
         if (err != NOSTR_OK) {
+            data->error = err;
             pthread_mutex_unlock(data->mutex);
             break;
         }
@@ -446,6 +452,7 @@ nostr_error_t nostr_nip13_mine_event_threaded(nostr_event* event, int target_dif
         thread_data[i].start_nonce = i;
         thread_data[i].max_iterations = max_iterations;
         thread_data[i].found = 0;
+        thread_data[i].error = NOSTR_OK;
         thread_data[i].result_nonce = 0;
         thread_data[i].mutex = &mutex;
         thread_data[i].global_found = &global_found;
@@ -479,6 +486,9 @@ nostr_error_t nostr_nip13_mine_event_threaded(nostr_event* event, int target_dif
             result = NOSTR_OK;
             break;
         }
+        if (thread_data[i].error != NOSTR_OK) {
+            result = thread_data[i].error;
+        }
     }
     
     DeleteCriticalSection(&mutex);
@@ -502,6 +512,7 @@ nostr_error_t nostr_nip13_mine_event_threaded(nostr_event* event, int target_dif
         thread_data[i].start_nonce = i;
         thread_data[i].max_iterations = max_iterations;
         thread_data[i].found = 0;
+        thread_data[i].error = NOSTR_OK;
         thread_data[i].result_nonce = 0;
         thread_data[i].mutex = &mutex;
         thread_data[i].global_found = &global_found;
@@ -511,6 +522,7 @@ nostr_error_t nostr_nip13_mine_event_threaded(nostr_event* event, int target_dif
             for (int j = 0; j < i; j++) {
                 pthread_join(threads[j], NULL);
             }
+            pthread_mutex_destroy(&mutex);
             free(threads);
             free(thread_data);
             return NOSTR_ERR_PROTOCOL;
@@ -527,6 +539,9 @@ nostr_error_t nostr_nip13_mine_event_threaded(nostr_event* event, int target_dif
             result = NOSTR_OK;
             break;
         }
+        if (thread_data[i].error != NOSTR_OK) {
+            result = thread_data[i].error;
+        }
     }
     
     pthread_mutex_destroy(&mutex);
-- 
2.43.0


From e3d4575631a8ef049d2ecc6801de1c32118c21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 043/109] fix: running out of memory is not reported as a
 malformed identifier

---
 src/bech32.c | 19 +++++++------------
 src/nip21.c  |  8 ++++++--
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/bech32.c b/src/bech32.c
index 6eab89c..c157f52 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -11,8 +11,7 @@ const char BECH32_CHARSET[33] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
 
 const uint32_t BECH32_GENERATOR[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
 
-uint32_t bech32_polymod(const uint8_t* values, size_t len) {
-    uint32_t chk = 1;
+static uint32_t polymod_continue(uint32_t chk, const uint8_t* values, size_t len) {
     for (size_t i = 0; i < len; i++) {
         uint32_t top = chk >> 25;
         chk = ((chk & 0x1ffffff) << 5) ^ values[i];
@@ -23,6 +22,10 @@ uint32_t bech32_polymod(const uint8_t* values, size_t len) {
     return chk;
 }
 
+uint32_t bech32_polymod(const uint8_t* values, size_t len) {
+    return polymod_continue(1, values, len);
+}
+
 int bech32_hrp_expand(const char* hrp, uint8_t* ret, size_t ret_size) {
     size_t hrp_len = strlen(hrp);
     if (hrp_len > (SIZE_MAX - 1) / 2) return -1;
@@ -44,16 +47,8 @@ int bech32_verify_checksum(const char* hrp, const uint8_t* data, size_t data_len
     int hrp_len = bech32_hrp_expand(hrp, hrp_expanded, sizeof(hrp_expanded));
     if (hrp_len < 0) return 0;
 
-    if ((size_t)hrp_len > SIZE_MAX - data_len) return 0;
-    uint8_t* combined = malloc((size_t)hrp_len + data_len);
-    if (!combined) return 0;
-
-    memcpy(combined, hrp_expanded, hrp_len);
-    memcpy(combined + hrp_len, data, data_len);
-
-    int result = bech32_polymod(combined, (size_t)hrp_len + data_len) == 1;
-    free(combined);
-    return result;
+    /* No allocation: running out of memory must not look like a wrong checksum */
+    return polymod_continue(bech32_polymod(hrp_expanded, (size_t)hrp_len), data, data_len) == 1;
 }
 
 int bech32_create_checksum(const char* hrp, const uint8_t* data, size_t data_len, uint8_t* checksum) {
diff --git a/src/nip21.c b/src/nip21.c
index 3ed2e2c..2ed9cb3 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -117,6 +117,7 @@ static nostr_error_t parse_tlv(const uint8_t* data, size_t data_len,
                                uint8_t* author, int* has_author,
                                uint32_t* kind, int* has_kind) {
     size_t pos = 0;
+    nostr_error_t err = NOSTR_ERR_ENCODING;
     *relay_count = 0;
     if (has_author) *has_author = 0;
     if (has_kind) *has_kind = 0;
@@ -141,7 +142,10 @@ static nostr_error_t parse_tlv(const uint8_t* data, size_t data_len,
                         break;
                     }
                     relays[*relay_count] = malloc(len + 1);
-                    if (!relays[*relay_count]) goto cleanup_error;
+                    if (!relays[*relay_count]) {
+                        err = NOSTR_ERR_MEMORY;
+                        goto cleanup_error;
+                    }
                     memcpy(relays[*relay_count], data + pos, len);
                     relays[*relay_count][len] = '\0';
                     (*relay_count)++;
@@ -176,7 +180,7 @@ cleanup_error:
         }
         *relay_count = 0;
     }
-    return NOSTR_ERR_ENCODING;
+    return err;
 }
 
 static size_t build_tlv(uint8_t* out, size_t out_size,
-- 
2.43.0


From cf4b9e4a4d0894ac392bbaf4b17f68e86ab53d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 044/109] fix: quote tags are added all or none, and not
 skipped when memory is short

---
 src/nip18.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/nip18.c b/src/nip18.c
index 593fdaf..aa78f13 100644
--- a/src/nip18.c
+++ b/src/nip18.c
@@ -200,11 +200,14 @@ nostr_error_t nostr_quote_tags_from_content(nostr_event* event)
     const char* content = event->content;
     const char* pos = content;
     size_t uri_len;
+    size_t tags_before = event->tags_count;
 
     while ((pos = find_nostr_uri(pos, &uri_len)) != NULL) {
         char* uri = malloc(uri_len + 1);
-        if (!uri)
+        if (!uri) {
+            event->tags_count = tags_before;
             return NOSTR_ERR_MEMORY;
+        }
 
         memcpy(uri, pos, uri_len);
         uri[uri_len] = '\0';
@@ -213,6 +216,10 @@ nostr_error_t nostr_quote_tags_from_content(nostr_event* event)
         nostr_error_t err = nostr_uri_parse(uri, &parsed);
         free(uri);
 
+        if (err == NOSTR_ERR_MEMORY) {
+            event->tags_count = tags_before;
+            return err;
+        }
         if (err != NOSTR_OK) {
             pos++;
             continue;
@@ -275,8 +282,10 @@ nostr_error_t nostr_quote_tags_from_content(nostr_event* event)
                 break;
         }
 
-        if (err != NOSTR_OK)
+        if (err != NOSTR_OK) {
+            event->tags_count = tags_before;
             return err;
+        }
 
         pos += uri_len;
     }
-- 
2.43.0


From 9d267d22ab46b50a0393c3a2123089ba4a7f961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 045/109] fix: reply tags are added both or none

---
 src/nip10.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nip10.c b/src/nip10.c
index b8d6a90..7462515 100644
--- a/src/nip10.c
+++ b/src/nip10.c
@@ -180,6 +180,7 @@ nostr_error_t nostr_event_add_reply_tags(nostr_event* event, const char* root_id
         return NOSTR_ERR_INVALID_PARAM;
 
     nostr_error_t err;
+    size_t tags_before = event->tags_count;
 
     if (root_id) {
         err = add_e_tag(event, root_id, root_relay, "root", root_pubkey);
@@ -189,8 +190,10 @@ nostr_error_t nostr_event_add_reply_tags(nostr_event* event, const char* root_id
 
     if (reply_id) {
         err = add_e_tag(event, reply_id, reply_relay, "reply", reply_pubkey);
-        if (err != NOSTR_OK)
+        if (err != NOSTR_OK) {
+            event->tags_count = tags_before;
             return err;
+        }
     }
 
     return NOSTR_OK;
-- 
2.43.0


From b64fab5875db11e9399e54ad9e66ae7bde199845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 046/109] fix: a mentioned event is not taken for the thread
 root or the replied-to event

---
 src/nip10.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/nip10.c b/src/nip10.c
index 7462515..0f36408 100644
--- a/src/nip10.c
+++ b/src/nip10.c
@@ -128,14 +128,12 @@ static nostr_error_t find_e_tag_by_marker(const nostr_event* event, const char*
         }
     }
 
-    if (use_positional_fallback == 0) {
-        copy_id_and_relay(&e_tags[0], out_id, id_size, relay_hint, relay_hint_size);
-        free(e_tags);
-        return NOSTR_OK;
-    }
-
-    if (use_positional_fallback == 1 && e_tag_count >= 1) {
-        copy_id_and_relay(&e_tags[e_tag_count - 1], out_id, id_size, relay_hint, relay_hint_size);
+    /* An event that is only mentioned is neither the root nor replied to */
+    for (size_t i = 0; i < e_tag_count; i++) {
+        const e_tag_info* info = &e_tags[use_positional_fallback == 0 ? i : e_tag_count - 1 - i];
+        if (strcmp(info->marker, "mention") == 0)
+            continue;
+        copy_id_and_relay(info, out_id, id_size, relay_hint, relay_hint_size);
         free(e_tags);
         return NOSTR_OK;
     }
-- 
2.43.0


From ad944cf0e93ad91c179529fa44589c5af8f76eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 047/109] fix: take a NIP-05 name, key and relays only from the
 objects they belong to

---
 src/nip05.c | 54 +++++++++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/nip05.c b/src/nip05.c
index b6438bb..589bb95 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -52,9 +52,9 @@ static int is_valid_domain(const char* s, size_t len) {
     return has_dot;
 }
 
-static const char* skip_ws_and_colon(const char* p) {
+static const char* skip_ws(const char* p) {
     if (!p) return p;
-    while (*p == ' ' || *p == ':' || *p == '\n' || *p == '\t' || *p == '\r') p++;
+    while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++;
     return p;
 }
 
@@ -70,18 +70,27 @@ static int is_escaped_quote(const char* json, const char* p) {
     return backslashes % 2 == 1;
 }
 
-static const char* json_strstr(const char* json, const char* needle) {
-    if (!json || !needle) return NULL;
-
-    int in_string = 0;
-    size_t needle_len = strlen(needle);
-
-    for (const char* p = json; *p; p++) {
-        if (!in_string && strncmp(p, needle, needle_len) == 0) {
-            return p;
-        }
-        if (*p == '"' && !is_escaped_quote(json, p)) {
-            in_string = !in_string;
+/* Finds the value of a member of the object at obj itself, not of what it
+ * contains or what follows it. The key is given with its quotes. */
+static const char* json_find_member(const char* obj, const char* key) {
+    if (!obj || !key || *obj != '{') return NULL;
+
+    size_t key_len = strlen(key);
+    int depth = 0;
+
+    for (const char* p = obj; *p; p++) {
+        if (*p == '{' || *p == '[') {
+            depth++;
+        } else if (*p == '}' || *p == ']') {
+            if (--depth == 0) return NULL;
+        } else if (*p == '"') {
+            const char* start = p++;
+            while (*p && (*p != '"' || is_escaped_quote(start + 1, p))) p++;
+            if (!*p) return NULL;
+            if (depth == 1 && (size_t)(p + 1 - start) == key_len && strncmp(start, key, key_len) == 0) {
+                const char* value = skip_ws(p + 1);
+                if (*value == ':') return skip_ws(value + 1);
+            }
         }
     }
     return NULL;
@@ -180,19 +189,16 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
         if (name[i] == '"' || name[i] == '\\') return NOSTR_ERR_INVALID_PARAM;
     }
 
-    const char* names_pos = json_strstr(json, "\"names\"");
+    json = skip_ws(json);
+    const char* names_pos = json_find_member(json, "\"names\"");
     if (!names_pos) return NOSTR_ERR_NOT_FOUND;
-
-    names_pos = skip_ws_and_colon(names_pos + 7);
     if (*names_pos != '{') return NOSTR_ERR_JSON_PARSE;
 
     char search_name[NIP05_MAX_NAME_LEN + 4];
     snprintf(search_name, sizeof(search_name), "\"%s\"", name);
 
-    const char* name_pos = json_strstr(names_pos, search_name);
+    const char* name_pos = json_find_member(names_pos, search_name);
     if (!name_pos) return NOSTR_ERR_NOT_FOUND;
-
-    name_pos = skip_ws_and_colon(name_pos + strlen(search_name));
     if (*name_pos != '"') return NOSTR_ERR_JSON_PARSE;
     name_pos++;
 
@@ -208,19 +214,15 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
 
     if (!relays || !relay_count) return NOSTR_OK;
 
-    const char* relays_pos = json_strstr(json, "\"relays\"");
+    const char* relays_pos = json_find_member(json, "\"relays\"");
     if (!relays_pos) return NOSTR_OK;
-
-    relays_pos = skip_ws_and_colon(relays_pos + 8);
     if (*relays_pos != '{') return NOSTR_OK;
 
     char pubkey_search[68];
     snprintf(pubkey_search, sizeof(pubkey_search), "\"%s\"", pubkey_hex);
 
-    const char* pubkey_relays = json_strstr(relays_pos, pubkey_search);
+    const char* pubkey_relays = json_find_member(relays_pos, pubkey_search);
     if (!pubkey_relays) return NOSTR_OK;
-
-    pubkey_relays = skip_ws_and_colon(pubkey_relays + strlen(pubkey_search));
     if (*pubkey_relays != '[') return NOSTR_OK;
     pubkey_relays++;
 
-- 
2.43.0


From 0b87e3e1fccfa5dc41d28a25b871b2b7e25ef546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 048/109] fix: a bracket inside a NIP-05 relay URL does not end
 the list

---
 src/nip05.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip05.c b/src/nip05.c
index 589bb95..504daac 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -229,7 +229,7 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
     size_t count = 0;
     const char* p = pubkey_relays;
     int in_string = 0;
-    while (*p && *p != ']') {
+    while (*p && (in_string || *p != ']')) {
         if (*p == '"' && !is_escaped_quote(pubkey_relays, p)) {
             in_string = !in_string;
             if (!in_string) count++;
-- 
2.43.0


From defe8fe05ec9a9b4be0e5a638bee9a80dd563c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 049/109] fix: accept NIP-05 relay URLs with escaped slashes

---
 src/nip05.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/nip05.c b/src/nip05.c
index 504daac..775461b 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -96,15 +96,21 @@ static const char* json_find_member(const char* obj, const char* key) {
     return NULL;
 }
 
-static int contains_unicode_escape(const char* s, size_t len) {
-    for (size_t i = 0; i + 1 < len; i++) {
-        if (s[i] == '\\' && s[i + 1] == 'u') return 1;
+/* Copies a relay URL without its JSON escapes; returns 0 if it has others than \/ \" and \\ */
+static int unescape_relay_url(char* dest, const char* url, size_t len) {
+    for (size_t i = 0; i < len; i++) {
+        if (url[i] == '\\') {
+            i++;
+            if (url[i] != '/' && url[i] != '"' && url[i] != '\\') return 0;
+        }
+        *dest++ = url[i];
     }
-    return 0;
+    *dest = '\0';
+    return 1;
 }
 
 static int is_valid_relay_url(const char* url, size_t len) {
-    if (len < 6 || contains_unicode_escape(url, len)) return 0;
+    if (len < 6) return 0;
     return strncmp(url, "wss://", 6) == 0 || strncmp(url, "ws://", 5) == 0;
 }
 
@@ -255,19 +261,19 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
         if (*p != '"') break;
 
         size_t relay_len = p - relay_start;
-        if (!is_valid_relay_url(relay_start, relay_len)) {
-            p++;
-            continue;
-        }
         relay_array[idx] = malloc(relay_len + 1);
         if (!relay_array[idx]) {
             nostr_nip05_free_relays(relay_array, idx);
             return NOSTR_ERR_MEMORY;
         }
-        memcpy(relay_array[idx], relay_start, relay_len);
-        relay_array[idx][relay_len] = '\0';
-        idx++;
         p++;
+        if (!unescape_relay_url(relay_array[idx], relay_start, relay_len) ||
+            !is_valid_relay_url(relay_array[idx], strlen(relay_array[idx]))) {
+            free(relay_array[idx]);
+            relay_array[idx] = NULL;
+            continue;
+        }
+        idx++;
     }
 
     *relays = relay_array;
-- 
2.43.0


From f430709bfb76967b63833700492d4fd5d554fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 050/109] fix: do not read a NIP-05 response beyond its length

---
 src/nip05.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nip05.c b/src/nip05.c
index 775461b..f716577 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -323,6 +323,15 @@ nostr_error_t nostr_nip05_verify(const char* identifier, const char* expected_pu
         return NOSTR_ERR_INVALID_PARAM;
     }
 
+    /* The response is a buffer with a length, it need not be terminated */
+    char* body = realloc(response, response_len + 1);
+    if (!body) {
+        free(response);
+        return NOSTR_ERR_MEMORY;
+    }
+    body[response_len] = '\0';
+    response = body;
+
     char pubkey_hex[65];
     char** relays = NULL;
     size_t relay_count = 0;
-- 
2.43.0


From 8a770c06de9c7fd79b54d53643a113ad34b5c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:58 +0000
Subject: [PATCH 051/109] fix: enforce every time bound of a delegation, not
 only the last

---
 src/nip26.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nip26.c b/src/nip26.c
index 269412f..6143a49 100644
--- a/src/nip26.c
+++ b/src/nip26.c
@@ -121,7 +121,8 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
                 cleanup_conditions(out);
                 return 0;
             }
-            out->created_after = (int64_t)val;
+            if (!out->has_created_after || (int64_t)val > out->created_after)
+                out->created_after = (int64_t)val;
             out->has_created_after = 1;
             p = endptr;
             parsed++;
@@ -135,7 +136,8 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
                 cleanup_conditions(out);
                 return 0;
             }
-            out->created_before = (int64_t)val;
+            if (!out->has_created_before || (int64_t)val < out->created_before)
+                out->created_before = (int64_t)val;
             out->has_created_before = 1;
             p = endptr;
             parsed++;
-- 
2.43.0


From 7a55a015c447ddaa59377cc295a318cac1198684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:58 +0000
Subject: [PATCH 052/109] fix: keep a list's title and other texts when setting
 one fails

---
 src/nip51.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nip51.c b/src/nip51.c
index 14c992d..d06e83d 100644
--- a/src/nip51.c
+++ b/src/nip51.c
@@ -167,11 +167,12 @@ static nostr_error_t set_string_field(nostr_list* list, char** field, const char
     if (!list) {
         return NOSTR_ERR_INVALID_PARAM;
     }
-    free(*field);
-    *field = value ? strdup(value) : NULL;
-    if (value && !*field) {
+    char* copy = value ? strdup(value) : NULL;
+    if (value && !copy) {
         return NOSTR_ERR_MEMORY;
     }
+    free(*field);
+    *field = copy;
     return NOSTR_OK;
 }
 
-- 
2.43.0


From c2309f378b8ddeeff9696abc89025003e33a9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:58 +0000
Subject: [PATCH 053/109] fix: pad NIP-44 plaintexts longer than 256 bytes as
 specified

---
 src/nip44.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index 40ff0d3..6ca4cd5 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -42,13 +42,12 @@ static uint32_t calc_padded_len(uint32_t unpadded_len)
     }
     
     next_power = 1;
-    while (next_power <= unpadded_len) {
+    while (next_power < unpadded_len) {
         if (next_power > (UINT32_MAX >> 1)) {
             return 0;
         }
         next_power <<= 1;
     }
-    next_power >>= 1;
     
     if (next_power <= 256) {
         chunk = 32;
-- 
2.43.0


From d5a4910384adf55b0b9fa45a8236957af977d2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:58 +0000
Subject: [PATCH 054/109] fix: accept NIP-44 payloads of the greatest length

---
 src/nip44.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip44.c b/src/nip44.c
index 6ca4cd5..9f3965a 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -396,7 +396,7 @@ nostr_error_t nostr_nip44_decrypt(const nostr_privkey* recipient_privkey, const
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (payload_len < 97 || payload_len > 65600) {
+    if (payload_len < 99 || payload_len > 65603) {
         free(payload);
         return NOSTR_ERR_INVALID_PARAM;
     }
-- 
2.43.0


From 8e2345f9dd0ecbbb5edcd746558e0b628e68b811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 055/109] fix: do not rely on allocations of OpenSSL when
 writing base64

---
 src/nip44.c | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index 9f3965a..2e27f15 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -168,29 +168,12 @@ static int base64_decode(const char* input, uint8_t** output, size_t* output_len
 #else
 static int base64_encode(const uint8_t* input, size_t input_len, char** output)
 {
-    BIO* bmem = NULL;
-    BIO* b64 = NULL;
-    BUF_MEM* bptr = NULL;
-
-    b64 = BIO_new(BIO_f_base64());
-    bmem = BIO_new(BIO_s_mem());
-    b64 = BIO_push(b64, bmem);
-    BIO_set_flags(b64, BIO_FLAGS_BASE64_NO_NL);
-
-    BIO_write(b64, input, input_len);
-    BIO_flush(b64);
-    BIO_get_mem_ptr(b64, &bptr);
-
-    *output = malloc(bptr->length + 1);
+    *output = malloc(4 * ((input_len + 2) / 3) + 1);
     if (!*output) {
-        BIO_free_all(b64);
         return -1;
     }
 
-    memcpy(*output, bptr->data, bptr->length);
-    (*output)[bptr->length] = '\0';
-
-    BIO_free_all(b64);
+    EVP_EncodeBlock((unsigned char*)*output, input, (int)input_len);
     return 0;
 }
 #endif
-- 
2.43.0


From ab42cbdfcc2666436813ec6d700e44296ffd6f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 056/109] fix: refuse base64 that does not decode without
 freeing twice

---
 src/nip44.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index 2e27f15..6e4ffd9 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -212,17 +212,26 @@ static int base64_decode(const char* input, uint8_t** output, size_t* output_len
 
     bmem = BIO_new_mem_buf(input, input_len);
     b64 = BIO_new(BIO_f_base64());
+    if (!bmem || !b64) {
+        BIO_free(bmem);
+        BIO_free(b64);
+        free(*output);
+        *output = NULL;
+        return -1;
+    }
     bmem = BIO_push(b64, bmem);
     BIO_set_flags(bmem, BIO_FLAGS_BASE64_NO_NL);
 
-    *output_len = BIO_read(bmem, *output, input_len);
+    int decoded = BIO_read(bmem, *output, input_len);
     BIO_free_all(bmem);
 
-    if (*output_len <= 0) {
+    if (decoded <= 0) {
         free(*output);
+        *output = NULL;
         return -1;
     }
 
+    *output_len = (size_t)decoded;
     return 0;
 }
 #endif
-- 
2.43.0


From 9c82c83e53b09e52d3f22054cd7e2a06f5349664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:46 +0000
Subject: [PATCH 057/109] fix: read every escape in a list's private items

---
 src/nip51.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nip51.c b/src/nip51.c
index d06e83d..89f2503 100644
--- a/src/nip51.c
+++ b/src/nip51.c
@@ -658,7 +658,10 @@ static nostr_error_t parse_private_content(const char* json, nostr_list* list)
             case 2:  dest = relay_hint; max_len = sizeof(relay_hint) - 1; break;
             case 3:  dest = petname;    max_len = sizeof(petname) - 1;    break;
             default:
-                while (*p && *p != '"') p++;
+                while (*p && *p != '"') {
+                    if (*p == '\\' && *(p+1)) p++;
+                    p++;
+                }
                 if (*p == '"') p++;
                 field++;
                 continue;
@@ -681,6 +684,8 @@ static nostr_error_t parse_private_content(const char* json, nostr_list* list)
                     case 'n':  dest[len++] = '\n'; break;
                     case 'r':  dest[len++] = '\r'; break;
                     case 't':  dest[len++] = '\t'; break;
+                    case 'b':  dest[len++] = '\b'; break;
+                    case 'f':  dest[len++] = '\f'; break;
                     case '"':  dest[len++] = '"';  break;
                     case '\\': dest[len++] = '\\'; break;
                     case 'u': {
-- 
2.43.0


From 0fbfb66815ad8dc3ab22d335b4a5ae1cb73d1407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:46 +0000
Subject: [PATCH 058/109] fix: read back private list items of any length

---
 src/nip51.c | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/nip51.c b/src/nip51.c
index 89f2503..3330384 100644
--- a/src/nip51.c
+++ b/src/nip51.c
@@ -608,12 +608,8 @@ static size_t encode_utf8(char* dest, size_t max_len, size_t len, unsigned int c
     return len;
 }
 
-static nostr_error_t parse_private_content(const char* json, nostr_list* list)
+static nostr_error_t parse_private_items(const char* json, nostr_list* list, char* fields, size_t max_len)
 {
-    if (!json || strlen(json) < 2) {
-        return NOSTR_OK;
-    }
-
     const char* p = json;
     while (*p && *p != '[') {
         p++;
@@ -633,10 +629,11 @@ static nostr_error_t parse_private_content(const char* json, nostr_list* list)
         }
         p++;
 
-        char tag_type[64] = {0};
-        char value[1024] = {0};
-        char relay_hint[512] = {0};
-        char petname[256] = {0};
+        char* tag_type = fields;
+        char* value = tag_type + max_len + 1;
+        char* relay_hint = value + max_len + 1;
+        char* petname = relay_hint + max_len + 1;
+        tag_type[0] = value[0] = relay_hint[0] = petname[0] = '\0';
         int field = 0;
 
         while (*p && *p != ']') {
@@ -651,12 +648,11 @@ static nostr_error_t parse_private_content(const char* json, nostr_list* list)
             p++;
 
             char* dest;
-            size_t max_len;
             switch (field) {
-            case 0:  dest = tag_type;   max_len = sizeof(tag_type) - 1;   break;
-            case 1:  dest = value;      max_len = sizeof(value) - 1;      break;
-            case 2:  dest = relay_hint; max_len = sizeof(relay_hint) - 1; break;
-            case 3:  dest = petname;    max_len = sizeof(petname) - 1;    break;
+            case 0:  dest = tag_type;   break;
+            case 1:  dest = value;      break;
+            case 2:  dest = relay_hint; break;
+            case 3:  dest = petname;    break;
             default:
                 while (*p && *p != '"') {
                     if (*p == '\\' && *(p+1)) p++;
@@ -755,6 +751,24 @@ static nostr_error_t parse_private_content(const char* json, nostr_list* list)
     return NOSTR_OK;
 }
 
+static nostr_error_t parse_private_content(const char* json, nostr_list* list)
+{
+    if (!json || strlen(json) < 2) {
+        return NOSTR_OK;
+    }
+
+    /* No field of an item is longer than the whole text. */
+    size_t max_len = strlen(json);
+    char* fields = malloc(4 * (max_len + 1));
+    if (!fields) {
+        return NOSTR_ERR_MEMORY;
+    }
+
+    nostr_error_t err = parse_private_items(json, list, fields, max_len);
+    free(fields);
+    return err;
+}
+
 nostr_error_t nostr_list_from_event(const nostr_event* event, const nostr_keypair* keypair,
                                     nostr_list** list)
 {
-- 
2.43.0


From 326177a44ce871cc7520a3c5ff1a890b6f49d167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 059/109] fix: give no freed event back when a zap request
 cannot be created

---
 src/zap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zap.c b/src/zap.c
index 962b91f..7d9f7f6 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -59,6 +59,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         err = nostr_event_set_content(*event, content);
         if (err != NOSTR_OK) {
             nostr_event_destroy(*event);
+            *event = NULL;
             return err;
         }
     }
@@ -72,6 +73,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     err = nostr_event_add_tag(*event, relay_tag, tag_count);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
@@ -81,6 +83,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     err = nostr_event_add_tag(*event, amount_tag, 2);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
@@ -89,6 +92,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         err = nostr_event_add_tag(*event, lnurl_tag, 2);
         if (err != NOSTR_OK) {
             nostr_event_destroy(*event);
+            *event = NULL;
             return err;
         }
     }
@@ -97,12 +101,14 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     err = nostr_key_to_hex(recipient, pubkey_hex, sizeof(pubkey_hex));
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     const char* p_tag[] = {"p", pubkey_hex};
     err = nostr_event_add_tag(*event, p_tag, 2);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
-- 
2.43.0


From fcc3a60ca346615b46f38c1728e171f81e74b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 060/109] fix: put every relay into a zap request

---
 src/zap.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 7d9f7f6..56dcc5b 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -64,13 +64,16 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         }
     }
     
-    const char* relay_tag[16];
-    relay_tag[0] = "relays";
-    size_t tag_count = 1;
-    for (size_t i = 0; i < relays_count && tag_count < 16; i++) {
-        relay_tag[tag_count++] = relays[i];
+    const char** relay_tag = relays_count < SIZE_MAX / sizeof(char*) - 1 ? malloc((relays_count + 1) * sizeof(char*)) : NULL;
+    if (!relay_tag) {
+        nostr_event_destroy(*event);
+        *event = NULL;
+        return NOSTR_ERR_MEMORY;
     }
-    err = nostr_event_add_tag(*event, relay_tag, tag_count);
+    relay_tag[0] = "relays";
+    memcpy(relay_tag + 1, relays, relays_count * sizeof(char*));
+    err = nostr_event_add_tag(*event, relay_tag, relays_count + 1);
+    free(relay_tag);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
         *event = NULL;
-- 
2.43.0


From 2e6d9589ba829b57fd7a7fa53b4d2325c32c0831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 061/109] fix: validate LNURLs of any length by their checksum,
 without overrunning the stack

---
 src/zap.c | 67 ++++++++++++++++++++++---------------------------------
 1 file changed, 27 insertions(+), 40 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 56dcc5b..7ef1649 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -6,42 +6,11 @@
 #include <string.h>
 #include <stdio.h>
 #include <ctype.h>
+#include "bech32_internal.h"
 
 #define ZAP_REQUEST_KIND 9734
 #define ZAP_RECEIPT_KIND 9735
 
-static int is_valid_bech32_char(char c)
-{
-    const char* charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
-    return strchr(charset, tolower(c)) != NULL;
-}
-
-static int decode_bech32(const char* bech32, char* hrp, uint8_t* data, size_t* data_len)
-{
-    size_t bech32_len = strlen(bech32);
-    if (bech32_len < 8 || bech32_len > 90) {
-        return 0;
-    }
-    
-    size_t separator = 0;
-    for (size_t i = 0; i < bech32_len; ++i) {
-        if (bech32[i] == '1') {
-            separator = i;
-        }
-    }
-    
-    if (separator < 1 || separator + 7 > bech32_len) {
-        return 0;
-    }
-    
-    if (hrp) {
-        memcpy(hrp, bech32, separator);
-        hrp[separator] = '\0';
-    }
-    
-    return 1;
-}
-
 nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, const nostr_key* recipient, const char* lnurl, const char* content, const char** relays, size_t relays_count)
 {
     if (!event || !recipient || !relays || relays_count == 0) {
@@ -128,19 +97,37 @@ nostr_error_t nostr_zap_validate_lnurl(const char* lnurl, char* nostr_pubkey, bo
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    char hrp[32];
-    uint8_t data[256];
-    size_t data_len = sizeof(data);
-    
-    if (!decode_bech32(lnurl, hrp, data, &data_len)) {
+    /* "lnurl1", then the data and its checksum: a LNURL may be longer than the
+     * 90 characters of other bech32 texts */
+    if (lnurl[5] != '1') {
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+    const char* chars = lnurl + 6;
+    size_t data_len = strlen(chars);
+    if (data_len < 6) {
         return NOSTR_ERR_ENCODING;
     }
     
-    if (strcmp(hrp, "lnurl") != 0) {
-        return NOSTR_ERR_INVALID_PARAM;
+    uint8_t* data = malloc(data_len);
+    if (!data) {
+        return NOSTR_ERR_MEMORY;
     }
     
-    return NOSTR_OK;
+    nostr_error_t err = NOSTR_OK;
+    for (size_t i = 0; i < data_len; i++) {
+        int value = bech32_charset_decode(chars[i]);
+        if (value < 0) {
+            err = NOSTR_ERR_ENCODING;
+            break;
+        }
+        data[i] = (uint8_t)value;
+    }
+    if (err == NOSTR_OK && !bech32_verify_checksum("lnurl", data, data_len)) {
+        err = NOSTR_ERR_ENCODING;
+    }
+    
+    free(data);
+    return err;
 }
 
 nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount, char** bolt11, char* preimage, nostr_event** zap_request)
-- 
2.43.0


From 9001a796451b947999ca156e80edf5afe5d1130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 062/109] fix: read a zap receipt's amount, invoice and request
 without leaks or stale outputs

---
 src/zap.c | 104 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 68 insertions(+), 36 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 7ef1649..567d1ce 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -130,12 +130,64 @@ nostr_error_t nostr_zap_validate_lnurl(const char* lnurl, char* nostr_pubkey, bo
     return err;
 }
 
+/* Amount of an invoice in millisats, 0 if it names none: the number and its
+ * multiplier end the human-readable part, which the last '1' separates. */
+static uint64_t bolt11_amount(const char* invoice)
+{
+    static const char* const prefixes[] = {"lnbcrt", "lnbc", "lntbs", "lntb"};
+    const char* p = NULL;
+    for (size_t i = 0; i < sizeof(prefixes) / sizeof(prefixes[0]) && !p; i++) {
+        const char* start = strstr(invoice, prefixes[i]);
+        if (start) {
+            p = start + strlen(prefixes[i]);
+        }
+    }
+    const char* end = p ? strrchr(p, '1') : NULL;
+    if (!end || p == end || !isdigit((unsigned char)*p)) {
+        return 0;
+    }
+    
+    uint64_t value = 0;
+    while (p < end && isdigit((unsigned char)*p)) {
+        if (value > (UINT64_MAX - 9) / 10) {
+            return 0;
+        }
+        value = value * 10 + (uint64_t)(*p++ - '0');
+    }
+    
+    uint64_t factor = 100000000000ULL;
+    if (p < end) {
+        switch (*p++) {
+            case 'm': factor = 100000000ULL; break;
+            case 'u': factor = 100000ULL; break;
+            case 'n': factor = 100ULL; break;
+            case 'p': factor = 0; break;
+            default: return 0;
+        }
+    }
+    if (p != end) {
+        return 0;
+    }
+    if (factor == 0) {
+        return value / 10;
+    }
+    return value > UINT64_MAX / factor ? 0 : value * factor;
+}
+
 nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount, char** bolt11, char* preimage, nostr_event** zap_request)
 {
     if (!event || event->kind != ZAP_RECEIPT_KIND) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    if (amount) *amount = 0;
+    if (bolt11) *bolt11 = NULL;
+    if (preimage) preimage[0] = '\0';
+    if (zap_request) *zap_request = NULL;
+    
+    nostr_error_t err = NOSTR_OK;
+    const char* invoice = NULL;
+    
     for (size_t i = 0; i < event->tags_count; i++) {
         if (event->tags[i].count < 2) {
             continue;
@@ -144,56 +196,36 @@ nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount
         const char* tag_name = event->tags[i].values[0];
         const char* tag_value = event->tags[i].values[1];
         
-        if (strcmp(tag_name, "bolt11") == 0 && bolt11) {
-            *bolt11 = strdup(tag_value);
-            if (!*bolt11) {
-                return NOSTR_ERR_MEMORY;
-            }
-        } else if (strcmp(tag_name, "preimage") == 0 && preimage) {
+        if (strcmp(tag_name, "bolt11") == 0 && !invoice) {
+            invoice = tag_value;
+        } else if (strcmp(tag_name, "preimage") == 0 && preimage && !preimage[0]) {
             size_t len = strlen(tag_value);
             if (len <= 64) {
                 memcpy(preimage, tag_value, len);
                 preimage[len] = '\0';
             }
-        } else if (strcmp(tag_name, "description") == 0 && zap_request) {
-            nostr_error_t err = nostr_event_from_json(tag_value, zap_request);
+        } else if (strcmp(tag_name, "description") == 0 && zap_request && !*zap_request) {
+            err = nostr_event_from_json(tag_value, zap_request);
             if (err != NOSTR_OK) {
-                if (bolt11 && *bolt11) {
-                    free(*bolt11);
-                    *bolt11 = NULL;
-                }
+                *zap_request = NULL;
                 return err;
             }
         }
     }
     
-    if (amount && bolt11 && *bolt11) {
-        const char* amt_start = strstr(*bolt11, "lnbc");
-        if (amt_start) {
-            amt_start += 4;
-            char* amt_end;
-            unsigned long amt = strtoul(amt_start, &amt_end, 10);
-            if (amt_end > amt_start) {
-                char multiplier = tolower(*amt_end);
-                switch (multiplier) {
-                    case 'm':
-                        *amount = amt * 100000000;
-                        break;
-                    case 'u':
-                        *amount = amt * 100000;
-                        break;
-                    case 'n':
-                        *amount = amt * 100;
-                        break;
-                    case 'p':
-                        *amount = amt / 10;
-                        break;
-                    default:
-                        *amount = amt * 100000000000;
-                }
+    if (bolt11 && invoice) {
+        *bolt11 = strdup(invoice);
+        if (!*bolt11) {
+            if (zap_request && *zap_request) {
+                nostr_event_destroy(*zap_request);
+                *zap_request = NULL;
             }
+            return NOSTR_ERR_MEMORY;
         }
     }
+    if (amount && invoice) {
+        *amount = bolt11_amount(invoice);
+    }
     
     return NOSTR_OK;
 }
-- 
2.43.0


From b6312a26d2ae5a39edd866cc478bf0caed23b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 063/109] fix: a zap receipt whose invoice names no amount does
 not prove the requested one

---
 src/zap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zap.c b/src/zap.c
index 567d1ce..de86820 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -279,7 +279,7 @@ nostr_error_t nostr_zap_verify(const nostr_event* receipt, const nostr_event* re
         }
     }
     
-    if (request_amount > 0 && receipt_amount > 0 && request_amount != receipt_amount) {
+    if (request_amount > 0 && request_amount != receipt_amount) {
         nostr_event_destroy(embedded_request);
         if (bolt11) free(bolt11);
         return NOSTR_ERR_INVALID_EVENT;
-- 
2.43.0


From 51eed5acfe5b45339e5b5de1ab0e77bca51dd383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 064/109] fix: a zap receipt must hold the request itself, not
 only its id

---
 src/zap.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zap.c b/src/zap.c
index de86820..bb5964c 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -264,6 +264,13 @@ nostr_error_t nostr_zap_verify(const nostr_event* receipt, const nostr_event* re
         return NOSTR_ERR_INVALID_EVENT;
     }
     
+    err = nostr_event_compute_id(embedded_request);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(embedded_request);
+        if (bolt11) free(bolt11);
+        return err;
+    }
+    
     int id_match = nostr_constant_time_memcmp(request->id, embedded_request->id, NOSTR_ID_SIZE) == 0;
     if (!id_match) {
         nostr_event_destroy(embedded_request);
-- 
2.43.0


From ef617ee3ffeca9ffb5414f32e905bd11684397e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:41 +0000
Subject: [PATCH 065/109] fix: keep a relay's supported NIPs when setting new
 ones fails

---
 src/relay_nip11.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/relay_nip11.c b/src/relay_nip11.c
index 46e8e77..4bf9312 100644
--- a/src/relay_nip11.c
+++ b/src/relay_nip11.c
@@ -46,20 +46,20 @@ nostr_relay_error_t nostr_relay_info_set_nips(nostr_relay_info_t* info, const in
         return NOSTR_RELAY_ERR_MISSING_FIELD;
     }
 
-    free(info->supported_nips);
-    info->supported_nips = NULL;
-    info->supported_nips_count = 0;
-
     if (count == 0 || !nips) {
+        free(info->supported_nips);
+        info->supported_nips = NULL;
+        info->supported_nips_count = 0;
         return NOSTR_RELAY_OK;
     }
 
-    int32_t* copy = malloc(count * sizeof(int32_t));
+    int32_t* copy = count <= SIZE_MAX / sizeof(int32_t) ? malloc(count * sizeof(int32_t)) : NULL;
     if (!copy) {
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
     memcpy(copy, nips, count * sizeof(int32_t));
+    free(info->supported_nips);
     info->supported_nips = copy;
     info->supported_nips_count = count;
     return NOSTR_RELAY_OK;
-- 
2.43.0


From a1acb4d12d52bcf7875ee4c3096bd3f08b270fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:41 +0000
Subject: [PATCH 066/109] fix: report a lack of memory instead of an incomplete
 relay information document

---
 src/relay_nip11.c | 165 +++++++++++++++++++++++++---------------------
 1 file changed, 91 insertions(+), 74 deletions(-)

diff --git a/src/relay_nip11.c b/src/relay_nip11.c
index 4bf9312..abf6c6a 100644
--- a/src/relay_nip11.c
+++ b/src/relay_nip11.c
@@ -136,6 +136,21 @@ void nostr_relay_info_free(nostr_relay_info_t* info)
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 
+/* Add an item, or free it if it cannot be added (or could not be created) */
+static bool add_to_array(cJSON* array, cJSON* item)
+{
+    if (item && cJSON_AddItemToArray(array, item)) return true;
+    cJSON_Delete(item);
+    return false;
+}
+
+static bool add_to_object(cJSON* object, const char* name, cJSON* item)
+{
+    if (item && cJSON_AddItemToObject(object, name, item)) return true;
+    cJSON_Delete(item);
+    return false;
+}
+
 nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitation_t* limitation,
                                                      char* buf, size_t buf_size, size_t* out_len)
 {
@@ -143,49 +158,50 @@ nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitatio
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
+    bool failed = false;
     cJSON* obj = cJSON_CreateObject();
     if (!obj) {
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
     if (limitation->max_message_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_message_length", limitation->max_message_length);
+        failed |= !cJSON_AddNumberToObject(obj, "max_message_length", limitation->max_message_length);
     }
     if (limitation->max_subscriptions > 0) {
-        cJSON_AddNumberToObject(obj, "max_subscriptions", limitation->max_subscriptions);
+        failed |= !cJSON_AddNumberToObject(obj, "max_subscriptions", limitation->max_subscriptions);
     }
     if (limitation->max_filters > 0) {
-        cJSON_AddNumberToObject(obj, "max_filters", limitation->max_filters);
+        failed |= !cJSON_AddNumberToObject(obj, "max_filters", limitation->max_filters);
     }
     if (limitation->max_limit > 0) {
-        cJSON_AddNumberToObject(obj, "max_limit", limitation->max_limit);
+        failed |= !cJSON_AddNumberToObject(obj, "max_limit", limitation->max_limit);
     }
     if (limitation->max_subid_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_subid_length", limitation->max_subid_length);
+        failed |= !cJSON_AddNumberToObject(obj, "max_subid_length", limitation->max_subid_length);
     }
     if (limitation->max_event_tags > 0) {
-        cJSON_AddNumberToObject(obj, "max_event_tags", limitation->max_event_tags);
+        failed |= !cJSON_AddNumberToObject(obj, "max_event_tags", limitation->max_event_tags);
     }
     if (limitation->max_content_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_content_length", limitation->max_content_length);
+        failed |= !cJSON_AddNumberToObject(obj, "max_content_length", limitation->max_content_length);
     }
     if (limitation->min_pow_difficulty > 0) {
-        cJSON_AddNumberToObject(obj, "min_pow_difficulty", limitation->min_pow_difficulty);
+        failed |= !cJSON_AddNumberToObject(obj, "min_pow_difficulty", limitation->min_pow_difficulty);
     }
-    cJSON_AddBoolToObject(obj, "auth_required", limitation->auth_required);
-    cJSON_AddBoolToObject(obj, "payment_required", limitation->payment_required);
-    cJSON_AddBoolToObject(obj, "restricted_writes", limitation->restricted_writes);
+    failed |= !cJSON_AddBoolToObject(obj, "auth_required", limitation->auth_required);
+    failed |= !cJSON_AddBoolToObject(obj, "payment_required", limitation->payment_required);
+    failed |= !cJSON_AddBoolToObject(obj, "restricted_writes", limitation->restricted_writes);
     if (limitation->created_at_lower_limit > 0) {
-        cJSON_AddNumberToObject(obj, "created_at_lower_limit", (double)limitation->created_at_lower_limit);
+        failed |= !cJSON_AddNumberToObject(obj, "created_at_lower_limit", (double)limitation->created_at_lower_limit);
     }
     if (limitation->created_at_upper_limit > 0) {
-        cJSON_AddNumberToObject(obj, "created_at_upper_limit", (double)limitation->created_at_upper_limit);
+        failed |= !cJSON_AddNumberToObject(obj, "created_at_upper_limit", (double)limitation->created_at_upper_limit);
     }
     if (limitation->default_limit > 0) {
-        cJSON_AddNumberToObject(obj, "default_limit", limitation->default_limit);
+        failed |= !cJSON_AddNumberToObject(obj, "default_limit", limitation->default_limit);
     }
 
-    char* json_str = cJSON_PrintUnformatted(obj);
+    char* json_str = failed ? NULL : cJSON_PrintUnformatted(obj);
     cJSON_Delete(obj);
 
     if (!json_str) {
@@ -212,31 +228,32 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
+    bool failed = false;
     cJSON* obj = cJSON_CreateObject();
     if (!obj) {
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
     if (info->name) {
-        cJSON_AddStringToObject(obj, "name", info->name);
+        failed |= !cJSON_AddStringToObject(obj, "name", info->name);
     }
     if (info->description) {
-        cJSON_AddStringToObject(obj, "description", info->description);
+        failed |= !cJSON_AddStringToObject(obj, "description", info->description);
     }
     if (info->banner) {
-        cJSON_AddStringToObject(obj, "banner", info->banner);
+        failed |= !cJSON_AddStringToObject(obj, "banner", info->banner);
     }
     if (info->icon) {
-        cJSON_AddStringToObject(obj, "icon", info->icon);
+        failed |= !cJSON_AddStringToObject(obj, "icon", info->icon);
     }
     if (info->pubkey) {
-        cJSON_AddStringToObject(obj, "pubkey", info->pubkey);
+        failed |= !cJSON_AddStringToObject(obj, "pubkey", info->pubkey);
     }
     if (info->self_pubkey) {
-        cJSON_AddStringToObject(obj, "self", info->self_pubkey);
+        failed |= !cJSON_AddStringToObject(obj, "self", info->self_pubkey);
     }
     if (info->contact) {
-        cJSON_AddStringToObject(obj, "contact", info->contact);
+        failed |= !cJSON_AddStringToObject(obj, "contact", info->contact);
     }
 
     cJSON* nips_arr = cJSON_CreateArray();
@@ -245,61 +262,61 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
         return NOSTR_RELAY_ERR_MEMORY;
     }
     for (size_t i = 0; i < info->supported_nips_count; i++) {
-        cJSON_AddItemToArray(nips_arr, cJSON_CreateNumber(info->supported_nips[i]));
+        failed |= !add_to_array(nips_arr, cJSON_CreateNumber(info->supported_nips[i]));
     }
-    cJSON_AddItemToObject(obj, "supported_nips", nips_arr);
+    failed |= !add_to_object(obj, "supported_nips", nips_arr);
 
     if (info->software) {
-        cJSON_AddStringToObject(obj, "software", info->software);
+        failed |= !cJSON_AddStringToObject(obj, "software", info->software);
     }
     if (info->version) {
-        cJSON_AddStringToObject(obj, "version", info->version);
+        failed |= !cJSON_AddStringToObject(obj, "version", info->version);
     }
     if (info->privacy_policy) {
-        cJSON_AddStringToObject(obj, "privacy_policy", info->privacy_policy);
+        failed |= !cJSON_AddStringToObject(obj, "privacy_policy", info->privacy_policy);
     }
     if (info->terms_of_service) {
-        cJSON_AddStringToObject(obj, "terms_of_service", info->terms_of_service);
+        failed |= !cJSON_AddStringToObject(obj, "terms_of_service", info->terms_of_service);
     }
 
     cJSON* limitation_obj = cJSON_CreateObject();
     if (info->limitation.max_message_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_message_length", info->limitation.max_message_length);
+        failed |= !cJSON_AddNumberToObject(limitation_obj, "max_message_length", info->limitation.max_message_length);
     }
     if (info->limitation.max_subscriptions > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_subscriptions", info->limitation.max_subscriptions);
+        failed |= !cJSON_AddNumberToObject(limitation_obj, "max_subscriptions", info->limitation.max_subscriptions);
     }
     if (info->limitation.max_filters > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_filters", info->limitation.max_filters);
+        failed |= !cJSON_AddNumberToObject(limitation_obj, "max_filters", info->limitation.max_filters);
     }
     if (info->limitation.max_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_limit", info->limitation.max_limit);
+        failed |= !cJSON_AddNumberToObject(limitation_obj, "max_limit", info->limitation.max_limit);
     }
     if (info->limitation.max_subid_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_subid_length", info->limitation.max_subid_length);
+        failed |= !cJSON_AddNumberToObject(limitation_obj, "max_subid_length", info->limitation.max_subid_length);
     }
     if (info->limitation.max_event_tags > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_event_tags", info->limitation.max_event_tags);
+        failed |= !cJSON_AddNumberToObject(limitation_obj, "max_event_tags", info->limitation.max_event_tags);
     }
     if (info->limitation.max_content_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_content_length", info->limitation.max_content_length);
+        failed |= !cJSON_AddNumberToObject(limitation_obj, "max_content_length", info->limitation.max_content_length);
     }
     if (info->limitation.min_pow_difficulty > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "min_pow_difficulty", info->limitation.min_pow_difficulty);
+        failed |= !cJSON_AddNumberToObject(limitation_obj, "min_pow_difficulty", info->limitation.min_pow_difficulty);
     }
-    cJSON_AddBoolToObject(limitation_obj, "auth_required", info->limitation.auth_required);
-    cJSON_AddBoolToObject(limitation_obj, "payment_required", info->limitation.payment_required);
-    cJSON_AddBoolToObject(limitation_obj, "restricted_writes", info->limitation.restricted_writes);
+    failed |= !cJSON_AddBoolToObject(limitation_obj, "auth_required", info->limitation.auth_required);
+    failed |= !cJSON_AddBoolToObject(limitation_obj, "payment_required", info->limitation.payment_required);
+    failed |= !cJSON_AddBoolToObject(limitation_obj, "restricted_writes", info->limitation.restricted_writes);
     if (info->limitation.created_at_lower_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "created_at_lower_limit", (double)info->limitation.created_at_lower_limit);
+        failed |= !cJSON_AddNumberToObject(limitation_obj, "created_at_lower_limit", (double)info->limitation.created_at_lower_limit);
     }
     if (info->limitation.created_at_upper_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "created_at_upper_limit", (double)info->limitation.created_at_upper_limit);
+        failed |= !cJSON_AddNumberToObject(limitation_obj, "created_at_upper_limit", (double)info->limitation.created_at_upper_limit);
     }
     if (info->limitation.default_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "default_limit", info->limitation.default_limit);
+        failed |= !cJSON_AddNumberToObject(limitation_obj, "default_limit", info->limitation.default_limit);
     }
-    cJSON_AddItemToObject(obj, "limitation", limitation_obj);
+    failed |= !add_to_object(obj, "limitation", limitation_obj);
 
     if (info->retention_count > 0 && info->retention) {
         cJSON* retention_arr = cJSON_CreateArray();
@@ -308,50 +325,50 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
             if (info->retention[i].kinds_count > 0) {
                 cJSON* kinds_arr = cJSON_CreateArray();
                 for (size_t j = 0; j < info->retention[i].kinds_count; j++) {
-                    cJSON_AddItemToArray(kinds_arr, cJSON_CreateNumber(info->retention[i].kinds[j]));
+                    failed |= !add_to_array(kinds_arr, cJSON_CreateNumber(info->retention[i].kinds[j]));
                 }
-                cJSON_AddItemToObject(ret_obj, "kinds", kinds_arr);
+                failed |= !add_to_object(ret_obj, "kinds", kinds_arr);
             }
             if (info->retention[i].time != 0) {
-                cJSON_AddNumberToObject(ret_obj, "time", (double)info->retention[i].time);
+                failed |= !cJSON_AddNumberToObject(ret_obj, "time", (double)info->retention[i].time);
             }
             if (info->retention[i].count > 0) {
-                cJSON_AddNumberToObject(ret_obj, "count", info->retention[i].count);
+                failed |= !cJSON_AddNumberToObject(ret_obj, "count", info->retention[i].count);
             }
-            cJSON_AddItemToArray(retention_arr, ret_obj);
+            failed |= !add_to_array(retention_arr, ret_obj);
         }
-        cJSON_AddItemToObject(obj, "retention", retention_arr);
+        failed |= !add_to_object(obj, "retention", retention_arr);
     }
 
     if (info->relay_countries_count > 0 && info->relay_countries) {
         cJSON* countries_arr = cJSON_CreateArray();
         for (size_t i = 0; i < info->relay_countries_count; i++) {
-            cJSON_AddItemToArray(countries_arr, cJSON_CreateString(info->relay_countries[i]));
+            failed |= !add_to_array(countries_arr, cJSON_CreateString(info->relay_countries[i]));
         }
-        cJSON_AddItemToObject(obj, "relay_countries", countries_arr);
+        failed |= !add_to_object(obj, "relay_countries", countries_arr);
     }
 
     if (info->language_tags_count > 0 && info->language_tags) {
         cJSON* langs_arr = cJSON_CreateArray();
         for (size_t i = 0; i < info->language_tags_count; i++) {
-            cJSON_AddItemToArray(langs_arr, cJSON_CreateString(info->language_tags[i]));
+            failed |= !add_to_array(langs_arr, cJSON_CreateString(info->language_tags[i]));
         }
-        cJSON_AddItemToObject(obj, "language_tags", langs_arr);
+        failed |= !add_to_object(obj, "language_tags", langs_arr);
     }
 
     if (info->tags_count > 0 && info->tags) {
         cJSON* tags_arr = cJSON_CreateArray();
         for (size_t i = 0; i < info->tags_count; i++) {
-            cJSON_AddItemToArray(tags_arr, cJSON_CreateString(info->tags[i]));
+            failed |= !add_to_array(tags_arr, cJSON_CreateString(info->tags[i]));
         }
-        cJSON_AddItemToObject(obj, "tags", tags_arr);
+        failed |= !add_to_object(obj, "tags", tags_arr);
     }
 
     if (info->posting_policy) {
-        cJSON_AddStringToObject(obj, "posting_policy", info->posting_policy);
+        failed |= !cJSON_AddStringToObject(obj, "posting_policy", info->posting_policy);
     }
     if (info->payments_url) {
-        cJSON_AddStringToObject(obj, "payments_url", info->payments_url);
+        failed |= !cJSON_AddStringToObject(obj, "payments_url", info->payments_url);
     }
 
     bool has_fees = (info->fees.admission_count > 0 ||
@@ -364,29 +381,29 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
             cJSON* admission_arr = cJSON_CreateArray();
             for (size_t i = 0; i < info->fees.admission_count; i++) {
                 cJSON* fee_obj = cJSON_CreateObject();
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.admission[i].amount);
+                failed |= !cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.admission[i].amount);
                 if (info->fees.admission[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.admission[i].unit);
+                    failed |= !cJSON_AddStringToObject(fee_obj, "unit", info->fees.admission[i].unit);
                 }
-                cJSON_AddItemToArray(admission_arr, fee_obj);
+                failed |= !add_to_array(admission_arr, fee_obj);
             }
-            cJSON_AddItemToObject(fees_obj, "admission", admission_arr);
+            failed |= !add_to_object(fees_obj, "admission", admission_arr);
         }
 
         if (info->fees.subscription_count > 0 && info->fees.subscription) {
             cJSON* sub_arr = cJSON_CreateArray();
             for (size_t i = 0; i < info->fees.subscription_count; i++) {
                 cJSON* fee_obj = cJSON_CreateObject();
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.subscription[i].amount);
+                failed |= !cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.subscription[i].amount);
                 if (info->fees.subscription[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.subscription[i].unit);
+                    failed |= !cJSON_AddStringToObject(fee_obj, "unit", info->fees.subscription[i].unit);
                 }
                 if (info->fees.subscription[i].period > 0) {
-                    cJSON_AddNumberToObject(fee_obj, "period", info->fees.subscription[i].period);
+                    failed |= !cJSON_AddNumberToObject(fee_obj, "period", info->fees.subscription[i].period);
                 }
-                cJSON_AddItemToArray(sub_arr, fee_obj);
+                failed |= !add_to_array(sub_arr, fee_obj);
             }
-            cJSON_AddItemToObject(fees_obj, "subscription", sub_arr);
+            failed |= !add_to_object(fees_obj, "subscription", sub_arr);
         }
 
         if (info->fees.publication_count > 0 && info->fees.publication) {
@@ -396,23 +413,23 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
                 if (info->fees.publication[i].kinds_count > 0 && info->fees.publication[i].kinds) {
                     cJSON* kinds_arr = cJSON_CreateArray();
                     for (size_t j = 0; j < info->fees.publication[i].kinds_count; j++) {
-                        cJSON_AddItemToArray(kinds_arr, cJSON_CreateNumber(info->fees.publication[i].kinds[j]));
+                        failed |= !add_to_array(kinds_arr, cJSON_CreateNumber(info->fees.publication[i].kinds[j]));
                     }
-                    cJSON_AddItemToObject(fee_obj, "kinds", kinds_arr);
+                    failed |= !add_to_object(fee_obj, "kinds", kinds_arr);
                 }
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.publication[i].amount);
+                failed |= !cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.publication[i].amount);
                 if (info->fees.publication[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.publication[i].unit);
+                    failed |= !cJSON_AddStringToObject(fee_obj, "unit", info->fees.publication[i].unit);
                 }
-                cJSON_AddItemToArray(pub_arr, fee_obj);
+                failed |= !add_to_array(pub_arr, fee_obj);
             }
-            cJSON_AddItemToObject(fees_obj, "publication", pub_arr);
+            failed |= !add_to_object(fees_obj, "publication", pub_arr);
         }
 
-        cJSON_AddItemToObject(obj, "fees", fees_obj);
+        failed |= !add_to_object(obj, "fees", fees_obj);
     }
 
-    char* json_str = cJSON_PrintUnformatted(obj);
+    char* json_str = failed ? NULL : cJSON_PrintUnformatted(obj);
     cJSON_Delete(obj);
 
     if (!json_str) {
-- 
2.43.0


From 2d48f75499bd150a503bb61ad26378ea42e2b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:54 +0000
Subject: [PATCH 067/109] fix: initialise the crypto context before deriving a
 key in NIP-17, NIP-47 and NIP-59

---
 src/nip17.c |  7 +++++++
 src/nip47.c | 10 +++++++++-
 src/nip59.c |  9 +++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/nip17.c b/src/nip17.c
index f6c9d75..892d76b 100644
--- a/src/nip17.c
+++ b/src/nip17.c
@@ -310,6 +310,13 @@ nostr_error_t nostr_nip17_send_dm(nostr_event** dm, const char* content,
     NCSecretKey nc_secret;
     NCPublicKey nc_public;
     
+    if (!nc_ctx) {
+        err = nostr_init();
+        if (err != NOSTR_OK) {
+            return err;
+        }
+    }
+
     memcpy(nc_secret.key, sender_privkey->data, NC_SEC_KEY_SIZE);
     
     if (NCGetPublicKey(nc_ctx, &nc_secret, &nc_public) != NC_SUCCESS) {
diff --git a/src/nip47.c b/src/nip47.c
index 8bcaadc..d9fbeef 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -433,8 +433,16 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
         NCPublicKey nc_public;
         NCSecretKey nc_secret;
-        memcpy(nc_secret.key, conn->secret.data, NC_SEC_KEY_SIZE);
         extern NCContext* nc_ctx;
+        if (!nc_ctx) {
+            err = nostr_init();
+            if (err != NOSTR_OK) {
+                nostr_event_destroy(*event);
+                *event = NULL;
+                return err;
+            }
+        }
+        memcpy(nc_secret.key, conn->secret.data, NC_SEC_KEY_SIZE);
         if (NCGetPublicKey(nc_ctx, &nc_secret, &nc_public) != NC_SUCCESS) {
             nostr_event_destroy(*event);
             *event = NULL;
diff --git a/src/nip59.c b/src/nip59.c
index b78e3fc..1d1bae0 100644
--- a/src/nip59.c
+++ b/src/nip59.c
@@ -73,6 +73,15 @@ nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event*
     NCSecretKey nc_secret;
     NCPublicKey nc_public;
     
+    if (!nc_ctx) {
+        err = nostr_init();
+        if (err != NOSTR_OK) {
+            nostr_event_destroy(seal);
+            free(event_json);
+            return err;
+        }
+    }
+
     memcpy(nc_secret.key, author_privkey->data, NC_SEC_KEY_SIZE);
     
     if (NCGetPublicKey(nc_ctx, &nc_secret, &nc_public) != NC_SUCCESS) {
-- 
2.43.0


From b100b5e5b841470d8faaaed28855dc0271dd5f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:54 +0000
Subject: [PATCH 068/109] fix: compute a direct message's id after its tags are
 added

---
 src/nip17.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nip17.c b/src/nip17.c
index 892d76b..5bf5487 100644
--- a/src/nip17.c
+++ b/src/nip17.c
@@ -386,6 +386,13 @@ nostr_error_t nostr_nip17_send_dm(nostr_event** dm, const char* content,
         }
     }
     
+    /* The id covers the tags added since the rumor was created */
+    err = nostr_event_compute_id(rumor);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(rumor);
+        return err;
+    }
+
     err = nostr_nip17_create_seal(&seal, rumor, sender_privkey, recipient_pubkey);
     nostr_event_destroy(rumor);
     if (err != NOSTR_OK) {
-- 
2.43.0


From 7cecd0191100e571951a8e83c5f96c8f89f3a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:14 +0000
Subject: [PATCH 069/109] fix: abort a NIP-59 wrap when its timestamp cannot be
 randomised

---
 src/nip59.c | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/nip59.c b/src/nip59.c
index 1d1bae0..50d228f 100644
--- a/src/nip59.c
+++ b/src/nip59.c
@@ -22,16 +22,19 @@ extern secp256k1_context* secp256k1_ctx;
 
 extern nostr_error_t nostr_init(void);
 
-static int64_t randomize_timestamp(int64_t base_time)
+/* Fails closed: an event with the exact current time would publish the timing
+ * the random offset exists to hide. */
+static nostr_error_t randomize_timestamp(int64_t base_time, int64_t* out)
 {
     uint32_t random_offset;
     
     if (RAND_bytes((unsigned char*)&random_offset, sizeof(random_offset)) != 1) {
-        return base_time;
+        return NOSTR_ERR_MEMORY;
     }
     
     random_offset %= TWO_DAYS_SECONDS;
-    return base_time - random_offset;
+    *out = base_time - random_offset;
+    return NOSTR_OK;
 }
 
 nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event* event_to_wrap,
@@ -66,7 +69,12 @@ nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event*
     }
     
     seal->kind = KIND_SEAL;
-    seal->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &seal->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(seal);
+        free(event_json);
+        return err;
+    }
     
     /* Derive author's pubkey from privkey */
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
@@ -177,7 +185,14 @@ nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event*
     }
     
     (*gift_wrap)->kind = KIND_GIFT_WRAP;
-    (*gift_wrap)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*gift_wrap)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*gift_wrap);
+        *gift_wrap = NULL;
+        free(encrypted_seal);
+        secure_wipe(&ephemeral_privkey, sizeof(ephemeral_privkey));
+        return err;
+    }
     memcpy(&(*gift_wrap)->pubkey, &ephemeral_pubkey, sizeof(nostr_key));
     
     err = nostr_event_set_content(*gift_wrap, encrypted_seal);
@@ -366,7 +381,13 @@ nostr_error_t nostr_nip59_create_seal(nostr_event** seal, const nostr_event* rum
     }
     
     (*seal)->kind = KIND_SEAL;
-    (*seal)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*seal)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*seal);
+        *seal = NULL;
+        free(encrypted_rumor);
+        return err;
+    }
     
     /* Derive author pubkey from privkey */
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
@@ -482,7 +503,14 @@ nostr_error_t nostr_nip59_create_gift_wrap(nostr_event** gift_wrap, const nostr_
     }
     
     (*gift_wrap)->kind = KIND_GIFT_WRAP;
-    (*gift_wrap)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*gift_wrap)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*gift_wrap);
+        *gift_wrap = NULL;
+        free(encrypted_seal);
+        secure_wipe(&ephemeral_privkey, sizeof(ephemeral_privkey));
+        return err;
+    }
     memcpy(&(*gift_wrap)->pubkey, &ephemeral_pubkey, sizeof(nostr_key));
     
     err = nostr_event_set_content(*gift_wrap, encrypted_seal);
-- 
2.43.0


From a2267d35026b0416927a54e2e1ced0ae7a88e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:14 +0000
Subject: [PATCH 070/109] fix: send a NIP-46 result as the string it is, or
 fail

---
 src/nip46.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index 2994d85..bac0db5 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -84,17 +84,17 @@ nostr_error_t nostr_nip46_create_response(const nostr_nip46_response_t* response
         return NOSTR_ERR_MEMORY;
     }
 
-    cJSON_AddStringToObject(content_obj, "id", response->id);
-
+    /* A result is always a string, even where it looks like JSON: a public key
+     * that starts with digits would otherwise be sent as a number. */
+    int complete = cJSON_AddStringToObject(content_obj, "id", response->id) != NULL;
     if (response->error) {
-        cJSON_AddStringToObject(content_obj, "error", response->error);
+        complete = complete && cJSON_AddStringToObject(content_obj, "error", response->error);
     } else if (response->result) {
-        cJSON* result_json = cJSON_Parse(response->result);
-        if (result_json) {
-            cJSON_AddItemToObject(content_obj, "result", result_json);
-        } else {
-            cJSON_AddStringToObject(content_obj, "result", response->result);
-        }
+        complete = complete && cJSON_AddStringToObject(content_obj, "result", response->result);
+    }
+    if (!complete) {
+        cJSON_Delete(content_obj);
+        return NOSTR_ERR_MEMORY;
     }
 
     char* content_str = cJSON_PrintUnformatted(content_obj);
-- 
2.43.0


From fede412698e77d577a0ae371a303cff9a377acb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:14 +0000
Subject: [PATCH 071/109] fix: report a NIP-46 response that cannot be
 addressed

---
 src/nip46.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nip46.c b/src/nip46.c
index bac0db5..ca14565 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -129,7 +129,12 @@ nostr_error_t nostr_nip46_create_response(const nostr_nip46_response_t* response
     char pubkey_hex[65];
     nostr_key_to_hex(recipient_pubkey, pubkey_hex, sizeof(pubkey_hex));
     const char* p_tag[] = {"p", pubkey_hex};
-    nostr_event_add_tag(*event_out, p_tag, 2);
+    err = nostr_event_add_tag(*event_out, p_tag, 2);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*event_out);
+        *event_out = NULL;
+        return err;
+    }
 
     err = nostr_event_compute_id(*event_out);
     if (err != NOSTR_OK) {
-- 
2.43.0


From db0a0a25ff8a13cb97848e8a3be499e2d7da5153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:14 +0000
Subject: [PATCH 072/109] fix: refuse a NIP-46 request that cannot be held
 whole

---
 src/nip46.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index ca14565..214cca9 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -42,21 +42,31 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
 
     cJSON* id = cJSON_GetObjectItem(root, "id");
     if (id && cJSON_IsString(id)) {
-        strncpy(request->id, id->valuestring, sizeof(request->id) - 1);
+        if (strlen(id->valuestring) >= sizeof(request->id)) {
+            cJSON_Delete(root);
+            return NOSTR_ERR_JSON_PARSE;
+        }
+        strcpy(request->id, id->valuestring);
     }
 
     cJSON* method = cJSON_GetObjectItem(root, "method");
     if (method && cJSON_IsString(method)) {
-        strncpy(request->method, method->valuestring, sizeof(request->method) - 1);
+        if (strlen(method->valuestring) >= sizeof(request->method)) {
+            cJSON_Delete(root);
+            return NOSTR_ERR_JSON_PARSE;
+        }
+        strcpy(request->method, method->valuestring);
     }
 
     cJSON* params = cJSON_GetObjectItem(root, "params");
     if (params) {
         char* params_str = cJSON_PrintUnformatted(params);
-        if (params_str) {
-            request->params = params_str;
-            request->params_len = strlen(params_str);
+        if (!params_str) {
+            cJSON_Delete(root);
+            return NOSTR_ERR_MEMORY;
         }
+        request->params = params_str;
+        request->params_len = strlen(params_str);
     }
 
     cJSON_Delete(root);
-- 
2.43.0


From cbead25a4b1e68fd681beba376c8e6d01ce2147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:04 +0000
Subject: [PATCH 073/109] fix: accept only hexadecimal digits in wallet
 connection keys

---
 src/nip47.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index d9fbeef..d81da67 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -115,11 +115,10 @@ static int hex_decode(const char* hex, uint8_t* out, size_t out_len)
     if (strlen(hex) != out_len * 2) return -1;
     
     for (size_t i = 0; i < out_len; i++) {
+        /* strtol alone would also take a sign or a space */
+        if (!isxdigit((unsigned char)hex[i*2]) || !isxdigit((unsigned char)hex[i*2+1])) return -1;
         char byte[3] = {hex[i*2], hex[i*2+1], 0};
-        char* end;
-        long val = strtol(byte, &end, 16);
-        if (end != byte + 2) return -1;
-        out[i] = (uint8_t)val;
+        out[i] = (uint8_t)strtol(byte, NULL, 16);
     }
     
     return 0;
-- 
2.43.0


From d4147e46f9484944f9b6868add7b185da48e66a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:04 +0000
Subject: [PATCH 074/109] fix: wallet connection URIs: no signs in %-escapes,
 no leak on a repeated lud16

---
 src/nip47.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index d81da67..39842ad 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -134,15 +134,12 @@ static char* url_decode(const char* src)
     
     size_t j = 0;
     for (size_t i = 0; i < len; i++) {
-        if (src[i] == '%' && i + 2 < len) {
+        if (src[i] == '%' && i + 2 < len &&
+            isxdigit((unsigned char)src[i+1]) && isxdigit((unsigned char)src[i+2])) {
             char hex[3] = {src[i+1], src[i+2], 0};
-            char* end;
-            long val = strtol(hex, &end, 16);
-            if (end == hex + 2) {
-                dst[j++] = (char)val;
-                i += 2;
-                continue;
-            }
+            dst[j++] = (char)strtol(hex, NULL, 16);
+            i += 2;
+            continue;
         }
         dst[j++] = src[i];
     }
@@ -239,6 +236,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
                 has_secret = 1;
             }
             else if (strcmp(param, "lud16") == 0) {
+                free(conn->lud16);
                 conn->lud16 = url_decode(value);
                 if (!conn->lud16) {
                     free(params);
-- 
2.43.0


From cf73d020ba2deba0bca36c427a3bcc4b20ac9a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:04 +0000
Subject: [PATCH 075/109] fix: read wallet information without content, and
 give out no lists on failure

---
 src/nip47.c | 215 +++++++++++++++++++---------------------------------
 1 file changed, 79 insertions(+), 136 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 39842ad..a3759ee 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -260,6 +260,60 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
     return NOSTR_OK;
 }
 
+static void free_words(char*** words, size_t* count)
+{
+    if (!words || !count || !*words) return;
+    for (size_t i = 0; i < *count; i++) {
+        free((*words)[i]);
+    }
+    free(*words);
+    *words = NULL;
+    *count = 0;
+}
+
+static nostr_error_t split_words(const char* text, char*** words, size_t* count)
+{
+    size_t cap = 1;
+    for (const char* p = text; *p; p++) {
+        if (*p == ' ') cap++;
+    }
+
+    char* copy = strdup(text);
+    char** list = malloc(cap * sizeof(char*));
+    if (!copy || !list) {
+        free(copy);
+        free(list);
+        return NOSTR_ERR_MEMORY;
+    }
+
+    size_t n = 0;
+    char* saveptr;
+    for (char* word = strtok_r(copy, " ", &saveptr); word; word = strtok_r(NULL, " ", &saveptr)) {
+        list[n] = strdup(word);
+        if (!list[n]) {
+            free_words(&list, &n);
+            free(copy);
+            return NOSTR_ERR_MEMORY;
+        }
+        n++;
+    }
+    free(copy);
+
+    *words = list;
+    *count = n;
+    return NOSTR_OK;
+}
+
+static const char* find_tag_value(const nostr_event* event, const char* name)
+{
+    for (size_t i = 0; i < event->tags_count; i++) {
+        if (event->tags[i].count >= 2 && strcmp(event->tags[i].values[0], name) == 0) {
+            return event->tags[i].values[1];
+        }
+    }
+    return NULL;
+}
+
 nostr_error_t nostr_nip47_parse_info_event(const nostr_event* event, char*** capabilities, 
                                            size_t* cap_count, char*** notifications, 
                                            size_t* notif_count, char*** encryptions,
@@ -268,145 +322,34 @@ nostr_error_t nostr_nip47_parse_info_event(const nostr_event* event, char*** cap
     if (!event || event->kind != NWC_KIND_INFO) {
         return NOSTR_ERR_INVALID_PARAM;
     }
-    
-    if (capabilities && cap_count) {
-        char* content = strdup(event->content);
-        if (!content) {
-            return NOSTR_ERR_MEMORY;
-        }
-        
-        *cap_count = 0;
-        for (char* p = content; *p; p++) {
-            if (*p == ' ') (*cap_count)++;
-        }
-        (*cap_count)++;
-        
-        *capabilities = malloc(*cap_count * sizeof(char*));
-        if (!*capabilities) {
-            free(content);
-            return NOSTR_ERR_MEMORY;
-        }
-        
-        size_t i = 0;
-        char* saveptr;
-        char* cap = strtok_r(content, " ", &saveptr);
-        while (cap && i < *cap_count) {
-            (*capabilities)[i] = strdup(cap);
-            if (!(*capabilities)[i]) {
-                for (size_t j = 0; j < i; j++) {
-                    free((*capabilities)[j]);
-                }
-                free(*capabilities);
-                free(content);
-                return NOSTR_ERR_MEMORY;
-            }
-            i++;
-            cap = strtok_r(NULL, " ", &saveptr);
-        }
-        *cap_count = i;
-        
-        free(content);
+
+    int want_cap = capabilities && cap_count;
+    int want_notif = notifications && notif_count;
+    int want_enc = encryptions && enc_count;
+    if (want_cap) { *capabilities = NULL; *cap_count = 0; }
+    if (want_notif) { *notifications = NULL; *notif_count = 0; }
+    if (want_enc) { *encryptions = NULL; *enc_count = 0; }
+
+    const char* notif = find_tag_value(event, "notifications");
+    const char* enc = find_tag_value(event, "encryption");
+
+    nostr_error_t err = NOSTR_OK;
+    if (want_cap) {
+        err = split_words(event->content ? event->content : "", capabilities, cap_count);
     }
-    
-    if (notifications && notif_count) {
-        *notifications = NULL;
-        *notif_count = 0;
-        
-        for (size_t i = 0; i < event->tags_count; i++) {
-            if (event->tags[i].count >= 2 && 
-                strcmp(event->tags[i].values[0], "notifications") == 0) {
-                
-                char* notif_str = strdup(event->tags[i].values[1]);
-                if (!notif_str) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                *notif_count = 0;
-                for (char* p = notif_str; *p; p++) {
-                    if (*p == ' ') (*notif_count)++;
-                }
-                (*notif_count)++;
-                
-                *notifications = malloc(*notif_count * sizeof(char*));
-                if (!*notifications) {
-                    free(notif_str);
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                size_t j = 0;
-                char* saveptr;
-                char* notif = strtok_r(notif_str, " ", &saveptr);
-                while (notif && j < *notif_count) {
-                    (*notifications)[j] = strdup(notif);
-                    if (!(*notifications)[j]) {
-                        for (size_t k = 0; k < j; k++) {
-                            free((*notifications)[k]);
-                        }
-                        free(*notifications);
-                        free(notif_str);
-                        return NOSTR_ERR_MEMORY;
-                    }
-                    j++;
-                    notif = strtok_r(NULL, " ", &saveptr);
-                }
-                *notif_count = j;
-                
-                free(notif_str);
-                break;
-            }
-        }
+    if (err == NOSTR_OK && want_notif && notif) {
+        err = split_words(notif, notifications, notif_count);
     }
-    
-    if (encryptions && enc_count) {
-        *encryptions = NULL;
-        *enc_count = 0;
-        
-        for (size_t i = 0; i < event->tags_count; i++) {
-            if (event->tags[i].count >= 2 && 
-                strcmp(event->tags[i].values[0], "encryption") == 0) {
-                
-                char* enc_str = strdup(event->tags[i].values[1]);
-                if (!enc_str) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                *enc_count = 0;
-                for (char* p = enc_str; *p; p++) {
-                    if (*p == ' ') (*enc_count)++;
-                }
-                (*enc_count)++;
-                
-                *encryptions = malloc(*enc_count * sizeof(char*));
-                if (!*encryptions) {
-                    free(enc_str);
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                size_t j = 0;
-                char* saveptr;
-                char* enc = strtok_r(enc_str, " ", &saveptr);
-                while (enc && j < *enc_count) {
-                    (*encryptions)[j] = strdup(enc);
-                    if (!(*encryptions)[j]) {
-                        for (size_t k = 0; k < j; k++) {
-                            free((*encryptions)[k]);
-                        }
-                        free(*encryptions);
-                        free(enc_str);
-                        return NOSTR_ERR_MEMORY;
-                    }
-                    j++;
-                    enc = strtok_r(NULL, " ", &saveptr);
-                }
-                *enc_count = j;
-                
-                free(enc_str);
-                break;
-            }
-        }
+    if (err == NOSTR_OK && want_enc && enc) {
+        err = split_words(enc, encryptions, enc_count);
     }
-    
-    return NOSTR_OK;
+
+    if (err != NOSTR_OK) {
+        if (want_cap) free_words(capabilities, cap_count);
+        if (want_notif) free_words(notifications, notif_count);
+        if (want_enc) free_words(encryptions, enc_count);
+    }
+    return err;
 }
 
 nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct nwc_connection* conn,
-- 
2.43.0


From 8aa6d9d0f0e14d5bbebedab533cb3ab9179c6939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:04 +0000
Subject: [PATCH 076/109] fix: send a wallet request whole whatever its length,
 and refuse trailing garbage in its parameters

---
 src/nip47.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index a3759ee..7aeb1e8 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -443,12 +443,10 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
         }
     }
     
-    char escaped_method[256];
-    nip47_json_escape(escaped_method, sizeof(escaped_method), method);
-
 #ifdef HAVE_CJSON
     {
-        cJSON* params_parsed = cJSON_Parse(params_json);
+        const char* params_end = NULL;
+        cJSON* params_parsed = cJSON_ParseWithOpts(params_json, &params_end, 1);
         if (!params_parsed) {
             nostr_event_destroy(*event);
             *event = NULL;
@@ -464,8 +462,21 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     }
 #endif
 
-    char payload[8192];
-    snprintf(payload, sizeof(payload), "{\"method\":\"%s\",\"params\":%s}", escaped_method, params_json);
+    /* Escaping makes at most six characters of one */
+    size_t escaped_size = strlen(method) * 6 + 1;
+    size_t payload_size = escaped_size + strlen(params_json) + sizeof("{\"method\":\"\",\"params\":}");
+    char* escaped_method = malloc(escaped_size);
+    char* payload = malloc(payload_size);
+    if (!escaped_method || !payload) {
+        free(escaped_method);
+        free(payload);
+        nostr_event_destroy(*event);
+        *event = NULL;
+        return NOSTR_ERR_MEMORY;
+    }
+    nip47_json_escape(escaped_method, escaped_size, method);
+    snprintf(payload, payload_size, "{\"method\":\"%s\",\"params\":%s}", escaped_method, params_json);
+    free(escaped_method);
     
     char* encrypted = NULL;
     if (use_nip44) {
@@ -477,6 +488,7 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     } else {
         err = NOSTR_ERR_NOT_SUPPORTED;
     }
+    free(payload);
     
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
-- 
2.43.0


From fc60ad919447b6ac5d9ef045ac12e1d93f2ddb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:16 +0000
Subject: [PATCH 077/109] fix: take a wallet response's sender from its author,
 and report a lack of memory

---
 src/nip47.c | 192 +++++++++++++++++++++++-----------------------------
 1 file changed, 85 insertions(+), 107 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 7aeb1e8..5279503 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -513,106 +513,101 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     return NOSTR_OK;
 }
 
+static nostr_error_t decrypt_from_service(const nostr_event* event, const nostr_privkey* client_secret,
+                                          char** decrypted)
+{
+    /* The wallet service is the author; its p tag names the client. Responses
+     * need no encryption tag: NIP-04 payloads are told apart by their IV. */
+    if (!event->content || strstr(event->content, "?iv=")) {
+        return NOSTR_ERR_NOT_SUPPORTED;
+    }
+
+    size_t decrypted_len = 0;
+    *decrypted = NULL;
+    nostr_error_t err = nostr_nip44_decrypt(client_secret, &event->pubkey, event->content,
+                                            decrypted, &decrypted_len);
+    if (err != NOSTR_OK) {
+        return err;
+    }
+    return *decrypted ? NOSTR_OK : NOSTR_ERR_INVALID_PARAM;
+}
+
+#ifdef HAVE_CJSON
+static int copy_string_item(const cJSON* object, const char* name, char** out)
+{
+    const cJSON* item = cJSON_GetObjectItem(object, name);
+    if (!out || !cJSON_IsString(item)) {
+        return 1;
+    }
+    *out = strdup(item->valuestring);
+    return *out != NULL;
+}
+
+static int print_item(const cJSON* object, const char* name, char** out)
+{
+    const cJSON* item = cJSON_GetObjectItem(object, name);
+    if (!out || !item) {
+        return 1;
+    }
+    *out = cJSON_PrintUnformatted(item);
+    return *out != NULL;
+}
+
+static void free_text(char** text)
+{
+    if (text) {
+        free(*text);
+        *text = NULL;
+    }
+}
+#endif
+
 nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const nostr_privkey* client_secret,
                                                char** result_type, char** result_json, 
                                                char** error_code, char** error_message)
 {
+    if (result_type) *result_type = NULL;
+    if (result_json) *result_json = NULL;
+    if (error_code) *error_code = NULL;
+    if (error_message) *error_message = NULL;
+
     if (!event || event->kind != NWC_KIND_RESPONSE || !client_secret) {
         return NOSTR_ERR_INVALID_PARAM;
     }
-    
-    nostr_key service_pubkey = {0};
-    int found_p_tag = 0;
-    
-    for (size_t i = 0; i < event->tags_count; i++) {
-        if (event->tags[i].count >= 2 && strcmp(event->tags[i].values[0], "p") == 0) {
-            if (hex_decode(event->tags[i].values[1], service_pubkey.data, 32) == 0) {
-                found_p_tag = 1;
-                break;
-            }
-        }
-    }
-    
-    if (!found_p_tag) {
-        memcpy(&service_pubkey, &event->pubkey, sizeof(nostr_key));
-    }
-    
+
     char* decrypted = NULL;
-    nostr_error_t err;
-    
-    int is_nip44 = 0;
-    for (size_t i = 0; i < event->tags_count; i++) {
-        if (event->tags[i].count >= 2 && strcmp(event->tags[i].values[0], "encryption") == 0) {
-            if (strstr(event->tags[i].values[1], "nip44") != NULL) {
-                is_nip44 = 1;
-            }
-            break;
-        }
-    }
-    
-    size_t decrypted_len = 0;
-    if (is_nip44) {
-        err = nostr_nip44_decrypt(client_secret, &service_pubkey, event->content, &decrypted, &decrypted_len);
-    } else {
-        err = NOSTR_ERR_NOT_SUPPORTED;
-    }
-    
+    nostr_error_t err = decrypt_from_service(event, client_secret, &decrypted);
     if (err != NOSTR_OK) {
         return err;
     }
-    
-    if (!decrypted) {
-        return NOSTR_ERR_INVALID_PARAM;
-    }
-    
+
 #ifdef HAVE_CJSON
     cJSON* root = cJSON_Parse(decrypted);
     if (!root) {
         free(decrypted);
         return NOSTR_ERR_INVALID_PARAM;
     }
-    
-    if (result_type) {
-        cJSON* type_obj = cJSON_GetObjectItem(root, "result_type");
-        if (type_obj && cJSON_IsString(type_obj)) {
-            *result_type = strdup(type_obj->valuestring);
-        }
-    }
-    
-    if (result_json) {
-        cJSON* result_obj = cJSON_GetObjectItem(root, "result");
-        if (result_obj) {
-            *result_json = cJSON_PrintUnformatted(result_obj);
-        }
-    }
-    
-    cJSON* error_obj = cJSON_GetObjectItem(root, "error");
-    if (error_obj) {
-        if (error_code) {
-            cJSON* code_obj = cJSON_GetObjectItem(error_obj, "code");
-            if (code_obj && cJSON_IsString(code_obj)) {
-                *error_code = strdup(code_obj->valuestring);
-            }
-        }
-        
-        if (error_message) {
-            cJSON* msg_obj = cJSON_GetObjectItem(error_obj, "message");
-            if (msg_obj && cJSON_IsString(msg_obj)) {
-                *error_message = strdup(msg_obj->valuestring);
-            }
-        }
+
+    const cJSON* error_obj = cJSON_GetObjectItem(root, "error");
+    if (!copy_string_item(root, "result_type", result_type) ||
+        !print_item(root, "result", result_json) ||
+        !copy_string_item(error_obj, "code", error_code) ||
+        !copy_string_item(error_obj, "message", error_message)) {
+        free_text(result_type);
+        free_text(result_json);
+        free_text(error_code);
+        free_text(error_message);
+        err = NOSTR_ERR_MEMORY;
     }
-    
+
     cJSON_Delete(root);
 #else
     if (result_type) *result_type = strdup("unknown");
     if (result_json) *result_json = strdup("{}");
-    if (error_code) *error_code = NULL;
-    if (error_message) *error_message = NULL;
 #endif
     
     free(decrypted);
-    return NOSTR_OK;
+    return err;
 }
 
 nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const char* invoice, 
@@ -746,53 +741,36 @@ nostr_error_t nostr_nip47_create_make_invoice_params(char** params_json, uint64_
 nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, const nostr_privkey* client_secret,
                                                    char** notification_type, char** notification_json)
 {
+    if (notification_type) *notification_type = NULL;
+    if (notification_json) *notification_json = NULL;
+
     if (!event || !client_secret || 
         (event->kind != NWC_KIND_NOTIFICATION && event->kind != NWC_KIND_NOTIFICATION_LEGACY)) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    nostr_key service_pubkey;
-    memcpy(&service_pubkey, &event->pubkey, sizeof(nostr_key));
-    
     char* decrypted = NULL;
-    nostr_error_t err;
-    
-    size_t decrypted_len = 0;
-    if (event->kind == NWC_KIND_NOTIFICATION) {
-        err = nostr_nip44_decrypt(client_secret, &service_pubkey, event->content, &decrypted, &decrypted_len);
-    } else {
-        err = NOSTR_ERR_NOT_SUPPORTED;
-    }
-    
+    nostr_error_t err = event->kind == NWC_KIND_NOTIFICATION
+        ? decrypt_from_service(event, client_secret, &decrypted)
+        : NOSTR_ERR_NOT_SUPPORTED;
     if (err != NOSTR_OK) {
         return err;
     }
-    
-    if (!decrypted) {
-        return NOSTR_ERR_INVALID_PARAM;
-    }
-    
+
 #ifdef HAVE_CJSON
     cJSON* root = cJSON_Parse(decrypted);
     if (!root) {
         free(decrypted);
         return NOSTR_ERR_INVALID_PARAM;
     }
-    
-    if (notification_type) {
-        cJSON* type_obj = cJSON_GetObjectItem(root, "notification_type");
-        if (type_obj && cJSON_IsString(type_obj)) {
-            *notification_type = strdup(type_obj->valuestring);
-        }
-    }
-    
-    if (notification_json) {
-        cJSON* notif_obj = cJSON_GetObjectItem(root, "notification");
-        if (notif_obj) {
-            *notification_json = cJSON_PrintUnformatted(notif_obj);
-        }
+
+    if (!copy_string_item(root, "notification_type", notification_type) ||
+        !print_item(root, "notification", notification_json)) {
+        free_text(notification_type);
+        free_text(notification_json);
+        err = NOSTR_ERR_MEMORY;
     }
-    
+
     cJSON_Delete(root);
 #else
     if (notification_type) *notification_type = strdup("unknown");
@@ -800,7 +778,7 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
 #endif
     
     free(decrypted);
-    return NOSTR_OK;
+    return err;
 }
 
 nostr_error_t nostr_nip47_free_connection(struct nwc_connection* conn)
-- 
2.43.0


From 469ccf8eb5c609e0cafcfce280cf355768997853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:15 +0000
Subject: [PATCH 078/109] fix: report a lack of memory instead of incomplete
 wallet parameters

---
 src/nip47.c          | 16 ++++++------
 src/nip47_commands.c | 59 ++++++++++++++++++++++----------------------
 2 files changed, 38 insertions(+), 37 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 5279503..926cd2a 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -623,13 +623,13 @@ nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const ch
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON_AddStringToObject(params, "invoice", invoice);
+    int complete = cJSON_AddStringToObject(params, "invoice", invoice) != NULL;
     
     if (amount_msats) {
-        cJSON_AddNumberToObject(params, "amount", *amount_msats);
+        complete = complete && cJSON_AddNumberToObject(params, "amount", *amount_msats);
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
@@ -683,21 +683,21 @@ nostr_error_t nostr_nip47_create_make_invoice_params(char** params_json, uint64_
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON_AddNumberToObject(params, "amount", amount_msats);
+    int complete = cJSON_AddNumberToObject(params, "amount", amount_msats) != NULL;
     
     if (description) {
-        cJSON_AddStringToObject(params, "description", description);
+        complete = complete && cJSON_AddStringToObject(params, "description", description);
     }
     
     if (description_hash) {
-        cJSON_AddStringToObject(params, "description_hash", description_hash);
+        complete = complete && cJSON_AddStringToObject(params, "description_hash", description_hash);
     }
     
     if (expiry_secs) {
-        cJSON_AddNumberToObject(params, "expiry", *expiry_secs);
+        complete = complete && cJSON_AddNumberToObject(params, "expiry", *expiry_secs);
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 7bba6d9..9f4407e 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -22,31 +22,33 @@ nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, ti
         return NOSTR_ERR_MEMORY;
     }
     
+    int complete = 1;
+    
     if (from) {
-        cJSON_AddNumberToObject(params, "from", *from);
+        complete = complete && cJSON_AddNumberToObject(params, "from", *from);
     }
     
     if (until) {
-        cJSON_AddNumberToObject(params, "until", *until);
+        complete = complete && cJSON_AddNumberToObject(params, "until", *until);
     }
     
     if (limit) {
-        cJSON_AddNumberToObject(params, "limit", *limit);
+        complete = complete && cJSON_AddNumberToObject(params, "limit", *limit);
     }
     
     if (offset) {
-        cJSON_AddNumberToObject(params, "offset", *offset);
+        complete = complete && cJSON_AddNumberToObject(params, "offset", *offset);
     }
     
     if (unpaid) {
-        cJSON_AddBoolToObject(params, "unpaid", *unpaid);
+        complete = complete && cJSON_AddBoolToObject(params, "unpaid", *unpaid);
     }
     
     if (type) {
-        cJSON_AddStringToObject(params, "type", type);
+        complete = complete && cJSON_AddStringToObject(params, "type", type);
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
@@ -116,15 +118,17 @@ nostr_error_t nostr_nip47_create_lookup_invoice_params(char** params_json, const
         return NOSTR_ERR_MEMORY;
     }
     
+    int complete = 1;
+    
     if (payment_hash) {
-        cJSON_AddStringToObject(params, "payment_hash", payment_hash);
+        complete = complete && cJSON_AddStringToObject(params, "payment_hash", payment_hash);
     }
     
     if (invoice) {
-        cJSON_AddStringToObject(params, "invoice", invoice);
+        complete = complete && cJSON_AddStringToObject(params, "invoice", invoice);
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
@@ -168,15 +172,15 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON_AddNumberToObject(params, "amount", amount_msats);
-    cJSON_AddStringToObject(params, "pubkey", pubkey);
+    int complete = cJSON_AddNumberToObject(params, "amount", amount_msats) &&
+                   cJSON_AddStringToObject(params, "pubkey", pubkey);
     
     if (preimage) {
-        cJSON_AddStringToObject(params, "preimage", preimage);
+        complete = complete && cJSON_AddStringToObject(params, "preimage", preimage);
     }
     
     if (tlv_records && tlv_count > 0) {
-        cJSON* tlv_array = cJSON_CreateArray();
+        cJSON* tlv_array = cJSON_AddArrayToObject(params, "tlv_records");
         if (!tlv_array) {
             cJSON_Delete(params);
             return NOSTR_ERR_MEMORY;
@@ -189,19 +193,17 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
                     cJSON_Delete(params);
                     return NOSTR_ERR_MEMORY;
                 }
+                cJSON_AddItemToArray(tlv_array, tlv);
                 
                 char* end;
                 long type_val = strtol(tlv_records[i], &end, 10);
-                cJSON_AddNumberToObject(tlv, "type", type_val);
-                cJSON_AddStringToObject(tlv, "value", tlv_records[i + 1]);
-                cJSON_AddItemToArray(tlv_array, tlv);
+                complete = complete && cJSON_AddNumberToObject(tlv, "type", type_val) &&
+                           cJSON_AddStringToObject(tlv, "value", tlv_records[i + 1]);
             }
         }
-        
-        cJSON_AddItemToObject(params, "tlv_records", tlv_array);
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
@@ -262,35 +264,34 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON* inv_array = cJSON_CreateArray();
+    cJSON* inv_array = cJSON_AddArrayToObject(params, "invoices");
     if (!inv_array) {
         cJSON_Delete(params);
         return NOSTR_ERR_MEMORY;
     }
     
+    int complete = 1;
+    
     for (size_t i = 0; i < count; i++) {
         cJSON* inv = cJSON_CreateObject();
         if (!inv) {
             cJSON_Delete(params);
             return NOSTR_ERR_MEMORY;
         }
+        cJSON_AddItemToArray(inv_array, inv);
         
         if (invoice_ids && invoice_ids[i]) {
-            cJSON_AddStringToObject(inv, "id", invoice_ids[i]);
+            complete = complete && cJSON_AddStringToObject(inv, "id", invoice_ids[i]);
         }
         
-        cJSON_AddStringToObject(inv, "invoice", invoices[i]);
+        complete = complete && cJSON_AddStringToObject(inv, "invoice", invoices[i]);
         
         if (amounts && amounts[i] > 0) {
-            cJSON_AddNumberToObject(inv, "amount", amounts[i]);
+            complete = complete && cJSON_AddNumberToObject(inv, "amount", amounts[i]);
         }
-        
-        cJSON_AddItemToArray(inv_array, inv);
     }
     
-    cJSON_AddItemToObject(params, "invoices", inv_array);
-    
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
-- 
2.43.0


From 6b77c2ca10437c30f0b1a0b68391a7e8c88c3ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:53 +0000
Subject: [PATCH 079/109] fix: wallet results: refuse impossible amounts,
 report a lack of memory, set every output

---
 src/nip47_commands.c | 130 +++++++++++++++++++++++++++----------------
 1 file changed, 83 insertions(+), 47 deletions(-)

diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 9f4407e..d010156 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -349,6 +349,21 @@ nostr_error_t nostr_nip47_create_get_info_params(char** params_json)
     return NOSTR_OK;
 }
 
+#ifdef HAVE_CJSON
+/* Reads a whole amount that a double and the target hold; anything else is no
+ * amount (casting it would be undefined). */
+static int read_amount(const cJSON* item, double max, uint64_t* out)
+{
+    if (!cJSON_IsNumber(item) || !(item->valuedouble >= 0) || item->valuedouble > max) {
+        return 0;
+    }
+    *out = (uint64_t)item->valuedouble;
+    return 1;
+}
+
+#define AMOUNT_MAX 9007199254740992.0
+#endif
+
 nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64_t* balance_msats)
 {
     if (!result_json || !balance_msats) {
@@ -361,14 +376,11 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    cJSON* balance = cJSON_GetObjectItem(root, "balance");
-    if (!balance || !cJSON_IsNumber(balance)) {
+    if (!read_amount(cJSON_GetObjectItem(root, "balance"), AMOUNT_MAX, balance_msats)) {
         cJSON_Delete(root);
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    *balance_msats = (uint64_t)balance->valuedouble;
-    
     cJSON_Delete(root);
 #else
     const char* balance_str = strstr(result_json, "\"balance\":");
@@ -391,23 +403,30 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    if (preimage) *preimage = NULL;
+    
 #ifdef HAVE_CJSON
     cJSON* root = cJSON_Parse(result_json);
     if (!root) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    if (fees_paid) {
+        cJSON* fees = cJSON_GetObjectItem(root, "fees_paid");
+        if (fees && cJSON_IsNumber(fees) && !read_amount(fees, AMOUNT_MAX, fees_paid)) {
+            cJSON_Delete(root);
+            return NOSTR_ERR_INVALID_PARAM;
+        }
+    }
+    
     if (preimage) {
         cJSON* preim = cJSON_GetObjectItem(root, "preimage");
         if (preim && cJSON_IsString(preim)) {
             *preimage = strdup(preim->valuestring);
-        }
-    }
-    
-    if (fees_paid) {
-        cJSON* fees = cJSON_GetObjectItem(root, "fees_paid");
-        if (fees && cJSON_IsNumber(fees)) {
-            *fees_paid = (uint64_t)fees->valuedouble;
+            if (!*preimage) {
+                cJSON_Delete(root);
+                return NOSTR_ERR_MEMORY;
+            }
         }
     }
     
@@ -456,55 +475,72 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (alias) {
-        cJSON* al = cJSON_GetObjectItem(root, "alias");
-        if (al && cJSON_IsString(al)) {
-            *alias = strdup(al->valuestring);
-        }
-    }
+    nostr_error_t err = NOSTR_OK;
+    struct { const char* name; char** out; } texts[] = {
+        { "alias", alias }, { "color", color }, { "pubkey", pubkey }, { "network", network }
+    };
+    size_t texts_count = sizeof(texts) / sizeof(texts[0]);
     
-    if (color) {
-        cJSON* col = cJSON_GetObjectItem(root, "color");
-        if (col && cJSON_IsString(col)) {
-            *color = strdup(col->valuestring);
+    if (block_height) {
+        cJSON* height = cJSON_GetObjectItem(root, "block_height");
+        uint64_t value = 0;
+        if (height && cJSON_IsNumber(height)) {
+            if (!read_amount(height, UINT32_MAX, &value)) {
+                cJSON_Delete(root);
+                return NOSTR_ERR_INVALID_PARAM;
+            }
+            *block_height = (uint32_t)value;
         }
     }
     
-    if (pubkey) {
-        cJSON* pk = cJSON_GetObjectItem(root, "pubkey");
-        if (pk && cJSON_IsString(pk)) {
-            *pubkey = strdup(pk->valuestring);
+    for (size_t i = 0; i < texts_count; i++) {
+        if (!texts[i].out) continue;
+        *texts[i].out = NULL;
+        cJSON* item = cJSON_GetObjectItem(root, texts[i].name);
+        if (err == NOSTR_OK && item && cJSON_IsString(item)) {
+            *texts[i].out = strdup(item->valuestring);
+            if (!*texts[i].out) err = NOSTR_ERR_MEMORY;
         }
     }
     
-    if (network) {
-        cJSON* net = cJSON_GetObjectItem(root, "network");
-        if (net && cJSON_IsString(net)) {
-            *network = strdup(net->valuestring);
+    if (methods && method_count) {
+        *methods = NULL;
+        *method_count = 0;
+        cJSON* meth = cJSON_GetObjectItem(root, "methods");
+        int size = cJSON_IsArray(meth) ? cJSON_GetArraySize(meth) : 0;
+        if (err == NOSTR_OK && size > 0) {
+            *methods = calloc(size, sizeof(char*));
+            if (!*methods) err = NOSTR_ERR_MEMORY;
+            cJSON* item = NULL;
+            cJSON_ArrayForEach(item, meth) {
+                if (err != NOSTR_OK) break;
+                if (!cJSON_IsString(item)) continue;
+                (*methods)[*method_count] = strdup(item->valuestring);
+                if (!(*methods)[*method_count]) {
+                    err = NOSTR_ERR_MEMORY;
+                    break;
+                }
+                (*method_count)++;
+            }
         }
     }
     
-    if (block_height) {
-        cJSON* height = cJSON_GetObjectItem(root, "block_height");
-        if (height && cJSON_IsNumber(height)) {
-            *block_height = (uint32_t)height->valuedouble;
+    if (err != NOSTR_OK) {
+        for (size_t i = 0; i < texts_count; i++) {
+            if (!texts[i].out) continue;
+            free(*texts[i].out);
+            *texts[i].out = NULL;
         }
-    }
-    
-    if (methods && method_count) {
-        cJSON* meth = cJSON_GetObjectItem(root, "methods");
-        if (meth && cJSON_IsArray(meth)) {
-            *method_count = cJSON_GetArraySize(meth);
-            *methods = malloc(*method_count * sizeof(char*));
-            if (*methods) {
-                for (size_t i = 0; i < *method_count; i++) {
-                    cJSON* item = cJSON_GetArrayItem(meth, i);
-                    if (item && cJSON_IsString(item)) {
-                        (*methods)[i] = strdup(item->valuestring);
-                    }
-                }
+        if (methods && method_count) {
+            for (size_t i = 0; i < *method_count; i++) {
+                free((*methods)[i]);
             }
+            free(*methods);
+            *methods = NULL;
+            *method_count = 0;
         }
+        cJSON_Delete(root);
+        return err;
     }
     
     cJSON_Delete(root);
-- 
2.43.0


From 11cb1cf26978c8c3fac9037b3519b38ae5ff6502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:53 +0000
Subject: [PATCH 080/109] fix: refuse a NIP-46 request without an id or a
 method

---
 src/nip46.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index 214cca9..c6d4e22 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -41,22 +41,18 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
     }
 
     cJSON* id = cJSON_GetObjectItem(root, "id");
-    if (id && cJSON_IsString(id)) {
-        if (strlen(id->valuestring) >= sizeof(request->id)) {
-            cJSON_Delete(root);
-            return NOSTR_ERR_JSON_PARSE;
-        }
-        strcpy(request->id, id->valuestring);
+    if (!cJSON_IsString(id) || strlen(id->valuestring) >= sizeof(request->id)) {
+        cJSON_Delete(root);
+        return NOSTR_ERR_JSON_PARSE;
     }
+    strcpy(request->id, id->valuestring);
 
     cJSON* method = cJSON_GetObjectItem(root, "method");
-    if (method && cJSON_IsString(method)) {
-        if (strlen(method->valuestring) >= sizeof(request->method)) {
-            cJSON_Delete(root);
-            return NOSTR_ERR_JSON_PARSE;
-        }
-        strcpy(request->method, method->valuestring);
+    if (!cJSON_IsString(method) || strlen(method->valuestring) >= sizeof(request->method)) {
+        cJSON_Delete(root);
+        return NOSTR_ERR_JSON_PARSE;
     }
+    strcpy(request->method, method->valuestring);
 
     cJSON* params = cJSON_GetObjectItem(root, "params");
     if (params) {
-- 
2.43.0


From 71705b34d52ed4e9bbc280474bbdaf9a2154e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:54 +0000
Subject: [PATCH 081/109] fix: compare wallet session ids whole, without
 reading past a short one

---
 src/nip47_session.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 074faad..8dd7e27 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -38,6 +38,9 @@ static int rate_limit_count = 0;
 
 static nwc_session_t* find_session(const char* session_id)
 {
+    if (strlen(session_id) != 64) {
+        return NULL;
+    }
     for (size_t i = 0; i < max_sessions; i++) {
         if (sessions[i].active && nostr_constant_time_memcmp(sessions[i].session_id, session_id, 64) == 0) {
             return &sessions[i];
-- 
2.43.0


From 43801d05f43ed93d54e61f19ec0bf735ee9a5e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:54 +0000
Subject: [PATCH 082/109] fix: report a wallet session table that cannot be
 allocated

---
 src/nip47_session.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 8dd7e27..98354ea 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -92,13 +92,14 @@ nostr_error_t nostr_nip47_session_init()
     
     if (!sessions_initialized) {
         const nostr_config* config = nostr_config_get_current();
-        max_sessions = config ? config->max_sessions : 100;
+        size_t count = config ? config->max_sessions : 100;
         
-        sessions = calloc(max_sessions, sizeof(nwc_session_t));
+        sessions = calloc(count, sizeof(nwc_session_t));
         if (!sessions) {
             pthread_mutex_unlock(&sessions_lock);
             return NOSTR_ERR_MEMORY;
         }
+        max_sessions = count;
         
         for (size_t i = 0; i < max_sessions; i++) {
             sessions[i].active = 0;
@@ -121,12 +122,13 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (!sessions_initialized) {
-        nostr_nip47_session_init();
+    nostr_error_t err = nostr_nip47_session_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
     
     struct nwc_connection* conn = NULL;
-    nostr_error_t err = nostr_nip47_parse_connection_uri(connection_uri, &conn);
+    err = nostr_nip47_parse_connection_uri(connection_uri, &conn);
     if (err != NOSTR_OK) {
         return err;
     }
-- 
2.43.0


From 0130048d37d5b8f931367a93e9e1dce9d92d37ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:54 +0000
Subject: [PATCH 083/109] fix: do not keep a wallet session whose id cannot be
 given out

---
 src/nip47_session.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 98354ea..09c28fb 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -166,7 +166,9 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
     nwc_session_t* session = &sessions[slot];
     pthread_mutex_lock(&session->lock);
     
-    if (generate_session_id(session->session_id) != 0) {
+    char* id_copy = NULL;
+    if (generate_session_id(session->session_id) != 0 ||
+        !(id_copy = strdup(session->session_id))) {
         pthread_mutex_unlock(&session->lock);
         pthread_mutex_unlock(&sessions_lock);
         nostr_nip47_free_connection(conn);
@@ -181,7 +183,7 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
     session->active = 1;
     session->permission_count = 0;
     
-    *session_id = strdup(session->session_id);
+    *session_id = id_copy;
     
     pthread_mutex_unlock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
-- 
2.43.0


From 31f9918963ced42bf08ca9c9b70925218a54e027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:54 +0000
Subject: [PATCH 084/109] fix: recover the wallet session rate limit from a
 clock set back

---
 src/nip47_session.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 09c28fb..7165c4b 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -136,7 +136,8 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
     pthread_mutex_lock(&sessions_lock);
 
     time_t now = time(NULL);
-    if (now - rate_limit_window_start >= SESSION_RATE_LIMIT_WINDOW) {
+    if (now < rate_limit_window_start ||
+        now - rate_limit_window_start >= SESSION_RATE_LIMIT_WINDOW) {
         rate_limit_window_start = now;
         rate_limit_count = 0;
     }
-- 
2.43.0


From 36709426758adf6cb29b2e681f854c7a47f4d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:54 +0000
Subject: [PATCH 085/109] fix: keep wallet session permissions within their
 memory, and report a lack of it

---
 src/nip47_session.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 7165c4b..bc459eb 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -19,6 +19,7 @@ typedef struct {
     struct nwc_connection* connection;
     permission_t* permissions;
     size_t permission_count;
+    size_t permission_capacity;
     time_t created_at;
     time_t last_used;
     time_t expires_at;
@@ -81,6 +82,7 @@ static void cleanup_expired_sessions()
             free(sessions[i].permissions);
             sessions[i].permissions = NULL;
             sessions[i].permission_count = 0;
+            sessions[i].permission_capacity = 0;
             pthread_mutex_unlock(&sessions[i].lock);
         }
     }
@@ -218,16 +220,25 @@ nostr_error_t nostr_nip47_session_add_permission(const char* session_id, const c
         return NOSTR_ERR_MEMORY;
     }
     
-    if (session->permissions == NULL) {
-        session->permissions = calloc(max_perms, sizeof(permission_t));
-        if (!session->permissions) {
+    /* The limit may have been raised since the first permission was added */
+    if (session->permission_count >= session->permission_capacity) {
+        permission_t* grown = realloc(session->permissions, max_perms * sizeof(permission_t));
+        if (!grown) {
             pthread_mutex_unlock(&session->lock);
             return NOSTR_ERR_MEMORY;
         }
+        session->permissions = grown;
+        session->permission_capacity = max_perms;
+    }
+    
+    char* name = strdup(permission);
+    if (!name) {
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_MEMORY;
     }
     
     permission_t* perm = &session->permissions[session->permission_count];
-    perm->name = strdup(permission);
+    perm->name = name;
     perm->limit_msats = limit_msats;
     perm->reset_interval_secs = reset_interval_secs;
     perm->reset_time = time(NULL) + reset_interval_secs;
@@ -377,6 +388,7 @@ nostr_error_t nostr_nip47_session_destroy(const char* session_id)
     free(session->permissions);
     session->permissions = NULL;
     session->permission_count = 0;
+    session->permission_capacity = 0;
     
     pthread_mutex_unlock(&session->lock);
     return NOSTR_OK;
-- 
2.43.0


From 78cea36a5f83552fdd79b85cc1e27d1a84e511cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:54 +0000
Subject: [PATCH 086/109] fix: a huge amount must not wrap around a wallet
 session's budget

---
 src/nip47_session.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index bc459eb..2881e61 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -295,7 +295,9 @@ nostr_error_t nostr_nip47_session_check_permission(const char* session_id, const
         perm->reset_time = now + perm->reset_interval_secs;
     }
     
-    if (perm->limit_msats > 0 && perm->used_msats + amount_msats > perm->limit_msats) {
+    /* Written so that no amount can wrap around and pass */
+    if (perm->limit_msats > 0 && (perm->used_msats > perm->limit_msats ||
+                                  amount_msats > perm->limit_msats - perm->used_msats)) {
         pthread_mutex_unlock(&session->lock);
         return NOSTR_ERR_INVALID_PARAM;
     }
-- 
2.43.0


From bec09afb70d9d44db7749b6a16f880f4ed98d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:54 +0000
Subject: [PATCH 087/109] fix: an expired wallet session cannot be extended

---
 src/nip47_session.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 2881e61..750569f 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -355,6 +355,11 @@ nostr_error_t nostr_nip47_session_extend(const char* session_id, uint32_t additi
     pthread_mutex_lock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
 
+    if (session->expires_at < time(NULL)) {
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
     session->expires_at += additional_secs;
 
     pthread_mutex_unlock(&session->lock);
-- 
2.43.0


From 81f733acf5372aa73f56478bc0e0195452b4cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:54 +0000
Subject: [PATCH 088/109] fix: do not use a wallet session that another thread
 destroyed meanwhile

---
 src/nip47_session.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 750569f..91d105e 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -69,8 +69,8 @@ static void cleanup_expired_sessions()
     time_t now = time(NULL);
     
     for (size_t i = 0; i < max_sessions; i++) {
+        pthread_mutex_lock(&sessions[i].lock);
         if (sessions[i].active && sessions[i].expires_at < now) {
-            pthread_mutex_lock(&sessions[i].lock);
             sessions[i].active = 0;
             if (sessions[i].connection) {
                 nostr_nip47_free_connection(sessions[i].connection);
@@ -83,8 +83,8 @@ static void cleanup_expired_sessions()
             sessions[i].permissions = NULL;
             sessions[i].permission_count = 0;
             sessions[i].permission_capacity = 0;
-            pthread_mutex_unlock(&sessions[i].lock);
         }
+        pthread_mutex_unlock(&sessions[i].lock);
     }
 }
 
@@ -211,6 +211,11 @@ nostr_error_t nostr_nip47_session_add_permission(const char* session_id, const c
 
     pthread_mutex_lock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
+    if (!session->active) {
+        /* Destroyed while this thread waited for its lock */
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
 
     const nostr_config* config = nostr_config_get_current();
     uint32_t max_perms = config ? config->max_permissions : 32;
@@ -267,6 +272,11 @@ nostr_error_t nostr_nip47_session_check_permission(const char* session_id, const
 
     pthread_mutex_lock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
+    if (!session->active) {
+        /* Destroyed while this thread waited for its lock */
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
 
     time_t now = time(NULL);
     if (session->expires_at < now) {
@@ -324,6 +334,11 @@ nostr_error_t nostr_nip47_session_get_connection(const char* session_id, struct
 
     pthread_mutex_lock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
+    if (!session->active) {
+        /* Destroyed while this thread waited for its lock */
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
 
     time_t now = time(NULL);
     if (session->expires_at < now) {
@@ -354,6 +369,11 @@ nostr_error_t nostr_nip47_session_extend(const char* session_id, uint32_t additi
 
     pthread_mutex_lock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
+    if (!session->active) {
+        /* Destroyed while this thread waited for its lock */
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
 
     if (session->expires_at < time(NULL)) {
         pthread_mutex_unlock(&session->lock);
@@ -382,6 +402,11 @@ nostr_error_t nostr_nip47_session_destroy(const char* session_id)
 
     pthread_mutex_lock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
+    if (!session->active) {
+        /* Destroyed while this thread waited for its lock */
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
     
     session->active = 0;
     if (session->connection) {
-- 
2.43.0


From 7e5b4cadb93865cffbcdf1e871fb3e76ead66f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:48 +0000
Subject: [PATCH 089/109] fix: report NIP-18 and NIP-26 as supported when they
 are built in

---
 src/features.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/features.c b/src/features.c
index 1113c2c..651bee2 100644
--- a/src/features.c
+++ b/src/features.c
@@ -25,10 +25,18 @@ int nostr_feature_nip_supported(int nip_number)
         case 17:
             return 1;
 #endif
+#ifdef NOSTR_FEATURE_NIP18
+        case 18:
+            return 1;
+#endif
 #ifdef NOSTR_FEATURE_NIP25
         case 25:
             return 1;
 #endif
+#ifdef NOSTR_FEATURE_NIP26
+        case 26:
+            return 1;
+#endif
 #ifdef NOSTR_FEATURE_NIP44
         case 44:
             return 1;
@@ -135,9 +143,15 @@ const char* nostr_feature_list_enabled(void)
 #ifdef NOSTR_FEATURE_NIP17
         APPEND_FEATURE(",nip17");
 #endif
+#ifdef NOSTR_FEATURE_NIP18
+        APPEND_FEATURE(",nip18");
+#endif
 #ifdef NOSTR_FEATURE_NIP25
         APPEND_FEATURE(",nip25");
 #endif
+#ifdef NOSTR_FEATURE_NIP26
+        APPEND_FEATURE(",nip26");
+#endif
 #ifdef NOSTR_FEATURE_NIP44
         APPEND_FEATURE(",nip44");
 #endif
-- 
2.43.0


From 6af0a59a87af6d3799a17aed9f96bad890ef5a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:48 +0000
Subject: [PATCH 090/109] fix: a feature list asked for by several threads at
 once is never cut short

---
 src/features.c | 66 +++++++++++++++++++-------------------------------
 1 file changed, 25 insertions(+), 41 deletions(-)

diff --git a/src/features.c b/src/features.c
index 651bee2..de51c5d 100644
--- a/src/features.c
+++ b/src/features.c
@@ -112,91 +112,75 @@ int nostr_feature_relay_protocol_available(void)
 
 const char* nostr_feature_list_enabled(void)
 {
-    static char feature_list[512];
-    static int initialized = 0;
-
-    if (!initialized) {
-        size_t pos = 0;
-        size_t remaining = sizeof(feature_list);
-
-#define APPEND_FEATURE(str) do { \
-    int n = snprintf(feature_list + pos, remaining, str); \
-    if (n > 0 && (size_t)n < remaining) { pos += n; remaining -= n; } \
-} while(0)
-
-        APPEND_FEATURE("std,events,keys");
+    /* Put together by the compiler, so that any thread may ask at any time */
+    static const char feature_list[] = "std,events,keys"
 #ifdef NOSTR_FEATURE_ENCODING
-        APPEND_FEATURE(",encoding");
+        ",encoding"
 #endif
 #ifdef NOSTR_FEATURE_NIP04
-        APPEND_FEATURE(",nip04");
+        ",nip04"
 #endif
 #ifdef NOSTR_FEATURE_NIP05
-        APPEND_FEATURE(",nip05");
+        ",nip05"
 #endif
 #ifdef NOSTR_FEATURE_NIP10
-        APPEND_FEATURE(",nip10");
+        ",nip10"
 #endif
 #ifdef NOSTR_FEATURE_NIP13
-        APPEND_FEATURE(",nip13");
+        ",nip13"
 #endif
 #ifdef NOSTR_FEATURE_NIP17
-        APPEND_FEATURE(",nip17");
+        ",nip17"
 #endif
 #ifdef NOSTR_FEATURE_NIP18
-        APPEND_FEATURE(",nip18");
+        ",nip18"
 #endif
 #ifdef NOSTR_FEATURE_NIP25
-        APPEND_FEATURE(",nip25");
+        ",nip25"
 #endif
 #ifdef NOSTR_FEATURE_NIP26
-        APPEND_FEATURE(",nip26");
+        ",nip26"
 #endif
 #ifdef NOSTR_FEATURE_NIP44
-        APPEND_FEATURE(",nip44");
+        ",nip44"
 #endif
 #ifdef NOSTR_FEATURE_NIP46
-        APPEND_FEATURE(",nip46");
+        ",nip46"
 #endif
 #ifdef NOSTR_FEATURE_NIP47
-        APPEND_FEATURE(",nip47");
+        ",nip47"
 #endif
 #ifdef NOSTR_FEATURE_NIP49
-        APPEND_FEATURE(",nip49");
+        ",nip49"
 #endif
 #ifdef NOSTR_FEATURE_NIP51
-        APPEND_FEATURE(",nip51");
+        ",nip51"
 #endif
 #ifdef NOSTR_FEATURE_NIP57
-        APPEND_FEATURE(",nip57");
+        ",nip57"
 #endif
 #ifdef NOSTR_FEATURE_NIP59
-        APPEND_FEATURE(",nip59");
+        ",nip59"
 #endif
 #ifdef NOSTR_FEATURE_NIP65
-        APPEND_FEATURE(",nip65");
+        ",nip65"
 #endif
 #ifdef NOSTR_FEATURE_RELAY
-        APPEND_FEATURE(",relay");
+        ",relay"
 #endif
 #ifdef NOSTR_FEATURE_RELAY_PROTOCOL
-        APPEND_FEATURE(",relay-protocol");
+        ",relay-protocol"
 #endif
 #ifdef NOSTR_FEATURE_HD_KEYS
-        APPEND_FEATURE(",hd-keys");
+        ",hd-keys"
 #endif
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
-        APPEND_FEATURE(",json-enhanced");
+        ",json-enhanced"
 #endif
 #ifdef NOSTR_FEATURE_THREADING
-        APPEND_FEATURE(",threading");
+        ",threading"
 #endif
-#undef APPEND_FEATURE
-
-        (void)pos;
-        (void)remaining;
-        initialized = 1;
-    }
+        ;
 
     return feature_list;
 }
-- 
2.43.0


From e58d7fa26656923daf9e5636a4265617838cb7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:48 +0000
Subject: [PATCH 091/109] fix: an error text for NOSTR_ERR_NOT_SUPPORTED

---
 src/key.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/key.c b/src/key.c
index 41151b3..63b7ba8 100644
--- a/src/key.c
+++ b/src/key.c
@@ -744,6 +744,7 @@ const char* nostr_error_string(nostr_error_t error)
         case NOSTR_ERR_NOT_FOUND: return "Not found";
         case NOSTR_ERR_TIMEOUT: return "Timeout";
         case NOSTR_ERR_INVALID_PARAM: return "Invalid parameter";
+        case NOSTR_ERR_NOT_SUPPORTED: return "Not supported";
         default: return "Unknown error";
     }
 }
\ No newline at end of file
-- 
2.43.0


From b0cc2bb1002bd5460cdb3a82853277c8d67d0a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:07 +0000
Subject: [PATCH 092/109] fix: an error text for NOSTR_RELAY_ERR_STORAGE

---
 src/relay_protocol.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index d4ed542..57ee5fe 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -35,6 +35,7 @@ const char* nostr_relay_error_string(nostr_relay_error_t error)
         case NOSTR_RELAY_ERR_BUFFER_TOO_SMALL: return "buffer too small";
         case NOSTR_RELAY_ERR_MEMORY: return "memory allocation failed";
         case NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE: return "unknown message type";
+        case NOSTR_RELAY_ERR_STORAGE: return "storage error";
         default: return "unknown error";
     }
 }
-- 
2.43.0


From ff50e004c5f01a2c1c270c112cb415b5dfc35dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:09 +0000
Subject: [PATCH 093/109] fix: a negative environment value is not taken as a
 positive one

---
 src/config.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config.c b/src/config.c
index 4b2333b..911de9a 100644
--- a/src/config.c
+++ b/src/config.c
@@ -77,6 +77,9 @@ static uint32_t parse_uint32_env(const char* name, uint32_t default_val) {
     const char* env = getenv(name);
     if (!env) return default_val;
     
+    /* strtoul would turn a negative number into a large positive one */
+    if (strchr(env, '-')) return default_val;
+    
     char* endptr;
     unsigned long val = strtoul(env, &endptr, 10);
     if (endptr == env || *endptr != '\0' || val > UINT32_MAX) return default_val;
-- 
2.43.0


From 9e0d9d0d236575984d27407bfb3d318f663cfd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:01 +0000
Subject: [PATCH 094/109] fix: refuse JSON text with a NUL character instead of
 reading it cut off

---
 src/event.c          |  3 ++-
 src/json_internal.h  | 29 +++++++++++++++++++++++++++++
 src/nip46.c          |  3 ++-
 src/nip47.c          | 17 ++++++++++-------
 src/nip47_commands.c |  7 ++++---
 src/nip51.c          |  3 +++
 src/relay.c          |  3 ++-
 src/relay_filter.c   |  5 +++++
 src/relay_message.c  |  5 +++++
 9 files changed, 62 insertions(+), 13 deletions(-)
 create mode 100644 src/json_internal.h

diff --git a/src/event.c b/src/event.c
index b6c4778..b124fe5 100644
--- a/src/event.c
+++ b/src/event.c
@@ -23,6 +23,7 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
+#include "json_internal.h"
 #endif
 
 #ifdef HAVE_NOSCRYPT
@@ -493,7 +494,7 @@ static nostr_error_t event_from_json(const char* json, nostr_event** event)
     }
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
-    cJSON* root = cJSON_Parse(json);
+    cJSON* root = nostr_json_has_nul(json, strlen(json)) ? NULL : cJSON_Parse(json);
     if (!cJSON_IsObject(root)) {
         cJSON_Delete(root);
         return NOSTR_ERR_JSON_PARSE;
diff --git a/src/json_internal.h b/src/json_internal.h
new file mode 100644
index 0000000..1c5bbe8
--- /dev/null
+++ b/src/json_internal.h
@@ -0,0 +1,29 @@
+#ifndef NOSTR_JSON_INTERNAL_H
+#define NOSTR_JSON_INTERNAL_H
+
+#include <stdbool.h>
+#include <stddef.h>
+#include <string.h>
+
+/*
+ * A NUL character, written \u0000 or raw, would end a C string early: cJSON reads
+ * "a\u0000b" as "a". Texts holding one are refused rather than read cut off.
+ */
+static inline bool nostr_json_has_nul(const char* json, size_t len)
+{
+    if (memchr(json, '\0', len)) {
+        return true;
+    }
+    const char* end = json + len;
+    const char* p = json;
+    while (p < end && (p = memchr(p, '\\', (size_t)(end - p))) != NULL) {
+        if (end - p >= 6 && memcmp(p, "\\u0000", 6) == 0) {
+            return true;
+        }
+        /* The escaped character may be a backslash itself */
+        p += end - p > 1 ? 2 : 1;
+    }
+    return false;
+}
+
+#endif
diff --git a/src/nip46.c b/src/nip46.c
index c6d4e22..75fa888 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -5,6 +5,7 @@
 
 #ifdef HAVE_CJSON
 #include <cjson/cJSON.h>
+#include "json_internal.h"
 #endif
 
 #ifdef NOSTR_FEATURE_NIP46
@@ -34,7 +35,7 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
     }
 
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(decrypted);
+    cJSON* root = nostr_json_has_nul(decrypted, decrypted_len) ? NULL : cJSON_Parse(decrypted);
     free(decrypted);
     if (!root) {
         return NOSTR_ERR_JSON_PARSE;
diff --git a/src/nip47.c b/src/nip47.c
index 926cd2a..988ffe3 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -11,6 +11,7 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
+#include "json_internal.h"
 #endif
 
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
@@ -514,7 +515,7 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
 }
 
 static nostr_error_t decrypt_from_service(const nostr_event* event, const nostr_privkey* client_secret,
-                                          char** decrypted)
+                                          char** decrypted, size_t* decrypted_len)
 {
     /* The wallet service is the author; its p tag names the client. Responses
      * need no encryption tag: NIP-04 payloads are told apart by their IV. */
@@ -522,10 +523,10 @@ static nostr_error_t decrypt_from_service(const nostr_event* event, const nostr_
         return NOSTR_ERR_NOT_SUPPORTED;
     }
 
-    size_t decrypted_len = 0;
     *decrypted = NULL;
+    *decrypted_len = 0;
     nostr_error_t err = nostr_nip44_decrypt(client_secret, &event->pubkey, event->content,
-                                            decrypted, &decrypted_len);
+                                            decrypted, decrypted_len);
     if (err != NOSTR_OK) {
         return err;
     }
@@ -576,13 +577,14 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
     }
 
     char* decrypted = NULL;
-    nostr_error_t err = decrypt_from_service(event, client_secret, &decrypted);
+    size_t decrypted_len = 0;
+    nostr_error_t err = decrypt_from_service(event, client_secret, &decrypted, &decrypted_len);
     if (err != NOSTR_OK) {
         return err;
     }
 
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(decrypted);
+    cJSON* root = nostr_json_has_nul(decrypted, decrypted_len) ? NULL : cJSON_Parse(decrypted);
     if (!root) {
         free(decrypted);
         return NOSTR_ERR_INVALID_PARAM;
@@ -750,15 +752,16 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
     }
     
     char* decrypted = NULL;
+    size_t decrypted_len = 0;
     nostr_error_t err = event->kind == NWC_KIND_NOTIFICATION
-        ? decrypt_from_service(event, client_secret, &decrypted)
+        ? decrypt_from_service(event, client_secret, &decrypted, &decrypted_len)
         : NOSTR_ERR_NOT_SUPPORTED;
     if (err != NOSTR_OK) {
         return err;
     }
 
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(decrypted);
+    cJSON* root = nostr_json_has_nul(decrypted, decrypted_len) ? NULL : cJSON_Parse(decrypted);
     if (!root) {
         free(decrypted);
         return NOSTR_ERR_INVALID_PARAM;
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index d010156..dccc3f5 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -6,6 +6,7 @@
 
 #ifdef HAVE_CJSON
 #include <cjson/cJSON.h>
+#include "json_internal.h"
 #endif
 
 nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, time_t* from, time_t* until,
@@ -371,7 +372,7 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(result_json);
+    cJSON* root = nostr_json_has_nul(result_json, strlen(result_json)) ? NULL : cJSON_Parse(result_json);
     if (!root) {
         return NOSTR_ERR_INVALID_PARAM;
     }
@@ -406,7 +407,7 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
     if (preimage) *preimage = NULL;
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(result_json);
+    cJSON* root = nostr_json_has_nul(result_json, strlen(result_json)) ? NULL : cJSON_Parse(result_json);
     if (!root) {
         return NOSTR_ERR_INVALID_PARAM;
     }
@@ -470,7 +471,7 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(result_json);
+    cJSON* root = nostr_json_has_nul(result_json, strlen(result_json)) ? NULL : cJSON_Parse(result_json);
     if (!root) {
         return NOSTR_ERR_INVALID_PARAM;
     }
diff --git a/src/nip51.c b/src/nip51.c
index 3330384..fe44e8a 100644
--- a/src/nip51.c
+++ b/src/nip51.c
@@ -687,6 +687,9 @@ static nostr_error_t parse_private_items(const char* json, nostr_list* list, cha
                     case 'u': {
                         p++;
                         int hi = parse_hex4(&p);
+                        if (hi == 0) {
+                            return NOSTR_ERR_JSON_PARSE;
+                        }
                         if (hi < 0) {
                             if (len < max_len) dest[len++] = '?';
                             continue;
diff --git a/src/relay.c b/src/relay.c
index 26a84e1..ca186b3 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -11,6 +11,7 @@
 #endif
 #include <time.h>
 #include <cjson/cJSON.h>
+#include "json_internal.h"
 
 static int validate_subscription_id(const char* id)
 {
@@ -700,7 +701,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                     char saved = *end;
                     *end = '\0';
 
-                    cJSON* json = cJSON_Parse(start);
+                    cJSON* json = nostr_json_has_nul(start, (size_t)(end - start)) ? NULL : cJSON_Parse(start);
                     if (json && cJSON_IsArray(json)) {
                         int array_size = cJSON_GetArraySize(json);
                         if (array_size >= 2) {
diff --git a/src/relay_filter.c b/src/relay_filter.c
index 58d0a41..0f9fc17 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -11,6 +11,7 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
+#include "json_internal.h"
 #endif
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
@@ -139,6 +140,10 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
 
     memset(filter, 0, sizeof(nostr_filter_t));
 
+    if (nostr_json_has_nul(json, json_len > 0 ? json_len : strlen(json))) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
     cJSON* root = (json_len > 0) ? cJSON_ParseWithLength(json, json_len) : cJSON_Parse(json);
     if (!root || !cJSON_IsObject(root)) {
         cJSON_Delete(root);
diff --git a/src/relay_message.c b/src/relay_message.c
index d20e21b..5c970bd 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -10,6 +10,7 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
+#include "json_internal.h"
 #endif
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
@@ -89,6 +90,10 @@ nostr_relay_error_t nostr_client_msg_parse(const char* json, size_t json_len, no
     memset(msg, 0, sizeof(nostr_client_msg_t));
     msg->type = NOSTR_CLIENT_MSG_UNKNOWN;
 
+    if (nostr_json_has_nul(json, json_len > 0 ? json_len : strlen(json))) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
     cJSON* root = (json_len > 0) ? cJSON_ParseWithLength(json, json_len) : cJSON_Parse(json);
     if (!root || !cJSON_IsArray(root)) {
         if (root) cJSON_Delete(root);
-- 
2.43.0


From f437e9370364f06c17b24fb4f5cde89416f54ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:30 +0000
Subject: [PATCH 095/109] fix: wallet amounts and TLV types are asked for
 exactly, or refused

---
 src/nip47.c          | 14 ++++++++++++--
 src/nip47_commands.c | 34 +++++++++++++++++++++++++++++-----
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 988ffe3..0978cbf 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -612,6 +612,16 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
     return err;
 }
 
+#ifdef HAVE_CJSON
+/* As its digits: a cJSON number is a double, which does not hold every amount */
+static int add_uint64(cJSON* object, const char* name, uint64_t value)
+{
+    char digits[24];
+    snprintf(digits, sizeof(digits), "%llu", (unsigned long long)value);
+    return cJSON_AddRawToObject(object, name, digits) != NULL;
+}
+#endif
+
 nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const char* invoice, 
                                                     uint64_t* amount_msats)
 {
@@ -628,7 +638,7 @@ nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const ch
     int complete = cJSON_AddStringToObject(params, "invoice", invoice) != NULL;
     
     if (amount_msats) {
-        complete = complete && cJSON_AddNumberToObject(params, "amount", *amount_msats);
+        complete = complete && add_uint64(params, "amount", *amount_msats);
     }
     
     *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
@@ -685,7 +695,7 @@ nostr_error_t nostr_nip47_create_make_invoice_params(char** params_json, uint64_
         return NOSTR_ERR_MEMORY;
     }
     
-    int complete = cJSON_AddNumberToObject(params, "amount", amount_msats) != NULL;
+    int complete = add_uint64(params, "amount", amount_msats);
     
     if (description) {
         complete = complete && cJSON_AddStringToObject(params, "description", description);
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index dccc3f5..04e431b 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -2,6 +2,8 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <ctype.h>
+#include <errno.h>
 #include "../include/nostr.h"
 
 #ifdef HAVE_CJSON
@@ -9,6 +11,25 @@
 #include "json_internal.h"
 #endif
 
+#ifdef HAVE_CJSON
+/* As its digits: a cJSON number is a double, which does not hold every amount */
+static int add_uint64(cJSON* object, const char* name, uint64_t value)
+{
+    char digits[24];
+    snprintf(digits, sizeof(digits), "%llu", (unsigned long long)value);
+    return cJSON_AddRawToObject(object, name, digits) != NULL;
+}
+
+/* A TLV type is a whole number, written in decimal digits */
+static int read_tlv_type(const char* text, uint64_t* type)
+{
+    char* end;
+    errno = 0;
+    *type = strtoull(text, &end, 10);
+    return isdigit((unsigned char)text[0]) && !*end && errno == 0;
+}
+#endif
+
 nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, time_t* from, time_t* until,
                                                          uint32_t* limit, uint32_t* offset, 
                                                          int* unpaid, const char* type)
@@ -173,7 +194,7 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
         return NOSTR_ERR_MEMORY;
     }
     
-    int complete = cJSON_AddNumberToObject(params, "amount", amount_msats) &&
+    int complete = add_uint64(params, "amount", amount_msats) &&
                    cJSON_AddStringToObject(params, "pubkey", pubkey);
     
     if (preimage) {
@@ -196,9 +217,12 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
                 }
                 cJSON_AddItemToArray(tlv_array, tlv);
                 
-                char* end;
-                long type_val = strtol(tlv_records[i], &end, 10);
-                complete = complete && cJSON_AddNumberToObject(tlv, "type", type_val) &&
+                uint64_t type_val;
+                if (!read_tlv_type(tlv_records[i], &type_val)) {
+                    cJSON_Delete(params);
+                    return NOSTR_ERR_INVALID_PARAM;
+                }
+                complete = complete && add_uint64(tlv, "type", type_val) &&
                            cJSON_AddStringToObject(tlv, "value", tlv_records[i + 1]);
             }
         }
@@ -288,7 +312,7 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
         complete = complete && cJSON_AddStringToObject(inv, "invoice", invoices[i]);
         
         if (amounts && amounts[i] > 0) {
-            complete = complete && cJSON_AddNumberToObject(inv, "amount", amounts[i]);
+            complete = complete && add_uint64(inv, "amount", amounts[i]);
         }
     }
     
-- 
2.43.0


From c5563d393b9e10adb0a107a392e3df53a022c95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:47 +0000
Subject: [PATCH 096/109] fix: a relay information document holds large numbers
 exactly

---
 src/relay_nip11.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/relay_nip11.c b/src/relay_nip11.c
index abf6c6a..bb789a2 100644
--- a/src/relay_nip11.c
+++ b/src/relay_nip11.c
@@ -4,6 +4,7 @@
  */
 
 #include "../include/nostr_relay_protocol.h"
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -151,6 +152,21 @@ static bool add_to_object(cJSON* object, const char* name, cJSON* item)
     return false;
 }
 
+/* A double holds integers exactly only up to 2^53, so print the digits */
+static bool add_int64(cJSON* object, const char* name, int64_t value)
+{
+    char digits[24];
+    snprintf(digits, sizeof(digits), "%lld", (long long)value);
+    return cJSON_AddRawToObject(object, name, digits) != NULL;
+}
+
+static bool add_uint64(cJSON* object, const char* name, uint64_t value)
+{
+    char digits[24];
+    snprintf(digits, sizeof(digits), "%llu", (unsigned long long)value);
+    return cJSON_AddRawToObject(object, name, digits) != NULL;
+}
+
 nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitation_t* limitation,
                                                      char* buf, size_t buf_size, size_t* out_len)
 {
@@ -192,10 +208,10 @@ nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitatio
     failed |= !cJSON_AddBoolToObject(obj, "payment_required", limitation->payment_required);
     failed |= !cJSON_AddBoolToObject(obj, "restricted_writes", limitation->restricted_writes);
     if (limitation->created_at_lower_limit > 0) {
-        failed |= !cJSON_AddNumberToObject(obj, "created_at_lower_limit", (double)limitation->created_at_lower_limit);
+        failed |= !add_int64(obj, "created_at_lower_limit", limitation->created_at_lower_limit);
     }
     if (limitation->created_at_upper_limit > 0) {
-        failed |= !cJSON_AddNumberToObject(obj, "created_at_upper_limit", (double)limitation->created_at_upper_limit);
+        failed |= !add_int64(obj, "created_at_upper_limit", limitation->created_at_upper_limit);
     }
     if (limitation->default_limit > 0) {
         failed |= !cJSON_AddNumberToObject(obj, "default_limit", limitation->default_limit);
@@ -308,10 +324,10 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
     failed |= !cJSON_AddBoolToObject(limitation_obj, "payment_required", info->limitation.payment_required);
     failed |= !cJSON_AddBoolToObject(limitation_obj, "restricted_writes", info->limitation.restricted_writes);
     if (info->limitation.created_at_lower_limit > 0) {
-        failed |= !cJSON_AddNumberToObject(limitation_obj, "created_at_lower_limit", (double)info->limitation.created_at_lower_limit);
+        failed |= !add_int64(limitation_obj, "created_at_lower_limit", info->limitation.created_at_lower_limit);
     }
     if (info->limitation.created_at_upper_limit > 0) {
-        failed |= !cJSON_AddNumberToObject(limitation_obj, "created_at_upper_limit", (double)info->limitation.created_at_upper_limit);
+        failed |= !add_int64(limitation_obj, "created_at_upper_limit", info->limitation.created_at_upper_limit);
     }
     if (info->limitation.default_limit > 0) {
         failed |= !cJSON_AddNumberToObject(limitation_obj, "default_limit", info->limitation.default_limit);
@@ -330,7 +346,7 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
                 failed |= !add_to_object(ret_obj, "kinds", kinds_arr);
             }
             if (info->retention[i].time != 0) {
-                failed |= !cJSON_AddNumberToObject(ret_obj, "time", (double)info->retention[i].time);
+                failed |= !add_int64(ret_obj, "time", info->retention[i].time);
             }
             if (info->retention[i].count > 0) {
                 failed |= !cJSON_AddNumberToObject(ret_obj, "count", info->retention[i].count);
@@ -381,7 +397,7 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
             cJSON* admission_arr = cJSON_CreateArray();
             for (size_t i = 0; i < info->fees.admission_count; i++) {
                 cJSON* fee_obj = cJSON_CreateObject();
-                failed |= !cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.admission[i].amount);
+                failed |= !add_uint64(fee_obj, "amount", info->fees.admission[i].amount);
                 if (info->fees.admission[i].unit) {
                     failed |= !cJSON_AddStringToObject(fee_obj, "unit", info->fees.admission[i].unit);
                 }
@@ -394,7 +410,7 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
             cJSON* sub_arr = cJSON_CreateArray();
             for (size_t i = 0; i < info->fees.subscription_count; i++) {
                 cJSON* fee_obj = cJSON_CreateObject();
-                failed |= !cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.subscription[i].amount);
+                failed |= !add_uint64(fee_obj, "amount", info->fees.subscription[i].amount);
                 if (info->fees.subscription[i].unit) {
                     failed |= !cJSON_AddStringToObject(fee_obj, "unit", info->fees.subscription[i].unit);
                 }
@@ -417,7 +433,7 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
                     }
                     failed |= !add_to_object(fee_obj, "kinds", kinds_arr);
                 }
-                failed |= !cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.publication[i].amount);
+                failed |= !add_uint64(fee_obj, "amount", info->fees.publication[i].amount);
                 if (info->fees.publication[i].unit) {
                     failed |= !cJSON_AddStringToObject(fee_obj, "unit", info->fees.publication[i].unit);
                 }
-- 
2.43.0


From 543987f3ed72a739f1e2bc71c57142ef8a7b2468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:25 +0000
Subject: [PATCH 097/109] fix: refuse delegation conditions whose numbers are
 not plain numbers

---
 src/nip26.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/nip26.c b/src/nip26.c
index 6143a49..30ec772 100644
--- a/src/nip26.c
+++ b/src/nip26.c
@@ -61,6 +61,14 @@ static void cleanup_conditions(nostr_delegation_conditions *out)
     out->kind_count = 0;
 }
 
+/* strtoul and strtoll also take white space and signs in front, and stop wherever they like */
+static int is_whole_number(const char *start, const char *end, int may_be_negative)
+{
+    if (may_be_negative && *start == '-')
+        start++;
+    return *start >= '0' && *start <= '9' && (*end == '&' || *end == '\0');
+}
+
 static int parse_delegation_conditions(const char *conditions, nostr_delegation_conditions *out)
 {
     if (!conditions || !out)
@@ -92,7 +100,7 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
             char *endptr;
             errno = 0;
             unsigned long val = strtoul(p, &endptr, 10);
-            if (errno != 0 || endptr == p || val > UINT16_MAX) {
+            if (errno != 0 || !is_whole_number(p, endptr, 0) || val > UINT16_MAX) {
                 cleanup_conditions(out);
                 return 0;
             }
@@ -117,7 +125,7 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
             char *endptr;
             errno = 0;
             long long val = strtoll(p, &endptr, 10);
-            if (errno != 0 || endptr == p) {
+            if (errno != 0 || !is_whole_number(p, endptr, 1)) {
                 cleanup_conditions(out);
                 return 0;
             }
@@ -132,7 +140,7 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
             char *endptr;
             errno = 0;
             long long val = strtoll(p, &endptr, 10);
-            if (errno != 0 || endptr == p) {
+            if (errno != 0 || !is_whole_number(p, endptr, 1)) {
                 cleanup_conditions(out);
                 return 0;
             }
-- 
2.43.0


From 0a0314344327af6bf2733f031a71c607026e3e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:25 +0000
Subject: [PATCH 098/109] fix: a k tag that is not a number is not read as a
 kind

---
 src/nip18.c | 2 +-
 src/nip25.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nip18.c b/src/nip18.c
index aa78f13..5782758 100644
--- a/src/nip18.c
+++ b/src/nip18.c
@@ -151,7 +151,7 @@ nostr_error_t nostr_repost_parse(const nostr_event* event, char* reposted_event_
             char* endptr;
             errno = 0;
             unsigned long kind_val = strtoul(value, &endptr, 10);
-            if (errno == 0 && endptr != value && *endptr == '\0' && kind_val <= UINT16_MAX)
+            if (errno == 0 && *value >= '0' && *value <= '9' && *endptr == '\0' && kind_val <= UINT16_MAX)
                 found_kind = (uint16_t)kind_val;
         }
     }
diff --git a/src/nip25.c b/src/nip25.c
index 6500a39..cdfce51 100644
--- a/src/nip25.c
+++ b/src/nip25.c
@@ -133,7 +133,7 @@ nostr_error_t nostr_reaction_parse(const nostr_event* event, char* reaction_cont
             char* endptr;
             errno = 0;
             unsigned long kind_val = strtoul(value, &endptr, 10);
-            if (errno == 0 && endptr != value && *endptr == '\0') {
+            if (errno == 0 && *value >= '0' && *value <= '9' && *endptr == '\0') {
                 *target_kind = (kind_val > UINT16_MAX) ? UINT16_MAX : (uint16_t)kind_val;
             }
         }
-- 
2.43.0


From d4ef181d88a2cf54d8e6bd07e6af9ff02fd3a061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:25 +0000
Subject: [PATCH 099/109] fix: a huge committed difficulty is not cut down to a
 small one

---
 src/nip13.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip13.c b/src/nip13.c
index f5d6f5a..33b2a24 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -261,7 +261,7 @@ nostr_error_t nostr_nip13_verify_pow(const nostr_event* event, int min_difficult
     }
     
     if (event->tags[nonce_idx].count >= 3 && event->tags[nonce_idx].values[2]) {
-        int committed_difficulty = atoi(event->tags[nonce_idx].values[2]);
+        long committed_difficulty = strtol(event->tags[nonce_idx].values[2], NULL, 10);
         if (committed_difficulty > 0 && difficulty < committed_difficulty) {
             return NOSTR_ERR_INVALID_EVENT;
         }
-- 
2.43.0


From 5b44150c14fa74159ffed64a1d03d4497474c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:45 +0000
Subject: [PATCH 100/109] fix: a COUNT reply says large counts exactly

---
 src/relay_message.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index 5c970bd..4abf7d6 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -490,7 +490,10 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            complete = cJSON_AddNumberToObject(count_obj, "count", (double)msg->data.count.count) && complete;
+            /* As its digits: a cJSON number is a double, which does not hold every count */
+            char count_text[24];
+            snprintf(count_text, sizeof(count_text), "%lld", (long long)msg->data.count.count);
+            complete = cJSON_AddRawToObject(count_obj, "count", count_text) && complete;
             if (msg->data.count.approximate) {
                 complete = cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True) && complete;
             }
-- 
2.43.0


From 4684b7d4d4af35e5280d307df687ebef67a70db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:45 +0000
Subject: [PATCH 101/109] fix: wallet listings ask for the exact times

---
 src/nip47_commands.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 04e431b..47f7e8a 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -20,6 +20,13 @@ static int add_uint64(cJSON* object, const char* name, uint64_t value)
     return cJSON_AddRawToObject(object, name, digits) != NULL;
 }
 
+static int add_time(cJSON* object, const char* name, time_t value)
+{
+    char digits[24];
+    snprintf(digits, sizeof(digits), "%lld", (long long)value);
+    return cJSON_AddRawToObject(object, name, digits) != NULL;
+}
+
 /* A TLV type is a whole number, written in decimal digits */
 static int read_tlv_type(const char* text, uint64_t* type)
 {
@@ -47,11 +54,11 @@ nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, ti
     int complete = 1;
     
     if (from) {
-        complete = complete && cJSON_AddNumberToObject(params, "from", *from);
+        complete = complete && add_time(params, "from", *from);
     }
     
     if (until) {
-        complete = complete && cJSON_AddNumberToObject(params, "until", *until);
+        complete = complete && add_time(params, "until", *until);
     }
     
     if (limit) {
-- 
2.43.0


From 68987c35eec7a28944eab9dddb9478a5986510cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:45 +0000
Subject: [PATCH 102/109] fix: refuse addresses and relays with a NUL character
 instead of reading them cut off

---
 src/nip21.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nip21.c b/src/nip21.c
index 2ed9cb3..b397a5c 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -361,7 +361,9 @@ nostr_error_t nostr_naddr_decode(const char* bech32, nostr_naddr* addr) {
                     addr->pubkey.data, &has_author,
                     &addr->kind, &has_kind);
 
-    if (err != NOSTR_OK || !has_author || !has_kind || special_len >= NOSTR_URI_MAX_IDENTIFIER_LEN) {
+    /* An identifier with a NUL character cannot be held: it would be read as a shorter one */
+    if (err != NOSTR_OK || !has_author || !has_kind || special_len >= NOSTR_URI_MAX_IDENTIFIER_LEN ||
+        memchr(special, '\0', special_len)) {
         nostr_naddr_free(addr);
         return err != NOSTR_OK ? err : NOSTR_ERR_ENCODING;
     }
@@ -406,7 +408,8 @@ nostr_error_t nostr_nrelay_decode(const char* bech32, nostr_nrelay* relay) {
     size_t unused_count = 0;
 
     err = parse_tlv(data, data_len, special, sizeof(special), &special_len, NULL, &unused_count, 0, NULL, NULL, NULL, NULL);
-    if (err != NOSTR_OK || special_len == 0 || special_len >= NOSTR_URI_MAX_RELAY_LEN) {
+    if (err != NOSTR_OK || special_len == 0 || special_len >= NOSTR_URI_MAX_RELAY_LEN ||
+        memchr(special, '\0', special_len)) {
         return err != NOSTR_OK ? err : NOSTR_ERR_ENCODING;
     }
 
-- 
2.43.0


From 3e5342f81c377aec1a384b04fb7e4bbd7fd5bf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:12 +0000
Subject: [PATCH 103/109] fix: without cJSON, a lack of memory while computing
 an id is reported

---
 src/event.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/event.c b/src/event.c
index b124fe5..a845234 100644
--- a/src/event.c
+++ b/src/event.c
@@ -367,6 +367,9 @@ static char* serialize_for_id(const nostr_event* event)
 #else
     char pubkey_hex[65];
     char* content_escaped = escape_json_string(event->content ? event->content : "");
+    if (!content_escaped) {
+        return NULL;
+    }
     
     for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
         sprintf(pubkey_hex + i * 2, "%02x", event->pubkey.data[i]);
-- 
2.43.0


From 8b9f8621a247c17711842eb9bb4f487767210199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:12 +0000
Subject: [PATCH 104/109] fix: without cJSON, room for many empty tag values
 when computing an id

---
 src/event.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/event.c b/src/event.c
index a845234..6bcbeb1 100644
--- a/src/event.c
+++ b/src/event.c
@@ -378,8 +378,10 @@ static char* serialize_for_id(const nostr_event* event)
 
     size_t json_size = 512 + strlen(content_escaped);
     for (size_t i = 0; i < event->tags_count; i++) {
+        json_size += 3; /* brackets and a comma */
         for (size_t j = 0; j < event->tags[i].count; j++) {
-            json_size += strlen(event->tags[i].values[j]) * 6 + 4;
+            const char* value = event->tags[i].values[j];
+            json_size += (value ? strlen(value) : 0) * 6 + 4;
         }
     }
     
@@ -397,7 +399,7 @@ static char* serialize_for_id(const nostr_event* event)
         result[pos++] = '[';
         for (size_t j = 0; j < event->tags[i].count; j++) {
             if (j > 0) result[pos++] = ',';
-            char* tag_escaped = escape_json_string(event->tags[i].values[j]);
+            char* tag_escaped = escape_json_string(event->tags[i].values[j] ? event->tags[i].values[j] : "");
             if (!tag_escaped) {
                 free(result);
                 free(content_escaped);
-- 
2.43.0


From 833f66f209b19630f2de06097dfacd64096765a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:14 +0000
Subject: [PATCH 105/109] fix: without cJSON, wallet parameters are whole and
 escaped

---
 src/json_internal.h  |  81 ++++++++++++++++++++++
 src/nip47.c          |  49 ++++++--------
 src/nip47_commands.c | 155 ++++++++++++++++++++-----------------------
 3 files changed, 172 insertions(+), 113 deletions(-)

diff --git a/src/json_internal.h b/src/json_internal.h
index 1c5bbe8..2e66944 100644
--- a/src/json_internal.h
+++ b/src/json_internal.h
@@ -26,4 +26,85 @@ static inline bool nostr_json_has_nul(const char* json, size_t len)
     return false;
 }
 
+#ifndef HAVE_CJSON
+#include <stdio.h>
+#include <stdlib.h>
+#include <time.h>
+
+/* JSON text put together without cJSON, in memory that grows with it */
+typedef struct {
+    char* text;
+    size_t len;
+    size_t size;
+    bool failed;
+} nostr_json_text;
+
+static inline void nostr_json_add(nostr_json_text* out, const char* text, size_t len)
+{
+    if (out->failed) {
+        return;
+    }
+    if (out->size - out->len <= len) {
+        size_t size = (out->len + len + 1) * 2;
+        char* grown = realloc(out->text, size);
+        if (!grown) {
+            out->failed = true;
+            return;
+        }
+        out->text = grown;
+        out->size = size;
+    }
+    memcpy(out->text + out->len, text, len);
+    out->len += len;
+    out->text[out->len] = '\0';
+}
+
+static inline void nostr_json_add_raw(nostr_json_text* out, const char* text)
+{
+    nostr_json_add(out, text, strlen(text));
+}
+
+static inline void nostr_json_add_string(nostr_json_text* out, const char* text)
+{
+    nostr_json_add(out, "\"", 1);
+    for (const char* p = text; *p; p++) {
+        if (*p == '"' || *p == '\\') {
+            nostr_json_add(out, "\\", 1);
+            nostr_json_add(out, p, 1);
+        } else if ((unsigned char)*p < 0x20) {
+            char escaped[8];
+            snprintf(escaped, sizeof(escaped), "\\u%04x", (unsigned char)*p);
+            nostr_json_add(out, escaped, 6);
+        } else {
+            nostr_json_add(out, p, 1);
+        }
+    }
+    nostr_json_add(out, "\"", 1);
+}
+
+static inline void nostr_json_add_uint(nostr_json_text* out, unsigned long long value)
+{
+    char digits[24];
+    snprintf(digits, sizeof(digits), "%llu", value);
+    nostr_json_add_raw(out, digits);
+}
+
+static inline void nostr_json_add_time(nostr_json_text* out, time_t value)
+{
+    char digits[24];
+    snprintf(digits, sizeof(digits), "%lld", (long long)value);
+    nostr_json_add_raw(out, digits);
+}
+
+/* Hands out the text, or nothing if memory was short */
+static inline char* nostr_json_take(nostr_json_text* out)
+{
+    if (out->failed) {
+        free(out->text);
+        out->text = NULL;
+    }
+    return out->text;
+}
+#endif
+
 #endif
diff --git a/src/nip47.c b/src/nip47.c
index 0978cbf..36c2620 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -11,8 +11,8 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
-#include "json_internal.h"
 #endif
+#include "json_internal.h"
 
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
 #include <noscrypt.h>
@@ -648,17 +648,16 @@ nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const ch
         return NOSTR_ERR_MEMORY;
     }
 #else
-    char escaped_invoice[4096];
-    nip47_json_escape(escaped_invoice, sizeof(escaped_invoice), invoice);
-    char buffer[4096];
+    nostr_json_text out = {0};
+    nostr_json_add_raw(&out, "{\"invoice\":");
+    nostr_json_add_string(&out, invoice);
     if (amount_msats) {
-        snprintf(buffer, sizeof(buffer), "{\"invoice\":\"%s\",\"amount\":%llu}",
-                 escaped_invoice, (unsigned long long)*amount_msats);
-    } else {
-        snprintf(buffer, sizeof(buffer), "{\"invoice\":\"%s\"}", escaped_invoice);
+        nostr_json_add_raw(&out, ",\"amount\":");
+        nostr_json_add_uint(&out, *amount_msats);
     }
+    nostr_json_add_raw(&out, "}");
 
-    *params_json = strdup(buffer);
+    *params_json = nostr_json_take(&out);
     if (!*params_json) {
         return NOSTR_ERR_MEMORY;
     }
@@ -716,32 +715,24 @@ nostr_error_t nostr_nip47_create_make_invoice_params(char** params_json, uint64_
         return NOSTR_ERR_MEMORY;
     }
 #else
-    char buffer[4096];
-    int offset = snprintf(buffer, sizeof(buffer), "{\"amount\":%llu",
-                         (unsigned long long)amount_msats);
-
+    nostr_json_text out = {0};
+    nostr_json_add_raw(&out, "{\"amount\":");
+    nostr_json_add_uint(&out, amount_msats);
     if (description) {
-        char escaped_desc[2048];
-        nip47_json_escape(escaped_desc, sizeof(escaped_desc), description);
-        offset += snprintf(buffer + offset, sizeof(buffer) - offset,
-                          ",\"description\":\"%s\"", escaped_desc);
+        nostr_json_add_raw(&out, ",\"description\":");
+        nostr_json_add_string(&out, description);
     }
-
     if (description_hash) {
-        char escaped_hash[2048];
-        nip47_json_escape(escaped_hash, sizeof(escaped_hash), description_hash);
-        offset += snprintf(buffer + offset, sizeof(buffer) - offset,
-                          ",\"description_hash\":\"%s\"", escaped_hash);
+        nostr_json_add_raw(&out, ",\"description_hash\":");
+        nostr_json_add_string(&out, description_hash);
     }
-    
     if (expiry_secs) {
-        offset += snprintf(buffer + offset, sizeof(buffer) - offset, 
-                          ",\"expiry\":%u", *expiry_secs);
+        nostr_json_add_raw(&out, ",\"expiry\":");
+        nostr_json_add_uint(&out, *expiry_secs);
     }
-    
-    snprintf(buffer + offset, sizeof(buffer) - offset, "}");
-    
-    *params_json = strdup(buffer);
+    nostr_json_add_raw(&out, "}");
+
+    *params_json = nostr_json_take(&out);
     if (!*params_json) {
         return NOSTR_ERR_MEMORY;
     }
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 47f7e8a..88cdbf6 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -8,8 +8,8 @@
 
 #ifdef HAVE_CJSON
 #include <cjson/cJSON.h>
-#include "json_internal.h"
 #endif
+#include "json_internal.h"
 
 #ifdef HAVE_CJSON
 /* As its digits: a cJSON number is a double, which does not hold every amount */
@@ -26,6 +26,7 @@ static int add_time(cJSON* object, const char* name, time_t value)
     snprintf(digits, sizeof(digits), "%lld", (long long)value);
     return cJSON_AddRawToObject(object, name, digits) != NULL;
 }
+#endif
 
 /* A TLV type is a whole number, written in decimal digits */
 static int read_tlv_type(const char* text, uint64_t* type)
@@ -35,7 +36,6 @@ static int read_tlv_type(const char* text, uint64_t* type)
     *type = strtoull(text, &end, 10);
     return isdigit((unsigned char)text[0]) && !*end && errno == 0;
 }
-#endif
 
 nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, time_t* from, time_t* until,
                                                          uint32_t* limit, uint32_t* offset, 
@@ -84,48 +84,48 @@ nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, ti
         return NOSTR_ERR_MEMORY;
     }
 #else
-    char buffer[4096];
-    int pos = snprintf(buffer, sizeof(buffer), "{");
+    nostr_json_text out = {0};
     int first = 1;
-    
+    nostr_json_add_raw(&out, "{");
     if (from) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "%s\"from\":%ld", 
-                       first ? "" : ",", *from);
+        nostr_json_add_raw(&out, first ? "" : ",");
+        nostr_json_add_raw(&out, "\"from\":");
+        nostr_json_add_time(&out, *from);
         first = 0;
     }
-    
     if (until) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "%s\"until\":%ld", 
-                       first ? "" : ",", *until);
+        nostr_json_add_raw(&out, first ? "" : ",");
+        nostr_json_add_raw(&out, "\"until\":");
+        nostr_json_add_time(&out, *until);
         first = 0;
     }
-    
     if (limit) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "%s\"limit\":%u", 
-                       first ? "" : ",", *limit);
+        nostr_json_add_raw(&out, first ? "" : ",");
+        nostr_json_add_raw(&out, "\"limit\":");
+        nostr_json_add_uint(&out, *limit);
         first = 0;
     }
-    
     if (offset) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "%s\"offset\":%u", 
-                       first ? "" : ",", *offset);
+        nostr_json_add_raw(&out, first ? "" : ",");
+        nostr_json_add_raw(&out, "\"offset\":");
+        nostr_json_add_uint(&out, *offset);
         first = 0;
     }
-    
     if (unpaid) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "%s\"unpaid\":%s", 
-                       first ? "" : ",", *unpaid ? "true" : "false");
+        nostr_json_add_raw(&out, first ? "" : ",");
+        nostr_json_add_raw(&out, "\"unpaid\":");
+        nostr_json_add_raw(&out, *unpaid ? "true" : "false");
         first = 0;
     }
-    
     if (type) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "%s\"type\":\"%s\"", 
-                       first ? "" : ",", type);
+        nostr_json_add_raw(&out, first ? "" : ",");
+        nostr_json_add_raw(&out, "\"type\":");
+        nostr_json_add_string(&out, type);
+        first = 0;
     }
-    
-    snprintf(buffer + pos, sizeof(buffer) - pos, "}");
-    
-    *params_json = strdup(buffer);
+    nostr_json_add_raw(&out, "}");
+
+    *params_json = nostr_json_take(&out);
     if (!*params_json) {
         return NOSTR_ERR_MEMORY;
     }
@@ -164,21 +164,19 @@ nostr_error_t nostr_nip47_create_lookup_invoice_params(char** params_json, const
         return NOSTR_ERR_MEMORY;
     }
 #else
-    char buffer[4096];
-    int pos = snprintf(buffer, sizeof(buffer), "{");
-    
+    nostr_json_text out = {0};
+    nostr_json_add_raw(&out, "{");
     if (payment_hash) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "\"payment_hash\":\"%s\"", payment_hash);
+        nostr_json_add_raw(&out, "\"payment_hash\":");
+        nostr_json_add_string(&out, payment_hash);
     }
-    
     if (invoice) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "%s\"invoice\":\"%s\"", 
-                       payment_hash ? "," : "", invoice);
+        nostr_json_add_raw(&out, payment_hash ? ",\"invoice\":" : "\"invoice\":");
+        nostr_json_add_string(&out, invoice);
     }
-    
-    snprintf(buffer + pos, sizeof(buffer) - pos, "}");
-    
-    *params_json = strdup(buffer);
+    nostr_json_add_raw(&out, "}");
+
+    *params_json = nostr_json_take(&out);
     if (!*params_json) {
         return NOSTR_ERR_MEMORY;
     }
@@ -242,36 +240,34 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
         return NOSTR_ERR_MEMORY;
     }
 #else
-    char buffer[8192];
-    int pos = snprintf(buffer, sizeof(buffer), 
-                      "{\"amount\":%llu,\"pubkey\":\"%s\"",
-                      (unsigned long long)amount_msats, pubkey);
-    
+    nostr_json_text out = {0};
+    nostr_json_add_raw(&out, "{\"amount\":");
+    nostr_json_add_uint(&out, amount_msats);
+    nostr_json_add_raw(&out, ",\"pubkey\":");
+    nostr_json_add_string(&out, pubkey);
     if (preimage) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, 
-                       ",\"preimage\":\"%s\"", preimage);
+        nostr_json_add_raw(&out, ",\"preimage\":");
+        nostr_json_add_string(&out, preimage);
     }
-    
     if (tlv_records && tlv_count > 0) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, ",\"tlv_records\":[");
-        
-        for (size_t i = 0; i < tlv_count; i += 2) {
-            if (i + 1 < tlv_count) {
-                if (i > 0) {
-                    pos += snprintf(buffer + pos, sizeof(buffer) - pos, ",");
-                }
-                pos += snprintf(buffer + pos, sizeof(buffer) - pos, 
-                               "{\"type\":%s,\"value\":\"%s\"}", 
-                               tlv_records[i], tlv_records[i + 1]);
+        nostr_json_add_raw(&out, ",\"tlv_records\":[");
+        for (size_t i = 0; i + 1 < tlv_count; i += 2) {
+            uint64_t type_val;
+            if (!read_tlv_type(tlv_records[i], &type_val)) {
+                free(out.text);
+                return NOSTR_ERR_INVALID_PARAM;
             }
+            nostr_json_add_raw(&out, i > 0 ? ",{\"type\":" : "{\"type\":");
+            nostr_json_add_uint(&out, type_val);
+            nostr_json_add_raw(&out, ",\"value\":");
+            nostr_json_add_string(&out, tlv_records[i + 1]);
+            nostr_json_add_raw(&out, "}");
         }
-        
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "]");
+        nostr_json_add_raw(&out, "]");
     }
-    
-    snprintf(buffer + pos, sizeof(buffer) - pos, "}");
-    
-    *params_json = strdup(buffer);
+    nostr_json_add_raw(&out, "}");
+
+    *params_json = nostr_json_take(&out);
     if (!*params_json) {
         return NOSTR_ERR_MEMORY;
     }
@@ -330,35 +326,26 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
         return NOSTR_ERR_MEMORY;
     }
 #else
-    char buffer[16384];
-    int pos = snprintf(buffer, sizeof(buffer), "{\"invoices\":[");
-    
+    nostr_json_text out = {0};
+    nostr_json_add_raw(&out, "{\"invoices\":[");
     for (size_t i = 0; i < count; i++) {
-        if (i > 0) {
-            pos += snprintf(buffer + pos, sizeof(buffer) - pos, ",");
-        }
-        
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "{");
-        
+        nostr_json_add_raw(&out, i > 0 ? ",{" : "{");
         if (invoice_ids && invoice_ids[i]) {
-            pos += snprintf(buffer + pos, sizeof(buffer) - pos, 
-                           "\"id\":\"%s\",", invoice_ids[i]);
+            nostr_json_add_raw(&out, "\"id\":");
+            nostr_json_add_string(&out, invoice_ids[i]);
+            nostr_json_add_raw(&out, ",");
         }
-        
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, 
-                       "\"invoice\":\"%s\"", invoices[i]);
-        
+        nostr_json_add_raw(&out, "\"invoice\":");
+        nostr_json_add_string(&out, invoices[i]);
         if (amounts && amounts[i] > 0) {
-            pos += snprintf(buffer + pos, sizeof(buffer) - pos, 
-                           ",\"amount\":%llu", (unsigned long long)amounts[i]);
+            nostr_json_add_raw(&out, ",\"amount\":");
+            nostr_json_add_uint(&out, amounts[i]);
         }
-        
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "}");
+        nostr_json_add_raw(&out, "}");
     }
-    
-    snprintf(buffer + pos, sizeof(buffer) - pos, "]}");
-    
-    *params_json = strdup(buffer);
+    nostr_json_add_raw(&out, "]}");
+
+    *params_json = nostr_json_take(&out);
     if (!*params_json) {
         return NOSTR_ERR_MEMORY;
     }
-- 
2.43.0


From 4d5a3e9f3e604f96d9f6e34caf107a4e663d0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:49 +0000
Subject: [PATCH 106/109] fix: without cJSON, wallet answers are read and not
 made up

---
 src/json_internal.h  | 181 +++++++++++++++++++++++++++++++++++++++++++
 src/nip47.c          |  36 +++++++--
 src/nip47_commands.c | 116 +++++++++++++++++++--------
 3 files changed, 294 insertions(+), 39 deletions(-)

diff --git a/src/json_internal.h b/src/json_internal.h
index 2e66944..ec18098 100644
--- a/src/json_internal.h
+++ b/src/json_internal.h
@@ -105,6 +105,187 @@ static inline char* nostr_json_take(nostr_json_text* out)
     }
     return out->text;
 }
+
+static inline const char* nostr_json_space(const char* p)
+{
+    while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++;
+    return p;
+}
+
+static inline bool nostr_json_is_digit(char c)
+{
+    return c >= '0' && c <= '9';
+}
+
+static inline bool nostr_json_hex4(const char* p, unsigned* out)
+{
+    *out = 0;
+    for (int i = 0; i < 4; i++) {
+        char c = p[i];
+        unsigned v;
+        if (c >= '0' && c <= '9') v = (unsigned)(c - '0');
+        else if (c >= 'a' && c <= 'f') v = (unsigned)(c - 'a') + 10;
+        else if (c >= 'A' && c <= 'F') v = (unsigned)(c - 'A') + 10;
+        else return false;
+        *out = *out * 16 + v;
+    }
+    return true;
+}
+
+/* Reads the string at p, into out unless that is NULL (it needs at most as many
+ * bytes as the JSON text); returns what follows it, or NULL if it is no string
+ * or holds a NUL. */
+static inline const char* nostr_json_read_string(const char* p, char* out)
+{
+    if (*p++ != '"') return NULL;
+    while (*p != '"') {
+        unsigned char bytes[4];
+        int count = 1;
+        if ((unsigned char)*p < 0x20) return NULL;
+        bytes[0] = (unsigned char)*p++;
+        if (bytes[0] == '\\') {
+            unsigned u, low;
+            switch (*p++) {
+                case '"': bytes[0] = '"'; break;
+                case '\\': bytes[0] = '\\'; break;
+                case '/': bytes[0] = '/'; break;
+                case 'b': bytes[0] = '\b'; break;
+                case 'f': bytes[0] = '\f'; break;
+                case 'n': bytes[0] = '\n'; break;
+                case 'r': bytes[0] = '\r'; break;
+                case 't': bytes[0] = '\t'; break;
+                case 'u':
+                    if (!nostr_json_hex4(p, &u) || u == 0 || (u >= 0xdc00 && u < 0xe000)) return NULL;
+                    p += 4;
+                    if (u >= 0xd800 && u < 0xdc00) {
+                        if (p[0] != '\\' || p[1] != 'u' || !nostr_json_hex4(p + 2, &low) ||
+                            low < 0xdc00 || low >= 0xe000) return NULL;
+                        p += 6;
+                        u = 0x10000 + ((u - 0xd800) << 10) + (low - 0xdc00);
+                    }
+                    if (u < 0x80) {
+                        bytes[0] = (unsigned char)u;
+                    } else {
+                        count = u < 0x800 ? 2 : u < 0x10000 ? 3 : 4;
+                        for (int i = count - 1; i > 0; i--) {
+                            bytes[i] = (unsigned char)(0x80 | (u & 0x3f));
+                            u >>= 6;
+                        }
+                        bytes[0] = (unsigned char)((count == 2 ? 0xc0 : count == 3 ? 0xe0 : 0xf0) | u);
+                    }
+                    break;
+                default: return NULL;
+            }
+        }
+        if (out) {
+            memcpy(out, bytes, (size_t)count);
+            out += count;
+        }
+    }
+    if (out) *out = '\0';
+    return p + 1;
+}
+
+/* Returns what follows the value at p, or NULL if it is no JSON value */
+static inline const char* nostr_json_skip(const char* p, int depth)
+{
+    p = nostr_json_space(p);
+    if (*p == '"') return nostr_json_read_string(p, NULL);
+    if (*p == '{' || *p == '[') {
+        char end = *p == '{' ? '}' : ']';
+        if (depth <= 0) return NULL;
+        p = nostr_json_space(p + 1);
+        if (*p == end) return p + 1;
+        for (;;) {
+            if (end == '}') {
+                p = nostr_json_read_string(nostr_json_space(p), NULL);
+                if (!p) return NULL;
+                p = nostr_json_space(p);
+                if (*p++ != ':') return NULL;
+            }
+            p = nostr_json_skip(p, depth - 1);
+            if (!p) return NULL;
+            p = nostr_json_space(p);
+            if (*p == end) return p + 1;
+            if (*p++ != ',') return NULL;
+        }
+    }
+    if (*p == '-' || nostr_json_is_digit(*p)) {
+        if (*p == '-') p++;
+        if (!nostr_json_is_digit(*p)) return NULL;
+        if (*p == '0') p++; else while (nostr_json_is_digit(*p)) p++;
+        if (*p == '.') {
+            if (!nostr_json_is_digit(*++p)) return NULL;
+            while (nostr_json_is_digit(*p)) p++;
+        }
+        if (*p == 'e' || *p == 'E') {
+            p++;
+            if (*p == '+' || *p == '-') p++;
+            if (!nostr_json_is_digit(*p)) return NULL;
+            while (nostr_json_is_digit(*p)) p++;
+        }
+        return p;
+    }
+    if (!strncmp(p, "true", 4) || !strncmp(p, "null", 4)) return p + 4;
+    if (!strncmp(p, "false", 5)) return p + 5;
+    return NULL;
+}
+
+/* Is the text one JSON value? */
+static inline bool nostr_json_whole(const char* text)
+{
+    const char* end = nostr_json_skip(text, 1000);
+    return end && !*nostr_json_space(end);
+}
+
+/* Finds the value of a member of an object that is valid JSON */
+static inline const char* nostr_json_find(const char* object, const char* name)
+{
+    size_t len = strlen(name);
+    const char* p = object ? nostr_json_space(object) : "";
+    if (*p != '{') return NULL;
+    p = nostr_json_space(p + 1);
+    while (*p == '"') {
+        bool found = !strncmp(p + 1, name, len) && p[len + 1] == '"';
+        p = nostr_json_space(nostr_json_space(nostr_json_read_string(p, NULL)) + 1);
+        if (found) return p;
+        p = nostr_json_space(nostr_json_skip(p, 1000));
+        if (*p == ',') p = nostr_json_space(p + 1);
+    }
+    return NULL;
+}
+
+/* Copies a string, or any other value as the JSON text it is; a missing value is
+ * none. Returns false if memory was short. */
+static inline bool nostr_json_copy(const char* value, bool as_string, char** out)
+{
+    if (!out) return true;
+    *out = NULL;
+    if (!value || (as_string && *value != '"')) return true;
+    size_t len = (size_t)(nostr_json_skip(value, 1000) - value);
+    *out = malloc(len + 1);
+    if (!*out) return false;
+    if (as_string) {
+        nostr_json_read_string(value, *out);
+    } else {
+        memcpy(*out, value, len);
+        (*out)[len] = '\0';
+    }
+    return true;
+}
+
+/* Reads a whole amount of at most max, written in digits */
+static inline bool nostr_json_amount(const char* value, unsigned long long max, unsigned long long* out)
+{
+    *out = 0;
+    if (!nostr_json_is_digit(*value)) return false;
+    for (; nostr_json_is_digit(*value); value++) {
+        unsigned digit = (unsigned)(*value - '0');
+        if (*out > (max - digit) / 10) return false;
+        *out = *out * 10 + digit;
+    }
+    return *value != '.' && *value != 'e' && *value != 'E';
+}
 #endif
 
 #endif
diff --git a/src/nip47.c b/src/nip47.c
index 36c2620..18d4a06 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -456,7 +456,7 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
         cJSON_Delete(params_parsed);
     }
 #else
-    if (params_json[0] != '{' && params_json[0] != '[') {
+    if (!nostr_json_whole(params_json)) {
         nostr_event_destroy(*event);
         *event = NULL;
         return NOSTR_ERR_INVALID_PARAM;
@@ -554,6 +554,8 @@ static int print_item(const cJSON* object, const char* name, char** out)
     return *out != NULL;
 }
 
+#endif
+
 static void free_text(char** text)
 {
     if (text) {
@@ -561,7 +563,6 @@ static void free_text(char** text)
         *text = NULL;
     }
 }
-#endif
 
 nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const nostr_privkey* client_secret,
                                                char** result_type, char** result_json, 
@@ -604,8 +605,22 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
 
     cJSON_Delete(root);
 #else
-    if (result_type) *result_type = strdup("unknown");
-    if (result_json) *result_json = strdup("{}");
+    if (nostr_json_has_nul(decrypted, decrypted_len) || !nostr_json_whole(decrypted)) {
+        free(decrypted);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
+    const char* error_obj = nostr_json_find(decrypted, "error");
+    if (!nostr_json_copy(nostr_json_find(decrypted, "result_type"), true, result_type) ||
+        !nostr_json_copy(nostr_json_find(decrypted, "result"), false, result_json) ||
+        !nostr_json_copy(nostr_json_find(error_obj, "code"), true, error_code) ||
+        !nostr_json_copy(nostr_json_find(error_obj, "message"), true, error_message)) {
+        free_text(result_type);
+        free_text(result_json);
+        free_text(error_code);
+        free_text(error_message);
+        err = NOSTR_ERR_MEMORY;
+    }
 #endif
     
     free(decrypted);
@@ -777,8 +792,17 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
 
     cJSON_Delete(root);
 #else
-    if (notification_type) *notification_type = strdup("unknown");
-    if (notification_json) *notification_json = strdup("{}");
+    if (nostr_json_has_nul(decrypted, decrypted_len) || !nostr_json_whole(decrypted)) {
+        free(decrypted);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
+    if (!nostr_json_copy(nostr_json_find(decrypted, "notification_type"), true, notification_type) ||
+        !nostr_json_copy(nostr_json_find(decrypted, "notification"), false, notification_json)) {
+        free_text(notification_type);
+        free_text(notification_json);
+        err = NOSTR_ERR_MEMORY;
+    }
 #endif
     
     free(decrypted);
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 88cdbf6..c5dcde7 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -380,9 +380,10 @@ static int read_amount(const cJSON* item, double max, uint64_t* out)
     return 1;
 }
 
-#define AMOUNT_MAX 9007199254740992.0
 #endif
 
+#define AMOUNT_MAX 9007199254740992.0
+
 nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64_t* balance_msats)
 {
     if (!result_json || !balance_msats) {
@@ -402,14 +403,12 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
     
     cJSON_Delete(root);
 #else
-    const char* balance_str = strstr(result_json, "\"balance\":");
-    if (!balance_str) {
+    unsigned long long balance = 0;
+    const char* value = nostr_json_whole(result_json) ? nostr_json_find(result_json, "balance") : NULL;
+    if (!value || !nostr_json_amount(value, (unsigned long long)AMOUNT_MAX, &balance)) {
         return NOSTR_ERR_INVALID_PARAM;
     }
-    
-    balance_str += 10;
-    char* end;
-    *balance_msats = strtoull(balance_str, &end, 10);
+    *balance_msats = balance;
 #endif
     
     return NOSTR_OK;
@@ -451,30 +450,24 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
     
     cJSON_Delete(root);
 #else
-    if (preimage) {
-        const char* preim_str = strstr(result_json, "\"preimage\":\"");
-        if (preim_str) {
-            preim_str += 12;
-            const char* end = strchr(preim_str, '"');
-            if (end) {
-                size_t len = end - preim_str;
-                *preimage = malloc(len + 1);
-                if (*preimage) {
-                    memcpy(*preimage, preim_str, len);
-                    (*preimage)[len] = 0;
-                }
-            }
-        }
+    if (!nostr_json_whole(result_json)) {
+        return NOSTR_ERR_INVALID_PARAM;
     }
-    
+
     if (fees_paid) {
-        const char* fees_str = strstr(result_json, "\"fees_paid\":");
-        if (fees_str) {
-            fees_str += 12;
-            char* end;
-            *fees_paid = strtoull(fees_str, &end, 10);
+        unsigned long long amount = 0;
+        const char* fees = nostr_json_find(result_json, "fees_paid");
+        if (fees && (*fees == '-' || nostr_json_is_digit(*fees))) {
+            if (!nostr_json_amount(fees, (unsigned long long)AMOUNT_MAX, &amount)) {
+                return NOSTR_ERR_INVALID_PARAM;
+            }
+            *fees_paid = amount;
         }
     }
+
+    if (!nostr_json_copy(nostr_json_find(result_json, "preimage"), true, preimage)) {
+        return NOSTR_ERR_MEMORY;
+    }
 #endif
     
     return NOSTR_OK;
@@ -564,14 +557,71 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
     
     cJSON_Delete(root);
 #else
-    if (alias) *alias = strdup("wallet");
-    if (color) *color = strdup("#000000");
-    if (pubkey) *pubkey = strdup("0000000000000000000000000000000000000000000000000000000000000000");
-    if (network) *network = strdup("mainnet");
-    if (block_height) *block_height = 800000;
+    if (!nostr_json_whole(result_json)) {
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
+    if (block_height) {
+        unsigned long long height = 0;
+        const char* value = nostr_json_find(result_json, "block_height");
+        if (value && (*value == '-' || nostr_json_is_digit(*value))) {
+            if (!nostr_json_amount(value, UINT32_MAX, &height)) {
+                return NOSTR_ERR_INVALID_PARAM;
+            }
+            *block_height = (uint32_t)height;
+        }
+    }
+
+    char** texts[] = { alias, color, pubkey, network };
+    const char* names[] = { "alias", "color", "pubkey", "network" };
+    size_t texts_count = sizeof(texts) / sizeof(texts[0]);
+    bool complete = true;
+    for (size_t i = 0; i < texts_count; i++) {
+        if (!nostr_json_copy(complete ? nostr_json_find(result_json, names[i]) : NULL, true, texts[i])) {
+            complete = false;
+        }
+    }
+
     if (methods && method_count) {
-        *method_count = 0;
         *methods = NULL;
+        *method_count = 0;
+        const char* p = nostr_json_find(result_json, "methods");
+        size_t size = 0;
+        if (p && *p == '[') {
+            p = nostr_json_space(p + 1);
+            for (const char* q = p; *q != ']'; size++) {
+                q = nostr_json_space(nostr_json_skip(q, 1000));
+                if (*q == ',') q = nostr_json_space(q + 1);
+            }
+        }
+        if (complete && size > 0) {
+            *methods = calloc(size, sizeof(char*));
+            complete = *methods != NULL;
+        }
+        for (; complete && size > 0; size--) {
+            char* method = NULL;
+            complete = nostr_json_copy(p, true, &method);
+            if (method) (*methods)[(*method_count)++] = method;
+            p = nostr_json_space(nostr_json_skip(p, 1000));
+            if (*p == ',') p = nostr_json_space(p + 1);
+        }
+    }
+
+    if (!complete) {
+        for (size_t i = 0; i < texts_count; i++) {
+            if (!texts[i]) continue;
+            free(*texts[i]);
+            *texts[i] = NULL;
+        }
+        if (methods && method_count) {
+            for (size_t i = 0; i < *method_count; i++) {
+                free((*methods)[i]);
+            }
+            free(*methods);
+            *methods = NULL;
+            *method_count = 0;
+        }
+        return NOSTR_ERR_MEMORY;
     }
 #endif
     
-- 
2.43.0


From 221f8074e7fa4f945a6444dd89a09c3c286ace06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:58 +0000
Subject: [PATCH 107/109] fix: a tab between relay messages does not drop the
 next one

---
 src/relay.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index ca186b3..adbe9bb 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -695,7 +695,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                 char* start = ctx->receive_buffer;
                 char* end;
 
-                while (*start == '\n' || *start == '\r' || *start == ' ') start++;
+                while (*start == '\n' || *start == '\r' || *start == '\t' || *start == ' ') start++;
 
                 while (*start == '[' && (end = find_json_array_end(start)) != NULL) {
                     char saved = *end;
@@ -763,7 +763,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                     *end = saved;
 
                     start = end;
-                    while (*start && (*start == '\n' || *start == '\r' || *start == ' ')) start++;
+                    while (*start && (*start == '\n' || *start == '\r' || *start == '\t' || *start == ' ')) start++;
                 }
                 
                 /* An incomplete message never continues in the next one */
-- 
2.43.0


From d5fa447f8a4c91be5a4a4dbdceaeb5046f921cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:57 +0000
Subject: [PATCH 108/109] fix: an e or p tag whose value is no id is not read
 as one

Reading a reply, repost or reaction reported whatever stood in the tag, and
NIP-10 cut a longer text to 64 characters that looked like an id.
---
 src/nip10.c | 14 +++++++++++++-
 src/nip18.c |  4 ++--
 src/nip25.c |  4 ++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/nip10.c b/src/nip10.c
index 0f36408..4aed09b 100644
--- a/src/nip10.c
+++ b/src/nip10.c
@@ -2,6 +2,7 @@
 
 #ifdef NOSTR_FEATURE_NIP10
 
+#include <ctype.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -25,13 +26,24 @@ static void copy_bounded(char* dest, const char* src, size_t max_len)
     dest[len] = '\0';
 }
 
+static int is_event_id(const char* id)
+{
+    if (!id)
+        return 0;
+    for (size_t i = 0; i < 64; i++) {
+        if (!isxdigit((unsigned char)id[i]))
+            return 0;
+    }
+    return id[64] == '\0';
+}
+
 static int parse_e_tag(const nostr_tag* tag, e_tag_info* info)
 {
     if (!tag || !info || tag->count < 2 || !tag->values[0] || strcmp(tag->values[0], "e") != 0) {
         return 0;
     }
 
-    if (!tag->values[1]) {
+    if (!is_event_id(tag->values[1])) {
         return 0;
     }
 
diff --git a/src/nip18.c b/src/nip18.c
index 5782758..59843a7 100644
--- a/src/nip18.c
+++ b/src/nip18.c
@@ -141,11 +141,11 @@ nostr_error_t nostr_repost_parse(const nostr_event* event, char* reposted_event_
         const char* name = tag->values[0];
         const char* value = tag->values[1];
 
-        if (strcmp(name, "e") == 0) {
+        if (strcmp(name, "e") == 0 && is_valid_hex_string(value, 64)) {
             found_e_id = value;
             if (tag->count >= 3 && tag->values[2])
                 found_relay = tag->values[2];
-        } else if (strcmp(name, "p") == 0) {
+        } else if (strcmp(name, "p") == 0 && is_valid_hex_string(value, 64)) {
             found_p_key = value;
         } else if (strcmp(name, "k") == 0) {
             char* endptr;
diff --git a/src/nip25.c b/src/nip25.c
index cdfce51..2f9d8ce 100644
--- a/src/nip25.c
+++ b/src/nip25.c
@@ -125,9 +125,9 @@ nostr_error_t nostr_reaction_parse(const nostr_event* event, char* reaction_cont
         const char* name = tag->values[0];
         const char* value = tag->values[1];
 
-        if (strcmp(name, "e") == 0) {
+        if (strcmp(name, "e") == 0 && is_valid_hex_string(value, 64)) {
             last_e_id = value;
-        } else if (strcmp(name, "p") == 0) {
+        } else if (strcmp(name, "p") == 0 && is_valid_hex_string(value, 64)) {
             last_p_key = value;
         } else if (strcmp(name, "k") == 0 && target_kind) {
             char* endptr;
-- 
2.43.0


From fdea9772a7bfc4efef0091d1599593f49b8ff8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:33 +0000
Subject: [PATCH 109/109] fix: a NIP-05 answer that was cut short confirms
 nothing

The name was found in whatever part of the document had arrived.
---
 src/nip05.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/nip05.c b/src/nip05.c
index f716577..ec7c548 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -96,6 +96,26 @@ static const char* json_find_member(const char* obj, const char* key) {
     return NULL;
 }
 
+/* An answer that was cut short, or goes on after its object, says nothing */
+static int is_whole_object(const char* json) {
+    if (*json != '{') return 0;
+
+    int depth = 0;
+
+    for (const char* p = json; *p; p++) {
+        if (*p == '{' || *p == '[') {
+            depth++;
+        } else if (*p == '}' || *p == ']') {
+            if (--depth == 0) return *skip_ws(p + 1) == '\0';
+        } else if (*p == '"') {
+            const char* start = ++p;
+            while (*p && (*p != '"' || is_escaped_quote(start, p))) p++;
+            if (!*p) return 0;
+        }
+    }
+    return 0;
+}
+
 /* Copies a relay URL without its JSON escapes; returns 0 if it has others than \/ \" and \\ */
 static int unescape_relay_url(char* dest, const char* url, size_t len) {
     for (size_t i = 0; i < len; i++) {
@@ -196,6 +216,8 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
     }
 
     json = skip_ws(json);
+    if (!is_whole_object(json)) return NOSTR_ERR_JSON_PARSE;
+
     const char* names_pos = json_find_member(json, "\"names\"");
     if (!names_pos) return NOSTR_ERR_NOT_FOUND;
     if (*names_pos != '{') return NOSTR_ERR_JSON_PARSE;
-- 
2.43.0

