From 20f11c395a96769516ce12f736a8d55ded0c9b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 01/48] fix: store the accepted subscriber's address and port
 in host byte order

rmc_conn_process_accept() stored the peer address in network byte order and
did not store the port, so subscriber_connect_cb and subscriber_disconnect_cb
were called with a wrong address and port 0.
---
 rmc_connection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 73730e2..9a2d4ac 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -373,7 +373,8 @@ int rmc_conn_process_accept(int listen_descriptor,
     }
 
     conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTED;
-    conn_vec->connections[c_ind].remote_address = src_addr.sin_addr.s_addr;
+    conn_vec->connections[c_ind].remote_address = ntohl(src_addr.sin_addr.s_addr);
+    conn_vec->connections[c_ind].remote_port = ntohs(src_addr.sin_port);
 
     conn_vec->connections[c_ind].action = RMC_POLLREAD;
     if (conn_vec->poll_add)
-- 
2.43.0


From 406f292b8487672aa88301a5a9addf0f8a0a5c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 02/48] fix: circ_buf_trim() of a wrapped buffer with
 target_len below stop_ind

With the data wrapped and stop_ind > target_len, stop_ind - (in_use -
target_len) underflows and the buffer is corrupted. The new end is always
start_ind + target_len modulo the size.
---
 circular_buffer.c | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index ad0585a..321dd4e 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -108,23 +108,7 @@ void circ_buf_trim(circ_buf_t* circ_buf, uint32_t target_len)
     if (in_use <= target_len)
         return;
 
-    // target_len: 1
-    // Before
-    // Index:     [0][1][2][3][4]
-    // Data:       A  B  C  D  -
-    // Start/stop  S           s
-    //
-    // After
-    // Index:     [0][1][2][3][4]
-    // Data:       A  B  -  -  -
-    // Start/stop  S  s
-    //
-    if (circ_buf->stop_ind > target_len) {
-        circ_buf->stop_ind -= in_use - target_len;
-        return;
-    }
-
-    // We need to wrap stop_ind back to the end of the buffer.
+    // We may need to wrap stop_ind back to the end of the buffer.
     //
     // target_len: 1
     // Before
-- 
2.43.0


From 20a2bc14cf24a2c6697e959d0c997b8fce3ff4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 03/48] fix: circ_buf_alloc() left stop_ind outside the buffer

An allocation that ended at the last byte of the buffer set stop_ind to size,
so that a completely emptied start_ind could pass it and the next allocation
returned a zero length first segment beyond the buffer.
---
 circular_buffer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index 321dd4e..e0a7b3a 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -77,7 +77,8 @@ int circ_buf_alloc(circ_buf_t* circ_buf,
         *segment1_len = len;
         *segment2 = 0;
         *segment2_len = 0;
-        circ_buf->stop_ind += len;
+        // Wrap if the allocation ended at the very last byte of the buffer.
+        circ_buf->stop_ind = (circ_buf->stop_ind + len) % buf_size;
         return 0;
     }
 
-- 
2.43.0


From 267957865c655de0b5bfabcf1d6ea3e994d2a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 04/48] fix: circ_buf_read_offset() copied the wrapped part
 from a wrong position

start_ind already includes the offset, so once the read wraps the remaining
bytes start at the beginning of the buffer. With an offset larger than the
first segment the wrong bytes were returned.
---
 circular_buffer.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index e0a7b3a..821fd6f 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -221,14 +221,9 @@ int circ_buf_read_offset(circ_buf_t* circ_buf,
     // 0 to either stop_ind (last data byte) or the number of bytes left
     // wanted by the caller, whichever is smaller.
     len -= segment_len;
-    if (offset > segment_len)
-        offset -= segment_len;
-    else
-        offset = 0;
-
     segment_len = RMC_MIN(len, circ_buf->stop_ind);
 
-    memcpy(target + copied_bytes, circ_buf->buffer + offset, segment_len);
+    memcpy(target + copied_bytes, circ_buf->buffer, segment_len);
 
     copied_bytes += segment_len;
 
-- 
2.43.0


From 97b1e94b0b6ca56bca4a7712334c820037195639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 05/48] fix: initialise subscriber_control_message_cb in
 rmc_pub_init_context()

The context is allocated with malloc(), so a publisher that never set the
callback jumped to whatever the memory held when a control message arrived.
---
 rmc_pub_context.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 4c77812..775fbba 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -127,8 +127,7 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
 
     ctx->subscriber_connect_cb = 0;
     ctx->subscriber_disconnect_cb = 0;
-
-    ctx->subscriber_connect_cb = 0;
+    ctx->subscriber_control_message_cb = 0;
 
     ctx->announce_cb = 0;
     ctx->announce_send_interval = 0;
-- 
2.43.0


From 46998835d0a0f9496cf11b4a49c2921190a9286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 06/48] fix: hand the context's user data to the publisher's
 payload_free callback

rmc_pub_queue_packet() stored a nil user data with every packet, so the
user_data argument of payload_free was always nil.
---
 rmc_pub_packet.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 98ae2a1..f5337c9 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -42,9 +42,9 @@ int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
     // If this is an announcement, force PID to 0.
     // If this is a regular packet, let pub.c figure out the next PID to use.
     if (announce_flag)
-        pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
+        pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, ctx->user_data);
     else
-        pub_queue_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
+        pub_queue_packet(&ctx->pub_ctx, payload, payload_len, ctx->user_data);
 
     if (ctx->conn_vec.poll_modify)  {
         // Did we already have a packet pending for send prior
-- 
2.43.0


From 52ff3b8f24f8899d27b32fbec73b7b59b0498b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 07/48] fix: announcements were sent from a dead stack buffer
 and leaked

rmc_pub_timeout_process() queued a pointer to its local buffer, which was gone
when the announcement was sent later on: subscribers got garbage as payload.
Queue a copy instead. A sent announcement was only unlinked from the queue, so
its packet, list node and payload leaked. Release it once it has been sent.
---
 pub.c             | 43 +++++++++++++++++++++++++++++++++++++++++++
 rmc_internal.h    |  2 ++
 rmc_pub.h         | 13 +++++++++++++
 rmc_pub_packet.c  | 31 +++++++++++++++++++++++++++++++
 rmc_pub_timeout.c |  3 ++-
 rmc_pub_write.c   |  6 +++++-
 6 files changed, 96 insertions(+), 2 deletions(-)

diff --git a/pub.c b/pub.c
index b483f18..9745328 100644
--- a/pub.c
+++ b/pub.c
@@ -165,6 +165,30 @@ packet_id_t pub_queue_no_acknowledge_packet(pub_context_t* ctx,
 
 }
 
+packet_id_t pub_queue_no_acknowledge_packet_copy(pub_context_t* ctx,
+                                                 void* payload,
+                                                 payload_len_t payload_len)
+{
+    pub_packet_t* ppack = (pub_packet_t*) malloc(sizeof(pub_packet_t) + payload_len);
+
+    assert(ctx);
+    assert(payload);
+    assert(ppack);
+
+    // The payload is stored right after the packet and is freed with it.
+    memcpy(ppack + 1, payload, payload_len);
+    ppack->pid = 0;
+    ppack->payload = ppack + 1;
+    ppack->payload_len = payload_len;
+    ppack->ref_count = 0;
+    ppack->send_ts = 0;
+    ppack->pkg_user_data = user_data_nil();
+    ppack->parent_node =
+        pub_packet_list_insert_sorted(&ctx->queued, ppack, _compare_pid, 0);
+
+    return ppack->pid;
+}
+
 extern uint32_t pub_queue_size(pub_context_t* ctx)
 {
     assert(ctx);
@@ -233,6 +257,25 @@ void pub_packet_sent(pub_context_t* ctx,
 }
 
 
+void pub_packet_release(pub_packet_t* pack,
+                        void (*pub_payload_free)(void* payload,
+                                                 payload_len_t payload_len,
+                                                 user_data_t user_data))
+{
+    assert(pack);
+
+    pub_packet_list_delete(pack->parent_node);
+
+    // A payload stored with the packet itself is freed with it.
+    if (pub_payload_free && pack->payload != (void*) (pack + 1))
+        (*pub_payload_free)(pack->payload,
+                            pack->payload_len,
+                            pack->pkg_user_data);
+
+    _free_pending_packet(pack);
+}
+
+
 void pub_packet_ack(pub_subscriber_t* sub,
                     packet_id_t pid,
                     void (*pub_payload_free)(void* payload,
diff --git a/rmc_internal.h b/rmc_internal.h
index 8068eaa..535c327 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -380,6 +380,8 @@ typedef struct rmc_conn_command_dispatch {
 
 
 
+extern int rmc_pub_queue_announce(struct rmc_pub_context* ctx, void* payload, payload_len_t payload_len);
+extern void rmc_pub_packet_release(struct rmc_pub_context* ctx, pub_packet_t* pack);
 extern int rmc_pub_packet_ack(struct rmc_pub_context* ctx, struct rmc_connection* conn, packet_id_t pid);
 
 
diff --git a/rmc_pub.h b/rmc_pub.h
index 4fbc496..5d9f42b 100644
--- a/rmc_pub.h
+++ b/rmc_pub.h
@@ -128,6 +128,12 @@ extern packet_id_t pub_queue_no_acknowledge_packet(pub_context_t* ctx,
                                                    payload_len_t payload_len,
                                                    user_data_t pkg_user_data);
 
+// Used to send out pid=0 announcement packets with a payload that is
+// copied into memory owned by the packet itself.
+extern packet_id_t pub_queue_no_acknowledge_packet_copy(pub_context_t* ctx,
+                                                        void* payload,
+                                                        payload_len_t payload_len);
+
 extern uint32_t pub_queue_size(pub_context_t* ctx);
 
 extern pub_packet_t* pub_next_queued_packet(pub_context_t* ctx);
@@ -136,6 +142,13 @@ extern void pub_packet_sent(pub_context_t* ctx,
                             pub_packet_t* ppack,
                             usec_timestamp_t send_ts);
 
+// Take a packet that nobody needs any longer off the queued or inflight list
+// that it is on and free it together with its payload.
+extern void pub_packet_release(pub_packet_t* ppack,
+                               void (*pub_payload_free)(void* payload,
+                                                        payload_len_t payload_len,
+                                                        user_data_t user_data));
+
 extern void pub_packet_ack(pub_subscriber_t* sub,
                            packet_id_t pid,
                            // Called if this was the last subscriber acking the packet
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index f5337c9..49c720f 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -92,6 +92,37 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
     free(payload);
 }
 
+// Release a packet that no subscriber needs to acknowledge.
+void rmc_pub_packet_release(rmc_pub_context_t* ctx, pub_packet_t* pack)
+{
+    pub_packet_release(pack, ctx->payload_free?ctx->payload_free:_payload_free_generic);
+}
+
+
+// Queue an announcement packet with a copy of payload.
+int rmc_pub_queue_announce(rmc_pub_context_t* ctx,
+                           void* payload,
+                           payload_len_t payload_len)
+{
+    pub_packet_t *pack = 0;
+
+    // Same as for all other packets in rmc_pub_queue_packet()
+    if (rmc_pub_traffic_suspended(ctx) == EBUSY)
+        return EBUSY;
+
+    pack = pub_next_queued_packet(&ctx->pub_ctx);
+    pub_queue_no_acknowledge_packet_copy(&ctx->pub_ctx, payload, payload_len);
+
+    if (ctx->conn_vec.poll_modify)
+        (*ctx->conn_vec.poll_modify)(ctx->user_data,
+                                     ctx->mcast_send_descriptor,
+                                     RMC_MULTICAST_INDEX,
+                                     (pack?RMC_POLLWRITE:0),
+                                     RMC_POLLWRITE);
+    return 0;
+}
+
+
 int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id_t pid)
 {
     pub_packet_ack(&ctx->subscribers[conn->connection_index],
diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index da3fd1e..10f9a19 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -146,7 +146,8 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
 
         if (send_announce) {
             RMC_LOG_DEBUG("Sending announce");
-            rmc_pub_queue_packet(ctx, buffer, len, 1);
+            // The buffer is gone when the packet is sent, queue a copy.
+            rmc_pub_queue_announce(ctx, buffer, len);
         }
 
         // Setup next announce.
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index c16e524..12402ba 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -104,7 +104,11 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
         goto rearm;
     }
 
-    pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
+    // Announcements are not acknowledged. We are done with them.
+    if (!pack->pid)
+        rmc_pub_packet_release(ctx, pack);
+    else
+        pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
     res = 0;
 rearm:
-- 
2.43.0


From 6863ff3234710a361436a2a5468c007056ce7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 08/48] fix: release packets that were sent while there were no
 subscribers

A packet sent without any subscriber stayed in the inflight list for ever
since no acknowledgement ever drops its reference count to zero: its payload
leaked and the count of unacknowledged packets that drives traffic suspension
never went down again.
---
 rmc_pub_write.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 12402ba..4976225 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -107,9 +107,14 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
     // Announcements are not acknowledged. We are done with them.
     if (!pack->pid)
         rmc_pub_packet_release(ctx, pack);
-    else
+    else {
         pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
+        // Nobody will acknowledge the packet if there are no subscribers.
+        if (!pack->ref_count)
+            rmc_pub_packet_release(ctx, pack);
+    }
+
     res = 0;
 rearm:
     if (ctx->conn_vec.poll_modify) {
-- 
2.43.0


From 047062b23350d71d7f0cfca42240a416e90e5be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 09/48] fix: pub_get_timed_out_packets() missed timed out
 packets behind newer ones

The inflight list is sorted on descending pid, but it was scanned from its
head, that is from the newest packet, until one was found that had not timed
out yet. As long as newer packets were sent no old packet was resent.
---
 pub.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pub.c b/pub.c
index 9745328..5dfd80b 100644
--- a/pub.c
+++ b/pub.c
@@ -365,13 +365,14 @@ void pub_get_timed_out_packets(pub_subscriber_t* sub,
                                usec_timestamp_t timeout_period, // Number of usecs until timeout
                                pub_packet_list_t* result)
 {
-    pub_packet_node_t* pack_node = pub_packet_list_head(&sub->inflight);
+    pub_packet_node_t* pack_node = pub_packet_list_tail(&sub->inflight);
 
-    // Traverse all inflight packets for subscriber until we find one that is not timed out.x
+    // Traverse all inflight packets for subscriber, oldest first since the list is sorted
+    // on descending pid, until we find one that is not timed out.
     while(pack_node &&
           pack_node->data->send_ts + timeout_period <= current_ts) {
         pub_packet_list_push_tail(result, pack_node->data);
-        pack_node = pub_packet_list_next(pack_node);
+        pack_node = pub_packet_list_prev(pack_node);
     }
 
     return;
-- 
2.43.0


From 82c0c5cf268177c446d5f87474e714dc0268435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 10/48] fix: resume suspended traffic when a disconnect drains
 the inflight packets

traffic_suspended was only cleared when an acknowledgement was processed. If
the inflight packets went away with their last subscriber traffic stayed
suspended for ever.
---
 rmc_internal.h   |  1 +
 rmc_pub_packet.c | 18 ++++++++++++------
 rmc_pub_read.c   |  3 +++
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/rmc_internal.h b/rmc_internal.h
index 535c327..ec01a86 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -382,6 +382,7 @@ typedef struct rmc_conn_command_dispatch {
 
 extern int rmc_pub_queue_announce(struct rmc_pub_context* ctx, void* payload, payload_len_t payload_len);
 extern void rmc_pub_packet_release(struct rmc_pub_context* ctx, pub_packet_t* pack);
+extern void rmc_pub_check_traffic_resume(struct rmc_pub_context* ctx);
 extern int rmc_pub_packet_ack(struct rmc_pub_context* ctx, struct rmc_connection* conn, packet_id_t pid);
 
 
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 49c720f..791cca2 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -123,13 +123,9 @@ int rmc_pub_queue_announce(rmc_pub_context_t* ctx,
 }
 
 
-int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id_t pid)
+// Resume suspended traffic if enough packets have been acknowledged or dropped.
+void rmc_pub_check_traffic_resume(rmc_pub_context_t* ctx)
 {
-    pub_packet_ack(&ctx->subscribers[conn->connection_index],
-                   pid,
-                   // packet free function invoked when the last subscriber acks the packet.
-                   ctx->payload_free?ctx->payload_free:_payload_free_generic);
-
     // If we currently have suspended traffic,
     // check if we are to resume it.
     if (ctx->traffic_suspended) {
@@ -141,6 +137,16 @@ int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id
                           pub_get_unacknowledged_packet_count(&ctx->pub_ctx),
                           ctx->traffic_resume_threshold);
     }
+}
+
+
+int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id_t pid)
+{
+    pub_packet_ack(&ctx->subscribers[conn->connection_index],
+                   pid,
+                   // packet free function invoked when the last subscriber acks the packet.
+                   ctx->payload_free?ctx->payload_free:_payload_free_generic);
 
+    rmc_pub_check_traffic_resume(ctx);
     return 0;
 }
diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 68c22b9..1bfeb83 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -113,6 +113,9 @@ int rmc_pub_close_connection(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     RMC_LOG_INDEX_INFO(s_ind, "rmc_pub_close_connection() - ok");
     pub_reset_subscriber(&ctx->subscribers[s_ind],
                          ctx->payload_free?ctx->payload_free:_generic_payload_free);
+
+    // Packets only the lost subscriber had not acknowledged are no longer inflight.
+    rmc_pub_check_traffic_resume(ctx);
     return 0;
 }
 
-- 
2.43.0


From a307f25b573f17e1cd28cd7e46b25f6d35abc0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 11/48] fix: process packet timeouts also when an announcement
 is due

rmc_pub_timeout_process() returned right after queueing the announcement. With
an announce interval shorter than the time between calls timed out packets
were never resent.
---
 rmc_pub_timeout.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index 10f9a19..f09d147 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -155,8 +155,6 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
             ctx->announce_next_send_ts = current_ts + ctx->announce_send_interval;
         else
             ctx->announce_next_send_ts = 0; // Disable announce sends.
-
-        return 0;
     }
 
     // Grab a list of subscribers that have timed out packets we need to subscribe
-- 
2.43.0


From b5fe2d5a0d135d74eb4fe16e8a2f9b093baa9ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 12/48] fix: one slow subscriber kept all others from getting
 resends

rmc_pub_timeout_process() stopped at the first subscriber whose write buffer
was full. Process the remaining subscribers and report the first error.
---
 rmc_pub_timeout.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index f09d147..08552d9 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -164,17 +164,17 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
     // Traverse the list of subscribers and process their timed out packets
     // by sending them via the TCP control channel.
     while(pub_sub_list_pop_head(&subs, &sub)) {
-        res = process_subscriber_timeout(ctx, sub, current_ts);
+        int sub_res = process_subscriber_timeout(ctx, sub, current_ts);
 
-        if (res) {
-            // Clean up the list.
-            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(res));
-            pub_sub_list_empty(&subs);
-            return res;
+        if (sub_res) {
+            // Do not let one subscriber keep the others from being processed.
+            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(sub_res));
+            if (!res)
+                res = sub_res;
         }
     }
 
-    return 0;
+    return res;
 }
 
 
-- 
2.43.0


From 25184385ec17569919870026547d00ebbafc9662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 13/48] fix: include string.h in pub.c for memcpy()

---
 pub.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pub.c b/pub.c
index 5dfd80b..eae8186 100644
--- a/pub.c
+++ b/pub.c
@@ -8,6 +8,7 @@
 #include "rmc_pub.h"
 #include <assert.h>
 #include <stdlib.h>
+#include <string.h>
 #include <stdio.h>
 
 #include "rmc_list_template.h"
-- 
2.43.0


From ca467367c794149bed0869b506983b7e6a142d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 14/48] fix: control message payloads that wrap in the write
 buffer were corrupted

The second segment was copied from the address of the payload pointer instead
of the payload, which sent stack content to the publisher.
---
 rmc_sub_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_write.c b/rmc_sub_write.c
index a89713f..dfc1713 100644
--- a/rmc_sub_write.c
+++ b/rmc_sub_write.c
@@ -213,7 +213,7 @@ int rmc_sub_write_control_message(rmc_sub_context_t* ctx,
         memcpy(seg1, (uint8_t*) payload, seg1_len);
 
        if (seg2_len)
-            memcpy(seg2, ((uint8_t*) &payload) + seg1_len, seg2_len);
+            memcpy(seg2, ((uint8_t*) payload) + seg1_len, seg2_len);
 
 
         // We always want to read from the tcp  socket.
-- 
2.43.0


From 4215fa9cb93f6a7707dcaa0b460ea252382d8def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 15/48] fix: an announcement received while connecting opened a
 second connection

As long as the connection to a publisher was being setup every further
announcement from it invoked the announce callback and started yet another
connection to the same publisher.
---
 rmc_sub_read.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index a77ee4c..d454ca6 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -171,9 +171,12 @@ static int process_multicast_read(rmc_sub_context_t* ctx, uint8_t* read_res, uin
 
     if (!conn || conn->mode == RMC_CONNECTION_MODE_CONNECTING) {
         RMC_LOG_INDEX_DEBUG(conn?conn->connection_index:RMC_NIL_INDEX, "mode[%d]", conn?conn->mode:-1);
-        res = decode_unsubscribed_multicast(ctx,
-                                            pack_hdr,
-                                            data);
+
+        // A connection that is still being setup must not be setup once more.
+        if (!conn)
+            res = decode_unsubscribed_multicast(ctx,
+                                                pack_hdr,
+                                                data);
 
         if (read_res)
             *read_res = RMC_READ_MULTICAST_NOT_READY;
-- 
2.43.0


From fce3857ea71db3d7d0ca2d64007a535103f95d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 16/48] fix: initialise the publishers of a subscriber context

sub_init_publisher() was first called when a connection completed. Closing a
connection that was still being setup, by rmc_sub_close_connection() or by
deactivating the context, reset an uninitialised publisher.
---
 rmc_sub_context.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index d18a6f8..b4b54ac 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -46,6 +46,7 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
                                               user_data_t user_data))
 {
     struct in_addr addr;
+    uint32_t ind = 0;
     unsigned int seed = rmc_usec_monotonic_timestamp() & 0xFFFFFFFF;
     rmc_sub_context_t* ctx;
     uint8_t* conn_vec = 0;
@@ -122,6 +123,8 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
 
     // FIXME: Better memory management
     ctx->publishers = malloc(sizeof(sub_publisher_t) * max_publishers);
+    for(ind = 0; ind < max_publishers; ++ind)
+        sub_init_publisher(&ctx->publishers[ind]);
 
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
-- 
2.43.0


From aef482ba312ae369bd3088fa4d41d090a5d4c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 17/48] fix: acknowledgements were late when packets arrived
 out of order

sub_oldest_unacknowledged_packet() returned the timestamp of the interval with
the lowest packet ids even if a later interval was received first, and
publishers were sorted into pub_ack_list before they had any unacknowledged
packet to be sorted on. In both cases acknowledgements were sent later than
ack_timeout after the packet was received.
---
 rmc_sub_packet.c | 21 +++++++++++----------
 sub.c            | 12 +++++++++++-
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 6329934..ae2447c 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -37,27 +37,28 @@ int rmc_sub_packet_received(rmc_sub_context_t* ctx,
                             user_data_t pkg_user_data)
 {
     sub_publisher_t* pub = &ctx->publishers[index];
+    uint8_t first = !sub_oldest_unacknowledged_packet(pub);
 
+    sub_packet_received(&ctx->publishers[index],
+                        pid,
+                        payload,
+                        payload_len,
+                        1, // We want to add this packet to receive interval so that we can ack it.
+                        rmc_usec_monotonic_timestamp(),
+                        user_data_u32(index));
 
     // If this packet is the first one that needs to be acked for the
     // given publisher, then add the index of the publisher (and
     // connection) into the ctx->pub_ack_list.
-    // The list is sorted on oldest unacknowledged packet.
+    // The list is sorted on oldest unacknowledged packet, which is
+    // known only once the packet has been received.
     //
-    if (!sub_oldest_unacknowledged_packet(pub))
+    if (first)
         rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,
                                          index,
                                          _compare_oldest_unackowledged_packet,
                                          ctx);
 
-    sub_packet_received(&ctx->publishers[index],
-                        pid,
-                        payload,
-                        payload_len,
-                        1, // We want to add this packet to receive interval so that we can ack it.
-                        rmc_usec_monotonic_timestamp(),
-                        user_data_u32(index));
-
     return 0;
 }
 
diff --git a/sub.c b/sub.c
index 34d0e95..3a9dc18 100644
--- a/sub.c
+++ b/sub.c
@@ -194,10 +194,20 @@ inline user_data_t sub_packet_user_data(sub_packet_t* pack)
 
 usec_timestamp_t sub_oldest_unacknowledged_packet(sub_publisher_t* pub)
 {
+    sub_pid_interval_node_t* inode = 0;
+    usec_timestamp_t oldest = 0;
+
     if (!pub || !sub_pid_interval_list_size(&pub->received_interval))
         return 0;
 
-    return sub_pid_interval_list_head(&pub->received_interval)->data.receive_ts;
+    // The list is sorted on pid. Packets may have arrived in another order.
+    inode = sub_pid_interval_list_head(&pub->received_interval);
+    oldest = inode->data.receive_ts;
+    while((inode = sub_pid_interval_list_next(inode)))
+        if (inode->data.receive_ts < oldest)
+            oldest = inode->data.receive_ts;
+
+    return oldest;
 }
 
 // Add the pid of a received packet to the number of
-- 
2.43.0


From b398650c4c64f49b02055036c5de43a86e36d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 18/48] fix: acknowledgements were lost when the write buffer
 was full

rmc_sub_timeout_process() popped an interval before it was known to fit into
the write buffer and stopped at the first failing publisher: the popped
interval was never acknowledged and the other publishers had to wait. Remove
an interval only once its acknowledgement has been queued, go on with the
remaining publishers and report the first error.
---
 rmc_sub_timeout.c | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/rmc_sub_timeout.c b/rmc_sub_timeout.c
index d7a4a13..8e37836 100644
--- a/rmc_sub_timeout.c
+++ b/rmc_sub_timeout.c
@@ -22,6 +22,7 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 {
     usec_timestamp_t current_ts = rmc_usec_monotonic_timestamp();
     rmc_index_node_t *inode = 0;
+    int ret = 0;
 
     if (!ctx)
         return EINVAL;
@@ -48,16 +49,19 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
     //
     while(inode) {
         sub_publisher_t* pub = &ctx->publishers[inode->data];
-        sub_pid_interval_t pid_intv;
+        sub_pid_interval_node_t* intv_node = 0;
+        rmc_index_node_t *inext = rmc_index_list_next(inode);
+        int res = 0;
 
 
         // If it is not yet time to send acks for this publisher, then
-        // break out of loop and return.
+        // go on with the next one.
         if (sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout > current_ts) {
             RMC_LOG_INDEX_COMMENT(inode->data,
-                                  "%ld usec until timeout - returning",
+                                  "%ld usec until timeout",
                                   sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout - current_ts);
-            break;
+            inode = inext;
+            continue;
         }
 
         RMC_LOG_INDEX_COMMENT(inode->data,
@@ -66,26 +70,32 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 
         // For each publisher that we have a timed out ack  for, we will ack
         // all pending packets in one go.
-        while(sub_pid_interval_list_pop_head(&pub->received_interval, &pid_intv)) {
-            int res = 0;
-            res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &pid_intv);
+        while((intv_node = sub_pid_interval_list_head(&pub->received_interval))) {
+            res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &intv_node->data);
             if (res) {
                 RMC_LOG_INDEX_INFO(inode->data,"Failed to send packet ack: %s", strerror(res));
-                return res;
+                break;
             }
+            sub_pid_interval_list_delete(intv_node);
         }
 
-        rmc_index_list_delete(inode);
-        inode = rmc_index_list_head(&ctx->pub_ack_list);
+        // Keep a publisher that we could not ack everything to for the next
+        // call, and do not let it keep the other ones from being acked.
+        if (!res)
+            rmc_index_list_delete(inode);
+        else if (!ret)
+            ret = res;
+
+        inode = inext;
     }
 
-    return 0;
+    return ret;
 }
 
 
 int rmc_sub_timeout_get_next(rmc_sub_context_t* ctx, usec_timestamp_t* result)
 {
-    sub_publisher_t* pub = 0;
+    rmc_index_node_t *inode = 0;
 
     if (!ctx || !result)
         return EINVAL;
@@ -97,8 +107,17 @@ int rmc_sub_timeout_get_next(rmc_sub_context_t* ctx, usec_timestamp_t* result)
         return 0;
     }
 
-    pub = &ctx->publishers[rmc_index_list_head(&ctx->pub_ack_list)->data];
+    // The order of the list is not kept up when only some of the packets
+    // of a publisher could be acked, so look at all of it.
+    *result = -1;
+    inode = rmc_index_list_head(&ctx->pub_ack_list);
+    while(inode) {
+        usec_timestamp_t ts =
+            sub_oldest_unacknowledged_packet(&ctx->publishers[inode->data]) + ctx->ack_timeout;
 
-    *result = sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout;
+        if (*result == -1 || ts < *result)
+            *result = ts;
+        inode = rmc_index_list_next(inode);
+    }
     return 0;
 }
-- 
2.43.0


From ab670258d34c6c16895eaa696d9c230db5382940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 19/48] fix: rmc_sub_packet_dispatched() leaked the packet

Only the payload was freed, every received packet leaked its sub_packet_t.
---
 rmc_sub.h        | 3 +++
 rmc_sub_packet.c | 1 +
 sub.c            | 5 +++++
 3 files changed, 9 insertions(+)

diff --git a/rmc_sub.h b/rmc_sub.h
index 8e01d7d..7082599 100644
--- a/rmc_sub.h
+++ b/rmc_sub.h
@@ -139,6 +139,9 @@ extern void sub_process_received_packets(sub_publisher_t* pub, sub_packet_list_t
 extern void sub_reset_publisher(sub_publisher_t*,
                                 void (*)(void*, payload_len_t, user_data_t));;
 
+// Free a packet that has been taken off all lists. Does not free its payload.
+extern void sub_packet_free(sub_packet_t* pack);
+
 extern usec_timestamp_t sub_oldest_unacknowledged_packet(sub_publisher_t* pub);
 extern  user_data_t sub_packet_user_data(sub_packet_t* pack);
 extern int sub_packet_add_to_received_interval(sub_publisher_t* pub, packet_id_t pid);
diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index ae2447c..40ca7cc 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -119,6 +119,7 @@ int rmc_sub_packet_dispatched(rmc_sub_context_t* ctx, sub_packet_t* pack)
     else
         free(pack->payload);
 
+    sub_packet_free(pack);
     return 0;
 }
 
diff --git a/sub.c b/sub.c
index 3a9dc18..10d4a69 100644
--- a/sub.c
+++ b/sub.c
@@ -187,6 +187,11 @@ void sub_reset_publisher(sub_publisher_t* pub,
 
 
 
+void sub_packet_free(sub_packet_t* pack)
+{
+    _free_pending_packet(pack);
+}
+
 inline user_data_t sub_packet_user_data(sub_packet_t* pack)
 {
     return pack?(pack->pkg_user_data):user_data_nil();
-- 
2.43.0


From eeadba3e526dd3ed1cc49b8586f1fa5467f4b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 20/48] fix: a failed connection was removed from the poll
 vector twice

rmc_conn_complete_connection() called poll_remove and then closed the
connection, which calls poll_remove as well. Its caller closed the closed
connection once more.
---
 rmc_connection.c | 6 ------
 rmc_sub_write.c  | 2 +-
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 9a2d4ac..5376e83 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -211,9 +211,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
 
         return sock_err;
@@ -230,9 +227,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
         return sock_err;
     }
diff --git a/rmc_sub_write.c b/rmc_sub_write.c
index dfc1713..763c1d9 100644
--- a/rmc_sub_write.c
+++ b/rmc_sub_write.c
@@ -300,7 +300,7 @@ int rmc_sub_write(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         res = rmc_conn_complete_connection(&ctx->conn_vec, conn);
         if (res) {
             RMC_LOG_INDEX_INFO(s_ind, "Failed to complete connection: %s", strerror(errno));
-            rmc_conn_close_connection(&ctx->conn_vec, conn->connection_index);
+            // rmc_conn_complete_connection() has closed the connection.
             return res;
         }
         if (ctx->subscription_complete_cb) {
-- 
2.43.0


From 86d7b16a276f280783c11e5bf203daf7aa9cddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 21/48] fix: deactivating a context that is not active used
 descriptor -1

rmc_pub_deactivate_context() and rmc_sub_deactivate_context(), also called when
a context is deleted, passed descriptor -1 to poll_remove and close() for a
context that was never activated or deactivated before. The subscriber closed
its multicast descriptor before it was removed from the caller's poll vector,
and scanned past the end of its connections if there were none.
---
 rmc_pub_context.c |  9 ++++++---
 rmc_sub_context.c | 17 +++++++++++------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 775fbba..e6f415a 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -271,7 +271,7 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
 
     // Callback to remnove listen and multicast descriptor
     // from caller's poll vector.
-    if (ctx->conn_vec.poll_remove) {
+    if (ctx->conn_vec.poll_remove && ctx->mcast_send_descriptor != -1) {
         (*ctx->conn_vec.poll_remove)(ctx->user_data,
                                      ctx->mcast_send_descriptor,
                                      RMC_MULTICAST_INDEX);
@@ -295,8 +295,11 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
         }
     }
 
-    close(ctx->mcast_send_descriptor);
-    close(ctx->listen_descriptor);
+    if (ctx->mcast_send_descriptor != -1)
+        close(ctx->mcast_send_descriptor);
+
+    if (ctx->listen_descriptor != -1)
+        close(ctx->listen_descriptor);
 
     ctx->mcast_send_descriptor = -1;
     ctx->listen_descriptor = -1;
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index b4b54ac..6b9ba1e 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -240,15 +240,20 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
     // Empty ack list
     rmc_index_list_empty(&ctx->pub_ack_list);
 
-    close(ctx->mcast_recv_descriptor);
-    if (ctx->conn_vec.poll_remove)
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->mcast_recv_descriptor,
-                                     RMC_MULTICAST_INDEX);
+    if (ctx->mcast_recv_descriptor != -1) {
+        if (ctx->conn_vec.poll_remove)
+            (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                         ctx->mcast_recv_descriptor,
+                                         RMC_MULTICAST_INDEX);
 
-    ctx->mcast_recv_descriptor = -1;
+        close(ctx->mcast_recv_descriptor);
+        ctx->mcast_recv_descriptor = -1;
+    }
 
     rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
+    if (max == RMC_NIL_INDEX)
+        return 0;
+
     for(ind = 0; ind <= max; ++ind) {
         rmc_connection_t* conn = rmc_conn_find_by_index(&ctx->conn_vec,
                                                         ind);
-- 
2.43.0


From e42593cd82644cdc2bfeb281f90d11d0e9579720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 22/48] fix: a transient read error was taken for a lost
 connection

rmc_conn_tcp_read() treated EAGAIN and EINTR as a disconnect.
---
 rmc_protocol.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rmc_protocol.c b/rmc_protocol.c
index c75fec7..b50d9d6 100644
--- a/rmc_protocol.c
+++ b/rmc_protocol.c
@@ -223,10 +223,14 @@ int rmc_conn_tcp_read(rmc_connection_vector_t* conn_vec,
                         (res == -1)?strerror(errno):"");
 
     if (res == -1 || res == 0) {
-        *op_res = RMC_READ_DISCONNECT;
-
         // Give back the memory.
-        circ_buf_trim(&conn->read_buf, available);
+        circ_buf_trim(&conn->read_buf, orig_in_use);
+
+        // There may just be nothing to read right now.
+        if (res == -1 && (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR))
+            return EAGAIN;
+
+        *op_res = RMC_READ_DISCONNECT;
         return EPIPE;
     }
 
-- 
2.43.0


From a9fef1a95fab654a70914ccbec99242bde19f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 23/48] fix: reading from a publisher dropped a pending write
 from the poll vector

rmc_sub_read() re-armed the connection for reading only, even if
acknowledgements or control messages were waiting to be written. They were
stuck until something else was queued.
---
 rmc_sub_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index d454ca6..5fdfffc 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -444,8 +444,8 @@ rearm:
         (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                      conn->descriptor,
                                      s_ind,
-                                     RMC_POLLREAD,
-                                     RMC_POLLREAD);
+                                     conn->action,
+                                     conn->action);
     }
     return res;
 }
-- 
2.43.0


From bd4f11f025226a059904a290e6cd2303524090b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 24/48] fix: rmc_conn_process_accept() leaked the connection if
 setsockopt() failed

rmc_conn_close_connection() was called with the descriptor instead of the
index of the connection. It either closed another subscriber's connection or
did nothing, which leaves the slot occupied for ever.
---
 rmc_connection.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 5376e83..d6f7c25 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -362,7 +362,9 @@ int rmc_conn_process_accept(int listen_descriptor,
     // out acks.
     if (setsockopt(conn_vec->connections[c_ind].descriptor, IPPROTO_TCP, TCP_NODELAY, (void *)&tr, sizeof(tr))) {
         sock_err = errno;
-        rmc_conn_close_connection(conn_vec, conn_vec->connections[c_ind].descriptor);
+        close(conn_vec->connections[c_ind].descriptor);
+        conn_vec->connections[c_ind].descriptor = -1;
+        _reset_max_connection_ind(conn_vec);
         return sock_err;
     }
 
-- 
2.43.0


From b16cb89fafea46c28de8136f9b2601013e88264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 25/48] fix: a failed accept() left the listening descriptor
 unarmed

poll_modify re-arms the listening descriptor only after a successful accept.
With one-shot polling no further subscriber was accepted after a failure.
---
 rmc_pub_read.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 1bfeb83..6ef471e 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -146,6 +146,14 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
 
         if (res) {
             *op_res = RMC_ERROR;
+
+            // Keep on listening
+            if (ctx->conn_vec.poll_modify)
+                (*ctx->conn_vec.poll_modify)(ctx->user_data,
+                                             ctx->listen_descriptor,
+                                             RMC_LISTEN_INDEX,
+                                             RMC_POLLREAD,
+                                             RMC_POLLREAD);
             return res;
         }
 
-- 
2.43.0


From d580cdcf0ce6e924750f60a41d8e6103b2fcdae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 26/48] fix: deleting a context leaked memory

rmc_pub_delete_context() leaked the subscriber array and all packets that were
still queued together with their payloads, rmc_sub_delete_context() leaked the
publisher array.
---
 rmc_pub_context.c | 6 ++++++
 rmc_sub_context.c | 1 +
 2 files changed, 7 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index e6f415a..e884da1 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -309,11 +309,17 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
 
 int rmc_pub_delete_context(rmc_pub_context_t* ctx)
 {
+    pub_packet_t* pack = 0;
 
     if (!ctx)
         return EINVAL;
     rmc_pub_deactivate_context(ctx);
 
+    // Release the packets that were never sent.
+    while((pack = pub_next_queued_packet(&ctx->pub_ctx)))
+        rmc_pub_packet_release(ctx, pack);
+
+    free(ctx->subscribers);
     free(ctx->conn_vec.connections);
     free(ctx);
     return 0;
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 6b9ba1e..ba9bd1a 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -274,6 +274,7 @@ int rmc_sub_delete_context(rmc_sub_context_t* ctx)
         return EINVAL;
     rmc_sub_deactivate_context(ctx);
 
+    free(ctx->publishers);
     free(ctx->conn_vec.connections);
     free(ctx);
     return 0;
-- 
2.43.0


From 652041d1b897e09db0a0a9d607da03ea15284800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 27/48] fix: rmc_sub_activate_context() leaked its descriptor
 if bind() failed

The descriptor stayed open, so that the context could not be activated later
on either.
---
 rmc_sub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index ba9bd1a..f571ed8 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -177,7 +177,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
              (struct sockaddr *) &sock_addr,
              sizeof(sock_addr)) < 0) {
         perror("rmc_listen(multicast_recv): bind()");
-        return errno;
+        goto error;
     }
 
     // Setup multicast group membership
-- 
2.43.0


From 6d20b1e51575086a74baddf40740f5e81a44776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 28/48] fix: a subscriber could hang the publisher with a huge
 ack interval

process_cmd_ack_interval() iterated over every packet id of the interval it
received. With last_pid set to the maximum it never terminated. Go through the
packets that are inflight to the subscriber instead.
---
 rmc_pub_read.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 6ef471e..adb2c08 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -22,7 +22,7 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
 {
     cmd_ack_interval_t ack;
     rmc_pub_context_t* ctx = (rmc_pub_context_t*) user_data.ptr;
-    packet_id_t pid = 0;
+    pub_packet_node_t* node = 0;
     // Do we have enough data?
     if (circ_buf_in_use(&conn->read_buf) < sizeof(ack) + 1)
         return EAGAIN;
@@ -37,8 +37,16 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
     // Mark all packets in the interval as acknwoledged, and call the
     // payload free function provided to rmc_pub_init_context(). If no
     // function is provided, free() will bre called.
-    for (pid = ack.first_pid; pid <= ack.last_pid; ++pid)
-        rmc_pub_packet_ack(ctx, conn, pid) ;
+    // Only look at the packets that are inflight, oldest first. The interval
+    // comes from the network and can be of any size.
+    node = pub_packet_list_tail(&ctx->subscribers[conn->connection_index].inflight);
+    while(node && node->data->pid <= ack.last_pid) {
+        packet_id_t pid = node->data->pid;
+
+        node = pub_packet_list_prev(node);
+        if (pid >= ack.first_pid)
+            rmc_pub_packet_ack(ctx, conn, pid);
+    }
     return 0;
 }
 
-- 
2.43.0


From b626302920531750e51f52d559569dbcb7ccb7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 29/48] fix: deactivating a subscriber leaked the payloads of
 undispatched packets

rmc_sub_deactivate_context() took the packets off the dispatch_ready list
before it called rmc_sub_packet_dispatched(), which then did not find them and
freed nothing.
---
 rmc_sub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index f571ed8..3f1aed6 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -234,7 +234,7 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
         return EINVAL;
 
     // Empty all packets that are dispatch ready.
-    while(sub_packet_list_pop_head(&ctx->dispatch_ready, &pack))
+    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))
         rmc_sub_packet_dispatched(ctx, pack);
 
     // Empty ack list
-- 
2.43.0


From 1d3986c0cd3eda9f5f7a4d9d0243d7d538ac8240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 30/48] fix: payload_free got the wrong user data when a
 publisher disconnected

sub_reset_publisher() passes the connection index stored with each packet
instead of the user data of the context.
---
 rmc_sub_read.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 5fdfffc..09da050 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -357,12 +357,22 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
 
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
+    sub_packet_t* pack = 0;
+    void (*payload_free)(void*, payload_len_t, user_data_t) =
+        ctx->payload_free?ctx->payload_free:_payload_free_generic;
+
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
     rmc_conn_close_connection(&ctx->conn_vec, s_ind);
 
-    sub_reset_publisher(&ctx->publishers[s_ind],
-                        ctx->payload_free?ctx->payload_free:_payload_free_generic);
+    // Free the payload of all packets that are not ready with the user data
+    // that payload_free expects.
+    while(sub_packet_list_pop_head(&ctx->publishers[s_ind].received_pid, &pack)) {
+        (*payload_free)(pack->payload, pack->payload_len, ctx->user_data);
+        sub_packet_free(pack);
+    }
+
+    sub_reset_publisher(&ctx->publishers[s_ind], payload_free);
     return 0;
 }
 
-- 
2.43.0


From 40adb1bbc458bc4ba0819d8d2dcfd631724d5734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 31/48] fix: rmc_sub_close_connection() left the publisher in
 pub_ack_list

A publisher that was lost with unsent acknowledgements stayed in the list: the
next timeout was reported to be ack_timeout after the epoch and timeout
processing kept failing or acknowledged packets of a wrong publisher. Also
reject an index that does not name an open connection.
---
 rmc_sub_read.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 09da050..9b80411 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -358,12 +358,27 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
     sub_packet_t* pack = 0;
-    void (*payload_free)(void*, payload_len_t, user_data_t) =
-        ctx->payload_free?ctx->payload_free:_payload_free_generic;
+    rmc_index_node_t* inode = 0;
+    void (*payload_free)(void*, payload_len_t, user_data_t) = 0;
+    int res = 0;
 
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
-    rmc_conn_close_connection(&ctx->conn_vec, s_ind);
+    if (!ctx)
+        return EINVAL;
+
+    if ((res = rmc_conn_close_connection(&ctx->conn_vec, s_ind)))
+        return res;
+
+    payload_free = ctx->payload_free?ctx->payload_free:_payload_free_generic;
+
+    // There is nobody left to send acknowledgements to.
+    inode = rmc_index_list_head(&ctx->pub_ack_list);
+    while(inode && inode->data != s_ind)
+        inode = rmc_index_list_next(inode);
+
+    if (inode)
+        rmc_index_list_delete(inode);
 
     // Free the payload of all packets that are not ready with the user data
     // that payload_free expects.
-- 
2.43.0


From 2394b2315df3faec3d73ed39c6e866c2e435d6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 32/48] fix: missing return of EINVAL for a null context in two
 publisher queries

---
 rmc_pub_read.c  | 2 +-
 rmc_pub_write.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index adb2c08..34b6f8e 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -254,7 +254,7 @@ int rmc_pub_context_has_pending_send(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     payload_len_t len = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     conn = rmc_conn_find_by_index(&ctx->conn_vec, s_ind);
     if (!conn)
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 4976225..de7fa26 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -324,7 +324,7 @@ int rmc_pub_context_get_pending(rmc_pub_context_t* ctx,
     uint32_t queue_size = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     if (ack_count)
         *ack_count = 0;
-- 
2.43.0


From 31a4cdff9bf03ec1d99e500d5a5beecfe160abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 33/48] fix: a failed multicast send was not re-armed

After any sendmsg() error but EAGAIN poll_modify was not called. With one-shot
polling all queued packets were stuck until another one was queued.
---
 rmc_pub_write.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index de7fa26..12560a8 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -92,9 +92,12 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     if (res == -1) {
         if ( errno != EAGAIN && errno != EWOULDBLOCK) {
+            res = errno;
             RMC_LOG_INDEX_WARNING(RMC_MULTICAST_INDEX,
-                                  "sendmsg(): %d/%s", errno, strerror(errno));
-            return errno;
+                                  "sendmsg(): %d/%s", res, strerror(res));
+
+            // The packet is still queued, so we want to get called again.
+            goto rearm;
         }
 
         // We are ok with an EAGAIN error since we can retry later to
-- 
2.43.0


From 9c59b9211f377ead8a779413eab158d8e0a7dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 34/48] fix: close control connections whose stream can never
 be processed further

---
 rmc_pub_read.c | 8 ++++++++
 rmc_sub_read.c | 9 +++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 34b6f8e..312603c 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -232,6 +232,14 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         return 0; // This is not an error, just regular maintenance.
     }
 
+    // Unknown command, or a command that can never fit the read buffer.
+    // The stream cannot be processed any further.
+    if (res == EPROTO || res == ENOMEM) {
+        *op_res = RMC_ERROR;
+        rmc_pub_close_connection(ctx, s_ind);
+        return res;
+    }
+
     // Read poll is always active. Callback to re-arm.
     old_action = conn->action;
     rmc_conn_get_pending_send_length(conn, &write_buf_sz);
diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 9b80411..53b0cbc 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -435,8 +435,11 @@ int rmc_sub_read(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
 
     if (res == ENOMEM) {
         RMC_LOG_INDEX_WARNING(s_ind, "Cannot read tcp control channel since buffer is full.");
-        res = ENOMEM;
-        goto rearm;
+        *op_res = RMC_ERROR;
+
+        // The buffer holds a packet that can never be completed.
+        rmc_sub_close_connection(ctx, s_ind);
+        return res;
     }
 
     // Are we disconnected?
@@ -462,8 +465,6 @@ int rmc_sub_read(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
 
     *op_res = RMC_READ_TCP;
 
-rearm:
-
     // Read poll is always active. Callback to re-arm.
     if (ctx->conn_vec.poll_modify) {
         (*ctx->conn_vec.poll_modify)(ctx->user_data,
-- 
2.43.0


From 40e288de522d89db189dbffe6d2869e3c1de9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 35/48] fix: packets queued while the publisher was inactive
 were never sent

---
 rmc_pub_context.c | 8 ++++++++
 rmc_pub_packet.c  | 6 ++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index e884da1..2230a1f 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -244,6 +244,14 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
                                   RMC_POLLREAD);
     }
 
+    // Packets may already be waiting to be sent.
+    if (ctx->conn_vec.poll_modify && pub_next_queued_packet(&ctx->pub_ctx))
+        (*ctx->conn_vec.poll_modify)(ctx->user_data,
+                                     ctx->mcast_send_descriptor,
+                                     RMC_MULTICAST_INDEX,
+                                     0,
+                                     RMC_POLLWRITE);
+
     return 0;
 
 error:
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 791cca2..e267520 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -46,7 +46,9 @@ int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
     else
         pub_queue_packet(&ctx->pub_ctx, payload, payload_len, ctx->user_data);
 
-    if (ctx->conn_vec.poll_modify)  {
+    // Packets queued while the context is inactive are picked up by
+    // rmc_pub_activate_context()
+    if (ctx->conn_vec.poll_modify && ctx->mcast_send_descriptor != -1)  {
         // Did we already have a packet pending for send prior
         // to queueing the lastest packet? If so, old action
         // was POLLWRITE, if not, it was 0.
@@ -113,7 +115,7 @@ int rmc_pub_queue_announce(rmc_pub_context_t* ctx,
     pack = pub_next_queued_packet(&ctx->pub_ctx);
     pub_queue_no_acknowledge_packet_copy(&ctx->pub_ctx, payload, payload_len);
 
-    if (ctx->conn_vec.poll_modify)
+    if (ctx->conn_vec.poll_modify && ctx->mcast_send_descriptor != -1)
         (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                      ctx->mcast_send_descriptor,
                                      RMC_MULTICAST_INDEX,
-- 
2.43.0


From a70ce2a861ad356216b99fa939b6c53135de723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 36/48] fix: activating an active publisher leaked its
 descriptors

---
 rmc_pub_context.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 2230a1f..9202ea8 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -161,6 +161,10 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     if (!ctx)
         return EINVAL;
 
+    // Same as for rmc_sub_activate_context()
+    if (ctx->mcast_send_descriptor != -1)
+        return EEXIST;
+
     //
     // Setup udp send descriptor to be received by multicast members.
     //
-- 
2.43.0


From 10e92f4df56c82e2965cb76390cf2aa988ad61c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 37/48] fix: context init with an unresolvable address leaked
 the context

---
 rmc_pub_context.c | 12 +++++++++---
 rmc_sub_context.c | 10 ++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 9202ea8..12ff54c 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -92,21 +92,21 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     if (!inet_aton(mcast_group_addr, &addr)) {
         RMC_LOG_WARNING("Could not resolve multicast address %s to IP address\n",
                 mcast_group_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->mcast_group_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(control_listen_if_addr, &addr)) {
         RMC_LOG_WARNING("Could not resolve tcp listen address %s to IP address\n",
                 control_listen_if_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->control_listen_if_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(mcast_if_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\n",
                 mcast_if_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->mcast_if_addr = ntohl(addr.s_addr);
 
@@ -148,6 +148,12 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     RMC_LOG_DEBUG("Publisher Context init. node_id[0x%X] mcast_group[%s:%d] mcast_if[%s] user_data[0x%X]",
                   ctx->node_id, mcast_group_addr, multicast_port,  mcast_if_addr, user_data.u32);
     return 0;
+
+error:
+    free(conn_vec);
+    free(ctx);
+    *context_res = 0;
+    return EINVAL;
 }
 
 
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 3f1aed6..f8c3ac2 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -93,14 +93,14 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     if (!inet_aton(mcast_group_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_group_addr): Could not resolve %s to IP address\n",
                 mcast_group_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->mcast_group_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(mcast_if_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\n",
                 mcast_if_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->mcast_if_addr = ntohl(addr.s_addr);
 
@@ -129,6 +129,12 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
     return 0;
+
+error:
+    free(conn_vec);
+    free(ctx);
+    *context_res = 0;
+    return EINVAL;
 }
 
 
-- 
2.43.0


From d477a5496f4e1fd64a0ab588929d80786e346461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 38/48] fix: poll callbacks for connections kept the old user
 data after rmc_pub/sub_set_user_data()

---
 rmc_pub_context.c | 1 +
 rmc_sub_context.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 12ff54c..cf97291 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -462,6 +462,7 @@ int rmc_pub_set_user_data(rmc_pub_context_t* ctx, user_data_t user_data)
         return EINVAL;
 
     ctx->user_data = user_data;
+    ctx->conn_vec.user_data = user_data;
     return 0;
 }
 
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index f8c3ac2..1a4d348 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -329,6 +329,7 @@ int rmc_sub_set_user_data(rmc_sub_context_t* ctx, user_data_t user_data)
         return EINVAL;
 
     ctx->user_data = user_data;
+    ctx->conn_vec.user_data = user_data;
     return 0;
 }
 
-- 
2.43.0


From 74159f148c57f21b5c8d9019f762edda60088625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 39/48] fix: logging changed errno before callers examined it

---
 rmc_log.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_log.c b/rmc_log.c
index 2db7c70..b529e67 100644
--- a/rmc_log.c
+++ b/rmc_log.c
@@ -12,6 +12,7 @@
 #include "rmc_log.h"
 #include "string.h"
 #include <unistd.h>
+#include <errno.h>
 #include <stdlib.h>
 
 static usec_timestamp_t start_time = 0;
@@ -193,6 +194,7 @@ void rmc_log(int log_level, const char* func, const char* file, int line, uint16
     const char* tag = 0;
     char index_str[32];
     va_list ap;
+    int saved_errno = errno; // Callers examine errno after logging.
 
     // Default rmc_log_file, if not set.
     if (!_rmc_log_file)
@@ -278,5 +280,6 @@ void rmc_log(int log_level, const char* func, const char* file, int line, uint16
     vfprintf(_rmc_log_file, fmt, ap);
     va_end(ap);
     fputc('\n', _rmc_log_file);
+    errno = saved_errno;
 }
 // 8592
-- 
2.43.0


From 6948758070da042326c8fa0d8805b4ea395df9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 40/48] fix: a connection beyond the maximum was left pending
 and kept the listen descriptor readable for ever

---
 rmc_connection.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index d6f7c25..dddbf85 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -341,8 +341,16 @@ int rmc_conn_process_accept(int listen_descriptor,
     // Find a free slot.
     c_ind = _get_free_slot(conn_vec);
 
-    if (c_ind == RMC_NIL_INDEX)
+    if (c_ind == RMC_NIL_INDEX) {
+        // Refuse the connection. If we leave it pending the listen
+        // descriptor stays readable and we will be called for ever.
+        int surplus = accept(listen_descriptor, (struct sockaddr*) &src_addr, &addr_len);
+
+        if (surplus != -1)
+            close(surplus);
+
         return ENOMEM;
+    }
 
     conn_vec->connections[c_ind].descriptor = accept(listen_descriptor,
                                                       (struct sockaddr*) &src_addr,
-- 
2.43.0


From c1b53cdd81238181c57ed893f16d696546bb81d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 41/48] fix: rmc_pub_read() did not report
 RMC_READ_MULTICAST_LOOPBACK

---
 rmc_pub_read.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 312603c..a303047 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -204,6 +204,7 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
             return errno;
         }
         RMC_LOG_INDEX_INFO(RMC_MULTICAST_INDEX, "recvfrom(MULTICAST): Ignored loopback");
+        *op_res = RMC_READ_MULTICAST_LOOPBACK;
         if (ctx->conn_vec.poll_modify)
             (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                          ctx->mcast_send_descriptor,
-- 
2.43.0


From 0575bb1bfd2ad8eefb6b97350b497e8f9980471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 42/48] fix: rmc_sub_read() never reported
 RMC_READ_MULTICAST_NEW

---
 rmc_sub_read.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 53b0cbc..36bcd6f 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -179,7 +179,10 @@ static int process_multicast_read(rmc_sub_context_t* ctx, uint8_t* read_res, uin
                                                 data);
 
         if (read_res)
-            *read_res = RMC_READ_MULTICAST_NOT_READY;
+            *read_res = (!conn && rmc_conn_find_by_address(&ctx->conn_vec,
+                                                           pack_hdr->listen_ip,
+                                                           pack_hdr->listen_port))?
+                RMC_READ_MULTICAST_NEW:RMC_READ_MULTICAST_NOT_READY;
 
         return res;
     }
-- 
2.43.0


From 469086ab225a0913fe140b6ca719d3f3b2f85c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:20 +0000
Subject: [PATCH 43/48] fix: a loopback event of the multicast socket made the
 publisher forget about queued packets

---
 rmc_pub_read.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index a303047..0218a09 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -205,12 +205,18 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         }
         RMC_LOG_INDEX_INFO(RMC_MULTICAST_INDEX, "recvfrom(MULTICAST): Ignored loopback");
         *op_res = RMC_READ_MULTICAST_LOOPBACK;
-        if (ctx->conn_vec.poll_modify)
+        if (ctx->conn_vec.poll_modify) {
+            // Packets may have been queued since the event was reported.
+            // Do not forget about those.
+            rmc_poll_action_t action =
+                pub_next_queued_packet(&ctx->pub_ctx)?RMC_POLLWRITE:RMC_POLLREAD;
+
             (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                          ctx->mcast_send_descriptor,
                                          RMC_MULTICAST_INDEX,
-                                         RMC_POLLREAD,
-                                         RMC_POLLREAD);
+                                         action,
+                                         action);
+        }
         return 0;
     }
 
-- 
2.43.0


From e9120baa8793934884894629b7f48613d03a6ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:52 +0000
Subject: [PATCH 44/48] fix: polling was modified for a connection that the
 application closes from a callback

The control message callback of the publisher and the packet ready
callback of the subscriber may close the connection being read.
rmc_pub_read() and rmc_sub_read() then went on to re-arm the poll
registration that had just been removed, with descriptor -1.
---
 rmc_pub_read.c | 4 ++++
 rmc_sub_read.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 0218a09..5898f28 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -247,6 +247,10 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         return res;
     }
 
+    // The control message callback may have closed the connection.
+    if (conn->mode != RMC_CONNECTION_MODE_CONNECTED)
+        return 0;
+
     // Read poll is always active. Callback to re-arm.
     old_action = conn->action;
     rmc_conn_get_pending_send_length(conn, &write_buf_sz);
diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 36bcd6f..6575e88 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -468,6 +468,10 @@ int rmc_sub_read(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
 
     *op_res = RMC_READ_TCP;
 
+    // The packet ready callback may have closed the connection.
+    if (conn->mode != RMC_CONNECTION_MODE_CONNECTED)
+        return 0;
+
     // Read poll is always active. Callback to re-arm.
     if (ctx->conn_vec.poll_modify) {
         (*ctx->conn_vec.poll_modify)(ctx->user_data,
-- 
2.43.0


From d57c083b6247a909269a4d314870cafed6d5e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:52 +0000
Subject: [PATCH 45/48] fix: a subscriber deactivated from its packet ready
 callback kept on reading

rmc_sub_read() called recvfrom() on, and re-armed, the multicast
descriptor that rmc_sub_deactivate_context() had just closed.
---
 rmc_sub_read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 6575e88..7b02766 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -239,6 +239,10 @@ static int multicast_read(rmc_sub_context_t* ctx, uint8_t* read_res)
         }
 
         res = process_multicast_read(ctx, read_res, ntohl(src_addr.sin_addr.s_addr), buffer, len);
+
+        // The packet ready callback may have deactivated the context.
+        if (ctx->mcast_recv_descriptor == -1)
+            return EAGAIN;
     }
 
 rearm:
-- 
2.43.0


From 44d5205d0e7eb007da891535abc071241233ef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:22 +0000
Subject: [PATCH 46/48] fix: use after free when a connection is closed from
 the payload free function

process_cmd_ack_interval() remembered the next packet inflight across the
call of the payload free function, which may close the connection.
---
 rmc_pub_read.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 5898f28..7baf222 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -39,14 +39,18 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
     // function is provided, free() will bre called.
     // Only look at the packets that are inflight, oldest first. The interval
     // comes from the network and can be of any size.
-    node = pub_packet_list_tail(&ctx->subscribers[conn->connection_index].inflight);
-    while(node && node->data->pid <= ack.last_pid) {
-        packet_id_t pid = node->data->pid;
-
-        node = pub_packet_list_prev(node);
-        if (pid >= ack.first_pid)
-            rmc_pub_packet_ack(ctx, conn, pid);
-    }
+    // Start over after each one, the payload free function may have closed
+    // the connection.
+    do {
+        node = pub_packet_list_tail(&ctx->subscribers[conn->connection_index].inflight);
+        while(node && node->data->pid < ack.first_pid)
+            node = pub_packet_list_prev(node);
+
+        if (!node || node->data->pid > ack.last_pid)
+            break;
+
+        rmc_pub_packet_ack(ctx, conn, node->data->pid);
+    } while(1);
     return 0;
 }
 
-- 
2.43.0


From 073ed5ffcfd5ba8921d552d1be2bf8b9aa291abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:23 +0000
Subject: [PATCH 47/48] fix: use after free when a payload free function closes
 a timed out connection

process_subscriber_timeout() went on with its list of timed out packets
after the payload free function had closed the connection they were
collected for.
---
 rmc_pub_timeout.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index 08552d9..147e54b 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -111,6 +111,11 @@ static int process_subscriber_timeout(rmc_pub_context_t* ctx,
 
         // We were successful in queuing the packet transmission.
         pub_packet_list_pop_head(&packets, &pack);
+
+        // The payload free function may have closed the connection, in which
+        // case the remaining packets may be gone.
+        if (conn->mode != RMC_CONNECTION_MODE_CONNECTED)
+            pub_packet_list_empty(&packets);
     }
 
     return 0;
-- 
2.43.0


From b8cab39260d07d0125ea994c97e1ca2af29c9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:23 +0000
Subject: [PATCH 48/48] fix: polling was modified for a publisher deactivated
 from its payload free function

rmc_pub_write() re-armed the multicast descriptor that
rmc_pub_deactivate_context() had just closed.
---
 rmc_pub_write.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 12560a8..af34275 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -120,7 +120,8 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     res = 0;
 rearm:
-    if (ctx->conn_vec.poll_modify) {
+    // The payload free function may have deactivated the context.
+    if (ctx->conn_vec.poll_modify && ctx->mcast_send_descriptor != -1) {
         // Do we have more packets to send?
         (*ctx->conn_vec.poll_modify)(ctx->user_data,
                             ctx->mcast_send_descriptor,
-- 
2.43.0

