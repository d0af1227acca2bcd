#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Delivery is in order, exactly once and without gaps",
  "Within one subscription session the packets a subscriber is given from one publisher are consecutively numbered packets of that publisher in publishing order: none is skipped, repeated, reordered or invented, whatever mix of multicast and retransmission they arrived by.",
  ["schedules", "fault_sequences", "histories"],
  "every loss, duplication, reordering and delay of multicast datagrams, every interleaving with retransmissions over the control channel, every pattern of polling and dispatching, any starting packet number",
  "the unit tests feed a handful of fixed packet-number sequences to the receive queue; nothing exercises the combination of multicast, retransmission, duplicate suppression and session start under arbitrary schedules",
  ["sub.c", "rmc_sub_read.c", "rmc_sub_packet.c", "pub.c", "rmc_pub_write.c", "rmc_pub_timeout.c"],
  [("duplicate suppression", "sub.c:sub_packet_is_duplicate"), ("gap-free promotion to the dispatch queue", "sub.c:sub_process_received_packets"), ("sorted insertion of out-of-order packets", "sub.c:sub_packet_received")],
  ["packet-ready callback and the dispatch-ready queue of the subscriber API"])

p("P02", "Every packet published to an established subscriber is delivered in the end",
  "Once a subscription is established, every later published packet is eventually handed to the subscriber's application as long as the connection stays up, ready descriptors are serviced and timeouts are processed when due, no matter which multicast datagrams were lost, duplicated or reordered and no matter how much newer traffic keeps flowing.",
  ["schedules", "fault_sequences"],
  "every subset of lost datagrams, every interleaving of publishing, reading, writing, acknowledging and timeout processing, with level-triggered and with one-shot polling",
  "liveness under loss needs all loss patterns and all schedules; the loopback tests only see a loss-free kernel",
  ["rmc_pub_timeout.c", "rmc_pub_write.c", "rmc_sub_read.c", "rmc_sub_timeout.c", "rmc_protocol.c", "pub.c", "sub.c"],
  [("retransmission of timed-out packets over the control channel", "rmc_pub_timeout.c:rmc_pub_timeout_process"), ("poll re-arming", "rmc_pub_write.c, rmc_sub_read.c, rmc_connection.c"), ("acknowledgement only of what was received", "rmc_sub_timeout.c")],
  ["dispatch-ready queue after the network and the timers have been allowed to settle"])

p("P03", "Payload content and length arrive intact on either path",
  "Every delivered packet carries exactly the bytes and the length that were published, for every payload size from empty to the maximum and whether it came by multicast or by retransmission; a payload above the maximum is refused up front and leaves no trace.",
  ["inputs", "schedules", "histories"],
  "every payload length the API accepts, every alignment of the connection buffers when the packet passes through them, every split of the byte stream",
  "tests use short text payloads and a buffer that never wraps in the middle of a command",
  ["rmc_pub_packet.c", "rmc_pub_write.c", "rmc_sub_read.c", "circular_buffer.c", "rmc_protocol.c"],
  [("scatter-gather multicast send", "rmc_pub_write.c:send_single_multicast_packet"), ("two-segment copy into and out of the connection buffers", "rmc_pub_write.c:rmc_pub_resend_packet, rmc_sub_read.c:process_cmd_packet, circular_buffer.c")],
  ["datagrams and stream bytes on the wire", "payload accessors of the subscriber API"])

p("P04", "The publisher releases every accepted payload exactly once and at the right time",
  "A payload accepted for publishing is passed to the release callback exactly once, with its own pointer, length and the context's user data: not before every subscriber that was connected when it was sent has acknowledged it, has had it queued for retransmission on its connection, or has disconnected, and immediately once the last of these happens (right after sending if there was no subscriber). A payload whose publishing was refused is never released, read or kept by the library.",
  ["histories", "schedules", "fault_sequences"],
  "every history of publishing, acknowledging (in any order and grouping, repeated, overlapping, unknown numbers), timing out, connecting, disconnecting and closing, over any number of subscribers",
  "reference counting mistakes show only for particular orders of acknowledgement, retransmission and disconnect; tests exercise one order",
  ["pub.c", "rmc_pub_packet.c", "rmc_pub_read.c", "rmc_pub_timeout.c", "rmc_pub_context.c"],
  [("per-packet owing count", "pub.c:pub_packet_sent, pub_packet_ack"), ("release on disconnect", "pub.c:pub_reset_subscriber"), ("self-acknowledge after queuing a retransmission", "rmc_pub_timeout.c:process_sent_packet_timeout")],
  ["payload_free callback of the publisher context"])

p("P05", "The subscriber hands out and releases every received payload exactly once",
  "Every payload buffer the subscriber obtains from the allocation callback is delivered to the application at most once and given to the release callback exactly once with its own length and the context's user data (when dispatched, or when dropped undelivered), except that the application alone owns a payload it dispatched with keep-payload; nothing stays allocated after the packet is dispatched, its connection is lost or the context is shut down.",
  ["histories", "schedules", "fault_sequences"],
  "every order of receiving, duplicating, dispatching (with release or keeping the payload), disconnecting and shutting down, with default and custom allocators",
  "tests never count allocations against releases over a history with gaps, duplicates and disconnects",
  ["rmc_sub_packet.c", "rmc_sub_read.c", "rmc_sub_context.c", "sub.c"],
  [("payload allocation and copy", "rmc_sub_read.c:decode_subscribed_multicast, process_cmd_packet"), ("release on dispatch", "rmc_sub_packet.c:rmc_sub_packet_dispatched"), ("release on disconnect", "sub.c:sub_reset_publisher")],
  ["payload_alloc / payload_free callbacks", "heap"])

p("P06", "Acknowledgements are truthful, complete and on time",
  "A subscriber acknowledges a packet number to a publisher only if that publisher's packet was really received by multicast in the current session, acknowledges every such packet exactly once in well-formed ranges with first not above last, and queues them on the right connection when timeouts are first processed at or after 50 ms from the oldest unacknowledged reception, not before. Retransmitted packets are not acknowledged.",
  ["histories", "schedules", "fault_sequences"],
  "every arrival order, gap pattern, duplicate, timeout moment and full-buffer condition, over several publishers",
  "the tests check the range merging for a few fixed sequences and never relate what is acknowledged on the wire to what was received",
  ["rmc_sub_timeout.c", "rmc_sub_packet.c", "rmc_sub_write.c", "sub.c"],
  [("received-range bookkeeping", "sub.c:sub_packet_add_to_received_interval"), ("range acknowledgement", "rmc_sub_write.c:rmc_sub_write_interval_acknowledgement"), ("per-publisher deadline list", "rmc_sub_packet.c:rmc_sub_packet_received")],
  ["bytes the subscriber writes on its control connections"])

p("P07", "Unacknowledged packets are resent over TCP once, in order, to those who owe them",
  "When timeouts are processed at or after 100 ms from sending, every packet a connected subscriber has not acknowledged is queued exactly once, oldest first, on that subscriber's control connection and on no other as far as its buffer has room, regardless of newer packets in flight and of other subscribers whose buffers are full; a packet is never resent before its timeout, after its acknowledgement, or to a subscriber that was not connected when it was sent.",
  ["histories", "schedules", "inputs"],
  "every combination of send times, acknowledgement patterns, buffer fill levels and processing moments over several subscribers",
  "retransmission decisions depend on combinations of timestamps, acknowledgements and buffer state over several subscribers that no test constructs",
  ["rmc_pub_timeout.c", "pub.c", "rmc_pub_write.c"],
  [("timed-out subscriber and packet selection", "pub.c:pub_get_timed_out_subscribers, pub_get_timed_out_packets"), ("retransmission", "rmc_pub_write.c:rmc_pub_resend_packet")],
  ["bytes the publisher writes on its control connections"])

p("P08", "The next-timeout query reports exactly the earliest deadline",
  "The publisher's next-timeout query returns the earlier of the next announcement time and 100 ms after the sending of the oldest packet still unacknowledged by some connected subscriber, the subscriber's returns 50 ms after the oldest multicast reception not yet acknowledged on any connection, and both return -1 when there is no such deadline. An event loop that sleeps until the reported time and then processes timeouts therefore never misses a deadline nor wakes up for nothing.",
  ["histories", "schedules"],
  "every history of sends, acknowledgements, receptions, connects, disconnects and clock values over several peers",
  "the value depends on minima over several peers and on list orders; tests do not query it over histories",
  ["rmc_pub_timeout.c", "rmc_sub_timeout.c", "pub.c", "sub.c", "rmc_sub_packet.c"],
  [("publisher deadline", "rmc_pub_timeout.c:rmc_pub_timeout_get_next, pub.c:pub_get_oldest_unackowledged_packet"), ("subscriber deadline", "rmc_sub_timeout.c:rmc_sub_timeout_get_next")],
  ["rmc_pub_timeout_get_next / rmc_sub_timeout_get_next"])

p("P09", "Flow control suspends and resumes publishing at the configured thresholds",
  "With throttling configured, accepting a packet while the number of sent but not fully acknowledged packets is at or above the suspend threshold suspends traffic; while suspended every publish attempt fails with EBUSY without any effect, and traffic resumes as soon as that number has fallen to the resume threshold or below, whether through acknowledgements, retransmissions or disconnects. Without thresholds traffic is never suspended, and thresholds with suspend below resume are rejected without effect.",
  ["histories", "schedules", "configurations"],
  "every pair of thresholds and every history of publishing, sending, acknowledging, timing out and disconnecting",
  "no test touches throttling; hysteresis errors need particular histories",
  ["rmc_pub_packet.c", "rmc_pub_context.c", "rmc_pub_read.c", "pub.c"],
  [("suspend decision", "rmc_pub_packet.c:rmc_pub_queue_packet"), ("resume decision", "rmc_pub_packet.c:rmc_pub_packet_ack")],
  ["return value of rmc_pub_queue_packet, rmc_pub_traffic_suspended"])

p("P10", "Announcements go out on schedule with the caller's content",
  "With an announce interval set, each processing of timeouts at or after the announcement time produces exactly one announcement datagram carrying the publisher's node id, its control address and port and exactly the bytes the announce callback provided, unless the callback declines or traffic is suspended; the next one is due one interval later, and setting the interval to zero stops them. Announcements never consume packet numbers, are never retransmitted or counted as unacknowledged, and do not disturb data packets or leak memory.",
  ["histories", "schedules", "configurations"],
  "every interleaving of announcements with queued and in-flight data, every callback result and payload length, interval changes at any moment",
  "the tests only see that some announcement triggers a connection",
  ["rmc_pub_timeout.c", "rmc_pub_context.c", "rmc_pub_packet.c", "pub.c", "rmc_pub_write.c"],
  [("announce scheduling", "rmc_pub_timeout.c:rmc_pub_timeout_process, rmc_pub_context.c:rmc_pub_set_announce_interval"), ("unnumbered packets", "pub.c:pub_queue_no_acknowledge_packet, pub_packet_sent")],
  ["datagrams sent by the publisher"])

p("P11", "Subscriptions are set up once per publisher, only when wanted, and after loss",
  "A subscriber connects to a publisher only in reaction to an announcement that its announce callback (told the announced address, port, node id and content) accepted, at the announced address and port or at the datagram's source address when none is given, and never holds or attempts two connections to the same publisher at once; the completion callback fires exactly once per successful connection. Data from publishers it is not connected to is never delivered, and after a failed attempt or a lost connection the next accepted announcement starts over with a fresh session.",
  ["histories", "schedules", "fault_sequences"],
  "every order of announcements, data, connection completion, failure, rejection and loss, over several publishers",
  "the loopback tests cover one successful connection; repeated announcements during connection set-up, failures and reconnects are never exercised",
  ["rmc_sub_read.c", "rmc_sub_write.c", "rmc_connection.c", "rmc_pub_read.c"],
  [("announce handling", "rmc_sub_read.c:decode_unsubscribed_multicast"), ("non-blocking connect and completion", "rmc_connection.c:rmc_conn_connect_tcp_by_address, rmc_conn_complete_connection")],
  ["connect() calls, announce and subscription-complete callbacks"])

p("P12", "Poll registrations always mirror the descriptors and what they wait for",
  "Each open descriptor is announced once through the poll-add callback and withdrawn exactly once through poll-remove before it is closed, every modification names a currently registered descriptor with its own index, and a modification whose old and new interest are equal is a mere re-arm that never stands for a change. Between API calls the registered interest covers reading on every connected peer and listening socket and includes writing exactly while bytes, datagrams or a connection attempt are pending on that descriptor; with one-shot polling every handled event is re-armed.",
  ["histories", "schedules", "fault_sequences"],
  "every history of API calls and readiness events, including short writes, full buffers, failed system calls and connection loss, with level-triggered and one-shot event loops",
  "the tests' event loop ignores redundant modifications and would not notice a lost re-arm, a stale registration or a missing write interest until it hangs",
  ["rmc_connection.c", "rmc_pub_read.c", "rmc_pub_write.c", "rmc_sub_read.c", "rmc_sub_write.c", "rmc_pub_context.c", "rmc_sub_context.c", "rmc_pub_packet.c"],
  [("poll callbacks", "rmc_connection.c, rmc_pub_write.c, rmc_sub_write.c")],
  ["poll_add / poll_modify / poll_remove callbacks against the descriptor table"])

p("P13", "Control messages arrive whole, in order and attributed to their sender",
  "A control message accepted for sending to a connected publisher, addressed by node id or by address and port, reaches that publisher's control callback exactly once, in sending order, with identical bytes and length and with the peer's address and port, for every size that fits the connection buffer and every buffer position; a message that is refused (no such connection, not connected, empty, no room) leaves no partial bytes behind. Without a callback messages are discarded harmlessly.",
  ["inputs", "histories", "schedules"],
  "every message size, buffer alignment, stream split and interleaving with acknowledgements and packets, over several connections",
  "the tests send no control message across a buffer wrap and never compare contents",
  ["rmc_sub_write.c", "rmc_pub_read.c", "circular_buffer.c", "rmc_connection.c"],
  [("message framing", "rmc_sub_write.c:rmc_sub_write_control_message"), ("message dispatch", "rmc_pub_read.c:process_control_message")],
  ["control message callback of the publisher, bytes on the wire"])

p("P14", "Command processing does not depend on how the TCP stream is split",
  "Feeding the same byte stream to a publisher or a subscriber in any sequence of partial reads has the same effect as feeding it at once: each complete command takes effect exactly once, as soon as its last byte has been read, and incomplete commands take no effect and lose no bytes; likewise any sequence of partial writes transmits exactly the queued bytes once and in order.",
  ["schedules", "inputs"],
  "every way to cut a stream of acknowledgements, control messages and packets into reads and writes, at every buffer position",
  "loopback sockets deliver commands in one piece, so the partial-command paths are never run",
  ["rmc_protocol.c", "rmc_pub_read.c", "rmc_sub_read.c", "circular_buffer.c"],
  [("incremental command dispatch", "rmc_protocol.c:rmc_conn_process_tcp_read, rmc_conn_tcp_read"), ("partial write accounting", "rmc_protocol.c:rmc_conn_process_tcp_write")],
  ["callbacks, acknowledgements and deliveries after each read"])

p("P15", "Connection slots are bounded, counted truthfully and reusable",
  "A context never has more simultaneous connections than the maximum it was created with, the surplus is refused without disturbing the established ones, and every slot freed by a close or failed attempt can be used again with no trace of its former peer; the reported maximum, connection and socket counts always equal the real numbers.",
  ["histories", "fault_sequences", "configurations"],
  "every history of connects, rejects, failures and closes in any slot order for every table size",
  "tests never fill the table or reuse slots",
  ["rmc_connection.c", "rmc_pub_context.c", "rmc_sub_context.c", "rmc_pub_read.c"],
  [("slot allocation", "rmc_connection.c:_get_free_slot, _reset_max_connection_ind, rmc_conn_reset_connection"), ("counters", "rmc_connection.c:active_connection_count")],
  ["subscriber, publisher and socket counts of the API, descriptor table"])

p("P16", "Losing or closing a connection is clean and local",
  "When a peer disconnects or a connection is closed locally (also from inside a callback), the descriptor is withdrawn and closed once, the disconnect callback (publisher side) reports that peer once, everything owed to or by that connection is dropped, and packets already ready for dispatch stay available; other connections and queued packets are unaffected and the context keeps working, including for the same peer returning.",
  ["histories", "schedules", "fault_sequences"],
  "a disconnect, reset or local close at every point of every history, in every connection state, including in the middle of a command",
  "disconnects occur in tests only at the very end",
  ["rmc_pub_read.c", "rmc_sub_read.c", "rmc_connection.c", "pub.c", "sub.c"],
  [("publisher-side close", "rmc_pub_read.c:rmc_pub_close_connection"), ("subscriber-side close", "rmc_sub_read.c:rmc_sub_close_connection")],
  ["disconnect callback, counters, pending status, later behaviour"])

p("P17", "Malformed or hostile network input never breaks memory safety or progress",
  "No datagram and no byte stream, however truncated, oversized, contradictory or random, makes a publisher or subscriber crash, read or write outside its memory, hang, deliver corrupted packets, or disturb the service of other peers; malformed datagrams are dropped and protocol violations on a subscriber's connection close that connection.",
  ["inputs", "histories"],
  "every short byte sequence over a field-boundary alphabet and every header-field combination at its boundary values, in every connection state",
  "tests only ever send well-formed traffic",
  ["rmc_sub_read.c", "rmc_pub_read.c", "rmc_protocol.c", "sub.c", "pub.c"],
  [("datagram validation", "rmc_sub_read.c:process_multicast_read"), ("command validation", "rmc_protocol.c:rmc_conn_process_tcp_read")],
  ["return codes, memory, other connections"])

p("P18", "Transient system-call failures lose nothing and do not wedge the context",
  "A would-block, interrupted, short or failed socket operation at any single point is reported or retried without losing, duplicating or corrupting queued packets, acknowledgements or messages, without leaking or double-closing descriptors, and the context carries on working once the condition is over.",
  ["fault_sequences", "schedules"],
  "each kind of failure injected at each system call of each history, alone and repeated",
  "the tests never see a failing system call",
  ["rmc_connection.c", "rmc_protocol.c", "rmc_pub_write.c", "rmc_pub_read.c", "rmc_sub_read.c", "rmc_sub_write.c", "rmc_pub_context.c", "rmc_sub_context.c"],
  [("would-block handling", "rmc_pub_write.c:send_single_multicast_packet, rmc_protocol.c"), ("set-up error paths", "rmc_pub_context.c:rmc_pub_activate_context, rmc_sub_context.c:rmc_sub_activate_context")],
  ["deliveries, descriptor table and poll registrations after recovery"])

p("P19", "The circular buffer is a faithful bounded byte queue",
  "For every capacity and every sequence of allocate, write, read, peek at an offset, segment view, free and trim operations, the buffer behaves as a first-in first-out byte queue that holds one byte less than its size: it reports the right used and free amounts, grants exactly the requested space or refuses, returns the bytes in order, and never touches memory outside its storage.",
  ["inputs", "histories"],
  "every operation sequence with every argument for small capacities, i.e. every reachable pair of read and write positions, and boundary arguments for larger ones",
  "the tests walk a few fixed positions of one buffer and check index values rather than contents",
  ["circular_buffer.c"],
  [("ring arithmetic", "circular_buffer.c")],
  ["circ_buf_* API"])

p("P20", "The linked list behaves as a sequence under every operation",
  "For every sequence of insertions, sorted insertions, removals, pops and searches from either end the list contains exactly the expected elements in the expected order, forwards and backwards, with the right size, with sorted insertion keeping a sorted list sorted and placing a new element next to its equals on the side the search started from, and with every node released exactly once.",
  ["histories", "inputs"],
  "every operation sequence up to a bounded length over every list content up to a bounded size",
  "the tests run one script of operations",
  ["rmc_list_template.h", "rmc_list.h"],
  [("list template", "rmc_list_template.h")],
  ["generated list API"])

p("P21", "Received-packet ranges represent exactly the received set",
  "For every order in which a set of packet numbers arrives, the recorded ranges are disjoint, sorted, maximal and cover exactly that set, and the oldest-reception time they report is the earliest arrival among them.",
  ["inputs", "histories"],
  "every permutation of every set of packet numbers in a bounded window placed at ordinary and extreme number bases, with every pattern of arrival times",
  "the tests check some fixed sequences and not the timestamps",
  ["sub.c"],
  [("range insertion and merging", "sub.c:sub_packet_add_to_received_interval"), ("oldest reception", "sub.c:sub_oldest_unacknowledged_packet")],
  ["received ranges and the oldest unacknowledged timestamp"])

p("P22", "Packets are numbered consecutively and multicast in publishing order",
  "Accepted data packets are numbered 1, 2, 3, ... in the order they were accepted, each is multicast exactly once and in that order with its own content, refused publish attempts consume no number, and a send that would block is retried later without skipping, repeating or reordering.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of publishing, announcing, sending, blocking and subscriber traffic",
  "tests send few packets with no blocking and never interleave announcements",
  ["pub.c", "rmc_pub_packet.c", "rmc_pub_write.c"],
  [("numbering and ordered queue", "pub.c:pub_queue_packet, pub_next_queued_packet"), ("multicast send", "rmc_pub_write.c:process_multicast_write")],
  ["datagrams sent by the publisher"])

p("P23", "Status queries tell the truth",
  "At every moment the reported queue length equals the packets accepted but not yet multicast, the pending query reports that number, the exact number of bytes waiting on control connections and the number of outstanding (packet, subscriber) acknowledgements and answers busy exactly when any is non-zero, and the dispatch-ready count equals the packets waiting for the application.",
  ["histories", "schedules"],
  "after every step of every explored history",
  "tests poll the pending query only to wait for shutdown",
  ["rmc_pub_write.c", "rmc_pub_packet.c", "rmc_sub_packet.c", "rmc_connection.c"],
  [("pending summary", "rmc_pub_write.c:rmc_pub_context_get_pending"), ("queue length", "rmc_pub_packet.c:rmc_pub_queue_length")],
  ["rmc_pub_context_get_pending, rmc_pub_queue_length, rmc_sub_get_dispatch_ready_count"])

p("P24", "Shutting a context down at any point releases everything it holds",
  "Deactivating or deleting a context in any state, including never activated, activation failed, connecting, with queued, in-flight, undelivered or undispatched packets, or already deactivated, closes each of its descriptors exactly once, withdraws each poll registration exactly once, releases every payload it still owns exactly once and frees all memory on deletion, without touching anything it does not own; a deactivated context can be activated again.",
  ["histories", "fault_sequences", "configurations"],
  "deactivate and delete from every state reached by the explored histories, with every activation system call failing",
  "tests end by exiting the process",
  ["rmc_pub_context.c", "rmc_sub_context.c", "rmc_connection.c", "pub.c", "sub.c"],
  [("shutdown", "rmc_pub_context.c:rmc_pub_deactivate_context, rmc_pub_delete_context; rmc_sub_context.c:rmc_sub_deactivate_context, rmc_sub_delete_context")],
  ["descriptor table, poll registrations, heap, release callbacks"])

p("P25", "Peers do not interfere with each other",
  "With several publishers or subscribers, what one peer sends, loses, acknowledges, delays or disconnects never changes what is delivered, acknowledged, retransmitted or timed for another: each publisher's stream at a subscriber and each subscriber's service at a publisher is what it would be if the other peers were absent.",
  ["schedules", "histories"],
  "every interleaving of the traffic of two publishers at one subscriber and of several subscribers at one publisher, including a silent, stalled, overflowing or vanishing one",
  "the multi-node tests run all peers in good health",
  ["rmc_sub_read.c", "rmc_sub_timeout.c", "rmc_sub_packet.c", "rmc_pub_timeout.c", "pub.c", "rmc_connection.c"],
  [("peer lookup by address", "rmc_connection.c:rmc_conn_find_by_address"), ("per-peer state", "rmc_sub_context::publishers, rmc_pub_context::subscribers"), ("per-peer timeout processing", "rmc_pub_timeout.c, rmc_sub_timeout.c")],
  ["deliveries, acknowledgements, retransmissions and deadlines per peer"])

p("P26", "Everything sent conforms to the documented packet and command layout",
  "Every datagram is a 20-byte header (packet number, node id, payload length, control address, control port, in that order and packed) followed by exactly the payload and goes to the configured group and port; every control byte stream is a sequence of complete commands of the defined layouts (packet, range acknowledgement, control message), and independent implementations of these layouts interoperate with publisher and subscriber in both directions.",
  ["inputs", "histories", "configurations"],
  "every packet, acknowledgement and message produced in the explored histories, over field values at their boundaries and several configurations of addresses and ports",
  "publisher and subscriber tests share the same structures, so a layout change in both goes unnoticed",
  ["rmc_protocol.h", "rmc_pub_write.c", "rmc_sub_write.c", "rmc_sub_read.c", "rmc_pub_read.c"],
  [("header set-up", "rmc_pub_write.c:setup_packet_header"), ("command layouts", "rmc_protocol.h")],
  ["raw bytes on the sockets"])

p("P27", "Event handlers report truthfully what they did",
  "Each successful call of a read or write event handler reports through its outcome argument what it did, as documented: a subscriber connection accepted, stream data read or sent, a connection found closed by its peer, an outgoing connection completed, a multicast packet sent, a looped-back multicast discarded, multicast data taken from a subscribed publisher, or multicast data discarded because its publisher's connection is just being started or not complete yet. The outcome argument, and the callbacks that modify and remove poll registrations, may be left out without any other effect.",
  ["histories", "schedules", "inputs"],
  "every event handled without a failure in the explored histories, for every kind of descriptor and state of its connection, with and without the outcome argument",
  "the tests print the outcome but never compare it",
  ["reliable_multicast.h", "rmc_pub_read.c", "rmc_sub_read.c", "rmc_pub_write.c", "rmc_sub_write.c", "rmc_protocol.c"],
  [("documented outcomes", "reliable_multicast.h:RMC_READ_*, RMC_WRITE_*"), ("setting them", "rmc_pub_read.c:rmc_pub_read, rmc_sub_read.c:rmc_sub_read, rmc_pub_write.c:rmc_pub_write, rmc_sub_write.c:rmc_sub_write, rmc_protocol.c:rmc_conn_process_tcp_read")],
  ["outcome argument of every handler call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
