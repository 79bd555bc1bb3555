"""Which harness entries decide which property, with their bounds."""


def E(entry, bounds, covers=(), **kw):
    return dict(entry=entry, bounds=bounds, covers=list(covers), **kw)


MACRO = dict(unit="macros", steps=60000000)

PROPS = {
    "C01": {
        "entries": [
            E("c01_encode", "every type, request ID, service ID, byte order, previous buffer contents; buffers of 12 and 13 bytes", ["decoded"]),
            E("c01_decode", "all 2^96 headers, 3 byte orders", ["accepted", "rejected"]),
            E("c01_constructors", "every request ID, service ID, 1 body byte", ["constructed"]),
        ],
    },
    "C02": {
        "entries": [
            E("c02_write_one", "1 message, body 0..2 bytes, 5 arbitrary partial writes/delays", ["written"]),
            E("c02_write_two", "2 messages, bodies 0..2 bytes, 3 arbitrary partial writes/delays", ["written"]),
            E("c02_write_long", "1 message, body of 24, 63 or 64 (= limit) bytes, 2 arbitrary partial writes/delays", ["written"]),
            E("c02_write_large", "a body of 255..70001 bytes (9 sizes, first, middle and last byte arbitrary) and a small one, 6 patterns of partial writes and delays", ["written"], steps=200000000),
            E("c02_write_tcp", "TCP, 1 message, body 0..2 bytes, 3 arbitrary partial writes/delays", ["written"]),
            E("c02_write_error", "stream fails after 0..17 bytes, 3 arbitrary partial writes/delays", ["failed"]),
        ],
    },
    "C03": {
        "entries": [
            E("c03_read_one", "1 message, body 0..2 bytes, 4 arbitrary splits/delays", ["read"]),
            E("c03_read_two", "2 messages, bodies 0..2 bytes, 3 arbitrary splits/delays", ["read"]),
            E("c03_read_long", "1 message, body of 24, 63 or 64 (= limit) bytes, 2 arbitrary splits/delays", ["read"]),
            E("c03_read_large", "a body of 255..70001 bytes (9 sizes, first, middle and last byte arbitrary) and a small one, 6 patterns of splits and delays", ["read"], steps=200000000),
            E("c03_read_large_end", "the same bodies, with the end of the connection inside or the reading future dropped at every delay", ["cancelled", "ended"], steps=200000000),
            E("c03_read_tcp", "TCP, 1 message, body 0..1 bytes, 3 arbitrary splits/delays", ["read"]),
            E("c03_read_cancel", "1 message, body 0..2 bytes, 4 splits/delays, reading future dropped at every delay", ["read", "cancelled"]),
        ],
    },
    "C04": {
        "entries": [
            E("c04_hostile", "0..22 arbitrary bytes, limit 0..3, 1 arbitrary split/delay, then silence, end of stream or reset",
              ["delivered", "malformed", "end in header", "end in body"]),
            E("c04_hostile_two", "36 arbitrary bytes (two messages and more), limit 0..2, then end of stream", ["delivered", "malformed"]),
            E("c04_hostile_limit", "16 arbitrary bytes, every limit up to 2^32-13", ["accepted", "rejected"]),
        ],
    },
    "C05": {
        "entries": [
            E("c05_limit", "3 messages of 0..4 bytes, limit 0..3, 1 arbitrary partial write/delay", ["refused", "end"]),
            E("c05_limit_huge", "limits from 2^32-16, bodies around 2^32 bytes", ["accepted", "refused"]),
            E("c05_limit_large", "limits of 12..70000 bytes (9 values), bodies of 2 bytes less to 2 bytes more, reading and writing", ["read", "written"], steps=200000000),
        ],
    },
    "C06": {
        "entries": [
            E("c06_transfer", "1 message, body of 0..3 bytes, 0..3 descriptors, 2 arbitrary delays", ["end"]),
            E("c06_transfer_two", "2 messages, bodies of 0..1 bytes, 0..1 descriptors, 1 arbitrary delay", ["end"]),
            E("c06_cancelled", "a send or receive dropped at any of its delays", ["cancelled", "end"]),
            E("c06_limits", "1 message, every body and descriptor limit and count around it", ["refused", "sent", "end"]),
            E("c06_failures", "every failure of sendmsg and recvmsg, at any call", ["end"]),
            E("c06_large", "a body of 255..70001 bytes (9 sizes, first, middle and last byte arbitrary) with 0..253 descriptors and a small message, 1 arbitrary delay", ["end"], steps=200000000),
        ],
        "assumptions": ["the kernel side of a seqpacket socket is the harness's model: one sendmsg is one datagram, recvmsg truncates with MSG_TRUNC/MSG_CTRUNC"],
        "outside": "the kernel; more than 2 messages; more than 3 descriptors per message or bodies above 3 bytes, but for the sizes listed",
    },
    "C07": {
        "entries": [
            E("c07_hostile", "a datagram of 1..16 arbitrary bytes with up to 40 descriptors, limits 0..2, receiver out of descriptors or not", ["delivered", "invalid", "too large", "end"]),
            E("c07_peer", "a datagram to a peer, delivered to the application or refused", ["received", "refused", "end"]),
            E("c07_large", "datagrams around 12 large limits of the body and the descriptors", ["delivered", "too large", "end"], steps=200000000),
        ],
        "assumptions": ["the kernel side of a seqpacket socket is the harness's model: one sendmsg is one datagram, recvmsg truncates with MSG_TRUNC/MSG_CTRUNC"],
        "outside": "the kernel; longer datagrams, but for the sizes listed",
    },
    "C09": {
        "entries": [
            E("c09_route_two", "2 open requests per direction, 2 arbitrary messages", ["request", "duplicate request", "response", "end"]),
            E("c09_route_three", "2 open requests per direction, 3 arbitrary messages", ["unknown response", "unknown requester update", "unknown responder update", "end"]),
            E("c09_route_respond", "2 open requests per direction, 3 arbitrary messages or responses", ["request", "end"]),
            E("c09_kept", "an open request of which only a writing handle is left, every ID", ["end"]),
            E("c09_many", "60 open requests per direction, 1 arbitrary message", ["duplicate request", "request", "response", "end"], steps=200000000),
            E("c09_many_rounds", "300 requests in each direction one after the other, with updates, every ID and body byte", ["end"], steps=200000000),
        ],
    },
    "C10": {
        "entries": [
            E("c10_race_two", "2 tasks, 1 send each", ["responded", "end"]),
            E("c10_race_two_each", "2 tasks, 2 sends each", ["responded", "end"]),
            E("c10_race_three", "3 tasks, 1 send each", ["responded", "end"]),
            E("c10_race_split", "2 tasks, 1 send each, 2 arbitrary partial writes/delays", ["responded", "end"]),
            E("c10_given_up", "2 sends, 1 of them given up at any point", ["sent though given up", "end"]),
            E("c10_given_up_split", "2 sends, 1 of them given up at any point, 1 arbitrary partial write/delay", ["sent though given up", "end"]),
            E("c10_dropped", "reading handle dropped, optional update of the requester in between", ["update", "end"]),
            E("c10_requester", "requester with optional update before the response", ["update", "end"]),
            E("c10_many", "100 handles that answer, any of them first", ["end"], steps=200000000),
        ],
    },
    "C12": {
        "entries": [
            E("c12_unread", "3 requests or stream messages, equal or arbitrary IDs", ["answered", "stream", "end"]),
            E("c12_unread_four", "4 requests or stream messages, equal or arbitrary IDs", ["answered", "stream", "end"]),
            E("c12_unread_open", "1 request open from before, then 2 requests or stream messages, arbitrary IDs", ["answered", "duplicate", "stream", "end"]),
            E("c12_unread_open_two", "2 requests open from before, then 3 requests or stream messages, arbitrary IDs", ["answered", "duplicate", "stream", "end"]),
            E("c12_unread_limit", "2 requests, send limit 0..40", ["answered", "closed", "end"]),
            E("c12_many", "200 requests from any ID on, before or after the read handle is dropped", ["end"], steps=200000000),
        ],
    },
    "C15": {
        "entries": [
            E("c15_too_large_two", "2 sends, each too large or not, then a stray message", ["response", "error response", "stray", "end"]),
            E("c15_too_large_three", "3 sends, each too large or not, then a stray message", ["response", "error response", "stray", "end"]),
            E("c15_many", "150 refused sends of any kind", ["end"], steps=200000000),
        ],
    },
    "C08": {
        "entries": [
            E("c08_history", "5 arbitrary steps (send, abandon a send, respond to any, drop a handle, nothing) from the library's own first ID", ["request", "abandoned", "response", "dropped", "unread", "end"]),
            E("c08_jump", "3 such steps, the search for each ID starts at any of the 2^32 values", ["request", "jump", "response", "end"], hooked=["jump"]),
            E("c08_block", "5 open requests from any of the 2^32 values, then one more search starting inside", ["again", "end"], hooked=["again"]),
            E("c08_exhausted", "102 open requests, also across the end of the ID range, then one more search starting inside", ["again", "end"], hooked=["again"]),
        ],
        "thorough": [
            E("c08_jump_four", "4 such steps, the search for each ID starts at any of the 2^32 values", ["request", "jump", "response", "end"], hooked=["jump"], time=3000),
        ],
        "assumptions": ["the hook (cfg fizyr_rpc_verif) sets where the search for the next ID starts; without it only IDs from the first one on are explored"],
        "outside": "more than 4 requests in arbitrary positions of the ID range, more than 102 open requests",
    },
    "C11": {
        "entries": [
            E("c11_sent_five", "5 arbitrary arrivals or receive calls, some waiting, some cancelled", ["update", "no update", "response", "update instead", "woken", "cancelled", "end"]),
            E("c11_sent_end", "4 such steps or the end of the connection", ["update", "response", "ended", "end"]),
            E("c11_sent_six", "6 such steps or the end of the connection", ["update", "response", "update instead", "woken", "cancelled", "ended", "end"]),
            E("c11_received", "5 arbitrary arrivals, receive calls or the response, every request ID", ["update", "answered", "cancelled", "ended", "end"]),
            E("c11_peer", "5 arbitrary arrivals or receive calls on the peer handle", ["woken", "cancelled", "end"]),
            E("c11_many", "1100 messages for each of 3 receivers before anything is received", ["end"], steps=200000000),
        ],
    },
    "C13": {
        "entries": [
            E("c13_ends", "end of the stream or reset after 0..4 messages and a part of another one", ["end", "reset", "stream"]),
            E("c13_ends_split", "the same with 2 arbitrary splits or delays of the reads", ["end", "reset", "stream"]),
            E("c13_close", "closed by either handle, by dropping the peer or by a failing write, at every point of two sends under way", ["sent before", "closed before", "end"]),
            E("c13_unread", "end of the stream, reset or last handle dropped after 0..2 messages, the read handle dropped at any point", ["dropped", "ended", "end"]),
            E("c13_unread_split", "the same with 1 arbitrary split or delay of the reads", ["dropped", "ended", "end"]),
            E("c13_whole", "the whole handle closed or dropped while receives and possibly a send wait", ["sending", "end"]),
            E("c13_half_closed", "end of the stream while any kind of message is being written with 2 arbitrary partial writes/delays", ["stalled", "end"]),
            E("c13_write_fails", "the write of any kind of message (also the peer's own refusals) fails after 0..17 bytes, at once or after 1 partial write or delay, its sender waiting or given up, another send waiting or not", ["given up", "split", "end"]),
            E("c13_stalled", "closed in any way while a write is stalled at any byte for good", ["stalled", "end"]),
            E("c13_seqpacket", "a peer of a seqpacket socket: 0..4 messages with descriptors, then the end, a reset, a failing send or a close, waited for before or later", ["send", "stream", "response", "end"]),
            E("c13_typed", "3 arbitrary steps that clone, drop or close generated clients and servers, made in any way from the peer's handles", ["alive", "gone", "clone", "drop", "client", "server", "close handle", "end"]),
            E("c13_many", "100 open requests in each direction, 300 messages waiting, 100 sends under way, ended in 5 ways", ["end"], steps=200000000),
        ],
    },
    "C14": {
        "entries": [
            E("c14_schedules", "2 peers, 1 request and 1 further message, first 9 scheduling decisions arbitrary", ["answered", "end"]),
            E("c14_narrow", "2 peers, 1 request and 2 further messages through a buffer of 1..20 bytes", ["answered", "end"]),
            E("c14_three", "2 peers, 1 request and 3 further messages, 1 arbitrary split, first 2 scheduling decisions arbitrary", ["answered", "end"]),
            E("c14_split", "2 peers, 1 request and 1 further message, 1 arbitrary split, first 5 scheduling decisions arbitrary", ["answered", "end"]),
            E("c14_large", "bodies of 4096, 65543 and 300000 bytes with 1 arbitrary byte at 3 places, through buffers of 1000, 65536 and 1048576 bytes, first 3 scheduling decisions arbitrary", ["end"]),
            E("c14_many", "2 peers, 150 requests, updates and stream messages and their answers through buffers of 5 sizes, first 2 scheduling decisions arbitrary", ["end"], steps=200000000),
        ],
        "thorough": [
            E("c14_two", "2 peers, 1 request and 2 further messages, 2 arbitrary splits", ["answered", "end"], time=3000),
            E("c14_schedules_two", "2 peers, 1 request and 2 further messages, first 12 scheduling decisions arbitrary", ["answered", "end"], time=3000),
            E("c14_split_deep", "2 peers, 1 request and 2 further messages, 3 arbitrary splits", ["answered", "end"], time=3000),
        ],
    },
    "C16": {
        "entries": [
            E("c16_five", "5 arbitrary steps that clone, drop or use handles", ["alive", "clone", "drop", "gone", "end"]),
            E("c16_six", "6 arbitrary steps that clone, drop or use handles", ["alive", "clone", "drop", "gone", "end"]),
            E("c16_same_peer", "any two of four handles of two peers", ["end"]),
            E("c16_arrivals", "5 such steps or messages that arrive, with a receiver or without", ["alive", "gone", "clone", "drop", "arrives", "end"]),
            E("c16_typed", "4 arbitrary steps that clone, drop or close generated clients and servers, made in any way from the peer's handles", ["alive", "gone", "clone", "drop", "client", "server", "close handle", "end"]),
            E("c16_many", "600 clones dropped in 2 orders, any of 4 last", ["end"], steps=200000000),
        ],
    },
    "C21": {
        "entries": [
            E("c21_run", "3 connections or delays, each connection gone when accepted or not, one misbehaving later, first 2 scheduling decisions arbitrary", ["failed", "gone", "misbehaves", "end"]),
            E("c21_run_schedules", "2 connections or delays, first 6 scheduling decisions arbitrary", ["end"]),
            E("c21_run_tcp", "TCP, 2 connections or delays", ["end"]),
            E("c21_accept", "3 connections, failures or abandoned accepts", ["cancelled", "gone", "received", "end"]),
            E("c21_accept_tcp", "TCP, 2 connections, failures or abandoned accepts", ["end"]),
            E("c21_accept_seqpacket", "seqpacket, 3 connections, failures or abandoned accepts", ["gone", "received", "end"]),
            E("c21_many", "80 connections, some gone, some misbehaving", ["end"], steps=200000000),
        ],
        "assumptions": ["listening sockets are the harness's model"],
        "outside": "the kernel; more than 3 connections, but for one case with 80",
    },
    "C22": {
        "entries": [
            E("c22_bind_stream", "every file mode at the path, symbolic link or not, every combination of failing calls, every last character of the path", ["removed", "bound", "failed", "end"]),
            E("c22_bind_seqpacket", "the same for seqpacket sockets", ["removed", "bound", "failed", "end"]),
            E("c22_bind_tcp", "every last character of the address", ["failed", "end"]),
            E("c22_connect_unix", "every last character of the path, every remote information, connection refused or gone", ["failed", "end"]),
            E("c22_connect_tcp", "every last character of the address, every port, connection refused or gone", ["failed", "end"]),
            E("c22_connect_seqpacket", "every last character of the path, every remote information, connection refused or gone", ["failed", "end"]),
        ],
        "assumptions": ["the file system and the namespace of sockets are the harness's model of statx, unlink, bind, listen, connect and the functions of tokio built on them"],
        "outside": "name resolution; races with other processes between looking at the path and removing it",
    },
    "C23": {
        "entries": [
            E("c23_completes", "any of the 6 kinds of send, 3 arbitrary partial writes/delays", ["partial", "end"]),
            E("c23_refused", "any of the 6 kinds of send, body of 0..4 bytes with limit 2, connection closed or not", ["sent", "refused", "end"]),
            E("c23_fails", "any of the 6 kinds of send, stream fails after 0..17 bytes, another send waiting or not", ["end"]),
            E("c23_cancelled", "any of the 6 kinds of send, dropped after 0..3 steps", ["cancelled", "sent", "end"]),
            E("c23_concurrent_one", "2 tasks, 1 message each, 2 arbitrary partial writes/delays", ["end"]),
            E("c23_concurrent_two", "2 tasks, 2 messages each", ["end"]),
            E("c23_concurrent_two_split", "2 tasks, 2 messages each, 1 arbitrary partial write/delay", ["end"]),
            E("c23_many", "300 tasks that send, a quarter of them stopped", ["end"], steps=200000000),
        ],
    },
    "C25": {
        "entries": [
            E("c25_messages", "4 arbitrary incoming messages or receive calls, all IDs", ["request", "end"]),
            E("c25_drops", "3 arbitrary incoming messages, receive calls, responses or dropped handles, all IDs", ["request", "answered", "end"]),
            E("c25_unread", "3 arbitrary incoming messages or dropped handles, the read handle dropped from any point on, all IDs", ["unread", "answered", "end"]),
            E("c25_bytes_eof", "20 arbitrary bytes, then the end of the stream", ["ended", "error", "request", "stream", "end"]),
            E("c25_bytes_open", "20 arbitrary bytes, then silence", ["alive", "ended", "error", "request", "stream", "end"]),
            E("c25_bytes_two", "33 arbitrary bytes, then the end of the stream", ["end"]),
            E("c25_many", "400 messages that belong to nothing", ["end"], steps=200000000),
        ],
        "thorough": [
            E("c25_unread_four", "4 arbitrary incoming messages or dropped handles, the read handle dropped from any point on, all IDs", ["unread", "answered", "end"], time=3000),
            E("c25_drops_four", "4 arbitrary incoming messages, receive calls, responses or dropped handles, all IDs", ["request", "answered", "end"], time=3000),
        ],
    },
    "C26": {
        "entries": [
            E("c26_flood", "2 peers, 2 messages each way, buffers of 1..24 bytes, first 3 scheduling decisions arbitrary", ["end"]),
            E("c26_flood_schedules", "2 peers, 1 message each way, buffers of 1..24 bytes, first 8 scheduling decisions arbitrary", ["end"]),
            E("c26_stalled", "a write stalled at any byte while 4 messages arrive", ["stalled", "end"]),
            E("c26_many_stalled", "a write stalled at any byte while 2260 messages arrive and 40 sends wait", ["end"], steps=200000000),
            E("c26_many_flood", "2 peers, 400 messages each way, buffers of 3 sizes, first 2 scheduling decisions arbitrary", ["end"], steps=200000000),
        ],
        "thorough": [
            E("c26_flood_deep", "2 peers, 1 message each way, buffers of 1..24 bytes, every schedule", ["end"], time=3000),
        ],
    },
    "C24": {
        "entries": [
            E("c24_made", "every constructor, texts of 0..3 bytes, 6 lengths, 4 types, 6 service IDs, 9 kinds and every number of system errors", ["errno", "made", "wrapped"]),
            E("c24_stream", "7 failures of the byte stream transport, 3 limits, 3 excesses", ["write", "end", "reset", "done"]),
            E("c24_unix", "7 failures of the seqpacket transport, 2 limits, 2 excesses", ["descriptors", "end", "done"]),
            E("c24_connection", "8 failures of a connection, 4 request IDs", ["unknown", "duplicate", "wrong type", "closed", "too large", "end", "invalid", "done"]),
            E("c24_typed", "unknown and invalid requests, stream messages, updates and responses of a generated interface",
              ["UnknownStream", "UnknownRequest", "InvalidStream", "InvalidRequest", "UnknownUpdate", "InvalidUpdate", "response", "done"]),
            E("c24_debug_typed", "every handle and message of a generated interface, 4 request IDs", ["received", "stream", "sent", "end"]),
            E("c24_debug", "every handle and message, 4 request IDs, 6 service IDs", ["end"]),
        ],
    },
    "C27": {
        "entries": [
            E("c27_read", "6 adapters, 1 message with 0..2 bytes, 2 arbitrary splits/delays, then each end", ["read", "end"]),
            E("c27_write", "6 adapters, 2 messages of 0..3 bytes, limit 2, 2 arbitrary partial writes/delays, failure", ["written", "refused"]),
            E("c27_datagrams", "5 adapters, 1 message of 0..2 bytes, 0..1 descriptors, 1 delay on each side", ["end"]),
            E("c27_own_transport", "a peer over a transport of the user with 4 messages, 3 arbitrary splits/delays, 3 ends", ["end"]),
            E("c27_listeners", "6 adapters, 2 kinds of sockets, 3 events", ["end"]),
            E("c27_own_listener", "a listener of the user behind 5 adapters, 1 connection or failure", ["accepted", "failed", "end"]),
            E("c27_stream_made", "10 ways to make a transport, 18 configurations, bodies at and above the limit", ["written", "end"]),
            E("c27_unix_made", "5 ways to make a transport, bodies and descriptors at and above the limit", ["written", "end"]),
            E("c27_bodies", "11 ways to make a body, 0..3 bytes, 0..2 descriptors", ["end"]),
            E("c27_spawned", "a spawned peer, 1 message", ["end"]),
        ],
    },
    "C28": {
        "entries": [
            E("c28_rounds", "each of 15 kinds of use, 192 times; any first ID and value", ["end"], steps=200000000),
            E("c28_rounds_two", "each pair of 15 kinds of use, 192 times; any first ID and value", ["end"], steps=200000000),
            E("c28_unread", "4 kinds of messages that nobody can receive, 192 times", ["end"], steps=200000000),
            E("c28_all", "5 ends, 3 orders of dropping the parts of a connection in use", ["end"]),
            E("c28_listener", "48 connections to a listener or server, 3 ways to end", ["end"]),
        ],
    },
    "C29": {
        "technique": "symbolic execution of the Lua source of the dissector, shown values decided by z3 over all messages, segmentations within bounds",
        "entries": [
            E("c29_tcp_one", "1 message with any header and body bytes, body of 0..4, 300 or 70000 bytes", ["end"], unit="lua"),
            E("c29_tcp_split", "2 messages with any header and body bytes, bodies of 0, 1, 3 or 300 bytes, cut into 2 segments anywhere (12 places for the largest)", ["end"], unit="lua"),
            E("c29_tcp_split_twice", "2 messages with any header and body bytes, bodies of 0 or 2 bytes, cut into 3 segments anywhere", ["end"], unit="lua"),
            E("c29_tcp_three", "3 messages in a segment with any header and body bytes, bodies of 0, 1, 3 or 260 bytes", ["end"], unit="lua"),
            E("c29_tcp_three_split", "3 messages with any header and body bytes, bodies of 0 or 3 bytes, cut into 2 segments anywhere", ["end"], unit="lua"),
            E("c29_udp", "1 datagram with any header and body bytes, body of 0, 1, 2 or 300 bytes", ["end"], unit="lua"),
        ],
        "assumptions": ["Wireshark's interface for scripts (Tvb, TreeItem, ProtoField, DissectorTable, dissect_tcp_pdus) behaves as its reference manual says; it is modelled in lua/dissect.py",
                        "the script is executed by the evaluator in lua/lua.py, there is no Lua here to compare it with; the recorded cases are run again with concrete bytes by the same evaluator"],
        "outside": "messages of a peer that does not follow the protocol, byte orders other than the default, other Lua functions than those modelled",
    },
    "C17": {
        "entries": [
            E("c17_body", "every body of 0..4 bytes, both body types", ["text", "other", "end"]),
            E("c17_response", "every text of 0..3 bytes, every request ID, every way to send it", ["end"]),
            E("c17_large", "texts of 64..65536 bytes (11 sizes), with any 2 bytes or a part of a character at 3 places", ["other", "end"], steps=200000000),
        ],
    },
    "C18": {
        "entries": [
            E("c18_call", "every request value, response service ID and response body of 0..3 bytes", ["value", "error response", "invalid", "refused"]),
            E("c18_client_updates", "1 update each way and the response: every value, service ID and body of 0..3 bytes",
              ["update", "unknown update", "invalid update", "value", "error response", "invalid", "end"]),
            E("c18_client_sends", "every kind of stream message and request: every value, response and update of 0..3 bytes",
              ["stream", "update", "unknown update", "invalid update", "value", "invalid"]),
            E("c18_server", "1 request or stream message: every ID, service ID and body of 0..3 bytes, then its response", ["stream", "request", "unknown", "invalid", "end"]),
            E("c18_server_updates", "1 update each way: every value, service ID and body of 0..3 bytes", ["update", "unknown update", "invalid update", "end"]),
            E("c18_fails", "16 generated functions, too large, connection ended or closed, writing fails after 3 numbers of bytes", ["too large", "ended", "closed", "fails", "end"]),
            E("c18_enums", "every service ID and body of 0..3 bytes", ["known", "refused", "end"]),
            E("c18_many", "300 updates each way and stream messages before anything is received", ["end"], steps=200000000),
        ],
        "assumptions": ["one interface that uses every construct of the macro, generated by the macro of the tree under test; its format is the harness's own"],
        "outside": "other interfaces than the ones in the harness, other formats, bodies above 3 bytes",
    },
    "C19": {
        "entries": [
            E("c19_items", "3 items, each a service or a stream, every one-letter name and one-digit ID", ["correct", "duplicate"], **MACRO),
            E("c19_services", "4 services, every one-letter name", ["correct", "duplicate"], **MACRO),
            E("c19_streams", "4 streams, every one-letter name", ["correct", "duplicate"], **MACRO),
            E("c19_updates", "3 updates of one service in either direction, every one-letter name and one-digit ID", ["correct", "duplicate"], **MACRO),
            E("c19_updates_four", "4 updates of one service in either direction, every one-letter name", ["correct", "duplicate"], **MACRO),
            E("c19_tokens", "3 arbitrary tokens out of 13 as the body of the interface", ["end"], **MACRO),
            E("c19_edited", "a service, a stream or an update with any token replaced, removed or doubled", ["accepted", "error"], **MACRO),
            E("c19_ids", "every ID of 10 digits around the ends of the range, with either sign", ["fits", "too large"], **MACRO),
            E("c19_reserved", "every one-digit ID, decimal or hexadecimal, with either sign, of every kind of item", ["reserved", "other"], **MACRO),
            E("c19_names", "every name of 1..3 characters (capital letters, z, digits, underscores), raw or not, of every kind of item", ["usable", "unusable"], **MACRO),
            E("c19_attributes", "any of 48 attributes, alone or after documentation, on every kind of item", ["good", "bad"], **MACRO),
            E("c19_many", "34 items of a kind, any of 12 pairs with the same name or ID", ["correct", "duplicate"], unit="macros", steps=400000000),
        ],
        "assumptions": ["the macro is executed as an ordinary function with the fallback implementation of proc_macro2, not inside rustc"],
        "outside": "more than 4 items of a kind, but for the case listed, longer names, other tokens than those offered",
    },
    "C20": {
        "entries": [
            E("c20_documentation", "2 lines of 0..3 characters (space, tab or letter) on any kind of item", ["end"], **MACRO),
            E("c20_documentation_wide", "2 lines of 0..2 characters (space, tab, letter or U+3000) on an interface or a stream", ["end"], **MACRO),
            E("c20_documentation_three", "3 lines of 0..2 characters (space, tab or letter) on an interface", ["end"], **MACRO),
            E("c20_definition", "a compiled interface with every kind of item, every type description", ["end"]),
        ],
        "assumptions": ["for the documentation the macro is executed as an ordinary function with the fallback implementation of proc_macro2, not inside rustc"],
        "outside": "documentation of more than 3 lines or with other characters than space, tab, U+3000 and a letter; interfaces other than those of the harness for names, IDs, types and hidden flags",
    },
}
