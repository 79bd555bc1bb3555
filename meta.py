"""The text of the properties.  gen.py turns this into properties.jsonl and MANIFEST.json."""


def P(title, statement, over, quant, why, files, mechanism, observe, state=(), hook=None, level_note=""):
    d = dict(title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(quant.split())), why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    if hook:
        d["anchors"]["hook_needed"] = hook
    d["_note"] = level_note
    return d


META = {}

META["C01"] = P(
    "The message header has one fixed meaning in every byte order",
    """A message header encodes to 12 bytes: type, request ID and service ID as 32-bit integers in the configured byte order,
    with the types numbered 0 to 4; decoding is the exact inverse.  Decoding any 12 bytes either gives the header they encode or,
    for an unknown type number, an error naming that number.  Every constructor of a message sets the type it is named after and keeps
    the IDs and the body it is given; an error response has service ID -1.""",
    ["inputs"], "every header, every 12-byte input, every byte order, every previous content of the buffer",
    "Tests encode a few literal headers; a transposed byte or a swapped type number only shows for some of the 2^96 headers.",
    ["src/message.rs", "src/transport/endian.rs"],
    [("MessageHeader::encode/decode", "src/message.rs"), ("Endian", "src/transport/endian.rs"), ("Message constructors", "src/message.rs")],
    ["fizyr_rpc::MessageHeader::encode/decode", "fizyr_rpc::Message"])

META["C02"] = P(
    "A message written to a byte stream arrives as exactly one complete frame",
    """However the operating system splits or delays the writes, sending a message over a byte stream puts exactly its frame on the stream:
    length, header and body, each byte once and in order, before the send is reported successful.  Consecutive messages follow each other
    without gaps.  When the stream fails, the send fails with a fatal error and nothing but a prefix of the frame has been written.""",
    ["inputs", "schedules", "fault_sequences"], "every message, every split of the frame over write calls, every delay, every failure point",
    "The tests write small messages to socket pairs whose buffers always take the whole frame, so a partial write never happens.",
    ["src/transport/stream"],
    [("StreamWriteHalf::poll_write_msg", "src/transport/stream/transport.rs")],
    ["TransportWriteHalf::write_msg on the stream transports", "bytes on the stream"])

META["C03"] = P(
    "A message read from a byte stream is reassembled from any split",
    """However the bytes of valid frames are split over reads, each message is delivered once, in order, with the header and body that were sent.
    Cancelling a pending receive loses nothing: a later receive goes on where the cancelled one stopped.  No byte beyond the current message is
    consumed on its behalf.""",
    ["inputs", "schedules"], "every valid frame, every split over read calls, every delay, cancellation at every delay",
    "Socket pairs in tests deliver a whole frame per read, and no test cancels a receive.",
    ["src/transport/stream"], [("StreamReadHalf::poll_read_msg", "src/transport/stream/transport.rs")],
    ["TransportReadHalf::read_msg on the stream transports"])

META["C04"] = P(
    "Arbitrary bytes on a stream cannot crash a reader or bypass its limits",
    """For every sequence of bytes from the remote side, reading messages ends in a message that is really in the bytes, an error, or waiting for more;
    it never panics, hangs or reads outside its buffers.  A frame whose body exceeds the configured limit, or which is too short for a header, is refused
    before its body is buffered, and an end of the stream inside a frame is an error, never a message.  An unusable stream is reported as a
    fatal error.""",
    ["inputs", "fault_sequences"], "every byte sequence up to the bound, every limit, every end of the stream",
    "Tests only feed frames produced by the library itself.",
    ["src/transport/stream", "src/error.rs", "src/message.rs"],
    [("length check", "src/transport/stream/transport.rs"), ("MessageHeader::decode", "src/message.rs")],
    ["TransportReadHalf::read_msg on the stream transports"])

META["C05"] = P(
    "A body above the limit is refused before anything is written",
    """Sending a body longer than the configured limit, or than the length field can express, fails with a non-fatal error and writes nothing; the next
    message is sent as if the refused one had never existed.  A body up to the limit is sent.""",
    ["inputs", "configurations"], "every limit and body length, including those around 2^32",
    "Tests use the default limits, and none sends a body near them.",
    ["src/transport/stream"], [("payload check", "src/transport/stream/transport.rs")],
    ["TransportWriteHalf::write_msg on the stream transports", "bytes on the stream"])

META["C06"] = P(
    "A datagram carries one whole message with its file descriptors",
    """Over a Unix seqpacket socket each message is one datagram: header and body unchanged, with exactly its file descriptors in order, whatever delays the socket
    imposes.  A send or receive that is dropped while waiting loses and duplicates nothing.  A message over a limit is refused without anything being sent and the
    transport stays usable; failures of the socket are reported as fatal.  Every descriptor is closed exactly once, by whoever owns it.""",
    ["inputs", "schedules", "fault_sequences"], "every body, number of descriptors, delay, cancellation and socket failure up to the bound",
    "Tests send a few datagrams over a socket that is always ready.",
    ["src/transport/unix"],
    [("UnixReadHalf::poll_read_msg, UnixWriteHalf::poll_write_msg", "src/transport/unix/transport.rs"), ("Body", "src/transport/unix/body.rs")],
    ["TransportReadHalf::read_msg and TransportWriteHalf::write_msg on the Unix transport", "datagrams, control messages and close calls"])

META["C07"] = P(
    "Hostile or oversized datagrams are reported, never truncated or leaked",
    """Whatever datagram arrives, the Unix transport returns either exactly the message it contains, with all its descriptors, or an error: datagrams that are too
    short, have an unknown type, exceed the body or descriptor limit, or lost descriptors on the way are errors, never a shortened message.  Descriptors of a
    refused datagram are closed; none leaks.""",
    ["inputs", "fault_sequences"], "every datagram, limit and descriptor count up to the bound",
    "Tests only exchange valid datagrams within the limits.",
    ["src/transport/unix"],
    [("UnixReadHalf::poll_read_msg", "src/transport/unix/transport.rs"), ("UnixConfig limits", "src/transport/unix/config.rs")],
    ["TransportReadHalf::read_msg on the Unix transport", "close calls"])

META["C09"] = P(
    "Incoming messages reach the one request they belong to, or nobody",
    """An incoming update or response is delivered to the open request with its ID in its direction and to nobody else; sent and received requests
    have independent IDs.  A message for an ID that is not open, and a request with an ID that is still open, is reported as an error and disturbs no other
    request.  Requests and stream messages are delivered unchanged, and an ID is free again after the response.""",
    ["inputs", "histories"], "every sequence of incoming messages and responses up to the bound, all request IDs, service IDs and bodies",
    "Tests have one request open at a time and never let IDs of both directions coincide.",
    ["src/request_tracker.rs", "src/peer.rs", "src/request.rs"],
    [("RequestTracker::process_incoming_message", "src/request_tracker.rs"), ("CommandLoop::process_incoming_message", "src/peer.rs")],
    ["PeerHandle::recv_message", "SentRequestHandle::recv_update/recv_response", "ReceivedRequestHandle::recv_update"],
    state=[("sent_requests, received_requests", "open requests per direction")])

META["C10"] = P(
    "Nothing is sent for a request after its response",
    """For a received request at most one response is sent, and no update or response for it follows, whatever handles to the request are used
    concurrently.  A send that comes too late fails instead, and a send reported successful is on the wire.  A handle of an answered request
    can never affect a later request with the same ID, and a requester whose response has arrived can send no more updates.""",
    ["schedules", "histories"], "every interleaving of the tasks that use handles of one request with the connection's own task and the socket",
    "The one test on closed handles awaits every call before the next, so two calls never overlap.",
    ["src/request.rs", "src/peer.rs", "src/request_tracker.rs"],
    [("closed flag", "src/request.rs"), ("CommandLoop::send_raw_message", "src/peer.rs")],
    ["ReceivedRequestHandle, ReceivedRequestWriteHandle", "SentRequestHandle::send_update", "bytes on the stream"],
    state=[("closed", "the response has been sent or received")])

META["C12"] = P(
    "A request nobody can receive is answered with an error",
    """When the application no longer receives requests, each request that comes in from then on is answered with exactly one error response carrying its ID
    (or, when that is impossible, the connection ends), the ID is free again, and stream messages are dropped.  The connection stays usable
    for sending.""",
    ["histories", "inputs", "configurations"], "every sequence of requests and stream messages up to the bound, all IDs, repeated IDs, every send limit",
    "No test drops the receiving handle and goes on.",
    ["src/peer.rs", "src/request_tracker.rs"], [("CommandLoop::process_incoming_message", "src/peer.rs")],
    ["bytes on the stream", "PeerWriteHandle"])

META["C15"] = P(
    "A message that cannot be sent fails alone",
    """When the transport refuses a message without being broken, exactly that send fails: nothing of it is written, the connection, other requests and
    other messages are unaffected.  A refused request leaves no trace and a refused response leaves its request open, so that it can still be answered.""",
    ["histories", "inputs"], "every sequence of sends up to the bound in which any may be refused",
    "No test sends a message that the transport refuses.",
    ["src/peer.rs", "src/request_tracker.rs"], [("CommandLoop::send_raw_message, send_request", "src/peer.rs")],
    ["results of the send functions", "bytes on the stream"])

META["C08"] = P(
    "Open requests sent to one peer always have different IDs",
    """The ID of a new request is never that of a request which is still open, wherever in the 32-bit range the counter stands, including when it wraps
    around, and also after the sending was abandoned half way.  When no free ID is found, sending fails without disturbing open requests.  The ID is
    free again once the response has been received.""",
    ["histories", "inputs", "configurations"], "every history of sends, abandoned sends and responses up to the bound, from every position of the ID counter",
    "A test would have to send 2^32 requests before the counter wraps around.",
    ["src/request_tracker.rs"], [("RequestTracker::allocate_sent_request", "src/request_tracker.rs")],
    ["PeerWriteHandle::send_request", "SentRequestHandle::request_id", "request IDs on the stream"],
    state=[("next_sent_request_id", "where the search for the next ID starts"), ("sent_requests", "IDs in use")],
    hook="NEXT_SENT_REQUEST_ID: start of the search for the next ID")

META["C11"] = P(
    "Everything received for a handle is delivered once, in order, and no receive hangs",
    """Updates and the response of a request, and the requests and stream messages of a connection, are returned exactly once, in the order of arrival.
    recv_update returns nothing exactly when the response or the end is next; recv_response does not swallow updates.  A cancelled receive loses
    nothing, a waiting receive is woken by the arrival of its message, and after the response or the end of the connection every receive returns at once.""",
    ["histories", "schedules"], "every sequence of arrivals, receive calls, cancellations and ends up to the bound",
    "Tests receive in the expected order only and never cancel a receive.",
    ["src/request.rs", "src/peer_handle.rs", "src/peer.rs"],
    [("SentRequestHandle::recv_update/recv_response, peek buffer", "src/request.rs"), ("PeerReadHandle::recv_message", "src/peer_handle.rs")],
    ["SentRequestHandle::recv_update/recv_response", "ReceivedRequestHandle::recv_update", "PeerHandle::recv_message"],
    state=[("peek_buffer", "the message looked at but not yet received")])

META["C13"] = P(
    "When a connection ends, everything that waits for it is told",
    """When the connection ends, for whatever reason (end of the stream, failure, close through any handle, peer dropped), the socket is closed, every receive
    that waits or comes later returns after what had arrived before, every open request fails as aborted, and every send that waits or comes later
    fails instead of hanging.  A failure of the connection is reported once.  What was reported as sent is on the wire.  When only the remote
    side stops sending, a message being written to it is still sent completely.""",
    ["fault_sequences", "schedules"], "every cause of the end, at every point of the sends and receives under way",
    "Tests end connections only when nothing is under way.",
    ["src/peer.rs", "src/peer_handle.rs", "src/request_tracker.rs"],
    [("Peer::run, CommandLoop", "src/peer.rs"), ("PeerCloseHandle, close", "src/peer_handle.rs")],
    ["every method of the handles", "state of the socket"])

META["C14"] = P(
    "Two connected peers exchange messages completely and in order",
    """Between two peers, every request, update, stream message and response sent by one side arrives at the other exactly once, unchanged, in the order sent per
    handle, whatever the schedule of the four tasks and the capacity of the connection.  Responses reach their own requests in any order
    of answering, and the exchange always completes.""",
    ["schedules", "histories", "inputs"], "every sequence of messages and schedule up to the bound",
    "Tests run one schedule per execution.",
    ["src/peer.rs", "src/request_tracker.rs", "src/request.rs", "src/transport/stream"],
    [("CommandLoop::run", "src/peer.rs"), ("read and write loops", "src/peer.rs")],
    ["PeerHandle, SentRequestHandle, ReceivedRequestHandle of both sides"])

META["C16"] = P(
    "A peer lives exactly as long as its handles",
    """A peer runs as long as its read handle or a write handle (or a clone of one) exists and the connection is up, however handles are cloned, moved and
    dropped, or turned into generated clients and servers; when the last one goes, the peer stops and closes the socket.  Request handles and close handles do not keep it alive and fail cleanly afterwards.  Handles
    report to be of the same peer exactly if they are.""",
    ["histories"], "every sequence of clones, drops and uses up to the bound",
    "Tests never count handles.",
    ["src/peer_handle.rs", "src/peer.rs"], [("WriteHandleDropped, ReadHandleDropped commands", "src/peer.rs"), ("Clone and Drop of handles", "src/peer_handle.rs")],
    ["PeerReadHandle, PeerWriteHandle, PeerCloseHandle", "Peer::run"],
    state=[("read_handle_dropped, write_handles", "which handles are left")])

META["C21"] = P(
    "Every accepted connection gets a peer of its own",
    """A listener makes one peer, with its configuration and the information about the remote side, for each connection it accepts; running a server starts the
    user's task once for each.  Connections are independent of each other and of the listener: one that fails, misbehaves or is gone before it is accepted
    does not affect the others or stop the server.  A failure of the listening socket is reported; accepting can go on afterwards, and an abandoned accept loses no
    connection.""",
    ["histories", "schedules", "fault_sequences"], "every sequence of connections, failures, delays and misbehaviour, and every schedule, up to the bound",
    "Tests do not cover listeners at all; the examples accept one well-behaved connection.",
    ["src/listener.rs", "src/util/accept.rs", "src/util/into_transport.rs", "src/transport"],
    [("Listener::run, accept", "src/listener.rs"), ("poll_accept", "src/util/accept.rs"), ("Transport::info", "src/transport/stream/mod.rs, src/transport/unix/mod.rs")],
    ["Listener::accept, Listener::run", "tasks spawned", "bytes on the connections"])

META["C22"] = P(
    "Binding and connecting use exactly the given address",
    """Binding a Unix listener replaces a socket left at the path and nothing else: a file of another type is never removed, only the given path is, at most once and
    before binding.  Whether the removal works or not, the outcome is that of binding.  Connecting connects to exactly the given address and gives one peer with
    the given configuration and information about that connection; a failure is returned, without a peer and without leaking a socket.""",
    ["inputs", "fault_sequences"], "every file type at the path and every combination of failing system calls",
    "Tests do not bind or connect; damage needs a file other than a socket at the path.",
    ["src/transport/stream/mod.rs", "src/transport/unix/mod.rs", "src/util", "src/peer.rs", "src/listener.rs"],
    [("Bind::bind", "src/transport/stream/mod.rs, src/transport/unix/mod.rs"), ("Connect::connect, Peer::connect", "src/transport, src/peer.rs")],
    ["Listener::bind, Peer::connect", "system calls statx, unlink, bind, connect"])

META["C23"] = P(
    "A send is reported as successful exactly when the message is on the wire",
    """Every kind of send returns success only after the whole message has been handed to the connection, and an error if that failed.  A send that is
    cancelled at any time has sent its message completely or not at all, and later messages are intact.  Concurrent sends never mix: each message
    appears once and whole, and those of one sender in order.""",
    ["schedules", "fault_sequences", "inputs"], "every kind of send, every split, delay, failure and cancellation point up to the bound",
    "Tests neither cancel sends nor inspect the wire.",
    ["src/peer_handle.rs", "src/request.rs", "src/peer.rs"],
    [("PeerWriteHandle::send_request/send_stream", "src/peer_handle.rs"), ("CommandLoop::send_raw_message/send_request", "src/peer.rs")],
    ["every send function", "bytes on the stream"])

META["C25"] = P(
    "No remote behaviour can crash or confuse a peer",
    """Whatever bytes or messages the remote side sends, and whatever handles the application has dropped, the peer does not panic or stop without reporting why:
    valid frames never end the connection, invalid ones end it with an error, and everything keeps working for the rest of the connection.
    Nothing is sent unless the application or an unreceivable request asks for it.""",
    ["inputs", "histories"], "every byte sequence and every history of messages, receive calls and drops up to the bound",
    "Tests only play cooperative remote sides.",
    ["src/peer.rs", "src/request_tracker.rs", "src/transport/stream"],
    [("CommandLoop::process_incoming_message", "src/peer.rs"), ("RequestTracker::process_incoming_message", "src/request_tracker.rs")],
    ["PeerHandle::recv_message", "request handles", "Peer::run", "bytes on the stream"])

META["C26"] = P(
    "A connection whose writing is stalled still receives",
    """Reading and writing are independent: while a write is stalled, incoming messages are still taken from the connection, so two sides that both send much before they
    receive do not block each other.  They are delivered, complete and in order, at the latest when the write is done; the stalled message is sent completely once
    the stream takes data again.""",
    ["schedules"], "every buffer size, stall point and schedule up to the bound",
    "Tests never fill a socket buffer.",
    ["src/peer.rs"], [("Peer::run: concurrent read and command loops", "src/peer.rs")],
    ["PeerHandle of both sides"])

META["C17"] = P(
    "Errors cross the wire as their text",
    """An error sent as the response to a request arrives as an error with exactly the same text, marked by service ID -1; a body is taken for an error text exactly
    if it is valid UTF-8, and is given back unchanged if not.""",
    ["inputs"], "every body up to the bound, every request ID, every way of sending the error",
    "Tests send one literal text.",
    ["src/transport/stream/body.rs", "src/transport/unix/body.rs", "src/request.rs", "src/error.rs"],
    [("Body::from_error, as_error, into_error", "src/transport/stream/body.rs, src/transport/unix/body.rs"), ("send_error_response", "src/request.rs")],
    ["Body", "ReceivedRequestHandle::send_error_response", "SentRequestHandle::recv_response", "Error::remote_error"])

META["C18"] = P(
    "Generated clients and servers agree with the interface they are generated from",
    """Every function of a generated client or server sends exactly the message its definition names: kind, service ID and encoded value; a value that cannot be
    encoded is refused and nothing is sent, and what cannot be sent is reported.  Every received message is returned as the variant with its service ID and the decoded value; one with an unknown
    service ID or an invalid body is returned as that error, with the message or a handle to answer it, and the connection stays usable.  An error
    response is always an error of the remote side.""",
    ["inputs", "histories"], "every service ID, request ID, value and body up to the bound, for each kind of message",
    "Tests use valid messages of the right kind only.",
    ["macros/src/interface/generate", "src/macros.rs", "src/format.rs", "src/error.rs"],
    [("generate_client, generate_server, generate_services, generate_message_enum", "macros/src/interface/generate"), ("RecvMessageError, ParseUpdateError", "src/error.rs")],
    ["generated Client, Server, request handles and message enums"])

META["C19"] = P(
    "The interface macro accepts exactly the correct interfaces",
    """The macro never panics: whatever tokens it is given, it returns an interface or compile errors.  Two services, two streams, or two updates of one service
    in the same direction with the same name or the same ID are an error; different kinds and directions do not disturb each other.  IDs are accepted
    exactly if they fit in 32 signed bits and are not that of a service with the ID of error responses (-1).  Documentation (`#[doc = "..."]`)
    and `#[hidden]` are accepted on every item; other or malformed attributes are an error.""",
    ["inputs"], "every combination of names and IDs, every edit and every short sequence of tokens up to the bound",
    "Tests only compile correct interfaces.",
    ["macros/src/interface/parse.rs", "macros/src/interface/mod.rs"],
    [("check_unique / sorted_unique", "macros/src/interface/parse.rs"), ("raw and cooked definitions", "macros/src/interface/parse.rs")],
    ["tokens returned by fizyr_rpc::interface!"])

META["C20"] = P(
    "Introspection describes the interface as it was written",
    """The definition of a generated interface lists every service, stream and update once, in order, with its name, ID, documentation, hidden flag and the
    format's description of its types.  The documentation is the text of the doc comments without their common indentation (leading
    spaces; blank lines do not count).""",
    ["inputs"], "every documentation up to the bound on every kind of item, every type description",
    "Tests look at a few literal lines of documentation.",
    ["macros/src/interface/generate/interface_struct.rs", "src/introspection.rs"],
    [("generate_interface_struct", "macros/src/interface/generate/interface_struct.rs"), ("to_doc_string", "macros/src/interface/generate/interface_struct.rs")],
    ["Interface::definition, services, streams, name, doc"])

META["C24"] = P(
    "Errors say what went wrong and are what they are reported as",
    """The text of an error names the numbers it is about (length and limit, type, request or service ID), telling what was got from what was expected, or is exactly the text
    it was made of; wrapping an error in that of a transport or of a generated interface keeps its text.  is_connection_aborted, is_remote_error, as_remote_error, into_remote_error and
    is_unexpected_message_type hold for exactly the errors they are named after; an error of a transport is fatal exactly if the transport is unusable.  An error about a request gives access to that request, others to none.
    Every error, message and handle can be formatted for debugging, which names its type or variant and its IDs.""",
    ["inputs", "fault_sequences"], "every way an error is made, by the constructors, the transports, a connection and a generated interface, every text, every error number of the system",
    "Tests look at one predicate of two errors; which error is reported for what is only seen when it happens.",
    ["src/error.rs", "src/transport/mod.rs", "src/request.rs", "src/peer_handle.rs"],
    [("Error, InnerError, RecvMessageError, ParseUpdateError", "src/error.rs"), ("TransportError", "src/transport/mod.rs"), ("Debug", "src/request.rs, src/message.rs, src/peer_handle.rs")],
    ["fizyr_rpc::Error", "fizyr_rpc::RecvMessageError", "fizyr_rpc::ParseUpdateError", "fizyr_rpc::transport::TransportError"])

META["C27"] = P(
    "Adapters, conversions and defaults change nothing",
    """A read half, write half or listener behind a reference, Box or Pin, or several of them, does exactly what it does without: the same messages, connections and failures, once each, and
    waiting tasks are woken.  A transport made of a socket in any way uses that socket and the configuration it was given, or the default one, gives access to
    the socket, and closes it in the end.  A peer works over any transport and a listener over any socket that implement the traits.  A body made of anything has its bytes and descriptors.""",
    ["inputs", "schedules", "configurations"], "every adapter and two levels of them, every message, split, delay and failure up to the bound, every way to make a transport or a body",
    "No test uses an adapter, a transport or a listener of its own.",
    ["src/transport/mod.rs", "src/util", "src/transport/stream", "src/transport/unix"],
    [("TransportReadHalf/TransportWriteHalf for &mut T, Box<T>, Pin<P>", "src/transport/mod.rs"), ("Listener for &mut T, Box<T>, Pin<P>", "src/util/accept.rs"), ("IntoTransport", "src/util/into_transport.rs")],
    ["fizyr_rpc::transport", "fizyr_rpc::util", "Peer::new/spawn/transport", "StreamBody, UnixBody"])

META["C29"] = P(
    "The Wireshark dissector shows the messages as they are",
    """The dissector in `wireshark/` shows every message of a TCP connection in the default byte order, however many there are and however they are cut into segments, and that of
    every UDP datagram, exactly once: its length, its type with the right name, its request ID, its service ID as a signed number and its body,
    each with the value of the bytes it belongs to.""",
    ["inputs", "segmentation"], "every message and every way to cut the data up to the bound",
    "Nothing tests the dissector.",
    ["wireshark/fizyr-rpc.lua"],
    [("dissector functions", "wireshark/fizyr-rpc.lua")],
    ["the Wireshark plugin"])

META["C28"] = P(
    "Nothing is kept of what is finished",
    """The memory a connection uses is bounded by what is open and queued: after any number of requests that were answered, refused, abandoned, cancelled, dropped or sent to too often, messages that
    were received or answered with an error, and handles that are gone, everything used for them is released; messages that nobody can receive are not kept.  When a connection has ended and its handles are
    dropped nothing of it remains, and a listener or server keeps nothing of connections that have ended.""",
    ["histories", "schedules", "crash points"], "every kind of use and every pair of kinds, repeated 192 times; every state at the end, and every order in which the parts of a connection go away",
    "Tests run for a moment and never look at memory; what one request leaves behind is too little to be seen.",
    ["src/request_tracker.rs", "src/peer.rs", "src/peer_handle.rs", "src/request.rs", "src/listener.rs", "src/transport"],
    [("RequestTracker::remove_*, process_incoming_message", "src/request_tracker.rs"), ("Peer::run, UnregisterRequest", "src/peer.rs"), ("Listener::run", "src/listener.rs")],
    ["Peer", "PeerHandle", "SentRequest", "ReceivedRequest", "Listener"])

HOOKS = {"guard": "--cfg fizyr_rpc_verif", "enable": "RUSTFLAGS='--cfg fizyr_rpc_verif' (check.py sets it)", "source_commits": ["6b4e155"]}

# How each property is decided (for DESIGN.md).
HOW = {
"C01": "Header and byte order are symbolic; encode is compared with a reference layout written in the harness, decode with its inverse over all 2^96 inputs.",
"C02": "`write_msg` runs against a stream whose every write takes a symbolic number of bytes (0 < n ≤ offered), is delayed, or fails; oracle: the bytes on the stream are the frame computed by the harness, prefix of it on failure.",
"C03": "`read_msg` runs against a stream that hands out symbolic splits; the frame has symbolic IDs and body; the read future is dropped at delays. Oracle: messages delivered = messages framed.",
"C04": "All received bytes, the limit and the end are symbolic. Oracle: an independent parser in the harness; sizes of the buffers requested from the allocator are bounded by the limit.",
"C05": "Body length and limit symbolic, including lengths around 2^32 (a body type that only claims its length). Oracle: refused iff above limit or field; bytes on the stream are the accepted messages only.",
"C06": "`sendmsg`/`recvmsg`/`close`/`fcntl` are replaced by a model that records datagrams, control messages and open descriptors; delays, failures and cancellations symbolic.",
"C07": "Datagram bytes, number of descriptors, truncation flags, limits symbolic. Oracle: exactly the message or an error; descriptor table empty afterwards.",
"C08": "Histories of sends, abandoned sends, dropped handles and responses are symbolic; with the hook the search for the next ID starts at any of 2^32 values.",
"C09": "A history of arbitrary messages (symbolic type, IDs in a set that makes collisions possible, body). Oracle: a routing table in the harness.",
"C10": "2–3 tasks use clones of handles of one request; the scheduling decision before each poll is symbolic. Oracle: the frames on the stream against the results of the sends.",
"C11": "Arrivals, receive calls, cancellations and the end in symbolic order. Oracle: a queue in the harness; wakers must have been used when a result is available.",
"C12": "Read handle dropped; symbolic sequence of requests and stream messages. Oracle: exactly one error response per request, with its ID.",
"C13": "Cause and moment of the end are symbolic; every waiting and later call must return. Oracle: list of what had arrived and what had been written.",
"C14": "Two real peers connected by a bounded pipe; symbolic schedule, splits, capacity. Oracle: what was sent arrives.",
"C15": "Each send is too large or not; oracle: exactly the frames of the others are on the stream and the request table behaves as if the refused request never was.",
"C16": "Symbolic sequences of clone, drop and use; oracle: reference counts in the harness.",
"C17": "Symbolic bodies and texts; oracle: UTF-8 validity computed by the harness.",
"C18": "An interface with every construct is generated by the macro of the tree; IDs, values and bodies symbolic. Oracle: a table of the interface in the harness.",
"C19": "The macro crate is compiled as an ordinary library and `interface` is executed on token streams built from symbolic choices and symbolic letters. Oracle: an independent decision of correctness from the same choices.",
"C20": "As C19 for documentation with symbolic characters; for the rest the compiled interface's definition.",
"C21": "Listening sockets, `spawn` and connections are the harness's; symbolic sequence of accepts, failures and delays. Oracle: one peer per connection, with configuration and info.",
"C22": "`statx`, `unlink`, `bind`, `connect` are replaced by a model that records each call; file mode, results and last path character symbolic.",
"C23": "Any of the six kinds of send, dropped, failed or split at symbolic points. Oracle: frames on the stream against results.",
"C24": "Constructors with symbolic texts and error numbers, and the failures of the real transports, connections and generated interfaces. Oracle: the numbers and text the harness chose; numbers are a few concrete ones, since only std formats them.",
"C27": "Each adapter around the real halves and listeners, over streams and sockets with symbolic splits, delays and failures; a transport and a listener implemented in the harness. Oracle: as for what is wrapped.",
"C28": "A symbolic kind of use (or two) is repeated 64 and then 128 times; the executor knows the heap, and its size must not have grown by as much as 8 bytes per round. Everything about one connection is open when it ends in a symbolic way, and its parts are dropped in symbolic order; afterwards the heap is as before.",
"C29": "The Lua source is parsed and executed by an evaluator whose numbers may be z3 terms, against a model of Wireshark's interface for scripts; header and body bytes are symbolic, lengths and cuts are branched on. Oracle: the documented layout (the one C01 and C02 decide for the Rust code), for values, positions and number of the lines shown. One query per path decides that all values are right.",
"C25": "Bytes or messages from the remote side and application behaviour symbolic; panics, hangs and undefined behaviour are violations by themselves; oracle for valid frames: connection stays.",
"C26": "Symbolic stall point and buffer sizes; oracle: messages arrive while the write is stalled, and everything afterwards.",
}
