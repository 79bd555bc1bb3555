From 6b8232e8d5d07763794c0b28dedb52476942cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 01/16] fix: count partial writes in the stream transport

poll_write_msg() overwrote the number of bytes written so far with the size of
the last partial write, so a message that needed more than one write was
corrupted or never completed.
---
 src/transport/stream/transport.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 722a8f4..cdab6c5 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -235,10 +235,10 @@ where
 		while this.bytes_written < FRAMED_HEADER_LEN + body.len() {
 			let stream = Pin::new(&mut this.stream);
 			if this.bytes_written < FRAMED_HEADER_LEN {
-				this.bytes_written = ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
+				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
 					.map_err(TransportError::new_fatal)?;
 			} else {
-				this.bytes_written = ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
+				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
 					.map_err(TransportError::new_fatal)?;
 			}
 		}
-- 
2.43.0


From 191969a465347ae2742a9525064637b6ada58427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 02/16] fix: reject stream frames shorter than a message header

A frame with a length field below the header length made the computation of the
body length underflow: a panic in debug builds and a bogus body length in
release builds. Report it as a fatal error instead.
---
 src/transport/stream/transport.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index cdab6c5..260a6f6 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -4,7 +4,7 @@ use std::task::{Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite};
 
 use super::{StreamBody, StreamConfig};
-use crate::error::private::check_payload_too_large;
+use crate::error::private::{check_message_too_short, check_payload_too_large};
 use crate::transport::{TransportError, Endian};
 use crate::{Message, MessageHeader};
 
@@ -180,6 +180,8 @@ where
 			if this.bytes_read == FRAMED_HEADER_LEN {
 				// Parse frame and header.
 				let length = this.endian.read_u32(&this.header_buffer[0..]);
+				check_message_too_short(length as usize)
+					.map_err(TransportError::new_fatal)?;
 				this.parsed_header = MessageHeader::decode(&this.header_buffer[4..], this.endian)
 					.map_err(TransportError::new_fatal)?;
 
-- 
2.43.0


From 61f9c8b5ee92dc2c8759a73724b9fca8c90af123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 03/16] fix: never overflow the length field of a stream frame

With a configured limit above MAX_PAYLOAD_LEN, the computation of the length
field could overflow.
---
 src/transport/stream/transport.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 260a6f6..75f022d 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -221,8 +221,9 @@ where
 	fn poll_write_msg(self: Pin<&mut Self>, context: &mut Context, header: &MessageHeader, body: &Self::Body) -> Poll<Result<(), TransportError>> {
 		let this = self.get_mut();
 
-		// Make sure the body length doesn't exceed the maximum.
-		check_payload_too_large(body.len(), this.max_body_len as usize)
+		// Make sure the body length doesn't exceed the maximum, or what the length field can represent.
+		let max_body_len = this.max_body_len.min(crate::MAX_PAYLOAD_LEN);
+		check_payload_too_large(body.len(), max_body_len as usize)
 			.map_err(TransportError::new_non_fatal)?;
 
 		// Encode the header if we haven't done that yet.
-- 
2.43.0


From 38e31541a8d7db2b26840207009c6b62acc42c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 04/16] fix: release the request ID of requests rejected for
 lack of a read handle

---
 src/peer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/peer.rs b/src/peer.rs
index 15f0200..4d0f65c 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -375,6 +375,8 @@ where
 				ReceivedMessage::Request(request, _body) => {
 					let error_msg = format!("unexpected request for service {}", request.service_id());
 					let response = Message::error_response(request.request_id(), &error_msg);
+					// The request ends with the error response, so the request ID becomes available again.
+					let _: Result<_, _> = self.request_tracker.remove_received_request(request.request_id());
 					if self.write_message(&response).await.is_err() {
 						// If we can't send the error to the remote peer, just close the connection.
 						// Even if the transport doesn't say that the write error is fatal.
-- 
2.43.0


From ccf4289e5523216809c9f56e0ddff7c04108045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 05/16] fix: send nothing for a request after its response

---
 src/peer.rs            | 26 +++++++++++++++++++++-----
 src/peer_handle.rs     |  2 +-
 src/request.rs         |  4 ++--
 src/request_tracker.rs | 12 ++++++++++++
 4 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index 4d0f65c..928000a 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -1,5 +1,7 @@
+use std::sync::{Arc, atomic::{AtomicBool, Ordering}};
 use tokio::sync::{mpsc, oneshot};
 
+use crate::error::private::InnerError;
 use crate::{
 	util,
 	Error,
@@ -322,11 +324,6 @@ where
 
 	/// Process a SendRawMessage command.
 	async fn send_raw_message(&mut self, command: crate::peer::SendRawMessage<W::Body>) -> LoopFlow {
-		// Remove tracked received requests when we send a response.
-		if command.message.header.message_type.is_response() {
-			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
-		}
-
 		// TODO: replace SendRawMessage with specific command for different message types.
 		// Then we can use that to remove the appropriate request from the tracker if result_tx is dropped.
 		// Or just parse the message header to determine which request to remove.
@@ -334,6 +331,20 @@ where
 		// Actually, should we remove the request if result_tx is dropped?
 		// Needs more thought.
 
+		// The request may have been closed while the command was waiting in the queue.
+		// The request ID could have been re-used already.
+		if command.closed.as_ref().map_or(false, |closed| closed.load(Ordering::Acquire)) {
+			let _: Result<_, _> = command.result_tx.send(Err(InnerError::RequestClosed.into()));
+			return LoopFlow::Continue;
+		}
+
+		// Close received requests when we have sent a response.
+		if command.message.header.message_type.is_response() {
+			if let Some(closed) = &command.closed {
+				self.request_tracker.close_received_request(command.message.header.request_id, closed);
+			}
+		}
+
 		if let Err((e, flow)) = self.write_message(&command.message).await {
 			let _: Result<_, _> = command.result_tx.send(Err(e));
 			return flow;
@@ -444,6 +455,11 @@ pub struct SendRawMessage<Body> {
 	/// The message to send.
 	pub message: Message<Body>,
 
+	/// The `closed` flag of the request the message belongs to, if any.
+	///
+	/// The message is not sent if the flag is set.
+	pub closed: Option<Arc<AtomicBool>>,
+
 	/// One-shot channel to receive the result of sending the message.
 	pub result_tx: oneshot::Sender<Result<(), Error>>,
 }
diff --git a/src/peer_handle.rs b/src/peer_handle.rs
index afa9058..984a768 100644
--- a/src/peer_handle.rs
+++ b/src/peer_handle.rs
@@ -171,7 +171,7 @@ impl<Body> PeerWriteHandle<Body> {
 		let (result_tx, result_rx) = oneshot::channel();
 		let message = Message::stream(0, service_id, body);
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, closed: None, result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 
 		result_rx.await.map_err(|_| connection_aborted())?
diff --git a/src/request.rs b/src/request.rs
index 7384523..d2f6532 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -208,7 +208,7 @@ impl<Body> SentRequestWriteHandle<Body> {
 		let (result_tx, result_rx) = oneshot::channel();
 		let message = Message::requester_update(self.request_id, service_id, body);
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 		result_rx.await.map_err(|_| connection_aborted())??;
 		Ok(())
@@ -328,7 +328,7 @@ impl<Body> ReceivedRequestWriteHandle<Body> {
 
 		let (result_tx, result_rx) = oneshot::channel();
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 		result_rx.await.map_err(|_| connection_aborted())??;
 		Ok(())
diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index 19b6aaa..2488b5a 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -147,6 +147,18 @@ impl<Body> RequestTracker<Body> {
 		Ok(())
 	}
 
+	/// Close a received request after the response has been sent.
+	///
+	/// The request is removed from the tracker, unless the request ID belongs to a different request by now.
+	pub fn close_received_request(&mut self, request_id: u32, closed: &Arc<AtomicBool>) {
+		// Set the `closed` flag so that existing request write handles will refuse to send more messages.
+		closed.store(true, Ordering::Release);
+
+		if self.received_requests.get(&request_id).map_or(false, |x| Arc::ptr_eq(&x.closed, closed)) {
+			let _: Result<_, _> = self.remove_received_request(request_id);
+		}
+	}
+
 	/// Process an incoming message.
 	///
 	/// This will pass the message on to an open request if any matches.
-- 
2.43.0


From c4f7266cc2319b90ba1dd6f070f8fe2f51519534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 06/16] fix: keep a request open when its response could not be
 sent

---
 src/peer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index 928000a..ce12ec4 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -338,6 +338,11 @@ where
 			return LoopFlow::Continue;
 		}
 
+		if let Err((e, flow)) = self.write_message(&command.message).await {
+			let _: Result<_, _> = command.result_tx.send(Err(e));
+			return flow;
+		}
+
 		// Close received requests when we have sent a response.
 		if command.message.header.message_type.is_response() {
 			if let Some(closed) = &command.closed {
@@ -345,11 +350,6 @@ where
 			}
 		}
 
-		if let Err((e, flow)) = self.write_message(&command.message).await {
-			let _: Result<_, _> = command.result_tx.send(Err(e));
-			return flow;
-		}
-
 		let _: Result<_, _> = command.result_tx.send(Ok(()));
 		LoopFlow::Continue
 	}
-- 
2.43.0


From 6b4e15598105443eab7225c5a020af4df058e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 07/16] verification hook: choose the ID of the next sent
 request (cfg fizyr_rpc_verif)

---
 src/lib.rs             |  5 +++++
 src/request_tracker.rs | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 40db008..4fb933b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,6 +77,7 @@
 //! ```
 
 #![warn(missing_docs)]
+#![allow(unknown_lints, unexpected_cfgs)]
 
 /// Unwrap a [`Poll`](std::task::Poll) value and return from the enclosing function if it was [`Pending`](std::task::Poll::Pending).
 ///
@@ -139,6 +140,10 @@ pub use request::{
 	SentRequestWriteHandle,
 };
 
+#[cfg(fizyr_rpc_verif)]
+#[doc(hidden)]
+pub use request_tracker::NEXT_SENT_REQUEST_ID;
+
 pub use transport::stream::StreamBody;
 
 pub use transport::stream::StreamConfig;
diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index 2488b5a..367a506 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -15,6 +15,12 @@ use crate::{
 };
 use crate::request::RequestHandleCommand;
 
+/// If set, the ID to continue with when the next request is sent.
+///
+/// Lets verification reach IDs for which it would have to send billions of requests.
+#[cfg(fizyr_rpc_verif)]
+pub static NEXT_SENT_REQUEST_ID: std::sync::Mutex<Option<u32>> = std::sync::Mutex::new(None);
+
 struct TrackedRequest<Body> {
 	incoming_tx: mpsc::UnboundedSender<RequestHandleCommand<Body>>,
 	closed: Arc<AtomicBool>,
@@ -56,6 +62,11 @@ impl<Body> RequestTracker<Body> {
 
 	/// Allocate a request ID and register a new sent request.
 	pub fn allocate_sent_request(&mut self, service_id: i32) -> Result<SentRequestHandle<Body>, Error> {
+		#[cfg(fizyr_rpc_verif)]
+		if let Some(request_id) = NEXT_SENT_REQUEST_ID.lock().unwrap().take() {
+			self.next_sent_request_id = request_id;
+		}
+
 		// Try to find a free ID a bunch of times.
 		for _ in 0..100 {
 			let request_id = self.next_sent_request_id;
-- 
2.43.0


From 5f788f04ba8437f29be4855dd101d981020ca54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:37 +0000
Subject: [PATCH 08/16] fix: do not panic on items declared more than twice in
 an interface

---
 macros/src/interface/parse.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/macros/src/interface/parse.rs b/macros/src/interface/parse.rs
index 44b3589..f70575c 100644
--- a/macros/src/interface/parse.rs
+++ b/macros/src/interface/parse.rs
@@ -204,11 +204,11 @@ pub mod cooked {
 				}
 			}
 
-			for i in remove_services.into_iter().rev() {
+			for i in sorted_unique(remove_services).into_iter().rev() {
 				services.remove(i);
 			}
 
-			for i in remove_streams.into_iter().rev() {
+			for i in sorted_unique(remove_streams).into_iter().rev() {
 				streams.remove(i);
 			}
 
@@ -307,11 +307,11 @@ pub mod cooked {
 				}
 			}
 
-			for i in remove_request_updates.into_iter().rev() {
+			for i in sorted_unique(remove_request_updates).into_iter().rev() {
 				request_updates.remove(i);
 			}
 
-			for i in remove_response_updates.into_iter().rev() {
+			for i in sorted_unique(remove_response_updates).into_iter().rev() {
 				response_updates.remove(i);
 			}
 
@@ -436,6 +436,16 @@ pub mod cooked {
 		}
 	}
 
+	/// Sort indices and remove duplicates.
+	///
+	/// An item that occurs more than twice is reported as duplicate of each earlier occurrence,
+	/// but it can be removed only once.
+	fn sorted_unique(mut indices: Vec<usize>) -> Vec<usize> {
+		indices.sort_unstable();
+		indices.dedup();
+		indices
+	}
+
 	/// Parse an integer literal into an i32.
 	fn parse_i32(errors: &mut Vec<syn::Error>, literal: syn::LitInt) -> WithSpan<i32> {
 		match literal.base10_parse() {
-- 
2.43.0


From 920f12ddc61236c7f6db217e66891b36d109048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:52 +0000
Subject: [PATCH 09/16] fix: report datagrams with a too large body instead of
 truncating them

---
 src/transport/unix/transport.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index f5fa41f..32eef59 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -150,7 +150,9 @@ mod implementation {
 
 			// Prepare buffers for the message header and body.
 			let mut header_buffer = [0u8; crate::HEADER_LEN as usize];
-			this.body_buffer.resize(this.max_body_len as usize, 0u8);
+			// The body buffer has room for one extra byte, to be able to notice when the body is too large.
+			let max_body_len = this.max_body_len as usize;
+			this.body_buffer.resize(max_body_len.saturating_add(1), 0u8);
 
 			// Prepare a buffer for the ancillary data.
 			// TODO: properly compute size of ancillary buffer.
@@ -182,9 +184,15 @@ mod implementation {
 			let header = MessageHeader::decode(&header_buffer, this.endian)
 				.map_err(TransportError::new_fatal)?;
 
+			// Drop messages with a body that is too large.
+			// The socket already discarded the rest of the datagram, so the transport is still usable.
+			let body_len = bytes_read - crate::HEADER_LEN as usize;
+			check_payload_too_large(body_len, max_body_len)
+				.map_err(TransportError::new_non_fatal)?;
+
 			// Resize the body buffer to the actual body size.
 			let mut body = std::mem::take(&mut this.body_buffer);
-			body.resize(bytes_read - crate::HEADER_LEN as usize, 0);
+			body.resize(body_len, 0);
 
 			Poll::Ready(Ok(Message::new(header, UnixBody::new(body, fds))))
 		}
-- 
2.43.0


From 5f2cbcff8b79424a62fefa3d559e32cd9f618afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:49 +0000
Subject: [PATCH 10/16] fix: enforce the limits on file descriptors and never
 lose some of a message silently

---
 src/transport/unix/transport.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index 32eef59..cc45ef3 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -142,6 +142,18 @@ mod implementation {
 	use crate::transport::TransportError;
 	use crate::{Message, MessageHeader, UnixBody};
 
+	/// Check if the number of file descriptors attached to a message is small enough.
+	fn check_fds(count: usize, max: u32) -> std::io::Result<()> {
+		if count <= max as usize {
+			Ok(())
+		} else {
+			Err(std::io::Error::new(
+				std::io::ErrorKind::Other,
+				format!("too many file descriptors: maximum number is {max}, got {count}"),
+			))
+		}
+	}
+
 	impl crate::transport::TransportReadHalf for UnixReadHalf<&tokio_seqpacket::UnixSeqpacket> {
 		type Body = UnixBody;
 
@@ -163,6 +175,8 @@ mod implementation {
 			let (bytes_read, ancillary) = ready!(this.socket.poll_recv_vectored_with_ancillary(context, &mut buffers, &mut ancillary))
 				.map_err(TransportError::new_fatal)?;
 
+			let fds_lost = ancillary.is_truncated();
+
 			// Immediately wrap all file descriptors to prevent leaking any of them.
 			// We must always do this directly after a successful read.
 			let mut fds = Vec::new();
@@ -190,6 +204,16 @@ mod implementation {
 			check_payload_too_large(body_len, max_body_len)
 				.map_err(TransportError::new_non_fatal)?;
 
+			// Drop messages with too many file descriptors, or if some of them have been discarded.
+			check_fds(fds.len(), this.max_fds)
+				.map_err(TransportError::new_non_fatal)?;
+			if fds_lost {
+				return Poll::Ready(Err(TransportError::new_non_fatal(std::io::Error::new(
+					std::io::ErrorKind::Other,
+					"some of the file descriptors of the message could not be received",
+				))));
+			}
+
 			// Resize the body buffer to the actual body size.
 			let mut body = std::mem::take(&mut this.body_buffer);
 			body.resize(body_len, 0);
@@ -208,6 +232,10 @@ mod implementation {
 			check_payload_too_large(body.data.len(), this.max_body_len as usize)
 				.map_err(TransportError::new_non_fatal)?;
 
+			// Check the number of outgoing file descriptors.
+			check_fds(body.fds.len(), this.max_fds)
+				.map_err(TransportError::new_non_fatal)?;
+
 			// Prepare a buffer for the message header.
 			let mut header_buffer = [0; crate::HEADER_LEN as usize];
 			header.encode(&mut header_buffer, this.endian);
-- 
2.43.0


From 2ee3ae0f4940ccde6d309c594ad411889701dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:00 +0000
Subject: [PATCH 11/16] fix: do not stop the server when a connection is
 already gone when it is accepted

---
 src/listener.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/listener.rs b/src/listener.rs
index 8104683..da1d01a 100644
--- a/src/listener.rs
+++ b/src/listener.rs
@@ -100,8 +100,13 @@ impl<Socket: ListeningSocket> Listener<Socket> {
 	{
 		let mut task = task;
 		loop {
-			let (peer, info) = self.accept().await?;
-			let join_handle = tokio::spawn((task)(peer, info));
+			let transport = self.accept_transport().await?;
+			// The remote side may have closed the connection already, which must not stop the server.
+			let info = match Socket::transport_info(&transport) {
+				Ok(info) => info,
+				Err(_) => continue,
+			};
+			let join_handle = tokio::spawn((task)(Socket::spawn(transport), info));
 			// TODO: keep join handles around so we can await them later.
 			// If we do, we should also clean them from time to time though.
 			drop(join_handle);
@@ -113,9 +118,14 @@ impl<Socket: ListeningSocket> Listener<Socket> {
 	/// A [`Peer`] is spawned for the new connection,
 	/// and a [`PeerHandle`] is returned to allow interaction with the peer.
 	pub async fn accept(&mut self) -> std::io::Result<(PeerHandle<Socket::Body>, Socket::TransportInfo)> {
-		let (connection, _addr) = self.listener.accept().await?;
-		let transport = Socket::into_transport(connection, self.config.clone());
+		let transport = self.accept_transport().await?;
 		let info = Socket::transport_info(&transport)?;
 		Ok((Socket::spawn(transport), info))
 	}
+
+	/// Accept a connection and create a transport for it.
+	async fn accept_transport(&mut self) -> std::io::Result<Socket::Transport> {
+		let (connection, _addr) = self.listener.accept().await?;
+		Ok(Socket::into_transport(connection, self.config.clone()))
+	}
 }
-- 
2.43.0


From 7c509e2400811eb064897d1d228969e5529613b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:35 +0000
Subject: [PATCH 12/16] fix: report names that can not be used for generated
 identifiers instead of panicking

---
 macros/src/interface/generate/mod.rs |  2 +-
 macros/src/interface/parse.rs        | 23 ++++++++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/macros/src/interface/generate/mod.rs b/macros/src/interface/generate/mod.rs
index ec374bd..dbb37bf 100644
--- a/macros/src/interface/generate/mod.rs
+++ b/macros/src/interface/generate/mod.rs
@@ -25,7 +25,7 @@ pub fn generate_interface(fizyr_rpc: &syn::Ident, interface: &InterfaceDefinitio
 	item_tokens
 }
 
-fn to_upper_camel_case(input: &str) -> String {
+pub(super) fn to_upper_camel_case(input: &str) -> String {
 	let mut output = String::new();
 	let mut capitalize = true;
 
diff --git a/macros/src/interface/parse.rs b/macros/src/interface/parse.rs
index f70575c..9252e7d 100644
--- a/macros/src/interface/parse.rs
+++ b/macros/src/interface/parse.rs
@@ -606,6 +606,23 @@ pub mod raw {
 		}
 	}
 
+	/// Parse the name of a service, stream or update.
+	///
+	/// The generated code also uses the name in upper camel case and with a prefix,
+	/// so names for which that does not give valid identifiers are rejected.
+	fn parse_item_name(input: syn::parse::ParseStream) -> syn::Result<syn::Ident> {
+		let name: syn::Ident = input.parse()?;
+		let text = name.to_string();
+		if text.starts_with("r#") {
+			return Err(syn::Error::new(name.span(), "raw identifiers are not supported as name"));
+		}
+		let variant_name = crate::interface::generate::to_upper_camel_case(&text);
+		if syn::parse_str::<syn::Ident>(&variant_name).is_err() {
+			return Err(syn::Error::new(name.span(), "the name is not a valid identifier in upper camel case"));
+		}
+		Ok(name)
+	}
+
 	impl syn::parse::Parse for InterfaceItem {
 		fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
 			let attrs = input.call(syn::Attribute::parse_outer)?;
@@ -614,7 +631,7 @@ pub mod raw {
 					attrs,
 					_service: input.parse()?,
 					service_id: input.parse()?,
-					name: input.parse()?,
+					name: input.call(parse_item_name)?,
 					_colon: input.parse()?,
 					request_type: input.parse()?,
 					_arrow: input.parse()?,
@@ -626,7 +643,7 @@ pub mod raw {
 					attrs,
 					_stream: input.parse()?,
 					service_id: input.parse()?,
-					name: input.parse()?,
+					name: input.call(parse_item_name)?,
 					_colon: input.parse()?,
 					body_type: input.parse()?,
 					_comma: input.parse()?,
@@ -665,7 +682,7 @@ pub mod raw {
 				attrs: input.call(syn::Attribute::parse_outer)?,
 				kind: input.parse()?,
 				service_id: input.parse()?,
-				name: input.parse()?,
+				name: input.call(parse_item_name)?,
 				_colon_token: input.parse()?,
 				body_type: input.parse()?,
 			})
-- 
2.43.0


From 504e4fa1441b57acf96ca2c995de982c409a1815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:02 +0000
Subject: [PATCH 13/16] fix: reject services with the ID of error responses

---
 macros/src/interface/parse.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/macros/src/interface/parse.rs b/macros/src/interface/parse.rs
index 9252e7d..171f6c2 100644
--- a/macros/src/interface/parse.rs
+++ b/macros/src/interface/parse.rs
@@ -315,8 +315,14 @@ pub mod cooked {
 				response_updates.remove(i);
 			}
 
+			// Responses carry the ID of the service, so a service with this ID could only send errors.
+			let service_id = parse_i32(errors, raw.service_id);
+			if service_id.value == ERROR_SERVICE_ID {
+				errors.push(syn::Error::new(service_id.span, "this service ID is reserved for error responses"));
+			}
+
 			Self {
-				service_id: parse_i32(errors, raw.service_id),
+				service_id,
 				name: raw.name,
 				doc: attrs.doc,
 				hidden: attrs.hidden,
@@ -446,6 +452,9 @@ pub mod cooked {
 		indices
 	}
 
+	/// The service ID of error responses, `fizyr_rpc::service_id::ERROR`.
+	const ERROR_SERVICE_ID: i32 = -1;
+
 	/// Parse an integer literal into an i32.
 	fn parse_i32(errors: &mut Vec<syn::Error>, literal: syn::LitInt) -> WithSpan<i32> {
 		match literal.base10_parse() {
-- 
2.43.0


From ae40cb48ecf14d2f0e4d6bd32e7eeaaebceab039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 14/16] fix: name the right variant when formatting
 RecvMessageError for debugging

---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 7a772c9..33c2e99 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -250,8 +250,8 @@ impl<Body> std::fmt::Debug for RecvMessageError<Body> {
 		match self {
 			Self::Other(e) => f.debug_tuple("Other").field(e).finish(),
 			Self::UnknownStream(message) => f.debug_tuple("UnknownStream").field(message).finish(),
-			Self::UnknownRequest(request, _body) => f.debug_tuple("UnknownStream").field(request).finish(),
-			Self::InvalidStream(header, error) => f.debug_tuple("InvalidStread").field(header).field(error).finish(),
+			Self::UnknownRequest(request, _body) => f.debug_tuple("UnknownRequest").field(request).finish(),
+			Self::InvalidStream(header, error) => f.debug_tuple("InvalidStream").field(header).field(error).finish(),
 			Self::InvalidRequest(request, error) => f.debug_tuple("InvalidRequest").field(request).field(error).finish(),
 		}
 	}
-- 
2.43.0


From 602292fe39f56b04c5e0e45c7f75b73d5274e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 15/16] fix: find the length of every message in the Wireshark
 dissector

Wireshark asks for the length of the message at an offset in the data,
but the dissector always looked at the start of the data.
So a message that follows another one of a different length was not dissected correctly.
---
 wireshark/fizyr-rpc.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wireshark/fizyr-rpc.lua b/wireshark/fizyr-rpc.lua
index d1d101b..0823c08 100644
--- a/wireshark/fizyr-rpc.lua
+++ b/wireshark/fizyr-rpc.lua
@@ -66,7 +66,7 @@ do
 	end
 
 	function fizyr_rpc_tcp_get_length(buffer, pinfo, offset)
-		return 4 + buffer(0, 4):le_uint()
+		return 4 + buffer(offset, 4):le_uint()
 	end
 
 	function fizyr_rpc_tcp_dissect_reassembled(buffer, pinfo, tree)
-- 
2.43.0


From b05962f0a80d780cca53f14b4d0e80961be17023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 16/16] fix: dissect UDP messages in the Wireshark dissector

The dissector used a tree item that it never made, so it failed on every datagram.
The length it meant to show was that of the datagram with the UDP header, not that of the message.
---
 wireshark/fizyr-rpc.lua | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wireshark/fizyr-rpc.lua b/wireshark/fizyr-rpc.lua
index 0823c08..05b192f 100644
--- a/wireshark/fizyr-rpc.lua
+++ b/wireshark/fizyr-rpc.lua
@@ -2,8 +2,6 @@ do
 	local fizyr_rpc_tcp_proto = Proto("fizyr_rpc_tcp", "Fizyr RPC over TCP");
 	local fizyr_rpc_udp_proto = Proto("fizyr_rpc_udp", "Fizyr RPC over UDP");
 
-	local udp_length = Field.new("udp.length");
-
 	local field_length = ProtoField.uint32(
 		"fizyr_rpc.message_length",
 		"Message length",
@@ -79,7 +77,8 @@ do
 	end
 
 	function fizyr_rpc_udp_proto.dissector(buffer, pinfo, tree)
-		subtree:add_le(field_length,     udp_length())
+		local subtree = tree:add(fizyr_rpc_udp_proto, buffer)
+		subtree:add_le(field_length,     buffer:len())
 		subtree:add_le(field_kind,       buffer(0, 4))
 		subtree:add_le(field_request_id, buffer(4, 4))
 		subtree:add_le(field_service_id, buffer(8, 4))
-- 
2.43.0

