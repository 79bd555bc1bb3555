//! The byte format and the byte stream transport.
use crate::rt::*;
use crate::sim::*;
use fizyr_rpc::transport::{Endian, Transport, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::{Message, MessageHeader, MessageType, StreamBody, StreamConfig, UnixStreamTransport};

/// Independent description of the byte format.
pub fn put32(out: &mut Vec<u8>, v: u32, big: bool) {
	let b = [v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8];
	for i in 0..4 {
		out.push(if big { b[3 - i] } else { b[i] });
	}
}

pub fn get32(b: &[u8], big: bool) -> u32 {
	let mut v = 0u32;
	for i in 0..4 {
		v |= (b[i] as u32) << (8 * if big { 3 - i } else { i });
	}
	v
}

pub const TYPES: [MessageType; 5] =
	[MessageType::Request, MessageType::Response, MessageType::RequesterUpdate, MessageType::ResponderUpdate, MessageType::Stream];

pub fn any_endian() -> (Endian, bool) {
	match choose(3, "endian") {
		0 => (Endian::LittleEndian, false),
		1 => (Endian::BigEndian, true),
		_ => (Endian::NativeEndian, cfg!(target_endian = "big")),
	}
}

pub fn any_type() -> (MessageType, u32) {
	let t = choose(5, "type");
	(TYPES[t], t as u32)
}

pub fn header(message_type: MessageType, request_id: u32, service_id: i32) -> MessageHeader {
	MessageHeader { message_type, request_id, service_id }
}

pub fn any_header() -> (MessageHeader, u32) {
	let (t, n) = any_type();
	(header(t, u32v("request_id"), i32v("service_id")), n)
}

pub fn frame(out: &mut Vec<u8>, h: &MessageHeader, t: u32, body: &[u8], big: bool) {
	put32(out, body.len() as u32 + 12, big);
	put32(out, t, big);
	put32(out, h.request_id, big);
	put32(out, h.service_id as u32, big);
	out.extend_from_slice(body);
}

pub fn config(read: u32, write: u32, endian: Endian) -> StreamConfig {
	let mut c = StreamConfig::default();
	c.max_body_len_read = read;
	c.max_body_len_write = write;
	c.endian = endian;
	c
}

pub fn codec_encode() {
	let (endian, big) = any_endian();
	let (h, t) = any_header();
	let n = 12 + choose(2, "extra");
	let mut buf = bytes(n, "old");
	let old = buf.clone();
	h.encode(&mut buf, endian);
	check(get32(&buf[0..], big) == t, "type field");
	check(get32(&buf[4..], big) == h.request_id, "request ID field");
	check(get32(&buf[8..], big) == h.service_id as u32, "service ID field");
	check(same(&buf[12..], &old[12..]), "bytes after the header untouched");
	match MessageHeader::decode(&buf, endian) {
		Ok(d) => {
			check(d.message_type as u32 == t, "decoded type");
			check(d.request_id == h.request_id, "decoded request ID");
			check(d.service_id == h.service_id, "decoded service ID");
			cover("decoded");
		},
		Err(_) => check(false, "an encoded header decodes"),
	}
}

pub fn codec_decode() {
	let (endian, big) = any_endian();
	let buf = bytes(12, "byte");
	let t = get32(&buf, big);
	match MessageHeader::decode(&buf, endian) {
		Ok(d) => {
			check(t <= 4, "unknown message types are rejected");
			check(d.message_type as u32 == t, "decoded type");
			check(d.request_id == get32(&buf[4..], big), "decoded request ID");
			check(d.service_id as u32 == get32(&buf[8..], big), "decoded service ID");
			let mut again = [0u8; 12];
			d.encode(&mut again, endian);
			check(same(&again, &buf), "decoding loses nothing");
			check(d.message_type.is_request() == (t == 0), "is_request");
			check(d.message_type.is_response() == (t == 1), "is_response");
			check(d.message_type.is_requester_update() == (t == 2), "is_requester_update");
			check(d.message_type.is_responder_update() == (t == 3), "is_responder_update");
			check(d.message_type.is_stream() == (t == 4), "is_stream");
			cover("accepted");
		},
		Err(_) => {
			check(t > 4, "known message types are accepted");
			cover("rejected");
		},
	}
}

pub fn codec_constructors() {
	let (id, sid) = (u32v("request_id"), i32v("service_id"));
	let k = choose(6, "kind");
	let b = u8v("body");
	let body = StreamBody::from(vec![b]);
	let (m, t, s) = match k {
		0 => (Message::request(id, sid, body), 0, sid),
		1 => (Message::response(id, sid, body), 1, sid),
		2 => (Message::requester_update(id, sid, body), 2, sid),
		3 => (Message::responder_update(id, sid, body), 3, sid),
		4 => (Message::stream(id, sid, body), 4, sid),
		_ => {
			let text = [b & 0x7f];
			(Message::error_response(id, std::str::from_utf8(&text).unwrap_or("")), 1, -1)
		},
	};
	let mut buf = [0u8; 12];
	m.header.encode(&mut buf, Endian::LittleEndian);
	check(get32(&buf, false) == t, "type of a constructed message");
	check(get32(&buf[4..], false) == id, "request ID of a constructed message");
	check(get32(&buf[8..], false) == s as u32, "service ID of a constructed message");
	check(m.body.data.len() == 1 && m.body.data[0] == if k == 5 { b & 0x7f } else { b }, "body of a constructed message");
	cover("constructed");
}

/// Messages written one after the other appear on the stream exactly, whatever the stream accepts per call.
pub fn write_exact(messages: usize, max_body: usize, steps: usize) {
	let (endian, big) = any_endian();
	let sim = Sim::new(vec![], End::Pending, 0, steps);
	let mut t = UnixStreamTransport::new(sim.stream(), config(64, 64, endian));
	let (_r, mut w) = t.split();
	let mut expected = vec![];
	for _ in 0..messages {
		let h = header(TYPES[range(0, 4, "type") as usize], u32v("request_id"), i32v("service_id"));
		let n = choose(max_body + 1, "body length");
		let body = bytes(n, "body");
		frame(&mut expected, &h, h.message_type as u32, &body, big);
		sim.io().out_limit = expected.len();
		let body = StreamBody::from(body);
		match drive(&sim, w.write_msg(&h, &body)) {
			Some(Ok(())) => (),
			_ => check(false, "a message within the limits is written"),
		}
		check(same(&sim.io().output, &expected), "the stream holds exactly the messages written");
		note(1, sim.io().output.len() as u64);
	}
	cover("written");
}

pub fn write_one() {
	write_exact(1, 2, 5)
}
pub fn write_two() {
	write_exact(2, 2, 3)
}

/// Larger bodies, fewer splits.
pub fn write_long() {
	let (endian, big) = any_endian();
	let sim = Sim::new(vec![], End::Pending, 0, 2);
	let n = [24usize, 63, 64][choose(3, "body length")];
	let mut t = UnixStreamTransport::new(sim.stream(), config(64, 64, endian));
	let (_r, mut w) = t.split();
	let h = header(TYPES[range(0, 4, "type") as usize], u32v("request_id"), i32v("service_id"));
	let body = bytes(n, "body");
	let mut expected = vec![];
	frame(&mut expected, &h, h.message_type as u32, &body, big);
	sim.io().out_limit = expected.len();
	let body = StreamBody::from(body);
	match drive(&sim, w.write_msg(&h, &body)) {
		Some(Ok(())) => (),
		_ => check(false, "a message within the limits is written"),
	}
	check(same(&sim.io().output, &expected), "the stream holds exactly the messages written");
	cover("written");
}

/// A large body: known bytes, but for a few.
pub fn large(n: usize) -> Vec<u8> {
	let mut b: Vec<u8> = (0..n).map(|i| (i ^ (i >> 7)) as u8).collect();
	for k in [0, n / 2, n - 1] {
		b[k] = u8v("body");
	}
	b
}

const LARGE: [usize; 9] = [255, 256, 1024, 4096, 8192, 16384, 65536, 65537, 70_001];

/// Where the transfer of a large body stops.
fn cuts(n: usize) -> Vec<usize> {
	match choose(6, "cuts") {
		0 => vec![],
		1 => vec![15, 16 + n / 2],
		2 => vec![16, 17],
		3 => vec![1, 16 + n - 1],
		4 => vec![17, 16 + n],
		_ => (1..8).map(|k| 16 + k * n / 8).collect(),
	}
}

/// Bodies of any size within the limits, with a small message behind them.
pub fn write_large() {
	let (endian, big) = any_endian();
	let n = LARGE[choose(LARGE.len(), "body length")];
	let sim = Sim::new(vec![], End::Pending, 0, 0);
	sim.io().write_cuts = cuts(n);
	let mut t = UnixStreamTransport::new(sim.stream(), config(100_000, 100_000, endian));
	let (_r, mut w) = t.split();
	let mut expected = vec![];
	for body in [large(n), bytes(1, "body")] {
		let h = header(TYPES[range(0, 4, "type") as usize], u32v("request_id"), i32v("service_id"));
		frame(&mut expected, &h, h.message_type as u32, &body, big);
		sim.io().out_limit = expected.len();
		let body = StreamBody::from(body);
		match drive(&sim, w.write_msg(&h, &body)) {
			Some(Ok(())) => (),
			_ => check(false, "a message within the limits is written"),
		}
	}
	check(same(&sim.io().output, &expected), "the stream holds exactly the messages written");
	cover("written");
}

pub fn read_large() {
	let (endian, big) = any_endian();
	let n = LARGE[choose(LARGE.len(), "body length")];
	let mut input = vec![];
	let mut sent = vec![];
	for body in [large(n), bytes(1, "body")] {
		let (t, id, sid) = (range(0, 4, "type") as u32, u32v("request_id"), u32v("service_id"));
		put32(&mut input, body.len() as u32 + 12, big);
		put32(&mut input, t, big);
		put32(&mut input, id, big);
		put32(&mut input, sid, big);
		input.extend_from_slice(&body);
		sent.push((t, id, sid, body));
	}
	let sim = Sim::new(input, End::Pending, 0, 0);
	sim.io().read_cuts = cuts(n);
	let mut t = UnixStreamTransport::new(sim.stream(), config(100_000, 100_000, endian));
	let (mut r, _w) = t.split();
	expect_messages(&sim, &mut r, &sent);
	check(drive(&sim, r.read_msg()).is_none(), "nothing is delivered that was not sent");
}

/// The end of the connection, or an abandoned read, inside a large body.
pub fn read_large_end() {
	let n = LARGE[choose(LARGE.len(), "body length")];
	let body = large(n);
	let (t, id, sid) = (range(0, 4, "type") as u32, u32v("request_id"), u32v("service_id"));
	let mut input = vec![];
	put32(&mut input, n as u32 + 12, false);
	put32(&mut input, t, false);
	put32(&mut input, id, false);
	put32(&mut input, sid, false);
	input.extend_from_slice(&body);
	let cancel = flag("cancel");
	let sim = if cancel {
		Sim::new(input, End::Pending, 0, 0)
	} else {
		input.truncate(16 + [0, 1, n / 2, n - 1][choose(4, "missing")]);
		Sim::new(input, [End::Eof, End::Reset][choose(2, "end")], 0, 0)
	};
	sim.io().read_cuts = cuts(n);
	let mut tr = UnixStreamTransport::new(sim.stream(), config(100_000, 0, Endian::LittleEndian));
	let (mut r, _w) = tr.split();
	let mut got = None;
	for _ in 0..10 {
		let mut task = Task::new(r.read_msg());
		if let Some(m) = task.poll() {
			got = Some(m);
			break;
		}
		sim.fire();
	}
	match got {
		Some(Ok(m)) => {
			check(cancel, "an incomplete message is not delivered");
			check(m.header.message_type as u32 == t, "type of the message read");
			check(m.header.request_id == id, "request ID of the message read");
			check(m.header.service_id as u32 == sid, "service ID of the message read");
			check(same(&m.body.data, &body), "body of the message read");
			cover("cancelled");
		},
		Some(Err(e)) => {
			check(!cancel && e.is_fatal(), "the end of the connection is a fatal error");
			cover("ended");
		},
		None => check(false, "the message or the end of the connection is reported"),
	}
}

/// TCP uses the same transport through other halves.
pub fn write_tcp() {
	let (endian, big) = any_endian();
	let sim = Sim::new(vec![], End::Pending, 0, 3);
	let mut t = fizyr_rpc::TcpTransport::new(sim.tcp(), config(64, 64, endian));
	let (_r, mut w) = t.split();
	let h = header(TYPES[range(0, 4, "type") as usize], u32v("request_id"), i32v("service_id"));
	let n = choose(3, "body length");
	let body = bytes(n, "body");
	let mut expected = vec![];
	frame(&mut expected, &h, h.message_type as u32, &body, big);
	sim.io().out_limit = expected.len();
	let body = StreamBody::from(body);
	match drive(&sim, w.write_msg(&h, &body)) {
		Some(Ok(())) => (),
		_ => check(false, "a message within the limits is written"),
	}
	check(same(&sim.io().output, &expected), "the stream holds exactly the messages written");
	cover("written");
}

/// A write error is fatal and reported.
pub fn write_error() {
	let (endian, big) = any_endian();
	let sim = Sim::new(vec![], End::Pending, 0, 3);
	let at = choose(18, "fail at");
	sim.io().write_fail_at = at;
	let mut t = UnixStreamTransport::new(sim.stream(), config(64, 64, endian));
	let (_r, mut w) = t.split();
	let h = header(MessageType::Request, u32v("request_id"), i32v("service_id"));
	let body = bytes(2, "body");
	let mut expected = vec![];
	frame(&mut expected, &h, 0, &body, big);
	let body = StreamBody::from(body);
	match drive(&sim, w.write_msg(&h, &body)) {
		Some(Err(e)) => {
			check(e.is_fatal(), "an I/O error is fatal");
			cover("failed");
		},
		_ => check(false, "an I/O error is reported"),
	}
	check(same(&sim.io().output, &expected[..at]), "what was written is the start of the message");
}

fn sent_frames(messages: usize, max_body: usize, big: bool) -> (Vec<u8>, Vec<(u32, u32, u32, Vec<u8>)>) {
	let mut input = vec![];
	let mut sent = vec![];
	for _ in 0..messages {
		let (t, id, sid) = (range(0, 4, "type") as u32, u32v("request_id"), u32v("service_id"));
		let n = choose(max_body + 1, "body length");
		let body = bytes(n, "body");
		put32(&mut input, n as u32 + 12, big);
		put32(&mut input, t, big);
		put32(&mut input, id, big);
		put32(&mut input, sid, big);
		input.extend_from_slice(&body);
		sent.push((t, id, sid, body));
	}
	(input, sent)
}

fn expect_messages<R: TransportReadHalf<Body = StreamBody>>(sim: &Sim, r: &mut R, sent: &[(u32, u32, u32, Vec<u8>)]) {
	for (t, id, sid, body) in sent {
		match drive(sim, r.read_msg()) {
			Some(Ok(m)) => {
				check(m.header.message_type as u32 == *t, "type of the message read");
				check(m.header.request_id == *id, "request ID of the message read");
				check(m.header.service_id as u32 == *sid, "service ID of the message read");
				check(same(&m.body.data, body), "body of the message read");
			},
			Some(Err(_)) => check(false, "a valid message is read without error"),
			None => check(false, "a complete message is delivered without waiting for more"),
		}
	}
	cover("read");
}

pub fn read_exact(messages: usize, max_body: usize, steps: usize) {
	let (endian, big) = any_endian();
	let (input, sent) = sent_frames(messages, max_body, big);
	let sim = Sim::new(input, End::Pending, steps, 0);
	let mut t = UnixStreamTransport::new(sim.stream(), config(64, 64, endian));
	let (mut r, _w) = t.split();
	expect_messages(&sim, &mut r, &sent);
	check(drive(&sim, r.read_msg()).is_none(), "nothing is delivered that was not sent");
}
pub fn read_one() {
	read_exact(1, 2, 4)
}
pub fn read_two() {
	read_exact(2, 2, 3)
}
pub fn read_long() {
	let (endian, big) = any_endian();
	let n = [24usize, 63, 64][choose(3, "body length")];
	let (t, id, sid, body) = (range(0, 4, "type") as u32, u32v("request_id"), u32v("service_id"), bytes(n, "body"));
	let mut input = vec![];
	put32(&mut input, n as u32 + 12, big);
	put32(&mut input, t, big);
	put32(&mut input, id, big);
	put32(&mut input, sid, big);
	input.extend_from_slice(&body);
	let sim = Sim::new(input, End::Pending, 2, 0);
	let mut tr = UnixStreamTransport::new(sim.stream(), config(64, 64, endian));
	let (mut r, _w) = tr.split();
	expect_messages(&sim, &mut r, &[(t, id, sid, body)]);
}
pub fn read_tcp() {
	let (endian, big) = any_endian();
	let (input, sent) = sent_frames(1, 1, big);
	let sim = Sim::new(input, End::Pending, 3, 0);
	let mut t = fizyr_rpc::TcpTransport::new(sim.tcp(), config(64, 64, endian));
	let (mut r, _w) = t.split();
	expect_messages(&sim, &mut r, &sent);
}

/// Dropping the future that reads a message loses nothing: the next one continues where it stopped.
pub fn read_cancel() {
	let (endian, big) = any_endian();
	let (input, sent) = sent_frames(1, 2, big);
	let sim = Sim::new(input, End::Pending, 4, 0);
	let mut tr = UnixStreamTransport::new(sim.stream(), config(64, 64, endian));
	let (mut r, _w) = tr.split();
	let mut got = None;
	for _ in 0..6 {
		let mut task = Task::new(r.read_msg());
		if let Some(m) = task.poll() {
			got = Some(m);
			break;
		}
		sim.fire();
		cover("cancelled");
	}
	let (t, id, sid, body) = &sent[0];
	match got {
		Some(Ok(m)) => {
			check(m.header.message_type as u32 == *t, "type of the message read");
			check(m.header.request_id == *id, "request ID of the message read");
			check(m.header.service_id as u32 == *sid, "service ID of the message read");
			check(same(&m.body.data, body), "body of the message read");
		},
		_ => check(false, "the message is read"),
	}
	cover("read");
}

/// Arbitrary bytes from the remote side.
pub fn read_hostile() {
	let (endian, big) = any_endian();
	let max = choose(4, "max body") as u32;
	let n = choose(23, "bytes");
	let end = [End::Pending, End::Eof, End::Reset][choose(3, "end")];
	hostile(endian, big, max, n, end, 1)
}
/// The same with enough bytes for two messages.
pub fn read_hostile_two() {
	let (endian, big) = any_endian();
	let max = choose(3, "max body") as u32;
	hostile(endian, big, max, 36, End::Eof, 1)
}
/// Any limit at all.
pub fn read_hostile_limit() {
	let (endian, big) = any_endian();
	let max = u32v("max body");
	let input = bytes(16, "byte");
	let len = get32(&input, big);
	// Keep allocations small where a body is acceptable.
	assume(len < 16 || len > max.saturating_add(12) || max > u32::MAX - 12);
	let sim = Sim::new(input.clone(), End::Pending, 0, 0);
	let mut t = UnixStreamTransport::new(sim.stream(), config(max, 0, endian));
	let (mut r, _w) = t.split();
	assume(max <= u32::MAX - 12);
	alloc_limit(1 << 20);
	match drive(&sim, r.read_msg()) {
		Some(Ok(m)) => {
			check(len == 12, "an incomplete message is not delivered");
			check(m.body.data.is_empty(), "empty body");
			cover("accepted");
		},
		Some(Err(e)) => {
			check(len < 12 || len - 12 > max || get32(&input[4..], big) > 4, "a valid header is accepted");
			check(e.is_fatal(), "a malformed message is a fatal error");
			cover("rejected");
		},
		None => check(len > 12 && len - 12 <= max, "only a valid header waits for its body"),
	}
}

fn hostile(endian: Endian, big: bool, max: u32, n: usize, end: End, steps: usize) {
	let input = bytes(n, "byte");
	let sim = Sim::new(input.clone(), end, steps, 0);
	let mut t = UnixStreamTransport::new(sim.stream(), config(max, 0, endian));
	let (mut r, _w) = t.split();
	let mut pos = 0;
	alloc_limit(1 << 20);
	loop {
		let result = drive(&sim, r.read_msg());
		let left = &input[pos..];
		if left.len() < 16 {
			match result {
				None => check(end == End::Pending, "waits only for more bytes"),
				Some(Err(e)) => {
					check(end != End::Pending, "no error while the connection is open");
					check(e.is_fatal(), "a closed connection is fatal");
					check((end == End::Eof) == e.inner().is_connection_aborted(), "the end of the stream is reported as an aborted connection");
					cover("end in header");
				},
				Some(Ok(_)) => check(false, "an incomplete message is not delivered"),
			}
			return;
		}
		let len = get32(left, big);
		let t = get32(&left[4..], big);
		if len < 12 || t > 4 || len - 12 > max {
			match result {
				Some(Err(e)) => {
					check(e.is_fatal(), "a malformed message is a fatal error");
					cover("malformed");
				},
				_ => check(false, "a malformed message is an error"),
			}
			return;
		}
		let body = concrete(len as u64 - 12) as usize;
		if left.len() < 16 + body {
			match result {
				None => check(end == End::Pending, "waits only for more bytes"),
				Some(Err(e)) => {
					check(end != End::Pending, "no error while the connection is open");
					check(e.is_fatal(), "a closed connection is fatal");
					check((end == End::Eof) == e.inner().is_connection_aborted(), "the end of the stream is reported as an aborted connection");
					cover("end in body");
				},
				Some(Ok(_)) => check(false, "an incomplete message is not delivered"),
			}
			return;
		}
		match result {
			Some(Ok(m)) => {
				check(m.header.message_type as u32 == t, "type of the message read");
				check(m.header.request_id == get32(&left[8..], big), "request ID of the message read");
				check(m.header.service_id as u32 == get32(&left[12..], big), "service ID of the message read");
				check(same(&m.body.data, &left[16..16 + body]), "body of the message read");
				cover("delivered");
			},
			_ => check(false, "a valid message is delivered"),
		}
		pos += 16 + body;
	}
}

/// Messages over the limit are refused without harm to the stream.
pub fn write_limit() {
	let (endian, big) = any_endian();
	let max = choose(4, "max body") as u32;
	let sim = Sim::new(vec![], End::Pending, 0, 1);
	let mut t = UnixStreamTransport::new(sim.stream(), config(0, max, endian));
	let (_r, mut w) = t.split();
	let mut expected = vec![];
	for _ in 0..3 {
		let h = header(TYPES[range(0, 4, "type") as usize], u32v("request_id"), i32v("service_id"));
		let n = choose(5, "body length");
		let body = bytes(n, "body");
		if n as u32 <= max {
			frame(&mut expected, &h, h.message_type as u32, &body, big);
		}
		let body = StreamBody::from(body);
		match drive(&sim, w.write_msg(&h, &body)) {
			Some(Ok(())) => check(n as u32 <= max, "a message over the limit is refused"),
			Some(Err(e)) => {
				check(n as u32 > max, "a message within the limit is accepted");
				check(!e.is_fatal(), "refusing a message is not fatal");
				cover("refused");
			},
			None => check(false, "the write completes"),
		}
		check(same(&sim.io().output, &expected), "the stream holds exactly the accepted messages");
	}
	cover("end");
}

/// Whatever the limit, the length field never wraps.
pub fn write_limit_huge() {
	let (endian, big) = any_endian();
	let max = u32::MAX - choose(16, "max below") as u32;
	let n = (u32::MAX as usize + 2) - choose(18, "length below");
	let sim = Sim::new(vec![], End::Pending, 0, 0);
	sim.io().write_fail_at = 16;
	let mut t = UnixStreamTransport::new(sim.stream(), config(0, max, endian));
	let (_r, mut w) = t.split();
	let h = header(MessageType::Stream, u32v("request_id"), i32v("service_id"));
	let body = StreamBody { data: vec![0; n] };
	match drive(&sim, w.write_msg(&h, &body)) {
		// The stand-in stream breaks after the header.
		Some(Err(e)) if e.is_fatal() => {
			check(n <= max as usize && n as u64 + 12 <= u32::MAX as u64, "a message over the limit is refused");
			check(get32(&sim.io().output, big) as u64 == n as u64 + 12, "the length field is the length of the message");
			cover("accepted");
		},
		Some(Err(_)) => {
			check(n > max as usize || n as u64 + 12 > u32::MAX as u64, "a message within the limit is accepted");
			check(sim.io().output.is_empty(), "a refused message leaves nothing on the stream");
			cover("refused");
		},
		_ => check(false, "the write fails"),
	}
}

/// Large limits, in both directions.
pub fn limit_large() {
	let (endian, big) = any_endian();
	let max = [12usize, 255, 256, 4096, 8180, 8192, 65535, 65536, 70_000][choose(9, "max body")];
	let n = max + 2 - choose(5, "length below");
	let sim = Sim::new(vec![], End::Pending, 0, 0);
	let read = flag("read");
	let (mut t, mut input) = (UnixStreamTransport::new(sim.stream(), config(if read { max as u32 } else { 0 }, if read { 0 } else { max as u32 }, endian)), vec![]);
	let (mut r, mut w) = t.split();
	let h = header(MessageType::Stream, u32v("request_id"), i32v("service_id"));
	let body = large(n);
	frame(&mut input, &h, 4, &body, big);
	if read {
		sim.io().input = input;
		match drive(&sim, r.read_msg()) {
			Some(Ok(m)) => check(n <= max && m.header == h && same(&m.body.data, &body), "a message over the limit is refused"),
			Some(Err(e)) => check(n > max && e.is_fatal(), "a message within the limit is accepted"),
			None => check(false, "the read completes"),
		}
		cover("read");
	} else {
		match drive(&sim, w.write_msg(&h, &StreamBody::from(body))) {
			Some(Ok(())) => check(n <= max && same(&sim.io().output, &input), "a message over the limit is refused"),
			Some(Err(e)) => check(n > max && !e.is_fatal() && sim.io().output.is_empty(), "a message within the limit is accepted"),
			None => check(false, "the write completes"),
		}
		cover("written");
	}
}
