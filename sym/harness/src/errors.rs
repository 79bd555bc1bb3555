//! What errors say, and how they are told apart.
use crate::peer::*;
use crate::rt::*;
use crate::sim::*;
use crate::stream::{frame, header, put32};
use crate::typed::{api, Bad, Tagged};
use crate::unix::{sock, socket, Datagram};
use crate::world::*;
use fizyr_rpc::transport::{Endian, Transport, TransportError, TransportReadHalf, TransportWriteHalf, UnixTransport};
use fizyr_rpc::{Error, MessageType, ParseUpdateError, ReceivedMessage, RecvMessageError, StreamBody, UnixBody, UnixStreamTransport};
use std::fmt::{Debug, Display};
use std::io::ErrorKind;

fn shown(e: &dyn Display) -> String {
	format!("{e}")
}

fn debugged(e: &dyn Debug) -> String {
	let s = format!("{e:?}");
	check(!s.is_empty() && !format!("{e:#?}").is_empty(), "everything can be formatted for debugging");
	s
}

/// All numbers in a text.
fn numbers(t: &str) -> Vec<i64> {
	let b = t.as_bytes();
	let mut out = vec![];
	let mut i = 0;
	while i < b.len() {
		if b[i].is_ascii_digit() {
			let negative = i > 0 && b[i - 1] == b'-';
			let mut n = 0i64;
			while i < b.len() && b[i].is_ascii_digit() {
				n = n * 10 + (b[i] - b'0') as i64;
				i += 1;
			}
			out.push(if negative { -n } else { n });
		} else {
			i += 1;
		}
	}
	out
}

/// The text has these numbers; if it says what was got, that is the first of them.
fn tells(t: &str, n: &[i64]) {
	let all = numbers(t);
	for x in n {
		check(all.contains(x), "an error names the numbers it is about");
	}
	if let Some(p) = t.find("got") {
		check(numbers(&t[p..]).first() == Some(&n[0]), "an error tells what was got from what was expected");
	}
}

/// The kinds of errors the predicates distinguish.
#[derive(PartialEq, Clone, Copy)]
enum Class {
	Aborted,
	Remote,
	WrongType,
	Other,
}

fn class(e: &Error, c: Class) {
	check(e.is_connection_aborted() == (c == Class::Aborted), "only the end of the connection is reported as such");
	check(e.is_remote_error() == (c == Class::Remote), "only an error of the remote side is reported as one");
	check(e.as_remote_error().is_some() == (c == Class::Remote), "only an error of the remote side has its text");
	check(e.is_unexpected_message_type() == (c == Class::WrongType), "only a message of the wrong type is reported as such");
	debugged(e);
}

fn ascii(n: usize) -> String {
	let mut s = String::new();
	for b in bytes(n, "text") {
		assume(b < 0x80);
		s.push(b as char);
	}
	s
}

#[derive(Debug)]
struct Text(String);
impl std::error::Error for Text {}
impl Display for Text {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str(&self.0)
	}
}

const KINDS: [ErrorKind; 9] = [
	ErrorKind::ConnectionAborted,
	ErrorKind::ConnectionReset,
	ErrorKind::BrokenPipe,
	ErrorKind::UnexpectedEof,
	ErrorKind::NotConnected,
	ErrorKind::InvalidData,
	ErrorKind::TimedOut,
	ErrorKind::Interrupted,
	ErrorKind::Other,
];

const LENGTHS: [usize; 6] = [0, 7, 11, 4096, u32::MAX as usize, 5_000_000_000];
const WORDS: [u32; 4] = [5, 42, 0x8000_0000, u32::MAX];
const IDS: [i32; 6] = [0, 1, -1, 77, i32::MAX, i32::MIN];

/// Every error that can be made.
pub fn made() {
	let (mut c, mut text) = (Class::Other, None);
	let e = match choose(12, "error") {
		0 => {
			let n = LENGTHS[choose(LENGTHS.len(), "length")];
			let e = Error::message_too_short(n);
			tells(&shown(&e), &[n as i64]);
			e
		},
		1 => {
			let n = WORDS[choose(WORDS.len(), "type")];
			let e = Error::invalid_message_type(n);
			tells(&shown(&e), &[n as i64]);
			e
		},
		2 => {
			let (a, b) = (LENGTHS[choose(LENGTHS.len(), "length")], [3usize, 8192, 0xffff_fff3][choose(3, "limit")]);
			let e = Error::payload_too_large(a, b);
			tells(&shown(&e), &[a as i64, b as i64]);
			e
		},
		3 => {
			let n = IDS[choose(IDS.len(), "service")];
			let e = Error::unexpected_service_id(n);
			tells(&shown(&e), &[n as i64]);
			e
		},
		4 => {
			let t = ascii(choose(4, "len"));
			text = Some(t.clone());
			Error::encode_failed(Box::new(Text(t)))
		},
		5 => {
			let t = ascii(choose(4, "len"));
			text = Some(t.clone());
			Error::decode_failed(Box::new(Text(t)))
		},
		6 => {
			let t = ascii(choose(4, "len"));
			text = Some(t.clone());
			c = Class::Remote;
			Error::remote_error(t)
		},
		7 => {
			let t = ascii(choose(4, "len"));
			text = Some(t.clone());
			Error::custom(t)
		},
		k @ (8 | 9) => {
			// An error of the system that is only a kind.
			let kind = KINDS[choose(KINDS.len(), "kind")];
			if kind == ErrorKind::ConnectionAborted {
				c = Class::Aborted;
			}
			text = Some(shown(&std::io::Error::from(kind)));
			if k == 8 { Error::io_error(kind.into()) } else { std::io::Error::from(kind).into() }
		},
		10 => {
			// One with a text.
			let kind = KINDS[choose(KINDS.len(), "kind")];
			if kind == ErrorKind::ConnectionAborted {
				c = Class::Aborted;
			}
			let t = ascii(choose(3, "len"));
			text = Some(t.clone());
			Error::io_error(std::io::Error::new(kind, Text(t)))
		},
		_ => {
			// One with a number.
			let n = i32v("errno");
			let e = Error::io_error(std::io::Error::from_raw_os_error(n));
			check(e.is_connection_aborted() == (n == libc::ECONNABORTED), "only the end of the connection is reported as such");
			check(!e.is_remote_error() && !e.is_unexpected_message_type(), "an error of the system is nothing else");
			cover("errno");
			return;
		},
	};
	class(&e, c);
	let t = shown(&e);
	if let Some(text) = &text {
		check(same(t.as_bytes(), text.as_bytes()), "an error has the text it was made of");
	}
	if c == Class::Remote {
		check(e.as_remote_error().is_some_and(|x| same(x.as_bytes(), t.as_bytes())), "the text of the remote error");
	}
	if flag("wrapped") {
		let mut r = RecvMessageError::<StreamBody>::from(e);
		check(same(shown(&r).as_bytes(), t.as_bytes()), "a wrapped error says the same");
		check(r.is_connection_aborted() == (c == Class::Aborted), "only the end of the connection is reported as such");
		check(r.request_handle().is_none() && r.request_handle_mut().is_none(), "an error without request has no handle");
		debugged(&r);
		match r {
			RecvMessageError::Other(e) => class(&e, c),
			_ => check(false, "a wrapped error stays the same"),
		}
		cover("wrapped");
	} else {
		let x = e.into_remote_error();
		check(x.is_some() == (c == Class::Remote) && x.map_or(true, |x| same(x.as_bytes(), t.as_bytes())), "the text of the remote error");
	}
	cover("made");
}

/// The error of a transport, with what it wraps.
fn transport_error(e: TransportError, fatal: bool, c: Class, n: &[i64]) {
	check(e.is_fatal() == fatal, "an error is fatal exactly if the transport is unusable");
	let t = shown(&e);
	check(t == shown(e.inner()), "the error of a transport says what the inner one says");
	debugged(&e);
	if !n.is_empty() {
		tells(&t, n);
	}
	class(e.inner(), c);
	let e = e.into_inner();
	check(t == shown(&e), "the error of a transport says what the inner one says");
	class(&e, c);
}

fn failed<T>(r: Option<Result<T, TransportError>>) -> TransportError {
	match r {
		Some(Err(e)) => e,
		_ => {
			check(false, "the transport fails");
			done()
		},
	}
}

/// The errors of the byte stream transport.
pub fn stream_transport() {
	let limit = [2usize, 100, 8192][choose(3, "limit")];
	let more = [1usize, 9, 1000][choose(3, "more")];
	let sim = Sim::new(vec![], End::Eof, 0, 0);
	let mut t = UnixStreamTransport::new(sim.stream(), crate::stream::config(limit as u32, limit as u32, Endian::LittleEndian));
	let (mut r, mut w) = t.split();
	let h = header(MessageType::Stream, u32v("id"), i32v("service"));
	let input = &mut sim.io().input;
	match choose(7, "what") {
		0 => {
			let body = StreamBody::from(vec![0; limit + more]);
			let e = failed(drive(&sim, w.write_msg(&h, &body)));
			transport_error(e, false, Class::Other, &[(limit + more) as i64, limit as i64]);
			cover("write");
		},
		1 => {
			frame(input, &h, 4, &vec![0; limit + more], false);
			let e = failed(drive(&sim, r.read_msg()));
			transport_error(e, true, Class::Other, &[(limit + more) as i64, limit as i64]);
		},
		2 => {
			let n = choose(12, "length");
			put32(input, n as u32, false);
			input.extend_from_slice(&[0; 12]);
			let e = failed(drive(&sim, r.read_msg()));
			transport_error(e, true, Class::Other, &[n as i64]);
		},
		3 => {
			let n = WORDS[choose(4, "type")];
			frame(input, &h, n, &[], false);
			let e = failed(drive(&sim, r.read_msg()));
			transport_error(e, true, Class::Other, &[n as i64]);
		},
		4 => {
			// The remote side closes the connection.
			let e = failed(drive(&sim, r.read_msg()));
			transport_error(e, true, Class::Aborted, &[]);
			cover("end");
		},
		5 => {
			sim.io().end = End::Reset;
			let e = failed(drive(&sim, r.read_msg()));
			transport_error(e, true, Class::Other, &[]);
			cover("reset");
		},
		_ => {
			sim.io().write_fail_at = choose(3, "bytes");
			let e = failed(drive(&sim, w.write_msg(&h, &vec![].into())));
			transport_error(e, true, Class::Other, &[]);
		},
	}
	cover("done");
}

/// The errors of the seqpacket transport.
pub fn unix_transport() {
	let limit = [2usize, 100][choose(2, "limit")];
	let more = [1usize, 9][choose(2, "more")];
	let (n, s) = socket();
	let mut t = UnixTransport::new(s, crate::unix::config((limit as u32, 1), (limit as u32, 1), Endian::LittleEndian));
	let (mut r, mut w) = t.split();
	let h = header(MessageType::Stream, u32v("id"), i32v("service"));
	let datagram = |t: u32, body: &[u8]| Datagram { data: crate::unix::encoded(&h, t, false, body), fds: vec![] };
	use crate::unix::drive;
	match choose(7, "what") {
		0 => {
			let body = UnixBody::from(vec![0; limit + more]);
			let e = failed(drive(w.write_msg(&h, &body)));
			transport_error(e, false, Class::Other, &[(limit + more) as i64, limit as i64]);
		},
		1 => {
			let f = crate::unix::objects(2 + choose(3, "fds"), 1).0;
			let k = f.len() as i64;
			let body = UnixBody::new(vec![], f);
			let e = failed(drive(w.write_msg(&h, &body)));
			transport_error(e, false, Class::Other, &[k, 1]);
			cover("descriptors");
		},
		2 => {
			sock(n).input.push(datagram(4, &vec![0; limit + more]));
			let e = failed(drive(r.read_msg()));
			let f = e.is_fatal();
			// How much longer the datagram was is not known.
			transport_error(e, f, Class::Other, &[]);
		},
		3 => {
			let k = 1 + choose(11, "length");
			sock(n).input.push(Datagram { data: vec![0; k], fds: vec![] });
			let e = failed(drive(r.read_msg()));
			let f = e.is_fatal();
			transport_error(e, f, Class::Other, &[k as i64]);
		},
		4 => {
			let k = WORDS[choose(4, "type")];
			sock(n).input.push(datagram(k, &[]));
			let e = failed(drive(r.read_msg()));
			let f = e.is_fatal();
			transport_error(e, f, Class::Other, &[k as i64]);
		},
		5 => {
			sock(n).eof = true;
			let e = failed(drive(r.read_msg()));
			transport_error(e, true, Class::Aborted, &[]);
			cover("end");
		},
		_ => {
			let error = [libc::ECONNRESET, libc::ENOTCONN, libc::ECONNABORTED][choose(3, "errno")];
			sock(n).recv_error = error;
			let e = failed(drive(r.read_msg()));
			check(e.is_fatal(), "a failure of the socket is fatal");
			check(e.inner().is_connection_aborted() == (error == libc::ECONNABORTED), "only the end of the connection is reported as such");
		},
	}
	cover("done");
}

/// The errors of a connection.
pub fn connection() {
	let (mut w, mut h) = world();
	let id = WORDS[choose(4, "id")];
	let said = |r: Option<Result<ReceivedMessage<StreamBody>, Error>>| match r {
		Some(Err(e)) => e,
		_ => {
			check(false, "an error is reported");
			done()
		},
	};
	match choose(8, "what") {
		0 => {
			let kind = 1 + choose(3, "kind") as u32;
			w.receive(&any(kind, id));
			let e = said(now(h.recv_message()));
			tells(&shown(&e), &[id as i64]);
			class(&e, Class::Other);
			cover("unknown");
		},
		1 => {
			let _r = incoming(&mut w, &mut h, &request(id));
			w.receive(&request(id));
			let e = said(now(h.recv_message()));
			tells(&shown(&e), &[id as i64]);
			class(&e, Class::Other);
			cover("duplicate");
		},
		2 => {
			// An update instead of the response.
			let mut r = open(&mut w, &h, 1, vec![]);
			w.receive(&any(RESPONDER_UPDATE, r.request_id()));
			match now(r.recv_response()) {
				Some(Err(e)) => {
					let t = shown(&e);
					let (a, b) = (t.find("response"), t.find("update"));
					check(a.is_some() && b.is_some(), "an error names the types of message it is about");
					if let Some(p) = t.find("got") {
						check(t[p..].contains("update") && !t[p..].contains("response"), "an error tells what was got from what was expected");
					}
					class(&e, Class::WrongType);
				},
				_ => check(false, "an update is not a response"),
			}
			cover("wrong type");
		},
		3 => {
			// After the response.
			let r = incoming(&mut w, &mut h, &request(id));
			let x = r.write_handle();
			check(w.wait(r.send_response(1, vec![])).is_ok(), "a response is sent");
			let e = match choose(3, "how") {
				0 => w.wait(x.send_response(1, vec![])),
				1 => w.wait(x.send_update(1, vec![])),
				_ => w.wait(x.send_error_response("x")),
			};
			match e {
				Err(e) => {
					check(!shown(&e).is_empty(), "an error has a text");
					class(&e, Class::Other);
				},
				Ok(()) => check(false, "nothing is sent after the response"),
			}
			cover("closed");
		},
		4 => {
			// Too large, through each kind of send.
			let k = 65 + choose(3, "more");
			let r = incoming(&mut w, &mut h, &request(id));
			let body = || vec![0; k];
			let e = match choose(4, "how") {
				0 => w.wait(h.send_stream(1, body())).err(),
				1 => w.wait(h.send_request(1, body())).err(),
				2 => w.wait(r.send_update(1, body())).err(),
				_ => w.wait(r.send_response(1, body())).err(),
			};
			match e {
				Some(e) => {
					tells(&shown(&e), &[k as i64, 64]);
					class(&e, Class::Other);
				},
				None => check(false, "a body above the limit is refused"),
			}
			cover("too large");
		},
		5 => {
			// The end of the connection, and what comes after it.
			let mut r = open(&mut w, &h, 1, vec![]);
			let reset = flag("reset");
			w.end(if reset { End::Reset } else { End::Eof });
			w.go();
			class(&said(now(h.recv_message())), if reset { Class::Other } else { Class::Aborted });
			class(&said(now(h.recv_message())), Class::Aborted);
			match now(r.recv_response()) {
				Some(Err(e)) => class(&e, Class::Aborted),
				_ => check(false, "an open request is aborted"),
			}
			match w.wait(h.send_stream(1, vec![])) {
				Err(e) => class(&e, Class::Aborted),
				Ok(()) => check(false, "nothing is sent after the end"),
			}
			cover("end");
		},
		6 => {
			// A frame that is not valid.
			let n = WORDS[choose(4, "type")];
			let bad = header(MessageType::Stream, id, 0);
			frame(&mut w.sim.io().input, &bad, n, &[], false);
			w.sim.fire();
			w.go();
			let e = said(now(h.recv_message()));
			tells(&shown(&e), &[n as i64]);
			class(&e, Class::Other);
			cover("invalid");
		},
		_ => {
			// After the end, a request has no ID.
			h.close_handle().close();
			w.go();
			match w.wait(h.send_request(1, vec![])) {
				Err(e) => class(&e, Class::Aborted),
				Ok(_) => check(false, "nothing is sent after the end"),
			}
		},
	}
	cover("done");
}

/// The errors of generated interfaces.
pub fn typed() {
	let (mut w, h) = world();
	let id = WORDS[choose(4, "id")];
	let (r, x) = h.split();
	let mut s = api::Server::<Tagged>::from(r);
	let c = api::Client::<Tagged>::new(x);
	match choose(6, "what") {
		k @ 0..=3 => {
			let (stream, known) = (k < 2, k % 2 == 0);
			let service = if known { [1, 2][choose(2, "service")] } else { [-7, 99, i32::MAX - 1, i32::MIN][choose(4, "service")] };
			w.receive(&msg(if stream { STREAM } else { REQUEST }, id, service as u32, &[1]));
			let mut e = match now(s.recv_message()) {
				Some(Err(e)) => e,
				_ => {
					check(false, "an unusable message is reported");
					done()
				},
			};
			let name = match &e {
				RecvMessageError::UnknownStream(_) => (true, false, "UnknownStream"),
				RecvMessageError::UnknownRequest(..) => (false, false, "UnknownRequest"),
				RecvMessageError::InvalidStream(..) => (true, true, "InvalidStream"),
				RecvMessageError::InvalidRequest(..) => (false, true, "InvalidRequest"),
				RecvMessageError::Other(_) => (stream, known, "?"),
			};
			check((name.0, name.1) == (stream, known), "an unusable message is reported as what it is");
			check(debugged(&e).starts_with(name.2), "the debug output names the error");
			let t = shown(&e);
			tells(&t, &[service as i64]);
			check(t.contains(if stream { "stream" } else { "request" }), "an error names the type of message it is about");
			check(!known || t.contains("BAD"), "an error says why the body is invalid");
			check(!e.is_connection_aborted(), "the connection is not reported as gone");
			check(e.request_handle().is_some() != stream && e.request_handle_mut().is_some() != stream, "an unusable request can be answered");
			if let Some(r) = e.request_handle_mut() {
				check(r.request_id() == id && r.service_id() == service, "the handle of an unusable request");
				let u = any(REQUESTER_UPDATE, id);
				w.receive(&u);
				is(now(r.recv_update()), &u, "an unusable request can be continued");
				check(w.wait(r.send_error_response("x")).is_ok(), "an unusable request can be answered");
				check(w.sent_one().eq(&msg(RESPONSE, id, u32::MAX, b"x")), "the error response is sent");
			}
			cover(name.2);
		},
		4 => {
			// Updates.
			let mut q = match w.wait(c.work(&crate::typed::B(1))) {
				Ok(q) => q,
				Err(_) => {
					check(false, "a request is sent");
					done()
				},
			};
			let known = flag("known");
			let service = if known { [10, 21][choose(2, "service")] } else { [-7, 99][choose(2, "service")] };
			w.receive(&msg(RESPONDER_UPDATE, q.request_id(), service as u32, &[1]));
			let e = match now(q.recv_update()) {
				Some(Some(Err(e))) => e,
				_ => {
					check(false, "an unusable update is reported");
					done()
				},
			};
			let name = match &e {
				ParseUpdateError::UnknownUpdate(_) => (false, "UnknownUpdate"),
				ParseUpdateError::InvalidUpdate(..) => (true, "InvalidUpdate"),
			};
			check(name.0 == known, "an unusable update is reported as what it is");
			check(debugged(&e).starts_with(name.1), "the debug output names the error");
			let t = shown(&e);
			tells(&t, &[service as i64]);
			check(t.contains("update"), "an error names the type of message it is about");
			check(!known || t.contains("BAD"), "an error says why the body is invalid");
			cover(name.1);
		},
		_ => {
			// The response.
			let mut j = Job::new(c.ping(&crate::typed::A(1)));
			settle(&mut [&mut j, &mut w.peer]);
			let m = w.sent_one();
			let t = ascii(choose(3, "len"));
			let remote = flag("remote");
			let (service, body) = if remote { (-1, t.clone().into_bytes()) } else { (1, vec![1]) };
			feed(&w.sim, &msg(RESPONSE, m.id, service as u32, &body));
			settle(&mut [&mut w.peer, &mut j]);
			match j.out.take() {
				Some(Err(e)) => {
					class(&e, if remote { Class::Remote } else { Class::Other });
					check(shown(&e) == if remote { t } else { shown(&Bad) }, "an error has the text it was made of");
				},
				_ => check(false, "an unusable response is reported"),
			}
			cover("response");
		},
	}
	cover("done");
}

/// An ID with a label is the one it is labelled as.
fn labelled(s: &str, id: i64, service: i64) {
	for (label, value) in [("request_id", id), ("service_id", service)] {
		for (i, _) in s.match_indices(label) {
			check(numbers(&s[i + label.len()..]).first() == Some(&value), "an ID is labelled as what it is");
		}
	}
}

/// Formatting for debugging, of everything that can be held.
pub fn debug() {
	let (mut w, mut h) = world();
	let (id, service) = (WORDS[choose(4, "id")], IDS[choose(6, "service")]);
	let about = |s: String, name: &str, id: u32, service: i32| {
		check(s.contains(name), "the debug output names the type");
		labelled(&s, id as i64, service as i64);
		let n = numbers(&s);
		check(n.contains(&(id as i64)) && n.contains(&(service as i64)), "the debug output has the IDs");
	};
	w.receive(&msg(REQUEST, id, service as u32, &[]));
	let r = match now(h.recv_message()) {
		Some(Ok(m)) => {
			about(debugged(&m), "Request", id, service);
			match m {
				ReceivedMessage::Request(r, _) => r,
				_ => done(),
			}
		},
		_ => {
			check(false, "a request is received");
			done()
		},
	};
	about(debugged(&r), "ReceivedRequestHandle", id, service);
	about(debugged(&r.write_handle()), "ReceivedRequestWriteHandle", id, service);
	w.receive(&msg(STREAM, id, service as u32, &[]));
	match now(h.recv_message()) {
		Some(Ok(m)) => {
			about(debugged(&m), "Stream", id, service);
			if let ReceivedMessage::Stream(m) = m {
				about(debugged(&m), "Message", id, service);
				about(debugged(&m.header), "Stream", id, service);
				debugged(&m.body);
			}
		},
		_ => check(false, "a stream message is received"),
	}
	let s = open(&mut w, &h, service, vec![]);
	about(debugged(&s), "SentRequestHandle", s.request_id(), service);
	about(debugged(&s.write_handle()), "SentRequestWriteHandle", s.request_id(), service);
	check(debugged(&h).contains("PeerHandle"), "the debug output names the type");
	let (a, b) = h.split();
	check(debugged(&a).contains("PeerReadHandle") && debugged(&b).contains("PeerWriteHandle"), "the debug output names the type");
	cover("end");
}

/// The same of generated clients and servers.
pub fn debug_typed() {
	use crate::typed::{api, Tagged, A, B};
	let (mut w, h) = world();
	let (read, write) = h.split();
	let mut server = api::Server::<Tagged>::from(read);
	let client = api::Client::<Tagged>::from(write);
	check(debugged(&server).contains("Server") && debugged(&client).contains("Client"), "the debug output names the type");
	let about = |s: String, name: &str, ids: &[i64]| {
		check(s.contains(name), "the debug output names the type");
		if let [id, service] = ids {
			labelled(&s, *id, *service);
		}
		// Type names may contain digits too.
		let n = numbers(&s);
		check(ids.iter().all(|i| n.contains(i)), "the debug output has the IDs");
	};
	let id = WORDS[choose(4, "id")];
	let i = id as i64;
	macro_rules! request {
		($r:expr, $service:expr) => {{
			let r = $r;
			about(debugged(&r), "ReceivedRequestHandle", &[i, $service]);
			about(debugged(&r.write_handle()), "ReceivedRequestWriteHandle", &[i, $service]);
		}};
	}
	macro_rules! sent {
		($r:expr, $service:expr) => {
			match w.wait($r) {
				Ok(r) => {
					let i = r.request_id() as i64;
					about(debugged(&r), "SentRequestHandle", &[i, $service]);
					about(debugged(&r.write_handle()), "SentRequestWriteHandle", &[i, $service]);
				},
				_ => check(false, "a request is sent"),
			}
		};
	}
	match choose(3, "kind") {
		0 => {
			let (service, tag) = [(2, 0xb), (2147483647, 0), (4, 0)][choose(3, "service")];
			w.receive(&msg(REQUEST, id, service as u32, if tag == 0 { &[] } else { &[0xb, 1] }));
			match now(server.recv_message()) {
				Some(Ok(m)) => {
					let name = match service {
						2 => "Work",
						4 => "Watch",
						_ => "Nop",
					};
					about(debugged(&m), name, &[i, service]);
					match m {
						api::ReceivedMessage::Request(x) => {
							about(debugged(&x), name, &[i, service]);
							use api::ReceivedRequestHandle as R;
							match x {
								R::Work(r, _) => request!(r, 2),
								R::Nop(r, _) => request!(r, 2147483647),
								R::Watch(r, _) => request!(r, 4),
								_ => check(false, "the request is the one that arrived"),
							}
						},
						_ => check(false, "a request is received"),
					}
				},
				_ => check(false, "a request is received"),
			}
			cover("received");
		},
		1 => {
			w.receive(&msg(STREAM, id, 1, &[0xa, 77]));
			match now(server.recv_message()) {
				Some(Ok(m)) => about(debugged(&m), "Event", &[77]),
				_ => check(false, "a stream message is received"),
			}
			cover("stream");
		},
		_ => {
			match choose(3, "service") {
				0 => sent!(client.work(&B(1)), 2),
				1 => sent!(client.nop(), 2147483647),
				_ => sent!(client.watch(), 4),
			}
			cover("sent");
		},
	}
	let _ = A(0);
	cover("end");
}
