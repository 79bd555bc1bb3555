//! Generated interfaces, and errors as message bodies.
use crate::peer::*;
use crate::rt::*;
use crate::sim::*;
use crate::world::*;
use fizyr_rpc::format::{DecodeBody, EncodeBody, Format, FromMessage, ToMessage};
use fizyr_rpc::{Body as _, Error, Message, MessageHeader, ParseUpdateError, RecvMessageError, StreamBody, UnixBody};

type Failure = Box<dyn std::error::Error + Send>;

#[derive(Debug, PartialEq, Clone, Copy)]
pub struct A(pub u8);
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct B(pub u8);

/// A format in which every value has one encoding, some values have none, and most bodies are invalid.
pub struct Tagged;

impl Format for Tagged {
	type Body = StreamBody;
}

#[derive(Debug)]
pub struct Bad;
impl std::error::Error for Bad {}
impl std::fmt::Display for Bad {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str("BAD")
	}
}

fn encode(tag: u8, v: u8) -> Result<StreamBody, Failure> {
	if v == 0xff {
		Err(Box::new(Bad))
	} else {
		Ok(vec![tag, v].into())
	}
}

fn decode(tag: u8, b: &[u8]) -> Option<u8> {
	if (b.len() == 2) && (b[0] == tag) && (b[1] != 0xff) {
		Some(b[1])
	} else {
		None
	}
}

impl EncodeBody<A> for Tagged {
	fn encode_body(x: &A) -> Result<StreamBody, Failure> {
		encode(0xa, x.0)
	}
}
impl EncodeBody<B> for Tagged {
	fn encode_body(x: &B) -> Result<StreamBody, Failure> {
		encode(0xb, x.0)
	}
}
impl EncodeBody<()> for Tagged {
	fn encode_body(_: &()) -> Result<StreamBody, Failure> {
		Ok(vec![].into())
	}
}
impl DecodeBody<A> for Tagged {
	fn decode_body(b: StreamBody) -> Result<A, Failure> {
		decode(0xa, &b.data).map(A).ok_or(Box::new(Bad))
	}
}
impl DecodeBody<B> for Tagged {
	fn decode_body(b: StreamBody) -> Result<B, Failure> {
		decode(0xb, &b.data).map(B).ok_or(Box::new(Bad))
	}
}
impl DecodeBody<()> for Tagged {
	fn decode_body(b: StreamBody) -> Result<(), Failure> {
		if b.data.is_empty() {
			Ok(())
		} else {
			Err(Box::new(Bad))
		}
	}
}

pub mod api {
	use super::{A, B};
	fizyr_rpc::interface! {
		pub interface Test {
			service 1 ping: A -> B,
			service 2 work: B -> A {
				request_update 10 pause: A,
				request_update 11 go_on: B,
				request_update 12 stop: (),
				response_update 10 progress: B,
				response_update 21 part: A,
				response_update 22 tick: (),
			},
			service 2147483647 nop: () -> () {
				request_update 1 poke: A,
			},
			service 4 watch: () -> B {
				response_update -5 seen: A,
			},
			stream 1 event: A,
			stream 2 alert: B,
			stream 7 beat: (),
		}
	}
}

fn text(b: &[u8]) -> bool {
	// Valid UTF-8, by the table of the Unicode standard.
	let c = |k: usize, lo: u8, hi: u8| k < b.len() && b[k] >= lo && b[k] <= hi;
	let mut i = 0;
	while i < b.len() {
		let x = b[i];
		let n = if x < 0x80 {
			1
		} else if (0xc2..=0xdf).contains(&x) && c(i + 1, 0x80, 0xbf) {
			2
		} else if x == 0xe0 && c(i + 1, 0xa0, 0xbf) && c(i + 2, 0x80, 0xbf) {
			3
		} else if (x >= 0xe1 && x <= 0xef && x != 0xed) && c(i + 1, 0x80, 0xbf) && c(i + 2, 0x80, 0xbf) {
			3
		} else if x == 0xed && c(i + 1, 0x80, 0x9f) && c(i + 2, 0x80, 0xbf) {
			3
		} else if x == 0xf0 && c(i + 1, 0x90, 0xbf) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) {
			4
		} else if (0xf1..=0xf3).contains(&x) && c(i + 1, 0x80, 0xbf) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) {
			4
		} else if x == 0xf4 && c(i + 1, 0x80, 0x8f) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) {
			4
		} else {
			return false;
		};
		i += n;
	}
	true
}

// ---------------------------------------------------------------- error bodies

/// Any bytes as the body of an error.
pub fn error_body() {
	let n = choose(5, "len");
	let b = bytes(n, "byte");
	let ok = text(&b);
	let s = StreamBody::from(b.clone());
	let u = UnixBody::from(b.clone());
	match s.as_error() {
		Ok(t) => check(ok && same(t.as_bytes(), &b), "text is returned unchanged"),
		Err(_) => check(!ok, "text is not refused"),
	}
	match u.as_error() {
		Ok(t) => check(ok && same(t.as_bytes(), &b), "text is returned unchanged"),
		Err(_) => check(!ok, "text is not refused"),
	}
	match s.into_error() {
		Ok(t) => check(ok && same(t.as_bytes(), &b), "text is returned unchanged"),
		Err(e) => check(!ok && same(e.as_bytes(), &b), "text is not refused"),
	}
	match u.into_error() {
		Ok(t) => check(ok && same(t.as_bytes(), &b), "text is returned unchanged"),
		Err(e) => check(!ok && same(e.as_bytes(), &b), "text is not refused"),
	}
	if ok {
		let t = String::from_utf8(b.clone()).unwrap();
		check(same(&StreamBody::from_error(&t).data, &b), "an error body is its text");
		let u = UnixBody::from_error(&t);
		check(same(&u.data, &b) && u.fds.is_empty(), "an error body is its text");
		let e = Error::remote_error(t.clone());
		check(e.is_remote_error() && !e.is_connection_aborted() && !e.is_unexpected_message_type(), "an error of the remote side is one");
		check(e.as_remote_error().is_some_and(|x| same(x.as_bytes(), &b)), "the text of the remote error");
		check(e.into_remote_error().is_some_and(|x| same(x.as_bytes(), &b)), "the text of the remote error");
		cover("text");
	} else {
		cover("other");
	}
	check(StreamBody::empty().data.is_empty() && UnixBody::empty().data.is_empty() && UnixBody::empty().fds.is_empty(), "an empty body is empty");
	cover("end");
}

/// An error response, from the responder's call to the requester's.
pub fn error_response() {
	let n = choose(4, "len");
	let b = bytes(n, "byte");
	assume(text(&b));
	let t = String::from_utf8(b.clone()).unwrap();
	let (mut w, mut h) = world();
	let id = u32v("id");
	let r = incoming(&mut w, &mut h, &request(id));
	let sent = match choose(3, "through") {
		0 => w.wait(r.send_error_response(&t)),
		1 => w.wait(r.write_handle().send_error_response(&t)),
		_ => w.wait(r.write_handle().clone().send_error_response(&t)),
	};
	check(sent.is_ok(), "an error response is sent");
	let m = w.sent_one();
	check(m.eq(&msg(RESPONSE, id, u32::MAX, &b)), "an error response has service ID -1 and the text");
	let mut s = open(&mut w, &h, 1, vec![]);
	w.sent();
	let a = msg(RESPONSE, s.request_id(), m.service, &m.body);
	w.receive(&a);
	match now(s.recv_response()) {
		Some(Ok(x)) => {
			check(x.header.service_id == fizyr_rpc::service_id::ERROR, "an error response is recognisable");
			check(x.body.as_error().is_ok_and(|x| same(x.as_bytes(), &b)), "the text of an error response arrives unchanged");
		},
		_ => check(false, "an error response is received"),
	}
	cover("end");
}

/// Long texts, valid or not, through bodies and through two peers.
pub fn error_large() {
	let n = [64usize, 127, 128, 255, 256, 257, 1024, 1025, 4096, 8192, 65536][choose(11, "len")];
	let mut b: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
	let mut ok = true;
	// Something of several bytes, complete or not, anywhere.
	let at = [0, n / 2, n - 4][choose(3, "at")];
	match choose(4, "what") {
		0 => (),
		1 => {
			let w = bytes(2, "wide");
			assume(text(&w));
			b[at..at + 2].copy_from_slice(&w);
		},
		2 => b[at..at + 4].copy_from_slice("\u{1f980}".as_bytes()),
		_ => {
			let x = u8v("byte");
			assume(x >= 128);
			b[at] = x;
			ok = false;
		},
	}
	let (s, u) = (StreamBody::from(b.clone()), UnixBody::from(b.clone()));
	check(s.as_error().is_ok() == ok && s.as_error().map_or(true, |t| same(t.as_bytes(), &b)), "text is returned unchanged");
	check(u.as_error().is_ok() == ok && u.as_error().map_or(true, |t| same(t.as_bytes(), &b)), "text is returned unchanged");
	check(s.into_error().is_ok_and(|t| same(t.as_bytes(), &b)) == ok, "text is returned unchanged");
	check(u.into_error().is_ok_and(|t| same(t.as_bytes(), &b)) == ok, "text is returned unchanged");
	if !ok {
		cover("other");
		return;
	}
	let t = String::from_utf8(b.clone()).unwrap();
	check(same(&StreamBody::from_error(&t).data, &b) && same(&UnixBody::from_error(&t).data, &b), "an error body is its text");
	check(Error::remote_error(t.clone()).into_remote_error().is_some_and(|x| same(x.as_bytes(), &b)), "the text of the remote error");
	let (mut w, mut h) = world_with(100_000, 100_000);
	let id = u32v("id");
	let r = incoming(&mut w, &mut h, &request(id));
	check(w.wait(r.send_error_response(&t)).is_ok(), "an error response is sent");
	let m = w.sent_one();
	check(m.eq(&msg(RESPONSE, id, u32::MAX, &b)), "an error response has service ID -1 and the text");
	let (c, _r) = two(h);
	let mut j = Job::new(c.ping(&A(1)));
	settle(&mut [&mut j, &mut w.peer]);
	let q = w.sent_one();
	feed(&w.sim, &msg(RESPONSE, q.id, m.service, &m.body));
	settle(&mut [&mut w.peer, &mut j]);
	match j.out {
		Some(Err(e)) => check(e.as_remote_error().is_some_and(|x| same(x.as_bytes(), &b)), "the text of an error response arrives unchanged"),
		_ => check(false, "an error response is reported as an error of the remote side"),
	}
	cover("end");
}

// ---------------------------------------------------------------- client

fn two(h: Handle) -> (api::Client<Tagged>, fizyr_rpc::PeerReadHandle<StreamBody>) {
	let (r, w) = h.split();
	(api::Client::new(w), r)
}

fn any_body() -> Vec<u8> {
	bytes(choose(4, "len"), "body")
}

fn response_of<T: PartialEq + Copy>(x: Option<Result<T, Error>>, service: i32, body: &[u8], value: Option<T>) {
	match x {
		None => check(false, "the call returns when the response is there"),
		Some(Ok(v)) => {
			check(service != -1, "an error response is not a value");
			check(value.is_some_and(|x| x == v), "the value is the one in the response");
			cover("value");
		},
		Some(Err(e)) => {
			if service == -1 {
				let t = text(body);
				check(e.is_remote_error() == t, "an error response is reported as an error of the remote side");
				if t {
					check(e.as_remote_error().is_some_and(|x| same(x.as_bytes(), body)), "the text of an error response arrives unchanged");
				}
				cover("error response");
			} else {
				check(value.is_none() && !e.is_remote_error(), "only an invalid response is refused");
				cover("invalid");
			}
		},
	}
}

/// A service without updates is one call.
pub fn client_call() {
	let (mut w, h) = world();
	let (c, _r) = two(h);
	let a = A(u8v("request"));
	let mut j = Job::new(c.ping(&a));
	settle(&mut [&mut j, &mut w.peer]);
	if a.0 == 0xff {
		check(matches!(j.out, Some(Err(_))), "a value that can not be encoded is refused");
		w.nothing_sent();
		cover("refused");
		return;
	}
	let m = w.sent_one();
	check(m.kind == REQUEST && m.service == 1 && same(&m.body, &[0xa, a.0]), "the request is sent");
	check(!j.done(), "the call waits for the response");
	let (service, body) = (i32v("service"), any_body());
	feed(&w.sim, &msg(RESPONSE, m.id, service as u32, &body));
	settle(&mut [&mut w.peer, &mut j]);
	response_of(j.out, service, &body, decode(0xb, &body).map(B));
}

/// A service with updates in both directions.
pub fn client_updates() {
	let (mut w, h) = world();
	let (c, _r) = two(h);
	let b = B(u8v("request"));
	let mut q = match w.wait(c.work(&b)) {
		Ok(q) => q,
		Err(_) => {
			check(b.0 == 0xff, "a value that can be encoded is sent");
			w.nothing_sent();
			return;
		},
	};
	let m = w.sent_one();
	check(m.kind == REQUEST && m.service == 2 && same(&m.body, &[0xb, b.0]), "the request is sent");
	check(q.request_id() == m.id && q.service_id() == 2, "the handle knows the request");
	// An update to the server.
	let v = u8v("update");
	let wh = q.write_handle();
	let through = flag("write handle");
	let (sent, service, body) = match choose(3, "update") {
		0 => (w.wait(async { if through { wh.send_pause_update(&A(v)).await } else { q.send_pause_update(&A(v)).await } }), 10, vec![0xa, v]),
		1 => (w.wait(async { if through { wh.send_go_on_update(&B(v)).await } else { q.send_go_on_update(&B(v)).await } }), 11, vec![0xb, v]),
		_ => (w.wait(async { if through { wh.send_stop_update().await } else { q.send_stop_update().await } }), 12, vec![]),
	};
	if service != 12 && v == 0xff {
		check(sent.is_err(), "a value that can not be encoded is refused");
		w.nothing_sent();
	} else {
		check(sent.is_ok(), "an update is sent");
		check(w.sent_one().eq(&msg(REQUESTER_UPDATE, m.id, service, &body)), "the update is sent as such");
	}
	// An update from the server.
	let (service, body) = (i32v("service"), any_body());
	w.receive(&msg(RESPONDER_UPDATE, m.id, service as u32, &body));
	match now(q.recv_update()) {
		Some(Some(x)) => update_of(x.map(|u| match u {
			api::work::ResponseUpdate::Progress(B(x)) => (10, x),
			api::work::ResponseUpdate::Part(A(x)) => (21, x),
			api::work::ResponseUpdate::Tick(()) => (22, 0),
		}), m.id, service, &body, RESPONDER_UPDATE, &[(10, 0xb), (21, 0xa), (22, 0)]),
		_ => check(false, "an update is received"),
	}
	let (service, body) = (i32v("service"), bytes(2, "body"));
	w.receive(&msg(RESPONSE, m.id, service as u32, &body));
	check(now(q.recv_update()).is_some_and(|x| x.is_none()), "no update when the response is next");
	response_of(now(q.recv_response()), service, &body, decode(0xa, &body).map(A));
	cover("end");
}

/// `known`: the service IDs with the tags of their bodies, 0 for an empty one.
fn update_of(x: Result<(i32, u8), ParseUpdateError<StreamBody>>, id: u32, service: i32, body: &[u8], kind: u32, known: &[(i32, u8)]) {
	let def = known.iter().find(|d| d.0 == service);
	let value = def.and_then(|d| if d.1 == 0 { if body.is_empty() { Some(0) } else { None } } else { decode(d.1, body) });
	match x {
		Ok((s, v)) => {
			check(s == service && value == Some(v), "an update is decoded as the one it is");
			cover("update");
		},
		Err(ParseUpdateError::UnknownUpdate(m)) => {
			check(def.is_none() && msg(kind, id, service as u32, body).is(&m), "an unknown update is returned unchanged");
			cover("unknown update");
		},
		Err(ParseUpdateError::InvalidUpdate(h, _)) => {
			check(def.is_some() && value.is_none(), "only an invalid update is refused");
			check(h.service_id == service && h.request_id == id && h.message_type as u32 == kind, "the header of an invalid update");
			cover("invalid update");
		},
	}
}

/// Everything else a client sends.
pub fn client_sends() {
	let (mut w, h) = world();
	let (c, _r) = two(h);
	let c = if flag("clone") { c.clone() } else { c };
	let v = u8v("value");
	let (sent, expected) = match choose(5, "what") {
		0 => (w.wait(c.send_event(&A(v))), msg(STREAM, 0, 1, &[0xa, v])),
		1 => (w.wait(c.send_alert(&B(v))), msg(STREAM, 0, 2, &[0xb, v])),
		2 => (w.wait(c.send_beat()), msg(STREAM, 0, 7, &[])),
		3 => {
			let q = w.wait(c.nop());
			let mut q = match q {
				Ok(q) => q,
				Err(_) => {
					check(false, "a request is sent");
					return;
				},
			};
			let m = w.sent_one();
			check(m.eq(&msg(REQUEST, q.request_id(), 2147483647, &[])), "the request is sent");
			let body = any_body();
			w.receive(&msg(RESPONSE, m.id, 2147483647, &body));
			response_of(now(q.recv_response()), 2147483647, &body, if body.is_empty() { Some(()) } else { None });
			return;
		},
		_ => {
			let mut q = match w.wait(c.watch()) {
				Ok(q) => q,
				Err(_) => {
					check(false, "a request is sent");
					return;
				},
			};
			let m = w.sent_one();
			check(m.eq(&msg(REQUEST, q.request_id(), 4, &[])), "the request is sent");
			let (service, body) = (i32v("service"), any_body());
			w.receive(&msg(RESPONDER_UPDATE, m.id, service as u32, &body));
			match now(q.recv_update()) {
				Some(Some(x)) => update_of(x.map(|api::watch::ResponseUpdate::Seen(A(x))| (-5, x)), m.id, service, &body, RESPONDER_UPDATE, &[(-5, 0xa)]),
				_ => check(false, "an update is received"),
			}
			return;
		},
	};
	if v == 0xff && expected.service != 7 {
		check(sent.is_err(), "a value that can not be encoded is refused");
		w.nothing_sent();
	} else {
		check(sent.is_ok(), "a stream message is sent");
		let m = w.sent_one();
		check(m.kind == STREAM && m.service == expected.service && same(&m.body, &expected.body), "the stream message is sent as such");
	}
	cover("stream");
}

// ---------------------------------------------------------------- server

/// Any request or stream message arrives at a server.
pub fn server() {
	let (mut w, h) = world();
	let (r, _wh) = h.split();
	let mut s = api::Server::<Tagged>::from(r);
	let stream = flag("stream");
	let (id, service, body) = (u32v("id"), i32v("service"), any_body());
	let kind = if stream { STREAM } else { REQUEST };
	let m = msg(kind, id, service as u32, &body);
	let mut j = Job::new(s.recv_message());
	feed(&w.sim, &m);
	settle(&mut [&mut j, &mut w.peer]);
	let known: &[(i32, u8)] = if stream { &[(1, 0xa), (2, 0xb), (7, 0)] } else { &[(1, 0xa), (2, 0xb), (2147483647, 0), (4, 0)] };
	let def = known.iter().find(|d| d.0 == service);
	let value = def.and_then(|d| if d.1 == 0 { if body.is_empty() { Some(0) } else { None } } else { decode(d.1, &body) });
	let is = |s: i32, v: u8, st: bool| check(st == stream && s == service && value == Some(v), "a message is decoded as the one it is");
	use api::ReceivedRequestHandle as R;
	match j.out.take() {
		None => check(false, "a message is received"),
		Some(Ok(api::ReceivedMessage::Stream(x))) => {
			match x {
				api::StreamMessage::Event(A(x)) => is(1, x, true),
				api::StreamMessage::Alert(B(x)) => is(2, x, true),
				api::StreamMessage::Beat(()) => is(7, 0, true),
			}
			cover("stream");
		},
		Some(Ok(api::ReceivedMessage::Request(x))) => {
			let v = u8v("response");
			let through = flag("write handle");
			let (sent, service, fail, body) = match x {
				R::Ping(r, A(x)) => {
					is(1, x, false);
					check(r.request_id() == id && r.service_id() == 1, "the handle knows the request");
					(w.wait(async { if through { r.write_handle().send_response(&B(v)).await } else { r.send_response(&B(v)).await } }), 1, v == 0xff, vec![0xb, v])
				},
				R::Work(r, B(x)) => {
					is(2, x, false);
					check(r.request_id() == id && r.service_id() == 2, "the handle knows the request");
					(w.wait(async { if through { r.write_handle().send_response(&A(v)).await } else { r.send_response(&A(v)).await } }), 2, v == 0xff, vec![0xa, v])
				},
				R::Nop(r, ()) => {
					is(2147483647, 0, false);
					(w.wait(async { if through { r.write_handle().send_response(&()).await } else { r.send_response(&()).await } }), 2147483647, false, vec![])
				},
				R::Watch(r, ()) => {
					is(4, 0, false);
					(w.wait(r.send_error_response("no")), u32::MAX, false, b"no".to_vec())
				},
			};
			if fail {
				check(sent.is_err(), "a value that can not be encoded is refused");
				w.nothing_sent();
			} else {
				check(sent.is_ok(), "a response is sent");
				check(w.sent_one().eq(&msg(RESPONSE, id, service, &body)), "the response is sent as such");
			}
			cover("request");
		},
		Some(Err(mut e)) => {
			check(!e.is_connection_aborted(), "the connection is not reported as gone");
			check(e.request_handle().is_some() != stream && e.request_handle_mut().is_some() != stream, "an unusable request can be answered");
			match &e {
				RecvMessageError::UnknownStream(x) => check(stream && def.is_none() && m.is(x), "an unknown stream message is returned unchanged"),
				RecvMessageError::UnknownRequest(r, b) => {
					check(!stream && def.is_none() && r.service_id() == service && same(&b.data, &body), "an unknown request is returned unchanged");
					cover("unknown");
				},
				RecvMessageError::InvalidStream(x, _) => {
					check(stream && def.is_some() && value.is_none() && *x == MessageHeader::stream(id, service), "only an invalid stream message is refused");
				},
				RecvMessageError::InvalidRequest(r, _) => {
					check(!stream && def.is_some() && value.is_none() && r.service_id() == service, "only an invalid request is refused");
					cover("invalid");
				},
				RecvMessageError::Other(_) => check(false, "a valid message is not an error of the connection"),
			}
			if let Some(r) = e.request_handle() {
				check(r.request_id() == id, "the handle of an unusable request");
				check(w.wait(r.send_error_response("x")).is_ok(), "an unusable request can be answered");
				check(w.sent_one().eq(&msg(RESPONSE, id, u32::MAX, b"x")), "the error response is sent");
			}
		},
	}
	drop(j);
	check(now(s.recv_message()).is_none(), "a message is received once");
	check(!w.peer.done(), "the connection stays");
	cover("end");
}

/// Updates of a received request.
pub fn server_updates() {
	let (mut w, h) = world();
	let (r, _wh) = h.split();
	let mut s = api::Server::<Tagged>::from(r);
	let id = u32v("id");
	w.receive(&msg(REQUEST, id, 2, &[0xb, 3]));
	let mut q = match now(s.recv_message()) {
		Some(Ok(api::ReceivedMessage::Request(api::ReceivedRequestHandle::Work(q, B(3))))) => q,
		_ => {
			check(false, "a request is received");
			return;
		},
	};
	let v = u8v("update");
	let wh = q.write_handle();
	let through = flag("write handle");
	let (sent, service, body) = match choose(3, "update") {
		0 => (w.wait(async { if through { wh.send_progress_update(&B(v)).await } else { q.send_progress_update(&B(v)).await } }), 10, vec![0xb, v]),
		1 => (w.wait(async { if through { wh.send_part_update(&A(v)).await } else { q.send_part_update(&A(v)).await } }), 21, vec![0xa, v]),
		_ => (w.wait(async { if through { wh.send_tick_update().await } else { q.send_tick_update().await } }), 22, vec![]),
	};
	if service != 22 && v == 0xff {
		check(sent.is_err(), "a value that can not be encoded is refused");
		w.nothing_sent();
	} else {
		check(sent.is_ok(), "an update is sent");
		check(w.sent_one().eq(&msg(RESPONDER_UPDATE, id, service, &body)), "the update is sent as such");
	}
	let (service, body) = (i32v("service"), any_body());
	w.receive(&msg(REQUESTER_UPDATE, id, service as u32, &body));
	match now(q.recv_update()) {
		Some(Some(x)) => update_of(x.map(|u| match u {
			api::work::RequestUpdate::Pause(A(x)) => (10, x),
			api::work::RequestUpdate::GoOn(B(x)) => (11, x),
			api::work::RequestUpdate::Stop(()) => (12, 0),
		}), id, service, &body, REQUESTER_UPDATE, &[(10, 0xa), (11, 0xb), (12, 0)]),
		_ => check(false, "an update is received"),
	}
	check(now(q.recv_update()).is_none(), "an update is received once");
	cover("end");
}

/// Many updates both ways through generated handles, then the response.
pub fn many_updates() {
	let n = 300;
	let (mut w, h) = world();
	let (c, r) = two(h);
	let mut s = api::Server::<Tagged>::from(r);
	let id = u32v("id");
	let v = u8v("value");
	assume(v != 0xff);
	let mut q = match w.wait(c.work(&B(v))) {
		Ok(q) => q,
		Err(_) => {
			check(false, "a request is sent");
			done()
		},
	};
	let sid = q.request_id();
	w.receive(&msg(REQUEST, id, 2, &[0xb, v]));
	let mut p = match now(s.recv_message()) {
		Some(Ok(api::ReceivedMessage::Request(api::ReceivedRequestHandle::Work(p, B(x))))) => {
			check(x == v, "a message is decoded as the one it is");
			p
		},
		_ => {
			check(false, "a request is received");
			done()
		},
	};
	w.sent();
	for k in 0..n {
		let x = v ^ (k as u8 & 0x3f);
		let x = if x == 0xff { 0 } else { x };
		check(w.wait(q.send_pause_update(&A(x))).is_ok() && w.wait(p.send_part_update(&A(x))).is_ok(), "an update is sent");
		let m = w.sent();
		check(m.len() == 2 && m[0].eq(&msg(REQUESTER_UPDATE, sid, 10, &[0xa, x])) && m[1].eq(&msg(RESPONDER_UPDATE, id, 21, &[0xa, x])), "the updates are sent as such");
		w.receive(&msg(REQUESTER_UPDATE, id, 11, &[0xb, x]));
		w.receive(&msg(RESPONDER_UPDATE, sid, 10, &[0xb, x]));
		w.receive(&msg(STREAM, 0, 1, &[0xa, x]));
	}
	w.receive(&msg(RESPONSE, sid, 2, &[0xa, v]));
	for k in 0..n {
		let x = v ^ (k as u8 & 0x3f);
		let x = if x == 0xff { 0 } else { x };
		match now(p.recv_update()) {
			Some(Some(Ok(api::work::RequestUpdate::GoOn(B(y))))) => check(x == y, "updates are received in order"),
			_ => check(false, "an update is received"),
		}
		match now(q.recv_update()) {
			Some(Some(Ok(api::work::ResponseUpdate::Progress(B(y))))) => check(x == y, "updates are received in order"),
			_ => check(false, "an update is received"),
		}
		match now(s.recv_message()) {
			Some(Ok(api::ReceivedMessage::Stream(api::StreamMessage::Event(A(y))))) => check(x == y, "stream messages are received in order"),
			_ => check(false, "a stream message is received"),
		}
	}
	check(now(q.recv_update()).is_some_and(|x| x.is_none()), "no update when the response is next");
	check(matches!(now(q.recv_response()), Some(Ok(A(x))) if x == v), "the response is received");
	check(w.wait(p.send_response(&A(v))).is_ok(), "the response is sent");
	check(w.sent_one().eq(&msg(RESPONSE, id, 2, &[0xa, v])), "the response is sent");
	cover("end");
}

/// The error says which service ID was found instead.
fn is_unexpected(e: &Error, service: i32) -> bool {
	let s = concrete(service as u64) as i32;
	e.to_string() == Error::unexpected_service_id(s).to_string()
}

/// The enums of messages convert from and to messages consistently.
pub fn message_enums() {
	let (service, body) = (i32v("service"), any_body());
	let known: &[(i32, u8)] = &[(1, 0xa), (2, 0xb), (7, 0)];
	let def = known.iter().find(|d| d.0 == service);
	let value = def.and_then(|d| if d.1 == 0 { if body.is_empty() { Some(0) } else { None } } else { decode(d.1, &body) });
	let m = Message::new(MessageHeader::stream(u32v("id"), service), StreamBody::from(body.clone()));
	let r: Result<api::StreamMessage, Error> = if flag("format") { Tagged::decode_message(m) } else { FromMessage::<Tagged>::from_message(m) };
	match r {
		Ok(x) => {
			check(value.is_some(), "an unusable message is refused");
			let is = (x.is_event(), x.is_alert(), x.is_beat());
			check(is == (service == 1, service == 2, service == 7), "a message is what its service ID says");
			check(x.as_event().map(|x| x.0) == if service == 1 { value } else { None }, "the value of the message");
			check(x.as_alert().map(|x| x.0) == if service == 2 { value } else { None }, "the value of the message");
			check(x.as_beat().is_some() == (service == 7), "the value of the message");
			let e = if flag("format") { Tagged::encode_message(&x) } else { ToMessage::<Tagged>::to_message(&x) };
			match e {
				Ok((s, b)) => check(s == service && same(&b.data, &body), "a decoded message is encoded as it was"),
				Err(_) => check(false, "a decoded message can be encoded"),
			}
			match choose(3, "into") {
				0 => match x.into_event() {
					Ok(x) => check(service == 1 && value == Some(x.0), "the value of the message"),
					Err(e) => check(service != 1 && is_unexpected(&e, service), "the value of the message is returned"),
				},
				1 => match x.into_alert() {
					Ok(x) => check(service == 2 && value == Some(x.0), "the value of the message"),
					Err(e) => check(service != 2 && is_unexpected(&e, service), "the value of the message is returned"),
				},
				_ => match x.into_beat() {
					Ok(()) => check(service == 7, "the value of the message"),
					Err(e) => check(service != 7 && is_unexpected(&e, service), "the value of the message is returned"),
				},
			}
			cover("known");
		},
		Err(_) => {
			check(value.is_none(), "a valid message is not refused");
			cover("refused");
		},
	}
	let v = u8v("value");
	let (x, s, tag) = if flag("alert") { (api::StreamMessage::Alert(B(v)), 2, 0xb) } else { (api::StreamMessage::Event(A(v)), 1, 0xa) };
	match Tagged::encode_message(&x) {
		Ok((id, b)) => check(v != 0xff && id == s && same(&b.data, &[tag, v]), "a message is encoded with its service ID"),
		Err(_) => check(v == 0xff, "a value that can be encoded is"),
	}
	cover("end");
}

// ---------------------------------------------------------------- handles

/// Generated clients and servers are handles: the peer lives as long as one exists, unless it is closed.
fn lifetime(steps: usize) {
	let (mut w, h) = world();
	let mut clients = vec![];
	let mut server: Option<api::Server<Tagged>> = None;
	let mut raw = (None, None);
	match choose(5, "made from") {
		0 => clients.push(api::Client::<Tagged>::from(h)),
		1 => server = Some(api::Server::from(h)),
		2 => {
			let (r, wh) = h.split();
			server = Some(r.into());
			clients.push(wh.into());
		},
		3 => {
			let (r, wh) = h.split();
			raw.0 = Some(r);
			clients.push(api::Client::new(wh));
		},
		_ => {
			let (r, wh) = h.split();
			raw.1 = Some(wh);
			server = Some(r.into());
		},
	}
	let handle = match (clients.last(), &server) {
		(Some(c), _) if flag("close handle of the client") => Some(c.close_handle()),
		(_, Some(s)) => Some(s.close_handle()),
		_ => None,
	};
	let mut closed = false;
	for _ in 0..steps {
		match choose(7, "what") {
			0 if !clients.is_empty() => {
				let k = choose(clients.len(), "which");
				let c = clients[k].clone();
				clients.push(c);
				cover("clone");
			},
			1 if !clients.is_empty() => {
				let k = choose(clients.len(), "which");
				drop(clients.remove(k));
				cover("drop");
			},
			2 => drop(server.take()),
			3 if !clients.is_empty() => {
				clients.pop().unwrap().close();
				closed = true;
				cover("client");
			},
			4 => {
				if let Some(s) = server.take() {
					s.close();
					closed = true;
					cover("server");
				}
			},
			5 => {
				if let Some(x) = &handle {
					x.close();
					closed = true;
					cover("close handle");
				}
			},
			_ => raw = (None, None),
		}
		if flag("run") {
			w.go();
		}
	}
	let alive = !closed && (!clients.is_empty() || server.is_some() || raw.0.is_some() || raw.1.is_some());
	w.go();
	check(w.peer.done() != alive, "the peer runs exactly while there is a handle and nothing closed it");
	check(w.sim.io().closed != alive, "the socket is open exactly as long");
	if let Some(c) = clients.last() {
		check(w.try_wait(c.send_event(&A(1))).is_some_and(|x| x.is_ok() == alive), "sending works exactly while the connection exists");
	}
	if let Some(s) = &mut server {
		match now(s.recv_message()) {
			None => check(alive, "the end of the connection is reported"),
			Some(x) => check(!alive && x.is_err_and(|e| e.is_connection_aborted()), "the end of the connection is reported"),
		}
	}
	if alive {
		cover("alive");
	} else {
		cover("gone");
	}
	cover("end");
}

pub fn lifetime_three() {
	lifetime(3)
}
pub fn lifetime_four() {
	lifetime(4)
}

// ---------------------------------------------------------------- introspection

#[allow(dead_code)]
mod described {
	use super::{A, B};
	fizyr_rpc::interface! {
		/// All about it.
		///
		///  - indented
		pub interface Everything {
			/// First.
			service 3 first: A -> B,
			#[hidden]
			service -7 second: () -> A {
				/// Up.
				request_update 5 up: B,
				#[hidden]
				request_update -6 down: (),
				#[hidden]
				/// Left
				///
				/// or right.
				response_update 5 left: A,
				response_update 2147483647 right: B,
			},
			service -2147483648 third: B -> () {
				response_update 0 only: (),
			},
			#[hidden]
			/// Some stream.
			stream 3 here: B,
			///   Other
			///   stream.
			stream 0 there: (),
		}
	}
}

#[allow(dead_code)]
mod secret {
	fizyr_rpc::interface! {
		#[hidden]
		pub interface Nothing {
			stream 1 one: (),
		}
	}
}

static mut INFO: [u8; 3] = [0; 3];

impl fizyr_rpc::introspection::IntrospectableFormat for Tagged {
	type TypeInfo = u8;
}
impl fizyr_rpc::introspection::FormatTypeInfo<A> for Tagged {
	fn type_info() -> u8 {
		unsafe { INFO[0] }
	}
}
impl fizyr_rpc::introspection::FormatTypeInfo<B> for Tagged {
	fn type_info() -> u8 {
		unsafe { INFO[1] }
	}
}
impl fizyr_rpc::introspection::FormatTypeInfo<()> for Tagged {
	fn type_info() -> u8 {
		unsafe { INFO[2] }
	}
}

/// What a compiled interface says about itself, whatever the format says about its types.
pub fn definition() {
	let (a, b, n) = (u8v("type"), u8v("type"), u8v("type"));
	unsafe { INFO = [a, b, n] };
	let d = described::Interface::definition::<Tagged>();
	check(described::Interface::name() == "Everything" && d.name == "Everything", "the name of the interface");
	let doc = "All about it.\n\n - indented\n";
	check(described::Interface::doc() == doc && d.doc == doc && !d.hidden, "the description of the interface");
	let s = secret::Interface::definition::<Tagged>();
	check(s.name == "Nothing" && s.doc.is_empty() && s.hidden && s.services.is_empty() && s.streams.len() == 1, "a hidden interface");
	type Update<'a> = (&'a str, &'a str, bool, i32, u8);
	type Service<'a> = (&'a str, &'a str, bool, i32, u8, u8, &'a [Update<'a>], &'a [Update<'a>]);
	let services: [Service; 3] = [
		("first", "First.\n", false, 3, a, b, &[], &[]),
		("second", "", true, -7, n, a, &[("up", "Up.\n", false, 5, b), ("down", "", true, -6, n)], &[("left", "Left\n\nor right.\n", true, 5, a), ("right", "", false, 2147483647, b)]),
		("third", "", false, -2147483648, b, n, &[], &[("only", "", false, 0, n)]),
	];
	let streams: [Update; 2] = [("here", "Some stream.\n", true, 3, b), ("there", "Other\nstream.\n", false, 0, n)];
	let (x, y) = if flag("whole") { (d.services, d.streams) } else { (described::Interface::services::<Tagged>(), described::Interface::streams::<Tagged>()) };
	check(x.len() == services.len() && y.len() == streams.len(), "every service and stream is described");
	let k = choose(services.len(), "service");
	let (d, e) = (&x[k], &services[k]);
	check(d.name == e.0 && d.doc == e.1 && d.hidden == e.2 && d.service_id == e.3, "the description of a service");
	check(d.request_body == e.4 && d.response_body == e.5, "the types of a service");
	for (d, e) in [(&d.request_updates, e.6), (&d.response_updates, e.7)] {
		check(d.len() == e.len(), "every update is described");
		for (d, e) in d.iter().zip(e) {
			check(d.name == e.0 && d.doc == e.1 && d.hidden == e.2 && d.service_id == e.3 && d.body == e.4, "the description of an update");
		}
	}
	for (d, e) in y.iter().zip(&streams) {
		check(d.name == e.0 && d.doc == e.1 && d.hidden == e.2 && d.service_id == e.3 && d.body == e.4, "the description of a stream");
	}
	cover("end");
}

/// What can not be sent is reported by every generated function.
pub fn failing_sends() {
	let mode = choose(4, "failure");
	let (mut w, h) = crate::world::world_with(64, if mode == 0 { 1 } else { 64 });
	let (read, write) = h.split();
	let close = write.close_handle();
	let mut server = api::Server::<Tagged>::from(read);
	let client = api::Client::<Tagged>::from(write);
	let nop = w.wait(client.nop());
	let id = u32v("id");
	w.receive(&msg(REQUEST, id, 2, &[0xb, 1]));
	let work = match (nop, now(server.recv_message())) {
		(Ok(nop), Some(Ok(api::ReceivedMessage::Request(api::ReceivedRequestHandle::Work(work, _))))) => (nop, work),
		_ => {
			check(false, "the requests are open");
			done()
		},
	};
	let (nop, work) = work;
	let (nop_w, work_w) = (nop.write_handle(), work.write_handle());
	w.sent();
	match mode {
		0 => cover("too large"),
		1 => {
			w.end(End::Eof);
			w.go();
			cover("ended");
		},
		2 => {
			close.close();
			w.go();
			cover("closed");
		},
		_ => {
			let io = w.sim.io();
			io.write_fail_at = io.output.len() + [0, 8, 15][choose(3, "fails at")];
			cover("fails");
		},
	}
	let small = mode != 0;
	let (a, b) = (A(range(0, 254, "value") as u8), B(range(0, 254, "value") as u8));
	let r = match choose(if small { 16 } else { 11 }, "what") {
		0 => w.wait(client.send_event(&a)),
		1 => w.wait(client.send_alert(&b)),
		2 => w.wait(client.ping(&a)).map(drop),
		3 => w.wait(client.work(&b)).map(drop),
		4 => w.wait(nop.send_poke_update(&a)),
		5 => w.wait(nop_w.send_poke_update(&a)),
		6 => w.wait(work.send_progress_update(&b)),
		7 => w.wait(work_w.send_part_update(&a)),
		8 => w.wait(work.send_response(&a)),
		9 => w.wait(work_w.send_response(&a)),
		10 => w.wait(work_w.send_error_response("no")),
		11 => w.wait(client.send_beat()),
		12 => w.wait(client.nop()).map(drop),
		13 => w.wait(client.watch()).map(drop),
		14 => w.wait(work.send_tick_update()),
		_ => w.wait(work_w.send_tick_update()),
	};
	check(r.is_err(), "what can not be sent is reported");
	check(w.peer.done() == small, "a message that is too large does not end the connection");
	if !small {
		w.nothing_sent();
		check(w.wait(client.send_beat()).is_ok(), "the connection stays usable");
		check(w.sent_one().eq(&msg(STREAM, 0, 7, &[])), "the message is sent");
	}
	cover("end");
}
