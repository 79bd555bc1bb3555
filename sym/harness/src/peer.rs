//! Requests, responses, updates and stream messages through a peer.
use crate::rt::*;
use crate::sim::*;
use crate::world::*;
use fizyr_rpc::{Error, Message, ReceivedMessage, ReceivedRequestHandle, SentRequestHandle, StreamBody};

pub type Body = StreamBody;
pub type Sent = SentRequestHandle<Body>;
pub type Received = ReceivedRequestHandle<Body>;

pub fn open(w: &mut World, h: &Handle, service: i32, body: Vec<u8>) -> Sent {
	match w.wait(h.send_request(service, body)) {
		Ok(r) => r,
		Err(_) => {
			check(false, "a request is sent");
			done()
		},
	}
}

pub fn incoming(w: &mut World, h: &mut Handle, m: &Msg) -> Received {
	w.receive(m);
	match now(h.recv_message()) {
		Some(Ok(ReceivedMessage::Request(r, body))) => {
			check(r.request_id() == m.id, "request ID of a received request");
			check(r.service_id() as u32 == m.service, "service ID of a received request");
			check(same(&body.data, &m.body), "body of a received request");
			r
		},
		_ => {
			check(false, "a request is received");
			done()
		},
	}
}

pub fn request(id: u32) -> Msg {
	msg(REQUEST, id, u32v("service"), &[u8v("body")])
}

pub fn any(kind: u32, id: u32) -> Msg {
	msg(kind, id, u32v("service"), &[u8v("body")])
}

/// Nothing has been received through the handle.
pub fn quiet(h: &mut Handle) {
	check(now(h.recv_message()).is_none(), "nothing else is received");
}

pub fn gets_error(h: &mut Handle) {
	match now(h.recv_message()) {
		Some(Err(_)) => (),
		Some(Ok(_)) => check(false, "an invalid message is reported as an error, not delivered"),
		None => check(false, "an invalid message is reported"),
	}
}

pub fn is(r: Option<Option<Message<Body>>>, m: &Msg, label: &str) {
	match r {
		Some(Some(x)) => check(m.is(&x), label),
		_ => check(false, label),
	}
}

pub fn is_ok(r: Option<Result<Message<Body>, Error>>, m: &Msg, label: &str) {
	match r {
		Some(Ok(x)) => check(m.is(&x), label),
		_ => check(false, label),
	}
}

/// One of everything, in both directions.
pub fn smoke() {
	let (mut w, mut h) = world();
	let (sid, b) = (i32v("service"), u8v("body"));
	let mut r = open(&mut w, &h, sid, vec![b]);
	let m = w.sent_one();
	check(m.eq(&msg(REQUEST, r.request_id(), sid as u32, &[b])), "request on the wire");
	let u = any(RESPONDER_UPDATE, m.id);
	w.receive(&u);
	is(now(r.recv_update()), &u, "an update is received");
	let a = any(RESPONSE, m.id);
	w.receive(&a);
	is_ok(now(r.recv_response()), &a, "a response is received");
	let q = request(u32v("id"));
	let r2 = incoming(&mut w, &mut h, &q);
	let (sid, b) = (i32v("service"), u8v("body"));
	check(w.wait(r2.send_update(sid, vec![b])).is_ok(), "an update is sent");
	check(w.sent_one().eq(&msg(RESPONDER_UPDATE, q.id, sid as u32, &[b])), "update on the wire");
	check(w.wait(r2.send_response(sid, vec![b])).is_ok(), "a response is sent");
	check(w.sent_one().eq(&msg(RESPONSE, q.id, sid as u32, &[b])), "response on the wire");
	cover("end");
}

// ---------------------------------------------------------------- routing of incoming messages

struct OpenSent {
	h: Sent,
	open: bool,
}

struct OpenReceived {
	h: Received,
	id: u32,
	open: bool,
}

/// Nobody else got anything.
fn all_quiet(h: &mut Handle, sent: &mut [OpenSent], received: &mut [OpenReceived]) {
	quiet(h);
	for s in sent.iter_mut() {
		if s.open {
			check(now(s.h.recv_update()).is_none(), "a request only gets its own messages");
		}
	}
	for r in received.iter_mut() {
		if r.open {
			check(now(r.h.recv_update()).is_none(), "a request only gets its own messages");
		}
	}
}

/// Arbitrary messages arrive while requests in both directions are open.
fn route(n: usize, respond: bool) {
	let (mut w, mut h) = world();
	let mut sent: Vec<OpenSent> = vec![];
	for _ in 0..2 {
		let r = open(&mut w, &h, i32v("service"), vec![]);
		let m = w.sent_one();
		check(m.id == r.request_id(), "the handle has the request ID on the wire");
		sent.push(OpenSent { h: r, open: true });
	}
	check(sent[0].h.request_id() != sent[1].h.request_id(), "open requests have different IDs");
	let mut received: Vec<OpenReceived> = vec![];
	for k in 0..2 {
		let id = u32v("id");
		if k == 1 {
			assume(id != received[0].id);
		}
		let r = incoming(&mut w, &mut h, &request(id));
		received.push(OpenReceived { h: r, id, open: true });
	}
	w.nothing_sent();
	all_quiet(&mut h, &mut sent, &mut received);
	for _ in 0..n {
		if respond && flag("respond") {
			// Answer a received request.
			let k = choose(received.len(), "which");
			let r = w.wait(received[k].h.send_response(1, vec![]));
			check(r.is_ok() == received[k].open, "a response can be sent once");
			if received[k].open {
				check(w.sent_one().eq(&msg(RESPONSE, received[k].id, 1, &[])), "the response is sent");
				received[k].open = false;
			}
			check(now(received[k].h.recv_update()).is_some_and(|x| x.is_none()), "no updates after the response");
			continue;
		}
		let kind = choose(5, "kind") as u32;
		let m = any(kind, u32v("id"));
		w.receive(&m);
		match kind {
			STREAM => {
				match now(h.recv_message()) {
					Some(Ok(ReceivedMessage::Stream(x))) => check(m.is(&x), "a stream message is delivered unchanged"),
					_ => check(false, "a stream message is delivered"),
				}
				cover("stream");
			},
			REQUEST => {
				if received.iter().any(|r| r.open && r.id == m.id) {
					gets_error(&mut h);
					cover("duplicate request");
				} else {
					match now(h.recv_message()) {
						Some(Ok(ReceivedMessage::Request(r, body))) => {
							check(r.request_id() == m.id && r.service_id() as u32 == m.service, "a request is delivered with its IDs");
							check(same(&body.data, &m.body), "a request is delivered unchanged");
							received.push(OpenReceived { h: r, id: m.id, open: true });
						},
						_ => check(false, "a request with a free ID is delivered"),
					}
					cover("request");
				}
			},
			REQUESTER_UPDATE => match received.iter_mut().find(|r| r.open && r.id == m.id) {
				Some(r) => {
					is(now(r.h.recv_update()), &m, "an update goes to its request");
					cover("requester update");
				},
				None => {
					gets_error(&mut h);
					cover("unknown requester update");
				},
			},
			RESPONDER_UPDATE => match sent.iter_mut().find(|s| s.open && s.h.request_id() == m.id) {
				Some(s) => {
					is(now(s.h.recv_update()), &m, "an update goes to its request");
					cover("responder update");
				},
				None => {
					gets_error(&mut h);
					cover("unknown responder update");
				},
			},
			_ => match sent.iter_mut().find(|s| s.open && s.h.request_id() == m.id) {
				Some(s) => {
					is_ok(now(s.h.recv_response()), &m, "a response goes to its request");
					check(now(s.h.recv_update()).is_some_and(|x| x.is_none()), "no update after the response");
					s.open = false;
					cover("response");
				},
				None => {
					gets_error(&mut h);
					cover("unknown response");
				},
			},
		}
		w.nothing_sent();
		all_quiet(&mut h, &mut sent, &mut received);
	}
	check(!w.peer.done(), "the peer keeps running");
	cover("end");
}

pub fn route_two() {
	route(2, false)
}
pub fn route_three() {
	route(3, false)
}
pub fn route_respond() {
	route(3, true)
}

// ---------------------------------------------------------------- after the response

/// The messages on the wire for one request: updates, then at most one response, then nothing.
fn one_response(w: &mut World, id: u32) -> (usize, usize) {
	let (mut updates, mut responses) = (0, 0);
	for m in w.sent() {
		check(m.id == id, "only messages of the request are sent");
		check(responses == 0, "nothing is sent for a request after its response");
		if m.kind == RESPONSE {
			responses += 1;
		} else {
			check(m.kind == RESPONDER_UPDATE, "updates and responses are sent");
			updates += 1;
		}
	}
	(updates, responses)
}

enum Todo {
	Update,
	Response,
	ErrorResponse,
}

fn todo() -> Todo {
	match choose(3, "todo") {
		0 => Todo::Update,
		1 => Todo::Response,
		_ => Todo::ErrorResponse,
	}
}

/// Write handles of the same request are used concurrently.
fn response_race(jobs: usize, each: usize, splits: usize) {
	let (mut w, mut h) = world();
	let q = request(u32v("id"));
	let r = incoming(&mut w, &mut h, &q);
	w.sim.io().write_steps = splits;
	let mut js = vec![];
	for _ in 0..jobs {
		let wh = r.write_handle();
		let plan: Vec<Todo> = (0..each).map(|_| todo()).collect();
		js.push(Job::new(async move {
			let (mut u, mut a) = (0, 0);
			for t in plan {
				match t {
					Todo::Update => u += wh.send_update(3, vec![7]).await.is_ok() as usize,
					Todo::Response => a += wh.send_response(4, vec![8]).await.is_ok() as usize,
					Todo::ErrorResponse => a += wh.send_error_response("no").await.is_ok() as usize,
				}
			}
			(u, a)
		}));
	}
	let sim = w.sim.clone();
	let mut io = Wake(sim);
	let mut acts: Vec<&mut dyn Act> = vec![];
	for j in js.iter_mut() {
		acts.push(j);
	}
	acts.push(&mut w.peer);
	acts.push(&mut io);
	explore(&mut acts);
	let (u, a) = one_response(&mut w, q.id);
	let (mut ju, mut ja) = (0, 0);
	for j in &js {
		match j.out {
			Some((u, a)) => {
				ju += u;
				ja += a;
			},
			None => check(false, "sending an update or response completes"),
		}
	}
	check(u == ju, "an update is reported as sent exactly if it is");
	check(a == ja, "a response is reported as sent exactly if it is");
	check(a <= 1, "at most one response");
	check(!w.peer.done(), "the peer keeps running");
	if a == 1 {
		cover("responded");
		check(matches!(now(h.recv_message()), None), "nothing is received");
		// The ID can be used again.
		let q2 = request(q.id);
		let _r2 = incoming(&mut w, &mut h, &q2);
		// The old handle cannot respond to the new request.
		check(w.wait(r.send_response(1, vec![])).is_err(), "a closed request handle refuses to send");
		check(w.wait(r.write_handle().send_update(1, vec![])).is_err(), "a closed request handle refuses to send");
		w.nothing_sent();
	}
	cover("end");
}

pub fn response_race_two() {
	response_race(2, 1, 0)
}
pub fn response_race_two_each() {
	response_race(2, 2, 0)
}
pub fn response_race_three() {
	response_race(3, 1, 0)
}
pub fn response_race_split() {
	response_race(2, 1, 2)
}

/// The read handle of a received request is dropped before a write handle responds.
/// Two sends for a request, one of which is given up at some point.
fn given_up(splits: usize) {
	let (mut w, mut h) = world();
	let q = request(u32v("id"));
	let r = incoming(&mut w, &mut h, &q);
	w.sim.io().write_steps = splits;
	let send = || {
		let (wh, t) = (r.write_handle(), todo());
		Job::new(async move {
			match t {
				Todo::Update => (wh.send_update(3, vec![7]).await.is_ok() as usize, 0),
				Todo::Response => (0, wh.send_response(4, vec![8]).await.is_ok() as usize),
				Todo::ErrorResponse => (0, wh.send_error_response("no").await.is_ok() as usize),
			}
		})
	};
	let (mut a, mut give_up) = Shared::new(send());
	let mut b = send();
	let mut io = Wake(w.sim.clone());
	explore(&mut [&mut a, &mut give_up, &mut b, &mut w.peer, &mut io]);
	let (u, n) = one_response(&mut w, q.id);
	check(b.out.is_some(), "sending an update or response completes");
	check(give_up.done != a.job().out.is_some(), "sending an update or response completes");
	let (mut ju, mut jn) = b.out.unwrap_or_default();
	let (au, an) = a.job().out.unwrap_or_default();
	ju += au;
	jn += an;
	let unknown = give_up.done as usize;
	check(ju <= u && u <= ju + unknown, "an update is reported as sent exactly if it is");
	check(jn <= n && n <= jn + unknown, "a response is reported as sent exactly if it is");
	check(n <= 1, "at most one response");
	if give_up.done && n > jn {
		cover("sent though given up");
	}
	if n == 0 {
		check(w.wait(r.send_response(1, vec![])).is_ok(), "an open request can be answered");
		check(one_response(&mut w, q.id) == (0, 1), "an open request can be answered");
	}
	check(w.wait(r.send_response(1, vec![])).is_err(), "a closed request handle refuses to send");
	check(w.wait(r.send_update(1, vec![])).is_err(), "a closed request handle refuses to send");
	let r2 = incoming(&mut w, &mut h, &request(q.id));
	check(w.wait(r.write_handle().send_error_response("x")).is_err(), "a closed request handle refuses to send");
	w.nothing_sent();
	check(w.wait(r2.send_response(2, vec![3])).is_ok(), "the new request can be answered");
	check(one_response(&mut w, q.id) == (0, 1), "the new request is answered");
	cover("end");
}

pub fn response_given_up() {
	given_up(0)
}
pub fn response_given_up_split() {
	given_up(1)
}

/// The handle that receives is gone, but another one can still answer.
pub fn route_kept() {
	let (mut w, mut h) = world();
	let id = u32v("id");
	let r = incoming(&mut w, &mut h, &request(id));
	let x = r.write_handle();
	drop(r);
	w.go();
	if flag("update") {
		check(w.wait(x.send_update(1, vec![1])).is_ok(), "an open request can be updated");
		w.sent_one();
	}
	w.receive(&request(id));
	gets_error(&mut h);
	w.nothing_sent();
	check(w.wait(x.send_response(2, vec![1])).is_ok(), "an open request can be answered");
	check(w.sent_one().kind == RESPONSE, "an open request can be answered");
	let r = incoming(&mut w, &mut h, &request(id));
	check(w.wait(r.send_response(2, vec![1])).is_ok(), "the ID is free again after the response");
	cover("end");
}

pub fn response_dropped() {
	let (mut w, mut h) = world();
	let q = request(u32v("id"));
	let r = incoming(&mut w, &mut h, &q);
	let (a, b) = (r.write_handle(), r.write_handle());
	drop(r);
	if flag("update") {
		w.receive(&any(REQUESTER_UPDATE, q.id));
		let _ = now(h.recv_message());
		cover("update");
	}
	check(w.wait(a.send_update(2, vec![1])).is_ok(), "an open request can be updated");
	check(w.wait(a.send_response(2, vec![1])).is_ok(), "an open request can be answered");
	check(w.wait(a.send_response(2, vec![2])).is_err(), "a request cannot be answered twice");
	check(w.wait(b.send_response(2, vec![3])).is_err(), "a request cannot be answered twice");
	check(w.wait(b.send_update(2, vec![3])).is_err(), "a request cannot be updated after the response");
	check(w.wait(b.send_error_response("x")).is_err(), "a request cannot be answered twice");
	let (u, n) = one_response(&mut w, q.id);
	check(u == 1 && n == 1, "the update and the response are sent");
	// The ID can be used again.
	let q2 = request(q.id);
	let r2 = incoming(&mut w, &mut h, &q2);
	check(w.wait(b.send_response(2, vec![3])).is_err(), "the old handle cannot answer a new request");
	w.nothing_sent();
	check(w.wait(r2.send_response(2, vec![3])).is_ok(), "the new request can be answered");
	check(one_response(&mut w, q.id) == (0, 1), "the new request is answered");
	cover("end");
}

/// Updates of the requester after the response arrived.
pub fn requester_closed() {
	let (mut w, h) = world();
	let mut r = open(&mut w, &h, 1, vec![]);
	w.sent_one();
	let wh = r.write_handle();
	let upd = any(RESPONDER_UPDATE, r.request_id());
	if flag("update") {
		w.receive(&upd);
		check(w.wait(wh.send_update(1, vec![])).is_ok(), "an open request can be updated");
		w.sent_one();
		is(now(r.recv_update()), &upd, "the update is received");
		cover("update");
	}
	let a = any(RESPONSE, r.request_id());
	w.receive(&a);
	if flag("receive first") {
		is_ok(now(r.recv_response()), &a, "the response is received");
	}
	check(w.wait(wh.send_update(1, vec![])).is_err(), "no update can be sent after the response arrived");
	check(w.wait(r.send_update(1, vec![])).is_err(), "no update can be sent after the response arrived");
	w.nothing_sent();
	cover("end");
}

// ---------------------------------------------------------------- nobody receives requests

/// Requests arrive after the read handle has been dropped, possibly while earlier ones are still open.
fn unread_requests(n: usize, before: usize) {
	let (mut w, mut h) = world();
	let mut open_requests: Vec<(Received, u32)> = vec![];
	for _ in 0..before {
		let q = request(u32v("id"));
		for (_, id) in &open_requests {
			assume(*id != q.id);
		}
		let r = incoming(&mut w, &mut h, &q);
		open_requests.push((r, q.id));
	}
	let mut s = open(&mut w, &h, 9, vec![]);
	let sid = s.request_id();
	w.sent_one();
	let (rh, wh) = h.split();
	drop(rh);
	w.go();
	let same_id = flag("same id");
	let id = u32v("id");
	for _ in 0..n {
		let k = choose(3, "kind");
		let m = msg(if k == 2 { STREAM } else { REQUEST }, if same_id { id } else { u32v("id") }, range(0, 1, "service") as u32, &[u8v("body")]);
		let duplicate = open_requests.iter().any(|(_, id)| *id == m.id);
		w.receive(&m);
		if k == 2 {
			w.nothing_sent();
			cover("stream");
		} else if duplicate {
			// The error cannot be told to anybody.  An answer would end the request that is open.
			w.nothing_sent();
			cover("duplicate");
		} else {
			let a = w.sent_one();
			check(a.kind == RESPONSE && a.id == m.id && a.service as i32 == -1, "a request nobody can receive is answered with an error");
			check(std::str::from_utf8(&a.body).is_ok(), "the error is text");
			cover("answered");
		}
		check(!w.peer.done(), "the peer keeps running");
	}
	check(w.wait(wh.send_stream(3, vec![9])).is_ok(), "the write handle still works");
	check(w.sent_one().eq(&msg(STREAM, 0, 3, &[9])), "the message is sent");
	// The requests that were received before still work.
	for (mut r, id) in open_requests {
		let u = any(REQUESTER_UPDATE, id);
		w.receive(&u);
		is(now(r.recv_update()), &u, "an update goes to its request");
		check(w.wait(r.send_response(2, vec![4])).is_ok(), "an open request can be answered");
		check(w.sent_one().eq(&msg(RESPONSE, id, 2, &[4])), "the response is sent");
	}
	// So do the sent ones.
	let a = any(RESPONSE, sid);
	w.receive(&a);
	is_ok(now(s.recv_response()), &a, "a response goes to its request");
	w.nothing_sent();
	cover("end");
}

pub fn unread_requests_three() {
	unread_requests(3, 0)
}
pub fn unread_requests_four() {
	unread_requests(4, 0)
}
pub fn unread_requests_open() {
	unread_requests(2, 1)
}
pub fn unread_requests_open_two() {
	unread_requests(3, 2)
}

/// The error response does not fit the limit of the transport: the peer answers or gives up the connection.
pub fn unread_requests_limit() {
	let limit = range(0, 40, "limit") as u32;
	let (mut w, h) = world_with(64, limit);
	let (rh, wh) = h.split();
	drop(rh);
	w.go();
	for _ in 0..2 {
		let m = msg(REQUEST, u32v("id"), 1, &[]);
		w.receive(&m);
		let sent = w.sent();
		if sent.is_empty() {
			check(w.peer.done(), "a request is not left without an answer");
			check(w.wait(wh.send_stream(3, vec![])).is_err(), "nothing is sent through a closed connection");
			cover("closed");
			done();
		}
		check(sent.len() == 1, "one answer");
		let a = &sent[0];
		check(a.kind == RESPONSE && a.id == m.id && a.service as i32 == -1, "a request nobody can receive is answered with an error");
		cover("answered");
	}
	check(w.wait(wh.send_stream(3, vec![])).is_ok(), "the write handle still works");
	check(w.sent_one().eq(&msg(STREAM, 0, 3, &[])), "the message is sent");
	cover("end");
}

// ---------------------------------------------------------------- messages that cannot be sent

/// Responses, updates, requests and stream messages, some too large for the transport.
fn too_large(n: usize) {
	let (mut w, mut h) = world_with(64, 2);
	let q = request(u32v("id"));
	let r = incoming(&mut w, &mut h, &q);
	let mut s = open(&mut w, &h, 1, vec![]);
	w.sent();
	let mut r_open = true;
	for _ in 0..n {
		let body = bytes(if flag("too large") { 3 } else { 2 }, "body");
		let ok = body.len() == 2;
		let service = i32v("service");
		match choose(6, "what") {
			0 => {
				let x = w.wait(r.send_response(service, body.clone()));
				check(x.is_ok() == (ok && r_open), "a response is sent exactly if it fits and is the first");
				if ok && r_open {
					check(w.sent_one().eq(&msg(RESPONSE, q.id, service as u32, &body)), "the response is sent");
					r_open = false;
					cover("response");
				}
			},
			1 => {
				let x = w.wait(r.send_update(service, body.clone()));
				check(x.is_ok() == (ok && r_open), "an update is sent exactly if it fits and the request is open");
				if ok && r_open {
					check(w.sent_one().eq(&msg(RESPONDER_UPDATE, q.id, service as u32, &body)), "the update is sent");
				}
			},
			2 => {
				let x = w.wait(s.send_update(service, body.clone()));
				check(x.is_ok() == ok, "an update is sent exactly if it fits");
				if ok {
					check(w.sent_one().eq(&msg(REQUESTER_UPDATE, s.request_id(), service as u32, &body)), "the update is sent");
				}
			},
			4 => {
				// As an error response.
				for c in &body {
					assume(*c < 128);
				}
				let x = w.wait(r.send_error_response(std::str::from_utf8(&body).unwrap()));
				check(x.is_ok() == (ok && r_open), "a response is sent exactly if it fits and is the first");
				if ok && r_open {
					check(w.sent_one().eq(&msg(RESPONSE, q.id, u32::MAX, &body)), "the response is sent");
					r_open = false;
					cover("error response");
				}
			},
			3 => {
				let x = w.wait(h.send_stream(service, body.clone()));
				check(x.is_ok() == ok, "a stream message is sent exactly if it fits");
				if ok {
					check(w.sent_one().eq(&msg(STREAM, 0, service as u32, &body)), "the stream message is sent");
				}
			},
			_ => {
				let x = w.wait(h.send_request(service, body.clone()));
				check(x.is_ok() == ok, "a request is sent exactly if it fits");
				if let Ok(mut x) = x {
					check(x.request_id() != s.request_id(), "the ID is unique");
					check(w.sent_one().eq(&msg(REQUEST, x.request_id(), service as u32, &body)), "the request is sent");
					let a = any(RESPONSE, x.request_id());
					w.receive(&a);
					is_ok(now(x.recv_response()), &a, "the response is received");
				}
			},
		}
		w.nothing_sent();
		check(!w.peer.done(), "a message that does not fit does not end the connection");
		quiet(&mut h);
	}
	// Requests that were refused are not open.
	let k = choose(3, "stray");
	if k > 0 {
		let m = any([RESPONSE, RESPONDER_UPDATE][k - 1], u32v("id"));
		assume(m.id != s.request_id());
		w.receive(&m);
		gets_error(&mut h);
		w.nothing_sent();
		cover("stray");
	}
	// Both requests still work.
	let a = any(RESPONSE, s.request_id());
	w.receive(&a);
	is_ok(now(s.recv_response()), &a, "the response is received");
	if r_open {
		check(w.wait(r.send_response(1, vec![])).is_ok(), "an open request can be answered");
		check(w.sent_one().eq(&msg(RESPONSE, q.id, 1, &[])), "the response is sent");
	}
	cover("end");
}

pub fn too_large_two() {
	too_large(2)
}
pub fn too_large_three() {
	too_large(3)
}
