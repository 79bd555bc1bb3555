//! What the result of a send function means.
use crate::peer::*;
use crate::rt::*;
use crate::sim::*;
use crate::world::*;

#[derive(Clone, Copy, PartialEq)]
enum Op {
	Stream,
	Request,
	RequesterUpdate,
	ResponderUpdate,
	Response,
	ErrorResponse,
}
use Op::*;
const OPS: [Op; 6] = [Stream, Request, RequesterUpdate, ResponderUpdate, Response, ErrorResponse];

struct Handles {
	h: Handle,
	s: Sent,
	r: Received,
}

async fn run(x: &Handles, op: Op, service: i32, body: Vec<u8>, ids: &std::cell::Cell<Option<u32>>) -> bool {
	match op {
		Stream => x.h.send_stream(service, body).await.is_ok(),
		Request => match x.h.send_request(service, body).await {
			Ok(r) => {
				ids.set(Some(r.request_id()));
				std::mem::forget(r);
				true
			},
			Err(_) => false,
		},
		RequesterUpdate => x.s.send_update(service, body).await.is_ok(),
		ResponderUpdate => x.r.send_update(service, body).await.is_ok(),
		Response => x.r.send_response(service, body).await.is_ok(),
		ErrorResponse => match std::str::from_utf8(&body) {
			Ok(t) => x.r.send_error_response(t).await.is_ok(),
			Err(_) => false,
		},
	}
}

fn expected(x: &Handles, op: Op, service: i32, body: &[u8], id: u32) -> Msg {
	let s = service as u32;
	match op {
		Stream => msg(STREAM, 0, s, body),
		Request => msg(REQUEST, id, s, body),
		RequesterUpdate => msg(REQUESTER_UPDATE, x.s.request_id(), s, body),
		ResponderUpdate => msg(RESPONDER_UPDATE, x.r.request_id(), s, body),
		Response => msg(RESPONSE, x.r.request_id(), s, body),
		ErrorResponse => msg(RESPONSE, x.r.request_id(), u32::MAX, body),
	}
}

fn handles() -> (World, Handles) {
	let (mut w, mut h) = world();
	let s = open(&mut w, &h, 1, vec![]);
	let r = incoming(&mut w, &mut h, &request(u32v("id")));
	w.sent();
	(w, Handles { h, s, r })
}

/// A send completes exactly when the whole message is on the stream.
pub fn completes() {
	let (mut w, x) = handles();
	let op = OPS[choose(6, "op")];
	let (service, body) = (i32v("service"), vec![u8v("body") & 0x7f, u8v("body") & 0x7f]);
	w.sim.io().write_steps = 3;
	let ids = std::cell::Cell::new(None);
	let mut j = Job::new(run(&x, op, service, body.clone(), &ids));
	j.step();
	check(!j.done(), "nothing is sent without the peer");
	loop {
		w.peer.go();
		j.go();
		let n = w.sim.io().output.len() - w.seen;
		if n < 18 {
			check(!j.done(), "a message is not reported as sent before it is sent completely");
			check(w.sim.fire(), "the peer waits for the stream");
			cover("partial");
		} else {
			check(j.out == Some(true), "a message is reported as sent when it is");
			break;
		}
	}
	let m = w.sent_one();
	if op == Request {
		check(ids.get() == Some(m.id), "the handle knows the ID on the wire");
	}
	check(m.eq(&expected(&x, op, service, &body, m.id)), "the message is sent as given");
	w.nothing_sent();
	cover("end");
}

/// The stream fails during a send.
pub fn fails() {
	let (mut w, x) = handles();
	let op = OPS[choose(6, "op")];
	let (service, body) = (i32v("service"), vec![u8v("body") & 0x7f, u8v("body") & 0x7f]);
	let at = choose(18, "fail at");
	let io = w.sim.io();
	io.write_steps = 2;
	io.write_fail_at = io.output.len() + at;
	let ids = std::cell::Cell::new(None);
	let mut j = Job::new(run(&x, op, service, body, &ids));
	let mut other = Job::new(x.h.send_stream(8, vec![]));
	j.step();
	if flag("another") {
		other.step();
	}
	let mut wake = Wake(w.sim.clone());
	settle(&mut [&mut w.peer, &mut wake, &mut j, &mut other]);
	check(j.out == Some(false), "a message that is not sent is reported as failed");
	match &other.out {
		Some(r) => check(r.is_err(), "nothing is sent after a failure"),
		None => check(false, "a send completes"),
	}
	check(w.peer.done(), "the peer stops when the stream has failed");
	check(w.sim.io().output.len() - w.seen == at, "nothing is written after a failure");
	cover("end");
}

/// The transport refuses the message, or the connection is closed already.
pub fn refused() {
	let (mut w, mut h) = world_with(64, 2);
	let s = open(&mut w, &h, 1, vec![]);
	let r = incoming(&mut w, &mut h, &request(u32v("id")));
	w.sent();
	let x = Handles { h, s, r };
	let op = OPS[choose(6, "op")];
	let n = choose(5, "length");
	let service = i32v("service");
	let body: Vec<u8> = bytes(n, "body").iter().map(|b| b & 0x7f).collect();
	let closed = flag("closed");
	if closed {
		x.h.close_handle().close();
	}
	let ids = std::cell::Cell::new(None);
	let mut j = Job::new(run(&x, op, service, body.clone(), &ids));
	settle(&mut [&mut j, &mut w.peer]);
	if n <= 2 && !closed {
		check(j.out == Some(true), "a message that fits is sent");
		let m = w.sent_one();
		check(m.eq(&expected(&x, op, service, &body, m.id)), "the message is sent as given");
		cover("sent");
	} else {
		check(j.out == Some(false), "a message that is not sent is reported as failed");
		cover("refused");
	}
	w.nothing_sent();
	check(w.seen == w.sim.io().output.len(), "nothing else is written");
	cover("end");
}

/// Futures that send are dropped at any time: messages are still sent completely or not at all.
pub fn cancelled() {
	let (mut w, x) = handles();
	let op = OPS[choose(6, "op")];
	let (service, body) = (i32v("service"), vec![u8v("body") & 0x7f, u8v("body") & 0x7f]);
	w.sim.io().write_steps = 2;
	let ids = std::cell::Cell::new(None);
	let mut j = Job::new(run(&x, op, service, body.clone(), &ids));
	let mut k = choose(4, "steps");
	if k > 0 {
		j.step();
	}
	while k > 1 {
		if w.peer.enabled() {
			w.peer.step();
		} else {
			w.sim.fire();
		}
		k -= 1;
	}
	j.cancel();
	cover("cancelled");
	let mut wake = Wake(w.sim.clone());
	settle(&mut [&mut w.peer, &mut wake]);
	drop(j);
	let sent = w.sent();
	check(w.seen == w.sim.io().output.len(), "messages are sent completely or not at all");
	check(sent.len() <= 1, "a message is sent at most once");
	if let Some(m) = sent.first() {
		check(m.eq(&expected(&x, op, service, &body, m.id)), "the message is sent as given");
		cover("sent");
	}
	w.sim.io().write_steps = 0;
	check(w.wait(x.h.send_stream(9, vec![3])).is_ok(), "the next message can be sent");
	check(w.sent_one().eq(&msg(STREAM, 0, 9, &[3])), "the next message is sent");
	check(!w.peer.done(), "the peer keeps running");
	cover("end");
}

/// Concurrent sends through different handles: each message appears once and whole, and each sender's own in order.
fn concurrent(n: usize, splits: usize) {
	let (mut w, h) = world();
	let (_rh, wh) = h.split();
	w.sim.io().write_steps = splits;
	let body = u8v("body");
	let sender = |who: i32| {
		let wh = wh.clone();
		async move {
			for k in 0..n as i32 {
				if wh.send_stream(who * 16 + k, vec![body]).await.is_err() {
					return false;
				}
			}
			true
		}
	};
	let mut a = Job::new(sender(1));
	let mut b = Job::new(sender(2));
	let mut wake = Wake(w.sim.clone());
	explore(&mut [&mut a, &mut b, &mut w.peer, &mut wake]);
	check(a.out == Some(true) && b.out == Some(true), "all messages are sent");
	let sent = w.sent();
	check(w.seen == w.sim.io().output.len(), "whole messages are sent");
	check(sent.len() == 2 * n, "each message is sent once");
	let mut next = [0, 0];
	for m in sent {
		check(m.kind == STREAM && m.id == 0 && same(&m.body, &[body]), "the message is sent as given");
		let who = (m.service / 16) as usize;
		check((1..=2).contains(&who) && m.service % 16 == next[who - 1], "the messages of one sender stay in order");
		next[who - 1] += 1;
	}
	cover("end");
}

pub fn concurrent_one() {
	concurrent(1, 2)
}
pub fn concurrent_two() {
	concurrent(2, 0)
}
pub fn concurrent_two_split() {
	concurrent(2, 1)
}
