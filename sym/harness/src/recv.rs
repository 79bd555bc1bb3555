//! Receiving through handles.
use crate::peer::*;
use crate::rt::*;
use crate::world::*;
use fizyr_rpc::ReceivedMessage;

/// A requester receives updates and the response by any sequence of calls, some of them cancelled.
fn sent_request(steps: usize, close: bool) {
	let (mut w, mut h) = world();
	let mut r = open(&mut w, &h, 1, vec![]);
	let id = r.request_id();
	w.sent_one();
	let mut queue: Vec<Msg> = vec![];
	let mut answered = false; // the response has arrived
	let mut finished = false; // the response has been received
	let mut ended = false; // the connection has gone
	for _ in 0..steps {
		match choose(if close { 6 } else { 5 }, "what") {
			0 if !answered && !ended => {
				let kind = if flag("response") { RESPONSE } else { RESPONDER_UPDATE };
				let m = any(kind, id);
				w.receive(&m);
				answered = kind == RESPONSE;
				queue.push(m);
			},
			1 => match now(r.recv_update()) {
				None => check(queue.is_empty() && !finished && !ended, "an update or the end is delivered at once"),
				Some(None) => {
					check(if queue.is_empty() { finished || ended } else { queue[0].kind == RESPONSE }, "no update only if the response is next");
					cover("no update");
				},
				Some(Some(x)) => {
					check(!queue.is_empty() && queue[0].kind == RESPONDER_UPDATE && queue[0].is(&x), "updates are received in order, once");
					queue.remove(0);
					cover("update");
				},
			},
			2 => match now(r.recv_response()) {
				None => check(queue.is_empty() && !finished && !ended, "a response or the end is delivered at once"),
				Some(Ok(x)) => {
					check(!queue.is_empty() && queue[0].kind == RESPONSE && queue[0].is(&x), "the response is received once, after the updates");
					queue.remove(0);
					finished = true;
					cover("response");
				},
				Some(Err(e)) => {
					if queue.is_empty() {
						check(finished || ended, "an open request waits for its response");
						check(!e.is_unexpected_message_type(), "the end is not reported as an update");
					} else {
						check(queue[0].kind == RESPONDER_UPDATE && e.is_unexpected_message_type(), "only an update comes before the response");
						cover("update instead");
					}
				},
			},
			3 if queue.is_empty() && !answered && !ended => {
				// Wait, and be woken.
				let mut j = Job::new(r.recv_update());
				j.step();
				check(!j.done() && !j.enabled(), "an open request waits for its messages");
				let m = any(RESPONDER_UPDATE, id);
				w.receive(&m);
				check(j.enabled(), "a waiting receiver is woken");
				if flag("cancel") {
					j.cancel();
					queue.push(m);
					cover("cancelled");
				} else {
					j.step();
					is(j.out.map(Some).unwrap_or(None), &m, "the update is received");
					cover("woken");
				}
			},
			4 if queue.is_empty() && !answered && !ended => {
				let mut j = Job::new(r.recv_response());
				j.step();
				check(!j.done() && !j.enabled(), "an open request waits for its messages");
				let m = any(RESPONSE, id);
				w.receive(&m);
				answered = true;
				check(j.enabled(), "a waiting receiver is woken");
				if flag("cancel") {
					j.cancel();
					queue.push(m);
					cover("cancelled");
				} else {
					j.step();
					is_ok(j.out, &m, "the response is received");
					finished = true;
				}
			},
			5 if !ended => {
				w.end([crate::sim::End::Eof, crate::sim::End::Reset][choose(2, "end")]);
				w.go();
				check(w.peer.done(), "the peer stops with the connection");
				ended = true;
				cover("ended");
			},
			_ => (),
		}
	}
	// Everything else is received in order.
	for m in queue {
		if m.kind == RESPONSE {
			check(now(r.recv_update()).is_some_and(|x| x.is_none()), "no update when the response is next");
			is_ok(now(r.recv_response()), &m, "the response is received");
			finished = true;
		} else {
			is(now(r.recv_update()), &m, "updates are received in order, once");
		}
	}
	if finished || ended {
		check(now(r.recv_update()).is_some_and(|x| x.is_none()), "no update after the end");
		check(now(r.recv_response()).is_some_and(|x| x.is_err()), "no response after the end");
	} else {
		check(now(r.recv_update()).is_none(), "nothing else is received");
	}
	if !ended {
		quiet(&mut h);
		w.nothing_sent();
	}
	cover("end");
}

pub fn sent_request_four() {
	sent_request(4, false)
}
pub fn sent_request_five() {
	sent_request(5, false)
}
pub fn sent_request_end() {
	sent_request(4, true)
}
pub fn sent_request_six() {
	sent_request(6, true)
}

/// The same for the updates of a received request.
fn received_request(steps: usize) {
	let (mut w, mut h) = world();
	let id = u32v("id");
	let mut r = incoming(&mut w, &mut h, &request(id));
	let mut queue: Vec<Msg> = vec![];
	let (mut answered, mut ended) = (false, false);
	for _ in 0..steps {
		match choose(5, "what") {
			0 if !answered && !ended => {
				let m = any(REQUESTER_UPDATE, id);
				w.receive(&m);
				queue.push(m);
			},
			1 => match now(r.recv_update()) {
				None => check(queue.is_empty() && !answered && !ended, "an update or the end is delivered at once"),
				Some(None) => check(queue.is_empty() && (answered || ended), "the end is reported after all updates"),
				Some(Some(x)) => {
					check(!queue.is_empty() && queue[0].is(&x), "updates are received in order, once");
					queue.remove(0);
					cover("update");
				},
			},
			2 if queue.is_empty() && !answered && !ended => {
				let mut j = Job::new(r.recv_update());
				j.step();
				check(!j.done() && !j.enabled(), "an open request waits for its messages");
				let m = any(REQUESTER_UPDATE, id);
				w.receive(&m);
				check(j.enabled(), "a waiting receiver is woken");
				if flag("cancel") {
					j.cancel();
					queue.push(m);
					cover("cancelled");
				} else {
					j.step();
					is(j.out.map(Some).unwrap_or(None), &m, "the update is received");
				}
			},
			3 if !answered && !ended => {
				check(w.wait(r.send_response(7, vec![])).is_ok(), "an open request can be answered");
				answered = true;
				cover("answered");
			},
			4 if !ended => {
				w.end(crate::sim::End::Eof);
				w.go();
				ended = true;
				cover("ended");
			},
			_ => (),
		}
	}
	for m in queue {
		is(now(r.recv_update()), &m, "updates are received in order, once");
	}
	if answered || ended {
		check(now(r.recv_update()).is_some_and(|x| x.is_none()), "no update after the end");
	} else {
		check(now(r.recv_update()).is_none(), "nothing else is received");
	}
	cover("end");
}

pub fn received_request_five() {
	received_request(5)
}

/// Requests and stream messages through the handle of the peer.
fn peer_handle(steps: usize) {
	let (mut w, mut h) = world();
	let mut queue: Vec<Msg> = vec![];
	let mut keep = vec![];
	let mut next = 0;
	let mut take = |x: Option<Result<ReceivedMessage<Body>, fizyr_rpc::Error>>, queue: &mut Vec<Msg>| match x {
		None => check(queue.is_empty(), "a message is delivered at once"),
		Some(Ok(ReceivedMessage::Stream(m))) => {
			check(!queue.is_empty() && queue[0].is(&m), "messages are received in order, once");
			queue.remove(0);
		},
		Some(Ok(ReceivedMessage::Request(r, b))) => {
			check(!queue.is_empty() && queue[0].kind == REQUEST && queue[0].id == r.request_id(), "messages are received in order, once");
			check(queue[0].service as i32 == r.service_id() && crate::sim::same(&queue[0].body, &b.data), "messages are received unchanged");
			queue.remove(0);
			keep.push(r);
		},
		Some(Err(_)) => check(false, "valid messages are not errors"),
	};
	let mut fresh = |queue: &mut Vec<Msg>, w: &mut World| {
		next += 1;
		let m = if flag("request") { any(REQUEST, next) } else { any(STREAM, u32v("id")) };
		w.receive(&m);
		queue.push(m);
	};
	for _ in 0..steps {
		match choose(3, "what") {
			0 => fresh(&mut queue, &mut w),
			1 => take(now(h.recv_message()), &mut queue),
			_ if queue.is_empty() => {
				let mut j = Job::new(h.recv_message());
				j.step();
				check(!j.done() && !j.enabled(), "the handle waits for messages");
				fresh(&mut queue, &mut w);
				check(j.enabled(), "a waiting receiver is woken");
				if flag("cancel") {
					j.cancel();
					cover("cancelled");
				} else {
					j.step();
					check(j.done(), "a message is delivered at once");
					take(j.out.take(), &mut queue);
					cover("woken");
				}
			},
			_ => (),
		}
	}
	for _ in 0..queue.len() {
		take(now(h.recv_message()), &mut queue);
	}
	check(queue.is_empty(), "every message is received");
	quiet(&mut h);
	cover("end");
}

pub fn peer_handle_five() {
	peer_handle(5)
}
