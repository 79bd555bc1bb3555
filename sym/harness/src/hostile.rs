//! A remote side that does what it likes, and an application that drops what it likes.
use crate::peer::*;
use crate::rt::*;
use crate::sim::*;
use crate::world::*;
use fizyr_rpc::ReceivedMessage;

/// Valid frames in any order: the peer never stops and stays usable.
fn messages(n: usize, drops: bool) {
	let (mut w, mut h) = world();
	let mut sent: Vec<Sent> = vec![];
	for _ in 0..2 {
		sent.push(open(&mut w, &h, 1, vec![]));
	}
	let mut received = vec![incoming(&mut w, &mut h, &request(u32v("id")))];
	let mut writers = vec![received[0].write_handle()];
	w.sent();
	for _ in 0..n {
		match choose(if drops { 6 } else { 2 }, "what") {
			0 => {
				let m = any(choose(5, "kind") as u32, u32v("id"));
				w.receive(&m);
			},
			1 => {
				if let Some(Ok(ReceivedMessage::Request(r, _))) = now(h.recv_message()) {
					writers.push(r.write_handle());
					received.push(r);
					cover("request");
				}
			},
			2 => {
				if !sent.is_empty() {
					drop(sent.remove(choose(sent.len(), "which")));
				}
			},
			3 => {
				if !received.is_empty() {
					drop(received.remove(choose(received.len(), "which")));
				}
			},
			4 => {
				let k = choose(writers.len(), "which");
				let id = writers[k].request_id();
				if w.wait(writers[k].send_response(5, vec![])).is_ok() {
					check(w.sent_one().eq(&msg(RESPONSE, id, 5, &[])), "the response is sent");
					cover("answered");
				}
			},
			_ => {
				if let Some(s) = sent.first_mut() {
					let _ = now(s.recv_update());
				}
			},
		}
		check(!w.peer.done(), "nothing the remote side sends in valid frames ends the connection");
		w.nothing_sent();
	}
	// Everything still works.
	let mut fresh = open(&mut w, &h, 9, vec![4]);
	let m = w.sent_one();
	check(m.kind == REQUEST && m.id == fresh.request_id() && m.service == 9 && same(&m.body, &[4]), "a request is sent");
	let a = any(RESPONSE, m.id);
	w.receive(&a);
	is_ok(now(fresh.recv_response()), &a, "its response is received");
	while now(h.recv_message()).is_some() {}
	let st = any(STREAM, u32v("id"));
	w.receive(&st);
	match now(h.recv_message()) {
		Some(Ok(ReceivedMessage::Stream(x))) => check(st.is(&x), "a stream message is received"),
		_ => check(false, "a stream message is received"),
	}
	cover("end");
}

pub fn messages_four() {
	messages(4, false)
}
pub fn messages_drops() {
	messages(3, true)
}
pub fn messages_drops_four() {
	messages(4, true)
}

/// The same when nobody receives requests any more, from any point on.
fn unread(n: usize) {
	let (mut w, mut h) = world();
	let mut sent: Vec<Sent> = vec![];
	for _ in 0..2 {
		sent.push(open(&mut w, &h, 1, vec![]));
	}
	let mut received = vec![incoming(&mut w, &mut h, &request(u32v("id")))];
	w.sent();
	let (rh, wh) = h.split();
	let mut rh = Some(rh);
	for k in 0..n {
		if rh.is_some() && (k == 1 || flag("drop")) {
			drop(rh.take());
			if flag("seen") {
				w.go();
			}
			cover("unread");
		}
		match choose(3, "what") {
			0 => {
				let mut m = any(choose(5, "kind") as u32, u32v("id"));
				if m.kind == REQUEST {
					// The answer contains the number as text.
					m.service = [1, u32::MAX][choose(2, "service of request")];
				}
				w.receive(&m);
				if m.kind == REQUEST && rh.is_none() {
					let a = w.sent();
					check(a.len() <= 1, "a request is answered once");
					if a.len() == 1 {
						check(a[0].kind == RESPONSE && a[0].id == m.id && a[0].service == u32::MAX, "a request nobody can receive is answered with an error");
						cover("answered");
					}
				}
			},
			1 => {
				if !sent.is_empty() {
					drop(sent.remove(choose(sent.len(), "which")));
				}
			},
			_ => drop(received.pop()),
		}
		check(!w.peer.done(), "nothing the remote side sends in valid frames ends the connection");
		w.nothing_sent();
	}
	// Everything still works.
	let mut fresh = match w.wait(wh.send_request(9, vec![4])) {
		Ok(r) => r,
		Err(_) => {
			check(false, "a request is sent");
			done()
		},
	};
	let m = w.sent_one();
	check(m.kind == REQUEST && m.id == fresh.request_id() && m.service == 9 && same(&m.body, &[4]), "a request is sent");
	let u = any(RESPONDER_UPDATE, m.id);
	w.receive(&u);
	is(now(fresh.recv_update()), &u, "its update is received");
	let a = any(RESPONSE, m.id);
	w.receive(&a);
	is_ok(now(fresh.recv_response()), &a, "its response is received");
	check(!w.peer.done(), "the peer keeps running");
	cover("end");
}

pub fn unread_three() {
	unread(3)
}
pub fn unread_four() {
	unread(4)
}

/// Arbitrary bytes: the peer reports what it cannot use and ends the connection, and everyone is told.
fn bytes_in(n: usize, eof: bool) {
	let (mut w, mut h) = world_with(3, 64);
	let mut sent = open(&mut w, &h, 1, vec![]);
	let id = u32v("id");
	let mut received = incoming(&mut w, &mut h, &msg(REQUEST, id, 1, &[]));
	w.sent();
	let start = w.sim.io().input.len();
	let input = bytes(n, "byte");
	w.sim.io().input.extend_from_slice(&input);
	if eof {
		w.sim.io().end = End::Eof;
	}
	w.sim.fire();
	w.go();
	let io = w.sim.io();
	let mut errors = 0;
	let mut aborted = false;
	let mut keep = vec![];
	for _ in 0..5 {
		match now(h.recv_message()) {
			Some(Ok(ReceivedMessage::Request(r, _))) => {
				check(r.request_id() != id, "an open ID is not used twice");
				keep.push(r);
				cover("request");
			},
			Some(Ok(ReceivedMessage::Stream(_))) => cover("stream"),
			Some(Err(e)) if e.is_connection_aborted() => {
				aborted = true;
				break;
			},
			Some(Err(_)) => {
				errors += 1;
				cover("error");
			},
			None => break,
		}
	}
	check(aborted == w.peer.done(), "the end of the connection is reported exactly when it ended");
	if w.peer.done() {
		check(io.closed, "the socket is closed");
		check(eof || errors > 0, "the reason is reported");
		// Messages that have arrived come first.
		for _ in 0..2 {
			match now(sent.recv_update()) {
				Some(Some(_)) => (),
				Some(None) => break,
				None => check(false, "a requester is told that the connection has ended"),
			}
		}
		check(now(sent.recv_response()).is_some(), "a requester is told that the connection has ended");
		for _ in 0..2 {
			match now(received.recv_update()) {
				Some(Some(_)) => (),
				Some(None) => break,
				None => check(false, "a responder is told that the connection has ended"),
			}
		}
		cover("ended");
	} else {
		check(!eof, "the peer stops at the end of the stream");
		check(io.pos == io.input.len(), "all input is consumed while the connection lives");
		cover("alive");
	}
	check(io.input.len() == start + n, "the input is as given");
	w.nothing_sent();
	cover("end");
}

pub fn bytes_eof() {
	bytes_in(20, true)
}
pub fn bytes_open() {
	bytes_in(20, false)
}
pub fn bytes_two() {
	bytes_in(33, true)
}
