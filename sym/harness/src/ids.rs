//! The IDs of sent requests.
use crate::peer::*;
use crate::rt::*;
use crate::world::*;

/// Let the next sent request try this ID first.
fn next_id(_id: u32) -> bool {
	#[cfg(fizyr_rpc_verif)]
	{
		*fizyr_rpc::NEXT_SENT_REQUEST_ID.lock().unwrap() = Some(_id);
		return true;
	}
	#[allow(unreachable_code)]
	false
}

fn wire_id(w: &mut World, service: u32, body: &[u8]) -> u32 {
	let m = w.sent_one();
	check(m.kind == REQUEST && m.service == service && same(&m.body, body), "the request is on the wire");
	m.id
}

use crate::sim::same;

fn history(steps: usize, jumps: bool) {
	let (mut w, mut h) = world();
	if jumps {
		next_id(u32v("start"));
	}
	let mut list: Vec<Sent> = vec![];
	// Open requests whose answer nobody waits for.
	let mut unread: Vec<u32> = vec![];
	for _ in 0..steps {
		match choose(5, "what") {
			0 => {
				if jumps && flag("jump") && next_id(u32v("next")) {
					cover("jump");
				}
				let r = open(&mut w, &h, 3, vec![1]);
				let id = wire_id(&mut w, 3, &[1]);
				check(id == r.request_id(), "the handle knows the ID on the wire");
				for o in &list {
					check(o.request_id() != id, "the ID of a new request is not used by an open one");
				}
				for o in &unread {
					check(*o != id, "the ID of a new request is not used by an open one");
				}
				list.push(r);
				cover("request");
			},
			1 => {
				// The future that sends a request is dropped early.
				let mut j = Job::new(h.send_request(4, vec![2]));
				j.step();
				j.cancel();
				drop(j);
				w.go();
				for m in w.sent() {
					check(m.kind == REQUEST && m.service == 4 && same(&m.body, &[2]), "an abandoned request is sent completely or not at all");
					for o in &list {
						check(o.request_id() != m.id, "the ID of an abandoned request is not used by an open one");
					}
					for o in &unread {
						check(*o != m.id, "the ID of an abandoned request is not used by an open one");
					}
					cover("abandoned");
				}
			},
			3 if !list.is_empty() => {
				// The handle is dropped before the answer.
				let k = choose(list.len(), "which");
				unread.push(list.remove(k).request_id());
				w.go();
				cover("dropped");
			},
			2 if !unread.is_empty() && flag("unread") => {
				let k = choose(unread.len(), "which");
				let a = any(RESPONSE, unread.remove(k));
				w.receive(&a);
				quiet(&mut h);
				cover("unread");
			},
			2 if !list.is_empty() => {
				let k = choose(list.len(), "which");
				let mut r = list.remove(k);
				let a = any(RESPONSE, r.request_id());
				w.receive(&a);
				is_ok(now(r.recv_response()), &a, "the response is received by its request");
				cover("response");
			},
			_ => {
				// Everything is still open.
				for o in list.iter_mut() {
					check(now(o.recv_update()).is_none(), "an open request stays open");
				}
			},
		}
	}
	for mut o in list {
		let a = any(RESPONSE, o.request_id());
		w.receive(&a);
		is_ok(now(o.recv_response()), &a, "the response is received by its request");
	}
	quiet(&mut h);
	w.nothing_sent();
	cover("end");
}

pub fn history_plain() {
	history(5, false)
}
pub fn history_jump() {
	history(3, true)
}
pub fn history_jump_four() {
	history(4, true)
}

/// A new request starts its search inside a block of open ones.
pub fn block() {
	let n = 5;
	let (mut w, h) = world();
	next_id(u32v("start"));
	let mut list: Vec<Sent> = vec![];
	for _ in 0..n {
		list.push(open(&mut w, &h, 1, vec![]));
		wire_id(&mut w, 1, &[]);
	}
	for a in 0..n {
		for b in 0..a {
			check(list[a].request_id() != list[b].request_id(), "open requests have different IDs");
		}
	}
	let k = choose(n, "which");
	if next_id(list[k].request_id()) {
		cover("again");
	}
	let r = open(&mut w, &h, 1, vec![]);
	check(wire_id(&mut w, 1, &[]) == r.request_id(), "the handle knows the ID on the wire");
	for o in &list {
		check(o.request_id() != r.request_id(), "the ID of a new request is not used by an open one");
	}
	list.push(r);
	for mut o in list {
		let a = any(RESPONSE, o.request_id());
		w.receive(&a);
		is_ok(now(o.recv_response()), &a, "the response is received by its request");
	}
	cover("end");
}

/// So many open requests that no free ID is found.
pub fn exhausted() {
	let n = 102;
	let (mut w, h) = world();
	let start = [0u32, u32::MAX - 50][choose(2, "start")];
	next_id(start);
	let mut list: Vec<Sent> = vec![];
	for _ in 0..n {
		list.push(open(&mut w, &h, 1, vec![]));
	}
	w.sent();
	let first = list[0].request_id();
	if next_id(first.wrapping_add(range(0, 1, "next") as u32)) {
		cover("again");
	}
	match w.wait(h.send_request(1, vec![])) {
		Ok(r) => {
			check(wire_id(&mut w, 1, &[]) == r.request_id(), "the handle knows the ID on the wire");
			for o in &list {
				check(o.request_id() != r.request_id(), "the ID of a new request is not used by an open one");
			}
		},
		Err(_) => w.nothing_sent(),
	}
	check(!w.peer.done(), "the peer keeps running");
	// The old requests are not disturbed.
	let k = [0, n / 2, n - 1][choose(3, "which")];
	let a = any(RESPONSE, list[k].request_id());
	w.receive(&a);
	is_ok(now(list[k].recv_response()), &a, "the response is received by its request");
	let k = if k == 0 { 1 } else { 0 };
	check(now(list[k].recv_update()).is_none(), "other requests stay open");
	cover("end");
}
