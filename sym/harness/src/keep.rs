//! Nothing is kept of what is finished.
use crate::peer::*;
use crate::rt::*;
use crate::serve::{All, Event, Front};
use crate::sim::*;
use crate::world::*;
use fizyr_rpc::transport::Endian;
use fizyr_rpc::{Listener, ReceivedMessage};
use tokio::net::UnixListener;

const KINDS: usize = 15;

/// A connection is used and everything about it is finished again.
fn round(w: &mut World, h: &mut Handle, kind: usize, id: u32, v: u8) {
	match kind {
		0 => {
			// A request with its response.
			let mut r = open(w, h, 1, vec![v]);
			w.receive(&msg(RESPONSE, r.request_id(), 1, &[v]));
			check(now(r.recv_response()).is_some_and(|x| x.is_ok()), "a response is received");
		},
		1 => {
			// What arrived is not received.
			let r = open(w, h, 1, vec![v]);
			let x = r.write_handle();
			w.receive(&msg(RESPONDER_UPDATE, r.request_id(), 1, &[v]));
			w.receive(&msg(RESPONSE, r.request_id(), 1, &[v]));
			drop(r);
			check(w.wait(x.send_update(1, vec![v])).is_err(), "nothing is sent after the response");
		},
		2 => check(w.wait(h.send_request(1, vec![v; 65])).is_err(), "a body above the limit is refused"),
		3 | 4 => {
			// Abandoned, before or after it was sent.
			{
				let mut j = Job::new(h.send_request(1, vec![v]));
				j.step();
				if kind == 3 {
					j.cancel();
				}
				w.go();
			}
			for m in w.sent() {
				w.receive(&msg(RESPONSE, m.id, 1, &[v]));
				// It may not be known any more.
				now(h.recv_message());
			}
		},
		5 => {
			// An incoming request is answered, too often.
			let r = incoming(w, h, &msg(REQUEST, id, 1, &[v]));
			let x = r.write_handle();
			w.receive(&msg(REQUESTER_UPDATE, id, 1, &[v]));
			check(w.wait(r.send_update(1, vec![v])).is_ok(), "an update is sent");
			check(w.wait(r.send_response(1, vec![v])).is_ok(), "a response is sent");
			check(w.wait(x.send_response(1, vec![v])).is_err(), "nothing is sent after the response");
		},
		6 => {
			// An incoming request is dropped and the remote side goes on.
			drop(incoming(w, h, &msg(REQUEST, id, 1, &[v])));
			w.receive(&msg(REQUESTER_UPDATE, id, 1, &[v]));
			gets_error(h);
		},
		7 => {
			w.receive(&msg(STREAM, id, 1, &[v]));
			check(matches!(now(h.recv_message()), Some(Ok(ReceivedMessage::Stream(_)))), "a stream message is received");
		},
		8 => {
			for kind in [RESPONSE, RESPONDER_UPDATE, REQUESTER_UPDATE] {
				w.receive(&msg(kind, id | 0x8000_0000, 1, &[v]));
				gets_error(h);
			}
		},
		9 => {
			quiet(h);
			drop(h.close_handle());
		},
		10 => {
			check(w.wait(h.send_stream(1, vec![v])).is_ok(), "a message is sent");
			check(w.wait(h.send_stream(1, vec![v; 65])).is_err(), "a body above the limit is refused");
			let mut j = Job::new(h.send_stream(1, vec![v]));
			j.step();
			j.cancel();
			w.go();
		},
		11 => {
			// The response is sent by a clone, the handle is dropped before, and the ID comes again.
			let r = incoming(w, h, &msg(REQUEST, id, 1, &[v]));
			let x = r.write_handle().clone();
			drop(r);
			check(w.wait(x.send_error_response("no")).is_ok(), "a response is sent");
			let r = incoming(w, h, &msg(REQUEST, id, 1, &[v]));
			check(w.wait(r.send_response(1, vec![v])).is_ok(), "a response is sent");
		},
		12 => {
			// A request is dropped and the remote side goes on.
			let r = open(w, h, 1, vec![v]);
			let id = r.request_id();
			drop(r);
			w.receive(&msg(RESPONDER_UPDATE, id, 1, &[v]));
			w.receive(&msg(RESPONSE, id, 1, &[v]));
			while now(h.recv_message()).is_some() {}
		},
		13 => {
			// Given up before it was sent, and never answered.
			let mut j = Job::new(h.send_request(1, vec![v]));
			j.step();
			j.cancel();
			w.go();
		},
		_ => {
			// A receive is cancelled.
			let mut r = open(w, h, 1, vec![v]);
			{
				let mut j = Job::new(r.recv_response());
				j.step();
				j.cancel();
			}
			w.receive(&msg(RESPONDER_UPDATE, r.request_id(), 1, &[v]));
			check(now(r.recv_response()).is_some_and(|x| x.is_err()), "an update is not a response");
			check(now(r.recv_update()).is_some_and(|x| x.is_some()), "an update is received");
			w.receive(&msg(RESPONSE, r.request_id(), 1, &[v]));
		},
	}
	w.go();
	clear(w);
}

/// Forget what the harness knows.
fn clear(w: &mut World) {
	let io = w.sim.io();
	check(io.pos == io.input.len(), "everything is read");
	io.input.clear();
	io.pos = 0;
	io.output.clear();
	w.seen = 0;
}

const WARM: u32 = 64;
const MORE: u32 = 128;

fn rounds(n: usize) {
	let (mut w, mut h) = world();
	let kinds: Vec<usize> = (0..n).map(|_| choose(KINDS, "kind")).collect();
	let (id, v) = (u32v("id") & 0xffff, u8v("value"));
	let mut before = 0;
	for k in 0..WARM + MORE {
		if k == WARM {
			before = used();
		}
		for kind in &kinds {
			round(&mut w, &mut h, *kind, id + k, v);
		}
	}
	// Less than the smallest thing that could be kept of each round.
	check(used() < before + 8 * MORE as usize, "nothing is kept of what is finished");
	cover("end");
}

pub fn rounds_one() {
	rounds(1)
}

pub fn rounds_two() {
	rounds(2)
}

/// Nobody receives, and messages arrive.
pub fn unread() {
	let (mut w, h) = world();
	let (r, x) = h.split();
	drop(r);
	w.go();
	let kind = choose(4, "kind");
	let (id, v) = (u32v("id"), u8v("value"));
	let mut before = 0;
	for k in 0..WARM + MORE {
		if k == WARM {
			before = used();
		}
		w.receive(&match kind {
			0 => msg(REQUEST, id.wrapping_add(k), 1, &[v]),
			1 => msg(REQUEST, id, 1, &[v]),
			2 => msg(STREAM, id, 1, &[v]),
			_ => msg(RESPONSE, id, 1, &[v]),
		});
		check(w.wait(x.send_stream(1, vec![v])).is_ok(), "a message is sent");
		clear(&mut w);
	}
	check(used() < before + 8 * MORE as usize, "nothing is kept of what can not be received");
	cover("end");
}

/// A connection with everything open, and its end.
fn one(order: usize, end: usize, v: u8) {
	let (mut w, mut h) = world();
	let a = open(&mut w, &h, 1, vec![v]);
	let b = open(&mut w, &h, 1, vec![v]);
	w.receive(&msg(RESPONDER_UPDATE, a.request_id(), 1, &[v]));
	w.receive(&msg(RESPONSE, b.request_id(), 1, &[v]));
	let c = incoming(&mut w, &mut h, &msg(REQUEST, 1, 1, &[v]));
	w.receive(&msg(REQUESTER_UPDATE, 1, 1, &[v]));
	w.receive(&msg(REQUEST, 2, 1, &[v]));
	w.receive(&msg(STREAM, 3, 1, &[v]));
	let (aw, cw) = (a.write_handle(), c.write_handle());
	let mut j = Job::new(async move {
		let _ = aw.send_update(1, vec![1]).await;
	});
	let mut k = Job::new(async move {
		let _ = cw.send_update(1, vec![1]).await;
	});
	w.sim.io().sticky = true;
	w.sim.io().write_steps = 1;
	j.step();
	w.go();
	k.step();
	match end {
		0 => w.end(End::Eof),
		1 => w.end(End::Reset),
		2 => h.close_handle().close(),
		3 => w.peer.cancel(),
		_ => (),
	}
	w.sim.io().sticky = false;
	w.sim.fire();
	match order {
		0 => {
			w.go();
			j.go();
			k.go();
			drop((a, b, c, h));
		},
		1 => {
			drop((j, k, h));
			w.go();
			drop((c, b, a));
		},
		_ => {
			drop((a, b, c, h));
			w.go();
			drop((j, k));
		},
	}
	w.go();
	if end < 3 || order > 0 {
		check(end == 3 || w.peer.done(), "a peer without handles ends");
	}
}

/// Nothing is left of a connection.
pub fn all() {
	let (order, end, v) = (choose(3, "order"), choose(5, "end"), u8v("value"));
	one(order, end, v);
	let before = used();
	one(order, end, v);
	check(used() == before, "nothing is left of a connection");
	cover("end");
}

/// Connections come and go.
pub fn listener() {
	let n = 24;
	let run = flag("run");
	let by = choose(3, "end");
	let sims: Vec<Sim> = (0..2 * n).map(|_| Sim::new(vec![], End::Pending, 0, 0)).collect();
	let mut events = vec![];
	for s in &sims {
		s.io().info = (by != 2).then_some([1, 2, 3]);
		events.push(Event::Connection(s.clone()));
		events.push(Event::Pause);
	}
	let front = Front::new(events);
	let mut l = Listener::new(UnixListener::from_io(Box::new(front.clone())), crate::stream::config(4, 4, Endian::LittleEndian));
	let mut tasks = All::new();
	tasks.tasks.reserve(16);
	let mut before = 0;
	let after;
	let finish = |sim: &Sim, tasks: &mut All| {
		tasks.run(&mut 0);
		end(sim, [End::Eof, End::Reset, End::Eof][by]);
		tasks.run(&mut 0);
		check(sim.io().closed, "a connection is closed when it ends");
		tasks.tasks.retain(|t| t.pending());
		check(tasks.tasks.is_empty(), "nothing runs for a connection that has ended");
	};
	if run {
		let mut server = Task::new(l.run(|mut h, _| async move {
			while h.recv_message().await.is_ok() {}
		}));
		for (k, s) in sims.iter().enumerate() {
			if k == n {
				before = used();
			}
			check(server.run().is_none(), "a server goes on");
			finish(s, &mut tasks);
			front.wake();
		}
		after = used();
	} else {
		for (k, s) in sims.iter().enumerate() {
			if k == n {
				before = used();
			}
			let mut t = Task::new(l.accept());
			let mut out = t.run();
			if out.is_none() {
				front.wake();
				out = t.run();
			}
			check(out.as_ref().is_some_and(|x| x.is_ok() == (by != 2)), "a connection is accepted");
			drop(out);
			drop(t);
			finish(s, &mut tasks);
		}
		after = used();
	}
	check(after < before + 8 * n, "nothing is left of connections that have ended");
	cover("end");
}
