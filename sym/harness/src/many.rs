//! Long histories: more messages, requests, handles and connections than any fixed capacity hidden in the
//! implementation is likely to hold.  Few values are arbitrary here; the short histories cover those.
use crate::peer::*;
use crate::rt::*;
use crate::sim::*;
use crate::stream::config;
use crate::world::*;
use fizyr_rpc::transport::Endian;
use fizyr_rpc::{Peer, ReceivedMessage, UnixStreamTransport};

/// Spread over all IDs.
fn spread(k: usize) -> u32 {
	(k as u32).wrapping_mul(0x9e37_79b1) ^ 0x1234
}

fn is_stream(x: Option<Result<ReceivedMessage<Body>, fizyr_rpc::Error>>, m: &Msg, label: &str) {
	match x {
		Some(Ok(ReceivedMessage::Stream(x))) => check(m.is(&x), label),
		_ => check(false, label),
	}
}

fn is_request(x: Option<Result<ReceivedMessage<Body>, fizyr_rpc::Error>>, m: &Msg, label: &str) -> Received {
	match x {
		Some(Ok(ReceivedMessage::Request(r, b))) => {
			check(r.request_id() == m.id && r.service_id() as u32 == m.service && same(&b.data, &m.body), label);
			r
		},
		_ => {
			check(false, label);
			done()
		},
	}
}

/// Everything that arrives waits in order until it is received.
pub fn queued() {
	let n = 1100;
	let (mut w, mut h) = world();
	let mut s = open(&mut w, &h, 1, vec![]);
	let mut r = incoming(&mut w, &mut h, &request(u32v("id")));
	w.sent();
	let at_once = flag("at once");
	let odd = flag("odd");
	let (b, sid) = (u8v("body"), u32v("service"));
	let (mut updates, mut requester, mut messages) = (vec![], vec![], vec![]);
	for k in 0..n {
		let service = if k % 100 == 7 { sid } else { k as u32 };
		updates.push(msg(RESPONDER_UPDATE, s.request_id(), service, &[b]));
		requester.push(msg(REQUESTER_UPDATE, r.request_id(), service, &[]));
		messages.push(msg(STREAM, k as u32, service, &[b]));
		// Uneven mixtures.
		if odd && k % 3 == 0 {
			w.feed(&requester[k]);
			w.feed(&messages[k]);
			w.feed(&updates[k]);
		} else {
			w.feed(&updates[k]);
			w.feed(&requester[k]);
			w.feed(&messages[k]);
		}
		if !at_once {
			w.go();
		}
	}
	let a = any(RESPONSE, s.request_id());
	w.receive(&a);
	check(w.sim.io().pos == w.sim.io().input.len(), "everything that arrives is taken");
	for m in &updates {
		is(now(s.recv_update()), m, "updates are received in order, once");
	}
	check(now(s.recv_update()).is_some_and(|x| x.is_none()), "no update when the response is next");
	is_ok(now(s.recv_response()), &a, "the response is received after the updates");
	for m in &requester {
		is(now(r.recv_update()), m, "updates are received in order, once");
	}
	check(now(r.recv_update()).is_none(), "nothing else is received");
	for m in &messages {
		is_stream(now(h.recv_message()), m, "messages are received in order, once");
	}
	quiet(&mut h);
	w.nothing_sent();
	check(!w.peer.done(), "the peer keeps running");
	cover("end");
}

/// Many messages arrive and many sends wait while the stream takes no more.
pub fn stalled() {
	let n = 1100;
	let (mut w, mut h) = world();
	let mut s = open(&mut w, &h, 1, vec![]);
	w.sent();
	let at = choose(18, "at");
	let start = w.sim.io().output.len();
	w.sim.io().write_cuts = vec![start + at];
	w.sim.io().sticky = true;
	let (rh, wh) = h.split();
	let mut jobs: Vec<Job<_>> = (0..40).map(|k| Job::new(wh.send_stream(k, vec![1, 2]))).collect();
	for j in &mut jobs {
		j.step();
	}
	w.go();
	let mut rh = rh;
	let (b, id) = (u8v("body"), u32v("id"));
	for k in 0..n {
		w.receive(&msg(STREAM, id, k as u32, &[b]));
		w.receive(&msg(RESPONDER_UPDATE, s.request_id(), k as u32, &[b]));
		if k < 60 {
			w.receive(&msg(REQUEST, spread(k), k as u32, &[]));
		}
	}
	check(w.sim.io().pos == w.sim.io().input.len(), "incoming messages are taken while a write is stalled");
	check(w.sim.io().output.len() == start + at, "the stream takes no more");
	for j in &jobs {
		check(!j.done(), "a send waits for the stream");
	}
	w.sim.io().sticky = false;
	w.sim.fire();
	for j in &mut jobs {
		settle(&mut [&mut w.peer, j]);
		check(matches!(j.out, Some(Ok(()))), "every send completes when the stream is ready again");
	}
	let sent = w.sent();
	check(sent.len() == 40, "every message is sent once");
	for (k, m) in sent.iter().enumerate() {
		check(m.eq(&msg(STREAM, 0, k as u32, &[1, 2])), "messages are sent in order");
	}
	let mut keep = vec![];
	for k in 0..n {
		is_stream(now(rh.recv_message()), &msg(STREAM, id, k as u32, &[b]), "messages are received, in order");
		is(now(s.recv_update()), &msg(RESPONDER_UPDATE, s.request_id(), k as u32, &[b]), "updates are received, in order");
		if k < 60 {
			keep.push(is_request(now(rh.recv_message()), &msg(REQUEST, spread(k), k as u32, &[]), "requests are received, in order"));
		}
	}
	cover("end");
}

fn pair(room: usize) -> ((Job<'static, ()>, Handle), (Job<'static, ()>, Handle)) {
	let (a, b) = connected(room, 0);
	let make = |s| {
		let (p, h) = Peer::new(UnixStreamTransport::new(s, config(64, 64, Endian::LittleEndian)));
		(Job::new(p.run()), h)
	};
	(make(a), make(b))
}

/// Many requests, updates and stream messages between two peers.
pub fn exchange() {
	let n = 150;
	let room = [1, 7, 16, 100, 100_000][choose(5, "room")];
	let ((mut pa, ha), (mut pb, mut hb)) = pair(room);
	let b = u8v("body");
	let mut ja = Job::new(async move {
		let mut open = vec![];
		for k in 0..n {
			let r = ha.send_request(k, vec![b]).await.ok()?;
			r.send_update(k + 1, vec![b]).await.ok()?;
			ha.send_stream(k + 2, vec![b]).await.ok()?;
			open.push(r);
		}
		for (k, r) in open.iter_mut().enumerate() {
			let u = r.recv_update().await?;
			let m = r.recv_response().await.ok()?;
			check(u.header.service_id == k as i32 + 3 && m.header.service_id == k as i32 + 4, "each request gets its own messages");
			check(u.header.request_id == r.request_id() && m.header.request_id == r.request_id(), "each request gets its own messages");
			check(same(&u.body.data, &[b]) && same(&m.body.data, &[b]), "messages arrive unchanged");
		}
		Some(())
	});
	let last_first = flag("last first");
	let mut jb = Job::new(async move {
		let mut open = vec![];
		for k in 0..n {
			match hb.recv_message().await {
				Ok(ReceivedMessage::Request(mut r, x)) => {
					check(r.service_id() == k && same(&x.data, &[b]), "requests arrive in order");
					let u = r.recv_update().await?;
					check(u.header.service_id == k + 1 && same(&u.body.data, &[b]), "an update arrives at its request");
					open.push(r);
				},
				_ => check(false, "messages arrive in the order they are sent"),
			}
			match hb.recv_message().await {
				Ok(ReceivedMessage::Stream(m)) => check(m.header.service_id == k + 2 && same(&m.body.data, &[b]), "stream messages arrive in order"),
				_ => check(false, "messages arrive in the order they are sent"),
			}
		}
		if last_first {
			open.reverse();
		}
		for r in &open {
			r.send_update(r.service_id() + 3, vec![b]).await.ok()?;
			r.send_response(r.service_id() + 4, vec![b]).await.ok()?;
		}
		let _ = hb.recv_message().await;
		Some(())
	});
	explore_n(&mut [&mut ja, &mut pa, &mut pb, &mut jb], 2);
	check(ja.out == Some(Some(())), "the exchange completes");
	check(jb.out == Some(Some(())), "the other side completes");
	check(pa.done() && pb.done(), "both peers stop when a side is done");
	cover("end");
}

/// Both sides send a lot before they receive anything.
pub fn flood() {
	let n = 400;
	let room = [1, 16, 1000][choose(3, "room")];
	let ((mut pa, ha), (mut pb, hb)) = pair(room);
	let b = u8v("body");
	let side = |mut h: Handle| async move {
		for k in 0..n {
			if h.send_stream(k, vec![b; 5]).await.is_err() {
				return None;
			}
		}
		for k in 0..n {
			match h.recv_message().await {
				Ok(ReceivedMessage::Stream(m)) => check(m.header.service_id == k && same(&m.body.data, &[b; 5]), "messages arrive as sent, in order"),
				_ => return None,
			}
		}
		Some(h)
	};
	let mut ja = Job::new(side(ha));
	let mut jb = Job::new(side(hb));
	explore_n(&mut [&mut ja, &mut pa, &mut pb, &mut jb], 2);
	for j in [ja, jb] {
		match j.out {
			Some(h) => check(h.is_some(), "no operation fails"),
			None => check(false, "two sides that both send do not block each other"),
		}
	}
	cover("end");
}

/// Many sends at once.
pub fn sends() {
	let n = 300;
	let (mut w, h) = world();
	let (_rh, wh) = h.split();
	let b = u8v("body");
	let cancelled = choose(4, "cancelled");
	let mut jobs: Vec<Job<_>> = (0..n).map(|k| Job::new(wh.send_stream(k as i32, vec![b]))).collect();
	for j in &mut jobs {
		j.step();
		check(!j.done(), "nothing is sent without the peer");
	}
	// Some tasks are stopped before the peer runs.
	for (k, j) in jobs.iter_mut().enumerate() {
		if cancelled > 0 && k % 4 == cancelled {
			j.cancel();
		}
	}
	w.go();
	let mut sent = w.sent().into_iter();
	let mut next = sent.next();
	for (k, j) in jobs.iter_mut().enumerate() {
		if j.task.pending() {
			j.go();
			check(matches!(j.out, Some(Ok(()))), "every send completes");
			check(next.as_ref().is_some_and(|m| m.eq(&msg(STREAM, 0, k as u32, &[b]))) , "each message is sent once, in order");
			next = sent.next();
		} else if next.as_ref().is_some_and(|m| m.service == k as u32) {
			// A send that was dropped may still happen, completely.
			check(next.as_ref().is_some_and(|m| m.eq(&msg(STREAM, 0, k as u32, &[b]))) , "each message is sent once, in order");
			next = sent.next();
		}
	}
	check(next.is_none(), "each message is sent once");
	check(w.seen == w.sim.io().output.len(), "whole messages are sent");
	cover("end");
}

/// Many requests are open in both directions; an arbitrary message arrives.
pub fn route() {
	let n = 60;
	let (mut w, mut h) = world();
	let mut sent: Vec<Sent> = vec![];
	let mut received: Vec<Received> = vec![];
	for k in 0..n {
		let r = open(&mut w, &h, k as i32, vec![]);
		check(sent.iter().all(|s| s.request_id() != r.request_id()), "open requests have different IDs");
		sent.push(r);
		received.push(incoming(&mut w, &mut h, &msg(REQUEST, spread(k), k as u32, &[])));
	}
	w.sent();
	let kind = choose(5, "kind") as u32;
	let m = any(kind, u32v("id"));
	w.receive(&m);
	let mut target = None;
	match kind {
		STREAM => is_stream(now(h.recv_message()), &m, "a stream message is delivered"),
		REQUEST => {
			if received.iter().any(|r| r.request_id() == m.id) {
				gets_error(&mut h);
				cover("duplicate request");
			} else {
				received.push(is_request(now(h.recv_message()), &m, "a request with a free ID is delivered"));
				cover("request");
			}
		},
		REQUESTER_UPDATE => match received.iter_mut().find(|r| r.request_id() == m.id) {
			Some(r) => is(now(r.recv_update()), &m, "an update goes to its request"),
			None => gets_error(&mut h),
		},
		_ => match sent.iter().position(|s| s.request_id() == m.id) {
			Some(k) if kind == RESPONSE => {
				is_ok(now(sent[k].recv_response()), &m, "a response goes to its request");
				target = Some(k);
				cover("response");
			},
			Some(k) => is(now(sent[k].recv_update()), &m, "an update goes to its request"),
			None => gets_error(&mut h),
		},
	}
	w.nothing_sent();
	quiet(&mut h);
	for (k, s) in sent.iter_mut().enumerate() {
		let u = now(s.recv_update());
		check(if Some(k) == target { u.is_some_and(|x| x.is_none()) } else { u.is_none() }, "a request only gets its own messages");
	}
	for r in &mut received {
		check(now(r.recv_update()).is_none(), "a request only gets its own messages");
	}
	// All of them can still be answered.
	for r in &received {
		check(w.wait(r.send_response(2, vec![])).is_ok(), "an open request can be answered");
		check(w.sent_one().eq(&msg(RESPONSE, r.request_id(), 2, &[])), "the response is sent");
	}
	for (k, s) in sent.iter_mut().enumerate() {
		if Some(k) != target {
			let a = msg(RESPONSE, s.request_id(), k as u32, &[]);
			w.receive(&a);
			is_ok(now(s.recv_response()), &a, "a response goes to its request");
		}
	}
	cover("end");
}

/// Many handles of one request answer it.
pub fn responders() {
	let n = 100;
	let (mut w, mut h) = world();
	let q = request(u32v("id"));
	let mut r = incoming(&mut w, &mut h, &q);
	let list: Vec<_> = (0..n).map(|_| r.write_handle()).collect();
	let first = concrete(range(0, n - 1, "first")) as usize;
	let updates = flag("updates");
	let mut jobs: Vec<Job<_>> = vec![];
	for k in 0..n as usize {
		let k = (k + first) % n as usize;
		let x = &list[k];
		jobs.push(Job::new(async move {
			if updates {
				let _ = x.send_update(1, vec![]).await;
			}
			x.send_response(k as i32, vec![]).await.is_ok()
		}));
	}
	for j in &mut jobs {
		j.step();
	}
	for _ in 0..2 {
		w.go();
		for j in &mut jobs {
			j.go();
		}
	}
	check(jobs.iter().all(|j| j.done()), "every send completes");
	check(jobs.iter().filter(|j| j.out == Some(true)).count() == 1, "exactly one response is accepted");
	let winner = jobs.iter().position(|j| j.out == Some(true)).unwrap_or(0);
	drop(jobs);
	let sent = w.sent();
	check(sent.iter().filter(|m| m.kind == RESPONSE).count() == 1, "exactly one response is sent");
	let last = sent.last().unwrap();
	check(last.eq(&msg(RESPONSE, q.id, ((winner + first) % n as usize) as u32, &[])), "nothing follows the response, and it is the accepted one");
	check(now(r.recv_update()).is_some_and(|x| x.is_none()), "no update after the response");
	for x in &list {
		check(w.wait(x.send_response(1, vec![])).is_err(), "a request cannot be answered twice");
	}
	w.nothing_sent();
	// The ID can be used again.
	let r2 = incoming(&mut w, &mut h, &msg(REQUEST, q.id, 1, &[]));
	drop(list);
	check(w.wait(r2.send_response(2, vec![3])).is_ok(), "the new request can be answered");
	check(w.sent_one().eq(&msg(RESPONSE, q.id, 2, &[3])), "the new request is answered");
	cover("end");
}

/// Many requests nobody receives, all waiting when the read handle goes, or after that.
pub fn unread() {
	let n = 200;
	let (mut w, h) = world();
	let (rh, wh) = h.split();
	let before = flag("before");
	let one_by_one = flag("one by one");
	let id = u32v("id");
	let mut rh = Some(rh);
	if before {
		drop(rh.take());
		w.go();
	}
	for k in 0..n {
		w.feed(&msg(REQUEST, id.wrapping_add(k), 1, &[]));
		if one_by_one && before {
			w.go();
		}
	}
	drop(rh.take());
	w.go();
	let sent = w.sent();
	check(w.seen == w.sim.io().output.len(), "whole messages are sent");
	check(sent.len() == n as usize, "every request nobody can receive is answered once");
	for (k, a) in sent.iter().enumerate() {
		check(a.kind == RESPONSE && a.id == id.wrapping_add(k as u32) && a.service == u32::MAX, "a request nobody can receive is answered with an error");
	}
	check(w.wait(wh.send_stream(3, vec![9])).is_ok(), "the write handle still works");
	check(w.sent_one().eq(&msg(STREAM, 0, 3, &[9])), "the message is sent");
	check(!w.peer.done(), "the peer keeps running");
	cover("end");
}

/// The connection ends with much going on.
pub fn ends() {
	let n = 100;
	let (mut w, mut h) = world();
	let (mut sent, mut received) = (vec![], vec![]);
	for k in 0..n {
		sent.push(open(&mut w, &h, k as i32, vec![]));
		received.push(incoming(&mut w, &mut h, &msg(REQUEST, spread(k), k as u32, &[])));
	}
	w.sent();
	let (mut rh, wh) = h.split();
	let b = u8v("body");
	for k in 0..n {
		w.feed(&msg(RESPONDER_UPDATE, sent[k].request_id(), k as u32, &[b]));
		w.feed(&msg(REQUESTER_UPDATE, spread(k), k as u32, &[b]));
		w.feed(&msg(STREAM, k as u32, k as u32, &[b]));
	}
	let how = choose(5, "how");
	let waiting: Vec<_> = received.iter().map(|r| r.write_handle()).collect();
	let mut sends: Vec<Job<_>> = waiting.iter().map(|x| Job::new(x.send_update(4, vec![]))).collect();
	match how {
		0 => w.end(End::Eof),
		1 => w.end(End::Reset),
		_ => {
			w.go();
			w.sent();
			for j in &mut sends {
				j.step();
			}
			match how {
				2 => wh.close(),
				3 => rh.close(),
				_ => w.peer.cancel(),
			}
		},
	}
	w.go();
	check(!w.peer.task.pending() && w.sim.io().closed, "the peer stops when the connection has ended");
	for k in 0..n {
		is_stream(now(rh.recv_message()), &msg(STREAM, k as u32, k as u32, &[b]), "a message that arrived before the end is received");
		is(now(sent[k].recv_update()), &msg(RESPONDER_UPDATE, sent[k].request_id(), k as u32, &[b]), "an update that arrived before the end is received");
		is(now(received[k].recv_update()), &msg(REQUESTER_UPDATE, spread(k), k as u32, &[b]), "an update that arrived before the end is received");
	}
	if how == 1 {
		check(now(rh.recv_message()).is_some_and(|x| x.is_err_and(|e| !e.is_connection_aborted())), "the failure of the connection is reported");
	}
	for _ in 0..3 {
		check(now(rh.recv_message()).is_some_and(|x| x.is_err_and(|e| e.is_connection_aborted())), "the end of the connection is reported");
	}
	for k in 0..n {
		check(now(sent[k].recv_update()).is_some_and(|x| x.is_none()), "a waiting requester is told that the connection has ended");
		check(now(sent[k].recv_response()).is_some_and(|x| x.is_err_and(|e| e.is_connection_aborted())), "a missing response is reported as aborted connection");
		check(now(received[k].recv_update()).is_some_and(|x| x.is_none()), "a waiting responder is told that the connection has ended");
	}
	let mut ok = 0;
	for j in &mut sends {
		j.step();
		j.go();
		match &j.out {
			Some(r) => ok += r.is_ok() as usize,
			None => check(false, "a send ends when the connection has ended"),
		}
	}
	check(w.sent().len() >= ok, "a message reported as sent is sent");
	check(now(wh.send_request(1, vec![])).is_some_and(|x| x.is_err()), "sending fails at once when the connection has ended");
	cover("end");
}

/// Many messages that do not fit.
pub fn too_large() {
	let n = 150;
	let (mut w, mut h) = world_with(64, 2);
	let r = incoming(&mut w, &mut h, &request(u32v("id")));
	let mut s = open(&mut w, &h, 1, vec![]);
	w.sent();
	let b = u8v("body");
	let what = choose(6, "what");
	for k in 0..n {
		let body = vec![b & 0x7f; 3 + k % 5];
		let ok = match if what == 5 { k % 5 } else { what } {
			0 => w.wait(h.send_stream(1, body)).is_ok(),
			1 => w.wait(h.send_request(1, body)).is_ok(),
			2 => w.wait(s.send_update(1, body)).is_ok(),
			3 => w.wait(r.send_update(1, body)).is_ok(),
			_ => w.wait(r.send_response(1, body)).is_ok(),
		};
		check(!ok, "a message that does not fit is refused");
		w.nothing_sent();
	}
	check(w.seen == w.sim.io().output.len(), "nothing of a refused message is sent");
	check(!w.peer.done(), "a message that does not fit does not end the connection");
	quiet(&mut h);
	// A refused request is not open.
	let stray = msg(RESPONSE, u32v("stray"), 1, &[]);
	assume(stray.id != s.request_id());
	w.receive(&stray);
	gets_error(&mut h);
	let a = any(RESPONSE, s.request_id());
	w.receive(&a);
	is_ok(now(s.recv_response()), &a, "the response is received");
	check(w.wait(r.send_response(1, vec![b, b])).is_ok(), "an open request can be answered");
	check(w.sent_one().eq(&msg(RESPONSE, r.request_id(), 1, &[b, b])), "the response is sent");
	cover("end");
}

/// Many handles.
pub fn clones() {
	let n = 600;
	let (mut w, h) = world();
	let (rh, wh) = h.split();
	drop(rh);
	let mut list = vec![wh];
	for k in 1..n {
		let c = list[if k % 2 == 0 { 0 } else { k - 1 }].clone();
		list.push(c);
	}
	w.go();
	// They go in some order, one stays.
	let stays = [0, 1, n / 2, n - 1][choose(4, "stays")];
	let last = list.swap_remove(stays);
	let backwards = flag("backwards");
	while !list.is_empty() {
		drop(if backwards { list.pop().unwrap() } else { list.swap_remove(0) });
		if list.len() % 64 < 2 {
			w.go();
			check(!w.peer.done(), "the peer runs while there is a handle");
		}
	}
	w.go();
	check(!w.peer.done() && !w.sim.io().closed, "the peer runs while there is a handle");
	check(w.wait(last.send_stream(1, vec![])).is_ok(), "a handle can be used while it exists");
	drop(last);
	w.go();
	check(w.peer.done() && w.sim.io().closed, "the peer stops without handles");
	cover("end");
}

/// Many messages that belong to nothing.
pub fn stray() {
	let n = 400;
	let (mut w, mut h) = world();
	let mut s = open(&mut w, &h, 1, vec![]);
	let mut r = incoming(&mut w, &mut h, &request(7));
	w.sent();
	let (rh, wh) = h.split();
	let mut rh = Some(rh);
	if flag("unread") {
		drop(rh.take());
	}
	let what = choose(4, "what");
	let b = u8v("body");
	for k in 0..n {
		let kind = [RESPONSE, RESPONDER_UPDATE, REQUESTER_UPDATE][(what + k * (what == 3) as usize) % 3];
		let id = if kind == REQUESTER_UPDATE { 8 + k as u32 } else { s.request_id().wrapping_add(1 + k as u32) };
		w.receive(&msg(kind, id, k as u32, &[b]));
	}
	check(!w.peer.done(), "nothing the remote side sends in valid frames ends the connection");
	check(w.sim.io().pos == w.sim.io().input.len(), "everything that arrives is taken");
	if let Some(rh) = &mut rh {
		for _ in 0..n {
			check(now(rh.recv_message()).is_some_and(|x| x.is_err_and(|e| !e.is_connection_aborted())), "each invalid message is reported");
		}
		check(now(rh.recv_message()).is_none(), "each invalid message is reported once");
	}
	w.nothing_sent();
	let u = any(REQUESTER_UPDATE, 7);
	w.receive(&u);
	is(now(r.recv_update()), &u, "an update goes to its request");
	let a = any(RESPONSE, s.request_id());
	w.receive(&a);
	is_ok(now(s.recv_response()), &a, "the response is received");
	check(w.wait(wh.send_stream(1, vec![])).is_ok(), "the write handle still works");
	cover("end");
}

/// A request is used for long: many updates each way, then the next one and so on.
pub fn rounds() {
	let n = 300;
	let (mut w, mut h) = world();
	let b = u8v("body");
	let base = u32v("id");
	for k in 0..n {
		let mut s = open(&mut w, &h, k as i32, vec![b]);
		check(w.sent_one().eq(&msg(REQUEST, s.request_id(), k, &[b])), "the request is sent");
		let mut r = incoming(&mut w, &mut h, &msg(REQUEST, base, k, &[b]));
		let u = msg(RESPONDER_UPDATE, s.request_id(), k, &[b]);
		w.receive(&u);
		is(now(s.recv_update()), &u, "an update is received");
		check(w.wait(s.send_update(k as i32, vec![b])).is_ok(), "an update is sent");
		check(w.sent_one().eq(&msg(REQUESTER_UPDATE, s.request_id(), k, &[b])), "the update is sent");
		let u = msg(REQUESTER_UPDATE, base, k, &[b]);
		w.receive(&u);
		is(now(r.recv_update()), &u, "an update is received");
		check(w.wait(r.send_update(k as i32, vec![b])).is_ok(), "an update is sent");
		check(w.sent_one().eq(&msg(RESPONDER_UPDATE, base, k, &[b])), "the update is sent");
		let a = msg(RESPONSE, s.request_id(), k, &[b]);
		w.receive(&a);
		is_ok(now(s.recv_response()), &a, "the response is received");
		check(w.wait(r.send_response(k as i32, vec![b])).is_ok(), "the response is sent");
		check(w.sent_one().eq(&msg(RESPONSE, base, k, &[b])), "the response is sent");
		quiet(&mut h);
	}
	check(!w.peer.done(), "the peer keeps running");
	cover("end");
}
