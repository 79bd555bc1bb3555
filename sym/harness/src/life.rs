//! How connections end, and how long peers live.
use crate::peer::*;
use crate::rt::*;
use crate::sim::*;
use crate::world::*;
use fizyr_rpc::{Error, PeerCloseHandle, PeerReadHandle, PeerWriteHandle, ReceivedMessage};

type Rx = PeerReadHandle<Body>;

/// What has been received through the handle of the peer.
enum Got {
	Request(u32),
	Stream(Msg),
	Aborted,
	Other,
}

fn got(x: Result<ReceivedMessage<Body>, Error>, keep: &mut Vec<Received>) -> Got {
	match x {
		Ok(ReceivedMessage::Request(r, _)) => {
			let id = r.request_id();
			keep.push(r);
			Got::Request(id)
		},
		Ok(ReceivedMessage::Stream(m)) => {
			Got::Stream(msg(m.header.message_type as u32, m.header.request_id, m.header.service_id as u32, &m.body.data))
		},
		Err(e) if e.is_connection_aborted() => Got::Aborted,
		Err(_) => Got::Other,
	}
}

async fn drain(mut rh: Rx) -> (Vec<Got>, Rx, Vec<Received>) {
	let mut keep = vec![];
	let mut v = vec![];
	// Until the connection is reported as gone.
	loop {
		let g = got(rh.recv_message().await, &mut keep);
		let last = matches!(g, Got::Aborted);
		v.push(g);
		if last || v.len() > 6 {
			return (v, rh, keep);
		}
	}
}

/// Everything that waits when the connection ends is told so, after everything that arrived before.
fn connection_ends(split: usize) {
	let (mut w, mut h) = world();
	let mut sent = open(&mut w, &h, 1, vec![]);
	let mut sent2 = open(&mut w, &h, 1, vec![]);
	let mut received = incoming(&mut w, &mut h, &request(u32v("id")));
	w.sent();
	let (rh, wh) = h.split();
	let sw = sent.write_handle();
	let rw = received.write_handle();
	let sid = sent.request_id();
	let upd = any(RESPONDER_UPDATE, sid);
	let a = any(RESPONSE, sid);
	let st = any(STREAM, 0);
	let upd2 = any(REQUESTER_UPDATE, received.request_id());
	let script = [&upd, &a, &st, &upd2];
	// What arrives before the end, the last message possibly in part.
	let n = choose(script.len() + 1, "messages");
	let partial = if n < script.len() { [0usize, 1, 15, 16][choose(4, "partial")] } else { 0 };
	w.sim.io().read_steps = split;
	let cause = choose(2, "cause");
	{
		let sim = w.sim.clone();
		for m in &script[..n] {
			feed(&sim, m);
		}
		if partial > 0 {
			let keep = sim.io().input.len();
			feed(&sim, script[n]);
			sim.io().input.truncate(keep + partial);
		}
		end(&sim, [End::Eof, End::Reset][cause]);
	}
	let mut jr = Job::new(drain(rh));
	let mut ju = Job::new(async { (sent.recv_update().await, sent.recv_update().await.is_some(), sent.recv_response().await) });
	let mut j2 = Job::new(sent2.recv_response());
	let mut jq = Job::new(async { (received.recv_update().await, received.recv_update().await.is_some()) });
	let mut wake = Wake(w.sim.clone());
	settle_any(&mut [&mut jr, &mut ju, &mut j2, &mut jq, &mut w.peer, &mut wake]);
	check(w.peer.done(), "the peer stops when the connection has ended");
	check(w.sim.io().closed, "the socket is closed");
	let (list, mut rh, _keep) = match jr.out {
		Some(x) => x,
		None => {
			check(false, "a receiver waiting for messages is told that the connection has ended");
			done()
		},
	};
	let mut it = list.iter();
	if n >= 3 {
		match it.next() {
			Some(Got::Stream(m)) => check(m.eq(&st), "a message that arrived before the end is received"),
			_ => check(false, "a message that arrived before the end is received"),
		}
		cover("stream");
	}
	if cause == 1 {
		check(matches!(it.next(), Some(Got::Other)), "the failure of the connection is reported");
		cover("reset");
	}
	check(matches!(it.next(), Some(Got::Aborted)), "the end of the connection is reported");
	check(it.next().is_none(), "nothing is received after the end");
	let mut keep = vec![];
	match now(rh.recv_message()) {
		Some(x) => check(matches!(got(x, &mut keep), Got::Aborted), "the end of the connection is reported again"),
		None => check(false, "the end of the connection is reported again"),
	}
	match ju.out {
		Some((u, more, r)) => {
			check(!more, "no second update");
			match u {
				Some(u) => check(n >= 1 && upd.is(&u), "the update is received"),
				None => check(n == 0, "an update that arrived is received"),
			}
			match r {
				Ok(r) => check(n >= 2 && a.is(&r), "the response is received"),
				Err(e) => check(n < 2 && e.is_connection_aborted(), "a missing response is reported as aborted connection"),
			}
		},
		None => check(false, "a waiting requester is told that the connection has ended"),
	}
	match j2.out {
		Some(Err(e)) => check(e.is_connection_aborted(), "a missing response is reported as aborted connection"),
		_ => check(false, "a waiting requester is told that the connection has ended"),
	}
	match jq.out {
		Some((u, more)) => {
			check(!more, "no second update");
			match u {
				Some(u) => check(n == 4 && upd2.is(&u), "the update is received"),
				None => check(n < 4, "an update that arrived is received"),
			}
		},
		None => check(false, "a waiting responder is told that the connection has ended"),
	}
	// Nothing can be sent any more.
	all_fail(&wh, &sw, &rw);
	w.nothing_sent();
	cover("end");
}

fn all_fail(wh: &PeerWriteHandle<Body>, sw: &fizyr_rpc::SentRequestWriteHandle<Body>, rw: &fizyr_rpc::ReceivedRequestWriteHandle<Body>) {
	check(now(wh.send_stream(1, vec![])).is_some_and(|x| x.is_err()), "sending fails at once when the connection has ended");
	check(now(wh.send_request(1, vec![])).is_some_and(|x| x.is_err()), "sending fails at once when the connection has ended");
	check(now(sw.send_update(1, vec![])).is_some_and(|x| x.is_err()), "sending fails at once when the connection has ended");
	check(now(rw.send_update(1, vec![])).is_some_and(|x| x.is_err()), "sending fails at once when the connection has ended");
	check(now(rw.send_response(1, vec![])).is_some_and(|x| x.is_err()), "sending fails at once when the connection has ended");
	check(now(rw.send_error_response("x")).is_some_and(|x| x.is_err()), "sending fails at once when the connection has ended");
}

/// Round robin, starting anywhere.
fn settle_any(acts: &mut [&mut dyn Act]) {
	let first = choose(acts.len(), "first");
	if acts[first].enabled() {
		acts[first].step();
	}
	settle(acts)
}

pub fn connection_ends_whole() {
	connection_ends(0)
}
pub fn connection_ends_split() {
	connection_ends(2)
}

/// The connection ends when nobody receives requests any more, but requests are open.
fn connection_ends_unread(split: usize) {
	let (mut w, mut h) = world();
	let mut sent = open(&mut w, &h, 1, vec![]);
	let mut sent2 = open(&mut w, &h, 1, vec![]);
	let mut received = incoming(&mut w, &mut h, &request(u32v("id")));
	w.sent();
	let (rh, wh) = h.split();
	let sw = sent.write_handle();
	let rw = received.write_handle();
	let upd = any(RESPONDER_UPDATE, sent.request_id());
	let upd2 = any(REQUESTER_UPDATE, received.request_id());
	let script = [&upd, &upd2];
	let n = choose(script.len() + 1, "messages");
	// When the read handle goes: before or after what arrives, seen by the peer or not.
	let when = choose(3, "when");
	let mut rh = Some(rh);
	if when == 0 {
		drop(rh.take());
		if flag("seen") {
			w.go();
		}
	}
	w.sim.io().read_steps = split;
	for m in &script[..n] {
		w.feed(m);
	}
	if when == 1 {
		w.go();
		drop(rh.take());
	}
	let waiting = flag("waiting");
	let mut ju = Job::new(async { (sent.recv_update().await, sent.recv_update().await.is_some(), sent.recv_response().await) });
	let mut j2 = Job::new(sent2.recv_response());
	let mut jq = Job::new(async { (received.recv_update().await, received.recv_update().await.is_some()) });
	if waiting {
		settle(&mut [&mut ju, &mut j2, &mut jq, &mut w.peer]);
		check(!ju.done() && !j2.done() && !jq.done(), "open requests wait");
	}
	let cause = choose(3, "cause");
	let mut wh = Some(wh);
	match cause {
		0 => w.end(End::Eof),
		1 => w.end(End::Reset),
		_ => {
			// The last handles go: nothing is left that could use the connection.
			drop(rh.take());
			drop(wh.take());
		},
	}
	if when == 2 {
		drop(rh.take());
	}
	let mut wake = Wake(w.sim.clone());
	settle_any(&mut [&mut ju, &mut j2, &mut jq, &mut w.peer, &mut wake]);
	check(w.peer.done(), "the peer stops when the connection has ended");
	check(w.sim.io().closed, "the socket is closed");
	// What had arrived before is still received.  The last handles going is not ordered with arrivals.
	match ju.out {
		Some((u, more, r)) => {
			check(!more, "no second update");
			match u {
				Some(u) => check(n >= 1 && upd.is(&u), "the update is received"),
				None => check(n == 0 || cause == 2, "an update that arrived is received"),
			}
			check(r.is_err_and(|e| e.is_connection_aborted()), "a missing response is reported as aborted connection");
		},
		None => check(false, "a waiting requester is told that the connection has ended"),
	}
	match j2.out {
		Some(Err(e)) => check(e.is_connection_aborted(), "a missing response is reported as aborted connection"),
		_ => check(false, "a waiting requester is told that the connection has ended"),
	}
	match jq.out {
		Some((u, more)) => {
			check(!more, "no second update");
			match u {
				Some(u) => check(n >= 2 && upd2.is(&u), "the update is received"),
				None => check(n < 2 || cause == 2, "an update that arrived is received"),
			}
		},
		None => check(false, "a waiting responder is told that the connection has ended"),
	}
	check(now(sw.send_update(1, vec![])).is_some_and(|x| x.is_err()), "sending fails at once when the connection has ended");
	check(now(rw.send_response(1, vec![])).is_some_and(|x| x.is_err()), "sending fails at once when the connection has ended");
	if let Some(wh) = wh {
		check(now(wh.send_request(1, vec![])).is_some_and(|x| x.is_err()), "sending fails at once when the connection has ended");
		cover("ended");
	} else {
		cover("dropped");
	}
	w.nothing_sent();
	cover("end");
}

pub fn connection_ends_unread_whole() {
	connection_ends_unread(0)
}
pub fn connection_ends_unread_split() {
	connection_ends_unread(1)
}

/// The handle of the connection is closed or dropped as a whole.
pub fn whole_handle() {
	let (mut w, mut h) = world();
	let mut sent = open(&mut w, &h, 1, vec![]);
	let mut received = incoming(&mut w, &mut h, &request(u32v("id")));
	w.sent();
	let ch = h.close_handle();
	let ch2 = ch.clone();
	let (sw, rw) = (sent.write_handle(), received.write_handle());
	let mut js = Job::new(sent.recv_response());
	let mut jq = Job::new(received.recv_update());
	js.step();
	jq.step();
	let mut u = None;
	if flag("send") {
		// Still in the queue when the connection is closed.
		let mut j = Job::new(rw.send_update(2, vec![1]));
		j.step();
		u = Some(j);
	}
	match choose(3, "how") {
		0 => h.close(),
		1 => drop(h),
		_ => {
			ch2.close();
			std::mem::forget(h);
		},
	}
	w.go();
	check(w.peer.done() && w.sim.io().closed, "the peer stops when the connection is closed");
	check(js.go() && js.out.is_some_and(|x| x.is_err_and(|e| e.is_connection_aborted())), "a missing response is reported as aborted connection");
	check(jq.go() && jq.out.is_some_and(|x| x.is_none()), "a waiting responder is told that the connection has ended");
	if let Some(mut j) = u {
		check(j.go(), "sending completes when the connection is closed");
		let n = w.sent().len();
		check(matches!(j.out, Some(Ok(()))) == (n == 1) && n <= 1, "a message is reported as sent exactly if it is");
		cover("sending");
	}
	check(now(sw.send_update(1, vec![])).is_some_and(|x| x.is_err()), "sending fails at once when the connection has ended");
	check(now(rw.send_response(1, vec![])).is_some_and(|x| x.is_err()), "sending fails at once when the connection has ended");
	ch.close();
	w.nothing_sent();
	cover("end");
}

/// The remote side stops sending, but still takes the message that is being written.
pub fn half_closed() {
	let (mut w, mut h) = world();
	let mut sent = open(&mut w, &h, 1, vec![]);
	let received = incoming(&mut w, &mut h, &request(u32v("id")));
	w.sent();
	let (rh, wh) = h.split();
	w.sim.io().write_steps = 2;
	w.sim.io().sticky = true;
	let kind = choose(4, "kind");
	let body = bytes(2, "body");
	let b = body.clone();
	let rw = received.write_handle();
	let mut j = Job::new(async {
		match kind {
			0 => wh.send_stream(5, b).await.is_ok(),
			1 => wh.send_request(5, b).await.is_ok(),
			2 => rw.send_update(5, b).await.is_ok(),
			_ => rw.send_response(5, b).await.is_ok(),
		}
	});
	j.step();
	w.go();
	let stalled = !j.enabled();
	w.end(End::Eof);
	w.go();
	let mut jr = Job::new(drain(rh));
	let mut js = Job::new(sent.recv_response());
	jr.step();
	js.step();
	let mut wake = Wake(w.sim.clone());
	settle(&mut [&mut wake, &mut w.peer, &mut j, &mut jr, &mut js]);
	check(j.out == Some(true), "a message being written is sent although the remote side has stopped sending");
	let m = w.sent_one();
	check(m.kind == [STREAM, REQUEST, RESPONDER_UPDATE, RESPONSE][kind] && m.service == 5 && same(&m.body, &body), "the message is sent completely");
	check(w.seen == w.sim.io().output.len(), "nothing else is sent");
	if stalled {
		cover("stalled");
	}
	check(w.peer.done() && w.sim.io().closed, "then the peer stops");
	check(js.out.is_some_and(|x| x.is_err_and(|e| e.is_connection_aborted())), "a missing response is reported as aborted connection");
	match jr.out {
		Some((list, ..)) => check(list.len() == 1 && matches!(list[0], Got::Aborted), "the end of the connection is reported"),
		None => check(false, "a waiting receiver is told that the connection has ended"),
	}
	cover("end");
}

#[derive(Clone, Copy, PartialEq)]
enum Closer {
	Write,
	CloseHandle,
	Read,
	Dropped,
	Broken,
}

/// The connection is closed locally while sends and receives are under way, in any order.
fn local_close(n_closers: usize) {
	let (mut w, mut h) = world();
	let mut sent = open(&mut w, &h, 1, vec![]);
	let received = incoming(&mut w, &mut h, &request(u32v("id")));
	w.sent();
	let (rh, wh) = h.split();
	let how = [Closer::Write, Closer::CloseHandle, Closer::Read, Closer::Dropped, Closer::Broken][choose(n_closers, "how")];
	let ch: PeerCloseHandle<Body> = wh.close_handle();
	let ch2 = rh.close_handle();
	let mut rh = Some(rh);
	let sw = sent.write_handle();
	let rw = received.write_handle();
	let sim = w.sim.clone();
	let mut j_read = if how == Closer::Read { None } else { rh.take().map(|rh| Job::new(drain(rh))) };
	let mut j_sent = Job::new(sent.recv_response());
	let mut j_send = Job::new(async { (wh.send_stream(5, vec![1]).await.is_ok(), rw.send_update(6, vec![2]).await.is_ok()) });
	let World { peer, .. } = &mut w;
	let mut closed = false;
	// Arbitrary order of the first steps.
	for _ in 0..4 {
		match choose(4, "step") {
			0 if j_send.enabled() => j_send.step(),
			1 if peer.enabled() => peer.step(),
			2 if j_sent.enabled() => j_sent.step(),
			3 if !closed => {
				closed = true;
				match how {
					Closer::Write => wh.close(),
					Closer::CloseHandle => {
						ch.close();
						ch2.close();
					},
					Closer::Read => rh.as_ref().unwrap().close(),
					Closer::Dropped => peer.cancel(),
					Closer::Broken => end(&sim, End::Reset),
				}
			},
			_ => (),
		}
	}
	if !closed {
		ch.close();
	}
	match &mut j_read {
		Some(j) => settle(&mut [j, &mut j_sent, &mut j_send, peer]),
		None => settle(&mut [&mut j_sent, &mut j_send, peer]),
	}
	check(!peer.task.pending(), "the peer stops when the connection is closed");
	check(sim.io().closed, "the socket is closed");
	match j_sent.out {
		Some(Err(e)) => check(e.is_connection_aborted(), "a missing response is reported as aborted connection"),
		_ => check(false, "a waiting requester is told that the connection has ended"),
	}
	if let Some(j) = j_read {
		match j.out {
			Some((list, ..)) => {
				check(matches!(list.last(), Some(Got::Aborted)), "the end of the connection is reported");
				check(list.iter().all(|g| matches!(g, Got::Aborted | Got::Other)), "nothing is made up");
			},
			None => check(false, "a waiting receiver is told that the connection has ended"),
		}
	} else {
		let x = now(rh.as_mut().unwrap().recv_message());
		check(x.is_some_and(|x| x.is_err_and(|e| e.is_connection_aborted())), "the end of the connection is reported");
	}
	let (s, u) = match j_send.out {
		Some(x) => x,
		None => {
			check(false, "sending completes when the connection is closed");
			done()
		},
	};
	let (on_wire, _) = parse(&sim.io().output[w.seen..]);
	let is_stream = |m: &Msg| m.eq(&msg(STREAM, 0, 5, &[1]));
	check(!s || on_wire.iter().any(is_stream), "a message reported as sent is sent");
	check(!u || on_wire.iter().any(|m| m.kind == RESPONDER_UPDATE && m.service == 6), "a message reported as sent is sent");
	check(on_wire.len() <= 2, "messages are sent once");
	if s {
		cover("sent before");
	} else {
		cover("closed before");
	}
	all_fail(&wh, &sw, &rw);
	cover("end");
}

pub fn local_close_any() {
	local_close(5)
}

/// A write fails after any number of bytes, whoever still waits for its result.
pub fn write_fails() {
	let (mut w, mut h) = world();
	let mut sent = open(&mut w, &h, 1, vec![]);
	let received = incoming(&mut w, &mut h, &request(3));
	w.sent();
	let (rh, wh) = h.split();
	let mut rh = Some(rh);
	let sw = sent.write_handle();
	let rw = received.write_handle();
	let kind = choose(7, "kind");
	let sim = w.sim.clone();
	let start = sim.io().output.len();
	// A message has 18 bytes at least.
	sim.io().write_fail_at = start + choose(18, "fails at");
	let mut split = flag("split");
	sim.io().write_steps = split as usize;
	sim.io().sticky = true;
	let job = Job::new(async {
		let body = vec![1, 2];
		match kind {
			0 => wh.send_stream(5, body).await.is_ok(),
			1 => wh.send_request(5, body).await.is_ok(),
			2 => sw.send_update(5, body).await.is_ok(),
			3 => rw.send_update(5, body).await.is_ok(),
			4 => rw.send_response(5, body).await.is_ok(),
			5 => rw.send_error_response("no").await.is_ok(),
			_ => std::future::pending().await,
		}
	});
	let (mut a, mut give_up) = Shared::new(job);
	let gives_up = kind < 6 && flag("given up");
	if kind == 6 {
		// The peer itself refuses a request that nobody can receive.
		drop(rh.take());
		feed(&sim, &msg(REQUEST, 4, 5, &[]));
	}
	a.step();
	let early = gives_up && flag("early");
	if early {
		give_up.step();
	}
	let mut later = Job::new(async { wh.send_stream(6, vec![1, 2]).await.is_ok() });
	let another = flag("another");
	if another {
		later.step();
	}
	w.go();
	if gives_up && !early && give_up.enabled() {
		give_up.step();
	}
	let mut js = Job::new(sent.recv_response());
	let mut jr = rh.map(|rh| Job::new(drain(rh)));
	let mut wake = Wake(sim.clone());
	split = split && sim.io().writer.is_some();
	match &mut jr {
		Some(jr) => settle(&mut [&mut wake, &mut w.peer, &mut a, &mut js, jr]),
		None => settle(&mut [&mut wake, &mut w.peer, &mut a, &mut js]),
	}
	check(!w.peer.task.pending() && sim.io().closed, "the peer stops when a message cannot be written");
	check(sim.io().output.len() == sim.io().write_fail_at, "nothing follows a message that was written in part");
	check(gives_up && give_up.done || kind == 6 || a.job().out == Some(false), "a message that cannot be written is not reported as sent");
	while later.enabled() {
		later.step();
	}
	check(later.out == Some(false), "nothing can be sent after a write failed");
	check(js.out.is_some_and(|x| x.is_err_and(|e| e.is_connection_aborted())), "a missing response is reported as aborted connection");
	if let Some(jr) = jr {
		match jr.out {
			Some((list, ..)) => check(matches!(list.last(), Some(Got::Aborted)), "the end of the connection is reported"),
			None => check(false, "a waiting receiver is told that the connection has ended"),
		}
	}
	if give_up.done {
		cover("given up");
	}
	if split {
		cover("split");
	}
	all_fail(&wh, &sw, &rw);
	cover("end");
}

/// The connection is closed while the remote side takes no more data.
pub fn local_close_stalled() {
	let (mut w, h) = world();
	w.sim.io().write_steps = 1;
	let (rh, wh) = h.split();
	let ch = wh.close_handle();
	let mut j = Job::new(wh.send_stream(5, vec![1]));
	j.step();
	w.go();
	let stalled = !j.enabled();
	let how = choose(4, "how");
	match how {
		0 => wh.close(),
		1 => ch.close(),
		2 => rh.close(),
		_ => {
			drop(rh);
			w.peer.cancel();
		},
	}
	w.go();
	if j.enabled() {
		j.step();
	}
	if stalled {
		cover("stalled");
		check(how < 3 || w.sim.io().closed, "the socket is closed when the peer is dropped");
		check(!w.peer.task.pending() && w.sim.io().closed, "the peer stops when the connection is closed while a write is stalled");
		check(matches!(j.out, Some(Err(_))), "a stalled send fails when the connection is closed");
	} else {
		check(!w.peer.task.pending() && w.sim.io().closed, "the peer stops when the connection is closed");
		check(j.out.is_some(), "a send ends when the connection is closed");
	}
	cover("end");
}

/// The peer lives exactly as long as a read or write handle, unless it is closed.
fn lifetime(steps: usize, arrivals: bool) {
	let (mut w, mut h) = world();
	let s = open(&mut w, &h, 1, vec![]);
	let r = incoming(&mut w, &mut h, &request(7));
	let (rh, wh) = h.split();
	let _close = wh.close_handle();
	let (mut rh, mut whs) = (Some(rh), vec![wh]);
	let (sw, rw) = (s.write_handle(), r.write_handle());
	w.sent();
	let mut used = true; // the request handles still exist
	let mut requests = Some((s, r));
	for i in 0..steps {
		match choose(6 + arrivals as usize, "what") {
			0 if !whs.is_empty() => {
				let k = choose(whs.len(), "which");
				let c = whs[k].clone();
				check(c.same_peer(&whs[k]), "a clone belongs to the same peer");
				whs.push(c);
				cover("clone");
			},
			1 if !whs.is_empty() => {
				let k = choose(whs.len(), "which");
				drop(whs.remove(k));
				cover("drop");
			},
			2 => drop(rh.take()),
			3 => {
				w.peer.go();
				check(w.peer.done() == (rh.is_none() && whs.is_empty()), "the peer runs exactly while there is a handle");
			},
			4 => {
				drop(requests.take());
				used = false;
			},
			6 => {
				// A message, an error or a request, that may have no receiver any more.
				let m = match choose(4, "arrives") {
					0 => msg(STREAM, 1, 2, &[]),
					1 => msg(RESPONSE, 1000, 2, &[]),
					2 => msg(REQUESTER_UPDATE, 1000, 2, &[]),
					_ => msg(REQUEST, 100 + i as u32, 2, &[]),
				};
				w.feed(&m);
				cover("arrives");
			},
			_ => {
				if let Some(x) = whs.last() {
					check(w.wait(x.send_stream(1, vec![])).is_ok(), "a handle can be used while it exists");
					w.sent();
				}
			},
		}
	}
	w.peer.go();
	check(w.peer.done() == (rh.is_none() && whs.is_empty()), "the peer runs exactly while there is a handle");
	if w.peer.done() {
		check(w.sim.io().closed, "the socket is closed");
		check(now(sw.send_update(1, vec![])).is_some_and(|x| x.is_err()), "sending fails at once when the connection has ended");
		check(now(rw.send_response(1, vec![])).is_some_and(|x| x.is_err()), "sending fails at once when the connection has ended");
		cover("gone");
	} else {
		check(w.wait(rw.send_update(1, vec![])).is_ok(), "request handles work while the peer runs");
		if used {
			cover("alive");
		}
	}
	cover("end");
}

pub fn lifetime_arrivals() {
	lifetime(5, true)
}
pub fn lifetime_five() {
	lifetime(5, false)
}
pub fn lifetime_six() {
	lifetime(6, false)
}

/// Handles belong to the same peer exactly if they come from it.
pub fn same_peer() {
	let (_w1, h1) = world();
	let (_w2, h2) = world();
	let (_r1, a) = h1.split();
	let (_r2, b) = h2.split();
	let list = [a.clone(), a, b.clone(), b];
	let (i, j) = (choose(4, "first"), choose(4, "second"));
	check(list[i].same_peer(&list[j]) == (i / 2 == j / 2), "handles belong to the same peer exactly if they come from it");
	cover("end");
}
