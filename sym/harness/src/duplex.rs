//! Two peers talking to each other.
use crate::peer::*;
use crate::rt::*;
use crate::sim::*;
use crate::stream::config;
use crate::world::*;
use fizyr_rpc::transport::Endian;
use fizyr_rpc::{Peer, ReceivedMessage, UnixStreamTransport};

fn pair(room: usize, steps: usize) -> ((Job<'static, ()>, Handle), (Job<'static, ()>, Handle)) {
	let (a, b) = connected(room, steps);
	let make = |s| {
		let (p, h) = Peer::new(UnixStreamTransport::new(s, config(64, 64, Endian::LittleEndian)));
		(Job::new(p.run()), h)
	};
	(make(a), make(b))
}

#[derive(Clone, Copy)]
enum Send {
	Stream,
	Update,
	Request,
}

/// One side sends, the other receives the same, in order.
fn order(n: usize, room: usize, steps: usize, decisions: usize) {
	let ((mut pa, ha), (mut pb, mut hb)) = pair(room, steps);
	let (sid, body) = (i32v("service"), bytes(2, "body"));
	let plan: Vec<Send> = (0..n).map(|_| [Send::Stream, Send::Update, Send::Request][choose(3, "what")]).collect();
	let (plan2, body2) = (plan.clone(), body.clone());
	let mut ja = Job::new(async move {
		let mut first = match ha.send_request(sid, body2.clone()).await {
			Ok(r) => r,
			Err(_) => return None,
		};
		let mut others = vec![];
		for (k, s) in plan2.iter().enumerate() {
			let k = k as i32;
			match s {
				Send::Stream => ha.send_stream(k, body2.clone()).await.ok()?,
				Send::Update => first.send_update(k, body2.clone()).await.ok()?,
				Send::Request => others.push(ha.send_request(k, body2.clone()).await.ok()?),
			}
		}
		let u = first.recv_update().await?;
		if first.recv_update().await.is_some() {
			return None;
		}
		let r = first.recv_response().await.ok()?;
		let mut ids = vec![];
		for o in &mut others {
			let m = o.recv_response().await.ok()?;
			ids.push(m.header.service_id);
		}
		Some((u, r, ids))
	});
	let (plan3, body3) = (plan.clone(), body.clone());
	let mut jb = Job::new(async move {
		let mut first = match hb.recv_message().await {
			Ok(ReceivedMessage::Request(r, b)) => {
				check(r.service_id() == sid && same(&b.data, &body3), "a request arrives as sent");
				r
			},
			_ => return false,
		};
		let mut others = vec![];
		// The messages through the handle of the peer and those of the request are ordered separately.
		for (k, s) in plan3.iter().enumerate() {
			match s {
				Send::Update => {
					let m = match first.recv_update().await {
						Some(m) => m,
						None => return false,
					};
					check(m.header.service_id == k as i32 && same(&m.body.data, &body3), "an update arrives as sent, in order");
				},
				_ => match (hb.recv_message().await, s) {
					(Ok(ReceivedMessage::Stream(m)), Send::Stream) => {
						check(m.header.service_id == k as i32 && same(&m.body.data, &body3), "a stream message arrives as sent, in order");
					},
					(Ok(ReceivedMessage::Request(r, b)), Send::Request) => {
						check(r.service_id() == k as i32 && same(&b.data, &body3), "a request arrives as sent, in order");
						others.push(r);
					},
					_ => {
						check(false, "messages arrive in the order they are sent");
						return false;
					},
				},
			}
		}
		// Answer in reverse order.
		while let Some(r) = others.pop() {
			if r.send_response(100 + r.service_id(), vec![]).await.is_err() {
				return false;
			}
		}
		if first.send_update(11, body3.clone()).await.is_err() {
			return false;
		}
		let ok = first.send_response(12, body3).await.is_ok();
		// Keep the connection until the other side is done.
		let _ = hb.recv_message().await;
		ok
	});
	explore_n(&mut [&mut ja, &mut pa, &mut pb, &mut jb], decisions);
	match ja.out {
		Some(Some((u, r, ids))) => {
			check(u.header.service_id == 11 && same(&u.body.data, &body), "the update of the responder arrives");
			check(r.header.service_id == 12 && same(&r.body.data, &body), "the response arrives");
			let expected: Vec<i32> = plan.iter().enumerate().filter(|(_, s)| matches!(s, Send::Request)).map(|(k, _)| 100 + k as i32).collect();
			check(ids == expected, "each request gets its own response");
			cover("answered");
		},
		Some(None) => check(false, "no operation fails"),
		None => check(false, "the exchange completes"),
	}
	check(jb.out == Some(true), "the other side completes");
	check(pa.done() && pb.done(), "both peers stop when a side is done");
	cover("end");
}

pub fn order_schedules() {
	order(1, 1000, 0, 9)
}
pub fn order_two() {
	order(2, 1000, 2, 0)
}
pub fn order_narrow() {
	let room = choose(20, "room") + 1;
	order(2, room, 0, 1)
}
pub fn order_three() {
	order(3, 1000, 1, 2)
}
pub fn order_split() {
	order(1, 1000, 1, 5)
}
pub fn order_split_deep() {
	order(2, 1000, 3, 0)
}
pub fn flood_deep() {
	flood(1, usize::MAX)
}
pub fn order_schedules_two() {
	order(2, 1000, 0, 12)
}

/// Large messages in both directions.
pub fn large_bodies() {
	let size = [4096, 65536 + 7, 300_000][choose(3, "size")];
	let room = [1000, 65536, 1 << 20][choose(3, "room")];
	let (a, b) = connected(room, 0);
	let make = |s| {
		let (p, h) = Peer::new(UnixStreamTransport::new(s, config(1 << 20, 1 << 20, Endian::LittleEndian)));
		(Job::new(p.run()), h)
	};
	let ((mut pa, ha), (mut pb, mut hb)) = (make(a), make(b));
	let at = [0, 4095, size - 1][choose(3, "at")];
	let (x, y) = (u8v("value"), u8v("other value"));
	let body = move |v: u8| {
		let mut b = vec![0x55; size];
		b[at] = v;
		b
	};
	let is = move |b: &[u8], v: u8| b.len() == size && b[at] == v && (at == 0 || b[at - 1] == 0x55) && (at + 1 == size || b[at + 1] == 0x55) && b[size / 2] == 0x55;
	let mut ja = Job::new(async move {
		let mut r = ha.send_request(1, body(x)).await.ok()?;
		ha.send_stream(2, body(y)).await.ok()?;
		let m = r.recv_response().await.ok()?;
		check(is(&m.body.data, x), "a large response arrives as sent");
		ha.send_stream(3, vec![]).await.ok()
	});
	let mut jb = Job::new(async move {
		let Ok(ReceivedMessage::Request(r, b)) = hb.recv_message().await else { return None };
		check(is(&b.data, x), "a large request arrives as sent");
		r.send_response(1, b).await.ok()?;
		let Ok(ReceivedMessage::Stream(m)) = hb.recv_message().await else { return None };
		check(m.header.service_id == 2 && is(&m.body.data, y), "a large message arrives as sent");
		let Ok(ReceivedMessage::Stream(m)) = hb.recv_message().await else { return None };
		check(m.header.service_id == 3 && m.body.is_empty(), "the next message arrives as sent");
		Some(())
	});
	explore_n(&mut [&mut ja, &mut pa, &mut pb, &mut jb], 3);
	check(ja.out == Some(Some(())), "the exchange completes");
	check(jb.out == Some(Some(())), "the other side completes");
	cover("end");
}

/// Both sides send before they receive, through buffers too small for the messages.
fn flood(n: usize, decisions: usize) {
	let room = choose(24, "room") + 1;
	let ((mut pa, ha), (mut pb, hb)) = pair(room, 0);
	let b = u8v("body");
	let side = |mut h: Handle| async move {
		for k in 0..n {
			if h.send_stream(k as i32, vec![b; 5]).await.is_err() {
				return (false, h);
			}
		}
		for k in 0..n {
			match h.recv_message().await {
				Ok(ReceivedMessage::Stream(m)) => check(m.header.service_id == k as i32 && same(&m.body.data, &[b; 5]), "messages arrive as sent, in order"),
				_ => return (false, h),
			}
		}
		(true, h)
	};
	let mut ja = Job::new(side(ha));
	let mut jb = Job::new(side(hb));
	explore_n(&mut [&mut ja, &mut pa, &mut pb, &mut jb], decisions);
	for j in [ja, jb] {
		match j.out {
			Some((ok, _h)) => check(ok, "no operation fails"),
			None => check(false, "two sides that both send do not block each other"),
		}
	}
	cover("end");
}

pub fn flood_two() {
	flood(2, 3)
}
pub fn flood_schedules() {
	flood(1, 8)
}

/// While the remote side does not take our messages, we still take theirs.
pub fn stalled() {
	let (mut w, mut h) = world();
	let mut s = open(&mut w, &h, 1, vec![]);
	w.sent();
	// The write stalls somewhere.
	w.sim.io().write_steps = 1;
	w.sim.io().sticky = flag("sticky");
	let mut j = Job::new(h.send_stream(3, vec![1]));
	j.step();
	w.go();
	let stalled = !j.enabled();
	let (u, q, st, a) = (any(RESPONDER_UPDATE, s.request_id()), request(9), any(STREAM, 4), any(RESPONSE, s.request_id()));
	for m in [&u, &q, &st, &a] {
		w.receive(m);
	}
	check(w.sim.io().pos == w.sim.io().input.len(), "incoming messages are taken while a write is stalled");
	if stalled {
		cover("stalled");
	}
	w.sim.io().write_steps = 0;
	w.sim.fire();
	settle(&mut [&mut w.peer, &mut j]);
	check(matches!(j.out, Some(Ok(()))), "the send completes when the stream is ready again");
	drop(j);
	check(w.sent_one().eq(&msg(STREAM, 0, 3, &[1])), "the message is sent");
	is(now(s.recv_update()), &u, "the update is received");
	is_ok(now(s.recv_response()), &a, "the response is received");
	match now(h.recv_message()) {
		Some(Ok(ReceivedMessage::Request(r, _))) => check(r.request_id() == 9, "the request is received"),
		_ => check(false, "the request is received"),
	}
	match now(h.recv_message()) {
		Some(Ok(ReceivedMessage::Stream(m))) => check(st.is(&m), "the stream message is received"),
		_ => check(false, "the stream message is received"),
	}
	cover("end");
}
