//! Adapters: references, boxes and pins around transports and listeners, conversions, defaults, transports of the user.
use crate::peer::*;
use crate::rt::*;
use crate::serve::{frame as arrives, All, Event, Front};
use crate::sim::*;
use crate::stream::{any_header, frame, get32, header};
use crate::unix::{all_closed, encoded, objects, sock, socket, Datagram};
use crate::world::*;
use fizyr_rpc::transport::{Endian, Transport, TransportReadHalf, TransportWriteHalf, UnixTransport};
use fizyr_rpc::util::{IntoTransport, Listener as _};
use fizyr_rpc::{Body as _, Listener, Message, MessageHeader, MessageType, Peer, PeerHandle, ReceivedMessage, StreamBody, StreamConfig};
use fizyr_rpc::{TcpTransport, UnixBody, UnixConfig, UnixSeqpacketTransport, UnixStreamTransport};
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::net::{TcpListener, UnixListener};
use tokio::verif::take_spawned;

fn same_message(m: &Message<StreamBody>, h: &MessageHeader, body: &[u8]) -> bool {
	(m.header.message_type as u32 == h.message_type as u32) & (m.header.request_id == h.request_id) & (m.header.service_id == h.service_id) & same(&m.body.data, body)
}

/// Reading through an adapter: a message in pieces, then the end.
pub fn read() {
	let (h, t) = any_header();
	let body = bytes(choose(3, "len"), "byte");
	let mut input = vec![];
	frame(&mut input, &h, t, &body, false);
	let end = [End::Pending, End::Eof, End::Reset][choose(3, "end")];
	let sim = Sim::new(input, end, 2, 0);
	let mut t = UnixStreamTransport::new(sim.stream(), crate::stream::config(4, 4, Endian::LittleEndian));
	let (mut r, _w) = t.split();
	match choose(6, "wrap") {
		0 => read_through(&mut r, &sim, &h, &body, end),
		1 => read_through(Box::new(r), &sim, &h, &body, end),
		2 => read_through(Pin::new(&mut r), &sim, &h, &body, end),
		3 => read_through(Box::pin(r), &sim, &h, &body, end),
		4 => read_through(Box::new(&mut r), &sim, &h, &body, end),
		_ => read_through(Pin::new(&mut Box::new(r)), &sim, &h, &body, end),
	}
}

fn read_through<R: TransportReadHalf<Body = StreamBody>>(mut r: R, sim: &Sim, h: &MessageHeader, body: &[u8], end: End) {
	match drive(&sim, r.read_msg()) {
		Some(Ok(m)) => check(same_message(&m, h, body), "a message is read unchanged"),
		_ => check(false, "a message is read"),
	}
	match drive(&sim, r.read_msg()) {
		None => check(end == End::Pending, "the end is reported"),
		Some(Ok(_)) => check(false, "a message is read once"),
		Some(Err(e)) => {
			check(end != End::Pending && e.is_fatal(), "the end of the stream is fatal");
			check(e.inner().is_connection_aborted() == (end == End::Eof), "only the end of the connection is reported as such");
			cover("end");
		},
	}
	cover("read");
}

/// Writing through an adapter: a message in pieces, one that is refused, one more or a failure.
pub fn write() {
	let sim = Sim::new(vec![], End::Pending, 0, 2);
	let mut t = UnixStreamTransport::new(sim.stream(), crate::stream::config(4, 2, Endian::LittleEndian));
	let (_r, mut w) = t.split();
	match choose(6, "wrap") {
		0 => write_through(&mut w, &sim),
		1 => write_through(Box::new(w), &sim),
		2 => write_through(Pin::new(&mut w), &sim),
		3 => write_through(Box::pin(w), &sim),
		4 => write_through(Box::new(&mut w), &sim),
		_ => write_through(Pin::new(&mut Box::new(w)), &sim),
	}
}

fn write_through<W: TransportWriteHalf<Body = StreamBody>>(mut w: W, sim: &Sim) {
	let mut expected = vec![];
	for k in 0..2 {
		let (h, t) = any_header();
		let body = bytes(choose(4, "len"), "byte");
		if body.len() <= 2 {
			frame(&mut expected, &h, t, &body, false);
		}
		let fails = k == 1 && flag("fails");
		if fails {
			sim.io().write_fail_at = sim.io().output.len();
		}
		let before = sim.io().output.len();
		match drive(&sim, w.write_msg(&h, &StreamBody::from(body.clone()))) {
			Some(Ok(())) => check(body.len() <= 2 && !fails && same(&sim.io().output, &expected), "a message is written unchanged"),
			Some(Err(e)) => {
				check(body.len() > 2 || fails, "only what can not be sent is refused");
				check(e.is_fatal() == (body.len() <= 2) && sim.io().output.len() == before, "the failure is the one of the transport");
				cover("refused");
			},
			None => check(false, "writing completes"),
		}
	}
	cover("written");
}

/// Seqpacket halves behind adapters.
pub fn datagrams() {
	let ((a, sa), (b, sb)) = (socket(), socket());
	let c = || crate::unix::config((2, 1), (2, 1), Endian::LittleEndian);
	let mut ta = UnixTransport::new(sa, c());
	let mut tb = UnixTransport::new(sb, c());
	{
		let (_ra, mut wa) = ta.split();
		let (mut rb, _wb) = tb.split();
		sock(a).delays = 1;
		sock(b).delays = 1;
		match choose(5, "wrap") {
			0 => datagram(a, b, &mut wa, &mut rb),
			1 => datagram(a, b, Box::new(wa), Box::new(rb)),
			2 => datagram(a, b, Pin::new(&mut wa), Pin::new(&mut rb)),
			3 => datagram(a, b, Box::pin(wa), Box::pin(rb)),
			_ => datagram(a, b, Box::new(Pin::new(&mut wa)), &mut Box::new(rb)),
		}
	}
	drop((ta, tb));
	all_closed();
	cover("end");
}

fn datagram<W: TransportWriteHalf<Body = UnixBody>, R: TransportReadHalf<Body = UnixBody>>(a: usize, b: usize, mut w: W, mut r: R) {
	let (h, t) = any_header();
	let body = bytes(choose(3, "len"), "byte");
	let (f, o) = objects(choose(2, "fds"), 1);
	let m = UnixBody::new(body.clone(), f);
	check(crate::unix::drive(w.write_msg(&h, &m)).is_some_and(|r| r.is_ok()), "a message is sent");
	let d = sock(a).output.pop().unwrap();
	check(same(&d.data, &encoded(&h, t, false, &body)) && d.fds == o, "a message is written unchanged");
	sock(b).input.push(Datagram { data: d.data, fds: d.fds });
	match crate::unix::drive(r.read_msg()) {
		Some(Ok(m)) => check(m.header == h && same(&m.body.data, &body) && crate::unix::is_objects(&m.body.fds, &o), "a message is read unchanged"),
		_ => check(false, "a message is read"),
	}
}

/// A transport of the user, made of adapters.
struct Mine(UnixStreamTransport);

impl Transport for Mine {
	type Body = StreamBody;
	type Info = u8;
	type Config = ();
	type ReadHalf<'a> = Pin<Box<<UnixStreamTransport as Transport>::ReadHalf<'a>>>;
	type WriteHalf<'a> = Box<Pin<Box<<UnixStreamTransport as Transport>::WriteHalf<'a>>>>;

	fn split(&mut self) -> (Self::ReadHalf<'_>, Self::WriteHalf<'_>) {
		let (r, w) = self.0.split();
		(Box::pin(r), Box::new(Box::pin(w)))
	}
	fn info(&self) -> std::io::Result<u8> {
		Ok(7)
	}
}

/// A peer over a transport of the user.
pub fn own_transport() {
	let sim = Sim::new(vec![], End::Pending, 0, 0);
	let t = UnixStreamTransport::new(sim.stream(), crate::stream::config(4, 4, Endian::LittleEndian));
	let (mut peer, mut h) = Peer::new(Mine(t));
	check(peer.transport().info().is_ok_and(|x| x == 7) && peer.transport_mut().info().is_ok(), "the transport of a peer is accessible");
	sim.io().read_steps = 2;
	sim.io().write_steps = 1;
	let mut w = World { sim: sim.clone(), peer: Job::new(peer.run()), seen: 0 };
	let settle = |w: &mut World| loop {
		w.go();
		if !(w.sim.io().pos < w.sim.io().input.len() || w.sim.io().writer.is_some()) || !w.sim.fire() {
			break;
		}
	};
	let (service, body) = (i32v("service"), bytes(choose(2, "len"), "body"));
	let mut j = Job::new(h.send_request(service, body.clone()));
	j.step();
	settle(&mut w);
	j.step();
	let mut r = match j.out.take() {
		Some(Ok(r)) => r,
		_ => {
			check(false, "a request is sent");
			done()
		},
	};
	drop(j);
	check(w.sent_one().eq(&msg(REQUEST, r.request_id(), service as u32, &body)), "a request is written");
	let (u, a, s) = (any(RESPONDER_UPDATE, r.request_id()), any(RESPONSE, r.request_id()), any(STREAM, 3));
	for m in [&u, &s, &a] {
		w.feed(m);
		settle(&mut w);
	}
	is(now(r.recv_update()), &u, "an update is received");
	is_ok(now(r.recv_response()), &a, "a response is received");
	match now(h.recv_message()) {
		Some(Ok(ReceivedMessage::Stream(m))) => check(s.is(&m), "a stream message is received"),
		_ => check(false, "a stream message is received"),
	}
	match choose(3, "end") {
		0 => drop((h, r)),
		1 => h.close(),
		_ => w.end(End::Eof),
	}
	settle(&mut w);
	check(w.peer.done() && w.sim.io().closed, "the peer and its transport end");
	cover("end");
}

/// Accepting through adapters.
fn accept<L: fizyr_rpc::util::Listener<Connection = C> + Unpin, C>(mut l: L, front: &Front, n: usize) -> (usize, usize) {
	let (mut good, mut bad) = (0, 0);
	for _ in 0..4 * n {
		let mut t = Task::new(l.accept());
		loop {
			match t.run() {
				Some(Ok(_)) => good += 1,
				Some(Err(e)) => {
					check(e.raw_os_error() == Some(24), "the failure is the one of the socket");
					bad += 1;
				},
				None => {
					if front.q().pos == front.q().events.len() {
						return (good, bad);
					}
					check(front.wake() && t.flag.is_set(), "a waiting accept is woken");
					continue;
				},
			}
			break;
		}
	}
	(good, bad)
}

pub fn listeners() {
	let n = 3;
	let (mut events, mut good, mut bad) = (vec![], 0, 0);
	for _ in 0..n {
		match choose(3, "event") {
			0 => {
				events.push(Event::Connection(Sim::new(vec![], End::Pending, 0, 0)));
				good += 1;
			},
			1 => {
				events.push(Event::Failure);
				bad += 1;
			},
			_ => events.push(Event::Pause),
		}
	}
	let front = Front::new(events);
	let got = if flag("tcp") {
		let mut l = TcpListener::from_io(Box::new(front.clone()));
		match choose(6, "wrap") {
			0 => accept(l, &front, n),
			1 => accept(&mut l, &front, n),
			2 => accept(Box::new(l), &front, n),
			3 => accept(Pin::new(&mut l), &front, n),
			4 => accept(Box::pin(l), &front, n),
			_ => accept(&mut Box::new(Pin::new(&mut l)), &front, n),
		}
	} else {
		let mut l = UnixListener::from_io(Box::new(front.clone()));
		match choose(6, "wrap") {
			0 => accept(l, &front, n),
			1 => accept(&mut l, &front, n),
			2 => accept(Box::new(l), &front, n),
			3 => accept(Pin::new(&mut l), &front, n),
			4 => accept(Box::pin(l), &front, n),
			_ => accept(&mut Box::new(Pin::new(&mut l)), &front, n),
		}
	};
	check(got == (good, bad), "every connection and failure is reported once");
	cover("end");
}

/// A listener of the user.
struct Own {
	front: Front,
	fail: bool,
}

impl fizyr_rpc::util::Listener for Own {
	type Connection = tokio::net::UnixStream;
	type Address = u8;
	fn poll_accept(self: Pin<&mut Self>, cx: &mut Context) -> Poll<std::io::Result<(Self::Connection, u8)>> {
		use tokio::verif::AcceptIo;
		if self.fail {
			return Poll::Ready(Err(std::io::ErrorKind::TimedOut.into()));
		}
		match self.get_mut().front.poll_accept(cx) {
			Poll::Pending => Poll::Pending,
			Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
			Poll::Ready(Ok(s)) => Poll::Ready(Ok((tokio::net::UnixStream::from_io(s), 9))),
		}
	}
}

fn one_peer<S>(listener: S, front: &Front, sim: &Sim, fail: bool)
where
	S: fizyr_rpc::ListeningSocket<Body = StreamBody, Config = StreamConfig>,
{
	let mut l = Listener::new(listener, crate::stream::config(1, 1, Endian::BigEndian));
	let mut t = Task::new(l.accept());
	let mut out = t.run();
	while out.is_none() && front.wake() {
		out = t.run();
	}
	drop(t);
	let mut h: PeerHandle<StreamBody> = match out {
		Some(Ok((h, _info))) if !fail => h,
		Some(Err(e)) if fail => {
			check(e.kind() == std::io::ErrorKind::TimedOut, "the failure is the one of the socket");
			cover("failed");
			return;
		},
		_ => {
			check(false, "a connection is accepted");
			done()
		},
	};
	let mut tasks = All::new();
	let (id, service, b) = (u32v("id"), u32v("service"), u8v("body"));
	arrives(sim, true, id, service, &[b]);
	tasks.run(&mut 0);
	match now(h.recv_message()) {
		Some(Ok(ReceivedMessage::Stream(m))) => check(msg(STREAM, id, service, &[b]).is(&m), "the peer works with the configuration of the listener"),
		_ => check(false, "a message is received"),
	}
	arrives(sim, true, id, service, &[b, b]);
	tasks.run(&mut 0);
	check(matches!(now(h.recv_message()), Some(Err(_))), "the peer works with the configuration of the listener");
	cover("accepted");
}

pub fn own_listener() {
	let sim = Sim::new(vec![], End::Pending, 0, 0);
	let mut events = vec![Event::Connection(sim.clone())];
	if flag("pause") {
		events.insert(0, Event::Pause);
	}
	let front = Front::new(events);
	let fail = flag("fail");
	let own = || Own { front: front.clone(), fail };
	match choose(5, "wrap") {
		0 => one_peer(own(), &front, &sim, fail),
		1 => one_peer(&mut own(), &front, &sim, fail),
		2 => one_peer(Box::new(own()), &front, &sim, fail),
		3 => one_peer(Box::pin(own()), &front, &sim, fail),
		_ => one_peer(Pin::new(&mut own()), &front, &sim, fail),
	}
	cover("end");
}

/// All the ways to make a transport use the same stream and the configuration they are given.
fn uses<T>(mut t: T, sim: &Sim, c: &StreamConfig)
where
	T: Transport<Body = StreamBody>,
{
	let big = matches!(c.endian, Endian::BigEndian);
	let over = choose(2, "over") == 1;
	let reading = choose(2, "read") == 1;
	let (r, w) = (c.max_body_len_read as usize, c.max_body_len_write as usize);
	let h = header(MessageType::Request, u32v("id"), i32v("service"));
	if reading {
		frame(&mut sim.io().input, &h, 0, &vec![1; r + over as usize], big);
	}
	let (mut rd, mut wr) = t.split();
	if reading {
		match drive(sim, rd.read_msg()) {
			Some(Ok(m)) => check(!over && same_message(&m, &h, &vec![1; r]), "the configuration is used"),
			x => check(over && x.is_some(), "the configuration is used"),
		}
	} else {
		let ok = drive(sim, wr.write_msg(&h, &vec![1; w + over as usize].into())).is_some_and(|x| x.is_ok());
		check(ok != over, "the configuration is used");
		if ok {
			let o = &sim.io().output;
			check(o.len() == 16 + w && get32(&o[8..], big) == h.request_id && get32(&o[12..], big) == h.service_id as u32, "the configuration is used");
			cover("written");
		}
	}
}

fn any_config() -> StreamConfig {
	let (r, w) = ([0, 3, 9000][choose(3, "limit")], [0, 5, 9000][choose(3, "limit")]);
	crate::stream::config(r, w, if choose(2, "big") == 1 { Endian::BigEndian } else { Endian::LittleEndian })
}

pub fn stream_made() {
	let sim = Sim::new(vec![], End::Pending, 0, 0);
	let d = StreamConfig::default();
	check(d.max_body_len_read > 0 && d.max_body_len_read == d.max_body_len_write, "two peers with the default configuration understand each other");
	check(matches!(d.endian, Endian::LittleEndian | Endian::BigEndian), "two peers with the default configuration understand each other");
	match choose(10, "how") {
		0 => {
			let c = any_config();
			uses(UnixStreamTransport::new(sim.stream(), c.clone()), &sim, &c)
		},
		1 => uses(UnixStreamTransport::new_default(sim.stream()), &sim, &d),
		2 => {
			let c = any_config();
			uses(sim.stream().into_transport(c.clone()), &sim, &c)
		},
		3 => uses(sim.stream().into_default_transport(), &sim, &d),
		4 => {
			let c = any_config();
			uses(TcpTransport::new(sim.tcp(), c.clone()), &sim, &c)
		},
		5 => uses(TcpTransport::new_default(sim.tcp()), &sim, &d),
		6 => {
			let c = any_config();
			uses(sim.tcp().into_transport(c.clone()), &sim, &c)
		},
		7 => uses(sim.tcp().into_default_transport(), &sim, &d),
		8 => {
			// Out of one transport and into another.
			let c = any_config();
			let mut t = TcpTransport::new_default(sim.tcp());
			let p = t.stream() as *const _;
			check(p == t.stream_mut() as *const _, "a transport gives access to its stream");
			uses(TcpTransport::new(t.into_stream(), c.clone()), &sim, &c)
		},
		_ => {
			let c = any_config();
			let mut t = UnixStreamTransport::new_default(sim.stream());
			let p = t.stream() as *const _;
			check(p == t.stream_mut() as *const _, "a transport gives access to its stream");
			check(!sim.io().closed, "a stream stays open");
			uses(UnixStreamTransport::new(t.into_stream(), c.clone()), &sim, &c)
		},
	}
	check(sim.io().closed, "a transport closes its stream");
	cover("end");
}

/// The same for seqpacket sockets.
pub fn unix_made() {
	let d = UnixConfig::default();
	let (n, s) = socket();
	let (c, mut t) = match choose(5, "how") {
		0 => {
			let c = crate::unix::config((3, 1), (5, 2), Endian::BigEndian);
			(c.clone(), UnixSeqpacketTransport::new(s, c))
		},
		1 => (d, UnixSeqpacketTransport::new_default(s)),
		2 => {
			let c = crate::unix::config((3, 1), (5, 2), Endian::BigEndian);
			(c.clone(), s.into_transport(c))
		},
		3 => (d, s.into_default_transport()),
		_ => {
			let c = crate::unix::config((3, 1), (5, 2), Endian::LittleEndian);
			let mut t = UnixSeqpacketTransport::new_default(s);
			let p = t.socket() as *const _;
			check(p == t.socket_mut() as *const _, "a transport gives access to its socket");
			(c.clone(), UnixSeqpacketTransport::new(t.into_socket(), c))
		},
	};
	check(sock(n).open, "a socket stays open");
	let big = matches!(c.endian, Endian::BigEndian) || (matches!(c.endian, Endian::NativeEndian) && cfg!(target_endian = "big"));
	let over = choose(2, "over") == 1;
	let (rb, wb, rf, wf) = (c.max_body_len_read as usize, c.max_body_len_write as usize, c.max_fds_read as usize, c.max_fds_write as usize);
	let h = header(MessageType::Request, u32v("id"), i32v("service"));
	{
		let (mut r, mut w) = t.split();
		match choose(4, "limit") {
			0 => {
				let b = vec![1; rb + over as usize];
				sock(n).input.push(Datagram { data: encoded(&h, 0, big, &b), fds: vec![] });
				match crate::unix::drive(r.read_msg()) {
					Some(Ok(m)) => check(!over && m.header == h && same(&m.body.data, &b), "the configuration is used"),
					x => check(over && x.is_some(), "the configuration is used"),
				}
			},
			1 => {
				sock(n).input.push(Datagram { data: encoded(&h, 0, big, &[]), fds: (0..(rf + over as usize) as i32).collect() });
				match crate::unix::drive(r.read_msg()) {
					Some(Ok(m)) => check(!over && m.header == h && m.body.fds.len() == rf, "the configuration is used"),
					x => check(over && x.is_some(), "the configuration is used"),
				}
			},
			k => {
				let (b, f) = if k == 2 { (wb + over as usize, 0) } else { (0, wf + over as usize) };
				let body = UnixBody::new(vec![1; b], objects(f, 1).0);
				let ok = crate::unix::drive(w.write_msg(&h, &body)).is_some_and(|x| x.is_ok());
				check(ok != over, "the configuration is used");
				if ok {
					let o = &sock(n).output[0];
					check(same(&o.data, &encoded(&h, 0, big, &body.data)) && o.fds.len() == f, "the configuration is used");
					cover("written");
				}
			},
		}
	}
	drop(t);
	check(!sock(n).open, "a transport closes its socket");
	all_closed();
	cover("end");
}

/// Bodies made of anything.
pub fn bodies() {
	let n = choose(4, "len");
	let b = bytes(n, "byte");
	for x in &b {
		assume(*x < 0x80);
	}
	let text = String::from_utf8(b.clone()).unwrap();
	let s: StreamBody = match choose(6, "from") {
		0 => b.clone().into(),
		1 => b.as_slice().into(),
		2 => text.as_str().into(),
		3 => text.clone().into(),
		4 => b.clone().into_boxed_slice().into(),
		_ => std::collections::VecDeque::from(b.clone()).into(),
	};
	check(same(&s.data, &b) && same(&s, &b) && same(s.as_ref(), &b), "a body is made of the bytes it is given");
	check(same(&s.clone().data, &b) && s.len() == n, "a copy of a body is the same");
	{
		let (f, o) = objects(choose(3, "fds"), 1);
		let (u, k): (UnixBody, usize) = match choose(5, "from") {
			0 => (b.clone().into(), 0),
			1 => (b.as_slice().into(), 0),
			2 => (b.clone().into_boxed_slice().into(), 0),
			3 => ((b.as_slice(), f).into(), o.len()),
			_ => (UnixBody::new(text.as_str(), f), o.len()),
		};
		check(same(&u.data, &b) && u.fds.len() == k, "a body is made of the bytes and descriptors it is given");
		check(k == 0 || crate::unix::is_objects(&u.fds, &o), "a body is made of the bytes and descriptors it is given");
	}
	all_closed();
	check(StreamBody::empty().is_empty() && UnixBody::empty().data.is_empty(), "an empty body is empty");
	cover("end");
}

/// A peer of its own task.
pub fn spawned() {
	let sim = Sim::new(vec![], End::Pending, 0, 0);
	let t = UnixStreamTransport::new(sim.stream(), crate::stream::config(4, 4, Endian::LittleEndian));
	let h = Peer::spawn(t);
	let mut l = take_spawned();
	check(l.len() == 1, "a peer is one task");
	let mut w = World { sim, peer: Job::new(l.pop().unwrap()), seen: 0 };
	let (service, b) = (i32v("service"), u8v("body"));
	check(w.wait(h.send_stream(service, vec![b])).is_ok(), "a message is sent");
	let m = w.sent_one();
	check(m.kind == STREAM && m.service == service as u32 && same(&m.body, &[b]), "a message is sent");
	drop(h);
	w.go();
	check(w.peer.done() && w.sim.io().closed, "the peer and its transport end");
	cover("end");
}
