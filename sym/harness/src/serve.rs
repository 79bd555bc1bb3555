//! Listeners: every connection gets a peer of its own.
use crate::rt::*;
use crate::sim::*;
use crate::stream::{config, put32};
use fizyr_rpc::transport::{Endian, TcpStreamInfo, UnixStreamInfo};
use fizyr_rpc::{Listener, ListeningSocket, PeerHandle, ReceivedMessage, StreamBody, StreamConfig};
use std::cell::UnsafeCell;
use std::io::Result;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use tokio::net::{TcpListener, UnixListener};
use tokio::verif::{take_spawned, AcceptIo, StreamIo};

pub enum Event {
	Connection(Sim),
	Failure,
	Pause,
}

/// A listening socket with things that happen to it.
pub struct Queue {
	pub events: Vec<Event>,
	pub pos: usize,
	pub waker: Option<Waker>,
}

#[derive(Clone)]
pub struct Front(pub Rc<UnsafeCell<Queue>>);

impl Front {
	pub fn new(events: Vec<Event>) -> Self {
		Self(Rc::new(UnsafeCell::new(Queue { events, pos: 0, waker: None })))
	}
	#[allow(clippy::mut_from_ref)]
	pub fn q(&self) -> &mut Queue {
		unsafe { &mut *self.0.get() }
	}
	pub fn wake(&self) -> bool {
		match self.q().waker.take() {
			Some(w) => {
				w.wake();
				true
			},
			None => false,
		}
	}
}

impl AcceptIo for Front {
	fn poll_accept(&mut self, cx: &mut Context<'_>) -> Poll<Result<Box<dyn StreamIo>>> {
		let q = self.q();
		match q.events.get(q.pos) {
			None => q.waker = Some(cx.waker().clone()),
			Some(Event::Pause) => {
				q.pos += 1;
				q.waker = Some(cx.waker().clone());
			},
			Some(Event::Failure) => {
				q.pos += 1;
				return Poll::Ready(Err(std::io::Error::from_raw_os_error(24)));
			},
			Some(Event::Connection(s)) => {
				q.pos += 1;
				return Poll::Ready(Ok(Box::new(s.clone())));
			},
		}
		Poll::Pending
	}
}

/// The information of a connection as the numbers the harness chose.
pub trait Numbers {
	fn numbers(&self) -> [u32; 3];
}

impl Numbers for UnixStreamInfo {
	fn numbers(&self) -> [u32; 3] {
		[self.user_id(), self.group_id(), self.process_id().unwrap_or(0) as u32]
	}
}

impl Numbers for TcpStreamInfo {
	fn numbers(&self) -> [u32; 3] {
		[self.local_address().port() as u32, self.remote_address().port() as u32, 0]
	}
}

trait Kind: ListeningSocket<Body = StreamBody, Config = StreamConfig> {
	const WORDS: usize;
	fn new(front: &Front) -> Self;
	fn info(i: Self::TransportInfo) -> [u32; 3];
}

impl Kind for UnixListener {
	const WORDS: usize = 3;
	fn new(front: &Front) -> Self {
		UnixListener::from_io(Box::new(front.clone()))
	}
	fn info(i: UnixStreamInfo) -> [u32; 3] {
		i.numbers()
	}
}

impl Kind for TcpListener {
	const WORDS: usize = 2;
	fn new(front: &Front) -> Self {
		TcpListener::from_io(Box::new(front.clone()))
	}
	fn info(i: TcpStreamInfo) -> [u32; 3] {
		i.numbers()
	}
}

/// What user tasks have seen.
#[derive(Clone, Copy, PartialEq)]
enum Seen {
	Start,
	Message(u32, u32, Option<u8>),
	End,
	Error,
}

static mut LOG: Vec<([u32; 3], Seen)> = Vec::new();

#[allow(static_mut_refs)]
fn log() -> &'static mut Vec<([u32; 3], Seen)> {
	unsafe { &mut LOG }
}

async fn serve(mut peer: PeerHandle<StreamBody>, info: [u32; 3]) {
	log().push((info, Seen::Start));
	loop {
		match peer.recv_message().await {
			Ok(ReceivedMessage::Stream(m)) => {
				log().push((info, Seen::Message(m.header.request_id, m.header.service_id as u32, m.body.data.first().copied())));
				if peer.send_stream(m.header.service_id, m.body).await.is_err() {
					log().push((info, Seen::Error));
				}
			},
			Ok(_) => log().push((info, Seen::Error)),
			Err(e) => {
				if e.is_connection_aborted() {
					return log().push((info, Seen::End));
				}
				log().push((info, Seen::Error));
			},
		}
	}
}

pub struct All {
	pub tasks: Vec<Task<'static, ()>>,
	pub started: usize,
}

impl All {
	pub fn new() -> Self {
		Self { tasks: vec![], started: 0 }
	}
	/// Let all tasks run; the first `steps` decisions are open.
	pub fn run(&mut self, steps: &mut usize) {
		loop {
			for t in take_spawned() {
				self.started += 1;
				self.tasks.push(Task { fut: Some(t), flag: Flag::new() });
			}
			let ready: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].runnable()).collect();
			if ready.is_empty() {
				return;
			}
			let k = if *steps > 0 && ready.len() > 1 {
				*steps -= 1;
				choose(ready.len(), "schedule")
			} else {
				0
			};
			self.tasks[ready[k]].poll();
		}
	}
}

pub fn frame(sim: &Sim, big: bool, id: u32, service: u32, body: &[u8]) {
	let io = sim.io();
	put32(&mut io.input, 12 + body.len() as u32, big);
	put32(&mut io.input, 4, big);
	put32(&mut io.input, id, big);
	put32(&mut io.input, service, big);
	io.input.extend_from_slice(body);
	if let Some(w) = io.reader.take() {
		w.wake();
	}
}

struct Expected {
	sim: Sim,
	info: [u32; 3],
	known: bool,
}

/// Some connections, with failures and pauses in between.
fn events(n: usize, failures: bool, words: usize) -> (Vec<Event>, Vec<Expected>) {
	let (mut events, mut expected) = (vec![], vec![]);
	for k in 0..n {
		match choose(if failures { 4 } else { 3 }, "event") {
			0 | 1 => {
				let sim = Sim::new(vec![], End::Pending, 0, 0);
				// The first number tells the connections apart.
				let mut info = [10 + k as u32, 0, 0];
				info[1] = var(if words == 3 { 32 } else { 16 }, "info") as u32;
				info[2] = if words == 3 { u32v("info") } else { 0 };
				let known = !flag("gone");
				sim.io().info = known.then_some(info);
				events.push(Event::Connection(sim.clone()));
				expected.push(Expected { sim, info, known });
			},
			2 => events.push(Event::Pause),
			_ => events.push(Event::Failure),
		}
	}
	(events, expected)
}

/// The server runs one task for every connection.
fn run<L: Kind>(n: usize, mut steps: usize) {
	let (mut ev, expected) = events(n, false, L::WORDS);
	ev.push(Event::Pause);
	let fails = flag("listener fails");
	if fails {
		ev.push(Event::Failure);
	}
	let big = flag("big endian");
	let c = config(1, 1, if big { Endian::BigEndian } else { Endian::LittleEndian });
	let front = Front::new(ev);
	let mut listener = Listener::new(L::new(&front), c);
	let mut tasks = All::new();
	let mut calls = 0;
	{
		let mut server = Task::new(listener.run(|peer, info: L::TransportInfo| {
			calls += 1;
			serve(peer, L::info(info))
		}));
		let mut result = None;
		loop {
			if let Some(r) = server.run() {
				result = Some(r);
				break;
			}
			tasks.run(&mut steps);
			if !front.wake() {
				break;
			}
			if front.q().pos == front.q().events.len() {
				result = server.run();
				break;
			}
		}
		match result {
			None => check(!fails, "a failure of the listener ends the server"),
			Some(Ok(())) => check(false, "the server ends only by a failure"),
			Some(Err(e)) => {
				check(fails, "the server only ends when the listener fails");
				check(e.raw_os_error() == Some(24), "the failure of the listener is reported");
				cover("failed");
			},
		}
		check(front.q().pos == front.q().events.len(), "the server goes on until the listener fails");
	}
	let good: Vec<&Expected> = expected.iter().filter(|e| e.known).collect();
	check(calls == good.len(), "one task per connection");
	tasks.run(&mut steps);
	for e in &expected {
		if !e.known {
			check(e.sim.io().closed, "a connection that is gone is closed");
			cover("gone");
		}
	}
	let starts: Vec<_> = log().iter().map(|l| l.0).collect();
	for g in &good {
		check(starts.iter().filter(|s| **s == g.info).count() == 1, "every task gets the information of its connection");
	}
	check(starts.len() == good.len(), "every task runs");
	log().clear();
	// One connection misbehaves or ends, the others go on.
	let victim = choose(good.len() + 1, "victim");
	if victim < good.len() {
		match choose(3, "misbehaviour") {
			0 => crate::world::end(&good[victim].sim, End::Eof),
			1 => crate::world::end(&good[victim].sim, End::Reset),
			_ => frame(&good[victim].sim, big, 0, 0, &[1, 2]),
		}
		cover("misbehaves");
	}
	let mut sent = vec![];
	for (k, g) in good.iter().enumerate() {
		let m = (u32v("id"), u32v("service"), flag("body").then(|| u8v("byte")));
		sent.push(m);
		if k != victim {
			let b: Vec<u8> = m.2.iter().copied().collect();
			frame(&g.sim, big, m.0, m.1, &b);
		}
	}
	tasks.run(&mut steps);
	for (k, g) in good.iter().enumerate() {
		let l: Vec<Seen> = log().iter().filter(|l| l.0 == g.info).map(|l| l.1).collect();
		if k == victim {
			check(!l.contains(&Seen::Error) || l.len() == 2, "nothing but the end");
			check(l.last() == Some(&Seen::End), "the task learns about the end of its connection");
			check(g.sim.io().closed, "the connection is closed");
		} else {
			let m = sent[k];
			check(l.len() == 1 && l[0] == Seen::Message(m.0, m.1, m.2), "each task receives the messages of its connection");
			let mut out = vec![];
			put32(&mut out, 12 + m.2.is_some() as u32, big);
			put32(&mut out, 4, big);
			let io = g.sim.io();
			check(io.output.len() == 16 + m.2.is_some() as usize, "one answer");
			check(same(&io.output[..8], &out), "the answer uses the configuration of the listener");
			out.clear();
			put32(&mut out, m.1, big);
			out.extend(m.2);
			check(same(&io.output[12..], &out), "each task answers on its connection");
			check(!io.closed, "the connection stays");
		}
	}
	cover("end");
}

pub fn run_unix() {
	run::<UnixListener>(3, 2)
}
pub fn run_tcp() {
	run::<TcpListener>(2, 0)
}
pub fn run_schedules() {
	run::<UnixListener>(2, 6)
}

/// Accepting one by one.
fn accept<L: Kind>(n: usize) {
	let (ev, expected) = events(n, true, L::WORDS);
	let plan: Vec<u8> = ev
		.iter()
		.map(|e| match e {
			Event::Connection(_) => 0,
			Event::Failure => 1,
			Event::Pause => 2,
		})
		.collect();
	let front = Front::new(ev);
	let mut listener = Listener::new(L::new(&front), config(1, 1, Endian::LittleEndian));
	let mut tasks = All::new();
	let mut handles = vec![];
	let mut connections = expected.iter();
	let mut started = 0;
	for what in plan {
		let mut a = Task::new(listener.accept());
		let mut r = a.run();
		if what == 2 {
			check(r.is_none() && front.q().waker.is_some(), "accepting waits for a connection");
			// The accept is abandoned; the next one gets the connection.
			cover("cancelled");
			drop(a);
			front.wake();
			continue;
		}
		match (what, r.take()) {
			(1, Some(Err(e))) => check(e.raw_os_error() == Some(24), "a failure of the listener is reported"),
			(0, Some(r)) => {
				let e = connections.next().unwrap();
				match r {
					Ok((h, info)) => {
						check(e.known && L::info(info) == e.info, "the information is that of the connection");
						handles.push((h, e));
						started += 1;
					},
					Err(_) => {
						check(!e.known, "a connection is accepted");
						check(e.sim.io().closed, "a connection that is gone is closed");
						cover("gone");
					},
				}
			},
			_ => check(false, "accepting returns what happens to the listener"),
		}
		drop(a);
		tasks.run(&mut 0);
		check(tasks.started == started, "one peer per connection");
	}
	drop(listener);
	// The connections outlive the listener, and only their handles keep them.
	let k = choose(handles.len() + 1, "drop");
	let mut dropped = None;
	if k < handles.len() {
		let (h, e) = handles.remove(k);
		drop(h);
		dropped = Some(e);
	}
	for (h, e) in &mut handles {
		let (id, service) = (u32v("id"), u32v("service"));
		frame(&e.sim, false, id, service, &[]);
		tasks.run(&mut 0);
		match Task::new(h.recv_message()).run() {
			Some(Ok(ReceivedMessage::Stream(m))) => {
				check(m.header.request_id == id && m.header.service_id as u32 == service, "each peer receives the messages of its connection")
			},
			_ => check(false, "each peer receives"),
		}
		cover("received");
	}
	tasks.run(&mut 0);
	if let Some(e) = dropped {
		check(e.sim.io().closed, "a connection without handles is closed");
	}
	for (_, e) in &handles {
		check(!e.sim.io().closed, "a connection with handles stays");
	}
	cover("end");
}

pub fn accept_unix() {
	accept::<UnixListener>(3)
}
pub fn accept_tcp() {
	accept::<TcpListener>(2)
}

/// Many connections at once, some of them gone or misbehaving.
pub fn many() {
	let n = 80;
	let (mut ev, mut sims) = (vec![], vec![]);
	let gone = choose(6, "gone");
	for k in 0..n {
		let sim = Sim::new(vec![], End::Pending, 0, 0);
		// One in five, or many in a row.
		let known = match gone {
			0 => true,
			1..=3 => k % 5 != gone,
			4 => k >= 40,
			_ => !(20..70).contains(&k),
		};
		sim.io().info = known.then_some([k as u32, 1, 2]);
		ev.push(Event::Connection(sim.clone()));
		sims.push((sim, known));
		if k % 7 == 6 {
			ev.push(Event::Pause);
		}
	}
	ev.push(Event::Pause);
	let front = Front::new(ev);
	let mut listener = Listener::new(UnixListener::new(&front), config(64, 64, Endian::LittleEndian));
	let mut tasks = All::new();
	let mut calls = 0;
	let mut server = Task::new(listener.run(|peer, info: UnixStreamInfo| {
		calls += 1;
		serve(peer, info.numbers())
	}));
	loop {
		check(server.run().is_none(), "the server ends only by a failure");
		tasks.run(&mut 0);
		if !front.wake() || front.q().pos == front.q().events.len() {
			break;
		}
	}
	check(front.q().pos == front.q().events.len(), "the server goes on until the listener fails");
	let good = sims.iter().filter(|s| s.1).count();
	check(log().len() == good, "every task runs");
	for (k, s) in sims.iter().enumerate() {
		check(log().iter().filter(|l| l.0[0] == k as u32).count() == s.1 as usize, "every task gets the information of its connection");
		check(s.0.io().closed != s.1, "a connection that is gone is closed, and no other");
	}
	log().clear();
	let bad = choose(3, "bad");
	let b = u8v("body");
	for (k, (sim, known)) in sims.iter().enumerate() {
		if *known {
			if bad > 0 && k % 4 == bad {
				crate::world::end(sim, if bad == 1 { End::Eof } else { End::Reset });
			} else {
				frame(sim, false, k as u32, k as u32 + 5, &[b]);
			}
		}
	}
	tasks.run(&mut 0);
	for (k, (sim, known)) in sims.iter().enumerate() {
		let l: Vec<Seen> = log().iter().filter(|l| l.0[0] == k as u32).map(|l| l.1).collect();
		if !known {
			check(l.is_empty(), "nothing is received from a connection that is gone");
		} else if bad > 0 && k % 4 == bad {
			check(l.last() == Some(&Seen::End) && sim.io().closed, "the task learns about the end of its connection");
		} else {
			check(l.len() == 1 && l[0] == Seen::Message(k as u32, k as u32 + 5, Some(b)), "each task receives the messages of its connection");
			check(sim.io().output.len() == 17 && sim.io().output[16] == b && !sim.io().closed, "each task answers on its connection");
		}
	}
	drop(server);
	check(calls == good, "one task per connection");
	cover("end");
}
