//! A peer on a simulated stream, driven step by step.
use crate::rt::*;
use crate::sim::*;
use crate::stream::{config, get32, put32};
use fizyr_rpc::transport::Endian;
use fizyr_rpc::{Message, Peer, PeerHandle, StreamBody, UnixStreamTransport};
use std::cell::UnsafeCell;
use std::future::Future;
use std::rc::Rc;

pub type Handle = PeerHandle<StreamBody>;

pub const REQUEST: u32 = 0;
pub const RESPONSE: u32 = 1;
pub const REQUESTER_UPDATE: u32 = 2;
pub const RESPONDER_UPDATE: u32 = 3;
pub const STREAM: u32 = 4;

/// A message as it appears on the wire.
#[derive(Clone, Debug)]
pub struct Msg {
	pub kind: u32,
	pub id: u32,
	pub service: u32,
	pub body: Vec<u8>,
}

pub fn msg(kind: u32, id: u32, service: u32, body: &[u8]) -> Msg {
	Msg { kind, id, service, body: body.to_vec() }
}

impl Msg {
	pub fn is(&self, m: &Message<StreamBody>) -> bool {
		(m.header.message_type as u32 == self.kind)
			& (m.header.request_id == self.id)
			& (m.header.service_id as u32 == self.service)
			& same(&m.body.data, &self.body)
	}
	pub fn eq(&self, m: &Msg) -> bool {
		(m.kind == self.kind) & (m.id == self.id) & (m.service == self.service) & same(&m.body, &self.body)
	}
}

/// Something the scheduler can let happen.
pub trait Act {
	fn enabled(&self) -> bool;
	fn step(&mut self);
}

/// A user task with its result.
pub struct Job<'a, T> {
	pub task: Task<'a, T>,
	pub out: Option<T>,
}

impl<'a, T> Job<'a, T> {
	pub fn new(f: impl Future<Output = T> + 'a) -> Self {
		Self { task: Task::new(f), out: None }
	}
	pub fn done(&self) -> bool {
		self.out.is_some()
	}
	/// Let the task go on as far as it gets.
	pub fn go(&mut self) -> bool {
		if let Some(v) = self.task.run() {
			self.out = Some(v);
		}
		self.out.is_some()
	}
	/// Stop the task.
	pub fn cancel(&mut self) {
		self.task.fut = None;
	}
}

impl<T> Act for Job<'_, T> {
	fn enabled(&self) -> bool {
		self.task.runnable()
	}
	fn step(&mut self) {
		if let Some(v) = self.task.poll() {
			self.out = Some(v);
		}
	}
}

/// A task that may be given up at any time.
pub struct Shared<'a, T>(pub Rc<UnsafeCell<Job<'a, T>>>);

impl<'a, T> Shared<'a, T> {
	pub fn new(job: Job<'a, T>) -> (Self, GiveUp<'a, T>) {
		let job = Rc::new(UnsafeCell::new(job));
		(Self(job.clone()), GiveUp { job, done: false })
	}
	#[allow(clippy::mut_from_ref)]
	pub fn job(&self) -> &mut Job<'a, T> {
		unsafe { &mut *self.0.get() }
	}
}

impl<T> Act for Shared<'_, T> {
	fn enabled(&self) -> bool {
		self.job().enabled()
	}
	fn step(&mut self) {
		self.job().step()
	}
}

pub struct GiveUp<'a, T> {
	job: Rc<UnsafeCell<Job<'a, T>>>,
	pub done: bool,
}

impl<T> Act for GiveUp<'_, T> {
	fn enabled(&self) -> bool {
		!self.done && unsafe { &*self.job.get() }.out.is_none()
	}
	fn step(&mut self) {
		self.done = true;
		unsafe { &mut *self.job.get() }.cancel()
	}
}

/// Poll once.
pub fn now<T>(f: impl Future<Output = T>) -> Option<T> {
	let mut j = Job::new(f);
	j.step();
	j.out
}

/// Makes stalled reads and writes go on.
pub struct Wake(pub Sim);

impl Act for Wake {
	fn enabled(&self) -> bool {
		let io = self.0.io();
		io.writer.is_some() || (io.reader.is_some() && io.pos < io.input.len())
	}
	fn step(&mut self) {
		self.0.fire();
	}
}

/// Events that happen in the given order, at any time.
pub struct Script<F: FnMut(usize)> {
	pub next: usize,
	pub count: usize,
	pub f: F,
}

impl<F: FnMut(usize)> Script<F> {
	pub fn new(count: usize, f: F) -> Self {
		Self { next: 0, count, f }
	}
}

impl<F: FnMut(usize)> Act for Script<F> {
	fn enabled(&self) -> bool {
		self.next < self.count
	}
	fn step(&mut self) {
		let k = self.next;
		self.next += 1;
		(self.f)(k)
	}
}

/// Let everything that can happen do so, in any order.
pub fn explore(acts: &mut [&mut dyn Act]) {
	explore_n(acts, usize::MAX)
}

/// The same with the first `k` decisions left open; later ones are made round robin.
pub fn explore_n(acts: &mut [&mut dyn Act], mut k: usize) {
	let mut turn = 0;
	loop {
		let mut n = 0;
		for a in acts.iter() {
			if a.enabled() {
				n += 1;
			}
		}
		if n == 0 {
			return;
		}
		let mut c = if k == 0 {
			turn += 1;
			turn % n
		} else {
			if n > 1 {
				k -= 1;
			}
			choose(n, "schedule")
		};
		for a in acts.iter_mut() {
			if a.enabled() {
				if c == 0 {
					a.step();
					break;
				}
				c -= 1;
			}
		}
	}
}

/// Let everything that can happen do so, in the given order.
pub fn settle(acts: &mut [&mut dyn Act]) {
	loop {
		let mut any = false;
		for a in acts.iter_mut() {
			while a.enabled() {
				a.step();
				any = true;
			}
		}
		if !any {
			return;
		}
	}
}

pub struct World {
	pub sim: Sim,
	pub peer: Job<'static, ()>,
	/// Bytes of the output which have been looked at.
	pub seen: usize,
}

pub const LIMIT: u32 = 40;

/// A peer with its handle.
pub fn world_with(read_limit: u32, write_limit: u32) -> (World, Handle) {
	let sim = Sim::new(vec![], End::Pending, 0, 0);
	let t = UnixStreamTransport::new(sim.stream(), config(read_limit, write_limit, Endian::LittleEndian));
	let (peer, handle) = Peer::new(t);
	let peer = Job::new(peer.run());
	(World { sim, peer, seen: 0 }, handle)
}

pub fn world() -> (World, Handle) {
	world_with(64, 64)
}

impl World {
	/// A message arrives.
	pub fn feed(&mut self, m: &Msg) {
		feed(&self.sim, m)
	}
	pub fn go(&mut self) -> bool {
		self.peer.go()
	}
	/// Deliver a message and let the peer process it.
	pub fn receive(&mut self, m: &Msg) {
		self.feed(m);
		self.go();
	}
	/// The messages sent since the last call.
	pub fn sent(&mut self) -> Vec<Msg> {
		let (m, n) = parse(&self.sim.io().output[self.seen..]);
		self.seen += n;
		m
	}
	/// Exactly one message was sent.
	pub fn sent_one(&mut self) -> Msg {
		let mut m = self.sent();
		check(m.len() == 1, "exactly one message is sent");
		m.pop().unwrap()
	}
	pub fn nothing_sent(&mut self) {
		check(self.sent().is_empty(), "nothing is sent");
	}
	/// Let a user future and the peer run to completion.
	pub fn wait<T>(&mut self, f: impl Future<Output = T>) -> T {
		match self.try_wait(f) {
			Some(v) => v,
			None => {
				check(false, "the operation completes");
				done()
			},
		}
	}
	pub fn try_wait<T>(&mut self, f: impl Future<Output = T>) -> Option<T> {
		let mut j = Job::new(f);
		settle(&mut [&mut j, &mut self.peer]);
		j.out
	}
	/// The connection ends.
	pub fn end(&mut self, e: End) {
		end(&self.sim, e)
	}
}

pub fn end(sim: &Sim, e: End) {
	let io = sim.io();
	io.end = e;
	if let Some(w) = io.reader.take() {
		w.wake();
	}
}

pub fn feed(sim: &Sim, m: &Msg) {
	let io = sim.io();
	put32(&mut io.input, m.body.len() as u32 + 12, false);
	put32(&mut io.input, m.kind, false);
	put32(&mut io.input, m.id, false);
	put32(&mut io.input, m.service, false);
	io.input.extend_from_slice(&m.body);
	if let Some(w) = io.reader.take() {
		w.wake();
	}
}

/// Complete messages at the start of `b`, and their length in bytes.
pub fn parse(b: &[u8]) -> (Vec<Msg>, usize) {
	let mut out = vec![];
	let mut pos = 0;
	while b.len() - pos >= 16 {
		let len = concrete(get32(&b[pos..], false) as u64) as usize;
		check(len >= 12, "length field covers the header");
		if b.len() - pos < 4 + len {
			break;
		}
		out.push(Msg {
			kind: get32(&b[pos + 4..], false),
			id: get32(&b[pos + 8..], false),
			service: get32(&b[pos + 12..], false),
			body: b[pos + 16..pos + 4 + len].to_vec(),
		});
		pos += 4 + len;
	}
	(out, pos)
}
