//! The environment: a waker that records whether it was used, and byte streams whose behaviour is symbolic.
use crate::rt::*;
use std::cell::{Cell, UnsafeCell};
use std::future::Future;
use std::io::{ErrorKind, IoSlice, Result};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use tokio::verif::StreamIo;

/// Whether a task has been woken since it was polled last.
pub struct Flag(&'static Cell<bool>);

static VTABLE: RawWakerVTable = RawWakerVTable::new(
	|p| RawWaker::new(p, &VTABLE),
	|p| unsafe { (*(p as *const Cell<bool>)).set(true) },
	|p| unsafe { (*(p as *const Cell<bool>)).set(true) },
	|_| (),
);

/// The number of flags, each of one byte that stays allocated.
static mut FLAGS: usize = 0;

/// The number of bytes allocated by anything but flags.
pub fn used() -> usize {
	live() - unsafe { FLAGS }
}

impl Flag {
	pub fn new() -> Self {
		unsafe { FLAGS += 1 };
		Self(Box::leak(Box::new(Cell::new(true))))
	}
	pub fn waker(&self) -> Waker {
		unsafe { Waker::from_raw(RawWaker::new(self.0 as *const Cell<bool> as *const (), &VTABLE)) }
	}
	pub fn take(&self) -> bool {
		self.0.replace(false)
	}
	pub fn is_set(&self) -> bool {
		self.0.get()
	}
	pub fn set(&self) {
		self.0.set(true)
	}
}

/// A future together with its wake flag.
pub struct Task<'a, T> {
	pub fut: Option<Pin<Box<dyn Future<Output = T> + 'a>>>,
	pub flag: Flag,
}

impl<'a, T> Task<'a, T> {
	pub fn new(f: impl Future<Output = T> + 'a) -> Self {
		Self { fut: Some(Box::pin(f)), flag: Flag::new() }
	}
	pub fn pending(&self) -> bool {
		self.fut.is_some()
	}
	/// Would an executor poll this task now?
	pub fn runnable(&self) -> bool {
		self.fut.is_some() && self.flag.is_set()
	}
	/// Poll the task if it has been woken.
	pub fn poll(&mut self) -> Option<T> {
		let f = self.fut.as_mut()?;
		if !self.flag.take() {
			return None;
		}
		let w = self.flag.waker();
		let r = f.as_mut().poll(&mut Context::from_waker(&w));
		match r {
			Poll::Ready(v) => {
				self.fut = None;
				Some(v)
			},
			Poll::Pending => None,
		}
	}
	/// Poll until it is done or not woken any more.
	pub fn run(&mut self) -> Option<T> {
		while self.runnable() {
			if let Some(v) = self.poll() {
				return Some(v);
			}
		}
		None
	}
}

/// What a stream does after its last byte.
#[derive(Clone, Copy, PartialEq)]
pub enum End {
	Pending,
	Eof,
	Reset,
}

pub struct Io {
	pub input: Vec<u8>,
	pub pos: usize,
	pub end: End,
	/// Number of reads and writes the environment splits or delays as it likes; later ones run at once.
	pub read_steps: usize,
	pub write_steps: usize,
	/// A write that is not ready stays so until it is woken.
	pub sticky: bool,
	pub output: Vec<u8>,
	pub out_limit: usize,
	/// Fail writes once this many bytes have been written.
	pub write_fail_at: usize,
	pub reader: Option<Waker>,
	pub writer: Option<Waker>,
	/// The number of bytes whose boundary between calls is not of interest.
	pub closed: bool,
	pub reads: usize,
	pub writes: usize,
	pub eof_seen: bool,
	/// Positions in the streams at which a transfer stops, and the next one is delayed once.
	pub read_cuts: Vec<usize>,
	pub write_cuts: Vec<usize>,
	/// What the system tells about the other side, if it still knows.
	pub info: Option<[u32; 3]>,
}

#[derive(Clone)]
pub struct Sim(pub Rc<UnsafeCell<Io>>);

impl Sim {
	pub fn new(input: Vec<u8>, end: End, read_steps: usize, write_steps: usize) -> Self {
		Self(Rc::new(UnsafeCell::new(Io {
			input,
			pos: 0,
			end,
			read_steps,
			write_steps,
			sticky: false,
			output: Vec::new(),
			out_limit: usize::MAX,
			write_fail_at: usize::MAX,
			reader: None,
			writer: None,
			closed: false,
			reads: 0,
			writes: 0,
			eof_seen: false,
			read_cuts: vec![],
			write_cuts: vec![],
			info: Some([1, 2, 3]),
		})))
	}
	#[allow(clippy::mut_from_ref)]
	pub fn io(&self) -> &mut Io {
		unsafe { &mut *self.0.get() }
	}
	/// Wake whoever waits for the stream.
	pub fn fire(&self) -> bool {
		let io = self.io();
		let mut any = false;
		if let Some(w) = io.reader.take() {
			w.wake();
			any = true;
		}
		if let Some(w) = io.writer.take() {
			w.wake();
			any = true;
		}
		any
	}
	pub fn stream(&self) -> tokio::net::UnixStream {
		tokio::net::UnixStream::from_io(Box::new(self.clone()))
	}
	pub fn tcp(&self) -> tokio::net::TcpStream {
		tokio::net::TcpStream::from_io(Box::new(self.clone()))
	}
}

/// The number of bytes up to the next cut, 0 at the cut itself.
fn cut(cuts: &mut Vec<usize>, pos: usize, n: usize) -> usize {
	match cuts.first() {
		Some(c) if *c <= pos => {
			cuts.remove(0);
			0
		},
		Some(c) => n.min(*c - pos),
		None => n,
	}
}

impl StreamIo for Sim {
	fn poll_read(&mut self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
		let io = self.io();
		io.reads += 1;
		let left = io.input.len() - io.pos;
		let mut n = left.min(buf.len());
		if buf.is_empty() {
			return Poll::Ready(Ok(0));
		}
		if n == 0 {
			return match io.end {
				End::Pending => {
					io.reader = Some(cx.waker().clone());
					Poll::Pending
				},
				End::Eof => {
					io.eof_seen = true;
					Poll::Ready(Ok(0))
				},
				End::Reset => {
					io.eof_seen = true;
					Poll::Ready(Err(ErrorKind::ConnectionReset.into()))
				},
			};
		}
		match cut(&mut io.read_cuts, io.pos, n) {
			0 => {
				io.reader = Some(cx.waker().clone());
				return Poll::Pending;
			},
			k => n = k,
		}
		if io.read_steps > 0 {
			io.read_steps -= 1;
			// 0 means not ready.
			let k = concrete(range(0, n as u64, "read")) as usize;
			if k == 0 {
				io.reader = Some(cx.waker().clone());
				return Poll::Pending;
			}
			n = k;
		}
		buf[..n].copy_from_slice(&io.input[io.pos..io.pos + n]);
		io.pos += n;
		Poll::Ready(Ok(n))
	}

	fn poll_write(&mut self, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize>> {
		let io = self.io();
		io.writes += 1;
		let total: usize = bufs.iter().map(|b| b.len()).sum();
		if io.output.len() >= io.write_fail_at {
			return Poll::Ready(Err(ErrorKind::BrokenPipe.into()));
		}
		let mut n = total;
		if io.sticky && io.writer.is_some() {
			io.writer = Some(cx.waker().clone());
			return Poll::Pending;
		}
		match cut(&mut io.write_cuts, io.output.len(), n) {
			0 if n > 0 => {
				io.writer = Some(cx.waker().clone());
				return Poll::Pending;
			},
			k => n = k,
		}
		if total > 0 && io.write_steps > 0 {
			io.write_steps -= 1;
			let k = concrete(range(0, n as u64, "write")) as usize;
			if k == 0 {
				io.writer = Some(cx.waker().clone());
				return Poll::Pending;
			}
			n = k;
		}
		n = n.min(io.write_fail_at - io.output.len());
		let mut left = n;
		for b in bufs {
			let k = b.len().min(left);
			io.output.extend_from_slice(&b[..k]);
			left -= k;
		}
		check(io.output.len() <= io.out_limit, "more bytes written than the messages contain");
		Poll::Ready(Ok(n))
	}

	fn info(&mut self) -> Result<[u32; 3]> {
		self.io().info.ok_or_else(|| ErrorKind::NotConnected.into())
	}

	fn closed(&mut self) {
		self.io().closed = true;
	}
}

/// Run a future to completion, with the environment making the stream ready whenever nothing else can run.
/// `None`: it waits for something that will never happen.
pub fn drive<T>(sim: &Sim, f: impl Future<Output = T>) -> Option<T> {
	let mut t = Task::new(f);
	loop {
		if let Some(v) = t.run() {
			return Some(v);
		}
		// Waiting for input which never comes?
		let io = sim.io();
		if io.pos == io.input.len() && io.end == End::Pending && io.writer.is_none() {
			return None;
		}
		check(sim.fire(), "a stalled operation waits for the stream");
		check(t.flag.is_set(), "the task is woken when the stream becomes ready");
	}
}

pub fn bytes(n: usize, name: &str) -> Vec<u8> {
	(0..n).map(|_| u8v(name)).collect()
}

pub fn same(a: &[u8], b: &[u8]) -> bool {
	if a.len() != b.len() {
		return false;
	}
	let mut d = 0u8;
	for i in 0..a.len() {
		d |= a[i] ^ b[i];
	}
	d == 0
}

/// One direction of a connection between two simulated sockets, with a bounded buffer.
pub struct Pipe {
	pub data: Vec<u8>,
	pub pos: usize,
	pub room: usize,
	/// Number of reads and writes that are split as the environment likes.
	pub steps: usize,
	pub reader: Option<Waker>,
	pub writer: Option<Waker>,
	pub closed: bool,
}

pub type PipeRef = Rc<UnsafeCell<Pipe>>;

pub fn pipe(room: usize, steps: usize) -> PipeRef {
	Rc::new(UnsafeCell::new(Pipe { data: vec![], pos: 0, room, steps, reader: None, writer: None, closed: false }))
}

pub struct Duplex {
	pub rx: PipeRef,
	pub tx: PipeRef,
}

#[allow(clippy::mut_from_ref)]
fn end_of(p: &PipeRef) -> &mut Pipe {
	unsafe { &mut *p.get() }
}

impl StreamIo for Duplex {
	fn poll_read(&mut self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
		let p = end_of(&self.rx);
		let mut n = (p.data.len() - p.pos).min(buf.len());
		if n == 0 {
			if p.closed || buf.is_empty() {
				return Poll::Ready(Ok(0));
			}
			p.reader = Some(cx.waker().clone());
			return Poll::Pending;
		}
		if p.steps > 0 {
			p.steps -= 1;
			n = concrete(range(1, n as u64, "read")) as usize;
		}
		buf[..n].copy_from_slice(&p.data[p.pos..p.pos + n]);
		p.pos += n;
		if let Some(w) = p.writer.take() {
			w.wake();
		}
		Poll::Ready(Ok(n))
	}

	fn poll_write(&mut self, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize>> {
		let p = end_of(&self.tx);
		if p.closed {
			return Poll::Ready(Err(ErrorKind::BrokenPipe.into()));
		}
		let total: usize = bufs.iter().map(|b| b.len()).sum();
		let mut n = total.min(p.room - (p.data.len() - p.pos));
		if total > 0 && n == 0 {
			p.writer = Some(cx.waker().clone());
			return Poll::Pending;
		}
		if p.steps > 0 && n > 0 {
			p.steps -= 1;
			n = concrete(range(1, n as u64, "write")) as usize;
		}
		let mut left = n;
		for b in bufs {
			let k = b.len().min(left);
			p.data.extend_from_slice(&b[..k]);
			left -= k;
		}
		if let Some(w) = p.reader.take() {
			w.wake();
		}
		Poll::Ready(Ok(n))
	}

	fn closed(&mut self) {
		for p in [&self.rx, &self.tx] {
			let p = end_of(p);
			p.closed = true;
			for w in [p.reader.take(), p.writer.take()].into_iter().flatten() {
				w.wake();
			}
		}
	}
}

/// Two connected sockets.
pub fn connected(room: usize, steps: usize) -> (tokio::net::UnixStream, tokio::net::UnixStream) {
	let (a, b) = (pipe(room, steps), pipe(room, steps));
	(
		tokio::net::UnixStream::from_io(Box::new(Duplex { rx: a.clone(), tx: b.clone() })),
		tokio::net::UnixStream::from_io(Box::new(Duplex { rx: b, tx: a })),
	)
}
