//! Interface between the stand-ins and the harness.
use std::future::Future;
use std::io::{IoSlice, Result};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

/// A byte stream controlled by the harness.
pub trait StreamIo {
	fn poll_read(&mut self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>>;
	fn poll_write(&mut self, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize>>;
	fn poll_flush(&mut self, _cx: &mut Context<'_>) -> Poll<Result<()>> {
		Poll::Ready(Ok(()))
	}
	/// What the system knows about the other side: user, group, process, or local and remote port.
	fn info(&mut self) -> Result<[u32; 3]> {
		Ok([0, 1, 2])
	}
	/// Called when the socket is closed (dropped).
	fn closed(&mut self) {}
}

pub type Task = Pin<Box<dyn Future<Output = ()> + 'static>>;

static mut SPAWNED: Vec<Task> = Vec::new();

pub(crate) fn queue(task: Task) {
	#[allow(static_mut_refs)]
	unsafe {
		SPAWNED.push(task)
	}
}

/// Take the tasks spawned since the last call.
pub fn take_spawned() -> Vec<Task> {
	#[allow(static_mut_refs)]
	unsafe {
		std::mem::take(&mut SPAWNED)
	}
}

/// Readiness of one direction of a file descriptor.
pub struct Readiness {
	pub ready: bool,
	pub waker: Option<Waker>,
}

pub(crate) struct FdState {
	pub fd: i32,
	pub dirs: [std::cell::UnsafeCell<Readiness>; 2],
}
unsafe impl Send for FdState {}
unsafe impl Sync for FdState {}

static mut FDS: Vec<Arc<FdState>> = Vec::new();

pub(crate) fn register(fd: i32) -> Arc<FdState> {
	let r = || std::cell::UnsafeCell::new(Readiness { ready: true, waker: None });
	let s = Arc::new(FdState { fd, dirs: [r(), r()] });
	#[allow(static_mut_refs)]
	unsafe {
		FDS.push(s.clone())
	};
	s
}

/// Make a file descriptor ready and wake whoever waits for it.
pub fn make_ready(fd: i32, write: bool) {
	#[allow(static_mut_refs)]
	let all = unsafe { &FDS };
	for s in all.iter() {
		if s.fd == fd {
			let r = unsafe { &mut *s.dirs[write as usize].get() };
			r.ready = true;
			if let Some(w) = r.waker.take() {
				w.wake();
			}
		}
	}
}

/// Does somebody wait for this file descriptor?
pub fn waiting(fd: i32, write: bool) -> bool {
	#[allow(static_mut_refs)]
	let all = unsafe { &FDS };
	all.iter().any(|s| s.fd == fd && unsafe { &*s.dirs[write as usize].get() }.waker.is_some())
}

/// Behaviour of a listening socket.
pub trait AcceptIo {
	fn poll_accept(&mut self, cx: &mut Context<'_>) -> Poll<Result<Box<dyn StreamIo>>>;
}

/// The namespace in which sockets are bound and found.
pub trait Names {
	fn bind(&mut self, address: &[u8]) -> Result<Box<dyn AcceptIo>>;
	fn connect(&mut self, address: &[u8]) -> Result<Box<dyn StreamIo>>;
}

static mut NAMES: Option<Box<dyn Names>> = None;

pub fn set_names(names: Box<dyn Names>) {
	unsafe { NAMES = Some(names) }
}

#[allow(static_mut_refs)]
pub(crate) fn names() -> Result<&'static mut Box<dyn Names>> {
	unsafe { NAMES.as_mut().ok_or_else(|| std::io::ErrorKind::Unsupported.into()) }
}
