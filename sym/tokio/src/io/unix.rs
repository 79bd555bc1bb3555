//! `AsyncFd` with readiness controlled by the harness.
use crate::verif::{register, FdState};
use std::future::poll_fn;
use std::io::{ErrorKind, Result};
use std::os::unix::io::{AsRawFd, RawFd};
use std::sync::Arc;
use std::task::{Context, Poll};

pub struct AsyncFd<T: AsRawFd> {
	state: Arc<FdState>,
	inner: Option<T>,
}

#[derive(Debug)]
pub struct TryIoError(());

pub struct AsyncFdReadyGuard<'a, T: AsRawFd> {
	fd: &'a AsyncFd<T>,
	dir: usize,
}

impl<T: AsRawFd> AsyncFd<T> {
	pub fn new(inner: T) -> Result<Self> {
		Ok(Self { state: register(inner.as_raw_fd()), inner: Some(inner) })
	}
	pub fn get_ref(&self) -> &T {
		self.inner.as_ref().unwrap()
	}
	pub fn get_mut(&mut self) -> &mut T {
		self.inner.as_mut().unwrap()
	}
	pub fn into_inner(mut self) -> T {
		self.inner.take().unwrap()
	}
	fn poll_dir(&self, cx: &mut Context<'_>, dir: usize) -> Poll<Result<AsyncFdReadyGuard<'_, T>>> {
		let r = unsafe { &mut *self.state.dirs[dir].get() };
		if r.ready {
			Poll::Ready(Ok(AsyncFdReadyGuard { fd: self, dir }))
		} else {
			r.waker = Some(cx.waker().clone());
			Poll::Pending
		}
	}
	pub fn poll_read_ready<'a>(&'a self, cx: &mut Context<'_>) -> Poll<Result<AsyncFdReadyGuard<'a, T>>> {
		self.poll_dir(cx, 0)
	}
	pub fn poll_write_ready<'a>(&'a self, cx: &mut Context<'_>) -> Poll<Result<AsyncFdReadyGuard<'a, T>>> {
		self.poll_dir(cx, 1)
	}
	pub async fn readable(&self) -> Result<AsyncFdReadyGuard<'_, T>> {
		poll_fn(|cx| self.poll_dir(cx, 0)).await
	}
	pub async fn writable(&self) -> Result<AsyncFdReadyGuard<'_, T>> {
		poll_fn(|cx| self.poll_dir(cx, 1)).await
	}
}

impl<T: AsRawFd> AsRawFd for AsyncFd<T> {
	fn as_raw_fd(&self) -> RawFd {
		self.get_ref().as_raw_fd()
	}
}

impl<'a, T: AsRawFd> AsyncFdReadyGuard<'a, T> {
	pub fn clear_ready(&mut self) {
		unsafe { &mut *self.fd.state.dirs[self.dir].get() }.ready = false;
	}
	pub fn retain_ready(&mut self) {}
	pub fn try_io<R>(&mut self, f: impl FnOnce(&'a AsyncFd<T>) -> Result<R>) -> std::result::Result<Result<R>, TryIoError> {
		let result = f(self.fd);
		match result {
			Err(e) if e.kind() == ErrorKind::WouldBlock => {
				self.clear_ready();
				Err(TryIoError(()))
			},
			result => Ok(result),
		}
	}
}
