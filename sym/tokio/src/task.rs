//! Tasks: they are run by the harness.
use crate::verif::{queue, Task};
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

pub use real_tokio::task::yield_now;

/// The task has been aborted.
#[derive(Debug)]
pub struct JoinError(());

impl JoinError {
	pub fn is_cancelled(&self) -> bool {
		true
	}
	pub fn is_panic(&self) -> bool {
		false
	}
}

impl std::fmt::Display for JoinError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str("task was cancelled")
	}
}

impl std::error::Error for JoinError {}

impl From<JoinError> for std::io::Error {
	fn from(_: JoinError) -> Self {
		std::io::Error::new(std::io::ErrorKind::Other, "task was cancelled")
	}
}

/// What a task and its handles share.
struct State<T> {
	result: Option<T>,
	finished: bool,
	aborted: bool,
	task: Option<Waker>,
	joiner: Option<Waker>,
}

struct Shared<T>(UnsafeCell<State<T>>);
// There is one thread.
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

impl<T> Shared<T> {
	#[allow(clippy::mut_from_ref)]
	fn get(&self) -> &mut State<T> {
		unsafe { &mut *self.0.get() }
	}
	fn end(&self) {
		let s = self.get();
		s.finished = true;
		s.task = None;
		if let Some(w) = s.joiner.take() {
			w.wake();
		}
	}
}

trait Abort: Send + Sync {
	fn abort(&self);
	fn finished(&self) -> bool;
}

impl<T> Abort for Shared<T> {
	fn abort(&self) {
		let s = self.get();
		if !s.finished {
			s.aborted = true;
			if let Some(w) = s.task.take() {
				w.wake();
			}
		}
	}
	fn finished(&self) -> bool {
		self.get().finished
	}
}

struct Run<F: Future> {
	fut: Option<Pin<Box<F>>>,
	shared: Arc<Shared<F::Output>>,
}

impl<F: Future> Unpin for Run<F> {}

impl<F: Future> Future for Run<F> {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		let shared = self.shared.clone();
		if shared.get().aborted {
			self.fut = None;
			shared.end();
			return Poll::Ready(());
		}
		shared.get().task = Some(cx.waker().clone());
		match self.fut.as_mut().unwrap().as_mut().poll(cx) {
			Poll::Pending => Poll::Pending,
			Poll::Ready(x) => {
				self.fut = None;
				shared.get().result = Some(x);
				shared.end();
				Poll::Ready(())
			},
		}
	}
}

impl<F: Future> Drop for Run<F> {
	fn drop(&mut self) {
		self.fut = None;
		self.shared.get().task = None;
	}
}

pub struct JoinHandle<T> {
	shared: Arc<Shared<T>>,
}

impl<T> Unpin for JoinHandle<T> {}

impl<T> JoinHandle<T> {
	pub fn is_finished(&self) -> bool {
		self.shared.get().finished
	}
	pub fn abort(&self) {
		self.shared.abort();
	}
	pub fn abort_handle(&self) -> AbortHandle
	where
		T: 'static,
	{
		AbortHandle { shared: self.shared.clone() }
	}
}

impl<T> Future for JoinHandle<T> {
	type Output = Result<T, JoinError>;
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
		let s = self.shared.get();
		if s.finished {
			Poll::Ready(s.result.take().ok_or(JoinError(())))
		} else {
			s.joiner = Some(cx.waker().clone());
			Poll::Pending
		}
	}
}

impl<T> std::fmt::Debug for JoinHandle<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str("JoinHandle")
	}
}

#[derive(Clone)]
pub struct AbortHandle {
	shared: Arc<dyn Abort>,
}

impl AbortHandle {
	pub fn abort(&self) {
		self.shared.abort();
	}
	pub fn is_finished(&self) -> bool {
		self.shared.finished()
	}
}

impl std::fmt::Debug for AbortHandle {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str("AbortHandle")
	}
}

/// Queue a task for the harness.
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
	F: Future + Send + 'static,
	F::Output: Send + 'static,
{
	let shared = Arc::new(Shared(UnsafeCell::new(State {
		result: None,
		finished: false,
		aborted: false,
		task: None,
		joiner: None,
	})));
	let task: Task = Box::pin(Run { fut: Some(Box::pin(f)), shared: shared.clone() });
	queue(task);
	JoinHandle { shared }
}

/// Tasks that are aborted together.
pub struct JoinSet<T> {
	tasks: Vec<JoinHandle<T>>,
}

impl<T: Send + 'static> JoinSet<T> {
	pub fn spawn<F>(&mut self, f: F) -> AbortHandle
	where
		F: Future<Output = T> + Send + 'static,
	{
		let h = spawn(f);
		let a = h.abort_handle();
		self.tasks.push(h);
		a
	}
	pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
		std::future::poll_fn(|cx| self.poll_join_next(cx)).await
	}
	pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
		if self.tasks.is_empty() {
			return Poll::Ready(None);
		}
		for k in 0..self.tasks.len() {
			if let Poll::Ready(x) = Pin::new(&mut self.tasks[k]).poll(cx) {
				self.tasks.swap_remove(k);
				return Poll::Ready(Some(x));
			}
		}
		Poll::Pending
	}
	pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
		let k = self.tasks.iter().position(|x| x.is_finished())?;
		Some(self.tasks.swap_remove(k).shared.get().result.take().ok_or(JoinError(())))
	}
	pub async fn shutdown(&mut self) {
		self.abort_all();
		while self.join_next().await.is_some() {}
	}
}

impl<T> JoinSet<T> {
	pub fn new() -> Self {
		Self { tasks: Vec::new() }
	}
	pub fn len(&self) -> usize {
		self.tasks.len()
	}
	pub fn is_empty(&self) -> bool {
		self.tasks.is_empty()
	}
	pub fn abort_all(&mut self) {
		for x in &self.tasks {
			x.abort();
		}
	}
	pub fn detach_all(&mut self) {
		self.tasks.clear();
	}
}

impl<T> Default for JoinSet<T> {
	fn default() -> Self {
		Self::new()
	}
}

impl<T> Drop for JoinSet<T> {
	fn drop(&mut self) {
		self.abort_all();
	}
}
