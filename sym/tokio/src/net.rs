//! Sockets whose behaviour is chosen by the harness.
use crate::io::{AsyncRead, AsyncWrite, ReadBuf};
use crate::verif::{names, AcceptIo, StreamIo};
use std::cell::UnsafeCell;
use std::io::{IoSlice, Result};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

struct Shared(UnsafeCell<Box<dyn StreamIo>>);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

impl Shared {
	#[allow(clippy::mut_from_ref)]
	fn io(&self) -> &mut dyn StreamIo {
		unsafe { &mut **self.0.get() }
	}
	fn read(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
		let n = {
			let dest = buf.initialize_unfilled();
			match self.io().poll_read(cx, dest) {
				Poll::Pending => return Poll::Pending,
				Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
				Poll::Ready(Ok(n)) => n,
			}
		};
		buf.advance(n);
		Poll::Ready(Ok(()))
	}
}

impl Drop for Shared {
	fn drop(&mut self) {
		self.0.get_mut().closed();
	}
}

macro_rules! impl_io {
	($t:ty, read) => {
		impl AsyncRead for $t {
			fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
				self.io.read(cx, buf)
			}
		}
	};
	($t:ty, write) => {
		impl AsyncWrite for $t {
			fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
				self.io.io().poll_write(cx, &[IoSlice::new(buf)])
			}
			fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize>> {
				self.io.io().poll_write(cx, bufs)
			}
			fn is_write_vectored(&self) -> bool {
				true
			}
			fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
				self.io.io().poll_flush(cx)
			}
			fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Result<()>> {
				Poll::Ready(Ok(()))
			}
		}
	};
}

macro_rules! stream {
	($name:ident, $module:ident) => {
		pub struct $name {
			io: Arc<Shared>,
		}
		impl std::fmt::Debug for $name {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				f.write_str(stringify!($name))
			}
		}
		impl $name {
			/// Harness side constructor.
			pub fn from_io(io: Box<dyn StreamIo>) -> Self {
				Self { io: Arc::new(Shared(UnsafeCell::new(io))) }
			}
			pub fn split(&mut self) -> ($module::ReadHalf<'_>, $module::WriteHalf<'_>) {
				(
					$module::ReadHalf { io: self.io.clone(), _stream: std::marker::PhantomData },
					$module::WriteHalf { io: self.io.clone(), _stream: std::marker::PhantomData },
				)
			}
			pub fn into_split(self) -> ($module::OwnedReadHalf, $module::OwnedWriteHalf) {
				($module::OwnedReadHalf { io: self.io.clone() }, $module::OwnedWriteHalf { io: self.io })
			}
		}
		impl_io!($name, read);
		impl_io!($name, write);
		impl_io!($module::ReadHalf<'_>, read);
		impl_io!($module::WriteHalf<'_>, write);
		impl_io!($module::OwnedReadHalf, read);
		impl_io!($module::OwnedWriteHalf, write);
	};
}

macro_rules! halves {
	() => {
		pub struct ReadHalf<'a> {
			pub(super) io: std::sync::Arc<super::Shared>,
			pub(super) _stream: std::marker::PhantomData<&'a ()>,
		}
		pub struct WriteHalf<'a> {
			pub(super) io: std::sync::Arc<super::Shared>,
			pub(super) _stream: std::marker::PhantomData<&'a ()>,
		}
		pub struct OwnedReadHalf {
			pub(super) io: std::sync::Arc<super::Shared>,
		}
		pub struct OwnedWriteHalf {
			pub(super) io: std::sync::Arc<super::Shared>,
		}
	};
}

stream!(UnixStream, unix);
stream!(TcpStream, tcp);

impl UnixStream {
	pub async fn connect<P: AsRef<std::path::Path>>(path: P) -> Result<Self> {
		names()?.connect(path.as_ref().as_os_str().as_encoded_bytes()).map(Self::from_io)
	}
	pub fn peer_cred(&self) -> Result<unix::UCred> {
		self.io.io().info().map(unix::UCred)
	}
}

pub trait ToSocketAddrs {
	fn text(&self) -> Vec<u8>;
}
impl ToSocketAddrs for std::net::SocketAddr {
	fn text(&self) -> Vec<u8> {
		self.to_string().into()
	}
}
impl ToSocketAddrs for &str {
	fn text(&self) -> Vec<u8> {
		self.as_bytes().to_vec()
	}
}
impl ToSocketAddrs for String {
	fn text(&self) -> Vec<u8> {
		self.as_bytes().to_vec()
	}
}
impl ToSocketAddrs for (&str, u16) {
	fn text(&self) -> Vec<u8> {
		format!("{}:{}", self.0, self.1).into()
	}
}

impl TcpStream {
	pub async fn connect<A: ToSocketAddrs>(address: A) -> Result<Self> {
		names()?.connect(&address.text()).map(Self::from_io)
	}
	pub fn local_addr(&self) -> Result<std::net::SocketAddr> {
		self.io.io().info().map(|i| std::net::SocketAddr::from(([127, 0, 0, 1], i[0] as u16)))
	}
	pub fn peer_addr(&self) -> Result<std::net::SocketAddr> {
		self.io.io().info().map(|i| std::net::SocketAddr::from(([127, 0, 0, 1], i[1] as u16)))
	}
	pub fn set_nodelay(&self, _nodelay: bool) -> Result<()> {
		Ok(())
	}
}

pub mod unix {
	halves!();
	pub struct UCred(pub(super) [u32; 3]);
	impl UCred {
		pub fn uid(&self) -> u32 {
			self.0[0]
		}
		pub fn gid(&self) -> u32 {
			self.0[1]
		}
		pub fn pid(&self) -> Option<i32> {
			Some(self.0[2] as i32)
		}
	}
	#[derive(Debug)]
	pub struct SocketAddr(pub(super) ());
}

pub mod tcp {
	halves!();
}

macro_rules! listener {
	($name:ident, $stream:ident, $addr:ty, $mk:expr) => {
		pub struct $name {
			io: UnsafeCell<Box<dyn AcceptIo>>,
		}
		unsafe impl Send for $name {}
		unsafe impl Sync for $name {}
		impl std::fmt::Debug for $name {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				f.write_str(stringify!($name))
			}
		}
		impl $name {
			/// Harness side constructor.
			pub fn from_io(io: Box<dyn AcceptIo>) -> Self {
				Self { io: UnsafeCell::new(io) }
			}
			pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<Result<($stream, $addr)>> {
				match unsafe { &mut *self.io.get() }.poll_accept(cx) {
					Poll::Pending => Poll::Pending,
					Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
					Poll::Ready(Ok(io)) => Poll::Ready(Ok(($stream::from_io(io), $mk))),
				}
			}
		}
	};
}

listener!(UnixListener, UnixStream, unix::SocketAddr, unix::SocketAddr(()));
listener!(TcpListener, TcpStream, std::net::SocketAddr, std::net::SocketAddr::from(([127, 0, 0, 1], 2)));

impl UnixListener {
	pub fn bind<P: AsRef<std::path::Path>>(path: P) -> Result<Self> {
		names()?.bind(path.as_ref().as_os_str().as_encoded_bytes()).map(Self::from_io)
	}
}

impl TcpListener {
	pub async fn bind<A: ToSocketAddrs>(address: A) -> Result<Self> {
		names()?.bind(&address.text()).map(Self::from_io)
	}
}
