//! Binding and connecting: the file system and the namespace of sockets are played by the harness.
use crate::rt::*;
use crate::serve::{frame, All, Event, Front};
use crate::sim::*;
use crate::unix::{all_closed, encoded, fail, kernel, new_socket, sock, wake, Datagram, OBJECT, SOCKET};
use fizyr_rpc::transport::Endian;
use fizyr_rpc::util::Bind;
use fizyr_rpc::{Listener, ListeningSocket, MessageHeader, Peer, PeerHandle, ReceivedMessage, TcpPeer, UnixBody, UnixSeqpacketPeer, UnixStreamPeer};
use std::ffi::CStr;
use std::io::{Error, Result};
use tokio::net::{TcpListener, UnixListener};
use tokio::verif::{set_names, take_spawned, AcceptIo, Names, StreamIo};
use tokio_seqpacket::UnixSeqpacketListener;

const SOCK: u32 = 0xc000;
/// The part of the file system that belongs to the model.
const MODEL: &[u8] = b"/verif-model/";

#[derive(Clone, PartialEq)]
enum Op {
	Unlink(Vec<u8>),
	Bind(Vec<u8>),
	Connect(Vec<u8>),
}

struct World {
	ops: Vec<Op>,
	path: Vec<u8>,
	/// Mode of the file that the path leads to.
	file: Option<u32>,
	link: bool,
	/// Errors of the calls, zero for none.
	stat_error: i32,
	unlink_error: i32,
	socket_error: i32,
	bind_error: i32,
	listen_error: i32,
	connect_error: i32,
	/// The last socket that was made.
	socket: Option<usize>,
	front: Option<Front>,
	stream: Option<Sim>,
	/// The information about the next connection.
	info: Option<[u32; 3]>,
}

static mut WORLD: World = World {
	ops: vec![],
	path: vec![],
	file: None,
	link: false,
	stat_error: 0,
	unlink_error: 0,
	socket_error: 0,
	bind_error: 0,
	listen_error: 0,
	connect_error: 0,
	socket: None,
	front: None,
	stream: None,
	info: None,
};

#[allow(static_mut_refs)]
fn w() -> &'static mut World {
	unsafe { &mut WORLD }
}

fn result(e: i32) -> i32 {
	if e == 0 {
		0
	} else {
		fail(e) as i32
	}
}

unsafe fn text(p: *const libc::c_char) -> Vec<u8> {
	CStr::from_ptr(p).to_bytes().to_vec()
}

fn ours(p: &[u8]) -> bool {
	p.starts_with(MODEL)
}

/// The mode seen by a call that follows links or not.
fn look(path: &[u8], follow: bool) -> std::result::Result<u32, i32> {
	let w = w();
	if w.stat_error != 0 {
		return Err(w.stat_error);
	}
	match w.file {
		Some(m) if same(path, &w.path) => Ok(if w.link && !follow { 0xa1ff } else { m }),
		_ => Err(libc::ENOENT),
	}
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const libc::c_char, flags: i32, mask: u32, out: *mut libc::statx) -> i32 {
	if path.is_null() {
		return fail(libc::EFAULT) as i32;
	}
	let p = text(path);
	if !ours(&p) {
		return libc::syscall(libc::SYS_statx, dir, path, flags, mask, out) as i32;
	}
	match look(&p, flags & libc::AT_SYMLINK_NOFOLLOW == 0) {
		Ok(m) => {
			*out = std::mem::zeroed();
			(*out).stx_mask = libc::STATX_BASIC_STATS;
			(*out).stx_mode = m as u16;
			(*out).stx_nlink = 1;
			0
		},
		Err(e) => fail(e) as i32,
	}
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const libc::c_char) -> i32 {
	let p = text(path);
	check(ours(&p), "no other path is removed");
	let w = w();
	let known = same(&p, &w.path);
	w.ops.push(Op::Unlink(p));
	if w.unlink_error != 0 || w.file.is_none() || !known {
		return fail(if w.unlink_error != 0 { w.unlink_error } else { libc::ENOENT }) as i32;
	}
	w.file = None;
	0
}

#[no_mangle]
pub unsafe extern "C" fn socket(_domain: i32, _kind: i32, _protocol: i32) -> i32 {
	if w().socket_error != 0 {
		return result(w().socket_error);
	}
	let n = new_socket();
	w().socket = Some(n);
	SOCKET + n as i32
}

unsafe fn address(a: *const libc::sockaddr, len: libc::socklen_t) -> Vec<u8> {
	let a = a as *const u8;
	let b = std::slice::from_raw_parts(a.add(2), len as usize - 2);
	let end = b.iter().position(|c| *c == 0).unwrap_or(b.len());
	b[..end].to_vec()
}

fn do_bind(path: Vec<u8>) -> i32 {
	let w = w();
	let e = if w.file.is_some() && same(&path, &w.path) { libc::EADDRINUSE } else { w.bind_error };
	w.ops.push(Op::Bind(path));
	e
}

fn do_connect(path: Vec<u8>) -> i32 {
	w().ops.push(Op::Connect(path));
	w().connect_error
}

#[no_mangle]
pub unsafe extern "C" fn bind(_fd: i32, a: *const libc::sockaddr, len: libc::socklen_t) -> i32 {
	result(do_bind(address(a, len)))
}

#[no_mangle]
pub unsafe extern "C" fn listen(_fd: i32, _backlog: i32) -> i32 {
	result(w().listen_error)
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, a: *const libc::sockaddr, len: libc::socklen_t) -> i32 {
	sock((fd - SOCKET) as usize).info = w().info;
	result(do_connect(address(a, len)))
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: i32, _a: *mut libc::sockaddr, _len: *mut libc::socklen_t, _flags: i32) -> i32 {
	let s = sock((fd - SOCKET) as usize);
	if s.incoming.is_empty() {
		return fail(libc::EAGAIN) as i32;
	}
	match s.incoming.remove(0) {
		Ok(n) => SOCKET + n as i32,
		Err(e) => fail(e) as i32,
	}
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: i32, _level: i32, name: i32, value: *mut libc::c_void, _len: *mut libc::socklen_t) -> i32 {
	if !(SOCKET..OBJECT).contains(&fd) || name != libc::SO_PEERCRED {
		return fail(libc::EINVAL) as i32;
	}
	match sock((fd - SOCKET) as usize).info {
		Some(i) => {
			*(value as *mut libc::ucred) = libc::ucred { uid: i[0], gid: i[1], pid: i[2] as i32 };
			0
		},
		None => fail(libc::ENOTCONN) as i32,
	}
}

/// The same for the sockets of tokio.
struct Tokio;

impl Names for Tokio {
	fn bind(&mut self, address: &[u8]) -> Result<Box<dyn AcceptIo>> {
		match do_bind(address.to_vec()) {
			0 if w().listen_error == 0 => Ok(Box::new(w().front.clone().unwrap())),
			0 => Err(Error::from_raw_os_error(w().listen_error)),
			e => Err(Error::from_raw_os_error(e)),
		}
	}
	fn connect(&mut self, address: &[u8]) -> Result<Box<dyn StreamIo>> {
		match do_connect(address.to_vec()) {
			0 => Ok(Box::new(w().stream.clone().unwrap())),
			e => Err(Error::from_raw_os_error(e)),
		}
	}
}

// ---------------------------------------------------------------- binding

/// A path of the model with one arbitrary character.
fn any_path() -> Vec<u8> {
	let mut p = MODEL.to_vec();
	let c = u8v("path");
	assume(c != 0 && c != b'/');
	p.push(c);
	p
}

fn as_path(p: &[u8]) -> &std::path::Path {
	use std::os::unix::ffi::OsStrExt;
	std::path::Path::new(std::ffi::OsStr::from_bytes(p))
}

fn error(name: &str, e: i32) -> i32 {
	if flag(name) {
		e
	} else {
		0
	}
}

/// A listener of any kind is bound to a path where something may be.
fn bind_path<'a, L>(path: &'a [u8], config: L::Config) -> Option<Listener<L>>
where
	L: ListeningSocket + Bind<'a, &'a std::path::Path>,
{
	set_names(Box::new(Tokio));
	let w = w();
	w.path = path.to_vec();
	let exists = flag("exists");
	let mode = var(16, "mode") as u32;
	w.file = exists.then_some(mode);
	w.link = flag("link");
	w.stat_error = error("stat fails", libc::EACCES);
	w.unlink_error = error("unlink fails", libc::EACCES);
	w.bind_error = error("bind fails", libc::ENOSPC);
	w.listen_error = error("listen fails", libc::EOPNOTSUPP);
	let is_socket = exists && mode & 0xf000 == SOCK;
	let r = match Task::new(Listener::<L>::bind(as_path(path), config)).run() {
		Some(r) => r,
		None => {
			check(false, "binding ends");
			return None;
		},
	};
	let mut removed = 0;
	let mut bound = 0;
	for op in &w.ops {
		match op {
			Op::Unlink(p) => {
				check(is_socket && w.stat_error == 0, "only a socket is removed");
				check(same(p, path), "only the given path is removed");
				check(bound == 0, "nothing is removed after binding");
				removed += 1;
			},
			Op::Bind(p) => {
				check(same(p, path), "the given path is bound");
				bound += 1;
			},
			Op::Connect(_) => check(false, "nothing is connected"),
		}
	}
	check(removed <= 1 && bound == 1, "the path is bound once");
	let plain = is_socket && w.stat_error == 0 && !w.link;
	if plain {
		check(removed == 1, "a socket that is left is removed");
		cover("removed");
	}
	let gone = removed == 1 && w.unlink_error == 0;
	let e = match () {
		_ if exists && !gone => libc::EADDRINUSE,
		_ if w.bind_error != 0 => w.bind_error,
		_ => w.listen_error,
	};
	check(w.file.is_some() == (exists && !gone), "other files are left alone");
	match r {
		Ok(l) => {
			check(e == 0, "a listener has been bound");
			cover("bound");
			Some(l)
		},
		Err(x) => {
			check(e != 0 && x.raw_os_error() == Some(e), "the failure to bind is returned");
			cover("failed");
			None
		},
	}
}

pub fn bind_stream() {
	let front = Front::new(vec![]);
	w().front = Some(front.clone());
	let path = any_path();
	let Some(mut l) = bind_path::<UnixListener>(&path, crate::stream::config(1, 2, Endian::BigEndian)) else { return };
	let sim = Sim::new(vec![], End::Pending, 0, 0);
	front.q().events.push(Event::Connection(sim.clone()));
	let r = Task::new(l.accept()).run();
	match r {
		Some(Ok((h, _))) => talk_stream(h, &sim, true),
		_ => check(false, "the listener accepts connections"),
	}
}

pub fn bind_seqpacket() {
	let path = any_path();
	{
		let Some(mut l) = bind_path::<UnixSeqpacketListener>(&path, crate::unix::config((1, 0), (2, 1), Endian::BigEndian)) else {
			all_closed();
			check(kernel().sockets.iter().all(|s| !s.open), "no socket is leaked");
			return;
		};
		let listening = w().socket.unwrap();
		let n = new_socket();
		sock(listening).incoming.push(Ok(n));
		let r = Task::new(l.accept()).run();
		match r {
			Some(Ok((h, _))) => talk_seqpacket(h, n),
			_ => check(false, "the listener accepts connections"),
		}
	}
	check(kernel().sockets.iter().all(|s| !s.open), "no socket is leaked");
	cover("end");
}

/// The peer is connected to this stream, with this configuration.
fn talk_stream(mut h: PeerHandle<fizyr_rpc::StreamBody>, sim: &Sim, big: bool) {
	let mut tasks = All::new();
	tasks.run(&mut 0);
	check(tasks.started == 1, "one peer for the connection");
	let (id, service) = (u32v("id"), u32v("service"));
	frame(sim, big, id, service, &[7]);
	tasks.run(&mut 0);
	match Task::new(h.recv_message()).run() {
		Some(Ok(ReceivedMessage::Stream(m))) => {
			check(m.header.request_id == id && m.header.service_id as u32 == service, "the configuration is used")
		},
		_ => check(false, "the peer receives"),
	}
	for body in [&[7, 7][..], &[7, 7, 7][..]] {
		let mut send = Task::new(h.send_stream(1, body.to_vec()));
		let mut r = send.run();
		tasks.run(&mut 0);
		if r.is_none() {
			r = send.run();
		}
		check(r.is_some_and(|r| r.is_ok() == (body.len() == 2)), "the limit of the configuration for sending is used");
	}
	check(sim.io().output.len() == 18, "the limit of the configuration for sending is used");
	frame(sim, big, id, service, &[7, 7]);
	tasks.run(&mut 0);
	match Task::new(h.recv_message()).run() {
		Some(Err(_)) => (),
		_ => check(false, "the limit of the configuration is used"),
	}
	drop(h);
	tasks.run(&mut 0);
	check(sim.io().closed, "the connection is closed");
	cover("end");
}

fn talk_seqpacket(mut h: PeerHandle<UnixBody>, n: usize) {
	let mut tasks = All::new();
	tasks.run(&mut 0);
	check(tasks.started == 1, "one peer for the connection");
	let m = MessageHeader::stream(u32v("id"), i32v("service"));
	for body in [&[7][..], &[7, 7][..]] {
		sock(n).input.push(Datagram { data: encoded(&m, 4, true, body), fds: vec![] });
		wake();
		tasks.run(&mut 0);
		let r = Task::new(h.recv_message()).run();
		match r {
			Some(Ok(ReceivedMessage::Stream(r))) => check(body.len() == 1 && r.header == m && same(&r.body.data, body), "the configuration is used"),
			Some(Err(_)) => check(body.len() == 2, "the peer receives"),
			_ => check(false, "the peer receives"),
		}
	}
	for body in [&[7, 7][..], &[7, 7, 7][..]] {
		let mut send = Task::new(h.send_stream(1, UnixBody::from(body.to_vec())));
		let mut r = send.run();
		tasks.run(&mut 0);
		if r.is_none() {
			r = send.run();
		}
		check(r.is_some_and(|r| r.is_ok() == (body.len() == 2)), "the limit of the configuration for sending is used");
	}
	check(sock(n).output.len() == 1, "the limit of the configuration for sending is used");
	drop(h);
	tasks.run(&mut 0);
	check(!sock(n).open, "the connection is closed");
}

// ---------------------------------------------------------------- connecting

fn connected_to(path: &[u8]) {
	check(w().ops.len() == 1 && w().ops[0] == Op::Connect(path.to_vec()), "the given address is connected to");
}

fn setup() -> (Vec<u8>, Option<[u32; 3]>) {
	set_names(Box::new(Tokio));
	let w = w();
	w.connect_error = error("connect fails", libc::ECONNREFUSED);
	let info = [u32v("info"), u32v("info"), u32v("info")];
	w.info = (!flag("gone")).then_some(info);
	let path = any_path();
	(path, w.info)
}

macro_rules! connect_stream {
	($name:ident, $peer:ty, $address:expr, $numbers:expr, $words:expr) => {
		pub fn $name() {
			let (path, info) = setup();
			let sim = Sim::new(vec![], End::Pending, 0, 0);
			sim.io().info = info;
			w().stream = Some(sim.clone());
			let config = crate::stream::config(1, 2, Endian::BigEndian);
			let address = $address(&path);
			match Task::new(<$peer>::connect(address, config)).run() {
				None => check(false, "connecting ends"),
				Some(Ok((h, i))) => {
					check(w().connect_error == 0, "a failure to connect is returned");
					let n = crate::serve::Numbers::numbers(&i);
					let e = info.map(|e| e.map($numbers));
					check(e.is_some_and(|e| n[..$words] == e[..$words]), "the information is that of the connection");
					talk_stream(h, &sim, true);
				},
				Some(Err(e)) => {
					let x = w().connect_error;
					check(x != 0 || info.is_none(), "a connection is made");
					check(x == 0 || e.raw_os_error() == Some(x), "the failure to connect is returned");
					check(take_spawned().is_empty(), "no peer without a connection");
					check(x != 0 || sim.io().closed, "a connection that is gone is closed");
					cover("failed");
				},
			}
			connected_to(&path);
		}
	};
}

connect_stream!(connect_unix, UnixStreamPeer, as_path, |x| x, 3);
// The first character is all that varies, so the text is valid.
connect_stream!(connect_tcp, TcpPeer, |p: &Vec<u8>| { assume(p[p.len() - 1] < 128); String::from_utf8_lossy(p).into_owned() }, |x| x & 0xffff, 2);

pub fn connect_seqpacket() {
	let (path, info) = setup();
	w().socket_error = error("no socket", libc::EMFILE);
	match Task::new(UnixSeqpacketPeer::connect(as_path(&path), crate::unix::config((1, 0), (2, 1), Endian::BigEndian))).run() {
		None => check(false, "connecting ends"),
		Some(Ok((h, i))) => {
			check(w().connect_error == 0 && w().socket_error == 0, "a failure to connect is returned");
			let n = [i.user_id(), i.group_id(), i.process_id().unwrap_or(0) as u32];
			check(info.is_some_and(|e| e == n), "the information is that of the connection");
			talk_seqpacket(h, w().socket.unwrap());
			connected_to(&path);
			cover("end");
		},
		Some(Err(e)) => {
			let x = if w().socket_error != 0 { w().socket_error } else { w().connect_error };
			check(x != 0 || info.is_none(), "a connection is made");
			check(x == 0 || e.raw_os_error() == Some(x), "the failure to connect is returned");
			check(take_spawned().is_empty(), "no peer without a connection");
			cover("failed");
		},
	}
	check(kernel().sockets.iter().all(|s| !s.open), "no socket is leaked");
}

/// A TCP listener is bound to the given address.
pub fn bind_tcp() {
	set_names(Box::new(Tokio));
	let front = Front::new(vec![]);
	w().front = Some(front.clone());
	w().bind_error = error("bind fails", libc::EADDRINUSE);
	let path = any_path();
	assume(path[path.len() - 1] < 128);
	let r = Task::new(Listener::<TcpListener>::bind(String::from_utf8_lossy(&path).into_owned(), crate::stream::config(1, 2, Endian::BigEndian))).run();
	check(w().ops.len() == 1 && w().ops[0] == Op::Bind(path.clone()), "the given address is bound");
	match r {
		Some(Ok(mut l)) => {
			check(w().bind_error == 0, "the failure to bind is returned");
			let sim = Sim::new(vec![], End::Pending, 0, 0);
			front.q().events.push(Event::Connection(sim.clone()));
			match Task::new(l.accept()).run() {
				Some(Ok((h, _))) => talk_stream(h, &sim, true),
				_ => check(false, "the listener accepts connections"),
			}
		},
		Some(Err(e)) => {
			check(w().bind_error != 0 && e.raw_os_error() == Some(libc::EADDRINUSE), "the failure to bind is returned");
			cover("failed");
		},
		None => check(false, "binding ends"),
	}
}

// ---------------------------------------------------------------- accepting

/// Accepting on a seqpacket socket.
pub fn accept_seqpacket() {
	let n = new_socket();
	let mut expected = vec![];
	let mut plan = vec![];
	for k in 0..3 {
		let what = choose(3, "event");
		plan.push(what);
		if what == 0 {
			let s = new_socket();
			let info = [10 + k as u32, u32v("info"), u32v("info")];
			let known = !flag("gone");
			sock(s).info = known.then_some(info);
			expected.push((s, known, info));
		}
	}
	{
		let socket = unsafe { UnixSeqpacketListener::from_raw_fd(SOCKET + n as i32) };
		let mut l = Listener::new(socket.unwrap(), crate::unix::config((1, 0), (2, 1), Endian::BigEndian));
		let mut tasks = All::new();
		let mut handles = vec![];
		let mut next = expected.iter();
		let mut started = 0;
		for what in plan {
			let mut current = None;
			match what {
				0 => {
					current = next.next();
					sock(n).incoming.push(Ok(current.unwrap().0));
				},
				1 => sock(n).incoming.push(Err(libc::EMFILE)),
				_ => (),
			}
			wake();
			let r = Task::new(l.accept()).run();
			match (what, r) {
				(2, None) => cover("cancelled"),
				(1, Some(Err(e))) => check(e.raw_os_error() == Some(libc::EMFILE), "a failure of the listener is reported"),
				(0, Some(Ok((h, i)))) => {
					let c = current.unwrap();
					check(c.1 && [i.user_id(), i.group_id(), i.process_id().unwrap_or(0) as u32] == c.2, "the information is that of the connection");
					started += 1;
					handles.push((h, c.0));
				},
				(0, Some(Err(_))) => {
					let c = current.unwrap();
					check(!c.1, "a connection is accepted");
					check(!sock(c.0).open, "a connection that is gone is closed");
					cover("gone");
				},
				_ => check(false, "accepting returns what happens to the listener"),
			}
			tasks.run(&mut 0);
			check(tasks.started == started, "one peer per connection");
		}
		drop(l);
		check(!sock(n).open, "the listener is closed");
		for (h, s) in &mut handles {
			let m = MessageHeader::stream(u32v("id"), i32v("service"));
			sock(*s).input.push(Datagram { data: encoded(&m, 4, true, &[7]), fds: vec![] });
			wake();
			tasks.run(&mut 0);
			match Task::new(h.recv_message()).run() {
				Some(Ok(ReceivedMessage::Stream(r))) => check(r.header == m && same(&r.body.data, &[7]), "each peer receives the messages of its connection"),
				_ => check(false, "each peer receives"),
			}
			cover("received");
		}
		while let Some((h, s)) = handles.pop() {
			drop(h);
			tasks.run(&mut 0);
			check(!sock(s).open, "a connection without handles is closed");
			check(handles.iter().all(|h| sock(h.1).open), "a connection with handles stays");
		}
	}
	check(kernel().sockets.iter().all(|s| !s.open), "no socket is leaked");
	cover("end");
}

#[allow(dead_code)]
fn unused(_: Peer<fizyr_rpc::UnixStreamTransport>) {}
