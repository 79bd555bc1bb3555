//! Unix seqpacket sockets, with the system calls below tokio-seqpacket played by the harness.
use crate::rt::*;
use crate::sim::*;
use filedesc::FileDesc;
use fizyr_rpc::transport::{Endian, Transport, TransportReadHalf, TransportWriteHalf, UnixTransport};
use fizyr_rpc::{Error, Message, MessageHeader, MessageType, Peer, ReceivedMessage, UnixBody, UnixConfig};
use std::future::Future;
use tokio_seqpacket::UnixSeqpacket;

pub const SOCKET: i32 = 1_000_000;
pub const OBJECT: i32 = 2_000_000;

pub struct Datagram {
	pub data: Vec<u8>,
	/// Objects, not descriptors.
	pub fds: Vec<i32>,
}

pub struct Socket {
	/// Credentials of the other side, if they can be found out.
	pub info: Option<[u32; 3]>,
	/// Connections and failures (`Err`) waiting to be accepted.
	pub incoming: Vec<std::result::Result<usize, i32>>,
	/// What can be received.
	pub input: Vec<Datagram>,
	pub pos: usize,
	pub eof: bool,
	/// Where what is sent goes.
	pub output: Vec<Datagram>,
	/// Number of calls that may be delayed.
	pub delays: usize,
	/// Error of every send.
	pub send_error: i32,
	/// Error of every receive after the last datagram.
	pub recv_error: i32,
	/// Number of descriptors that can still be received.
	pub room: usize,
	pub open: bool,
}

/// Every open descriptor with the object it stands for.
pub struct Kernel {
	pub sockets: Vec<Socket>,
	fds: Vec<(i32, i32)>,
	next: i32,
	bad_close: bool,
}

static mut KERNEL: Kernel = Kernel { sockets: vec![], fds: vec![], next: OBJECT, bad_close: false };

#[allow(static_mut_refs)]
pub fn kernel() -> &'static mut Kernel {
	unsafe { &mut KERNEL }
}

pub fn fail(error: i32) -> isize {
	unsafe { *libc::__errno_location() = error };
	-1
}

fn new_fd(object: i32) -> i32 {
	let k = kernel();
	let fd = k.next;
	k.next += 1;
	k.fds.push((fd, object));
	fd
}

fn object(fd: i32) -> Option<i32> {
	kernel().fds.iter().find(|f| f.0 == fd).map(|f| f.1)
}

/// A new socket: its number and the socket.
pub fn socket() -> (usize, UnixSeqpacket) {
	let n = new_socket();
	match unsafe { UnixSeqpacket::from_raw_fd(SOCKET + n as i32) } {
		Ok(s) => (n, s),
		Err(_) => panic!("no socket"),
	}
}

pub fn new_socket() -> usize {
	let k = kernel();
	let n = k.sockets.len();
	k.sockets.push(Socket { info: Some([1, 2, 3]), incoming: vec![], input: vec![], pos: 0, eof: false, output: vec![], delays: 0, send_error: 0, recv_error: 0, room: usize::MAX, open: true });
	n
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
	if fd >= OBJECT {
		let k = kernel();
		match k.fds.iter().position(|f| f.0 == fd) {
			Some(i) => drop(k.fds.remove(i)),
			None => k.bad_close = true,
		}
		0
	} else if fd >= SOCKET {
		let s = &mut kernel().sockets[(fd - SOCKET) as usize];
		if !s.open {
			kernel().bad_close = true;
		}
		s.open = false;
		0
	} else {
		libc::syscall(libc::SYS_close, fd as libc::c_long) as i32
	}
}

unsafe fn parts(m: &libc::msghdr) -> Vec<(*mut u8, usize)> {
	(0..m.msg_iovlen as usize).map(|i| *m.msg_iov.add(i)).map(|v| (v.iov_base as *mut u8, v.iov_len)).collect()
}

#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: i32, m: *mut libc::msghdr, _flags: i32) -> isize {
	if fd < SOCKET || fd >= OBJECT {
		return fail(libc::EBADF);
	}
	let m = &mut *m;
	let s = &mut kernel().sockets[(fd - SOCKET) as usize];
	if s.pos == s.input.len() {
		if s.recv_error != 0 {
			return fail(s.recv_error);
		}
		if s.eof {
			m.msg_controllen = 0;
			m.msg_flags = 0;
			return 0;
		}
		return fail(libc::EAGAIN);
	}
	if s.delays > 0 {
		s.delays -= 1;
		if flag("delay") {
			return fail(libc::EAGAIN);
		}
	}
	let d = &s.input[s.pos];
	s.pos += 1;
	m.msg_flags = 0;
	let mut n = 0;
	for (p, len) in parts(m) {
		let k = len.min(d.data.len() - n);
		std::ptr::copy_nonoverlapping(d.data.as_ptr().add(n), p, k);
		n += k;
	}
	if n < d.data.len() {
		m.msg_flags |= libc::MSG_TRUNC;
	}
	// As in the kernel: as many descriptors as fit, the others are dropped.
	let room = m.msg_controllen as usize;
	let fit = if room <= 16 { 0 } else { (room - 16) / 4 };
	let k = fit.min(d.fds.len()).min(s.room);
	let mut used = 0;
	if k > 0 {
		s.room -= k;
		let c = m.msg_control as *mut u8;
		(c as *mut usize).write_unaligned(16 + 4 * k);
		(c.add(8) as *mut i32).write_unaligned(libc::SOL_SOCKET);
		(c.add(12) as *mut i32).write_unaligned(libc::SCM_RIGHTS);
		for i in 0..k {
			(c.add(16 + 4 * i) as *mut i32).write_unaligned(new_fd(d.fds[i]));
		}
		used = ((16 + 4 * k + 7) & !7).min(room);
	}
	if k < d.fds.len() {
		m.msg_flags |= libc::MSG_CTRUNC;
	}
	m.msg_controllen = used as _;
	n as isize
}

#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: i32, m: *const libc::msghdr, _flags: i32) -> isize {
	if fd < SOCKET || fd >= OBJECT {
		return fail(libc::EBADF);
	}
	let m = &*m;
	let s = &mut kernel().sockets[(fd - SOCKET) as usize];
	if s.delays > 0 {
		s.delays -= 1;
		if flag("delay") {
			return fail(libc::EAGAIN);
		}
	}
	if s.send_error != 0 {
		return fail(s.send_error);
	}
	let mut data = vec![];
	for (p, len) in parts(m) {
		data.extend_from_slice(std::slice::from_raw_parts(p, len));
	}
	let mut fds = vec![];
	let (c, room) = (m.msg_control as *const u8, m.msg_controllen as usize);
	let mut at = 0;
	while room >= at + 16 {
		let len = (c.add(at) as *const usize).read_unaligned();
		if len < 16 || len > room - at {
			return fail(libc::EINVAL);
		}
		if (c.add(at + 8) as *const i32).read_unaligned() == libc::SOL_SOCKET {
			if (c.add(at + 12) as *const i32).read_unaligned() != libc::SCM_RIGHTS {
				return fail(libc::EINVAL);
			}
			for i in 0..(len - 16) / 4 {
				match object((c.add(at + 16 + 4 * i) as *const i32).read_unaligned()) {
					Some(o) => fds.push(o),
					None => return fail(libc::EBADF),
				}
			}
		}
		at += (len + 7) & !7;
	}
	let n = data.len();
	s.output.push(Datagram { data, fds });
	n as isize
}

pub fn sock(n: usize) -> &'static mut Socket {
	&mut kernel().sockets[n]
}

pub fn wake() {
	for i in 0..kernel().sockets.len() {
		tokio::verif::make_ready(SOCKET + i as i32, false);
		tokio::verif::make_ready(SOCKET + i as i32, true);
	}
}

/// Run to completion; the sockets get ready whenever nothing else can happen.
pub fn drive<T>(f: impl Future<Output = T>) -> Option<T> {
	let mut t = Task::new(f);
	for _ in 0..16 {
		if let Some(v) = t.run() {
			return Some(v);
		}
		wake();
		if !t.runnable() {
			return None;
		}
	}
	None
}

/// Limits for reading and for writing, each of the body and of the descriptors.
pub fn config(read: (u32, u32), write: (u32, u32), endian: Endian) -> UnixConfig {
	let mut c = UnixConfig::default();
	c.max_body_len_read = read.0;
	c.max_body_len_write = write.0;
	c.max_fds_read = read.1;
	c.max_fds_write = write.1;
	c.endian = endian;
	c
}

fn endian() -> Endian {
	match choose(3, "endian") {
		0 => Endian::LittleEndian,
		1 => Endian::BigEndian,
		_ => Endian::NativeEndian,
	}
}

fn word(big: bool, v: u32) -> [u8; 4] {
	if big {
		v.to_be_bytes()
	} else {
		v.to_le_bytes()
	}
}

fn types() -> [MessageType; 5] {
	[MessageType::Request, MessageType::Response, MessageType::RequesterUpdate, MessageType::ResponderUpdate, MessageType::Stream]
}

fn any_header() -> (MessageHeader, u32) {
	let t = choose(5, "type");
	(MessageHeader { message_type: types()[t], request_id: u32v("id"), service_id: i32v("service") }, t as u32)
}

pub fn encoded(h: &MessageHeader, t: u32, big: bool, body: &[u8]) -> Vec<u8> {
	let mut v = vec![];
	v.extend_from_slice(&word(big, t));
	v.extend_from_slice(&word(big, h.request_id));
	v.extend_from_slice(&word(big, h.service_id as u32));
	v.extend_from_slice(body);
	v
}

/// `n` new objects, each behind one new descriptor.
pub fn objects(n: usize, first: i32) -> (Vec<FileDesc>, Vec<i32>) {
	let o: Vec<i32> = (0..n as i32).map(|i| first + i).collect();
	let f = o.iter().map(|o| unsafe { FileDesc::from_raw_fd(new_fd(*o)) }).collect();
	(f, o)
}

pub fn is_objects(fds: &[FileDesc], o: &[i32]) -> bool {
	fds.len() == o.len() && fds.iter().zip(o).all(|(f, o)| object(f.as_raw_fd()) == Some(*o))
}

pub fn all_closed() {
	check(kernel().fds.is_empty(), "no descriptor is leaked");
	check(!kernel().bad_close, "no descriptor is closed twice");
}

// ---------------------------------------------------------------- transport

/// Messages from one transport to another.
fn transfer(n: usize, max_len: usize, max_fds: usize, delays: usize) {
	let e = endian();
	let big = matches!(e, Endian::BigEndian);
	let ((a, sa), (b, sb)) = (socket(), socket());
	let mut ta = UnixTransport::new(sa, config((0, 0), (max_len as u32, max_fds as u32), e));
	let mut tb = UnixTransport::new(sb, config((max_len as u32, max_fds as u32), (0, 0), e));
	{
		let (_ra, mut wa) = ta.split();
		let (mut rb, _wb) = tb.split();
		sock(a).delays = delays;
		sock(b).delays = delays;
		let mut sent = vec![];
		for k in 0..n {
			let (h, t) = any_header();
			let body = bytes(choose(max_len + 1, "len"), "byte");
			let (f, o) = objects(choose(max_fds + 1, "fds"), 10 * k as i32);
			let m = UnixBody::new(body.clone(), f);
			check(drive(wa.write_msg(&h, &m)).is_some_and(|r| r.is_ok()), "a message is sent");
			check(is_objects(&m.fds, &o), "sending does not take the descriptors");
			let out = &sock(a).output;
			check(out.len() == k + 1, "a message is one datagram");
			check(same(&out[k].data, &encoded(&h, t, big, &body)), "a datagram is the header and the body");
			check(out[k].fds == o, "the descriptors are attached in order");
			sent.push((h, body, o));
		}
		sock(b).input = std::mem::take(&mut sock(a).output);
		for (h, body, o) in &sent {
			match drive(rb.read_msg()) {
				Some(Ok(m)) => {
					check(m.header == *h && same(&m.body.data, body), "a message arrives unchanged");
					check(is_objects(&m.body.fds, o), "the descriptors arrive in order");
				},
				_ => check(false, "a message is received"),
			}
		}
		check(drive(rb.read_msg()).is_none(), "a message arrives once");
	}
	drop((ta, tb));
	check(!sock(a).open && !sock(b).open, "the sockets are closed");
	all_closed();
	cover("end");
}

pub fn transfer_one() {
	transfer(1, 3, 3, 2)
}
pub fn transfer_two() {
	transfer(2, 1, 1, 1)
}

/// Large bodies and many descriptors, with a small message behind them.
pub fn large() {
	let n = [255usize, 256, 1024, 4084, 4096, 8192, 65536, 65537, 70_001][choose(9, "body length")];
	let count = [0usize, 1, 16, 17, 64, 253][choose(6, "fds")];
	let ((a, sa), (b, sb)) = (socket(), socket());
	let c = || config((70_001, 253), (70_001, 253), Endian::LittleEndian);
	let mut ta = UnixTransport::new(sa, c());
	let mut tb = UnixTransport::new(sb, c());
	{
		let (_ra, mut wa) = ta.split();
		let (mut rb, _wb) = tb.split();
		sock(a).delays = 1;
		sock(b).delays = 1;
		let mut sent = vec![];
		for (k, (body, count)) in [(crate::stream::large(n), count), (bytes(1, "byte"), 1)].into_iter().enumerate() {
			let h = MessageHeader { message_type: MessageType::Stream, request_id: u32v("id"), service_id: i32v("service") };
			let (f, o) = objects(count, 1000 * k as i32);
			let m = UnixBody::new(body.clone(), f);
			check(drive(wa.write_msg(&h, &m)).is_some_and(|r| r.is_ok()), "a message is sent");
			check(is_objects(&m.fds, &o), "sending does not take the descriptors");
			let out = &sock(a).output;
			check(out.len() == k + 1, "a message is one datagram");
			check(same(&out[k].data, &encoded(&h, 4, false, &body)), "a datagram is the header and the body");
			check(out[k].fds == o, "the descriptors are attached in order");
			sent.push((h, body, o));
		}
		sock(b).input = std::mem::take(&mut sock(a).output);
		for (h, body, o) in &sent {
			match drive(rb.read_msg()) {
				Some(Ok(m)) => {
					check(m.header == *h && same(&m.body.data, body), "a message arrives unchanged");
					check(is_objects(&m.body.fds, o), "the descriptors arrive in order");
				},
				_ => check(false, "a message is received"),
			}
		}
		check(drive(rb.read_msg()).is_none(), "a message arrives once");
	}
	drop((ta, tb));
	check(!sock(a).open && !sock(b).open, "the sockets are closed");
	all_closed();
	cover("end");
}

/// Datagrams around large limits.
pub fn hostile_large() {
	let (n, s) = socket();
	let max = [0usize, 1000, 8192, 65536][choose(4, "limit")];
	let max_fds = [0usize, 10, 253][choose(3, "fd limit")];
	let mut t = UnixTransport::new(s, config((max as u32, max_fds as u32), (0, 0), Endian::LittleEndian));
	let (mut r, _w) = t.split();
	let len = max + [0, 1, 2, 12, 13, 5000][choose(6, "beyond")];
	let count = max_fds + [0, 1, 2, 3, 100][choose(5, "fds beyond")];
	let h = MessageHeader::stream(u32v("id"), i32v("service"));
	let body = crate::stream::large(len.max(1));
	let body = &body[..len];
	let fds: Vec<i32> = (0..count as i32).collect();
	sock(n).input.push(Datagram { data: encoded(&h, 4, false, body), fds: fds.clone() });
	let fits = len <= max && count <= max_fds;
	match drive(r.read_msg()) {
		Some(Ok(m)) => {
			check(fits, "a message beyond the limits is refused");
			check(m.header == h && same(&m.body.data, body) && is_objects(&m.body.fds, &fds), "the message is the one received");
			cover("delivered");
		},
		Some(Err(e)) => {
			check(!fits, "a message within the limits is delivered");
			check(!e.is_fatal(), "a message beyond the limits does not end the connection");
			cover("too large");
		},
		None => check(false, "a datagram is not waited for any more"),
	}
	all_closed();
	let h = MessageHeader::stream(7, 9);
	sock(n).input.push(Datagram { data: encoded(&h, 4, false, &[]), fds: vec![] });
	wake();
	match drive(r.read_msg()) {
		Some(Ok(m)) => check(m.header == h && m.body.data.is_empty() && m.body.fds.is_empty(), "the next message arrives unchanged"),
		_ => check(false, "the next message is received"),
	}
	cover("end");
}

/// A receive that is cancelled and tried again.
pub fn cancelled() {
	let (n, s) = socket();
	let mut t = UnixTransport::new(s, config((2, 1), (0, 0), Endian::LittleEndian));
	let (mut r, _w) = t.split();
	let (h, kind) = any_header();
	let body = bytes(choose(3, "len"), "byte");
	let later = flag("later");
	let d = Datagram { data: encoded(&h, kind, false, &body), fds: vec![5] };
	sock(n).delays = 3;
	if !later {
		sock(n).input.push(d);
	} else {
		check(Task::new(r.read_msg()).run().is_none(), "nothing is received from nowhere");
		sock(n).input.push(d);
		wake();
	}
	for _ in 0..5 {
		if let Some(m) = Task::new(r.read_msg()).run() {
			match m {
				Ok(m) => check(m.header == h && same(&m.body.data, &body) && is_objects(&m.body.fds, &[5]), "a message arrives unchanged"),
				Err(_) => check(false, "a message is received"),
			}
			cover("end");
			return;
		}
		cover("cancelled");
		wake();
	}
	check(false, "a message is received");
}

/// Messages beyond the limits are refused without harm.
pub fn write_limits() {
	let (n, s) = socket();
	let (max_len, max_fds) = (choose(3, "max len"), choose(3, "max fds"));
	let mut t = UnixTransport::new(s, config((max_len as u32 + 1, max_fds as u32 + 1), (max_len as u32, max_fds as u32), Endian::LittleEndian));
	let (_r, mut w) = t.split();
	let h = MessageHeader::stream(u32v("id"), i32v("service"));
	let body = bytes(choose(4, "len"), "byte");
	let (f, o) = objects([0, 1, 2, 3, 9][choose(5, "fds")], 0);
	let fits = body.len() <= max_len && f.len() <= max_fds;
	match drive(w.write_msg(&h, &UnixBody::new(body.clone(), f))) {
		Some(Ok(())) => {
			check(fits, "a message beyond the limits is refused");
			let d = &sock(n).output;
			check(d.len() == 1 && same(&d[0].data, &encoded(&h, 4, false, &body)) && d[0].fds == o, "a message is sent unchanged");
			cover("sent");
		},
		Some(Err(e)) => {
			check(!fits, "a message within the limits is sent");
			check(!e.is_fatal(), "a message beyond the limits does not end the connection");
			check(sock(n).output.is_empty(), "nothing of a refused message is sent");
			cover("refused");
		},
		None => check(false, "sending ends"),
	}
	sock(n).output.clear();
	check(drive(w.write_msg(&h, &UnixBody::from(vec![]))).is_some_and(|r| r.is_ok()) && sock(n).output.len() == 1, "the next message is sent");
	all_closed();
	cover("end");
}

/// Failures of the socket are fatal.
pub fn failures() {
	let (n, s) = socket();
	let mut t = UnixTransport::new(s, config((4, 1), (4, 1), Endian::LittleEndian));
	let (mut r, mut w) = t.split();
	let e = [libc::EPIPE, libc::ECONNRESET, libc::ENOBUFS][choose(3, "error")];
	sock(n).send_error = e;
	let m = UnixBody::new(vec![1], objects(1, 0).0);
	match drive(w.write_msg(&MessageHeader::request(1, 1), &m)) {
		Some(Err(x)) => check(x.is_fatal(), "a failing socket is a fatal error"),
		_ => check(false, "a failing send is an error"),
	}
	if flag("reset") {
		sock(n).recv_error = e;
	} else {
		sock(n).eof = true;
	}
	match drive(r.read_msg()) {
		Some(Err(x)) => check(x.is_fatal(), "the end of a connection is a fatal error"),
		_ => check(false, "the end of a connection is an error"),
	}
	drop(m);
	all_closed();
	cover("end");
}

/// Any datagram at all.
fn hostile(max: usize) {
	let (n, s) = socket();
	let (max_len, max_fds) = (choose(3, "max len"), choose(3, "max fds"));
	let mut t = UnixTransport::new(s, config((max_len as u32, max_fds as u32), (max_len as u32 + 1, max_fds as u32 + 1), Endian::LittleEndian));
	let (mut r, _w) = t.split();
	let data = bytes(choose(max, "len") + 1, "byte");
	let fds: Vec<i32> = (0..[0, 1, 2, 3, 4, 5, 8, 12, 13, 40][choose(10, "fds")]).collect();
	sock(n).input.push(Datagram { data: data.clone(), fds: fds.clone() });
	// A process may run out of descriptors.
	if flag("few descriptors") {
		sock(n).room = choose(3, "room");
	}
	let room = sock(n).room;
	let r1 = drive(r.read_msg());
	let kind = if data.len() >= 12 { u32::from_le_bytes([data[0], data[1], data[2], data[3]]) } else { 99 };
	let mut usable = true;
	match r1 {
		None => check(false, "a datagram is not waited for any more"),
		Some(Ok(m)) => {
			check(data.len() >= 12 && kind < 5, "only a message is a message");
			check(data.len() <= 12 + max_len, "a body beyond the limit is refused");
			check(fds.len() <= max_fds, "descriptors beyond the limit are refused");
			check(fds.len() <= room, "a message is not delivered without its descriptors");
			check(m.header.message_type as u32 == kind, "the type of the message");
			check(m.header.request_id == u32::from_le_bytes([data[4], data[5], data[6], data[7]]), "the request ID of the message");
			check(m.header.service_id == i32::from_le_bytes([data[8], data[9], data[10], data[11]]), "the service ID of the message");
			check(same(&m.body.data, &data[12..]) && is_objects(&m.body.fds, &fds), "the message is the one received");
			cover("delivered");
		},
		Some(Err(e)) => {
			let short = data.len() < 12;
			let large = data.len() > 12 + max_len || fds.len() > max_fds || fds.len() > room;
			check(short || large || kind >= 5, "a message within the limits is delivered");
			if !short && kind < 5 {
				check(!e.is_fatal(), "a message beyond the limits does not end the connection");
				cover("too large");
			} else {
				cover("invalid");
			}
			usable = !e.is_fatal();
		},
	}
	all_closed();
	if usable {
		sock(n).room = usize::MAX;
		let h = MessageHeader::stream(7, 9);
		sock(n).input.push(Datagram { data: encoded(&h, 4, false, &[]), fds: vec![] });
		wake();
		match drive(r.read_msg()) {
			Some(Ok(m)) => check(m.header == h && m.body.data.is_empty() && m.body.fds.is_empty(), "the next message arrives unchanged"),
			_ => check(false, "the next message is received"),
		}
	}
	cover("end");
}

pub fn hostile_any() {
	hostile(16)
}

// ---------------------------------------------------------------- peer

/// A peer keeps working when it receives or sends messages beyond the limits.
pub fn peer() {
	let (n, s) = socket();
	let (peer, handle) = Peer::new(UnixTransport::new(s, config((2, 1), (1, 2), Endian::LittleEndian)));
	let mut peer = Task::new(peer.run());
	let (mut read, write) = handle.split();
	let mut settle = |_: &str| {
		for _ in 0..4 {
			peer.run();
			wake();
		}
		peer.run();
		check(peer.pending(), "the connection stays");
	};
	let mut valid = vec![];
	for k in 0..3u32 {
		let (len, fds) = (choose(4, "len"), choose(3, "fds"));
		let body = bytes(len, "byte");
		let h = MessageHeader::stream(k, i32v("service"));
		valid.push((h, body.clone(), len <= 2 && fds <= 1, fds));
		sock(n).input.push(Datagram { data: encoded(&h, 4, false, &body), fds: (0..fds as i32).collect() });
	}
	settle("receive");
	for (h, body, ok, fds) in &valid {
		match Task::new(read.recv_message()).run() {
			Some(Ok(ReceivedMessage::Stream(m))) => {
				check(*ok && m.header == *h && same(&m.body.data, body), "a message arrives unchanged");
				check(is_objects(&m.body.fds, &[0][..*fds]), "the descriptors arrive in order");
				cover("received");
			},
			Some(Err(e)) => {
				check(!ok && !e.is_connection_aborted(), "only a message beyond the limits is an error");
				cover("refused");
			},
			_ => check(false, "every message is received"),
		}
	}
	check(Task::new(read.recv_message()).run().is_none(), "every message is received once");
	let (len, fds) = (choose(4, "len"), choose(4, "fds"));
	let body = bytes(len, "byte");
	let (f, o) = objects(fds, 20);
	let mut send = Task::new(write.send_stream(3, UnixBody::new(body.clone(), f)));
	let mut r: Option<Result<(), Error>> = send.run();
	settle("send");
	if r.is_none() {
		r = send.run();
	}
	let out = &sock(n).output;
	match r {
		Some(Ok(())) => {
			check(len <= 1 && fds <= 2, "a message beyond the limits is refused");
			check(out.len() == 1 && same(&out[0].data[12..], &body) && out[0].fds == o, "a message is sent unchanged");
		},
		Some(Err(_)) => check((len > 1 || fds > 2) && out.is_empty(), "a message within the limits is sent"),
		None => check(false, "a send ends"),
	}
	drop(send);
	drop((read, write));
	for _ in 0..3 {
		peer.run();
		wake();
	}
	check(!peer.pending(), "the peer stops when its handles are gone");
	drop(peer);
	check(!sock(n).open, "the socket is closed");
	all_closed();
	cover("end");
}

/// Everything that waits when the connection of a socket ends is told so, after everything that arrived before.
pub fn ends() {
	let (n, s) = socket();
	let (peer, handle) = Peer::new(UnixTransport::new(s, config((2, 2), (2, 2), Endian::LittleEndian)));
	let mut peer = Task::new(peer.run());
	let (mut read, write) = handle.split();
	// The peer and the sockets until nothing changes any more.
	let settle = |peer: &mut Task<_>| {
		for _ in 0..3 {
			peer.run();
			wake();
		}
		peer.run();
	};
	let mut open = vec![];
	for _ in 0..2 {
		let mut t = Task::new(write.send_request(1, UnixBody::from(vec![])));
		let mut r = t.run();
		settle(&mut peer);
		if r.is_none() {
			r = t.run();
		}
		match r {
			Some(Ok(r)) => open.push(r),
			_ => check(false, "a request is sent"),
		}
	}
	let (second, first) = match (open.pop(), open.pop()) {
		(Some(b), Some(a)) => (b, a),
		_ => done(),
	};
	let (mut first, mut second) = (first, second);
	let sent = sock(n).output.len();
	let body = bytes(2, "byte");
	let (ids, b) = ([first.request_id(), 77, 78, first.request_id()], body.clone());
	let script = [(MessageHeader::responder_update(ids[0], 5), 3u32), (MessageHeader::request(ids[1], 6), 0), (MessageHeader::stream(ids[2], 7), 4), (MessageHeader::response(ids[3], 8), 1)];
	let arrived = choose(script.len() + 1, "messages");
	for (i, (h, t)) in script[..arrived].iter().enumerate() {
		sock(n).input.push(Datagram { data: encoded(h, *t, false, &b), fds: vec![i as i32] });
	}
	// Who waits, and who comes later.
	let waits = flag("waits");
	let early = flag("seen before");
	let mut message = Task::new(async {
		let mut v = vec![];
		loop {
			let m = read.recv_message().await;
			let last = matches!(&m, Err(e) if e.is_connection_aborted());
			v.push(m);
			if last || v.len() > 4 {
				return v;
			}
		}
	});
	let mut answer = Task::new(async { (first.recv_update().await, first.recv_response().await) });
	let mut none = Task::new(second.recv_response());
	if waits {
		check(message.run().is_none() && answer.run().is_none() && none.run().is_none(), "nothing has arrived yet");
	}
	if early {
		wake();
		peer.run();
	}
	let cause = choose(6, "cause");
	let e = [libc::ECONNRESET, libc::EPIPE, libc::ENOBUFS][choose(if cause == 0 || cause > 2 { 1 } else { 3 }, "error")];
	let (f, o) = objects(1, 20);
	let mut send = Task::new(write.send_stream(3, UnixBody::new(vec![1], f)));
	match cause {
		0 => sock(n).eof = true,
		1 => sock(n).recv_error = e,
		2 => sock(n).send_error = e,
		3 => write.close(),
		4 => write.close_handle().close(),
		// The send goes out before the end.
		_ => {
			check(send.run().is_none(), "a send needs the peer");
			settle(&mut peer);
			check(send.run().is_some_and(|r| r.is_ok()), "a message is sent");
			let out = &sock(n).output;
			check(out.len() == sent + 1 && out[sent].fds == o, "what is reported as sent was sent");
			sock(n).eof = true;
		},
	}
	let mut result = None;
	if cause == 2 || cause < 5 && flag("sends") {
		result = Some(send.run());
	}
	wake();
	settle(&mut peer);
	check(!peer.pending(), "the peer stops when the connection has ended");
	check(!sock(n).open, "the socket is closed");
	if let Some(r) = result {
		let r = match r {
			Some(r) => Some(r),
			None => send.run(),
		};
		match r {
			Some(r) => check(r.is_ok() == (sock(n).output.len() == sent + 1), "a send is reported as it ended"),
			None => check(false, "a waiting send is told that the connection has ended"),
		}
		check(cause != 2 || sock(n).output.len() == sent, "nothing is sent through a failing socket");
		cover("send");
	}
	match (message.run(), answer.run(), none.run()) {
		(Some(list), Some((u, r)), Some(x)) => {
			// What is not received before a close may be lost with the connection.
			let local = cause == 2 || cause == 3 || cause == 4;
			let all = !local || early;
			let mut it = list.into_iter().peekable();
			match it.next_if(|m| matches!(m, Ok(ReceivedMessage::Request(..)))) {
				Some(Ok(ReceivedMessage::Request(r, m))) => {
					check(arrived >= 2 && r.request_id() == ids[1], "the message is the one that arrived");
					check(same(&m.data, &body) && is_objects(&m.fds, &[1]), "the message is the one that arrived");
				},
				_ => check(arrived < 2 || !all, "a message that arrived before the end is received"),
			}
			match it.next_if(|m| matches!(m, Ok(ReceivedMessage::Stream(_)))) {
				Some(Ok(ReceivedMessage::Stream(m))) => {
					check(arrived >= 3 && m.header == script[2].0, "the message is the one that arrived");
					check(same(&m.body.data, &body) && is_objects(&m.body.fds, &[2]), "the message is the one that arrived");
					cover("stream");
				},
				_ => check(arrived < 3 || !all, "a message that arrived before the end is received"),
			}
			let failure = it.next_if(|m| matches!(m, Err(e) if !e.is_connection_aborted()));
			check(cause != 1 || failure.is_some(), "the failure of the connection is reported");
			check(cause == 1 || cause == 2 || failure.is_none(), "an end is not reported as a failure");
			check(matches!(it.next(), Some(Err(e)) if e.is_connection_aborted()), "the end of the connection is reported");
			check(it.next().is_none(), "nothing is received after the end");
			match u {
				Some(m) => check(arrived >= 1 && same(&m.body.data, &body) && is_objects(&m.body.fds, &[0]), "the update is the one that arrived"),
				None => check(arrived < 1 || !all, "an update that arrived before the end is received"),
			}
			match r {
				Ok(m) => {
					check(arrived == 4 && same(&m.body.data, &body) && is_objects(&m.body.fds, &[3]), "the response is the one that arrived");
					cover("response");
				},
				Err(e) => check((arrived < 4 || !all) && e.is_connection_aborted(), "a missing response is reported as aborted connection"),
			}
			check(matches!(x, Err(e) if e.is_connection_aborted()), "a missing response is reported as aborted connection");
		},
		_ => check(false, "everybody who waits is told that the connection has ended"),
	}
	drop((message, answer, none, send));
	check(matches!(Task::new(read.recv_message()).run(), Some(Err(e)) if e.is_connection_aborted()), "the end of the connection is reported again");
	check(Task::new(write.send_stream(1, UnixBody::from(vec![]))).run().is_some_and(|r| r.is_err()), "sending fails at once when the connection has ended");
	check(Task::new(write.send_request(1, UnixBody::from(vec![]))).run().is_some_and(|r| r.is_err()), "sending fails at once when the connection has ended");
	drop((read, write, first, second, peer));
	all_closed();
	cover("end");
}

#[allow(dead_code)]
fn unused(_: Message<UnixBody>) {}
