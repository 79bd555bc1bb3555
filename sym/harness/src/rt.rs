//! Interface to the symbolic executor.
//!
//! Built with `--cfg sx_ir` the functions are left undefined and are interpreted by `sx`.  In the native build
//! they read the values of a replay file, so that any path (or counterexample) can be run against the real code.

#[cfg(sx_ir)]
extern "C" {
	fn sx_var(bits: u32, name: *const u8, len: usize) -> u64;
	fn sx_range(lo: u64, hi: u64, name: *const u8, len: usize) -> u64;
	fn sx_assume(c: u32);
	fn sx_check(c: u32, label: *const u8, len: usize);
	fn sx_cover(label: *const u8, len: usize);
	fn sx_note(tag: u64, v: u64);
	fn sx_concrete(v: u64) -> u64;
	fn sx_alloc_limit(n: u64);
	fn sx_live() -> u64;
	fn sx_done() -> !;
}

#[cfg(not(sx_ir))]
mod native {
	use std::alloc::{GlobalAlloc, Layout, System};
	use std::io::Write;
	use std::sync::atomic::{AtomicUsize, Ordering};

	static ALLOC_LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
	static LIVE: AtomicUsize = AtomicUsize::new(0);

	struct Limited;

	fn allowed(n: usize) {
		if n > ALLOC_LIMIT.load(Ordering::Relaxed) {
			alloc_limit(usize::MAX);
			check(false, "no more memory is allocated than the limits allow");
		}
	}

	unsafe impl GlobalAlloc for Limited {
		unsafe fn alloc(&self, l: Layout) -> *mut u8 {
			allowed(l.size());
			LIVE.fetch_add(l.size(), Ordering::Relaxed);
			System.alloc(l)
		}
		unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
			allowed(l.size());
			LIVE.fetch_add(l.size(), Ordering::Relaxed);
			System.alloc_zeroed(l)
		}
		unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
			allowed(n);
			LIVE.fetch_add(n.wrapping_sub(l.size()), Ordering::Relaxed);
			System.realloc(p, l, n)
		}
		unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
			LIVE.fetch_sub(l.size(), Ordering::Relaxed);
			System.dealloc(p, l)
		}
	}

	#[global_allocator]
	static GLOBAL: Limited = Limited;

	pub fn live() -> usize {
		LIVE.load(Ordering::Relaxed)
	}

	pub fn alloc_limit(n: usize) {
		ALLOC_LIMIT.store(n, Ordering::Relaxed);
	}

	struct Inputs {
		list: Vec<(String, u32, u64)>,
		pos: usize,
	}
	static mut INPUTS: Option<Inputs> = None;

	#[allow(static_mut_refs)]
	fn next(bits: u32, name: &str) -> u64 {
		let i = unsafe {
			INPUTS.get_or_insert_with(|| {
				let path = std::env::var("SX_REPLAY").unwrap_or_default();
				let text = std::fs::read_to_string(path).unwrap_or_default();
				let list = text
					.lines()
					.filter_map(|l| {
						let mut w = l.split_whitespace();
						if w.next()? != "in" {
							return None;
						}
						let bits = w.next()?.parse().ok()?;
						let v = w.next()?.parse().ok()?;
						Some((w.next()?.to_string(), bits, v))
					})
					.collect();
				Inputs { list, pos: 0 }
			})
		};
		let k = i.pos;
		i.pos += 1;
		match i.list.get(k) {
			Some((n, b, v)) if *n == name.replace(" ", "_") && *b == bits => *v,
			_ => exit(92, &format!("DIVERGED at input {k}: {name}:{bits}, have {:?}", i.list.get(k))),
		}
	}

	fn exit(code: i32, msg: &str) -> ! {
		println!("{msg}");
		std::io::stdout().flush().ok();
		std::process::exit(code)
	}

	pub fn var(bits: u32, name: &str) -> u64 {
		next(bits, name)
	}
	pub fn range(lo: u64, hi: u64, name: &str) -> u64 {
		let bits = (64 - hi.leading_zeros()).max(1);
		let v = next(bits, name);
		if v < lo || v > hi {
			exit(92, "DIVERGED: value out of range");
		}
		v
	}
	pub fn assume(c: bool) {
		if !c {
			exit(93, "ASSUMPTION FALSE");
		}
	}
	pub fn check(c: bool, label: &str) {
		if !c {
			exit(90, &format!("CHECK FAILED {label}"));
		}
	}
	pub fn cover(label: &str) {
		println!("cover {label}");
	}
	pub fn note(tag: u64, v: u64) {
		println!("note {tag} {v}");
	}
	pub fn done() -> ! {
		exit(0, "DONE")
	}
}

pub fn var(bits: u32, name: &str) -> u64 {
	#[cfg(sx_ir)]
	return unsafe { sx_var(bits, name.as_ptr(), name.len()) };
	#[cfg(not(sx_ir))]
	return native::var(bits, name);
}

/// A value in `lo..=hi`.
pub fn range(lo: u64, hi: u64, name: &str) -> u64 {
	#[cfg(sx_ir)]
	return unsafe { sx_range(lo, hi, name.as_ptr(), name.len()) };
	#[cfg(not(sx_ir))]
	return native::range(lo, hi, name);
}

pub fn assume(c: bool) {
	#[cfg(sx_ir)]
	unsafe {
		sx_assume(c as u32)
	}
	#[cfg(not(sx_ir))]
	native::assume(c)
}

pub fn check(c: bool, label: &str) {
	#[cfg(sx_ir)]
	unsafe {
		sx_check(c as u32, label.as_ptr(), label.len())
	}
	#[cfg(not(sx_ir))]
	native::check(c, label)
}

pub fn cover(label: &str) {
	#[cfg(sx_ir)]
	unsafe {
		sx_cover(label.as_ptr(), label.len())
	}
	#[cfg(not(sx_ir))]
	native::cover(label)
}

pub fn note(tag: u64, v: u64) {
	#[cfg(sx_ir)]
	unsafe {
		sx_note(tag, v)
	}
	#[cfg(not(sx_ir))]
	native::note(tag, v)
}

/// From now on it is a violation to allocate more than this at once.
#[allow(dead_code)]
pub fn alloc_limit(n: u64) {
	#[cfg(sx_ir)]
	unsafe {
		sx_alloc_limit(n)
	}
	#[cfg(not(sx_ir))]
	native::alloc_limit(n as usize)
}

/// The number of bytes that are allocated.
pub fn live() -> usize {
	#[cfg(sx_ir)]
	return unsafe { sx_live() } as usize;
	#[cfg(not(sx_ir))]
	return native::live();
}

/// Split the path on the value.
pub fn concrete(v: u64) -> u64 {
	#[cfg(sx_ir)]
	return unsafe { sx_concrete(v) };
	#[cfg(not(sx_ir))]
	return v;
}

/// End the path successfully.
pub fn done() -> ! {
	#[cfg(sx_ir)]
	unsafe {
		sx_done()
	}
	#[cfg(not(sx_ir))]
	native::done()
}

pub fn u8v(name: &str) -> u8 {
	var(8, name) as u8
}
pub fn u32v(name: &str) -> u32 {
	var(32, name) as u32
}
pub fn i32v(name: &str) -> i32 {
	var(32, name) as i32
}
pub fn flag(name: &str) -> bool {
	range(0, 1, name) != 0
}
/// A choice among `n` alternatives; the path splits.
pub fn choose(n: usize, name: &str) -> usize {
	if n <= 1 {
		return 0;
	}
	concrete(range(0, n as u64 - 1, name)) as usize
}
