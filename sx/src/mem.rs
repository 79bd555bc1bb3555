//! Byte-addressed object memory with copy-on-write sharing between states.
use crate::expr::{Ctx, Val, E};
use std::collections::BTreeMap;
use std::rc::Rc;

/// Address layout: object id above, offset in the low bits.
pub const SHIFT: u32 = 36;
pub const OFF_MASK: u64 = (1 << SHIFT) - 1;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
	Heap,
	Stack,
	Global,
	Const,
	Func,
}

#[derive(Clone)]
pub struct Obj {
	pub size: u64,
	pub kind: Kind,
	/// Bytes; anything beyond the end of the vector (but below `size`) is zero.
	pub bytes: Vec<u8>,
	/// Bytes that are not concrete: byte `k` of a term.
	pub sym: BTreeMap<u64, (E, u8)>,
}

impl Obj {
	pub fn new(size: u64, kind: Kind) -> Self {
		let n = if size <= 1 << 16 { size as usize } else { 0 };
		Obj { size, kind, bytes: vec![0; n], sym: BTreeMap::new() }
	}

	#[inline]
	fn byte(&self, o: u64) -> u8 {
		self.bytes.get(o as usize).copied().unwrap_or(0)
	}

	fn ensure(&mut self, end: u64) {
		if self.bytes.len() < end as usize {
			self.bytes.resize(end as usize, 0);
		}
	}

	/// Read `n` bytes (n <= 16), little endian.
	pub fn read(&self, ctx: &mut Ctx, off: u64, n: u64) -> Val {
		if self.sym.is_empty() || self.sym.range(off..off + n).next().is_none() {
			let mut v = 0u128;
			let o = off as usize;
			if o + n as usize <= self.bytes.len() {
				for i in (0..n as usize).rev() {
					v = (v << 8) | self.bytes[o + i] as u128;
				}
			} else {
				for i in (0..n).rev() {
					v = (v << 8) | self.byte(off + i) as u128;
				}
			}
			return Val::I(v);
		}
		// Whole term stored here?
		if let Some(&(e, 0)) = self.sym.get(&off) {
			let w = ctx.w(e);
			if w as u64 == n * 8 && (1..n).all(|i| self.sym.get(&(off + i)) == Some(&(e, i as u8))) {
				return Val::S(e);
			}
		}
		let mut acc: Option<(Val, u32)> = None;
		for i in 0..n {
			let b = self.read_byte(ctx, off + i);
			acc = Some(match acc {
				None => (b, 8),
				Some((lo, w)) => (ctx.concat(&b, 8, &lo, w), w + 8),
			});
		}
		acc.map(|x| x.0).unwrap_or(Val::I(0))
	}

	pub fn read_byte(&self, ctx: &mut Ctx, off: u64) -> Val {
		match self.sym.get(&off) {
			None => Val::I(self.byte(off) as u128),
			Some(&(e, k)) => {
				let w = ctx.w(e);
				let lo = k as u32 * 8;
				if w - lo >= 8 {
					ctx.extract(&Val::S(e), lo, 8)
				} else {
					let t = ctx.extract(&Val::S(e), lo, w - lo);
					ctx.zext(&t, w - lo, 8)
				}
			},
		}
	}

	/// Write the low `n` bytes of `v` (a term must be `8 * n` bits wide).
	pub fn write(&mut self, off: u64, n: u64, v: &Val) {
		if !self.sym.is_empty() {
			for i in 0..n {
				self.sym.remove(&(off + i));
			}
		}
		self.ensure(off + n);
		match v {
			Val::I(k) => {
				let mut k = *k;
				for i in 0..n as usize {
					self.bytes[off as usize + i] = k as u8;
					k >>= 8;
				}
			},
			Val::S(e) => {
				for i in 0..n {
					self.bytes[(off + i) as usize] = 0;
					self.sym.insert(off + i, (*e, i as u8));
				}
			},
			Val::A(_) => panic!("aggregate write"),
		}
	}

	/// Concrete bytes, or None if any is symbolic.
	pub fn concrete(&self, off: u64, n: u64) -> Option<Vec<u8>> {
		if self.sym.range(off..off + n).next().is_some() {
			return None;
		}
		Some((0..n).map(|i| self.byte(off + i)).collect())
	}
}

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem {
	chunks: Vec<Rc<Chunk>>,
	next: u64,
	pub live_bytes: u64,
	/// The part of it that belongs to the heap.
	pub heap_bytes: u64,
}

impl Mem {
	pub fn new() -> Self {
		let mut m = Mem { chunks: vec![], next: 0, live_bytes: 0, heap_bytes: 0 };
		m.push(None); // null
		m
	}

	fn push(&mut self, o: Option<Rc<Obj>>) -> u64 {
		let id = self.next;
		self.next += 1;
		let c = id as usize / CH;
		if c == self.chunks.len() {
			self.chunks.push(Rc::new(Vec::with_capacity(CH)));
		}
		Rc::make_mut(&mut self.chunks[c]).push(o);
		id
	}

	pub fn alloc(&mut self, o: Obj) -> u64 {
		self.live_bytes += o.size;
		if matches!(o.kind, Kind::Heap) {
			self.heap_bytes += o.size;
		}
		self.push(Some(Rc::new(o)))
	}

	#[inline]
	pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
		self.chunks.get(id as usize / CH)?.get(id as usize % CH)?.as_ref()
	}

	pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
		let c = Rc::make_mut(self.chunks.get_mut(id as usize / CH)?);
		Some(Rc::make_mut(c.get_mut(id as usize % CH)?.as_mut()?))
	}

	pub fn free(&mut self, id: u64) {
		if let Some(c) = self.chunks.get_mut(id as usize / CH) {
			let c = Rc::make_mut(c);
			if let Some(s) = c.get_mut(id as usize % CH) {
				if let Some(o) = s.take() {
					self.live_bytes -= o.size;
					if matches!(o.kind, Kind::Heap) {
						self.heap_bytes -= o.size;
					}
				}
			}
		}
	}

	pub fn was_allocated(&self, id: u64) -> bool {
		id > 0 && id < self.next
	}

	/// Copy `n` bytes between (possibly identical) objects; ranges already checked.
	pub fn copy(&mut self, src: u64, so: u64, dst: u64, d_o: u64, n: u64) {
		if n == 0 {
			return;
		}
		let s = self.get(src).unwrap().clone();
		let d = self.get_mut(dst).unwrap();
		d.ensure(d_o + n);
		let avail = (s.bytes.len() as u64).saturating_sub(so).min(n) as usize;
		d.bytes[d_o as usize..d_o as usize + avail].copy_from_slice(&s.bytes[so as usize..so as usize + avail]);
		for b in &mut d.bytes[d_o as usize + avail..(d_o + n) as usize] {
			*b = 0;
		}
		if !d.sym.is_empty() {
			let old: Vec<u64> = d.sym.range(d_o..d_o + n).map(|x| *x.0).collect();
			for k in old {
				d.sym.remove(&k);
			}
		}
		if !s.sym.is_empty() {
			for (k, v) in s.sym.range(so..so + n) {
				d.sym.insert(k - so + d_o, *v);
			}
		}
	}
}
