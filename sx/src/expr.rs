//! Hash-consed bit-vector terms.
use crate::util::Map;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
	Const,
	Var,
	Add,
	Sub,
	Mul,
	UDiv,
	SDiv,
	URem,
	SRem,
	And,
	Or,
	Xor,
	Shl,
	LShr,
	AShr,
	Eq,
	Ult,
	Ule,
	Slt,
	Sle,
	ZExt,
	SExt,
	Extract,
	Concat,
	Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
	pub op: Op,
	pub w: u32,
	pub a: E,
	pub b: E,
	pub c: E,
	/// Constant value, variable index or low bit of an extract.
	pub k: u128,
}

/// A first-class value during execution.
#[derive(Clone, Debug)]
pub enum Val {
	/// Concrete integer or pointer (already truncated to its width).
	I(u128),
	/// Symbolic integer or pointer.
	S(E),
	/// Struct, array or vector.
	A(Rc<Vec<Val>>),
}

pub fn mask(w: u32) -> u128 {
	if w >= 128 {
		u128::MAX
	} else {
		(1u128 << w) - 1
	}
}

pub fn sext(v: u128, w: u32) -> i128 {
	let sh = 128 - w;
	((v << sh) as i128) >> sh
}

pub struct Ctx {
	pub nodes: Vec<Node>,
	intern: Map<Node, E>,
	pub vars: Vec<(String, u32)>,
	varsets: Vec<Option<Rc<Vec<u32>>>>,
}

impl Ctx {
	pub fn new() -> Self {
		Self { nodes: Vec::new(), intern: Map::default(), vars: Vec::new(), varsets: Vec::new() }
	}

	fn mk(&mut self, n: Node) -> E {
		if let Some(&e) = self.intern.get(&n) {
			return e;
		}
		let e = self.nodes.len() as E;
		self.nodes.push(n);
		self.varsets.push(None);
		self.intern.insert(n, e);
		e
	}

	pub fn w(&self, e: E) -> u32 {
		self.nodes[e as usize].w
	}

	pub fn konst(&mut self, w: u32, k: u128) -> E {
		self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
	}

	pub fn as_const(&self, e: E) -> Option<u128> {
		let n = &self.nodes[e as usize];
		if n.op == Op::Const {
			Some(n.k)
		} else {
			None
		}
	}

	pub fn var(&mut self, name: &str, w: u32) -> (u32, E) {
		let idx = self.vars.len() as u32;
		self.vars.push((name.to_string(), w));
		let e = self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: idx as u128 });
		(idx, e)
	}

	/// Variables a term depends on, sorted.
	pub fn varset(&mut self, e: E) -> Rc<Vec<u32>> {
		if let Some(s) = &self.varsets[e as usize] {
			return s.clone();
		}
		let n = self.nodes[e as usize];
		let out = match n.op {
			Op::Const => Rc::new(vec![]),
			Op::Var => Rc::new(vec![n.k as u32]),
			_ => {
				let mut kids = vec![n.a];
				if has_b(n.op) {
					kids.push(n.b);
				}
				if n.op == Op::Ite {
					kids.push(n.c);
				}
				let mut v: Vec<u32> = Vec::new();
				for k in kids {
					v.extend(self.varset(k).iter());
				}
				v.sort_unstable();
				v.dedup();
				Rc::new(v)
			},
		};
		self.varsets[e as usize] = Some(out.clone());
		out
	}

	pub fn to_e(&mut self, v: &Val, w: u32) -> E {
		match v {
			Val::I(k) => self.konst(w, *k),
			Val::S(e) => *e,
			Val::A(_) => panic!("aggregate used as scalar"),
		}
	}

	fn val(&self, e: E) -> Val {
		match self.as_const(e) {
			Some(k) => Val::I(k),
			None => Val::S(e),
		}
	}

	pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
		let m = mask(w);
		match op {
			Op::Add => a.wrapping_add(b) & m,
			Op::Sub => a.wrapping_sub(b) & m,
			Op::Mul => a.wrapping_mul(b) & m,
			Op::UDiv => {
				if b == 0 {
					m
				} else {
					a / b
				}
			},
			Op::URem => {
				if b == 0 {
					a
				} else {
					a % b
				}
			},
			Op::SDiv => {
				if b == 0 {
					if sext(a, w) < 0 {
						1
					} else {
						m
					}
				} else {
					(sext(a, w).wrapping_div(sext(b, w)) as u128) & m
				}
			},
			Op::SRem => {
				if b == 0 {
					a
				} else {
					(sext(a, w).wrapping_rem(sext(b, w)) as u128) & m
				}
			},
			Op::And => a & b,
			Op::Or => a | b,
			Op::Xor => a ^ b,
			Op::Shl => {
				if b >= w as u128 {
					0
				} else {
					(a << b) & m
				}
			},
			Op::LShr => {
				if b >= w as u128 {
					0
				} else {
					a >> b
				}
			},
			Op::AShr => {
				let s = sext(a, w);
				let sh = if b >= w as u128 { 127.min(w - 1) as u128 } else { b };
				((s >> sh) as u128) & m
			},
			Op::Eq => (a == b) as u128,
			Op::Ult => (a < b) as u128,
			Op::Ule => (a <= b) as u128,
			Op::Slt => (sext(a, w) < sext(b, w)) as u128,
			Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
			_ => unreachable!(),
		}
	}

	/// Binary operation on operands of width `w`.
	pub fn bin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Val {
		if let (Val::I(x), Val::I(y)) = (a, b) {
			return Val::I(Self::fold(op, w, *x, *y));
		}
		let ea = self.to_e(a, w);
		let eb = self.to_e(b, w);
		let e = self.bin_e(op, w, ea, eb);
		self.val(e)
	}

	pub fn bin_e(&mut self, op: Op, w: u32, mut a: E, mut b: E) -> E {
		let (mut ca, mut cb) = (self.as_const(a), self.as_const(b));
		let rw = if is_cmp(op) { 1 } else { w };
		if let (Some(x), Some(y)) = (ca, cb) {
			return self.konst(rw, Self::fold(op, w, x, y));
		}
		// Canonical order for commutative operations: constant on the right.
		if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && (ca.is_some() || (cb.is_none() && a > b)) {
			std::mem::swap(&mut a, &mut b);
			std::mem::swap(&mut ca, &mut cb);
		}
		let m = mask(w);
		let na = self.nodes[a as usize];
		match op {
			Op::Add => {
				if cb == Some(0) {
					return a;
				}
				// (x + c1) + c2
				if let Some(c2) = cb {
					if na.op == Op::Add {
						if let Some(c1) = self.as_const(na.b) {
							let k = self.konst(w, c1.wrapping_add(c2));
							return self.bin_e(Op::Add, w, na.a, k);
						}
					}
				}
			},
			Op::Sub => {
				if cb == Some(0) {
					return a;
				}
				if a == b {
					return self.konst(w, 0);
				}
				if let Some(c) = cb {
					let k = self.konst(w, (!c).wrapping_add(1));
					return self.bin_e(Op::Add, w, a, k);
				}
			},
			Op::Mul => {
				if cb == Some(0) {
					return b;
				}
				if cb == Some(1) {
					return a;
				}
			},
			Op::UDiv => {
				if cb == Some(1) {
					return a;
				}
			},
			Op::And => {
				if cb == Some(0) {
					return b;
				}
				if cb == Some(m) || a == b {
					return a;
				}
				// masking a zero-extended value with a mask that covers it
				if let Some(c) = cb {
					if na.op == Op::ZExt {
						let iw = self.w(na.a);
						if c & mask(iw) == mask(iw) {
							return a;
						}
						let k = self.konst(iw, c & mask(iw));
						let t = self.bin_e(Op::And, iw, na.a, k);
						return self.zext_e(t, w);
					}
					// low mask == zext(extract)
					if c != m && (c & (c + 1)) == 0 {
						let bits = 128 - c.leading_zeros();
						let t = self.extract_e(a, 0, bits);
						return self.zext_e(t, w);
					}
				}
			},
			Op::Or => {
				if cb == Some(0) || a == b {
					return a;
				}
				if cb == Some(m) {
					return b;
				}
			},
			Op::Xor => {
				if cb == Some(0) {
					return a;
				}
				if a == b {
					return self.konst(w, 0);
				}
				if w == 1 && cb == Some(1) {
					// not
					match na.op {
						Op::Xor if self.as_const(na.b) == Some(1) => return na.a,
						Op::Ult => {
							let ow = self.w(na.a);
							return self.bin_e(Op::Ule, ow, na.b, na.a);
						},
						Op::Ule => {
							let ow = self.w(na.a);
							return self.bin_e(Op::Ult, ow, na.b, na.a);
						},
						Op::Slt => {
							let ow = self.w(na.a);
							return self.bin_e(Op::Sle, ow, na.b, na.a);
						},
						Op::Sle => {
							let ow = self.w(na.a);
							return self.bin_e(Op::Slt, ow, na.b, na.a);
						},
						_ => {},
					}
				}
			},
			Op::Shl | Op::LShr | Op::AShr => {
				if cb == Some(0) {
					return a;
				}
				if let Some(c) = cb {
					if op != Op::AShr && c >= w as u128 {
						return self.konst(w, 0);
					}
					let c = c as u32;
					if op == Op::LShr && c < w {
						let t = self.extract_e(a, c, w - c);
						return self.zext_e(t, w);
					}
					if op == Op::Shl && c < w {
						let t = self.extract_e(a, 0, w - c);
						let z = self.konst(c, 0);
						return self.concat_e(t, z);
					}
				}
			},
			Op::Eq => {
				if a == b {
					return self.konst(1, 1);
				}
				if w == 1 {
					if cb == Some(1) {
						return a;
					}
					if cb == Some(0) {
						return self.not_e(a);
					}
				}
				if let Some(c) = cb {
					match na.op {
						Op::ZExt => {
							let iw = self.w(na.a);
							if c > mask(iw) {
								return self.konst(1, 0);
							}
							let k = self.konst(iw, c);
							return self.bin_e(Op::Eq, iw, na.a, k);
						},
						Op::SExt => {
							let iw = self.w(na.a);
							if (sext(c & mask(iw), iw) as u128) & m != c {
								return self.konst(1, 0);
							}
							let k = self.konst(iw, c);
							return self.bin_e(Op::Eq, iw, na.a, k);
						},
						Op::Ite => {
							let (t, f) = (self.as_const(na.b), self.as_const(na.c));
							if t.is_some() || f.is_some() {
								let k = b;
								let x = self.bin_e(Op::Eq, w, na.b, k);
								let y = self.bin_e(Op::Eq, w, na.c, k);
								return self.ite_e(na.a, x, y);
							}
						},
						Op::Add => {
							if let Some(c1) = self.as_const(na.b) {
								let k = self.konst(w, c.wrapping_sub(c1));
								return self.bin_e(Op::Eq, w, na.a, k);
							}
						},
						Op::Xor => {
							if let Some(c1) = self.as_const(na.b) {
								let k = self.konst(w, c ^ c1);
								return self.bin_e(Op::Eq, w, na.a, k);
							}
						},
						Op::Concat => {
							let lw = self.w(na.b);
							let hw = self.w(na.a);
							let kl = self.konst(lw, c);
							let kh = self.konst(hw, c >> lw);
							let x = self.bin_e(Op::Eq, lw, na.b, kl);
							let y = self.bin_e(Op::Eq, hw, na.a, kh);
							return self.bin_e(Op::And, 1, x, y);
						},
						_ => {},
					}
				}
				let nb = self.nodes[b as usize];
				if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
					let iw = self.w(na.a);
					return self.bin_e(Op::Eq, iw, na.a, nb.a);
				}
			},
			Op::Ult => {
				if a == b || cb == Some(0) || ca == Some(m) {
					return self.konst(1, 0);
				}
				if cb == Some(1) {
					let z = self.konst(w, 0);
					return self.bin_e(Op::Eq, w, a, z);
				}
				if let Some(c) = cb {
					if na.op == Op::ZExt {
						let iw = self.w(na.a);
						if c > mask(iw) {
							return self.konst(1, 1);
						}
						let k = self.konst(iw, c);
						return self.bin_e(Op::Ult, iw, na.a, k);
					}
				}
				if let Some(c) = ca {
					let nb = self.nodes[b as usize];
					if nb.op == Op::ZExt {
						let iw = self.w(nb.a);
						if c >= mask(iw) {
							return self.konst(1, 0);
						}
						let k = self.konst(iw, c);
						return self.bin_e(Op::Ult, iw, k, nb.a);
					}
				}
			},
			Op::Ule => {
				if a == b || ca == Some(0) || cb == Some(m) {
					return self.konst(1, 1);
				}
				if let Some(c) = cb {
					// x <= c  ==  x < c + 1
					let k = self.konst(w, c + 1);
					return self.bin_e(Op::Ult, w, a, k);
				}
				if let Some(c) = ca {
					// c <= x  ==  c - 1 < x
					let k = self.konst(w, c - 1);
					return self.bin_e(Op::Ult, w, k, b);
				}
			},
			Op::Slt => {
				if a == b {
					return self.konst(1, 0);
				}
				if cb == Some(0) && na.op == Op::ZExt {
					return self.konst(1, 0);
				}
			},
			Op::Sle => {
				if a == b {
					return self.konst(1, 1);
				}
			},
			_ => {},
		}
		self.mk(Node { op, w: rw, a, b, c: 0, k: 0 })
	}

	pub fn not_e(&mut self, e: E) -> E {
		let k = self.konst(1, 1);
		self.bin_e(Op::Xor, 1, e, k)
	}

	pub fn zext_e(&mut self, e: E, w: u32) -> E {
		let iw = self.w(e);
		if iw == w {
			return e;
		}
		if let Some(k) = self.as_const(e) {
			return self.konst(w, k);
		}
		let n = self.nodes[e as usize];
		if n.op == Op::ZExt {
			return self.zext_e(n.a, w);
		}
		self.mk(Node { op: Op::ZExt, w, a: e, b: 0, c: 0, k: 0 })
	}

	pub fn sext_e(&mut self, e: E, w: u32) -> E {
		let iw = self.w(e);
		if iw == w {
			return e;
		}
		if let Some(k) = self.as_const(e) {
			return self.konst(w, sext(k, iw) as u128);
		}
		if self.nodes[e as usize].op == Op::ZExt {
			return self.zext_e(e, w);
		}
		self.mk(Node { op: Op::SExt, w, a: e, b: 0, c: 0, k: 0 })
	}

	/// `w` bits of `e` starting at bit `lo`.
	pub fn extract_e(&mut self, e: E, lo: u32, w: u32) -> E {
		let n = self.nodes[e as usize];
		if lo == 0 && w == n.w {
			return e;
		}
		match n.op {
			Op::Const => return self.konst(w, n.k >> lo),
			Op::Extract => return self.extract_e(n.a, lo + n.k as u32, w),
			Op::ZExt | Op::SExt => {
				let iw = self.w(n.a);
				if lo + w <= iw {
					return self.extract_e(n.a, lo, w);
				}
				if n.op == Op::ZExt {
					if lo >= iw {
						return self.konst(w, 0);
					}
					let t = self.extract_e(n.a, lo, iw - lo);
					return self.zext_e(t, w);
				}
			},
			Op::Concat => {
				let lw = self.w(n.b);
				if lo + w <= lw {
					return self.extract_e(n.b, lo, w);
				}
				if lo >= lw {
					return self.extract_e(n.a, lo - lw, w);
				}
				let l = self.extract_e(n.b, lo, lw - lo);
				let h = self.extract_e(n.a, 0, w - (lw - lo));
				return self.concat_e(h, l);
			},
			Op::And | Op::Or | Op::Xor if self.as_const(n.b).is_some() => {
				let x = self.extract_e(n.a, lo, w);
				let y = self.extract_e(n.b, lo, w);
				return self.bin_e(n.op, w, x, y);
			},
			Op::Add if lo == 0 && self.as_const(n.b).is_some() => {
				let x = self.extract_e(n.a, 0, w);
				let y = self.extract_e(n.b, 0, w);
				return self.bin_e(Op::Add, w, x, y);
			},
			Op::Ite if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() => {
				let x = self.extract_e(n.b, lo, w);
				let y = self.extract_e(n.c, lo, w);
				return self.ite_e(n.a, x, y);
			},
			_ => {},
		}
		self.mk(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: lo as u128 })
	}

	/// `hi` above `lo`.
	pub fn concat_e(&mut self, hi: E, lo: E) -> E {
		let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
		let w = nh.w + nl.w;
		if let (Op::Const, Op::Const) = (nh.op, nl.op) {
			return self.konst(w, (nh.k << nl.w) | nl.k);
		}
		if nh.op == Op::Const && nh.k == 0 {
			return self.zext_e(lo, w);
		}
		// adjacent extracts of the same term
		if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
			return self.extract_e(nh.a, nl.k as u32, w);
		}
		// zext(x) used as the high part of an adjacent extract
		if nh.op == Op::ZExt {
			let ni = self.nodes[nh.a as usize];
			let t = self.concat_e(nh.a, lo);
			let _ = ni;
			return self.zext_e(t, w);
		}
		// (x ++ y) with y itself a concat whose high part is adjacent
		if nl.op == Op::Concat {
			let na = self.nodes[nl.a as usize];
			if nh.op == Op::Extract && na.op == Op::Extract && nh.a == na.a && nh.k == na.k + na.w as u128 {
				let t = self.concat_e(hi, nl.a);
				return self.concat_e(t, nl.b);
			}
		}
		self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
	}

	pub fn ite_e(&mut self, c: E, t: E, f: E) -> E {
		if t == f {
			return t;
		}
		if let Some(k) = self.as_const(c) {
			return if k != 0 { t } else { f };
		}
		let w = self.w(t);
		if w == 1 {
			match (self.as_const(t), self.as_const(f)) {
				(Some(1), Some(0)) => return c,
				(Some(0), Some(1)) => return self.not_e(c),
				(Some(1), None) => return self.bin_e(Op::Or, 1, c, f),
				(Some(0), None) => {
					let n = self.not_e(c);
					return self.bin_e(Op::And, 1, n, f);
				},
				(None, Some(0)) => return self.bin_e(Op::And, 1, c, t),
				(None, Some(1)) => {
					let n = self.not_e(c);
					return self.bin_e(Op::Or, 1, n, t);
				},
				_ => {},
			}
		}
		self.mk(Node { op: Op::Ite, w, a: c, b: t, c: f, k: 0 })
	}

	pub fn ite(&mut self, w: u32, c: E, t: &Val, f: &Val) -> Val {
		let t = self.to_e(t, w);
		let f = self.to_e(f, w);
		let e = self.ite_e(c, t, f);
		self.val(e)
	}

	pub fn zext(&mut self, v: &Val, from: u32, to: u32) -> Val {
		match v {
			Val::I(k) => Val::I(*k),
			Val::S(e) => {
				let _ = from;
				let e = self.zext_e(*e, to);
				self.val(e)
			},
			_ => panic!("zext of aggregate"),
		}
	}

	pub fn sext(&mut self, v: &Val, from: u32, to: u32) -> Val {
		match v {
			Val::I(k) => Val::I((sext(*k, from) as u128) & mask(to)),
			Val::S(e) => {
				let e = self.sext_e(*e, to);
				self.val(e)
			},
			_ => panic!("sext of aggregate"),
		}
	}

	pub fn trunc(&mut self, v: &Val, to: u32) -> Val {
		match v {
			Val::I(k) => Val::I(*k & mask(to)),
			Val::S(e) => {
				let e = self.extract_e(*e, 0, to);
				self.val(e)
			},
			_ => panic!("trunc of aggregate"),
		}
	}

	pub fn extract(&mut self, v: &Val, lo: u32, w: u32) -> Val {
		match v {
			Val::I(k) => Val::I((*k >> lo) & mask(w)),
			Val::S(e) => {
				let e = self.extract_e(*e, lo, w);
				self.val(e)
			},
			_ => panic!("extract of aggregate"),
		}
	}

	pub fn concat(&mut self, hi: &Val, hw: u32, lo: &Val, lw: u32) -> Val {
		if let (Val::I(h), Val::I(l)) = (hi, lo) {
			return Val::I((h << lw) | l);
		}
		let h = self.to_e(hi, hw);
		let l = self.to_e(lo, lw);
		let e = self.concat_e(h, l);
		self.val(e)
	}

	pub fn eval(&self, e: E, model: &[u128], memo: &mut Map<E, u128>) -> u128 {
		let n = &self.nodes[e as usize];
		match n.op {
			Op::Const => return n.k,
			Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) & mask(n.w),
			_ => {},
		}
		if let Some(v) = memo.get(&e) {
			return *v;
		}
		let v = match n.op {
			Op::ZExt => self.eval(n.a, model, memo),
			Op::SExt => (sext(self.eval(n.a, model, memo), self.w(n.a)) as u128) & mask(n.w),
			Op::Extract => (self.eval(n.a, model, memo) >> n.k) & mask(n.w),
			Op::Concat => (self.eval(n.a, model, memo) << self.w(n.b)) | self.eval(n.b, model, memo),
			Op::Ite => {
				if self.eval(n.a, model, memo) != 0 {
					self.eval(n.b, model, memo)
				} else {
					self.eval(n.c, model, memo)
				}
			},
			op => {
				let a = self.eval(n.a, model, memo);
				let b = self.eval(n.b, model, memo);
				Self::fold(op, self.w(n.a), a, b)
			},
		};
		memo.insert(e, v);
		v
	}

	pub fn show(&self, e: E, depth: u32) -> String {
		let n = &self.nodes[e as usize];
		match n.op {
			Op::Const => format!("{:#x}:{}", n.k, n.w),
			Op::Var => self.vars[n.k as usize].0.clone(),
			_ if depth == 0 => "..".into(),
			Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
			Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a, depth - 1)),
			Op::Ite => format!("(ite {} {} {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
			_ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
		}
	}
}

pub fn is_cmp(op: Op) -> bool {
	matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

pub fn has_b(op: Op) -> bool {
	!matches!(op, Op::Const | Op::Var | Op::ZExt | Op::SExt | Op::Extract)
}
