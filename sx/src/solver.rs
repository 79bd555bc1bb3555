//! Z3 (C API) back end for bit-vector queries.
use crate::expr::{is_cmp, Ctx, Op, E};
use crate::util::Map;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;

extern "C" {
	fn Z3_mk_config() -> P;
	fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
	fn Z3_mk_context(c: P) -> P;
	fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
	fn Z3_mk_bool_sort(c: P) -> P;
	fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
	fn Z3_mk_const(c: P, s: P, ty: P) -> P;
	fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
	fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
	fn Z3_mk_true(c: P) -> P;
	fn Z3_mk_false(c: P) -> P;
	fn Z3_mk_eq(c: P, a: P, b: P) -> P;
	fn Z3_mk_iff(c: P, a: P, b: P) -> P;
	fn Z3_mk_not(c: P, a: P) -> P;
	fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
	fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
	fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
	fn Z3_mk_xor(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
	fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
	fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
	fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
	fn Z3_mk_concat(c: P, a: P, b: P) -> P;
	fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
	fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
	fn Z3_solver_inc_ref(c: P, s: P);
	fn Z3_solver_push(c: P, s: P);
	fn Z3_solver_pop(c: P, s: P, n: c_uint);
	fn Z3_solver_assert(c: P, s: P, a: P);
	fn Z3_solver_check(c: P, s: P) -> c_int;
	fn Z3_solver_get_model(c: P, s: P) -> P;
	fn Z3_model_inc_ref(c: P, m: P);
	fn Z3_model_dec_ref(c: P, m: P);
	fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
	fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
	fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
	fn Z3_get_bool_value(c: P, a: P) -> c_int;
	fn Z3_mk_params(c: P) -> P;
	fn Z3_params_inc_ref(c: P, p: P);
	fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
	fn Z3_solver_set_params(c: P, s: P, p: P);
	fn Z3_get_error_code(c: P) -> c_int;
	fn Z3_set_error_handler(c: P, h: *const c_void);
}

pub type Model = Rc<Vec<(u32, u128)>>;

#[derive(Clone)]
pub enum Ans {
	Sat(Model),
	Unsat,
	Unknown,
}

pub struct Solver {
	z: P,
	s: P,
	memo: Map<E, P>,
	cache: Map<Vec<E>, Ans>,
	pub queries: u64,
	pub sat: u64,
	pub unsat: u64,
	pub unknown: u64,
	pub cached: u64,
	pub time: f64,
}

impl Solver {
	pub fn new(timeout_ms: u32) -> Self {
		unsafe {
			let cfg = Z3_mk_config();
			let k = CString::new("model").unwrap();
			let v = CString::new("true").unwrap();
			Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
			let z = Z3_mk_context(cfg);
			Z3_set_error_handler(z, std::ptr::null());
			let l = CString::new("QF_BV").unwrap();
			let s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, l.as_ptr()));
			Z3_solver_inc_ref(z, s);
			let p = Z3_mk_params(z);
			Z3_params_inc_ref(z, p);
			let k = CString::new("timeout").unwrap();
			Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, k.as_ptr()), timeout_ms);
			Z3_solver_set_params(z, s, p);
			Solver { z, s, memo: Map::default(), cache: Map::default(), queries: 0, sat: 0, unsat: 0, unknown: 0, cached: 0, time: 0.0 }
		}
	}

	fn num(&self, w: u32, k: u128) -> P {
		unsafe {
			if w == 1 {
				return if k != 0 { Z3_mk_true(self.z) } else { Z3_mk_false(self.z) };
			}
			let s = Z3_mk_bv_sort(self.z, w);
			if k <= u64::MAX as u128 {
				Z3_mk_unsigned_int64(self.z, k as u64, s)
			} else {
				let t = CString::new(k.to_string()).unwrap();
				Z3_mk_numeral(self.z, t.as_ptr(), s)
			}
		}
	}

	/// Boolean as a one-bit vector.
	fn bv1(&self, b: P) -> P {
		unsafe {
			let s = Z3_mk_bv_sort(self.z, 1);
			Z3_mk_ite(self.z, b, Z3_mk_unsigned_int64(self.z, 1, s), Z3_mk_unsigned_int64(self.z, 0, s))
		}
	}
	fn as_bool(&self, b: P) -> P {
		unsafe {
			let s = Z3_mk_bv_sort(self.z, 1);
			Z3_mk_eq(self.z, b, Z3_mk_unsigned_int64(self.z, 1, s))
		}
	}

	fn ast(&mut self, ctx: &Ctx, e: E) -> P {
		if let Some(p) = self.memo.get(&e) {
			return *p;
		}
		let n = ctx.nodes[e as usize];
		let z = self.z;
		let aw = |x: E| ctx.w(x);
		let p = unsafe {
			match n.op {
				Op::Const => self.num(n.w, n.k),
				Op::Var => {
					let s = if n.w == 1 { Z3_mk_bool_sort(z) } else { Z3_mk_bv_sort(z, n.w) };
					Z3_mk_const(z, Z3_mk_int_symbol(z, n.k as c_int), s)
				},
				Op::ZExt | Op::SExt => {
					let mut a = self.ast(ctx, n.a);
					let iw = aw(n.a);
					if iw == 1 {
						if n.op == Op::ZExt {
							let (t, f) = (self.num(n.w, 1), self.num(n.w, 0));
							let r = Z3_mk_ite(z, a, t, f);
							self.memo.insert(e, r);
							return r;
						}
						a = self.bv1(a);
					}
					if n.op == Op::ZExt {
						Z3_mk_zero_ext(z, n.w - iw, a)
					} else {
						Z3_mk_sign_ext(z, n.w - iw, a)
					}
				},
				Op::Extract => {
					let mut a = self.ast(ctx, n.a);
					if aw(n.a) == 1 {
						a = self.bv1(a);
					}
					let r = Z3_mk_extract(z, n.k as u32 + n.w - 1, n.k as u32, a);
					if n.w == 1 {
						self.as_bool(r)
					} else {
						r
					}
				},
				Op::Concat => {
					let mut a = self.ast(ctx, n.a);
					let mut b = self.ast(ctx, n.b);
					if aw(n.a) == 1 {
						a = self.bv1(a);
					}
					if aw(n.b) == 1 {
						b = self.bv1(b);
					}
					Z3_mk_concat(z, a, b)
				},
				Op::Ite => {
					let c = self.ast(ctx, n.a);
					let t = self.ast(ctx, n.b);
					let f = self.ast(ctx, n.c);
					Z3_mk_ite(z, c, t, f)
				},
				op => {
					let w = aw(n.a);
					let mut a = self.ast(ctx, n.a);
					let mut b = self.ast(ctx, n.b);
					if w == 1 {
						let ab = [a, b];
						match op {
							Op::And => Z3_mk_and(z, 2, ab.as_ptr()),
							Op::Or => Z3_mk_or(z, 2, ab.as_ptr()),
							Op::Xor | Op::Add | Op::Sub => Z3_mk_xor(z, a, b),
							Op::Eq => Z3_mk_iff(z, a, b),
							_ => {
								a = self.bv1(a);
								b = self.bv1(b);
								let r = self.bvop(op, a, b);
								if is_cmp(op) {
									r
								} else {
									self.as_bool(r)
								}
							},
						}
					} else {
						self.bvop(op, a, b)
					}
				},
			}
		};
		self.memo.insert(e, p);
		p
	}

	unsafe fn bvop(&self, op: Op, a: P, b: P) -> P {
		let z = self.z;
		match op {
			Op::Add => Z3_mk_bvadd(z, a, b),
			Op::Sub => Z3_mk_bvsub(z, a, b),
			Op::Mul => Z3_mk_bvmul(z, a, b),
			Op::UDiv => Z3_mk_bvudiv(z, a, b),
			Op::SDiv => Z3_mk_bvsdiv(z, a, b),
			Op::URem => Z3_mk_bvurem(z, a, b),
			Op::SRem => Z3_mk_bvsrem(z, a, b),
			Op::And => Z3_mk_bvand(z, a, b),
			Op::Or => Z3_mk_bvor(z, a, b),
			Op::Xor => Z3_mk_bvxor(z, a, b),
			Op::Shl => Z3_mk_bvshl(z, a, b),
			Op::LShr => Z3_mk_bvlshr(z, a, b),
			Op::AShr => Z3_mk_bvashr(z, a, b),
			Op::Eq => Z3_mk_eq(z, a, b),
			Op::Ult => Z3_mk_bvult(z, a, b),
			Op::Ule => Z3_mk_bvule(z, a, b),
			Op::Slt => Z3_mk_bvslt(z, a, b),
			Op::Sle => Z3_mk_bvsle(z, a, b),
			_ => unreachable!(),
		}
	}

	/// Is the conjunction satisfiable?  Terms have width 1.
	pub fn check(&mut self, ctx: &mut Ctx, mut cons: Vec<E>) -> Ans {
		cons.sort_unstable();
		cons.dedup();
		if cons.iter().any(|e| ctx.as_const(*e) == Some(0)) {
			return Ans::Unsat;
		}
		cons.retain(|e| ctx.as_const(*e).is_none());
		if let Some(a) = self.cache.get(&cons) {
			self.cached += 1;
			return a.clone();
		}
		let t = Instant::now();
		let mut vars: Vec<u32> = vec![];
		for e in &cons {
			vars.extend(ctx.varset(*e).iter());
		}
		vars.sort_unstable();
		vars.dedup();
		let ans = unsafe {
			Z3_solver_push(self.z, self.s);
			for e in &cons {
				let a = self.ast(ctx, *e);
				Z3_solver_assert(self.z, self.s, a);
			}
			let r = Z3_solver_check(self.z, self.s);
			let ans = match r {
				1 => {
					let m = Z3_solver_get_model(self.z, self.s);
					Z3_model_inc_ref(self.z, m);
					let mut out = Vec::with_capacity(vars.len());
					for v in &vars {
						let w = ctx.vars[*v as usize].1;
						let s = if w == 1 { Z3_mk_bool_sort(self.z) } else { Z3_mk_bv_sort(self.z, w) };
						let c = Z3_mk_const(self.z, Z3_mk_int_symbol(self.z, *v as c_int), s);
						let mut r: P = std::ptr::null_mut();
						let ok = Z3_model_eval(self.z, m, c, true, &mut r);
						assert!(ok, "model evaluation failed");
						let val = if w == 1 {
							(Z3_get_bool_value(self.z, r) == 1) as u128
						} else if w <= 64 {
							let mut x = 0u64;
							assert!(Z3_get_numeral_uint64(self.z, r, &mut x));
							x as u128
						} else {
							let st = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.z, r));
							st.to_str().unwrap().parse().unwrap()
						};
						out.push((*v, val));
					}
					Z3_model_dec_ref(self.z, m);
					Ans::Sat(Rc::new(out))
				},
				-1 => Ans::Unsat,
				_ => Ans::Unknown,
			};
			Z3_solver_pop(self.z, self.s, 1);
			assert_eq!(Z3_get_error_code(self.z), 0, "z3 error");
			ans
		};
		self.queries += 1;
		match &ans {
			Ans::Sat(m) => {
				self.sat += 1;
				// The model is checked against the terms with the engine's own evaluator, so that a
				// disagreement between the encoding and the solver cannot go unnoticed.
				let mut env = vec![0u128; ctx.vars.len()];
				for (v, k) in m.iter() {
					env[*v as usize] = *k;
				}
				let mut memo = Map::default();
				for e in &cons {
					assert_eq!(ctx.eval(*e, &env, &mut memo), 1, "model does not satisfy {}", ctx.show(*e, 6));
				}
			},
			Ans::Unsat => self.unsat += 1,
			Ans::Unknown => self.unknown += 1,
		}
		self.time += t.elapsed().as_secs_f64();
		self.cache.insert(cons, ans.clone());
		ans
	}
}
