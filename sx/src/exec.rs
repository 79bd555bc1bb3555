//! Symbolic execution of the module.
use crate::expr::{mask, sext, Ctx, Op, Val, E};
use crate::ir::*;
use crate::mem::{Kind, Mem, Obj, OFF_MASK, SHIFT};
use crate::solver::{Ans, Solver};
use crate::util::{json_str, Map, Set};
use std::rc::Rc;

#[derive(Clone)]
struct Frame {
	f: Rc<Func>,
	block: u32,
	pc: u32,
	regs: Vec<Val>,
	allocas: Vec<u64>,
	ret_dst: Option<u32>,
	/// Block to continue at in the caller (invoke).
	ret_next: Option<u32>,
}

/// Constraints that share variables.
#[derive(Clone)]
struct Group {
	vars: Vec<u32>,
	cons: Vec<E>,
}

#[derive(Clone)]
pub struct State {
	cur: Frame,
	stack: Vec<Rc<Frame>>,
	mem: Mem,
	groups: Vec<Rc<Group>>,
	model: Rc<Vec<u128>>,
	known: Rc<Map<E, u128>>,
	inputs: Rc<Vec<u32>>,
	notes: Rc<Vec<(u64, Val)>>,
	covers: Rc<Vec<String>>,
	steps: u64,
	forks: u32,
	/// The largest allocation that is not a violation.
	alloc_limit: u64,
}

#[derive(Debug)]
pub enum End {
	Done,
	/// An assumption is false on this path.
	Assume,
	/// This state has no feasible continuation (its forks continue).
	Dead,
	Violation(String, String),
	/// Solver gave up or something outside the engine's repertoire was reached.
	Inconclusive(String),
}

type R<T> = Result<T, End>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
	Def,
	Unresolved,
	Panic,
	Unknown,
	Nop,
	Zero,
	Memcpy,
	Memset,
	Memcmp,
	Strlen,
	Malloc,
	Calloc,
	Realloc,
	Free,
	PosixMemalign,
	Errno,
	Syscall,
	KeyCreate,
	Abort,
	UMin,
	UMax,
	SMin,
	SMax,
	USubSat,
	UAddSat,
	SSubSat,
	SAddSat,
	UAddO,
	USubO,
	UMulO,
	SAddO,
	SSubO,
	SMulO,
	Ctlz,
	Cttz,
	Ctpop,
	Bswap,
	Bitreverse,
	Fshl,
	Fshr,
	Abs,
	UCmp,
	SCmp,
	First,
	ReduceOr,
	ReduceAnd,
	ReduceAdd,
	SxVar,
	SxRange,
	SxAssume,
	SxCheck,
	SxCover,
	SxNote,
	SxConcrete,
	SxAllocLimit,
	SxLive,
	SxDone,
}

pub struct Limits {
	pub steps: u64,
	pub max_paths: u64,
	pub max_violations: usize,
	pub samples: usize,
	pub deadline: std::time::Instant,
}

#[derive(Default)]
pub struct Stats {
	pub done: u64,
	pub assume: u64,
	pub dead: u64,
	pub inconclusive: u64,
	pub steps: u64,
	pub forks: u64,
	pub max_inputs: u64,
	pub max_steps: u64,
	pub checks: u64,
	pub checks_symbolic: u64,
}

pub struct Exec {
	pub m: Module,
	pub ctx: Ctx,
	pub solver: Solver,
	kinds: Vec<K>,
	pub work: std::collections::VecDeque<State>,
	vars: Map<(u32, String, u32), (u32, E)>,
	pub stats: Stats,
	pub lim: Limits,
	pub dbg_seen: Vec<u64>,
	pub fn_seen: Set<u32>,
	pub violations: Vec<String>,
	viol_labels: Map<String, u32>,
	pub inconclusive: Map<String, u64>,
	pub covers: Set<String>,
	pub samples: Vec<String>,
	pub check_labels: Map<String, u64>,
	base_mem: Option<Mem>,
	errno_obj: u64,
}

fn bug(s: impl Into<String>) -> End {
	End::Inconclusive(s.into())
}

impl Exec {
	pub fn new(m: Module, lim: Limits, solver_ms: u32) -> Self {
		let n = m.fn_names.len();
		let mut x = Exec {
			m,
			ctx: Ctx::new(),
			solver: Solver::new(solver_ms),
			kinds: vec![K::Unresolved; n],
			work: Default::default(),
			vars: Map::default(),
			stats: Stats::default(),
			lim,
			dbg_seen: vec![],
			fn_seen: Set::default(),
			violations: vec![],
			viol_labels: Map::default(),
			inconclusive: Map::default(),
			covers: Set::default(),
			samples: vec![],
			check_labels: Map::default(),
			base_mem: None,
			errno_obj: 0,
		};
		let mut mem = Mem::new();
		for _ in 0..n {
			mem.alloc(Obj::new(0, Kind::Func));
		}
		for i in 0..x.m.globals.len() {
			let g = &x.m.globals[i];
			let size = g.ty.size().max(if g.init.is_none() { 64 } else { 0 });
			let mut o = Obj::new(size, if g.constant { Kind::Const } else { Kind::Global });
			if let Some(v) = &g.init {
				store_const(&mut o, 0, &g.ty, v);
			}
			mem.alloc(o);
		}
		x.errno_obj = mem.alloc(Obj::new(8, Kind::Global));
		x.base_mem = Some(mem);
		x
	}

	pub fn start(&mut self, entry: &str) -> Result<(), String> {
		let id = *self.m.fn_ids.get(entry).ok_or_else(|| format!("no function {entry}"))?;
		let f = self.m.func(id);
		self.fn_seen.insert(id);
		let regs = vec![Val::I(0); f.nregs as usize];
		let st = State {
			cur: Frame { f, block: 0, pc: 0, regs, allocas: vec![], ret_dst: None, ret_next: None },
			stack: vec![],
			mem: self.base_mem.clone().unwrap(),
			groups: vec![],
			model: Rc::new(vec![]),
			known: Rc::new(Map::default()),
			inputs: Rc::new(vec![]),
			notes: Rc::new(vec![]),
			covers: Rc::new(vec![]),
			steps: 0,
			forks: 0,
			alloc_limit: u64::MAX,
		};
		self.work.push_back(st);
		Ok(())
	}

	pub fn out_of_budget(&self) -> bool {
		self.violations.len() >= self.lim.max_violations || std::time::Instant::now() >= self.lim.deadline
	}

	/// Run one state to the end of its path; forks are queued.
	pub fn run_path(&mut self, mut st: State) {
		let base = st.steps;
		let end = loop {
			match self.run_block(&mut st) {
				Ok(()) => {},
				Err(e) => break e,
			}
		};
		self.stats.steps += st.steps - base;
		self.stats.max_steps = self.stats.max_steps.max(st.steps);
		self.stats.max_inputs = self.stats.max_inputs.max(st.inputs.len() as u64);
		match end {
			End::Done => {
				self.stats.done += 1;
				for c in st.covers.iter() {
					if !self.covers.contains(c) {
						self.covers.insert(c.clone());
					}
				}
				// Keep a spread of samples: the first ones, then thin out.
				let n = self.stats.done;
				if (self.samples.len() as u64) < self.lim.samples as u64 / 2 || (self.samples.len() < self.lim.samples && n % 37 == 0) {
					let s = self.describe(&st, None);
					self.samples.push(s);
				}
			},
			End::Assume => self.stats.assume += 1,
			End::Dead => self.stats.dead += 1,
			End::Violation(label, msg) => {
				self.stats.done += 1;
				let model = st.model.clone();
				self.record_violation(&st, label, msg, &model);
			},
			End::Inconclusive(msg) => {
				self.stats.inconclusive += 1;
				let at = self.where_(&st);
				let k = format!("{msg} at {}", at.first().cloned().unwrap_or_default());
				*self.inconclusive.entry(k).or_insert(0) += 1;
				if std::env::var_os("SX_TRACE").is_some() {
					eprintln!("inconclusive: {msg}\n  {}", at.join("\n  "));
				}
			},
		}
	}

	fn record_violation(&mut self, st: &State, label: String, msg: String, model: &Rc<Vec<u128>>) {
		let n = self.viol_labels.entry(label.clone()).or_insert(0);
		*n += 1;
		if *n > 2 {
			return;
		}
		let mut s2 = st.clone();
		s2.model = model.clone();
		let d = self.describe(&s2, Some((&label, &msg)));
		self.violations.push(d);
	}

	fn describe(&mut self, st: &State, viol: Option<(&str, &str)>) -> String {
		let mut o = String::from("{");
		if let Some((l, m)) = viol {
			let at = self.where_(st);
			o += &format!("\"label\":{},\"message\":{},\"stack\":[{}],", json_str(l), json_str(m), at.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
		}
		o += "\"inputs\":[";
		for (i, v) in st.inputs.iter().enumerate() {
			let (name, w) = &self.ctx.vars[*v as usize];
			let k = st.model.get(*v as usize).copied().unwrap_or(0) & mask(*w);
			if i > 0 {
				o.push(',');
			}
			o += &format!("[{},{},{}]", json_str(name), w, k);
		}
		o += "],\"notes\":[";
		let mut memo = Map::default();
		for (i, (t, v)) in st.notes.iter().enumerate() {
			let k = match v {
				Val::I(k) => *k,
				Val::S(e) => self.ctx.eval(*e, &st.model, &mut memo),
				Val::A(_) => 0,
			};
			if i > 0 {
				o.push(',');
			}
			o += &format!("[{t},{k}]");
		}
		o += &format!("],\"steps\":{}}}", st.steps);
		o
	}

	/// Source positions of the stack, innermost first.
	fn where_(&self, st: &State) -> Vec<String> {
		let mut out = vec![];
		let top = std::iter::once(&st.cur);
		for (k, fr) in top.chain(st.stack.iter().rev().map(|x| &**x)).enumerate() {
			let b = &fr.f.blocks[fr.block as usize];
			let pc = if k == 0 { fr.pc } else { fr.pc.saturating_sub(1) } as usize;
			let dbg = b.ins.get(pc).map(|x| x.1).unwrap_or(0);
			let loc = self.m.locate(dbg);
			if loc.is_empty() {
				out.push(fr.f.name.clone());
			}
			for (f, file, line) in loc {
				out.push(format!("{f} ({file}:{line})"));
			}
		}
		out.truncate(40);
		out
	}

	// ---- constraints ------------------------------------------------------

	fn eval_model(&self, st: &State, e: E) -> u128 {
		let mut memo = Map::default();
		self.ctx.eval(e, &st.model, &mut memo)
	}

	fn relevant(&mut self, st: &State, e: E) -> Vec<E> {
		let vs = self.ctx.varset(e);
		let mut out = vec![];
		for g in &st.groups {
			if vs.iter().any(|v| g.vars.binary_search(v).is_ok()) {
				out.extend_from_slice(&g.cons);
			}
		}
		out.push(e);
		out
	}

	/// Satisfiability of the path condition with `e`.
	fn query(&mut self, st: &State, e: E) -> Ans {
		if let Some(k) = self.ctx.as_const(e) {
			return if k != 0 { Ans::Sat(Rc::new(vec![])) } else { Ans::Unsat };
		}
		let q = self.relevant(st, e);
		self.solver.check(&mut self.ctx, q)
	}

	fn add(&mut self, st: &mut State, e: E, m: Option<&[(u32, u128)]>) {
		if self.ctx.as_const(e).is_some() {
			return;
		}
		let vs = self.ctx.varset(e);
		let mut ng = Group { vars: vs.to_vec(), cons: vec![] };
		let mut keep = Vec::with_capacity(st.groups.len() + 1);
		for g in st.groups.drain(..) {
			if vs.iter().any(|v| g.vars.binary_search(v).is_ok()) {
				ng.vars.extend_from_slice(&g.vars);
				ng.cons.extend_from_slice(&g.cons);
			} else {
				keep.push(g);
			}
		}
		ng.cons.push(e);
		ng.vars.sort_unstable();
		ng.vars.dedup();
		keep.push(Rc::new(ng));
		st.groups = keep;
		if let Some(m) = m {
			let mm = Rc::make_mut(&mut st.model);
			for (v, k) in m {
				if mm.len() <= *v as usize {
					mm.resize(*v as usize + 1, 0);
				}
				mm[*v as usize] = *k;
			}
		}
		debug_assert!(self.eval_model(st, e) == 1);
	}

	/// Decide a branch; the other side is queued if it is feasible.  The queued state re-executes the
	/// current instruction with the negated condition recorded, and takes the other side then.
	fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
		if let Some(k) = self.ctx.as_const(c) {
			return Ok(k != 0);
		}
		if let Some(k) = st.known.get(&c) {
			return Ok(*k != 0);
		}
		let cur = self.eval_model(st, c) != 0;
		let nc = self.ctx.not_e(c);
		let (mine, other) = if cur { (c, nc) } else { (nc, c) };
		match self.query(st, other) {
			Ans::Unsat => {},
			Ans::Sat(m) => {
				let mut o = st.clone();
				self.add(&mut o, other, Some(&m));
				Rc::make_mut(&mut o.known).insert(c, !cur as u128);
				o.forks += 1;
				self.stats.forks += 1;
				self.work.push_back(o);
				self.add(st, mine, None);
			},
			Ans::Unknown => return Err(bug("solver timeout")),
		}
		Rc::make_mut(&mut st.known).insert(c, cur as u128);
		Ok(cur)
	}

	/// Pick a concrete value; the remaining values are queued.
	fn concretize(&mut self, st: &mut State, v: &Val) -> R<u128> {
		let e = match v {
			Val::I(k) => return Ok(*k),
			Val::S(e) => *e,
			Val::A(_) => return Err(bug("aggregate as scalar")),
		};
		if let Some(k) = st.known.get(&e) {
			return Ok(*k);
		}
		let k = self.eval_model(st, e);
		let w = self.ctx.w(e);
		let ke = self.ctx.konst(w, k);
		let eq = self.ctx.bin_e(Op::Eq, w, e, ke);
		let ne = self.ctx.not_e(eq);
		match self.query(st, ne) {
			Ans::Unsat => {},
			Ans::Sat(m) => {
				let mut o = st.clone();
				self.add(&mut o, ne, Some(&m));
				o.forks += 1;
				self.stats.forks += 1;
				self.work.push_back(o);
				self.add(st, eq, None);
			},
			Ans::Unknown => return Err(bug("solver timeout")),
		}
		Rc::make_mut(&mut st.known).insert(e, k);
		Ok(k)
	}

	fn assume(&mut self, st: &mut State, c: &Val) -> R<()> {
		match c {
			Val::I(0) => Err(End::Assume),
			Val::I(_) => Ok(()),
			Val::S(e) => {
				let e = *e;
				if self.eval_model(st, e) != 0 {
					self.add(st, e, None);
					return Ok(());
				}
				match self.query(st, e) {
					Ans::Unsat => Err(End::Assume),
					Ans::Sat(m) => {
						self.add(st, e, Some(&m));
						Ok(())
					},
					Ans::Unknown => Err(bug("solver timeout")),
				}
			},
			Val::A(_) => Err(bug("aggregate")),
		}
	}

	fn check(&mut self, st: &mut State, c: &Val, label: String) -> R<()> {
		self.stats.checks += 1;
		*self.check_labels.entry(label.clone()).or_insert(0) += 1;
		match c {
			Val::I(0) => Err(End::Violation(label, "check is false".into())),
			Val::I(_) => Ok(()),
			Val::S(e) => {
				self.stats.checks_symbolic += 1;
				let e = *e;
				let ne = self.ctx.not_e(e);
				match self.query(st, ne) {
					Ans::Unsat => Ok(()),
					Ans::Unknown => Err(bug("solver timeout")),
					Ans::Sat(m) => {
						let mut o = st.clone();
						self.add(&mut o, ne, Some(&m));
						let model = o.model.clone();
						self.record_violation(&o, label, "check can be false".into(), &model);
						// continue with the other inputs
						match self.query(st, e) {
							Ans::Unsat => Err(End::Dead),
							Ans::Unknown => Err(bug("solver timeout")),
							Ans::Sat(m) => {
								self.add(st, e, Some(&m));
								Ok(())
							},
						}
					},
				}
			},
			Val::A(_) => Err(bug("aggregate")),
		}
	}

	// ---- memory -----------------------------------------------------------

	fn resolve(&mut self, st: &State, p: u64, n: u64, write: bool) -> R<(u64, u64)> {
		let (id, off) = (p >> SHIFT, p & OFF_MASK);
		match st.mem.get(id) {
			Some(o) => {
				if off.checked_add(n).map_or(true, |e| e > o.size) {
					if n == 0 {
						return Ok((id, off));
					}
					return Err(End::Violation(
						"memory-safety".into(),
						format!("{} of {n} bytes at offset {off} of an object of {} bytes", if write { "write" } else { "read" }, o.size),
					));
				}
				if write && o.kind == Kind::Const {
					return Err(End::Violation("memory-safety".into(), "write to constant data".into()));
				}
				Ok((id, off))
			},
			None => {
				if n == 0 {
					return Ok((id, off));
				}
				let what = if id == 0 {
					"null or dangling pointer"
				} else if st.mem.was_allocated(id) {
					"freed memory"
				} else {
					"wild pointer"
				};
				Err(End::Violation("memory-safety".into(), format!("{} of {n} bytes through {what} ({p:#x})", if write { "write" } else { "read" })))
			},
		}
	}

	fn tz(&self, e: E) -> u32 {
		let n = self.ctx.nodes[e as usize];
		match n.op {
			Op::Const => {
				if n.k == 0 {
					64
				} else {
					n.k.trailing_zeros()
				}
			},
			Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(n.a).min(self.tz(n.b)),
			Op::Mul => self.tz(n.a) + self.tz(n.b),
			Op::ZExt | Op::SExt => self.tz(n.a).min(self.ctx.w(n.a)),
			Op::Concat => {
				let l = self.tz(n.b);
				let lw = self.ctx.w(n.b);
				if l >= lw {
					lw + self.tz(n.a)
				} else {
					l
				}
			},
			Op::Ite => self.tz(n.b).min(self.tz(n.c)),
			_ => 0,
		}
	}

	fn load_scalar(&mut self, st: &mut State, p: &Val, n: u64) -> R<Val> {
		if let Val::I(a) = p {
			let (id, off) = self.resolve(st, *a as u64, n, false)?;
			if n == 0 {
				return Ok(Val::I(0));
			}
			let o = st.mem.get(id).unwrap();
			if o.kind == Kind::Func {
				return Err(bug("load from function"));
			}
			return Ok(o.read(&mut self.ctx, off, n));
		}
		let e = match p {
			Val::S(e) => *e,
			_ => return Err(bug("aggregate pointer")),
		};
		if st.known.contains_key(&e) {
			let k = self.concretize(st, p)?;
			return self.load_scalar(st, &Val::I(k), n);
		}
		// Try a table lookup inside the object the model points into.
		let k = self.eval_model(st, e) as u64;
		let (id, off) = (k >> SHIFT, k & OFF_MASK);
		if let Some(o) = st.mem.get(id).cloned() {
			let step = 1u64 << self.tz(e).min(4);
			let first = off % step;
			if o.size >= n && (o.size - n) / step < 512 {
				let last = (o.size - n).saturating_sub(first) / step * step + first;
				let lo = self.ctx.konst(64, ((id << SHIFT) + first) as u128);
				let hi = self.ctx.konst(64, ((id << SHIFT) + last) as u128);
				let c1 = self.ctx.bin_e(Op::Ule, 64, lo, e);
				let c2 = self.ctx.bin_e(Op::Ule, 64, e, hi);
				let inb = self.ctx.bin_e(Op::And, 1, c1, c2);
				let out = self.ctx.not_e(inb);
				match self.query(st, out) {
					Ans::Unsat => {
						let mut acc: Option<E> = None;
						let mut a = last;
						loop {
							let v = o.read(&mut self.ctx, a, n);
							let ve = self.ctx.to_e(&v, n as u32 * 8);
							acc = Some(match acc {
								None => ve,
								Some(f) => {
									let ka = self.ctx.konst(64, ((id << SHIFT) + a) as u128);
									let c = self.ctx.bin_e(Op::Eq, 64, e, ka);
									if self.ctx.as_const(c) == Some(0) {
										f
									} else {
										self.ctx.ite_e(c, ve, f)
									}
								},
							});
							if a < first + step {
								break;
							}
							a -= step;
						}
						let r = acc.unwrap();
						return Ok(match self.ctx.as_const(r) {
							Some(k) => Val::I(k),
							None => Val::S(r),
						});
					},
					Ans::Unknown => return Err(bug("solver timeout")),
					Ans::Sat(_) => {},
				}
			}
		}
		let k = self.concretize(st, p)?;
		self.load_scalar(st, &Val::I(k), n)
	}

	fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
		match ty {
			Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
				let n = ty.store_size();
				let v = self.load_scalar(st, p, n)?;
				let w = ty.bits();
				Ok(if w as u64 != n * 8 { self.ctx.trunc(&v, w) } else { v })
			},
			Ty::Struct(..) | Ty::Arr(..) => {
				let base = self.concretize(st, p)?;
				let mut out = Vec::with_capacity(ty.nfields());
				for i in 0..ty.nfields() {
					let a = Val::I(base + ty.field_offset(i) as u128);
					out.push(self.load(st, &a, &ty.field(i))?);
				}
				Ok(Val::A(Rc::new(out)))
			},
			Ty::Vec(n, t) => {
				let base = self.concretize(st, p)?;
				let eb = t.bits() as u64;
				if eb % 8 != 0 {
					return Err(bug("load of a sub-byte vector"));
				}
				let mut out = Vec::with_capacity(*n as usize);
				for i in 0..*n {
					let a = Val::I(base + (i * eb / 8) as u128);
					out.push(self.load(st, &a, t)?);
				}
				Ok(Val::A(Rc::new(out)))
			},
			_ => Err(bug("load type")),
		}
	}

	fn store(&mut self, st: &mut State, p: u64, ty: &Ty, v: &Val) -> R<()> {
		match ty {
			Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
				let n = ty.store_size();
				let w = ty.bits();
				let (id, off) = self.resolve(st, p, n, true)?;
				let v = if w as u64 != n * 8 { self.ctx.zext(v, w, n as u32 * 8) } else { v.clone() };
				st.mem.get_mut(id).unwrap().write(off, n, &v);
				Ok(())
			},
			Ty::Struct(..) | Ty::Arr(..) => {
				let Val::A(items) = v else { return Err(bug("scalar for aggregate")) };
				for i in 0..ty.nfields() {
					self.store(st, p + ty.field_offset(i), &ty.field(i), &items[i])?;
				}
				Ok(())
			},
			Ty::Vec(_, t) => {
				let Val::A(items) = v else { return Err(bug("scalar for vector")) };
				let eb = t.bits() as u64;
				if eb % 8 != 0 {
					return Err(bug("store of a sub-byte vector"));
				}
				for (i, x) in items.iter().enumerate() {
					self.store(st, p + i as u64 * eb / 8, t, x)?;
				}
				Ok(())
			},
			_ => Err(bug("store type")),
		}
	}

	fn read_str(&mut self, st: &State, p: u64, n: u64) -> R<String> {
		let (id, off) = self.resolve(st, p, n, false)?;
		if n == 0 {
			return Ok(String::new());
		}
		Ok(match st.mem.get(id).unwrap().concrete(off, n) {
			Some(b) => String::from_utf8_lossy(&b).into_owned(),
			None => "<symbolic text>".into(),
		})
	}

	// ---- instructions -----------------------------------------------------

	#[inline]
	fn val(fr: &Frame, o: &Opnd) -> Val {
		match o {
			Opnd::Reg(r) => fr.regs[*r as usize].clone(),
			Opnd::C(v) => v.clone(),
		}
	}

	fn goto(&mut self, st: &mut State, to: u32) {
		let from = st.cur.block;
		let f = st.cur.f.clone();
		let b = &f.blocks[to as usize];
		if !b.phis.is_empty() {
			if b.phis.len() == 1 {
				let (d, inc) = &b.phis[0];
				let v = Self::val(&st.cur, &inc.iter().find(|x| x.0 == from).expect("phi").1);
				st.cur.regs[*d as usize] = v;
			} else {
				let vals: Vec<Val> = b.phis.iter().map(|(_, inc)| Self::val(&st.cur, &inc.iter().find(|x| x.0 == from).expect("phi").1)).collect();
				for ((d, _), v) in b.phis.iter().zip(vals) {
					st.cur.regs[*d as usize] = v;
				}
			}
		}
		st.cur.block = to;
		st.cur.pc = 0;
	}

	fn run_block(&mut self, st: &mut State) -> R<()> {
		let f = st.cur.f.clone();
		let bi = st.cur.block;
		let b = &f.blocks[bi as usize];
		loop {
			let (ins, dbg) = &b.ins[st.cur.pc as usize];
			st.steps += 1;
			if st.steps > self.lim.steps {
				return Err(End::Violation("nontermination".into(), format!("more than {} instructions on one path", self.lim.steps)));
			}
			let di = *dbg as usize / 64;
			if di >= self.dbg_seen.len() {
				self.dbg_seen.resize(di + 1024, 0);
			}
			self.dbg_seen[di] |= 1 << (dbg % 64);
			match ins {
				Ins::Br(t) => {
					self.goto(st, *t);
					return Ok(());
				},
				Ins::CondBr(c, t, e) => {
					let c = Self::val(&st.cur, c);
					let k = match c {
						Val::I(k) => k != 0,
						Val::S(x) => self.branch(st, x)?,
						_ => return Err(bug("branch")),
					};
					self.goto(st, if k { *t } else { *e });
					return Ok(());
				},
				Ins::Switch { w, v, def, cases } => {
					let v = Self::val(&st.cur, v);
					let to = match v {
						Val::I(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
						Val::S(e) => {
							// Decide target by target.
							let mut targets: Vec<u32> = vec![];
							for c in cases {
								if c.1 != *def && !targets.contains(&c.1) {
									targets.push(c.1);
								}
							}
							let mut to = *def;
							for t in targets {
								let mut cond: Option<E> = None;
								for (k, b) in cases {
									if *b == t {
										let ke = self.ctx.konst(*w, *k);
										let q = self.ctx.bin_e(Op::Eq, *w, e, ke);
										cond = Some(match cond {
											None => q,
											Some(c) => self.ctx.bin_e(Op::Or, 1, c, q),
										});
									}
								}
								if self.branch(st, cond.unwrap())? {
									to = t;
									break;
								}
							}
							to
						},
						_ => return Err(bug("switch")),
					};
					self.goto(st, to);
					return Ok(());
				},
				Ins::Ret(v) => {
					let v = v.as_ref().map(|v| Self::val(&st.cur, v));
					for a in std::mem::take(&mut st.cur.allocas) {
						st.mem.free(a);
					}
					let Some(parent) = st.stack.pop() else {
						return Err(End::Done);
					};
					let parent = Rc::try_unwrap(parent).unwrap_or_else(|p| (*p).clone());
					let old = std::mem::replace(&mut st.cur, parent);
					if let (Some(d), Some(v)) = (old.ret_dst, v) {
						st.cur.regs[d as usize] = v;
					}
					if let Some(n) = old.ret_next {
						self.goto(st, n);
					}
					return Ok(());
				},
				Ins::Call { dst, ty, callee, args, next } => {
					let id = match callee {
						Callee::Fn(id) => *id,
						Callee::Asm(t) => {
							if t.trim().is_empty() {
								st.cur.pc += 1;
								continue;
							}
							return Err(bug(format!("inline asm {t:?}")));
						},
						Callee::Ptr(o) => {
							let v = Self::val(&st.cur, o);
							let a = self.concretize(st, &v)? as u64;
							let id = a >> SHIFT;
							if a & OFF_MASK != 0 || id < FN_BASE || id >= self.m.gbase() {
								return Err(End::Violation("memory-safety".into(), format!("call through {a:#x}, which is not a function")));
							}
							(id - FN_BASE) as u32
						},
					};
					let kind = self.kind(id);
					let vals: Vec<Val> = args.iter().map(|a| Self::val(&st.cur, &a.1)).collect();
					if kind == K::Def {
						let f = self.m.func(id);
						self.fn_seen.insert(id);
						let mut regs = vec![Val::I(0); f.nregs as usize];
						for (p, v) in f.params.iter().zip(vals) {
							regs[*p as usize] = v;
						}
						if st.stack.len() > 4000 {
							return Err(End::Violation("nontermination".into(), "call depth above 4000".into()));
						}
						st.cur.pc += 1;
						let fr = Frame { f, block: 0, pc: 0, regs, allocas: vec![], ret_dst: *dst, ret_next: *next };
						let old = std::mem::replace(&mut st.cur, fr);
						st.stack.push(Rc::new(old));
						return Ok(());
					}
					let r = self.external(st, id, kind, ty, args, vals)?;
					if let Some(d) = dst {
						st.cur.regs[*d as usize] = r.unwrap_or(Val::I(0));
					}
					if let Some(n) = next {
						self.goto(st, *n);
						return Ok(());
					}
					st.cur.pc += 1;
				},
				Ins::Unreachable => return Err(End::Violation("unreachable".into(), "code the compiler marked unreachable was reached".into())),
				Ins::Unsupported(s) => return Err(bug(format!("unsupported instruction {s}"))),
				other => {
					self.simple(st, other)?;
					st.cur.pc += 1;
				},
			}
		}
	}

	fn bin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Val {
		self.ctx.bin(op, w, a, b)
	}

	fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
		match p {
			Pred::Eq => self.bin(Op::Eq, w, a, b),
			Pred::Ne => {
				let v = self.bin(Op::Eq, w, a, b);
				self.not(&v)
			},
			Pred::Ult => self.bin(Op::Ult, w, a, b),
			Pred::Ule => self.bin(Op::Ule, w, a, b),
			Pred::Ugt => self.bin(Op::Ult, w, b, a),
			Pred::Uge => self.bin(Op::Ule, w, b, a),
			Pred::Slt => self.bin(Op::Slt, w, a, b),
			Pred::Sle => self.bin(Op::Sle, w, a, b),
			Pred::Sgt => self.bin(Op::Slt, w, b, a),
			Pred::Sge => self.bin(Op::Sle, w, b, a),
		}
	}

	fn not(&mut self, v: &Val) -> Val {
		self.bin(Op::Xor, 1, v, &Val::I(1))
	}

	fn simple(&mut self, st: &mut State, ins: &Ins) -> R<()> {
		match ins {
			Ins::Bin { op, w, lanes, dst, a, b } => {
				let (a, b) = (Self::val(&st.cur, a), Self::val(&st.cur, b));
				let r = if *lanes == 0 {
					if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && matches!(b, Val::I(0)) {
						return Err(End::Violation("division".into(), "division by zero".into()));
					}
					self.bin(*op, *w, &a, &b)
				} else {
					let (Val::A(x), Val::A(y)) = (a, b) else { return Err(bug("vector op")) };
					Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.bin(*op, *w, p, q)).collect()))
				};
				st.cur.regs[*dst as usize] = r;
			},
			Ins::ICmp { p, w, lanes, dst, a, b } => {
				let (a, b) = (Self::val(&st.cur, a), Self::val(&st.cur, b));
				let r = if *lanes == 0 {
					self.icmp(*p, *w, &a, &b)
				} else {
					let (Val::A(x), Val::A(y)) = (a, b) else { return Err(bug("vector cmp")) };
					Val::A(Rc::new(x.iter().zip(y.iter()).map(|(s, q)| self.icmp(*p, *w, s, q)).collect()))
				};
				st.cur.regs[*dst as usize] = r;
			},
			Ins::Load { dst, ty, p } => {
				let p = Self::val(&st.cur, p);
				let v = self.load(st, &p, ty)?;
				st.cur.regs[*dst as usize] = v;
			},
			Ins::Store { ty, v, p } => {
				let p = Self::val(&st.cur, p);
				let a = self.concretize(st, &p)? as u64;
				let v = Self::val(&st.cur, v);
				self.store(st, a, ty, &v)?;
			},
			Ins::Gep { dst, base, off, idx } => {
				let mut v = Self::val(&st.cur, base);
				if *off != 0 {
					v = self.bin(Op::Add, 64, &v, &Val::I(*off as u64 as u128));
				}
				for (i, w, scale) in idx {
					let i = Self::val(&st.cur, i);
					let i = if *w < 64 { self.ctx.sext(&i, *w, 64) } else { i };
					let i = if *scale == 1 {
						i
					} else if scale.is_power_of_two() {
						self.bin(Op::Shl, 64, &i, &Val::I(scale.trailing_zeros() as u128))
					} else {
						self.bin(Op::Mul, 64, &i, &Val::I(*scale as u128))
					};
					v = self.bin(Op::Add, 64, &v, &i);
				}
				st.cur.regs[*dst as usize] = v;
			},
			Ins::Alloca { dst, size, n } => {
				let n = Self::val(&st.cur, n);
				let n = self.concretize(st, &n)? as u64;
				let id = st.mem.alloc(Obj::new(size * n, Kind::Stack));
				st.cur.allocas.push(id);
				st.cur.regs[*dst as usize] = Val::I((id << SHIFT) as u128);
			},
			Ins::Cast { k, dst, from, to, a } => {
				let a = Self::val(&st.cur, a);
				let r = match k {
					CastK::Copy => a,
					CastK::Bitcast => self.bitcast(&a, from, to)?,
					_ => {
						let one = |x: &mut Self, v: &Val, f: u32, t: u32| match k {
							CastK::Zext => x.ctx.zext(v, f, t),
							CastK::Sext => x.ctx.sext(v, f, t),
							_ => x.ctx.trunc(v, t),
						};
						match (from, to) {
							(Ty::Vec(_, f), Ty::Vec(_, t)) => {
								let Val::A(l) = a else { return Err(bug("vector cast")) };
								Val::A(Rc::new(l.iter().map(|v| one(self, v, f.bits(), t.bits())).collect()))
							},
							_ => one(self, &a, from.bits(), to.bits()),
						}
					},
				};
				st.cur.regs[*dst as usize] = r;
			},
			Ins::Select { dst, ty, lanes, c, a, b } => {
				let c = Self::val(&st.cur, c);
				let a = Self::val(&st.cur, a);
				let b = Self::val(&st.cur, b);
				let r = if *lanes > 0 {
					let (Val::A(c), Val::A(a), Val::A(b)) = (c, a, b) else { return Err(bug("vector select")) };
					let w = ty.field(0).bits();
					let mut out = vec![];
					for i in 0..c.len() {
						out.push(match &c[i] {
							Val::I(0) => b[i].clone(),
							Val::I(_) => a[i].clone(),
							Val::S(e) => self.ctx.ite(w, *e, &a[i], &b[i]),
							_ => return Err(bug("vector select")),
						});
					}
					Val::A(Rc::new(out))
				} else {
					match c {
						Val::I(k) => {
							if k != 0 {
								a
							} else {
								b
							}
						},
						Val::S(e) => match (ty, &a, &b) {
							(_, Val::I(x), Val::I(y)) if x == y => a,
							(Ty::Int(w), _, _) => self.ctx.ite(*w, e, &a, &b),
							_ => {
								if self.branch(st, e)? {
									a
								} else {
									b
								}
							},
						},
						_ => return Err(bug("select")),
					}
				};
				st.cur.regs[*dst as usize] = r;
			},
			Ins::ExtractValue { dst, a, path } => {
				let mut v = Self::val(&st.cur, a);
				for i in path {
					let Val::A(l) = &v else { return Err(bug("extractvalue")) };
					let n = l[*i as usize].clone();
					v = n;
				}
				st.cur.regs[*dst as usize] = v;
			},
			Ins::InsertValue { dst, ty: _, a, v, path } => {
				let a = Self::val(&st.cur, a);
				let v = Self::val(&st.cur, v);
				st.cur.regs[*dst as usize] = insert(&a, path, v);
			},
			Ins::ExtractElem { dst, a, i } => {
				let a = Self::val(&st.cur, a);
				let i = Self::val(&st.cur, i);
				let i = self.concretize(st, &i)? as usize;
				let Val::A(l) = a else { return Err(bug("extractelement")) };
				st.cur.regs[*dst as usize] = l[i].clone();
			},
			Ins::InsertElem { dst, a, v, i } => {
				let a = Self::val(&st.cur, a);
				let v = Self::val(&st.cur, v);
				let i = Self::val(&st.cur, i);
				let i = self.concretize(st, &i)? as u32;
				st.cur.regs[*dst as usize] = insert(&a, &[i], v);
			},
			Ins::Shuffle { dst, a, b, n, mask } => {
				let (Val::A(a), Val::A(b)) = (Self::val(&st.cur, a), Self::val(&st.cur, b)) else { return Err(bug("shuffle")) };
				let r = mask.iter().map(|m| if *m < *n { a[*m as usize].clone() } else { b[(*m - *n) as usize].clone() }).collect();
				st.cur.regs[*dst as usize] = Val::A(Rc::new(r));
			},
			Ins::Rmw { dst, op, w, p, v } => {
				let p = Self::val(&st.cur, p);
				let a = self.concretize(st, &p)? as u64;
				let v = Self::val(&st.cur, v);
				let ty = Ty::Int(*w);
				let old = self.load(st, &Val::I(a as u128), &ty)?;
				let new = match op {
					Rmw::Xchg => v,
					Rmw::Op(o) => self.bin(*o, *w, &old, &v),
					Rmw::Nand => {
						let t = self.bin(Op::And, *w, &old, &v);
						self.bin(Op::Xor, *w, &t, &Val::I(mask(*w)))
					},
					Rmw::Max | Rmw::Min | Rmw::UMax | Rmw::UMin => {
						let lt = if matches!(op, Rmw::Max | Rmw::Min) { Op::Slt } else { Op::Ult };
						let c = self.bin(lt, *w, &old, &v);
						let (x, y) = if matches!(op, Rmw::Max | Rmw::UMax) { (v.clone(), old.clone()) } else { (old.clone(), v.clone()) };
						self.sel(*w, &c, &x, &y)
					},
				};
				self.store(st, a, &ty, &new)?;
				st.cur.regs[*dst as usize] = old;
			},
			Ins::CmpXchg { dst, w, p, c, n } => {
				let p = Self::val(&st.cur, p);
				let a = self.concretize(st, &p)? as u64;
				let c = Self::val(&st.cur, c);
				let n = Self::val(&st.cur, n);
				let ty = Ty::Int(*w);
				let old = self.load(st, &Val::I(a as u128), &ty)?;
				let eq = self.bin(Op::Eq, *w, &old, &c);
				let ok = match eq {
					Val::I(k) => k != 0,
					Val::S(e) => self.branch(st, e)?,
					_ => return Err(bug("cmpxchg")),
				};
				if ok {
					self.store(st, a, &ty, &n)?;
				} else {
					// still needs write access
					self.resolve(st, a, ty.size(), true)?;
				}
				st.cur.regs[*dst as usize] = Val::A(Rc::new(vec![old, Val::I(ok as u128)]));
			},
			Ins::Nop => {},
			_ => return Err(bug("instruction")),
		}
		Ok(())
	}

	fn sel(&mut self, w: u32, c: &Val, a: &Val, b: &Val) -> Val {
		match c {
			Val::I(0) => b.clone(),
			Val::I(_) => a.clone(),
			Val::S(e) => self.ctx.ite(w, *e, a, b),
			_ => panic!("select"),
		}
	}

	fn bitcast(&mut self, a: &Val, from: &Ty, to: &Ty) -> R<Val> {
		// to bits
		let bits = match (a, from) {
			(Val::A(l), Ty::Vec(_, t)) => {
				let w = t.bits();
				let mut acc = l[0].clone();
				let mut aw = w;
				for v in &l[1..] {
					acc = self.ctx.concat(v, w, &acc, aw);
					aw += w;
				}
				acc
			},
			(v, _) => v.clone(),
		};
		Ok(match to {
			Ty::Vec(n, t) => {
				let w = t.bits();
				Val::A(Rc::new((0..*n as u32).map(|i| self.ctx.extract(&bits, i * w, w)).collect()))
			},
			_ => bits,
		})
	}

	// ---- externals --------------------------------------------------------

	fn kind(&mut self, id: u32) -> K {
		let k = self.kinds[id as usize];
		if k != K::Unresolved {
			return k;
		}
		let n = self.m.fn_names[id as usize].as_str();
		let def = matches!(self.m.fn_defs[id as usize], FnDef::Def(..));
		let k = if n.contains("4core9panicking") || n == "rust_begin_unwind" || n.contains("18handle_alloc_error") || n.contains("8capacity_overflow") || n.contains("3std7process5abort") {
			K::Panic
		} else if let Some(k) = sx_kind(n) {
			k
		} else if def {
			K::Def
		} else {
			ext_kind(n)
		};
		self.kinds[id as usize] = k;
		k
	}

	fn panic_message(&mut self, st: &State, vals: &[Val]) -> String {
		let mut msg = String::new();
		// A string argument directly followed by its length.
		for w in vals.windows(2) {
			if let (Val::I(p), Val::I(n)) = (&w[0], &w[1]) {
				if *p >> SHIFT != 0 && *n > 0 && *n < 400 {
					if let Ok(s) = self.read_str(st, *p as u64, *n as u64) {
						if s.bytes().all(|b| b >= 9) {
							msg = s;
							break;
						}
					}
				}
			}
		}
		if let Some(Val::I(l)) = vals.last() {
			let l = *l as u64;
			let id = l >> SHIFT;
			if let Some(o) = st.mem.get(id).cloned() {
				let off = l & OFF_MASK;
				if off + 24 <= o.size {
					let rd = |x: &mut Self, o2: u64, n: u64| match o.read(&mut x.ctx, off + o2, n) {
						Val::I(k) => k as u64,
						_ => 0,
					};
					let (p, n, line) = (rd(self, 0, 8), rd(self, 8, 8), rd(self, 16, 4));
					if n < 400 {
						if let Ok(s) = self.read_str(st, p, n) {
							msg += &format!(" [{s}:{line}]");
						}
					}
				}
			}
		}
		msg
	}

	/// Check an allocation against the limit set by the harness.
	fn limited(&mut self, st: &mut State, size: &Val) -> R<()> {
		if st.alloc_limit != u64::MAX {
			let large = self.bin(Op::Ult, 64, &Val::I(st.alloc_limit as u128), size);
			let small = self.not(&large);
			let label = "no more memory is allocated than the limits allow";
			let found = self.viol_labels.get(label).copied();
			self.check(st, &small, label.into())?;
			if self.viol_labels.get(label).copied() != found {
				// The sizes that are left are as many as those that are too large.
				return Err(End::Dead);
			}
		}
		Ok(())
	}

	fn alloc(&mut self, st: &mut State, size: &Val) -> R<Val> {
		self.limited(st, size)?;
		let n = self.concretize(st, size)? as u64;
		if n >= 1 << 34 {
			return Err(bug(format!("allocation of {n} bytes")));
		}
		let id = st.mem.alloc(Obj::new(n, Kind::Heap));
		Ok(Val::I((id << SHIFT) as u128))
	}

	fn external(&mut self, st: &mut State, id: u32, k: K, ty: &Ty, args: &[(Ty, Opnd)], vals: Vec<Val>) -> R<Option<Val>> {
		let c64 = |x: &mut Self, st: &mut State, i: usize| -> R<u64> { Ok(x.concretize(st, &vals[i])? as u64) };
		let w = match args.first() {
			Some((Ty::Int(w), _)) => *w,
			_ => 64,
		};
		Ok(match k {
			K::Nop => None,
			K::Zero => Some(ty.zero()),
			K::First => Some(vals[0].clone()),
			K::Panic => {
				let m = self.panic_message(st, &vals);
				let n = self.m.fn_names[id as usize].clone();
				return Err(End::Violation("panic".into(), if m.is_empty() { n } else { m }));
			},
			K::Abort => return Err(End::Violation("panic".into(), "abort".into())),
			K::Memcpy => {
				let n = c64(self, st, 2)?;
				let d = c64(self, st, 0)?;
				let s = c64(self, st, 1)?;
				if n > 0 {
					let (so, sf) = self.resolve(st, s, n, false)?;
					let (d_o, df) = self.resolve(st, d, n, true)?;
					st.mem.copy(so, sf, d_o, df, n);
				}
				Some(vals[0].clone())
			},
			K::Memset => {
				let n = c64(self, st, 2)?;
				let d = c64(self, st, 0)?;
				if n > 0 {
					let (o, off) = self.resolve(st, d, n, true)?;
					let v = self.ctx.trunc(&vals[1], 8);
					let ob = st.mem.get_mut(o).unwrap();
					if n > 1 << 16 && matches!(v, Val::I(0)) && ob.bytes.len() as u64 <= off && ob.sym.is_empty() {
						// already zero
					} else {
						for i in 0..n {
							ob.write(off + i, 1, &v);
						}
					}
				}
				Some(vals[0].clone())
			},
			K::Memcmp => {
				let n = c64(self, st, 2)?;
				let a = c64(self, st, 0)?;
				let b = c64(self, st, 1)?;
				if n == 0 {
					return Ok(Some(Val::I(0)));
				}
				let (ao, af) = self.resolve(st, a, n, false)?;
				let (bo, bf) = self.resolve(st, b, n, false)?;
				let (ao, bo) = (st.mem.get(ao).unwrap().clone(), st.mem.get(bo).unwrap().clone());
				// lexicographic, from the end
				let mut acc = Val::I(0);
				for i in (0..n).rev() {
					let x = ao.read_byte(&mut self.ctx, af + i);
					let y = bo.read_byte(&mut self.ctx, bf + i);
					if let (Val::I(p), Val::I(q)) = (&x, &y) {
						if p != q {
							acc = Val::I(if p < q { mask(32) } else { 1 });
						}
						continue;
					}
					let lt = self.bin(Op::Ult, 8, &x, &y);
					let gt = self.bin(Op::Ult, 8, &y, &x);
					let t = self.sel(32, &gt, &Val::I(1), &acc);
					acc = self.sel(32, &lt, &Val::I(mask(32)), &t);
				}
				Some(acc)
			},
			K::Strlen => {
				let a = c64(self, st, 0)?;
				let mut n = 0;
				loop {
					let v = self.load_scalar(st, &Val::I((a + n) as u128), 1)?;
					if self.concretize(st, &v)? == 0 {
						break;
					}
					n += 1;
				}
				Some(Val::I(n as u128))
			},
			K::Malloc => Some(self.alloc(st, &vals[0])?),
			K::Calloc => {
				let n = self.bin(Op::Mul, 64, &vals[0], &vals[1]);
				Some(self.alloc(st, &n)?)
			},
			K::PosixMemalign => {
				let p = c64(self, st, 0)?;
				let n = c64(self, st, 2)?;
				let a = self.alloc(st, &Val::I(n as u128))?;
				self.store(st, p, &Ty::Ptr, &a)?;
				Some(Val::I(0))
			},
			K::Realloc => {
				let p = c64(self, st, 0)?;
				self.limited(st, &vals[1])?;
				let n = c64(self, st, 1)?;
				let a = self.alloc(st, &Val::I(n as u128))?;
				if p != 0 {
					let (o, off) = self.heap(st, p)?;
					debug_assert!(off == 0);
					let old = st.mem.get(o).unwrap().size;
					let Val::I(na) = a else { unreachable!() };
					st.mem.copy(o, 0, (na as u64) >> SHIFT, 0, old.min(n));
					st.mem.free(o);
				}
				Some(a)
			},
			K::Free => {
				let p = c64(self, st, 0)?;
				if p != 0 {
					let (o, _) = self.heap(st, p)?;
					st.mem.free(o);
				}
				None
			},
			K::Errno => Some(Val::I((self.errno_obj << SHIFT) as u128)),
			K::UMin | K::UMax | K::SMin | K::SMax => {
				let lt = if matches!(k, K::UMin | K::UMax) { Op::Ult } else { Op::Slt };
				let mx = matches!(k, K::UMax | K::SMax);
				let one = |x: &mut Self, w: u32, a: &Val, b: &Val| {
					let c = x.bin(lt, w, a, b);
					if mx {
						x.sel(w, &c, b, a)
					} else {
						x.sel(w, &c, a, b)
					}
				};
				Some(match (&vals[0], &vals[1]) {
					(Val::A(a), Val::A(b)) => {
						let ew = args[0].0.field(0).bits();
						Val::A(Rc::new(a.iter().zip(b.iter()).map(|(p, q)| one(self, ew, p, q)).collect()))
					},
					(a, b) => one(self, w, a, b),
				})
			},
			K::USubSat => {
				let c = self.bin(Op::Ult, w, &vals[0], &vals[1]);
				let d = self.bin(Op::Sub, w, &vals[0], &vals[1]);
				Some(self.sel(w, &c, &Val::I(0), &d))
			},
			K::UAddSat => {
				let s = self.bin(Op::Add, w, &vals[0], &vals[1]);
				let c = self.bin(Op::Ult, w, &s, &vals[0]);
				Some(self.sel(w, &c, &Val::I(mask(w)), &s))
			},
			K::SSubSat | K::SAddSat => return Err(bug("signed saturating arithmetic")),
			K::UAddO => {
				let s = self.bin(Op::Add, w, &vals[0], &vals[1]);
				let c = self.bin(Op::Ult, w, &s, &vals[0]);
				Some(Val::A(Rc::new(vec![s, c])))
			},
			K::USubO => {
				let s = self.bin(Op::Sub, w, &vals[0], &vals[1]);
				let c = self.bin(Op::Ult, w, &vals[0], &vals[1]);
				Some(Val::A(Rc::new(vec![s, c])))
			},
			K::UMulO => {
				let s = self.bin(Op::Mul, w, &vals[0], &vals[1]);
				let (a, b) = match (&vals[0], &vals[1]) {
					(Val::I(_), Val::S(_)) => (vals[1].clone(), vals[0].clone()),
					_ => (vals[0].clone(), vals[1].clone()),
				};
				let c = match (&a, &b) {
					(_, Val::I(0)) => Val::I(0),
					(_, Val::I(m)) => self.bin(Op::Ult, w, &Val::I(mask(w) / m), &a),
					_ => {
						if w * 2 > 128 {
							return Err(bug("wide symbolic multiplication"));
						}
						let x = self.ctx.zext(&a, w, 2 * w);
						let y = self.ctx.zext(&b, w, 2 * w);
						let p = self.bin(Op::Mul, 2 * w, &x, &y);
						self.bin(Op::Ult, 2 * w, &Val::I(mask(w)), &p)
					},
				};
				Some(Val::A(Rc::new(vec![s, c])))
			},
			K::SAddO | K::SSubO | K::SMulO => {
				if w >= 128 {
					return Err(bug("wide signed arithmetic"));
				}
				let op = match k {
					K::SAddO => Op::Add,
					K::SSubO => Op::Sub,
					_ => Op::Mul,
				};
				let ww = if k == K::SMulO { 2 * w } else { w + 1 };
				if ww > 128 {
					return Err(bug("wide signed arithmetic"));
				}
				let x = self.ctx.sext(&vals[0], w, ww);
				let y = self.ctx.sext(&vals[1], w, ww);
				let p = self.bin(op, ww, &x, &y);
				let s = self.ctx.trunc(&p, w);
				let e = self.ctx.sext(&s, w, ww);
				let eq = self.bin(Op::Eq, ww, &e, &p);
				let c = self.not(&eq);
				Some(Val::A(Rc::new(vec![s, c])))
			},
			K::Ctlz | K::Cttz => {
				if let Val::I(v) = vals[0] {
					let n = if v == 0 {
						w
					} else if k == K::Cttz {
						v.trailing_zeros()
					} else {
						v.leading_zeros() - (128 - w)
					};
					return Ok(Some(Val::I(n as u128)));
				}
				let mut acc = Val::I(w as u128);
				for j in 0..w {
					// last written wins, so go from least to most significant decision
					let (bit, n) = if k == K::Ctlz { (j, w - 1 - j) } else { (w - 1 - j, w - 1 - j) };
					let c = self.ctx.extract(&vals[0], bit, 1);
					acc = self.sel(w, &c, &Val::I(n as u128), &acc);
				}
				Some(acc)
			},
			K::Ctpop => {
				if let Val::I(v) = vals[0] {
					return Ok(Some(Val::I(v.count_ones() as u128)));
				}
				let mut acc = Val::I(0);
				for j in 0..w {
					let c = self.ctx.extract(&vals[0], j, 1);
					let c = self.ctx.zext(&c, 1, w);
					acc = self.bin(Op::Add, w, &acc, &c);
				}
				Some(acc)
			},
			K::Bswap | K::Bitreverse => {
				let unit = if k == K::Bswap { 8 } else { 1 };
				let n = w / unit;
				let mut acc = self.ctx.extract(&vals[0], w - unit, unit);
				let mut aw = unit;
				for i in 1..n {
					let b = self.ctx.extract(&vals[0], w - unit - i * unit, unit);
					acc = self.ctx.concat(&b, unit, &acc, aw);
					aw += unit;
				}
				Some(acc)
			},
			K::Fshl | K::Fshr => {
				let s = c64(self, st, 2)? as u32 % w;
				let hi = &vals[0];
				let lo = &vals[1];
				if s == 0 {
					return Ok(Some(if k == K::Fshl { hi.clone() } else { lo.clone() }));
				}
				let (l, r) = if k == K::Fshl { (s, w - s) } else { (w - s, s) };
				let x = self.bin(Op::Shl, w, hi, &Val::I(l as u128));
				let y = self.bin(Op::LShr, w, lo, &Val::I(r as u128));
				Some(self.bin(Op::Or, w, &x, &y))
			},
			K::Abs => {
				let neg = self.bin(Op::Sub, w, &Val::I(0), &vals[0]);
				let c = self.bin(Op::Slt, w, &vals[0], &Val::I(0));
				Some(self.sel(w, &c, &neg, &vals[0]))
			},
			K::UCmp | K::SCmp => {
				let lt = if k == K::UCmp { Op::Ult } else { Op::Slt };
				let rw = ty.bits();
				let c1 = self.bin(lt, w, &vals[0], &vals[1]);
				let c2 = self.bin(lt, w, &vals[1], &vals[0]);
				let t = self.sel(rw, &c2, &Val::I(1), &Val::I(0));
				Some(self.sel(rw, &c1, &Val::I(mask(rw)), &t))
			},
			K::ReduceOr | K::ReduceAnd | K::ReduceAdd => {
				let Val::A(l) = &vals[0] else { return Err(bug("reduce")) };
				let ew = args[0].0.field(0).bits();
				let op = match k {
					K::ReduceOr => Op::Or,
					K::ReduceAnd => Op::And,
					_ => Op::Add,
				};
				let mut acc = l[0].clone();
				for v in &l[1..] {
					acc = self.bin(op, ew, &acc, v);
				}
				Some(acc)
			},
			K::SxVar => {
				let bits = c64(self, st, 0)? as u32;
				let (p, n) = (c64(self, st, 1)?, c64(self, st, 2)?);
				let name = self.read_str(st, p, n)?;
				let e = self.fresh(st, &name, bits);
				let v = self.ctx.zext(&Val::S(e), bits, 64);
				Some(v)
			},
			K::SxRange => {
				let lo = c64(self, st, 0)?;
				let hi = c64(self, st, 1)?;
				let (p, n) = (c64(self, st, 2)?, c64(self, st, 3)?);
				let name = self.read_str(st, p, n)?;
				let bits = (64 - hi.leading_zeros()).max(1);
				let e = self.fresh(st, &name, bits);
				let kh = self.ctx.konst(bits, hi as u128);
				let kl = self.ctx.konst(bits, lo as u128);
				let c1 = self.ctx.bin_e(Op::Ule, bits, e, kh);
				let c2 = self.ctx.bin_e(Op::Ule, bits, kl, e);
				let idx = self.ctx.nodes[e as usize].k as u32;
				if self.ctx.as_const(c2).is_none() || self.ctx.as_const(c1).is_none() {
					let both = self.ctx.bin_e(Op::And, 1, c1, c2);
					self.add(st, both, Some(&[(idx, lo as u128)]));
				}
				let v = self.ctx.zext(&Val::S(e), bits, 64);
				Some(v)
			},
			K::SxAssume => {
				let c = self.truth(&vals[0], w);
				self.assume(st, &c)?;
				None
			},
			K::SxCheck => {
				let (p, n) = (c64(self, st, 1)?, c64(self, st, 2)?);
				let label = self.read_str(st, p, n)?;
				let c = self.truth(&vals[0], w);
				self.check(st, &c, label)?;
				None
			},
			K::SxCover => {
				let (p, n) = (c64(self, st, 0)?, c64(self, st, 1)?);
				let label = self.read_str(st, p, n)?;
				if !st.covers.contains(&label) {
					Rc::make_mut(&mut st.covers).push(label);
				}
				None
			},
			K::SxNote => {
				let t = c64(self, st, 0)?;
				Rc::make_mut(&mut st.notes).push((t, vals[1].clone()));
				None
			},
			K::SxConcrete => {
				let v = self.concretize(st, &vals[0])?;
				Some(Val::I(v))
			},
			K::SxLive => Some(Val::I(st.mem.heap_bytes as u128)),
			K::SxAllocLimit => {
				st.alloc_limit = c64(self, st, 0)?;
				None
			},
			K::Syscall => {
				// getrandom, which seeds the hash tables of std: zeros are as good as any other bytes.
				if c64(self, st, 0)? != 318 {
					return Err(bug("system call"));
				}
				let (p, n) = (c64(self, st, 1)?, c64(self, st, 2)?);
				for i in 0..n {
					self.store(st, p + i, &Ty::Int(8), &Val::I(0))?;
				}
				Some(Val::I(n as u128))
			},
			K::KeyCreate => {
				let p = c64(self, st, 0)?;
				self.store(st, p, &Ty::Int(32), &Val::I(1))?;
				Some(Val::I(0))
			},
			K::SxDone => return Err(End::Done),
			K::Def | K::Unresolved => unreachable!(),
			K::Unknown => return Err(bug(format!("external function {}", self.m.fn_names[id as usize]))),
		})
	}

	fn truth(&mut self, v: &Val, w: u32) -> Val {
		if w == 1 {
			return v.clone();
		}
		let z = self.bin(Op::Eq, w, v, &Val::I(0));
		self.not(&z)
	}

	fn fresh(&mut self, st: &mut State, name: &str, bits: u32) -> E {
		let key = (st.inputs.len() as u32, name.to_string(), bits);
		let (idx, e) = match self.vars.get(&key) {
			Some(x) => *x,
			None => {
				let x = self.ctx.var(name, bits);
				self.vars.insert(key, x);
				x
			},
		};
		Rc::make_mut(&mut st.inputs).push(idx);
		let mm = Rc::make_mut(&mut st.model);
		if mm.len() <= idx as usize {
			mm.resize(idx as usize + 1, 0);
		}
		mm[idx as usize] = 0;
		e
	}

	fn heap(&mut self, st: &State, p: u64) -> R<(u64, u64)> {
		let (id, off) = (p >> SHIFT, p & OFF_MASK);
		match st.mem.get(id) {
			Some(o) if o.kind == Kind::Heap && off == 0 => Ok((id, off)),
			Some(_) => Err(End::Violation("memory-safety".into(), "free of something that is not a heap allocation".into())),
			None => Err(End::Violation("memory-safety".into(), "double free or free of a wild pointer".into())),
		}
	}
}

fn insert(a: &Val, path: &[u32], v: Val) -> Val {
	let Val::A(l) = a else { panic!("insertvalue into scalar") };
	let mut l = (**l).clone();
	let i = path[0] as usize;
	l[i] = if path.len() == 1 { v } else { insert(&l[i], &path[1..], v) };
	Val::A(Rc::new(l))
}

fn store_const(o: &mut Obj, off: u64, ty: &Ty, v: &Val) {
	match v {
		Val::A(items) => {
			if let Ty::Vec(_, t) = ty {
				for (i, x) in items.iter().enumerate() {
					store_const(o, off + i as u64 * t.bits() as u64 / 8, t, x);
				}
				return;
			}
			for (i, x) in items.iter().enumerate() {
				store_const(o, off + ty.field_offset(i), &ty.field(i), x);
			}
		},
		Val::I(k) => {
			if *k != 0 {
				o.write(off, ty.store_size(), v);
			}
		},
		Val::S(_) => unreachable!(),
	}
}

fn sx_kind(n: &str) -> Option<K> {
	Some(match n {
		"sx_var" => K::SxVar,
		"sx_range" => K::SxRange,
		"sx_assume" => K::SxAssume,
		"sx_check" => K::SxCheck,
		"sx_cover" => K::SxCover,
		"sx_note" => K::SxNote,
		"sx_concrete" => K::SxConcrete,
		"sx_live" => K::SxLive,
		"sx_alloc_limit" => K::SxAllocLimit,
		"sx_done" => K::SxDone,
		_ => return None,
	})
}

fn ext_kind(n: &str) -> K {
	if let Some(r) = n.strip_prefix("llvm.") {
		let p = |s: &str| r.starts_with(s);
		return if p("lifetime.") || p("assume") || p("experimental.noalias") || p("dbg.") || p("x86.sse2.pause") || p("prefetch") || p("donothing") || p("invariant.") {
			K::Nop
		} else if p("memcpy") || p("memmove") {
			K::Memcpy
		} else if p("memset") {
			K::Memset
		} else if p("umin.") {
			K::UMin
		} else if p("umax.") {
			K::UMax
		} else if p("smin.") {
			K::SMin
		} else if p("smax.") {
			K::SMax
		} else if p("usub.sat") {
			K::USubSat
		} else if p("uadd.sat") {
			K::UAddSat
		} else if p("ssub.sat") {
			K::SSubSat
		} else if p("sadd.sat") {
			K::SAddSat
		} else if p("uadd.with") {
			K::UAddO
		} else if p("usub.with") {
			K::USubO
		} else if p("umul.with") {
			K::UMulO
		} else if p("sadd.with") {
			K::SAddO
		} else if p("ssub.with") {
			K::SSubO
		} else if p("smul.with") {
			K::SMulO
		} else if p("ctlz") {
			K::Ctlz
		} else if p("cttz") {
			K::Cttz
		} else if p("ctpop") {
			K::Ctpop
		} else if p("bswap") {
			K::Bswap
		} else if p("bitreverse") {
			K::Bitreverse
		} else if p("fshl") {
			K::Fshl
		} else if p("fshr") {
			K::Fshr
		} else if p("abs.") {
			K::Abs
		} else if p("ucmp") {
			K::UCmp
		} else if p("scmp") {
			K::SCmp
		} else if p("is.constant") {
			K::Zero
		} else if p("expect") || p("threadlocal.address") || p("launder") || p("strip.invariant") || p("ptr.annotation") {
			K::First
		} else if p("vector.reduce.or") {
			K::ReduceOr
		} else if p("vector.reduce.and") {
			K::ReduceAnd
		} else if p("vector.reduce.add") {
			K::ReduceAdd
		} else if p("trap") || p("ubsantrap") {
			K::Abort
		} else {
			K::Unknown
		};
	}
	match n {
		"memcpy" | "memmove" => K::Memcpy,
		"memset" => K::Memset,
		"memcmp" | "bcmp" => K::Memcmp,
		"strlen" => K::Strlen,
		"malloc" => K::Malloc,
		"calloc" => K::Calloc,
		"realloc" => K::Realloc,
		"free" => K::Free,
		"posix_memalign" => K::PosixMemalign,
		"__errno_location" => K::Errno,
		"abort" | "exit" | "_exit" => K::Abort,
		// Thread-local destructors never run: threads do not end before the path does.
		"__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" => K::Zero,
		"pthread_key_create" => K::KeyCreate,
		"syscall" => K::Syscall,
		_ if n.contains("no_alloc_shim") => K::Nop,
		_ => K::Unknown,
	}
}

#[allow(dead_code)]
fn _unused() {
	let _ = sext(0, 1);
}
