//! Parser for the textual LLVM IR rustc emits (opaque pointers, LLVM >= 17).
use crate::expr::{mask, sext, Op, Val};
use crate::util::Map;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
	Void,
	Int(u32),
	Ptr,
	Float(u32),
	Arr(u64, Rc<Ty>),
	Vec(u64, Rc<Ty>),
	Struct(Rc<Vec<Ty>>, bool),
	Other,
}

impl Ty {
	pub fn bits(&self) -> u32 {
		match self {
			Ty::Int(w) | Ty::Float(w) => *w,
			Ty::Ptr => 64,
			Ty::Vec(n, t) => *n as u32 * t.bits(),
			_ => panic!("bits of {self:?}"),
		}
	}
	pub fn align(&self) -> u64 {
		match self {
			Ty::Int(w) => match *w {
				0..=8 => 1,
				9..=16 => 2,
				17..=32 => 4,
				33..=64 => 8,
				_ => 16,
			},
			Ty::Float(w) => (*w as u64 / 8).min(16),
			Ty::Ptr => 8,
			Ty::Arr(_, t) => t.align(),
			Ty::Vec(n, t) => ((n * t.bits() as u64 + 7) / 8).next_power_of_two(),
			Ty::Struct(f, packed) => {
				if *packed {
					1
				} else {
					f.iter().map(|t| t.align()).max().unwrap_or(1)
				}
			},
			Ty::Void | Ty::Other => 1,
		}
	}
	/// Bytes written by a store.
	pub fn store_size(&self) -> u64 {
		match self {
			Ty::Int(w) | Ty::Float(w) => (*w as u64 + 7) / 8,
			Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
			_ => self.size(),
		}
	}
	/// Allocation size.
	pub fn size(&self) -> u64 {
		match self {
			Ty::Int(_) | Ty::Float(_) | Ty::Vec(..) => {
				let a = self.align();
				(self.store_size() + a - 1) / a * a
			},
			Ty::Ptr => 8,
			Ty::Arr(n, t) => n * t.size(),
			Ty::Struct(f, packed) => {
				let mut o = 0;
				for t in f.iter() {
					if !packed {
						let a = t.align();
						o = (o + a - 1) / a * a;
					}
					o += t.size();
				}
				if !packed {
					let a = self.align();
					o = (o + a - 1) / a * a;
				}
				o
			},
			Ty::Void | Ty::Other => 0,
		}
	}
	pub fn field_offset(&self, i: usize) -> u64 {
		match self {
			Ty::Struct(f, packed) => {
				let mut o = 0;
				for (k, t) in f.iter().enumerate() {
					if !packed {
						let a = t.align();
						o = (o + a - 1) / a * a;
					}
					if k == i {
						return o;
					}
					o += t.size();
				}
				panic!("field index")
			},
			Ty::Arr(_, t) => t.size() * i as u64,
			_ => panic!("field_offset of {self:?}"),
		}
	}
	pub fn field(&self, i: usize) -> Ty {
		match self {
			Ty::Struct(f, _) => f[i].clone(),
			Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
			_ => panic!("field of {self:?}"),
		}
	}
	pub fn nfields(&self) -> usize {
		match self {
			Ty::Struct(f, _) => f.len(),
			Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
			_ => 0,
		}
	}
	pub fn zero(&self) -> Val {
		match self {
			Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| t.zero()).collect())),
			Ty::Arr(n, t) | Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| t.zero()).collect())),
			_ => Val::I(0),
		}
	}
}

#[derive(Clone, Debug)]
pub enum Opnd {
	Reg(u32),
	C(Val),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastK {
	Zext,
	Sext,
	Trunc,
	Bitcast,
	Copy,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
	Eq,
	Ne,
	Ult,
	Ule,
	Ugt,
	Uge,
	Slt,
	Sle,
	Sgt,
	Sge,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rmw {
	Xchg,
	Op(Op),
	Nand,
	Max,
	Min,
	UMax,
	UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
	Fn(u32),
	Ptr(Opnd),
	Asm(String),
}

#[derive(Clone, Debug)]
pub enum Ins {
	Bin { op: Op, w: u32, lanes: u32, dst: u32, a: Opnd, b: Opnd },
	ICmp { p: Pred, w: u32, lanes: u32, dst: u32, a: Opnd, b: Opnd },
	Load { dst: u32, ty: Ty, p: Opnd },
	Store { ty: Ty, v: Opnd, p: Opnd },
	Gep { dst: u32, base: Opnd, off: i64, idx: Vec<(Opnd, u32, u64)> },
	Alloca { dst: u32, size: u64, n: Opnd },
	Cast { k: CastK, dst: u32, from: Ty, to: Ty, a: Opnd },
	Select { dst: u32, ty: Ty, lanes: u32, c: Opnd, a: Opnd, b: Opnd },
	Call { dst: Option<u32>, ty: Ty, callee: Callee, args: Vec<(Ty, Opnd)>, next: Option<u32> },
	ExtractValue { dst: u32, a: Opnd, path: Vec<u32> },
	InsertValue { dst: u32, ty: Ty, a: Opnd, v: Opnd, path: Vec<u32> },
	ExtractElem { dst: u32, a: Opnd, i: Opnd },
	InsertElem { dst: u32, a: Opnd, v: Opnd, i: Opnd },
	Shuffle { dst: u32, a: Opnd, b: Opnd, n: u32, mask: Vec<u32> },
	Rmw { dst: u32, op: Rmw, w: u32, p: Opnd, v: Opnd },
	CmpXchg { dst: u32, w: u32, p: Opnd, c: Opnd, n: Opnd },
	Nop,
	Br(u32),
	CondBr(Opnd, u32, u32),
	Switch { w: u32, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
	Ret(Option<Opnd>),
	Unreachable,
	Unsupported(String),
}

pub struct Block {
	pub name: String,
	pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
	pub ins: Vec<(Ins, u32)>,
}

pub struct Func {
	pub id: u32,
	pub name: String,
	pub nregs: u32,
	pub params: Vec<u32>,
	pub ret: Ty,
	pub blocks: Vec<Block>,
	pub dbg: u32,
}

pub struct Global {
	pub name: String,
	pub ty: Ty,
	pub init: Option<Val>,
	pub constant: bool,
}

pub enum FnDef {
	Extern,
	ExternWeak,
	/// Byte range of the text in the module.
	Def(usize, usize),
}

pub struct Module {
	pub text: String,
	pub fn_names: Vec<String>,
	pub fn_defs: Vec<FnDef>,
	pub globals: Vec<Global>,
	/// name -> address (object id << SHIFT)
	pub addr: Map<String, u64>,
	pub fn_ids: Map<String, u32>,
	cache: Vec<Option<Rc<Func>>>,
	meta_index: Map<u32, (usize, usize)>,
	sip_scopes: std::cell::RefCell<Map<u32, bool>>,
}

/// Object ids: functions take 1..=nf, globals follow.
pub const FN_BASE: u64 = 1;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
	Id(String),
	Local(String),
	Global(String),
	Int(i128),
	Str(Vec<u8>),
	CStr(Vec<u8>),
	P(char),
	Meta(String),
	Attr,
	End,
}

struct Lex<'a> {
	s: &'a [u8],
	i: usize,
	cur: Tok,
}

fn is_name(c: u8) -> bool {
	c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

impl<'a> Lex<'a> {
	fn new(s: &'a str) -> Self {
		let mut l = Lex { s: s.as_bytes(), i: 0, cur: Tok::End };
		l.next();
		l
	}

	fn quoted(&mut self) -> Vec<u8> {
		// at opening quote
		self.i += 1;
		let mut out = Vec::new();
		while self.s[self.i] != b'"' {
			if self.s[self.i] == b'\\' {
				if self.s[self.i + 1] == b'\\' {
					out.push(b'\\');
					self.i += 2;
				} else {
					let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
					out.push(u8::from_str_radix(h, 16).unwrap());
					self.i += 3;
				}
			} else {
				out.push(self.s[self.i]);
				self.i += 1;
			}
		}
		self.i += 1;
		out
	}

	fn name(&mut self) -> String {
		if self.i < self.s.len() && self.s[self.i] == b'"' {
			let q = self.quoted();
			return String::from_utf8_lossy(&q).into_owned();
		}
		let st = self.i;
		while self.i < self.s.len() && is_name(self.s[self.i]) {
			self.i += 1;
		}
		String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
	}

	fn next(&mut self) -> Tok {
		let old = std::mem::replace(&mut self.cur, Tok::End);
		loop {
			while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
				self.i += 1;
			}
			if self.i < self.s.len() && self.s[self.i] == b';' {
				while self.i < self.s.len() && self.s[self.i] != b'\n' {
					self.i += 1;
				}
				continue;
			}
			break;
		}
		if self.i >= self.s.len() {
			return old;
		}
		let c = self.s[self.i];
		self.cur = match c {
			b'%' => {
				self.i += 1;
				Tok::Local(self.name())
			},
			b'@' => {
				self.i += 1;
				Tok::Global(self.name())
			},
			b'!' => {
				self.i += 1;
				if self.i < self.s.len() && is_name(self.s[self.i]) {
					Tok::Meta(self.name())
				} else {
					Tok::P('!')
				}
			},
			b'#' => {
				self.i += 1;
				self.name();
				Tok::Attr
			},
			b'"' => Tok::Str(self.quoted()),
			b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
				self.i += 1;
				Tok::CStr(self.quoted())
			},
			b'-' | b'0'..=b'9' => {
				let st = self.i;
				self.i += 1;
				while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'.' || self.s[self.i] == b'+') {
					self.i += 1;
				}
				let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
				match t.parse::<i128>() {
					Ok(v) => Tok::Int(v),
					Err(_) => match t.parse::<u128>() {
						Ok(v) => Tok::Int(v as i128),
						Err(_) => Tok::Id(t.to_string()),
					},
				}
			},
			_ if is_name(c) => Tok::Id(self.name()),
			_ => {
				self.i += 1;
				Tok::P(c as char)
			},
		};
		old
	}

	fn is_p(&self, c: char) -> bool {
		self.cur == Tok::P(c)
	}
	fn is_id(&self, s: &str) -> bool {
		matches!(&self.cur, Tok::Id(x) if x == s)
	}
	fn eat_p(&mut self, c: char) -> bool {
		if self.is_p(c) {
			self.next();
			true
		} else {
			false
		}
	}
	fn eat_id(&mut self, s: &str) -> bool {
		if self.is_id(s) {
			self.next();
			true
		} else {
			false
		}
	}
	fn expect_p(&mut self, c: char) {
		if !self.eat_p(c) {
			let from = self.i.saturating_sub(200);
			panic!("IR parse: expected {c:?}, found {:?} after {:?}", self.cur, String::from_utf8_lossy(&self.s[from..self.i]));
		}
	}
	fn skip_parens(&mut self) {
		// at '('
		let mut d = 0;
		loop {
			match self.next() {
				Tok::P('(') => d += 1,
				Tok::P(')') => {
					d -= 1;
					if d == 0 {
						return;
					}
				},
				Tok::End => panic!("unbalanced"),
				_ => {},
			}
		}
	}
	fn at_type(&self) -> bool {
		match &self.cur {
			Tok::Id(s) => is_type_name(s),
			Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
			_ => false,
		}
	}
	/// Skip attributes up to a type.
	fn skip_attrs_type(&mut self) {
		while !self.at_type() {
			self.skip_one_attr();
		}
	}
	fn skip_one_attr(&mut self) {
		let mut number = false;
		match self.next() {
			Tok::Id(s) => number = s == "align" || s == "addrspace",
			Tok::Str(_) | Tok::Attr | Tok::P('=') => {},
			t => {
				let from = self.i.saturating_sub(200);
				panic!("IR parse: attr {t:?} near {:?}", String::from_utf8_lossy(&self.s[from..self.i]))
			},
		}
		if self.is_p('(') {
			self.skip_parens();
		} else if number && matches!(self.cur, Tok::Int(_)) {
			self.next();
		}
	}
	/// Skip attributes between a type and a value.
	fn skip_attrs_val(&mut self) {
		loop {
			match &self.cur {
				Tok::Id(s) if !is_const_kw(s) => self.skip_one_attr(),
				_ => return,
			}
		}
	}
	fn ty(&mut self) -> Ty {
		let mut t = match self.next() {
			Tok::Id(s) => match s.as_str() {
				"void" => Ty::Void,
				"ptr" => Ty::Ptr,
				"half" | "bfloat" => Ty::Float(16),
				"float" => Ty::Float(32),
				"double" => Ty::Float(64),
				"x86_fp80" => Ty::Float(80),
				"fp128" => Ty::Float(128),
				"label" | "metadata" | "token" => Ty::Other,
				_ => match s.strip_prefix('i').and_then(|x| x.parse().ok()) {
					Some(w) => Ty::Int(w),
					None => panic!("IR parse: type {s}"),
				},
			},
			Tok::P('[') => {
				let n = self.int();
				assert!(self.eat_id("x"));
				let t = self.ty();
				self.expect_p(']');
				Ty::Arr(n as u64, Rc::new(t))
			},
			Tok::P('{') => Ty::Struct(Rc::new(self.ty_list('}')), false),
			Tok::P('<') => {
				if self.eat_p('{') {
					let l = self.ty_list('}');
					self.expect_p('>');
					Ty::Struct(Rc::new(l), true)
				} else {
					let n = self.int();
					assert!(self.eat_id("x"));
					let t = self.ty();
					self.expect_p('>');
					Ty::Vec(n as u64, Rc::new(t))
				}
			},
			t => {
				let from = self.i.saturating_sub(200);
				panic!("IR parse: type token {t:?} near {:?}", String::from_utf8_lossy(&self.s[from..self.i]))
			},
		};
		if self.is_id("addrspace") {
			self.next();
			self.skip_parens();
			let _ = &mut t;
		}
		t
	}
	fn ty_list(&mut self, end: char) -> Vec<Ty> {
		let mut v = Vec::new();
		while !self.eat_p(end) {
			v.push(self.ty());
			self.eat_p(',');
		}
		v
	}
	fn int(&mut self) -> i128 {
		match self.next() {
			Tok::Int(i) => i,
			t => panic!("IR parse: integer expected, found {t:?}"),
		}
	}
}

fn is_type_name(s: &str) -> bool {
	matches!(s, "void" | "ptr" | "half" | "bfloat" | "float" | "double" | "x86_fp80" | "fp128" | "label" | "metadata" | "token")
		|| (s.len() > 1 && s.as_bytes()[0] == b'i' && s[1..].bytes().all(|c| c.is_ascii_digit()))
}

fn is_const_kw(s: &str) -> bool {
	matches!(
		s,
		"true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "sub" | "add" | "xor" | "trunc" | "splat" | "blockaddress" | "asm" | "dso_local_equivalent" | "no_cfi" | "addrspacecast"
	) || s.starts_with("0x")
		|| s.bytes().next().map_or(false, |c| c.is_ascii_digit() || c == b'-')
}

struct FnParse {
	regs: Map<String, u32>,
	blocks: Map<String, u32>,
}

impl FnParse {
	fn reg(&mut self, n: &str) -> u32 {
		if let Some(r) = self.regs.get(n) {
			return *r;
		}
		let r = self.regs.len() as u32;
		self.regs.insert(n.to_string(), r);
		r
	}
}

thread_local! {
	/// The line being parsed, for error messages.
	pub static CUR_LINE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

impl Module {
	pub fn parse(text: String) -> Module {
		let mut m = Module {
			text: String::new(),
			fn_names: vec![],
			fn_defs: vec![],
			globals: vec![],
			addr: Map::default(),
			fn_ids: Map::default(),
			cache: vec![],
			meta_index: Map::default(),
			sip_scopes: Default::default(),
		};
		let mut gl: Vec<(usize, usize)> = vec![];
		let mut pos = 0;
		let b = text.as_bytes();
		while pos < b.len() {
			let end = match text[pos..].find('\n') {
				Some(e) => pos + e,
				None => b.len(),
			};
			let line = &text[pos..end];
			if line.starts_with("define ") {
				let stop = pos + text[pos..].find("\n}\n").expect("end of function") + 2;
				m.add_fn(line, FnDef::Def(pos, stop));
				pos = stop + 1;
				continue;
			} else if line.starts_with("declare ") {
				let d = if line.starts_with("declare extern_weak") { FnDef::ExternWeak } else { FnDef::Extern };
				m.add_fn(line, d);
			} else if line.starts_with('@') {
				gl.push((pos, end));
			} else if line.starts_with('!') {
				if let Some(eq) = line.find(" = ") {
					if let Ok(n) = line[1..eq].parse::<u32>() {
						m.meta_index.insert(n, (pos + eq + 3, end));
					}
				}
			}
			pos = end + 1;
		}
		// Addresses.
		for (i, n) in m.fn_names.iter().enumerate() {
			let a = match m.fn_defs[i] {
				FnDef::ExternWeak => 0,
				_ => (FN_BASE + i as u64) << crate::mem::SHIFT,
			};
			m.addr.insert(n.clone(), a);
		}
		let gbase = FN_BASE + m.fn_names.len() as u64;
		let mut names = vec![];
		for (i, (s, e)) in gl.iter().enumerate() {
			let mut l = Lex::new(&text[*s..*e]);
			let n = match l.next() {
				Tok::Global(n) => n,
				t => panic!("global {t:?}"),
			};
			m.addr.insert(n.clone(), (gbase + i as u64) << crate::mem::SHIFT);
			names.push(n);
		}
		for ((s, e), name) in gl.iter().zip(names) {
			let g = m.parse_global(&text[*s..*e], name);
			m.globals.push(g);
		}
		m.cache = (0..m.fn_names.len()).map(|_| None).collect();
		m.text = text;
		m
	}

	pub fn gbase(&self) -> u64 {
		FN_BASE + self.fn_names.len() as u64
	}

	fn add_fn(&mut self, line: &str, d: FnDef) {
		let at = line.find('@').expect("function name");
		let mut l = Lex::new(&line[at..]);
		let n = match l.next() {
			Tok::Global(n) => n,
			t => panic!("fn {t:?}"),
		};
		let id = self.fn_names.len() as u32;
		self.fn_ids.insert(n.clone(), id);
		self.fn_names.push(n);
		self.fn_defs.push(d);
	}

	fn parse_global(&self, s: &str, name: String) -> Global {
		let mut l = Lex::new(s);
		l.next();
		l.expect_p('=');
		let mut external = false;
		let mut constant = false;
		loop {
			match l.next() {
				Tok::Id(s) => match s.as_str() {
					"global" => break,
					"constant" => {
						constant = true;
						break;
					},
					"alias" => {
						// `alias ty, ptr @target`: give it the target's address by treating it as unsupported data.
						return Global { name, ty: Ty::Ptr, init: None, constant: true };
					},
					"external" | "extern_weak" => external = true,
					_ => {
						if l.is_p('(') {
							l.skip_parens();
						}
					},
				},
				t => panic!("global {name}: {t:?}"),
			}
		}
		let ty = l.ty();
		let init = if external || matches!(l.cur, Tok::End | Tok::P(',')) { None } else { Some(self.constant(&mut l, &ty)) };
		Global { name, ty, init, constant }
	}

	/// Parse a constant of the given type.
	fn constant(&self, l: &mut Lex, ty: &Ty) -> Val {
		match l.next() {
			Tok::Int(i) => match ty {
				Ty::Int(w) => Val::I(i as u128 & mask(*w)),
				Ty::Float(w) => Val::I((f64::to_bits(i as f64) as u128) & mask(*w)),
				_ => panic!("int constant of {ty:?}"),
			},
			Tok::CStr(b) => Val::A(Rc::new(b.into_iter().map(|x| Val::I(x as u128)).collect())),
			Tok::Global(n) => Val::I(*self.addr.get(&n).unwrap_or_else(|| panic!("unknown symbol {n}")) as u128),
			Tok::P('[') => self.const_list(l, ']'),
			Tok::P('{') => self.const_list(l, '}'),
			Tok::P('<') => {
				if l.eat_p('{') {
					let v = self.const_list(l, '}');
					l.expect_p('>');
					v
				} else {
					self.const_list(l, '>')
				}
			},
			Tok::Id(s) => match s.as_str() {
				"true" => Val::I(1),
				"false" | "null" | "none" => ty.zero(),
				"undef" | "poison" | "zeroinitializer" => ty.zero(),
				"splat" => {
					l.expect_p('(');
					let t = l.ty();
					let v = self.constant(l, &t);
					l.expect_p(')');
					Val::A(Rc::new((0..ty.nfields()).map(|_| v.clone()).collect()))
				},
				"ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
					l.expect_p('(');
					let t = l.ty();
					let v = self.constant(l, &t);
					assert!(l.eat_id("to"));
					let to = l.ty();
					l.expect_p(')');
					match v {
						Val::I(x) => Val::I(x & mask(to.bits())),
						v => v,
					}
				},
				"add" | "sub" | "xor" => {
					while !l.is_p('(') {
						l.next();
					}
					l.next();
					let t = l.ty();
					let a = self.constant(l, &t);
					l.expect_p(',');
					let t2 = l.ty();
					let b = self.constant(l, &t2);
					l.expect_p(')');
					match (a, b) {
						(Val::I(x), Val::I(y)) => {
							let op = match s.as_str() {
								"add" => Op::Add,
								"sub" => Op::Sub,
								_ => Op::Xor,
							};
							Val::I(crate::expr::Ctx::fold(op, t.bits(), x, y))
						},
						_ => panic!("vector constant expression"),
					}
				},
				"getelementptr" => {
					while !l.is_p('(') {
						// `inrange(-24, 8)` also has a parenthesis
						if l.is_id("inrange") {
							l.next();
							l.skip_parens();
						} else {
							l.next();
						}
					}
					l.next();
					let t = l.ty();
					l.expect_p(',');
					l.ty();
					let base = match self.constant(l, &Ty::Ptr) {
						Val::I(b) => b as u64,
						_ => panic!(),
					};
					let mut off = 0i64;
					let mut cur = t;
					let mut first = true;
					while l.eat_p(',') {
						let it = l.ty();
						let i = match self.constant(l, &it) {
							Val::I(i) => sext(i, it.bits()) as i64,
							_ => panic!(),
						};
						if first {
							off += i * cur.size() as i64;
							first = false;
						} else {
							off += cur.field_offset(i as usize) as i64;
							cur = cur.field(i as usize);
						}
					}
					l.expect_p(')');
					Val::I((base as i64).wrapping_add(off) as u64 as u128)
				},
				x if x.starts_with("0x") => {
					let h = x.trim_start_matches("0x").trim_start_matches(|c: char| "KLMHR".contains(c));
					let v = u128::from_str_radix(h, 16).unwrap_or(0);
					match ty {
						Ty::Float(32) => Val::I((f64::from_bits(v as u64) as f32).to_bits() as u128),
						_ => Val::I(v),
					}
				},
				x => match x.parse::<f64>() {
					Ok(f) => match ty {
						Ty::Float(32) => Val::I((f as f32).to_bits() as u128),
						_ => Val::I(f.to_bits() as u128),
					},
					Err(_) => panic!("IR parse: constant {x}"),
				},
			},
			t => panic!("IR parse: constant {t:?}"),
		}
	}

	fn const_list(&self, l: &mut Lex, end: char) -> Val {
		let mut v = Vec::new();
		while !l.eat_p(end) {
			let t = l.ty();
			v.push(self.constant(l, &t));
			l.eat_p(',');
		}
		Val::A(Rc::new(v))
	}

	fn opnd(&self, l: &mut Lex, f: &mut FnParse, ty: &Ty) -> Opnd {
		if let Tok::Local(n) = &l.cur {
			let r = f.reg(n);
			l.next();
			return Opnd::Reg(r);
		}
		if *ty == Ty::Other {
			// metadata operand
			let mut depth = 0;
			loop {
				match &l.cur {
					Tok::P('(') | Tok::P('{') => depth += 1,
					Tok::P(')') | Tok::P('}') => {
						if depth == 0 {
							break;
						}
						depth -= 1
					},
					Tok::P(',') if depth == 0 => break,
					Tok::End => break,
					_ => {},
				}
				l.next();
			}
			return Opnd::C(Val::I(0));
		}
		Opnd::C(self.constant(l, ty))
	}

	fn ty_opnd(&self, l: &mut Lex, f: &mut FnParse) -> (Ty, Opnd) {
		l.skip_attrs_type();
		let t = l.ty();
		l.skip_attrs_val();
		let o = self.opnd(l, f, &t);
		(t, o)
	}

	pub fn func(&mut self, id: u32) -> Rc<Func> {
		if let Some(f) = &self.cache[id as usize] {
			return f.clone();
		}
		let f = Rc::new(self.parse_fn(id));
		self.cache[id as usize] = Some(f.clone());
		f
	}

	fn parse_fn(&self, id: u32) -> Func {
		let (s, e) = match self.fn_defs[id as usize] {
			FnDef::Def(s, e) => (s, e),
			_ => panic!("no definition of {}", self.fn_names[id as usize]),
		};
		let text = &self.text[s..e];
		let nl = text.find('\n').unwrap();
		let head = &text[..nl];
		let body = &text[nl + 1..];
		let mut f = FnParse { regs: Map::default(), blocks: Map::default() };
		let mut l = Lex::new(head);
		l.next(); // define
		l.skip_attrs_type();
		let ret = l.ty();
		while !matches!(l.cur, Tok::Global(_)) {
			l.next();
		}
		l.next();
		l.expect_p('(');
		let mut params = vec![];
		let mut n = 0;
		while !l.eat_p(')') {
			l.skip_attrs_type();
			let _t = l.ty();
			loop {
				match &l.cur {
					Tok::Local(nm) => {
						let r = f.reg(nm);
						params.push(r);
						l.next();
						break;
					},
					Tok::P(',') | Tok::P(')') => {
						let r = f.reg(&format!("{n}"));
						params.push(r);
						break;
					},
					_ => l.skip_one_attr(),
				}
			}
			n += 1;
			l.eat_p(',');
		}
		let mut dbg = 0;
		if let Some(p) = head.find("!dbg !") {
			dbg = head[p + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(0);
		}
		// Gather logical lines per block.
		let mut blocks: Vec<(String, Vec<String>)> = vec![];
		for line in body.lines() {
			if line == "}" {
				break;
			}
			let t = line.trim_start();
			if t.is_empty() || t.starts_with(';') || t.starts_with('#') {
				continue;
			}
			if !line.starts_with(' ') {
				// label
				let mut l = Lex::new(line);
				let nm = match l.next() {
					Tok::Id(s) => s,
					Tok::Str(s) => String::from_utf8_lossy(&s).into_owned(),
					Tok::Int(i) => i.to_string(),
					t => panic!("label {t:?}"),
				};
				blocks.push((nm, vec![]));
				continue;
			}
			if blocks.is_empty() {
				blocks.push((format!("{}", params.len()), vec![]));
			}
			let b = &mut blocks.last_mut().unwrap().1;
			let cont = line.starts_with("   ") || t.starts_with(']');
			if cont && !b.is_empty() {
				let last = b.last_mut().unwrap();
				last.push(' ');
				last.push_str(t);
			} else {
				b.push(t.to_string());
			}
		}
		for (i, (n, _)) in blocks.iter().enumerate() {
			f.blocks.insert(n.clone(), i as u32);
		}
		let mut out = Vec::with_capacity(blocks.len());
		for (name, lines) in blocks {
			let mut phis = vec![];
			let mut ins = vec![];
			for line in &lines {
				CUR_LINE.with(|c| {
					let mut c = c.borrow_mut();
					c.clear();
					c.push_str(line);
				});
				self.parse_ins(line, &mut f, &mut phis, &mut ins);
			}
			out.push(Block { name, phis, ins });
		}
		Func { id, name: self.fn_names[id as usize].clone(), nregs: f.regs.len() as u32, params, ret, blocks: out, dbg }
	}

	fn label(&self, l: &mut Lex, f: &FnParse) -> u32 {
		match l.next() {
			Tok::Id(s) if s == "label" => {},
			t => panic!("IR parse: label keyword {t:?}"),
		}
		match l.next() {
			Tok::Local(n) => f.blocks[&n],
			t => panic!("IR parse: label {t:?}"),
		}
	}

	fn parse_ins(&self, line: &str, f: &mut FnParse, phis: &mut Vec<(u32, Vec<(u32, Opnd)>)>, out: &mut Vec<(Ins, u32)>) {
		let dbg = match line.rfind("!dbg !") {
			Some(p) => line[p + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(0),
			None => 0,
		};
		let mut l = Lex::new(line);
		let mut dst = None;
		if let Tok::Local(n) = &l.cur {
			let r = f.reg(n);
			dst = Some(r);
			l.next();
			l.expect_p('=');
		}
		let op = match l.next() {
			Tok::Id(s) => s,
			t => panic!("IR parse: instruction {t:?} in {line}"),
		};
		let d = || dst.expect("destination");
		let ins = match op.as_str() {
			"add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
				let o = match op.as_str() {
					"add" => Op::Add,
					"sub" => Op::Sub,
					"mul" => Op::Mul,
					"udiv" => Op::UDiv,
					"sdiv" => Op::SDiv,
					"urem" => Op::URem,
					"srem" => Op::SRem,
					"and" => Op::And,
					"or" => Op::Or,
					"xor" => Op::Xor,
					"shl" => Op::Shl,
					"lshr" => Op::LShr,
					_ => Op::AShr,
				};
				l.skip_attrs_type();
				let t = l.ty();
				let a = self.opnd(&mut l, f, &t);
				l.expect_p(',');
				let b = self.opnd(&mut l, f, &t);
				let (w, lanes) = scalar(&t);
				let (o, a, b) = if matches!(o, Op::Xor | Op::Or | Op::Add) && self.in_sip(dbg) { (Op::And, Opnd::C(Val::I(0)), Opnd::C(Val::I(0))) } else { (o, a, b) };
				Ins::Bin { op: o, w, lanes, dst: d(), a, b }
			},
			"icmp" => {
				let mut p = None;
				while !l.at_type() {
					if let Tok::Id(s) = l.next() {
						p = Some(match s.as_str() {
							"eq" => Pred::Eq,
							"ne" => Pred::Ne,
							"ult" => Pred::Ult,
							"ule" => Pred::Ule,
							"ugt" => Pred::Ugt,
							"uge" => Pred::Uge,
							"slt" => Pred::Slt,
							"sle" => Pred::Sle,
							"sgt" => Pred::Sgt,
							"sge" => Pred::Sge,
							_ => continue,
						});
					}
				}
				let t = l.ty();
				let a = self.opnd(&mut l, f, &t);
				l.expect_p(',');
				let b = self.opnd(&mut l, f, &t);
				let (w, lanes) = scalar(&t);
				Ins::ICmp { p: p.unwrap(), w, lanes, dst: d(), a, b }
			},
			"load" => {
				l.skip_attrs_type();
				let t = l.ty();
				l.expect_p(',');
				let (_, p) = self.ty_opnd(&mut l, f);
				Ins::Load { dst: d(), ty: t, p }
			},
			"store" => {
				let (t, v) = self.ty_opnd(&mut l, f);
				l.expect_p(',');
				let (_, p) = self.ty_opnd(&mut l, f);
				Ins::Store { ty: t, v, p }
			},
			"getelementptr" => {
				l.skip_attrs_type();
				let t = l.ty();
				l.expect_p(',');
				let (_, base) = self.ty_opnd(&mut l, f);
				let mut off = 0i64;
				let mut idx = vec![];
				let mut cur = t;
				let mut first = true;
				while l.eat_p(',') {
					if matches!(l.cur, Tok::Meta(_)) {
						break;
					}
					let it = l.ty();
					let i = self.opnd(&mut l, f, &it);
					let scale = if first {
						cur.size()
					} else {
						match &cur {
							Ty::Struct(..) => 0,
							_ => cur.field(0).size(),
						}
					};
					match &i {
						Opnd::C(Val::I(c)) => {
							let c = sext(*c, it.bits()) as i64;
							if !first && matches!(cur, Ty::Struct(..)) {
								off += cur.field_offset(c as usize) as i64;
							} else {
								off = off.wrapping_add(c.wrapping_mul(scale as i64));
							}
							if !first {
								cur = cur.field(if matches!(cur, Ty::Struct(..)) { c as usize } else { 0 });
							}
						},
						_ => {
							idx.push((i, it.bits(), scale));
							if !first {
								cur = cur.field(0);
							}
						},
					}
					first = false;
				}
				Ins::Gep { dst: d(), base, off, idx }
			},
			"alloca" => {
				l.skip_attrs_type();
				let t = l.ty();
				let mut n = Opnd::C(Val::I(1));
				if l.eat_p(',') && l.at_type() {
					let it = l.ty();
					n = self.opnd(&mut l, f, &it);
				}
				Ins::Alloca { dst: d(), size: t.size(), n }
			},
			"zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "addrspacecast" => {
				l.skip_attrs_type();
				let from = l.ty();
				let a = self.opnd(&mut l, f, &from);
				assert!(l.eat_id("to"));
				let to = l.ty();
				let k = match op.as_str() {
					"zext" => CastK::Zext,
					"sext" => CastK::Sext,
					"trunc" => CastK::Trunc,
					"bitcast" => CastK::Bitcast,
					_ => {
						let (a, b) = (from.bits(), to.bits());
						if a == b {
							CastK::Copy
						} else if a < b {
							CastK::Zext
						} else {
							CastK::Trunc
						}
					},
				};
				Ins::Cast { k, dst: d(), from, to, a }
			},
			"freeze" => {
				let (t, a) = self.ty_opnd(&mut l, f);
				Ins::Cast { k: CastK::Copy, dst: d(), from: t.clone(), to: t, a }
			},
			"phi" => {
				l.skip_attrs_type();
				let t = l.ty();
				let mut inc = vec![];
				loop {
					if !l.eat_p('[') {
						break;
					}
					let v = self.opnd(&mut l, f, &t);
					l.expect_p(',');
					let b = match l.next() {
						Tok::Local(n) => f.blocks[&n],
						t => panic!("phi {t:?}"),
					};
					l.expect_p(']');
					inc.push((b, v));
					if !l.eat_p(',') {
						break;
					}
				}
				phis.push((d(), inc));
				return;
			},
			"select" => {
				l.skip_attrs_type();
				let ct = l.ty();
				let c = self.opnd(&mut l, f, &ct);
				l.expect_p(',');
				let (t, a) = self.ty_opnd(&mut l, f);
				l.expect_p(',');
				let (_, b) = self.ty_opnd(&mut l, f);
				let lanes = match ct {
					Ty::Vec(n, _) => n as u32,
					_ => 0,
				};
				Ins::Select { dst: d(), ty: t, lanes, c, a, b }
			},
			"call" | "tail" | "musttail" | "notail" | "invoke" => {
				if op != "call" && op != "invoke" {
					l.next();
				}
				l.skip_attrs_type();
				let mut ret = l.ty();
				if l.is_p('(') {
					// explicit function type
					l.skip_parens();
				}
				let _ = &mut ret;
				let callee = match l.next() {
					Tok::Global(n) => match self.fn_ids.get(&n) {
						Some(id) => Callee::Fn(*id),
						None => Callee::Ptr(Opnd::C(Val::I(self.addr[&n] as u128))),
					},
					Tok::Local(n) => Callee::Ptr(Opnd::Reg(f.reg(&n))),
					Tok::Id(s) if s == "asm" => {
						let mut text = String::new();
						loop {
							match l.next() {
								Tok::Str(s) => {
									text = String::from_utf8_lossy(&s).into_owned();
									break;
								},
								Tok::Id(_) => {},
								t => panic!("asm {t:?}"),
							}
						}
						l.expect_p(',');
						l.next();
						Callee::Asm(text)
					},
					t => panic!("IR parse: callee {t:?} in {line}"),
				};
				l.expect_p('(');
				let mut args = vec![];
				while !l.eat_p(')') {
					args.push(self.ty_opnd(&mut l, f));
					l.eat_p(',');
				}
				let mut next = None;
				if op == "invoke" {
					while !l.is_id("to") {
						if matches!(l.cur, Tok::End) {
							panic!("invoke {line}");
						}
						l.next();
					}
					l.next();
					next = Some(self.label(&mut l, f));
				}
				let rotation = matches!(&callee, Callee::Fn(id) if self.fn_names[*id as usize] == "llvm.fshl.i64");
				if rotation && self.in_sip(dbg) {
					args.iter_mut().for_each(|a| a.1 = Opnd::C(Val::I(0)));
				}
				Ins::Call { dst, ty: ret, callee, args, next }
			},
			"extractvalue" => {
				let (_, a) = self.ty_opnd(&mut l, f);
				let mut path = vec![];
				while l.eat_p(',') {
					match l.cur {
						Tok::Int(i) => {
							path.push(i as u32);
							l.next();
						},
						_ => break,
					}
				}
				Ins::ExtractValue { dst: d(), a, path }
			},
			"insertvalue" => {
				let (ty, a) = self.ty_opnd(&mut l, f);
				l.expect_p(',');
				let (_, v) = self.ty_opnd(&mut l, f);
				let mut path = vec![];
				while l.eat_p(',') {
					match l.cur {
						Tok::Int(i) => {
							path.push(i as u32);
							l.next();
						},
						_ => break,
					}
				}
				Ins::InsertValue { dst: d(), ty, a, v, path }
			},
			"extractelement" => {
				let (_, a) = self.ty_opnd(&mut l, f);
				l.expect_p(',');
				let (_, i) = self.ty_opnd(&mut l, f);
				Ins::ExtractElem { dst: d(), a, i }
			},
			"insertelement" => {
				let (_, a) = self.ty_opnd(&mut l, f);
				l.expect_p(',');
				let (_, v) = self.ty_opnd(&mut l, f);
				l.expect_p(',');
				let (_, i) = self.ty_opnd(&mut l, f);
				Ins::InsertElem { dst: d(), a, v, i }
			},
			"shufflevector" => {
				let (t, a) = self.ty_opnd(&mut l, f);
				l.expect_p(',');
				let (_, b) = self.ty_opnd(&mut l, f);
				l.expect_p(',');
				let (_, m) = self.ty_opnd(&mut l, f);
				let mv = match m {
					Opnd::C(Val::A(v)) => v
						.iter()
						.map(|x| match x {
							Val::I(k) => *k as u32,
							_ => 0,
						})
						.collect(),
					_ => panic!("shuffle mask"),
				};
				Ins::Shuffle { dst: d(), a, b, n: t.nfields() as u32, mask: mv }
			},
			"atomicrmw" => {
				l.eat_id("volatile");
				let k = match l.next() {
					Tok::Id(s) => match s.as_str() {
						"xchg" => Rmw::Xchg,
						"add" => Rmw::Op(Op::Add),
						"sub" => Rmw::Op(Op::Sub),
						"and" => Rmw::Op(Op::And),
						"or" => Rmw::Op(Op::Or),
						"xor" => Rmw::Op(Op::Xor),
						"nand" => Rmw::Nand,
						"max" => Rmw::Max,
						"min" => Rmw::Min,
						"umax" => Rmw::UMax,
						"umin" => Rmw::UMin,
						s => panic!("atomicrmw {s}"),
					},
					t => panic!("atomicrmw {t:?}"),
				};
				let (_, p) = self.ty_opnd(&mut l, f);
				l.expect_p(',');
				let (t, v) = self.ty_opnd(&mut l, f);
				Ins::Rmw { dst: d(), op: k, w: t.bits(), p, v }
			},
			"cmpxchg" => {
				l.eat_id("weak");
				l.eat_id("volatile");
				let (_, p) = self.ty_opnd(&mut l, f);
				l.expect_p(',');
				let (t, c) = self.ty_opnd(&mut l, f);
				l.expect_p(',');
				let (_, n) = self.ty_opnd(&mut l, f);
				Ins::CmpXchg { dst: d(), w: t.bits(), p, c, n }
			},
			"fence" => Ins::Nop,
			"br" => {
				if l.is_id("label") {
					Ins::Br(self.label(&mut l, f))
				} else {
					let (_, c) = self.ty_opnd(&mut l, f);
					l.expect_p(',');
					let t = self.label(&mut l, f);
					l.expect_p(',');
					let e = self.label(&mut l, f);
					Ins::CondBr(c, t, e)
				}
			},
			"switch" => {
				let (t, v) = self.ty_opnd(&mut l, f);
				l.expect_p(',');
				let def = self.label(&mut l, f);
				l.expect_p('[');
				let mut cases = vec![];
				while !l.eat_p(']') {
					let ct = l.ty();
					let k = match self.constant(&mut l, &ct) {
						Val::I(k) => k,
						_ => panic!(),
					};
					l.expect_p(',');
					let b = self.label(&mut l, f);
					cases.push((k, b));
				}
				Ins::Switch { w: t.bits(), v, def, cases }
			},
			"ret" => {
				if l.is_id("void") {
					Ins::Ret(None)
				} else {
					Ins::Ret(Some(self.ty_opnd(&mut l, f).1))
				}
			},
			"unreachable" => Ins::Unreachable,
			_ => Ins::Unsupported(line.to_string()),
		};
		out.push((ins, dbg));
	}

	// ---- debug metadata -------------------------------------------------

	fn meta(&self, n: u32) -> Option<&str> {
		self.meta_index.get(&n).map(|(s, e)| &self.text[*s..*e])
	}

	fn field_num(s: &str, key: &str) -> Option<u32> {
		let p = find_key(s, key)?;
		let rest = s[p..].trim_start_matches('!');
		rest.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
	}

	fn field_str<'a>(s: &'a str, key: &str) -> Option<&'a str> {
		let p = find_key(s, key)?;
		let rest = s[p..].strip_prefix('"')?;
		Some(&rest[..rest.find('"')?])
	}

	/// Whether an instruction belongs to the mixing of SipHash.
	///
	/// The hash tables of std are correct for every hash function, so they are executed with one that a solver can cope with.
	/// All keys get the same hash, so that a lookup compares them one by one.
	fn in_sip(&self, dbg: u32) -> bool {
		let Some(n) = self.meta(dbg).and_then(|s| Self::field_num(s, "scope: ")) else { return false };
		if let Some(x) = self.sip_scopes.borrow().get(&n) {
			return *x;
		}
		let (f, file) = self.scope(n);
		let x = file.ends_with("core/src/hash/sip.rs") && ["finish", "reset", "c_rounds", "d_rounds", "compress"].iter().any(|n| f.split(|c: char| !c.is_alphanumeric() && c != '_').any(|f| f == *n));
		self.sip_scopes.borrow_mut().insert(n, x);
		x
	}

	/// (function name, file, line) frames of a debug location, innermost first.
	pub fn locate(&self, dbg: u32) -> Vec<(String, String, u32)> {
		let mut out = vec![];
		let mut cur = Some(dbg);
		while let Some(n) = cur {
			if n == 0 || out.len() > 40 {
				break;
			}
			let s = match self.meta(n) {
				Some(s) => s,
				None => break,
			};
			if !s.contains("DILocation(") {
				break;
			}
			let line = Self::field_num(s, "line: ").unwrap_or(0);
			let (f, file) = self.scope(Self::field_num(s, "scope: ").unwrap_or(0));
			out.push((f, file, line));
			cur = Self::field_num(s, "inlinedAt: ");
		}
		out
	}

	fn scope(&self, mut n: u32) -> (String, String) {
		let mut file = String::new();
		for _ in 0..50 {
			let s = match self.meta(n) {
				Some(s) => s,
				None => return (String::new(), file),
			};
			if file.is_empty() {
				if let Some(fm) = Self::field_num(s, "file: ").and_then(|x| self.meta(x)) {
					let name = Self::field_str(fm, "filename: ").unwrap_or("");
					let dir = Self::field_str(fm, "directory: ").unwrap_or("");
					file = if name.starts_with('/') { name.to_string() } else { format!("{dir}/{name}") };
				}
			}
			if s.contains("DISubprogram(") {
				let mut name = Self::field_str(s, "name: ").unwrap_or("").to_string();
				// qualify with enclosing namespaces/types
				let mut sc = Self::field_num(s, "scope: ");
				let mut k = 0;
				while let Some(p) = sc {
					let Some(t) = self.meta(p) else { break };
					if t.contains("DIFile(") || t.contains("DICompileUnit(") {
						break;
					}
					if let Some(nm) = Self::field_str(t, "name: ") {
						name = format!("{nm}::{name}");
					}
					sc = Self::field_num(t, "scope: ");
					k += 1;
					if k > 20 {
						break;
					}
				}
				return (name, file);
			}
			n = match Self::field_num(s, "scope: ") {
				Some(x) => x,
				None => return (String::new(), file),
			};
		}
		(String::new(), file)
	}
}

fn find_key(s: &str, key: &str) -> Option<usize> {
	let mut from = 0;
	while let Some(p) = s[from..].find(key) {
		let at = from + p;
		let prev = s.as_bytes()[at.saturating_sub(1)];
		if prev == b'(' || prev == b' ' {
			return Some(at + key.len());
		}
		from = at + key.len();
	}
	None
}

fn scalar(t: &Ty) -> (u32, u32) {
	match t {
		Ty::Vec(n, t) => (t.bits(), *n as u32),
		t => (t.bits(), 0),
	}
}
