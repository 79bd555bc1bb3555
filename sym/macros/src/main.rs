//! The `interface!` macro itself, from the tokens it is given to the tokens it returns.
#[allow(dead_code)]
#[path = "../../harness/src/rt.rs"]
mod rt;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use rt::*;

fn id(s: &str) -> TokenTree {
	Ident::new(s, Span::call_site()).into()
}
fn p(c: char) -> TokenTree {
	Punct::new(c, Spacing::Alone).into()
}
fn joint(c: char) -> TokenTree {
	Punct::new(c, Spacing::Joint).into()
}
fn group(d: Delimiter, t: Vec<TokenTree>) -> TokenTree {
	Group::new(d, t.into_iter().collect()).into()
}
fn unit() -> TokenTree {
	group(Delimiter::Parenthesis, vec![])
}
fn int(s: &str) -> TokenTree {
	s.parse::<Literal>().unwrap().into()
}

/// Everything in a token stream, at any depth.
fn visit(t: TokenStream, f: &mut dyn FnMut(&TokenTree)) {
	let mut i = t.into_iter();
	for t in i.by_ref() {
		f(&t);
		if let TokenTree::Group(g) = &t {
			visit(g.stream(), f)
		}
		std::mem::forget(t);
	}
	std::mem::forget(i);
}

fn errors(t: TokenStream) -> usize {
	let mut n = 0;
	visit(t, &mut |t| {
		if let TokenTree::Ident(i) = t {
			n += (*i == "compile_error") as usize;
		}
	});
	n
}

fn expand(attrs: Vec<TokenTree>, items: Vec<TokenTree>) -> TokenStream {
	let mut t = vec![id("fizyr_rpc"), p(';')];
	t.extend(attrs);
	t.extend([id("interface"), id("Foo"), group(Delimiter::Brace, items)]);
	macros_under_test::interface(t.into_iter().collect())
}

/// A one-letter name and a one-digit ID.
#[derive(Clone)]
struct Def {
	name: u8,
	id: u8,
}

fn def() -> Def {
	let d = Def { name: u8v("name"), id: u8v("id") };
	assume(d.name >= b'a' && d.name <= b'z');
	assume(d.id >= b'0' && d.id <= b'9');
	d
}

impl Def {
	fn tokens(&self, kind: &str) -> Vec<TokenTree> {
		let n = String::from_utf8(vec![self.name]).unwrap();
		let i = String::from_utf8(vec![self.id]).unwrap();
		vec![id(kind), int(&i), id(&n), p(':'), unit()]
	}
}

fn duplicate(list: &[Def]) -> bool {
	let mut d = false;
	for (k, a) in list.iter().enumerate() {
		for b in &list[..k] {
			d |= (a.name == b.name) | (a.id == b.id);
		}
	}
	d
}

fn verdict(o: TokenStream, bad: bool) {
	let n = errors(o);
	if bad {
		check(n > 0, "a duplicate name or ID is an error");
		cover("duplicate");
	} else {
		check(n == 0, "a correct interface is accepted");
		cover("correct");
	}
}

/// Services and streams of one interface.
fn items(n: usize) {
	let (mut services, mut streams, mut t) = (vec![], vec![], vec![]);
	for _ in 0..n {
		let d = def();
		if flag("stream") {
			t.extend(d.tokens("stream"));
			t.push(p(','));
			streams.push(d);
		} else {
			t.extend(d.tokens("service"));
			t.extend([joint('-'), p('>'), unit(), p(',')]);
			services.push(d);
		}
	}
	let bad = duplicate(&services) | duplicate(&streams);
	verdict(expand(vec![], t), bad);
}

fn items_three() {
	items(3)
}
fn services(n: usize) {
	let mut list = vec![];
	let mut t = vec![];
	for k in 0..n {
		let d = Def { name: u8v("name"), id: b'0' + k as u8 };
		assume(d.name >= b'a' && d.name <= b'z');
		t.extend(d.tokens("service"));
		t.extend([joint('-'), p('>'), unit(), p(',')]);
		list.push(d);
	}
	verdict(expand(vec![], t), duplicate(&list));
}
fn services_four() {
	services(4)
}
fn streams(n: usize) {
	let mut list = vec![];
	let mut t = vec![];
	for k in 0..n {
		let d = Def { name: u8v("name"), id: b'0' + k as u8 };
		assume(d.name >= b'a' && d.name <= b'z');
		t.extend(d.tokens("stream"));
		t.push(p(','));
		list.push(d);
	}
	verdict(expand(vec![], t), duplicate(&list));
}
fn streams_four() {
	streams(4)
}

/// The updates of one service.
fn updates(n: usize, symbolic_ids: bool) {
	let (mut to, mut from, mut t) = (vec![], vec![], vec![]);
	for k in 0..n {
		let mut d = def();
		if !symbolic_ids {
			d.id = b'0' + k as u8;
		}
		if flag("response") {
			t.extend(d.tokens("response_update"));
			from.push(d);
		} else {
			t.extend(d.tokens("request_update"));
			to.push(d);
		}
		t.push(p(','));
	}
	let s = vec![id("service"), int("1"), id("work"), p(':'), unit(), joint('-'), p('>'), unit(), group(Delimiter::Brace, t)];
	let bad = duplicate(&to) | duplicate(&from);
	verdict(expand(vec![], s), bad);
}

fn updates_three() {
	updates(3, true)
}
fn updates_four() {
	updates(4, false)
}

/// Any tokens at all: an error, or an interface, but no panic.
fn any_tokens(n: usize) {
	let make = |k: usize| -> TokenTree {
		match k {
			0 => id("service"),
			1 => id("stream"),
			2 => id("x"),
			3 => int("1"),
			4 => p(':'),
			5 => unit(),
			6 => joint('-'),
			7 => p('>'),
			8 => p(','),
			9 => group(Delimiter::Brace, vec![]),
			10 => p('#'),
			11 => group(Delimiter::Bracket, vec![id("hidden")]),
			_ => group(Delimiter::Bracket, vec![id("doc"), p('='), Literal::string("y").into()]),
		}
	};
	let t: Vec<TokenTree> = (0..n).map(|_| make(choose(13, "token"))).collect();
	let _ = expand(vec![], t);
	cover("end");
}

fn any_tokens_three() {
	any_tokens(3)
}

/// A complete item with one token replaced, removed or doubled.
fn edited() {
	let base = |kind: usize| -> Vec<TokenTree> {
		let hidden = || vec![p('#'), group(Delimiter::Bracket, vec![id("hidden")])];
		let mut t = hidden();
		match kind {
			0 => t.extend([id("service"), int("1"), id("a"), p(':'), unit(), joint('-'), p('>'), unit(), p(',')]),
			1 => t.extend([id("stream"), int("1"), id("a"), p(':'), unit(), p(',')]),
			_ => {
				let mut u = hidden();
				u.extend([id("request_update"), int("1"), id("b"), p(':'), unit(), p(',')]);
				t.extend([id("service"), int("1"), id("a"), p(':'), unit(), joint('-'), p('>'), unit(), group(Delimiter::Brace, u)]);
			},
		}
		t
	};
	let mut t = base(choose(3, "item"));
	let k = choose(t.len(), "where");
	let other = [
		id("service"),
		id("hidden"),
		int("99999999999"),
		int("1.5"),
		int("2"),
		p('#'),
		p(','),
		group(Delimiter::Bracket, vec![id("other")]),
		group(Delimiter::Bracket, vec![id("hidden"), p('='), int("1")]),
		group(Delimiter::Bracket, vec![id("doc"), unit()]),
		group(Delimiter::Brace, vec![int("1")]),
	];
	match choose(3, "how") {
		0 => t[k] = other[choose(other.len(), "what")].clone(),
		1 => drop(t.remove(k)),
		_ => t.insert(k, t[k].clone()),
	}
	let n = errors(expand(vec![], t));
	if n > 0 {
		cover("error");
	} else {
		cover("accepted");
	}
}

/// An ID is accepted exactly if it fits.
fn id_range() {
	let digits: Vec<u8> = (0..10).map(|_| u8v("digit")).collect();
	for d in &digits {
		assume(*d >= b'0' && *d <= b'9');
	}
	// Around the limits of an i32.
	let top = b"21474836";
	let mut same = true;
	for k in 0..8 {
		same &= digits[k] == top[k];
	}
	assume(same);
	let negative = flag("negative");
	let s = String::from_utf8(digits.clone()).unwrap();
	let mut t = vec![id("stream")];
	if negative {
		t.push(p('-'));
	}
	t.extend([int(&s), id("a"), p(':'), unit(), p(',')]);
	let v = (digits[8] - b'0') as u64 * 10 + (digits[9] - b'0') as u64;
	let n = errors(expand(vec![], t));
	if v <= 47 + negative as u64 {
		check(n == 0, "an ID that fits is accepted");
		cover("fits");
	} else {
		check(n > 0, "an ID that does not fit is an error");
		cover("too large");
	}
}

/// The ID of error responses can not be that of a service, but of everything else.
fn reserved_id() {
	let digit = u8v("digit");
	assume(digit >= b'0' && digit <= b'9');
	let negative = flag("negative");
	let mut s = vec![];
	if flag("hexadecimal") {
		s.extend(b"0x");
	}
	s.push(digit);
	let number = |negative: bool| {
		let mut t = vec![];
		if negative {
			t.push(p('-'));
		}
		t.push(int(std::str::from_utf8(&s).unwrap()));
		t
	};
	let kind = choose(4, "kind");
	let mut t = vec![id(["service", "stream", "service", "service"][kind])];
	t.extend(if kind < 2 { number(negative) } else { vec![int("1")] });
	t.extend([id("a"), p(':'), unit()]);
	if kind != 1 {
		t.extend([joint('-'), p('>'), unit()]);
	}
	if kind < 2 {
		t.push(p(','));
	} else {
		let mut u = vec![id(["request_update", "response_update"][kind - 2])];
		u.extend(number(negative));
		u.extend([id("b"), p(':'), unit(), p(',')]);
		t.push(group(Delimiter::Brace, u));
	}
	let n = errors(expand(vec![], t));
	if kind == 0 && negative && digit == b'1' {
		check(n > 0, "a service with the ID of error responses is an error");
		cover("reserved");
	} else {
		check(n == 0, "any other ID is accepted");
		cover("other");
	}
}

/// Any name the compiler takes for an identifier.
fn names(len: usize) {
	let raw = flag("raw");
	let n = choose(len, "len") + 1;
	let name: Vec<u8> = (0..n).map(|_| u8v("char")).collect();
	let (mut valid, mut letters, mut first, mut usable) = (true, 0u32, true, false);
	for (k, c) in name.iter().enumerate() {
		// No keyword consists of these letters.
		let letter = (*c == b'z') | ((*c >= b'A') & (*c <= b'Z'));
		let digit = (*c >= b'0') & (*c <= b'9');
		let underscore = *c == b'_';
		valid &= letter | underscore | (digit & (k > 0));
		letters += !underscore as u32;
		// The name in upper camel case must start with a letter.
		usable |= first & letter;
		first &= underscore;
	}
	assume(valid);
	assume((n > 1) | (letters > 0));
	let name = String::from_utf8(name).unwrap();
	let name: TokenTree = if raw { Ident::new_raw(&name, Span::call_site()).into() } else { id(&name) };
	let arrow = || [joint('-'), p('>'), unit()];
	let t = match choose(4, "kind") {
		0 => vec![id("stream"), int("1"), name, p(':'), unit(), p(',')],
		1 => {
			let mut t = vec![id("service"), int("1"), name, p(':'), unit()];
			t.extend(arrow());
			t.push(p(','));
			t
		},
		k => {
			let u = vec![id(["request_update", "response_update"][k - 2]), int("1"), name, p(':'), unit(), p(',')];
			let mut t = vec![id("service"), int("1"), id("a"), p(':'), unit()];
			t.extend(arrow());
			t.push(group(Delimiter::Brace, u));
			t
		},
	};
	let n = errors(expand(vec![], t));
	if raw {
		cover("raw");
		return;
	}
	if usable {
		check(n == 0, "a name with a letter is accepted");
		cover("usable");
	} else {
		check(n > 0, "a name that can not be used is an error");
		cover("unusable");
	}
}

fn names_three() {
	names(3)
}

/// Many items, two of which may have the same name or ID.
fn many() {
	const N: usize = 34;
	let kind = choose(3, "kind");
	let what = choose(3, "what");
	let (mut i, mut j) = (0, 0);
	if what > 0 {
		i = [0, 20, 31, 32][choose(4, "first")];
		j = [1, 21, 33][choose(3, "second")];
	}
	let mut t = vec![];
	for k in 0..N {
		let n = if what == 1 && k == j { i } else { k };
		let name = [b'a' + (n % 26) as u8, b'a' + (n / 26) as u8, b'x'];
		let number = if what == 2 && k == j { i } else { k } + 100;
		let mut item = vec![id(["service", "stream", "response_update"][kind]), Literal::usize_unsuffixed(number).into(), id(std::str::from_utf8(&name).unwrap()), p(':'), unit()];
		if kind == 0 {
			item.extend([joint('-'), p('>'), unit()]);
		}
		item.push(p(','));
		t.extend(item);
	}
	if kind == 2 {
		t = vec![id("service"), int("1"), id("work"), p(':'), unit(), joint('-'), p('>'), unit(), group(Delimiter::Brace, t)];
	}
	verdict(expand(vec![], t), what > 0 && i != j);
}

// ---------------------------------------------------------------- documentation

fn doc_attr(s: &str) -> Vec<TokenTree> {
	vec![p('#'), group(Delimiter::Bracket, vec![id("doc"), p('='), Literal::string(s).into()])]
}

/// Documentation and `hidden` are the only attributes.
fn attributes() {
	let name = ["doc", "hidden", "allow", "docs"][choose(4, "name")];
	let prefix = flag("prefix") as usize;
	let value = choose(6, "value");
	let good = prefix == 0 && (name == "doc" && value == 1 || name == "hidden" && value == 0);
	let mut a = if prefix == 0 { vec![] } else { vec![id("a"), joint(':'), p(':')] };
	a.push(id(name));
	a.extend(match value {
		0 => vec![],
		1 => vec![p('='), Literal::string("text").into()],
		2 => vec![p('='), int("1")],
		3 => vec![group(Delimiter::Parenthesis, vec![id("hidden")])],
		4 => vec![group(Delimiter::Parenthesis, vec![])],
		_ => vec![p('='), id("true")],
	});
	let mut t = vec![p('#'), group(Delimiter::Bracket, a)];
	// Alone or after a good one.
	if flag("other") {
		let mut o = doc_attr("more");
		o.extend(t);
		t = o;
	}
	let service = |u: Vec<TokenTree>| vec![id("service"), int("1"), id("a"), p(':'), unit(), joint('-'), p('>'), unit(), group(Delimiter::Brace, u)];
	let o = match choose(5, "item") {
		0 => expand(t, service(vec![])),
		1 => {
			t.extend([id("stream"), int("1"), id("a"), p(':'), unit(), p(',')]);
			expand(vec![], t)
		},
		2 => {
			t.extend(service(vec![]));
			expand(vec![], t)
		},
		k => {
			t.extend([id(["request_update", "response_update"][k - 3]), int("1"), id("b"), p(':'), unit(), p(',')]);
			expand(vec![], service(t))
		},
	};
	let n = errors(o);
	if good {
		check(n == 0, "a correct attribute is accepted");
		cover("good");
	} else {
		check(n > 0, "an attribute without meaning is an error");
		cover("bad");
	}
}

/// What the documentation of an item with these lines is.
fn doc_text(lines: &[Vec<u8>]) -> Vec<u8> {
	let blank = |l: &[u8]| l.iter().all(|c| *c == b' ');
	let indent = lines.iter().filter(|l| !blank(l)).map(|l| l.iter().take_while(|c| **c == b' ').count()).min().unwrap_or(0);
	let mut out = vec![];
	for l in lines {
		if !blank(l) {
			out.extend_from_slice(&l[indent..]);
		}
		out.push(b'\n');
	}
	out
}

fn documentation(lines: usize, len: usize, wide: bool, kinds: usize) {
	let text: Vec<Vec<u8>> = (0..lines)
		.map(|_| {
			let n = choose(len + 1, "len");
			let mut l = vec![];
			for _ in 0..n {
				// Other white space is not indentation.
				if wide && flag("wide") {
					l.extend_from_slice("\u{3000}".as_bytes());
					continue;
				}
				let c = u8v("char");
				assume(c == b' ' || c == b'a' || c == b'\t');
				l.push(c);
			}
			l
		})
		.collect();
	let mut attrs = vec![];
	for l in &text {
		attrs.extend(doc_attr(std::str::from_utf8(l).unwrap()));
	}
	let expected = doc_text(&text);
	let expected = Literal::string(std::str::from_utf8(&expected).unwrap()).to_string();
	let stream = || vec![id("stream"), int("1"), id("a"), p(':'), unit(), p(',')];
	let o = match choose(kinds, "item") {
		0 => expand(attrs, stream()),
		1 => {
			attrs.extend(stream());
			expand(vec![], attrs)
		},
		2 => {
			attrs.extend([id("service"), int("1"), id("a"), p(':'), unit(), joint('-'), p('>'), unit(), p(',')]);
			expand(vec![], attrs)
		},
		_ => {
			attrs.extend([id("request_update"), int("1"), id("b"), p(':'), unit(), p(',')]);
			let s = vec![id("service"), int("1"), id("a"), p(':'), unit(), joint('-'), p('>'), unit(), group(Delimiter::Brace, attrs)];
			expand(vec![], s)
		},
	};
	let (mut errors, mut found) = (0, false);
	visit(o, &mut |t| match t {
		TokenTree::Ident(i) => errors += (*i == "compile_error") as usize,
		TokenTree::Literal(l) => found |= l.to_string() == expected,
		_ => (),
	});
	check(errors == 0, "documentation is accepted");
	check(found, "the documentation is the given lines without their common indentation");
	cover("end");
}

fn documentation_two() {
	documentation(2, 3, false, 4)
}
fn documentation_three() {
	documentation(3, 2, false, 1)
}
fn documentation_wide() {
	documentation(2, 2, true, 2)
}

macro_rules! entries {
	($($name:ident => $f:path;)*) => {
		$( #[no_mangle] pub extern "C" fn $name() { $f(); } )*
		fn main() {
			let name = std::env::args().nth(1).unwrap_or_default();
			let table: &[(&str, extern "C" fn())] = &[$( (stringify!($name), $name), )*];
			for (n, f) in table {
				if *n == name {
					f();
					println!("DONE");
					return;
				}
			}
			eprintln!("no such entry: {name}");
			std::process::exit(3);
		}
	};
}

entries! {
	c19_items => items_three;
	c19_services => services_four;
	c19_streams => streams_four;
	c19_updates => updates_three;
	c19_updates_four => updates_four;
	c19_tokens => any_tokens_three;
	c19_edited => edited;
	c19_ids => id_range;
	c19_reserved => reserved_id;
	c19_many => many;
	c19_names => names_three;
	c19_attributes => attributes;
	c20_documentation => documentation_two;
	c20_documentation_wide => documentation_wide;
	c20_documentation_three => documentation_three;
}
