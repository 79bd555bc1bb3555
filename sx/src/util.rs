use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);

impl Hasher for Fx {
	fn finish(&self) -> u64 {
		self.0
	}
	fn write(&mut self, bytes: &[u8]) {
		for b in bytes {
			self.write_u64(*b as u64);
		}
	}
	fn write_u8(&mut self, i: u8) {
		self.write_u64(i as u64)
	}
	fn write_u32(&mut self, i: u32) {
		self.write_u64(i as u64)
	}
	fn write_u64(&mut self, i: u64) {
		self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
	}
	fn write_usize(&mut self, i: usize) {
		self.write_u64(i as u64)
	}
	fn write_u128(&mut self, i: u128) {
		self.write_u64(i as u64);
		self.write_u64((i >> 64) as u64);
	}
}

pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type Set<K> = HashSet<K, BuildHasherDefault<Fx>>;

pub fn json_str(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 2);
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}
