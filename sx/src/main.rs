//! sx: bounded symbolic execution of rustc's LLVM IR.
//!
//! usage: sx MODULE.ll ENTRY --out RESULT.json [--workers N] [--steps N] [--time SECS]
//!        [--samples N] [--solver-ms N] [--max-violations N] [--src PREFIX]
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
mod util;

use exec::{Exec, Limits};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::{Duration, Instant};
use util::json_str;

extern "C" {
	fn fork() -> i32;
	fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
	fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
	fn _exit(c: i32) -> !;
	fn getpid() -> i32;
}

struct Shared {
	active: AtomicI64,
	violations: AtomicI64,
	paths: AtomicI64,
}

fn write_partial(x: &Exec, dir: &str) {
	let s = &x.stats;
	let mut o = String::new();
	let mut n = |k: &str, v: u64| o.push_str(&format!("N {k} {v}\n"));
	n("done", s.done);
	n("assume", s.assume);
	n("dead", s.dead);
	n("inconclusive", s.inconclusive);
	n("steps", s.steps);
	n("forks", s.forks);
	n("checks", s.checks);
	n("checks_symbolic", s.checks_symbolic);
	n("queries", x.solver.queries);
	n("sat", x.solver.sat);
	n("unsat", x.solver.unsat);
	n("unknown", x.solver.unknown);
	n("cached", x.solver.cached);
	n("solver_us", (x.solver.time * 1e6) as u64);
	n("leftover", x.work.len() as u64);
	o.push_str(&format!("M max_inputs {}\nM max_steps {}\n", s.max_inputs, s.max_steps));
	for v in &x.violations {
		o.push_str(&format!("V {v}\n"));
	}
	for v in &x.samples {
		o.push_str(&format!("S {v}\n"));
	}
	for c in &x.covers {
		o.push_str(&format!("C {c}\n"));
	}
	for (k, v) in &x.inconclusive {
		o.push_str(&format!("I {v} {}\n", k.replace('\n', " ")));
	}
	for (k, v) in &x.check_labels {
		o.push_str(&format!("L {v} {k}\n"));
	}
	o.push('D');
	for (i, w) in x.dbg_seen.iter().enumerate() {
		let mut w = *w;
		while w != 0 {
			let b = w.trailing_zeros();
			w &= w - 1;
			o.push_str(&format!(" {}", i * 64 + b as usize));
		}
	}
	o.push('\n');
	let p = format!("{dir}/part.{}", unsafe { getpid() });
	std::fs::File::create(&p).and_then(|mut f| f.write_all(o.as_bytes())).expect("write partial result");
}

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let mut pos = vec![];
	let mut opt: BTreeMap<String, String> = BTreeMap::new();
	let mut it = args.into_iter();
	while let Some(a) = it.next() {
		if let Some(k) = a.strip_prefix("--") {
			opt.insert(k.to_string(), it.next().expect("option value"));
		} else {
			pos.push(a);
		}
	}
	if pos.len() != 2 {
		eprintln!("usage: sx MODULE.ll ENTRY --out FILE [options]");
		std::process::exit(64);
	}
	let get = |k: &str, d: u64| opt.get(k).map(|v| v.parse().expect("number")).unwrap_or(d);
	let workers = get("workers", 8) as i64;
	let out = opt.get("out").cloned().unwrap_or_else(|| "/dev/stdout".into());
	let src = opt.get("src").cloned().unwrap_or_else(|| "/repo/".into());
	let start = Instant::now();
	let text = std::fs::read_to_string(&pos[0]).expect("read module");
	let m = ir::Module::parse(text);
	std::panic::set_hook(Box::new(|i| {
		eprintln!("{i}");
		ir::CUR_LINE.with(|c| eprintln!("  last line parsed: {}", c.borrow()));
	}));
	if pos[1] == "--parse-all" || pos[1] == "parse-all" {
		let mut m = m;
		let mut bad = 0;
		for i in 0..m.fn_defs.len() as u32 {
			if matches!(m.fn_defs[i as usize], ir::FnDef::Def(..)) && std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.func(i))).is_err() {
				bad += 1;
			}
		}
		eprintln!("{bad} of {} functions not parsed", m.fn_defs.len());
		return;
	}
	let parse_s = start.elapsed().as_secs_f64();
	let lim = Limits {
		steps: get("steps", 3_000_000),
		max_paths: u64::MAX,
		max_violations: get("max-violations", 8) as usize,
		samples: get("samples", 64) as usize,
		deadline: start + Duration::from_secs(get("time", 600)),
	};
	let dir = format!("{}.parts", out);
	let _ = std::fs::remove_dir_all(&dir);
	std::fs::create_dir_all(&dir).expect("result directory");
	let mut x = Exec::new(m, lim, get("solver-ms", 60_000) as u32);
	if let Err(e) = x.start(&pos[1]) {
		eprintln!("{e}");
		std::process::exit(65);
	}
	let sh: &Shared = unsafe {
		let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
		assert!(p as isize != -1);
		&*(p as *const Shared)
	};
	sh.active.store(1, Ordering::SeqCst);
	let mut children = vec![];
	let mut is_root = true;
	let mut last_try = Instant::now();
	let mut counted = 0i64;
	let max_viol = x.lim.max_violations as i64;
	let mut viol_counted = 0i64;
	loop {
		let Some(st) = x.work.pop_back() else { break };
		x.run_path(st);
		let v = x.violations.len() as i64;
		if v != viol_counted {
			sh.violations.fetch_add(v - viol_counted, Ordering::SeqCst);
			viol_counted = v;
		}
		counted += 1;
		sh.paths.fetch_add(1, Ordering::Relaxed);
		if x.out_of_budget() || sh.violations.load(Ordering::Relaxed) >= max_viol {
			break;
		}
		// Hand half of the queue to an idle core.
		if x.work.len() >= 4 && sh.active.load(Ordering::Relaxed) < workers && (last_try.elapsed() > Duration::from_millis(30)) {
			last_try = Instant::now();
			if sh.active.fetch_add(1, Ordering::SeqCst) >= workers {
				sh.active.fetch_sub(1, Ordering::SeqCst);
				continue;
			}
			let all: Vec<_> = x.work.drain(..).collect();
			let (mut a, mut b) = (vec![], vec![]);
			for (i, s) in all.into_iter().enumerate() {
				if i % 2 == 0 {
					a.push(s)
				} else {
					b.push(s)
				}
			}
			let pid = unsafe { fork() };
			if pid == 0 {
				is_root = false;
				children = vec![];
				x.stats = Default::default();
				x.violations.clear();
				x.samples.clear();
				x.inconclusive.clear();
				x.check_labels.clear();
				x.solver.queries = 0;
				x.solver.sat = 0;
				x.solver.unsat = 0;
				x.solver.unknown = 0;
				x.solver.cached = 0;
				x.solver.time = 0.0;
				x.dbg_seen.clear();
				x.covers.clear();
				viol_counted = 0;
				x.work = b.into();
				x.lim.samples = (x.lim.samples / 2).max(8);
			} else {
				if pid < 0 {
					sh.active.fetch_sub(1, Ordering::SeqCst);
					a.extend(b);
				} else {
					children.push(pid);
				}
				x.work = a.into();
			}
		}
	}
	let _ = counted;
	if x.work.len() > 0 && x.violations.len() == 0 && sh.violations.load(Ordering::SeqCst) < max_viol {
		*x.inconclusive.entry("time limit".into()).or_insert(0) += x.work.len() as u64;
	}
	sh.active.fetch_sub(1, Ordering::SeqCst);
	write_partial(&x, &dir);
	let mut crashed = 0;
	for c in &children {
		let mut stt = 0;
		unsafe { waitpid(*c, &mut stt, 0) };
		if stt != 0 {
			crashed += 1;
		}
	}
	if crashed > 0 {
		std::fs::write(format!("{dir}/crash.{}", unsafe { getpid() }), format!("{crashed}")).ok();
	}
	if !is_root {
		unsafe { _exit(if crashed > 0 { 1 } else { 0 }) };
	}
	// Merge.
	let mut num: BTreeMap<String, u64> = BTreeMap::new();
	let mut max: BTreeMap<String, u64> = BTreeMap::new();
	let (mut viol, mut samples) = (vec![], vec![]);
	let mut covers: BTreeSet<String> = BTreeSet::new();
	let mut inc: BTreeMap<String, u64> = BTreeMap::new();
	let mut labels: BTreeMap<String, u64> = BTreeMap::new();
	let mut dbg: BTreeSet<u32> = BTreeSet::new();
	let mut procs = 0;
	for e in std::fs::read_dir(&dir).unwrap().flatten() {
		let t = std::fs::read_to_string(e.path()).unwrap();
		if e.file_name().to_string_lossy().starts_with("crash") {
			*inc.entry("worker crashed".into()).or_insert(0) += 1;
			continue;
		}
		procs += 1;
		for l in t.lines() {
			let (k, r) = l.split_at(1);
			let r = r.trim_start();
			match k {
				"N" | "M" => {
					let (a, b) = r.split_once(' ').unwrap();
					let b: u64 = b.parse().unwrap();
					if k == "N" {
						*num.entry(a.into()).or_insert(0) += b;
					} else {
						let m = max.entry(a.into()).or_insert(0);
						*m = (*m).max(b);
					}
				},
				"V" => viol.push(r.to_string()),
				"S" => samples.push(r.to_string()),
				"C" => {
					covers.insert(r.to_string());
				},
				"I" | "L" => {
					let (a, b) = r.split_once(' ').unwrap();
					let t = if k == "I" { &mut inc } else { &mut labels };
					*t.entry(b.into()).or_insert(0) += a.parse::<u64>().unwrap();
				},
				"D" => dbg.extend(r.split(' ').filter_map(|x| x.parse::<u32>().ok())),
				_ => {},
			}
		}
	}
	let _ = std::fs::remove_dir_all(&dir);
	// Functions of the code under test that were executed, with their executed lines.
	let mut funcs: BTreeMap<(String, String), BTreeSet<u32>> = BTreeMap::new();
	for d in dbg {
		for (f, file, line) in x.m.locate(d) {
			if file.starts_with(&src) && line > 0 {
				funcs.entry((file[src.len()..].to_string(), f)).or_default().insert(line);
			}
		}
	}
	let mut o = String::from("{");
	o += &format!("\"entry\":{},", json_str(&pos[1]));
	for (k, v) in num.iter().chain(max.iter()) {
		o += &format!("{}:{},", json_str(k), v);
	}
	o += &format!("\"processes\":{procs},\"parse_s\":{parse_s:.3},\"wall_s\":{:.3},", start.elapsed().as_secs_f64());
	o += &format!("\"step_limit\":{},", x.lim.steps);
	o += &format!("\"violations\":[{}],", viol.join(","));
	o += &format!("\"samples\":[{}],", samples.join(","));
	o += &format!("\"covers\":[{}],", covers.iter().map(|c| json_str(c)).collect::<Vec<_>>().join(","));
	o += &format!("\"inconclusive_reasons\":{{{}}},", inc.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(","));
	o += &format!("\"check_labels\":{{{}}},", labels.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(","));
	o += &format!(
		"\"functions\":[{}]}}\n",
		funcs
			.iter()
			.map(|((file, f), l)| format!("{{\"file\":{},\"function\":{},\"lines\":[{}]}}", json_str(file), json_str(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
			.collect::<Vec<_>>()
			.join(",")
	);
	std::fs::write(&out, o).expect("write result");
}
