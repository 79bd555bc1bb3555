#!/usr/bin/env python3
"""Decide properties of fizyr-rpc by symbolic execution of the LLVM IR that rustc produces for it.

    check.py PROPERTY [quick|thorough]      run the check of one property
    check.py --build                        only build everything
    check.py --entry ENTRY [sx options]     run one harness entry and print its result
    check.py --replay FILE                  run a recorded counterexample against the native build

Exit codes of a check: 0 the property held on everything explored, 1 a violation (reproduced natively), 2 no answer.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time, tomllib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TAG = "main" if REPO == "/repo" else hashlib.sha1(REPO.encode()).hexdigest()[:10]
BUILD = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build")), TAG)
SX_TARGET = os.path.join(HERE, ".build", "sx")
EVIDENCE = os.path.join(HERE, "evidence") if TAG == "main" else os.path.join(BUILD, "evidence")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS  # noqa: E402


class Broken(Exception):
    pass


HOOK = "--cfg fizyr_rpc_verif"


def env(rustflags=""):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    return e


def sh(cmd, cwd, what, rustflags=""):
    r = subprocess.run(cmd, cwd=cwd, env=env(rustflags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken(f"{what} failed:\n{r.stdout[-6000:]}")
    return r.stdout


def tokio_source():
    """The source of the tokio that the lock file names, from cargo's registry."""
    lock = open(os.path.join(HERE, "sym/harness/Cargo.lock.in")).read()
    m = re.search(r'name = "tokio"\nversion = "(?!1\.99)([^"]+)"', lock)
    version = m.group(1) if m else "1.54.1"
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    base = os.path.join(home, "registry/src")
    for d in sorted(os.listdir(base)):
        p = os.path.join(base, d, f"tokio-{version}")
        if os.path.isdir(p):
            return p
    raise Broken(f"no source of tokio {version} below {base}")


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)


def macros_library(ws):
    """The proc macro crate as an ordinary library, so that the macro can be executed like any other function."""
    src = os.path.join(REPO, "macros/src")
    text = open(os.path.join(src, "lib.rs")).read()
    text = re.sub(r"#\[proc_macro\]", "", text)
    text = re.sub(r"\bproc_macro::", "proc_macro2::", text)

    def place(m):
        f = next((f for f in (m[2] + ".rs", m[2] + "/mod.rs") if os.path.exists(os.path.join(src, f))), m[2] + ".rs")
        return f'#[path = "{src}/{f}"] {m[1] or ""}mod {m[2]};'

    text = re.sub(r"^(pub(?:\([a-z]+\))? )?mod (\w+);", place, text, flags=re.M)
    write_if_changed(os.path.join(ws, "macros-lib/src/lib.rs"), text)
    deps = tomllib.load(open(os.path.join(REPO, "macros/Cargo.toml"), "rb")).get("dependencies", {})

    def toml(v):
        if isinstance(v, dict):
            return "{ " + ", ".join(f"{k} = {toml(x)}" for k, x in v.items()) + " }"
        return json.dumps(v)

    write_if_changed(os.path.join(ws, "macros-lib/Cargo.toml"),
                     '[package]\nname = "macros-under-test"\nversion = "0.0.0"\nedition = "2021"\npublish = false\n\n[dependencies]\n'
                     + "".join(f"{k} = {toml(v)}\n" for k, v in deps.items()))


def prepare_ws(unit):
    ws = os.path.join(BUILD, "ws")
    if unit == "macros":
        macros_library(ws)
        t = open(os.path.join(HERE, "sym/macros/Cargo.toml.in")).read()
        write_if_changed(os.path.join(ws, "mharness/Cargo.toml"), t.replace("@VERIF@", HERE).replace("@REPO@", REPO))
        lock = os.path.join(ws, "mharness/Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(HERE, "sym/macros/Cargo.lock.in"), lock)
        return os.path.join(ws, "mharness")
    for d in ("harness", "tokio"):
        t = open(os.path.join(HERE, "sym", d, "Cargo.toml.in")).read()
        write_if_changed(os.path.join(ws, d, "Cargo.toml"), t.replace("@VERIF@", HERE).replace("@REPO@", REPO))
    lock = os.path.join(ws, "harness", "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(HERE, "sym/harness/Cargo.lock.in"), lock)
    rt = os.path.join(ws, "real-tokio")
    if not os.path.exists(os.path.join(rt, ".complete")):
        shutil.rmtree(rt, ignore_errors=True)
        shutil.copytree(tokio_source(), rt)
        open(os.path.join(rt, ".complete"), "w").close()
    return os.path.join(ws, "harness")


UNITS = {"rpc": ("harness", (HOOK, "")), "macros": ("mharness", ("",)), "lua": None}


def build(units=tuple(UNITS)):
    """Build the executor, and per unit the IR and the native program of harness + code under test; return their paths."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with open(os.path.join(HERE, ".build", "sx.lock"), "w") as l2:
            fcntl.flock(l2, fcntl.LOCK_EX)
            sh(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", SX_TARGET], os.path.join(HERE, "sx"), "building sx")
        return {u: build_unit(u) for u in units}


def build_unit(unit):
    if unit == "lua":
        # Executed from source.
        script, run = os.path.join(REPO, "wireshark/fizyr-rpc.lua"), os.path.join(HERE, "lua/dissect.py")
        if not os.path.exists(script):
            raise Broken(f"no {script}")
        return {"sx": run, "ll": script, "native": run, "hooked": False}
    name, variants = UNITS[unit]
    h = prepare_ws(unit)

    def b_ir():
        sh(["cargo", "rustc", "--offline", "--profile", "sx", "--bin", name, "--target-dir", ir, "--",
            "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "--cfg", "sx_ir", "-C", "linker=/bin/true"],
           h, "compiling the code under test to LLVM IR", flags)

    def b_native():
        sh(["cargo", "build", "--release", "--offline", "--target-dir", nat], h, "building the native harness", flags)

    # Without the hook if the code has changed so much that the hook does not compile any more.
    for flags in variants:
        suffix = "" if unit == "rpc" else "-" + unit
        suffix += "" if flags or len(variants) == 1 else "-plain"
        ir = os.path.join(BUILD, "ir" + suffix)
        nat = os.path.join(BUILD, "native" + suffix)
        try:
            with concurrent.futures.ThreadPoolExecutor(2) as ex:
                fs = [ex.submit(f) for f in (b_ir, b_native)]
                for f in fs:
                    f.result()
            break
        except Broken:
            if flags == variants[-1]:
                raise
    deps = os.path.join(ir, "sx", "deps")
    lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith(name) and f.endswith(".ll")]
    if not lls:
        raise Broken("no LLVM IR was produced")
    lls.sort(key=os.path.getmtime)
    for old in lls[:-1]:
        os.unlink(old)
    return {"sx": os.path.join(SX_TARGET, "release", "sx"), "ll": lls[-1], "native": os.path.join(nat, "release", name), "hooked": bool(flags)}


def run_sx(b, entry, out, opts):
    cmd = [b["sx"], b["ll"], entry, "--out", out, "--workers", str(WORKERS), "--src", REPO.rstrip("/") + "/"]
    for k, v in opts.items():
        cmd += ["--" + k, str(v)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env())
    if not os.path.exists(out):
        raise Broken(f"sx {entry} produced no result (exit {r.returncode}):\n{r.stdout[-3000:]}")
    res = json.load(open(out))
    res["log"] = r.stdout[-3000:]
    res["exit"] = r.returncode
    return res


def replay_text(entry, inputs, extra=""):
    return extra + f"entry {entry}\n" + "".join(f"in {b} {v} {n.replace(' ', '_')}\n" for n, b, v in inputs)


def native(b, entry, path, timeout=20, wrap=()):
    e = env()
    e["SX_REPLAY"] = path
    try:
        r = subprocess.run(list(wrap) + [b["native"], entry], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


def reproduces(b, entry, v, path):
    """Run a counterexample natively.  Returns what happened, or None if the violation did not show."""
    rc, out, err = native(b, entry, path)
    if v["label"] == "nontermination":
        return "does not terminate" if rc == "timeout" else None
    if rc == 90:
        m = re.search(r"CHECK FAILED (.*)", out)
        return f"check failed: {m.group(1) if m else '?'}"
    if rc == 101 or rc in (-6, 134):
        return "panic: " + " ".join(err.strip().split("\n")[:2])[:300]
    if rc in (-11, -7, 139):
        return f"crash (signal {-rc if rc < 0 else rc})"
    if rc == "timeout":
        return "does not terminate"
    if v["label"] == "memory-safety":
        rc, out, err = native(b, entry, path, 120, ("valgrind", "-q", "--error-exitcode=77", "--leak-check=no"))
        if rc == 77:
            return "valgrind: " + " ".join(err.strip().split("\n")[:2])[:300]
    return None


def run_property(prop, tier):
    t0 = time.time()
    spec = PROPS[prop]
    units = build(sorted({e.get("unit", "rpc") for e in spec["entries"] + spec.get("thorough", [])}))
    built = time.time() - t0
    work = os.path.join(BUILD, "run", f"{prop}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(EVIDENCE, exist_ok=True)
    repdir = os.path.join(EVIDENCE, f"{prop}.replays")
    shutil.rmtree(repdir, ignore_errors=True)
    known = load_known(prop)
    entries = list(spec["entries"])
    if tier == "thorough":
        entries += spec.get("thorough", [])
    cov = {"entries": {}, "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "queries": 0, "queries_sat": 0,
           "queries_unsat": 0, "assertions_checked": 0, "solver_s": 0.0, "samples": []}
    funcs = {}
    problems, reported, known_hit = [], [], {}
    budget = 780 if tier == "quick" else 3 * 3600
    for e in entries:
        b = units[e.get("unit", "rpc")]
        left = budget - (time.time() - t0)
        opts = {"time": int(max(20, min(left - 30, e.get("time", 600)))), "samples": 48 if tier == "quick" else 200}
        if "steps" in e:
            opts["steps"] = e["steps"]
        name = e["entry"]
        r = run_sx(b, name, os.path.join(work, name + ".json"), opts)
        c = {k: r[k] for k in ("done", "assume", "dead", "inconclusive", "steps", "forks", "checks", "queries", "sat", "unsat", "unknown",
                               "cached", "max_inputs", "max_steps", "wall_s")}
        c["solver_s"] = round(r["solver_us"] / 1e6, 3)
        c["bounds"] = e.get("bounds", "")
        c["covers"] = r["covers"]
        c["assertions"] = r["check_labels"]
        cov["states"] += r["done"] + r["assume"] + r["forks"]
        cov["transitions"] += r["steps"]
        cov["queries"] += r["queries"]
        cov["queries_sat"] += r["sat"]
        cov["queries_unsat"] += r["unsat"]
        cov["assertions_checked"] += r["checks"]
        cov["solver_s"] += r["solver_us"] / 1e6
        for f in r["functions"]:
            k = (f["file"], f["function"])
            funcs.setdefault(k, set()).update(f["lines"])
        # Violations: replay, then report.
        seen = set()
        for v in r["violations"]:
            sig = (v["label"], v["message"], v["stack"][0] if v["stack"] else "")
            if sig in seen:
                continue
            seen.add(sig)
            os.makedirs(repdir, exist_ok=True)
            path = os.path.join(repdir, f"{name}-{len(seen)}.txt")
            head = f"# property {prop}: {v['label']} {v['message']}\n" + "".join(f"#   {s}\n" for s in v["stack"][:12])
            open(path, "w").write(replay_text(name, v["inputs"], head))
            how = reproduces(b, name, v, path)
            if how is None:
                problems.append(f"{name}: counterexample does not reproduce natively: {v['label']} {v['message']} ({path})")
                continue
            open(path, "a").write(f"# native run: {how}\n")
            k = next((k for k in known if k["entry"] == name and k["label"] == v["label"]), None)
            if k:
                known_hit[k["what"]] = k
                continue
            reported.append((name, v, how, path))
        if r["inconclusive"] or r["leftover"]:
            if not r["violations"]:
                problems.append(f"{name}: {r['inconclusive']} inconclusive paths, {r['leftover']} not explored: {r['inconclusive_reasons']}")
        if not b["hooked"]:
            e = dict(e, covers=[x for x in e.get("covers", []) if x not in e.get("hooked", [])])
        missing = [x for x in e.get("covers", []) if x not in r["covers"]]
        if missing and not r["violations"]:
            problems.append(f"{name}: situations never reached: {missing}")
        # Completed paths must behave the same natively.
        bad = []
        if not r["violations"]:
            def one(i_s):
                i, s = i_s
                p = os.path.join(work, f"{name}.s{i}.txt")
                open(p, "w").write(replay_text(name, s["inputs"]))
                rc, out, err = native(b, name, p)
                notes = [tuple(map(int, l.split()[1:3])) for l in out.splitlines() if l.startswith("note ")]
                os.unlink(p)
                if rc != 0 or "DONE" not in out or notes != [tuple(x) for x in s["notes"]]:
                    return f"{name} sample {i}: exit {rc}, {out[-200:]!r} {err[-300:]!r} notes {notes[:8]} expected {s['notes'][:8]}"
            with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
                results = list(ex.map(one, enumerate(r["samples"])))
            bad = [x for x in results if x]
            cov["traces_validated_against_impl"] += len(results) - len(bad)
            c["replayed"] = len(results)
            if bad:
                problems.append("native run differs from the symbolic one: " + bad[0])
        if r["samples"]:
            s = r["samples"][0]
            cov["samples"].append({"entry": name, "inputs": {f"{i}:{n}": v for i, (n, _, v) in enumerate(s["inputs"][:40])}, "notes": s["notes"][:20]})
        cov["entries"][name] = c
        print(f"  {name}: {r['done']} paths, {r['steps']} instructions, {r['checks']} assertions, {r['queries']} queries "
              f"({r['solver_us'] / 1e6:.1f} s solver), {r['wall_s']:.1f} s, {len(r['violations'])} violations", flush=True)
    shutil.rmtree(work, ignore_errors=True)
    cov["solver_s"] = round(cov["solver_s"], 3)
    cov["build_s"] = round(built, 1)
    cov["hook_enabled"] = units["rpc"]["hooked"] if "rpc" in units else False
    cov["functions_encoded"] = [f"{os.path.relpath(f, REPO) if f.startswith('/') else f}: {n} ({len(l)} lines)" for (f, n), l in sorted(funcs.items(), key=lambda x: x[0])]
    cov["outside_the_bounds"] = spec.get("outside", "")
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
          "assumptions": ([] if "lua" in units else COMMON_ASSUMPTIONS) + spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(reported)}
    tmp = os.path.join(EVIDENCE, f".{prop}.{os.getpid()}")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for name, v, how, path in reported:
        print(f"{name}: {v['label']} {v['message']}: {how}")
        for s in v["stack"][:8]:
            print("    at " + s)
    if reported:
        print(f"VIOLATION property={prop} replay={reported[0][3]}")
        return 1
    if problems:
        for p in problems:
            print("NO ANSWER: " + p)
        return 2
    print(f"{prop}: held on everything explored ({cov['states']} states, {cov['queries']} queries, {time.time() - t0:.0f} s)")
    return 0


COMMON_ASSUMPTIONS = [
    "LLVM IR as produced by the installed rustc at opt-level 1 with overflow checks means what sx implements; every run replays sampled paths natively and compares",
    "single-threaded schedules at the granularity of poll calls; weak memory effects inside tokio and std are not modelled",
    "memory allocation never fails; uninitialised memory reads as zero",
    "sockets are stand-ins: tokio::net, AsyncFd and spawn are replaced, everything else of tokio is the real code",
]


def load_known(prop):
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) entry=(\S+) label=\"([^\"]*)\" (.*)", l)
            if m and m.group(1) == prop:
                out.append({"entry": m.group(2), "label": m.group(3), "what": m.group(4).strip()})
    return out


def build_of(entry):
    unit = next((e.get("unit", "rpc") for p in PROPS.values() for e in p["entries"] + p.get("thorough", []) if e["entry"] == entry), "rpc")
    return build([unit])[unit]


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 64
    os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
    try:
        if a[0] == "--build":
            b = build()
            print(json.dumps(b))
            return 0
        if a[0] == "--replay":
            entry = next(l.split()[1] for l in open(a[1]) if l.startswith("entry "))
            b = build_of(entry)
            rc, out, err = native(b, entry, os.path.abspath(a[1]), 60)
            print(out, err, f"exit {rc}", sep="\n")
            return 0 if rc == 0 else 1
        if a[0] == "--entry":
            b = build_of(a[1])
            os.execv(b["sx"], [b["sx"], b["ll"]] + a[1:])
        prop = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        if prop not in PROPS:
            print(f"unknown property {prop}")
            return 64
        return run_property(prop, tier)
    except Broken as e:
        print(f"NO ANSWER: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
