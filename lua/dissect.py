#!/usr/bin/env python3-vt
"""Run the Wireshark dissector of the tree under test on symbolic traffic.

    dissect.py FILE ENTRY --out RESULT [--samples N] [--time S]     explore an entry, with the same output as sx
    SX_REPLAY=INPUTS dissect.py ENTRY                               run one recorded case with concrete bytes

What Wireshark provides (Tvb, TreeItem, dissect_tcp_pdus, ...) is modelled here after its reference manual.
"""
import json, os, sys, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3  # noqa: E402
from lua import Lua, LuaError, Native, Table, Unsupported, is_sym, bv, type_name  # noqa: E402


class Violation(Exception):
    def __init__(self, what):
        self.what = what


class Dead(Exception):
    pass


class Explorer:
    """One path of the exploration; the decisions of `prefix` are repeated, later ones are new."""

    def __init__(self, prefix, stats, replay=None):
        self.prefix, self.taken, self.open, self.stats = prefix, [], [], stats
        self.solver = z3.Solver()
        self.inputs, self.replay, self.notes = [], replay, []
        self.pending = []

    def query(self, *c):
        t = time.time()
        r = self.solver.check(*c)
        self.stats["queries"] += 1
        self.stats["solver"] += time.time() - t
        self.stats["sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"] += 1
        if r == z3.unknown:
            raise Unsupported("the solver gives no answer")
        return r == z3.sat

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Dead
            return
        self.solver.add(c)

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            yes, no = self.query(c), self.query(z3.Not(c))
            v = yes
            if yes and no:
                self.stats["forks"] += 1
                self.open.append(self.taken + [False])
        self.taken.append(v)
        self.assume(c if v else z3.Not(c))
        return v

    def choose(self, n, what):
        bits = max(1, (n - 1).bit_length())
        if self.replay is not None:
            v = self.take(bits, what)
        else:
            k = len(self.taken)
            if k < len(self.prefix):
                v = self.prefix[k]
            else:
                v = 0
                for j in range(n - 1, 0, -1):
                    self.stats["forks"] += 1
                    self.open.append(self.taken + [j])
            self.taken.append(v)
        self.inputs.append((what, bits, v))
        return v

    def take(self, bits, what):
        if not self.replay:
            raise Dead
        return self.replay.pop(0)

    def byte(self, what):
        if self.replay is not None:
            v = self.take(8, what)
            self.inputs.append((what, 8, v))
            return v
        x = z3.BitVec(f"{what} {len(self.inputs)}", 8)
        self.inputs.append((what, 8, x))
        return x

    def check(self, c, what):
        self.stats["checks"] += 1
        self.stats["labels"][what] = self.stats["labels"].get(what, 0) + 1
        if isinstance(c, bool):
            if not c:
                raise Violation(what)
            return
        self.pending.append((c, what))

    def flush(self):
        """Decide the assertions that are not decided yet."""
        todo, self.pending = self.pending, []
        if todo and self.query(z3.Not(z3.And([c for c, _ in todo]))):
            for c, what in todo:
                if self.query(z3.Not(c)):
                    self.assume(z3.Not(c))
                    raise Violation(what)

    def concrete_inputs(self):
        m = None
        if any(is_sym(v) for _, _, v in self.inputs):
            if not self.query():
                raise Unsupported("a path that is not possible")
            m = self.solver.model()
        return [[n, b, m.eval(v, model_completion=True).as_long() if is_sym(v) else v] for n, b, v in self.inputs], m


# What Wireshark offers to a script.

class Host:
    """An object of the host with methods `m_...` and readable attributes `a_...`."""

    def index(self, k):
        if not isinstance(k, str):
            raise LuaError("bad index")
        f = getattr(self, "m_" + k, None)
        if f:
            return Native(lambda self_, *a: f(*a))
        if hasattr(self, "a_" + k):
            return getattr(self, "a_" + k)
        raise Unsupported(f"{type(self).__name__}.{k} is not modelled")

    def set_index(self, k, v):
        raise Unsupported(f"{type(self).__name__}.{k} = ... is not modelled")


class Anything(Host):
    """Something whose effect does not matter here (columns and the like)."""

    def index(self, k):
        return Anything()

    def set_index(self, k, v):
        pass

    def __call__(self, *a):
        return [Anything()]


class Range(Host):
    """A part of the bytes; also used for Tvb."""

    def __init__(self, data, start, length):
        self.data, self.start, self.n = data, start, length

    def sub(self, off=0, n=None):
        off = 0 if off is None else off
        if is_sym(off) or is_sym(n):
            raise Unsupported("a part of the data at an unknown place")
        if type_name(off) != "number" or (n is not None and type_name(n) != "number"):
            raise LuaError("number expected")
        n = self.n - off if n is None or n == -1 else n
        if off < 0 or n < 0 or off + n > self.n:
            raise LuaError("Range is out of bounds")
        return Range(self.data, self.start + int(off), int(n))

    def __call__(self, *a):
        return [self.sub(*a)]

    def m_range(self, *a):
        return self.sub(*a)

    def m_tvb(self, *a):
        return self

    def m_len(self, *a):
        return self.n

    m_captured_len = m_reported_len = m_reported_length_remaining = m_len

    def m_offset(self):
        return self.start

    def number(self, little, signed=False, most=4):
        if not 1 <= self.n <= most:
            raise LuaError(f"cannot read a number of {self.n} bytes")
        b = self.data[self.start:self.start + self.n]
        if little:
            b = b[::-1]
        if all(isinstance(x, int) for x in b):
            return int.from_bytes(bytes(b), "big", signed=signed)
        b = [x if is_sym(x) else z3.BitVecVal(x, 8) for x in b]
        x = z3.Concat(*b) if len(b) > 1 else b[0]
        return z3.SignExt(64 - x.size(), x) if signed else z3.ZeroExt(64 - x.size(), x)

    def m_uint(self):
        return self.number(False)

    def m_le_uint(self):
        return self.number(True)

    def m_int(self):
        return self.number(False, True)

    def m_le_int(self):
        return self.number(True, True)

    def m_bytes(self, *a):
        return self.sub(*a)


class ProtoField(Host):
    SIZES = {"uint8": 1, "uint16": 2, "uint24": 3, "uint32": 4, "int8": 1, "int16": 2, "int24": 3, "int32": 4, "bytes": None, "string": None,
             "ubytes": None, "none": None}

    def __init__(self, kind, abbr, name=None, *rest):
        self.kind, self.abbr = kind, abbr
        self.strings = next((x for x in rest if isinstance(x, Table)), None)


class Proto(Host):
    def __init__(self, world, name, text):
        self.world, self.a_name, self.text = world, name, text
        self.fields, self.dissector = Table(), None
        world.protos.append(self)

    def index(self, k):
        if k in ("fields", "dissector"):
            return getattr(self, k)
        return super().index(k)

    def set_index(self, k, v):
        if k == "fields" and isinstance(v, ProtoField):
            t = Table()
            t.set(1, v)
            v = t
        if k in ("fields", "dissector"):
            setattr(self, k, v)
        elif k not in ("prefs_changed", "init", "prefs", "experts"):
            super().set_index(k, v)


class FieldExtractor(Host):
    def __call__(self, *a):
        return [FieldInfo()]


class FieldInfo(Host):
    pass


class DissectorTable(Host):
    def __init__(self, world, name):
        self.world, self.name = world, name

    def m_add(self, pattern, proto):
        if not isinstance(proto, Proto):
            raise LuaError("a dissector is expected")
        self.world.tables.setdefault(self.name, []).append(proto)

    m_set = m_add

    def m_add_for_decode_as(self, proto):
        self.m_add(None, proto)


class Item(Host):
    """A line of the tree."""

    def __init__(self, world):
        self.world = world

    def new(self, little, args):
        args = list(args)
        what = args.pop(0) if args and isinstance(args[0], (Proto, ProtoField)) else None
        rng = args.pop(0) if args and isinstance(args[0], Range) else None
        if what is None and rng is None and not (args and isinstance(args[0], str)):
            raise LuaError("TreeItem.add: ProtoField expected")
        if isinstance(what, ProtoField):
            size = ProtoField.SIZES[what.kind]
            value = None
            if size is not None:
                if args and not isinstance(args[0], str):
                    value = args.pop(0)
                    if type_name(value) != "number":
                        raise LuaError(f"number expected, got {type_name(value)}")
                elif rng is not None:
                    value = rng.number(little, what.kind[0] == "i", size)
                else:
                    raise LuaError("TreeItem.add: TvbRange expected")
            elif rng is None:
                raise LuaError("TreeItem.add: TvbRange expected")
            self.world.shown.append((what, rng, value))
        return Item(self.world)

    def m_add(self, *a):
        return self.new(False, a)

    def m_add_le(self, *a):
        return self.new(True, a)

    def ignore(self, *a):
        return self

    m_set_text = m_append_text = m_prepend_text = m_set_generated = m_set_hidden = m_add_expert_info = ignore


class Pinfo(Host):
    def __init__(self):
        self.v = {}

    def index(self, k):
        return self.v.get(k, Anything() if not k.startswith("desegment") and k != "can_desegment" else 0 if k != "can_desegment" else 2)

    def set_index(self, k, v):
        self.v[k] = v


KNOWN = """Dissector DissectorTable Proto ProtoField ProtoExpert Field FieldInfo Tvb TvbRange ByteArray Pref Prefs Pinfo Address Columns Column
    NSTime Int64 UInt64 Listener Dir Dumper PseudoHeader File FrameInfo FrameInfoConst CaptureInfo CaptureInfoConst FileHandler wtap_encaps
    wtap_filetypes ftypes frametype expert heur_dissector_add register_postdissector set_plugin_info get_version bit bit32 string table math os io
    require package coroutine pcall error assert tostring tonumber type pairs ipairs next select print unpack debug utf8 rawget rawset setmetatable
    getmetatable info warn message critical debug report_failure register_menu gui_enabled TextWindow ProgDlg new_dialog Struct GRegex Conversation
    wtap_tsprecs DESEGMENT_ONE_MORE_SEGMENT ENC_LITTLE_ENDIAN ENC_BIG_ENDIAN FT_UINT32""".split()


class Wireshark:
    def __init__(self, ex, path):
        self.ex, self.protos, self.tables, self.shown = ex, [], {}, []
        g = {}
        field = Table()
        for k in ProtoField.SIZES:
            field.set(k, Native(lambda *a, k=k: ProtoField(k, *a)))
        base = Table()
        for i, k in enumerate("NONE DEC HEX OCT DEC_HEX HEX_DEC SPACE DOT DASH COLON ASCII UNICODE".split()):
            base.set(k, i)
        f = Table()
        f.set("new", Native(lambda *a: FieldExtractor()))
        t = Table()
        t.set("get", Native(lambda name: DissectorTable(self, name)))
        g.update({"Proto": Native(lambda *a: Proto(self, *a)), "ProtoField": field, "base": base, "Field": f, "DissectorTable": t,
                  "dissect_tcp_pdus": Native(self.tcp_pdus), "DESEGMENT_ONE_MORE_SEGMENT": 0x0FFFFFFF,
                  "ipairs": Native(lambda x: [Native(lambda s, i: [i + 1, s.get(i + 1)] if s.get(i + 1) is not None else [None]), x, 0]),
                  "type": Native(type_name), "math": self.math()})
        known = [k for k in KNOWN if k not in g]
        self.lua = Lua(ex.decide, g, known)
        self.lua.load(open(path).read())

    def math(self):
        t = Table()
        for name, f in (("min", min), ("max", max)):
            t.set(name, Native(lambda *a, f=f: self.least(a, name == "min") if any(is_sym(x) for x in a) else f(a)))
        return t

    def least(self, a, smaller):
        raise Unsupported("math with unknown values")

    def tcp_pdus(self, tvb, tree, least, get_len, dissect, desegment=True):
        off = 0
        pinfo = self.pinfo
        while off < tvb.n:
            left = tvb.n - off
            if left < least:
                pinfo.v["desegment_offset"], pinfo.v["desegment_len"] = off, 0x0FFFFFFF
                return off
            n = (self.lua.call(get_len, [tvb, pinfo, off]) + [None])[0]
            if type_name(n) != "number":
                raise LuaError("dissect_tcp_pdus: the length is not a number")
            if self.lua.truth(self.lua.binary("<", n, least)):
                raise LuaError("dissect_tcp_pdus: the length of a message is less than that of its header")
            if self.lua.truth(self.lua.binary(">", n, left)):
                pinfo.v["desegment_offset"], pinfo.v["desegment_len"] = off, 1
                return off
            if is_sym(n):
                n = next(k for k in range(least, left + 1) if self.lua.truth(n == k))
            self.lua.call(dissect, [tvb.sub(off, n), pinfo, tree])
            off += int(n)
        return off

    def dissect(self, table, data, start, end):
        """Dissect data[start:end]; returns how much of it has been used up."""
        protos = self.tables.get(table, [])
        self.ex.check(len(protos) == 1 and protos[0].dissector is not None, "the dissector can be selected")
        self.pinfo = Pinfo()
        self.lua.call(protos[0].dissector, [Range(data, start, end - start), self.pinfo, Item(self)])
        if self.pinfo.v.get("desegment_len", 0) != 0:
            return start + self.pinfo.v.get("desegment_offset", 0)
        return end


FIELDS = ("message_length", "message_type", "request_id", "service_id", "body")


def message(ex, data, length, prefixed):
    """Append a message with arbitrary header and body to the data."""
    start = len(data)
    if prefixed:
        data += list((12 + length).to_bytes(4, "little"))
    kind = ex.byte("type")
    ex.assume(z3.ULE(kind, 4) if is_sym(kind) else kind <= 4)
    data += [kind, 0, 0, 0]
    for what in ("id", "service"):
        data += [ex.byte(what) for _ in range(4)]
    data += [ex.byte("body") for _ in range(length)]
    return start, len(data), length


def number_of(data, at):
    return Range(data, at, 4).number(True)


def look(ex, ws, data, messages, prefixed):
    """What is shown is exactly what the messages contain."""
    registered = [f for p in ws.protos for f in p.fields.d.values()]
    left = list(ws.shown)
    for start, end, length in messages:
        h = start + 4 * prefixed
        for name in FIELDS:
            mine = [s for s in left if s[0].abbr == "fizyr_rpc." + name and (len(messages) == 1 if s[1] is None else start <= s[1].start and s[1].start + s[1].n <= end)]
            ex.check(len(mine) == 1 or (not mine and name == "body" and length == 0), "every part of every message is shown once")
            if not mine:
                continue
            left.remove(mine[0])
            field, rng, value = mine[0]
            ex.check(field in registered, "what is shown is known to Wireshark")
            if name == "body":
                ex.check((rng.start, rng.n) == (h + 12, length), "the body is shown as it is")
                continue
            if name == "message_length":
                want, at = 12 + length, start
            else:
                at = h + 4 * ("message_type", "request_id", "service_id").index(name)
                want = number_of(data, at)
            ex.check(value is not None, "numbers are shown as numbers")
            ex.check(z3.Extract(31, 0, bv(value)) == z3.Extract(31, 0, bv(want)), "the values are those of the message")
            signed = name == "service_id"
            ex.check(field.kind == ("int32" if signed else "uint32"), "the values are shown with their sign")
            ex.check(rng is None and not prefixed or rng is not None and (rng.start, rng.n) == (at, 4) or name == "message_length" and not prefixed,
                     "a value belongs to its bytes")
            ex.notes.append((len(ex.notes), value))
    ex.check(not left, "nothing else is shown")


def names(ex, ws):
    fields = [f for p in ws.protos for f in p.fields.d.values() if f.abbr == "fizyr_rpc.message_type"]
    ex.check(len(fields) > 0 and fields[0].strings is not None, "the kinds of messages have names")
    s = [str(fields[0].strings.get(k) or "").lower().replace("_", "").replace(" ", "") for k in range(5)]
    want = [("request",), ("response",), ("requestupdate", "requesterupdate"), ("responseupdate", "responderupdate"), ("stream",)]
    ex.check(all(x in w for x, w in zip(s, want)), "the names of the kinds of messages are right")


def tcp(ex, path, count, lengths, cuts):
    data, messages = [], []
    for _ in range(count):
        messages.append(message(ex, data, lengths[ex.choose(len(lengths), "length")], True))
    ws = Wireshark(ex, path)
    names(ex, ws)
    # The data arrives in pieces; Wireshark adds what is missing to the rest.
    ends = []
    last = 0
    for _ in range(cuts):
        if len(data) < 120:
            last += ex.choose(len(data) - last, "cut")
        else:
            places = [p for p in (last, 1, 3, 4, 5, 15, 16, 17, 200, len(data) - 200, len(data) - 17, len(data) - 1) if last <= p]
            last = places[ex.choose(len(places), "cut")]
        ends.append(last)
    used = 0
    for end in ends + [len(data)]:
        if end > used:
            used = ws.dissect("tcp.port", data, used, end)
    ex.check(used == len(data), "all messages are dissected")
    look(ex, ws, data, messages, True)
    return ws


def udp(ex, path):
    data = []
    m = message(ex, data, (0, 1, 2, 300)[ex.choose(4, "length")], False)
    ws = Wireshark(ex, path)
    names(ex, ws)
    ws.dissect("udp.port", data, 0, len(data))
    look(ex, ws, data, [m], False)
    return ws


ENTRIES = {
    "c29_tcp_one": lambda ex, p: tcp(ex, p, 1, (0, 1, 2, 3, 4, 300, 70000), 0),
    "c29_tcp_split": lambda ex, p: tcp(ex, p, 2, (0, 1, 3, 300), 1),
    "c29_tcp_split_twice": lambda ex, p: tcp(ex, p, 2, (0, 2), 2),
    "c29_tcp_three": lambda ex, p: tcp(ex, p, 3, (0, 1, 3, 260), 0),
    "c29_tcp_three_split": lambda ex, p: tcp(ex, p, 3, (0, 3), 1),
    "c29_udp": udp,
}


def run_one(entry, path, prefix, stats, replay=None):
    """Returns the explorer, what went wrong, and whether the path counts."""
    ex = Explorer(prefix, stats, replay)
    try:
        ws = ENTRIES[entry](ex, path)
        ex.flush()
        stats["steps"] += 200000 - ws.lua.left
        stats["lines"] |= ws.lua.lines
        return ex, None, True
    except Violation as v:
        return ex, v.what, True
    except LuaError as e:
        return ex, f"the dissector fails: {e}", True
    except Dead:
        return ex, None, False


def new_stats():
    return {"queries": 0, "solver": 0.0, "sat": 0, "unsat": 0, "unknown": 0, "checks": 0, "forks": 0, "steps": 0, "labels": {}, "lines": set()}


def functions(path, lines):
    """The functions of the file with the lines that have been executed."""
    import re
    text = open(path).read().split("\n")
    out, cur = {}, "(top level)"
    for i, l in enumerate(text, 1):
        m = re.match(r"\s*(?:local )?function ([\w.:]+)", l)
        if m:
            cur = m[1]
        if i in lines:
            out.setdefault(cur, []).append(i)
    return [{"file": path, "function": k, "lines": v} for k, v in out.items()]


def explore(path, entry, out, limit, n_samples):
    t0 = time.time()
    stats, work = new_stats(), [[]]
    done, violations, samples, reasons = 0, [], [], []
    while work and time.time() - t0 < limit and len(violations) < 2:
        prefix = work.pop()
        try:
            ex, wrong, counts = run_one(entry, path, prefix, stats)
            work += ex.open
            if not counts:
                continue
            done += 1
            if wrong:
                inputs, _ = ex.concrete_inputs()
                violations.append({"label": "check", "message": wrong, "stack": [], "inputs": inputs})
            elif done % max(1, done // n_samples) == 0 and len(samples) < n_samples:
                inputs, m = ex.concrete_inputs()
                samples.append({"inputs": inputs, "notes": [[k, (m.eval(bv(v), model_completion=True).as_long() if m is not None else v) & 0xFFFFFFFF] for k, v in ex.notes]})
        except (Unsupported, RecursionError) as e:
            reasons.append(str(e))
            if len(reasons) > 20:
                break
    wall = time.time() - t0
    res = {"done": done, "assume": 0, "dead": 0, "inconclusive": len(reasons), "inconclusive_reasons": sorted(set(reasons))[:5], "leftover": len(work),
           "steps": stats["steps"], "forks": stats["forks"], "checks": stats["checks"], "queries": stats["queries"], "sat": stats["sat"],
           "unsat": stats["unsat"], "unknown": stats["unknown"], "cached": 0, "max_inputs": 0, "max_steps": 0, "wall_s": round(wall, 3),
           "solver_us": int(stats["solver"] * 1e6), "covers": ["end"] if done else [], "check_labels": stats["labels"],
           "functions": functions(path, stats["lines"]), "violations": violations, "samples": samples}
    json.dump(res, open(out, "w"))
    return 1 if violations else 0


def main():
    a = sys.argv[1:]
    if "SX_REPLAY" in os.environ:
        path = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "wireshark/fizyr-rpc.lua")
        values = [int(l.split()[2]) for l in open(os.environ["SX_REPLAY"]) if l.startswith("in ")]
        ex, wrong, counts = run_one(a[0], path, [], new_stats(), values)
        if not counts:
            print("INPUTS DO NOT FIT")
            return 3
        for k, v in ex.notes:
            print("note", k, v & 0xFFFFFFFF)
        if wrong:
            print("CHECK FAILED", wrong)
            return 90
        print("DONE")
        return 0
    path, entry = a[0], a[1]
    opt = dict(zip(a[2::2], a[3::2]))
    return explore(path, entry, opt.get("--out", "/dev/stdout"), float(opt.get("--time", 600)), int(opt.get("--samples", 48)))


if __name__ == "__main__":
    sys.exit(main())
