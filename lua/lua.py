"""A small Lua: parser and evaluator whose numbers may be symbolic.

Values: None, bool, int, float, str, Table, Function, Native (Python callable), objects of the host, z3 expressions
(bit vectors of 64 bits for integers, Bool for truth values).
"""
import re
import z3


class LuaError(Exception):
    """An error the script raises when it runs."""


class Unsupported(Exception):
    """Something this evaluator does not know."""


TOKEN = re.compile(r"""
    (?P<space>\s+) | (?P<comment>--\[(?P<eqc>=*)\[.*?\](?P=eqc)\]|--[^\n]*)
  | (?P<long>\[(?P<eq>=*)\[.*?\](?P=eq)\])
  | (?P<num>0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+)
  | (?P<str>"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')
  | (?P<name>[A-Za-z_]\w*)
  | (?P<op>\.\.\.|\.\.|==|~=|<=|>=|<<|>>|//|::|[-+*/%^\#&~|<>=(){}\[\];:,.])
""", re.X | re.S)
KEYWORDS = set("and break do else elseif end false for function goto if in local nil not or repeat return then true until while".split())
ESC = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\", '"': '"', "'": "'", "\n": "\n", "0": "\0", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}


def tokens(text):
    pos, out, line = 0, [], 1
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise Unsupported(f"line {line}: cannot read {text[pos:pos + 20]!r}")
        kind, s = m.lastgroup, m.group()
        if kind in ("eq", "eqc"):
            kind = "long" if s.startswith("[") else "comment"
        if kind == "num":
            out.append(("num", int(s, 16) if s[:2] in ("0x", "0X") else int(s) if s.isdigit() else float(s), line))
        elif kind == "str":
            out.append(("str", re.sub(r"\\(x[0-9a-fA-F]{2}|\d{1,3}|.)", lambda e: chr(int(e[1][1:], 16)) if e[1][0] == "x" and len(e[1]) == 3
                                      else chr(int(e[1])) if e[1].isdigit() else ESC.get(e[1], e[1]), s[1:-1], flags=re.S), line))
        elif kind == "long":
            n = s.index("[", 1) + 1
            body = s[n:-n]
            out.append(("str", body[1:] if body.startswith("\n") else body, line))
        elif kind == "name":
            out.append(("kw" if s in KEYWORDS else "name", s, line))
        elif kind == "op":
            out.append(("op", s, line))
        line += s.count("\n")
        pos = m.end()
    out.append(("eof", "", line))
    return out


BIN = {"or": (1, 1), "and": (2, 2), "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3), "~=": (3, 3), "==": (3, 3),
       "|": (4, 4), "~": (5, 5), "&": (6, 6), "<<": (7, 7), ">>": (7, 7), "..": (9, 8), "+": (10, 10), "-": (10, 10),
       "*": (11, 11), "/": (11, 11), "//": (11, 11), "%": (11, 11), "^": (14, 13)}


class Parser:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0

    def peek(self, *v):
        k, s, _ = self.t[self.i]
        return k in ("kw", "op") and s in v

    def take(self, *v):
        if self.peek(*v):
            self.i += 1
            return self.t[self.i - 1][1]

    def want(self, v):
        if not self.take(v):
            raise Unsupported(f"line {self.t[self.i][2]}: expected {v}, found {self.t[self.i][1]!r}")

    def name(self):
        k, s, line = self.t[self.i]
        if k != "name":
            raise Unsupported(f"line {line}: expected a name, found {s!r}")
        self.i += 1
        return s

    def block(self, *ends):
        out = []
        while not self.peek(*ends) and self.t[self.i][0] != "eof":
            line = self.t[self.i][2]
            s = self.statement()
            if s:
                out.append((line, s))
            if s and s[0] == "return":
                break
        return out

    def statement(self):
        if self.take(";"):
            return None
        if self.take("do"):
            b = self.block("end")
            self.want("end")
            return ("do", b)
        if self.take("while"):
            c = self.expr()
            self.want("do")
            b = self.block("end")
            self.want("end")
            return ("while", c, b)
        if self.take("repeat"):
            b = self.block("until")
            self.want("until")
            return ("repeat", b, self.expr())
        if self.take("if"):
            arms, other = [], []
            c = self.expr()
            self.want("then")
            arms.append((c, self.block("elseif", "else", "end")))
            while self.take("elseif"):
                c = self.expr()
                self.want("then")
                arms.append((c, self.block("elseif", "else", "end")))
            if self.take("else"):
                other = self.block("end")
            self.want("end")
            return ("if", arms, other)
        if self.take("for"):
            names = [self.name()]
            if self.take("="):
                e = self.exprs()
                self.want("do")
                b = self.block("end")
                self.want("end")
                return ("fornum", names[0], e, b)
            while self.take(","):
                names.append(self.name())
            self.want("in")
            e = self.exprs()
            self.want("do")
            b = self.block("end")
            self.want("end")
            return ("forin", names, e, b)
        if self.take("function"):
            target = ("name", self.name())
            method = False
            while self.peek(".", ":"):
                method = self.take(".", ":") == ":"
                target = ("index", target, ("const", self.name()))
            return ("assign", [target], [self.function(method)])
        if self.take("local"):
            if self.take("function"):
                n = self.name()
                return ("localfunction", n, self.function(False))
            names = [self.name()]
            while True:
                if self.take("<"):
                    self.name()
                    self.want(">")
                if not self.take(","):
                    break
                names.append(self.name())
            return ("local", names, self.exprs() if self.take("=") else [])
        if self.take("return"):
            e = [] if self.peek("end", "else", "elseif", "until", ";") or self.t[self.i][0] == "eof" else self.exprs()
            self.take(";")
            return ("return", e)
        if self.take("break"):
            return ("break",)
        e = self.suffixed()
        if self.peek("=", ","):
            targets = [e]
            while self.take(","):
                targets.append(self.suffixed())
            self.want("=")
            return ("assign", targets, self.exprs())
        if e[0] not in ("call", "method"):
            raise Unsupported(f"line {self.t[self.i][2]}: not a statement")
        return ("expr", e)

    def function(self, method):
        params = ["self"] if method else []
        varargs = False
        self.want("(")
        while not self.take(")"):
            if self.take("..."):
                varargs = True
            else:
                params.append(self.name())
            self.take(",")
        b = self.block("end")
        self.want("end")
        return ("function", params, varargs, b)

    def exprs(self):
        out = [self.expr()]
        while self.take(","):
            out.append(self.expr())
        return out

    def expr(self, limit=0):
        op = self.take("not", "-", "#", "~")
        left = ("unary", op, self.expr(12)) if op else self.simple()
        while True:
            k, s, _ = self.t[self.i]
            if k not in ("kw", "op") or s not in BIN or BIN[s][0] <= limit:
                return left
            self.i += 1
            left = ("binary", s, left, self.expr(BIN[s][1]))

    def simple(self):
        k, s, _ = self.t[self.i]
        if k in ("num", "str"):
            self.i += 1
            return ("const", s)
        if self.take("nil"):
            return ("const", None)
        if self.take("true"):
            return ("const", True)
        if self.take("false"):
            return ("const", False)
        if self.take("..."):
            return ("varargs",)
        if self.take("function"):
            return self.function(False)
        if self.peek("{"):
            return self.table()
        return self.suffixed()

    def table(self):
        self.want("{")
        items = []
        while not self.take("}"):
            if self.take("["):
                k = self.expr()
                self.want("]")
                self.want("=")
                items.append((k, self.expr()))
            elif self.t[self.i][0] == "name" and self.t[self.i + 1][:2] == ("op", "="):
                k = ("const", self.name())
                self.want("=")
                items.append((k, self.expr()))
            else:
                items.append((None, self.expr()))
            self.take(",", ";")
        return ("table", items)

    def suffixed(self):
        if self.take("("):
            e = ("paren", self.expr())
            self.want(")")
        else:
            e = ("name", self.name())
        while True:
            if self.take("."):
                e = ("index", e, ("const", self.name()))
            elif self.take("["):
                e = ("index", e, self.expr())
                self.want("]")
            elif self.take(":"):
                n = self.name()
                e = ("method", e, n, self.args())
            elif self.peek("(", "{") or self.t[self.i][0] == "str":
                e = ("call", e, self.args())
            else:
                return e

    def args(self):
        if self.t[self.i][0] == "str":
            self.i += 1
            return [("const", self.t[self.i - 1][1])]
        if self.peek("{"):
            return [self.table()]
        self.want("(")
        out = []
        if not self.peek(")"):
            out = self.exprs()
        self.want(")")
        return out


class Table:
    def __init__(self):
        self.d = {}

    def get(self, k):
        return self.d.get(k)

    def set(self, k, v):
        if v is None:
            self.d.pop(k, None)
        else:
            self.d[k] = v

    def length(self):
        n = 0
        while n + 1 in self.d:
            n += 1
        return n


class Scope:
    def __init__(self, up=None):
        self.up, self.v = up, {}

    def find(self, n):
        s = self
        while s is not None:
            if n in s.v:
                return s
            s = s.up


class Function:
    def __init__(self, lua, node, scope):
        self.lua, self.node, self.scope = lua, node, scope

    def __call__(self, *args):
        _, params, varargs, body = self.node
        s = Scope(self.scope)
        for i, p in enumerate(params):
            s.v[p] = args[i] if i < len(args) else None
        s.v["..."] = list(args[len(params):]) if varargs else []
        self.lua.depth += 1
        if self.lua.depth > 100:
            raise LuaError("stack overflow")
        try:
            self.lua.run(body, s)
        except Return as r:
            return r.values
        finally:
            self.lua.depth -= 1
        return []


class Return(Exception):
    def __init__(self, values):
        self.values = values


class Break(Exception):
    pass


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def bv(x):
    if isinstance(x, z3.BitVecRef):
        return x
    if isinstance(x, bool) or not isinstance(x, int):
        raise LuaError(f"attempt to perform arithmetic on a {type_name(x)} value")
    return z3.BitVecVal(x, 64)


def type_name(x):
    if x is None:
        return "nil"
    if isinstance(x, (bool, z3.BoolRef)):
        return "boolean"
    if isinstance(x, (int, float, z3.BitVecRef)):
        return "number"
    if isinstance(x, str):
        return "string"
    if isinstance(x, Table):
        return "table"
    if isinstance(x, Function) or getattr(x, "native", False):
        return "function"
    return "userdata"


class Native:
    native = True

    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        r = self.f(*a)
        return r if isinstance(r, list) else [r]


class Lua:
    """`decide` turns a symbolic truth value into one of the two; `known` are global names of the host that are not modelled."""

    def __init__(self, decide, globals_, known=(), max_steps=200000):
        self.decide, self.known, self.left = decide, set(known), max_steps
        self.globals = Table()
        self.globals.d.update(globals_)
        self.lines = set()
        self.depth = 0
        self.line = 0

    def load(self, text):
        block = Parser(text).block()
        try:
            self.run(block, Scope())
        except Return:
            pass

    def truth(self, x):
        if isinstance(x, z3.BoolRef):
            return self.decide(x)
        return x is not None and x is not False

    def run(self, block, scope):
        for line, s in block:
            self.left -= 1
            if self.left < 0:
                raise LuaError("the script does not end")
            self.line = line
            self.lines.add(line)
            getattr(self, "s_" + s[0])(s, scope)

    def s_do(self, s, scope):
        self.run(s[1], Scope(scope))

    def s_while(self, s, scope):
        try:
            while self.truth(self.one(s[1], scope)):
                self.left -= 1
                if self.left < 0:
                    raise LuaError("the script does not end")
                self.run(s[2], Scope(scope))
        except Break:
            pass

    def s_repeat(self, s, scope):
        try:
            while True:
                inner = Scope(scope)
                self.run(s[1], inner)
                if self.truth(self.one(s[2], inner)):
                    return
        except Break:
            pass

    def s_if(self, s, scope):
        for c, b in s[1]:
            if self.truth(self.one(c, scope)):
                return self.run(b, Scope(scope))
        self.run(s[2], Scope(scope))

    def s_fornum(self, s, scope):
        v = [self.one(e, scope) for e in s[2]]
        a, b, step = v[0], v[1], v[2] if len(v) > 2 else 1
        try:
            while self.truth(self.binary("<=", a, b) if step > 0 else self.binary("<=", b, a)):
                inner = Scope(scope)
                inner.v[s[1]] = a
                self.run(s[3], inner)
                a = self.binary("+", a, step)
                self.left -= 1
                if self.left < 0:
                    raise LuaError("the script does not end")
        except Break:
            pass

    def s_forin(self, s, scope):
        f, st, c = (self.many(s[2], scope) + [None] * 3)[:3]
        try:
            while True:
                r = self.call(f, [st, c])
                if not r or r[0] is None:
                    return
                c = r[0]
                inner = Scope(scope)
                for i, n in enumerate(s[1]):
                    inner.v[n] = r[i] if i < len(r) else None
                self.run(s[3], inner)
        except Break:
            pass

    def s_local(self, s, scope):
        v = self.many(s[2], scope)
        for i, n in enumerate(s[1]):
            scope.v[n] = v[i] if i < len(v) else None

    def s_localfunction(self, s, scope):
        scope.v[s[1]] = None
        scope.v[s[1]] = self.one(s[2], scope)

    def s_return(self, s, scope):
        raise Return(self.many(s[1], scope))

    def s_break(self, s, scope):
        raise Break

    def s_expr(self, s, scope):
        self.eval(s[1], scope)

    def s_assign(self, s, scope):
        v = self.many(s[2], scope)
        for i, t in enumerate(s[1]):
            x = v[i] if i < len(v) else None
            if t[0] == "name":
                f = scope.find(t[1])
                if f is None:
                    self.globals.set(t[1], x)
                else:
                    f.v[t[1]] = x
            elif t[0] == "index":
                self.set_index(self.one(t[1], scope), self.one(t[2], scope), x)
            else:
                raise Unsupported("cannot assign to this")

    def many(self, exprs, scope):
        out = []
        for i, e in enumerate(exprs):
            v = self.eval(e, scope)
            out += v if i == len(exprs) - 1 else (v[:1] or [None])
        return out

    def one(self, e, scope):
        v = self.eval(e, scope)
        return v[0] if v else None

    def eval(self, e, scope):
        k = e[0]
        if k == "const":
            return [e[1]]
        if k == "name":
            f = scope.find(e[1])
            if f is not None:
                return [f.v[e[1]]]
            v = self.globals.get(e[1])
            if v is None and e[1] in self.known:
                raise Unsupported(f"`{e[1]}` is not modelled")
            return [v]
        if k == "paren":
            return [self.one(e[1], scope)]
        if k == "varargs":
            f = scope.find("...")
            return list(f.v["..."]) if f else []
        if k == "function":
            return [Function(self, e, scope)]
        if k == "index":
            return [self.index(self.one(e[1], scope), self.one(e[2], scope), e[1])]
        if k == "call":
            f = self.one(e[1], scope)
            return self.call(f, self.many(e[2], scope), e[1])
        if k == "method":
            o = self.one(e[1], scope)
            f = self.index(o, e[2], e[1])
            return self.call(f, [o] + self.many(e[3], scope), ("const", e[2]))
        if k == "table":
            t, n = Table(), 0
            for i, (key, val) in enumerate(e[1]):
                if key is not None:
                    t.set(self.one(key, scope), self.one(val, scope))
                else:
                    vs = self.eval(val, scope) if i == len(e[1]) - 1 else [self.one(val, scope)]
                    for v in vs:
                        n += 1
                        t.set(n, v)
            return [t]
        if k == "unary":
            return [self.unary(e[1], self.one(e[2], scope))]
        if k == "binary":
            op = e[1]
            a = self.one(e[2], scope)
            if op == "and":
                return [self.one(e[3], scope) if self.truth(a) else a]
            if op == "or":
                return [a if self.truth(a) else self.one(e[3], scope)]
            return [self.binary(op, a, self.one(e[3], scope))]
        raise Unsupported(k)

    def describe(self, e):
        return f" ('{e[1]}')" if e and e[0] in ("name", "const") else ""

    def index(self, o, k, what=None):
        if isinstance(o, Table):
            return o.get(self.key(k))
        if isinstance(o, str):
            raise Unsupported("methods of strings")
        if o is None or isinstance(o, (bool, int, float)) or is_sym(o) or isinstance(o, Function):
            raise LuaError(f"attempt to index a {type_name(o)} value{self.describe(what)}")
        return o.index(k)

    def key(self, k):
        if is_sym(k):
            raise Unsupported("a table is indexed with an unknown value")
        return int(k) if isinstance(k, float) and k.is_integer() else k

    def set_index(self, o, k, v):
        if isinstance(o, Table):
            return o.set(self.key(k), v)
        if o is None or not hasattr(o, "set_index"):
            raise LuaError(f"attempt to index a {type_name(o)} value")
        o.set_index(k, v)

    def call(self, f, args, what=None):
        if callable(f):
            return f(*args)
        raise LuaError(f"attempt to call a {type_name(f)} value{self.describe(what)}")

    def unary(self, op, a):
        if op == "not":
            return z3.Not(a) if isinstance(a, z3.BoolRef) else not self.truth(a)
        if op == "#":
            if isinstance(a, str):
                return len(a)
            if isinstance(a, Table):
                return a.length()
            raise LuaError(f"attempt to get length of a {type_name(a)} value")
        if op == "-":
            return -bv(a) if is_sym(a) else -self.number(a)
        raise Unsupported(op)

    def number(self, x):
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            raise LuaError(f"attempt to perform arithmetic on a {type_name(x)} value")
        return x

    def binary(self, op, a, b):
        sym = is_sym(a) or is_sym(b)
        if op in ("==", "~="):
            if sym:
                if type_name(a) != type_name(b):
                    r = False
                elif type_name(a) == "boolean":
                    r = (a if is_sym(a) else z3.BoolVal(a)) == (b if is_sym(b) else z3.BoolVal(b))
                else:
                    r = bv(a) == bv(b)
            else:
                r = a is b or (type_name(a) == type_name(b) and type_name(a) in ("number", "string", "boolean") and a == b)
            return r if op == "==" else (z3.Not(r) if is_sym(r) else not r)
        if op == "..":
            if sym:
                return "?"
            for x in (a, b):
                if isinstance(x, bool) or not isinstance(x, (str, int, float)):
                    raise LuaError(f"attempt to concatenate a {type_name(x)} value")
            return f"{a}{b}"
        if op in ("<", "<=", ">", ">="):
            if not sym and isinstance(a, str) and isinstance(b, str):
                pass
            elif type_name(a) != "number" or type_name(b) != "number":
                raise LuaError(f"attempt to compare {type_name(a)} with {type_name(b)}")
            elif sym:
                a, b = bv(a), bv(b)
            return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()
        if sym:
            a, b = bv(a), bv(b)
            if op in ("+", "-", "*"):
                return {"+": a + b, "-": a - b, "*": a * b}[op]
            if op in ("&", "|", "~"):
                return {"&": a & b, "|": a | b, "~": a ^ b}[op]
            if op in ("<<", ">>"):
                return a << b if op == "<<" else z3.LShR(a, b)
            raise Unsupported(f"{op} of unknown values")
        a, b = self.number(a), self.number(b)
        try:
            if op in ("&", "|", "~", "<<", ">>"):
                a, b = int(a), int(b)
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b,
                    "^": lambda: float(a) ** b, "&": lambda: a & b, "|": lambda: a | b, "~": lambda: a ^ b,
                    "<<": lambda: (a << b) & (2 ** 64 - 1), ">>": lambda: (a & (2 ** 64 - 1)) >> b}[op]()
        except ZeroDivisionError:
            raise LuaError("division by zero")
