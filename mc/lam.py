"""Model of the lambda language: tokens -> value. Independent of the implementation's grammar: a precedence table and a
type system. Values: ('D', float), ('T', µs), ('I', µs), ('B', bool), ('P', [values])."""
import math
import pipe as P


class LErr(Exception):
    pass


class Unspec(Exception):
    pass


US = 1_000_000
MAXT = 9223371331200000000 - 946684800000000 * 0
PREC = {"or": (1, "L"), "and": (2, "L"), "=": (3, "L"), "!=": (3, "L"), "<>": (3, "L"), "<": (3, "L"), "<=": (3, "L"), ">": (3, "L"), ">=": (3, "L"),
        "+": (4, "L"), "-": (4, "L"), "*": (5, "L"), "/": (5, "L"), "^": (6, "R")}


def _g(f):
    def h(*a):
        if any(math.isnan(x) for x in a):
            return math.nan
        try:
            return f(*a)
        except ValueError:
            return math.nan
        except OverflowError:
            return math.inf
    return h


def atanh(x):
    return math.copysign(math.inf, x) if abs(x) == 1 else math.atanh(x)


def sinh(x):
    try:
        return math.sinh(x)
    except OverflowError:
        return math.copysign(math.inf, x)


def trig(f):
    return lambda x: math.nan if math.isinf(x) else f(x)


FN = {"abs": (1, abs), "cbrt": (1, _g(math.cbrt)), "ceil": (1, P.UNARY["ceil"]), "floor": (1, P.UNARY["floor"]), "ln": (1, P._ln), "log10": (1, P._log10),
      "log": (2, P.logn), "pi": (0, lambda: math.pi), "round": (1, P.rnd), "sign": (1, P.sign), "sqrt": (1, P.sqrt), "trunc": (1, P.UNARY["trunc"]),
      "acos": (1, _g(math.acos)), "asin": (1, _g(math.asin)), "atan": (1, _g(math.atan)), "atan2": (2, _g(math.atan2)), "cos": (1, _g(trig(math.cos))),
      "sin": (1, _g(trig(math.sin))), "tan": (1, _g(trig(math.tan))), "sinh": (1, _g(sinh)), "cosh": (1, _g(math.cosh)), "tanh": (1, _g(math.tanh)),
      "asinh": (1, _g(math.asinh)), "acosh": (1, _g(math.acosh)), "atanh": (1, _g(atanh))}


# parsed expressions are (type, thunk(env)); type: 'D' 'T' 'I' 'B' or a tuple of types
class Parser:
    """tokens: numbers are floats, ('T', µs) and ('I', µs) constants, '$value', '$time', '$name', operators, 'let', 'fn(' ..."""

    def __init__(self, toks):
        self.t, self.i, self.vars, self.depth = toks, 0, {}, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, *what):
        x = self.peek()
        if x is None or what and x not in what:
            raise LErr(f"expected {what}")
        self.i += 1
        return x

    def all(self):
        e = self.let()
        if self.peek() is not None:
            raise LErr("trailing")
        return e

    def let(self):
        mine = []
        while self.peek() == "let":
            self.take()
            n = self.take()
            if not (isinstance(n, str) and n.startswith("$")):
                raise LErr("name")
            self.take("=")
            e = self.tuple()
            self.take(";")
            if n in ("$value", "$time"):
                raise Unspec("redefined")
            if n in self.vars:
                if n in mine:
                    self.dup = True
                    raise LErr("duplicate")
                raise Unspec("shadowed")
            mine.append(n)
            self.vars[n] = (e, self.depth)
        r = self.tuple()
        for n in mine:
            if self.depth:
                self.vars[n] = (None, None)      # what it means outside of its parentheses is not specified
        return r

    def tuple(self):
        es = [self.binops()]
        while self.peek() == ",":
            self.take()
            es.append(self.binops())
        if len(es) == 1:
            return es[0]
        return tuple(e[0] for e in es), lambda env: [e[1](env) for e in es]

    def binops(self, least=1):
        l = self.unary()
        while True:
            op = self.peek()
            if not (isinstance(op, str) and op in PREC and PREC[op][0] >= least):
                return l
            self.take()
            p, assoc = PREC[op]
            r = self.binops(p + 1 if assoc == "L" else p)
            l = binary(op, l, r)

    def unary(self):
        x = self.take()
        if x == "-":
            e = self.unary()
            return self.check(e, "D", lambda v: -v)
        if x == "not":
            e = self.unary()
            return self.check(e, "B", lambda v: not v)
        if isinstance(x, float):
            return "D", lambda env: x
        if isinstance(x, tuple):
            return x[0], lambda env: x[1]
        if x == "$value":
            return "D", lambda env: env[1]
        if x == "$time":
            return "T", lambda env: env[0]
        if x == "(":
            self.depth += 1
            e = self.let()
            self.depth -= 1
            self.take(")")
            return e
        if x.endswith("("):
            args = []
            while self.peek() != ")":
                args.append(self.binops())
                if self.peek() == ",":
                    self.take()
                else:
                    break
            self.take(")")
            return call(x[:-1], args)
        if x.startswith("$"):
            if x not in self.vars:
                raise TypeErr("unknown")
            e = self.vars[x][0]
            if e is None:
                raise Unspec("scope")
            return e
        raise LErr(x)

    def check(self, e, ty, f):
        if e[0] != ty:
            raise TypeErr(ty)
        return ty, lambda env: f(e[1](env))


class TypeErr(LErr):
    pass


def call(name, args):
    if name not in FN or len(args) != FN[name][0] or any(a[0] != "D" for a in args):
        raise TypeErr(name)
    f = FN[name][1]
    return "D", lambda env: f(*[a[1](env) for a in args])


def tcheck(v):
    if not -211813488000000000 <= v < 9223371331200000000:
        raise LErr("out of range")
    return v


def iround(x):
    if math.isnan(x) or abs(x) >= 9.2e18:
        raise LErr("interval")
    return round(x)


def cmp(ty, a, b):
    """-1, 0, 1 or None"""
    if isinstance(ty, tuple):
        for t, x, y in zip(ty, a, b):
            c = cmp(t, x, y)
            if c != 0:
                return c
        return 0
    if ty == "D" and (math.isnan(a) or math.isnan(b)):
        return None
    return (a > b) - (a < b)


def eq(ty, a, b):
    return all(eq(t, x, y) for t, x, y in zip(ty, a, b)) if isinstance(ty, tuple) else cmp(ty, a, b) == 0


def pow_(a, b):
    try:
        return P.power(a, b)
    except ZeroDivisionError:
        return math.inf


def binary(op, l, r):
    (tl, fl), (tr, fr) = l, r
    k = (tl, tr)
    both = lambda f: lambda env: f(fl(env), fr(env))
    if op in ("and", "or"):
        if k != ("B", "B"):
            raise TypeErr(op)
        return ("B", lambda env: fl(env) and fr(env)) if op == "and" else ("B", lambda env: fl(env) or fr(env))
    if op in ("=", "!=", "<>", "<", "<=", ">", ">="):
        if tl != tr:
            raise TypeErr(op)
        if op == "=":
            return "B", both(lambda a, b: eq(tl, a, b))
        if op in ("!=", "<>"):
            return "B", both(lambda a, b: not eq(tl, a, b))
        ok = {"<": (-1,), "<=": (-1, 0), ">": (1,), ">=": (1, 0)}[op]
        return "B", both(lambda a, b: cmp(tl, a, b) in ok)
    if k == ("D", "D"):
        return "D", both({"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": P.div, "^": pow_}[op])
    if op in "+-" and k in (("T", "I"), ("I", "I")):
        s = 1 if op == "+" else -1
        return tl, both(lambda a, b: tcheck(a + s * b) if tl == "T" else a + s * b)
    if op == "*" and k == ("I", "D"):
        return "I", both(lambda a, b: iround(a * b))
    if op == "*" and k == ("D", "I"):
        return "I", both(lambda a, b: iround(a * b))
    if op == "/" and k == ("I", "D"):
        def div(a, b):
            if b == 0:
                raise LErr("division by zero")
            return iround(a / b)
        return "I", both(div)
    raise TypeErr(op)


def evaluate(toks, time, value):
    """(type, value), or None for an error; Unspec where the language leaves it open"""
    try:
        ty, f = Parser(list(toks)).all()
        return ty, f((time, value))
    except LErr:
        return None
