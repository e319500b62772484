"""C34: a lambda expression means what its grammar, precedence and types say, on every row, and anything else is an error."""
import os, sys, itertools, math, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, lit, fl, ts
import lam as L, tv as V, pipe as P

S = 1_000_000
TE = "toolkit_experimental."
EPOCH = 946684800000000


def clock(us):
    return f"{us // (3600 * S):02d}:{us // (60 * S) % 60:02d}:{us / S % 60:09.6f}"


def tok(x):
    if isinstance(x, float):
        return repr(x) if x % 1 else str(int(x))
    if isinstance(x, tuple):
        return f"'2000-01-01 {clock(x[1])}+00't" if x[0] == "T" else f"'{x[1]} us'i"
    return x


def text(toks, style=0):
    w = [tok(x) for x in toks]
    if style == 1:
        w = [x.upper() if x in ("and", "or", "not", "$value", "$time") else x for x in w]
        return "\n\t" + "\n".join(w) + " \n"
    if style == 2:
        out = ""
        for x in w:
            if out and (out[-1].isalnum() or out[-1] in "._'") and (x[0].isalnum() or x[0] in "._'$"):
                out += " "
            out += x
        return out
    return " ".join(w)


def query(exp, lam, time, value):
    """a query giving the lambda's value as text, by the type that the model expects"""
    a = f"({lit(lam)}, {lit(ts(time))}::timestamptz, {lit(fl(value))}::float8)"
    if exp is None:
        return f"SELECT string_agg(x, '|') FROM {TE}trace_lambda{a} x"
    ty = exp[0]
    if ty == "D":
        return f"SELECT {TE}f64_lambda{a}::text"
    if ty == "B":
        return f"SELECT {TE}bool_lambda{a}::text"
    if ty == "T":
        return f"SELECT (extract(epoch FROM {TE}ttz_lambda{a}) * 1000000 - {EPOCH})::bigint::text"
    if ty == "I":
        return f"SELECT (extract(epoch FROM {TE}interval_lambda{a}) * 1000000)::bigint::text"
    return f"SELECT x FROM {TE}trace_lambda{a} WITH ORDINALITY y(x, o) ORDER BY o DESC LIMIT 1"


def deb(ty, v):
    if ty == "D":
        return f"Double({v!r})"
    if ty == "B":
        return f"Bool({str(v).lower()})"
    if ty == "T":
        return f"Time({v})"
    if ty == "I":
        return "Interval("
    return "Tuple([" + ", ".join(deb(t, x) for t, x in zip(ty, v)) + "])"


def agrees(exp, got):
    if exp is None:
        return got.startswith("ERR")
    if got.startswith("ERR"):
        return False
    ty, v = exp
    if ty == "D":
        g = float(got)
        return V.same(v, g, 1e-13) or abs(v) < 1e-300 and abs(g) < 1e-300 or abs(v) < 1e-15 and abs(g) < 1e-15
    if ty == "B":
        return got == ("true" if v else "false")
    if ty in ("T", "I"):
        return int(got) == v
    g = re.sub(r"Interval\(0x[0-9a-f]+\)", "Interval(", got.split(': "', 1)[1].rstrip('"'))
    nums = lambda s: [float(x.replace("inf", "inf")) for x in re.findall(r"Double\((-?[^)]*)\)", s)]
    want = deb(ty, v)
    strip = lambda s: re.sub(r"Double\([^)]*\)", "Double", s)
    return strip(g) == strip(want) and all(V.same(a, b, 1e-13) for a, b in zip(nums(want), nums(g)))


def run(chk):
    chk.start_pg()
    ask = lambda conn, qs: [r[0] if r[0] is not None else "(null)" for r in conn.q("SELECT mctry(x) FROM unnest(ARRAY[" + ",".join(lit(x) for x in qs) + "]) WITH ORDINALITY y(x, o) ORDER BY o")]

    def progs(name, cases, envs, styles=(0,), chunk=400):
        def work(conn, part, out):
            qs, meta = [], []
            for toks in part:
                for e in envs:
                    try:
                        exp = L.evaluate(toks, *e)
                    except L.Unspec:
                        continue
                    for st in styles:
                        t = text(toks, st)
                        qs.append(query(exp, t, *e))
                        meta.append((t, e, exp))
                    if exp is None:
                        break
            for (t, e, exp), g in zip(meta, ask(conn, qs) if qs else []):
                out.trace({"lambda": t, "row": e}, steps=len(t.split()), state=(t, e))
                if not agrees(exp, g):
                    out.violation({"lambda": t, "time, value": e}, "an error" if exp is None else str(exp), g)
        chk.explore(name, cases, work, chunk=chunk)

    ENV = [(5 * S, 3.0), (0, -0.5)]
    A = ["$value", 2.0, "$time", ("I", S), "(", ")", ",", "-", "+", "*", "<", "=", "and", "not", "LET", "$x", ";", "abs(", "pi("]
    ex = lambda c: tuple(y for x in c for y in (["let", "$x", "="] if x == "LET" else [x]))
    progs("all token strings of up to 4 tokens", [ex(c) for n in range(0, 5) for c in itertools.product(A, repeat=n)], ENV[:1])
    if chk.thorough:
        B = ["$value", 2.0, "$time", ("I", S), "(", ")", ",", "-", "*", "<", "not", "LET", "$x", ";", "abs("]
        progs("all token strings of 5 tokens", [ex(c) for c in itertools.product(B, repeat=5)], ENV[:1])

    OPS = list(L.PREC)
    BT, BF = ("(", 1.0, "<", 2.0, ")"), ("(", "$value", "<", 2.0, ")")
    DL = [(2.0,), ("$value",), (3.0,), (0.5,)]
    BL = [BF, BT, BF, BF]
    cases = []
    for ops in itertools.product(OPS, repeat=3):
        for ty in itertools.product("DB", repeat=4):
            c = []
            for i, t in enumerate(ty):
                c += (DL if t == "D" else BL)[i]
                if i < 3:
                    c.append(ops[i])
            cases.append(tuple(c))
    progs("precedence: three operators", cases, ENV)
    LEAF = {"D": [(2.0,), ("$value",), (0.5,)], "B": [BF, BT, BF], "T": [("$time",), (("T", 7 * S),), ("$time",)], "I": [(("I", 2 * S),), (("I", 300),), (("I", -5 * S),)], "P": [("(", "$value", ",", 1.0, ")"), ("(", 2.0, ",", "$value", ")"), ("(", 2.0, ",", "$time", ")")]}
    cases = []
    for ops in itertools.product(OPS, repeat=2):
        for ty in itertools.product("DBTIP", repeat=3):
            cases.append(LEAF[ty[0]][0] + (ops[0],) + LEAF[ty[1]][1] + (ops[1],) + LEAF[ty[2]][2])
    progs("types: two operators", cases, ENV, styles=(0, 1, 2))
    cases = []
    for ops in itertools.product(OPS, repeat=2):
        for pre in itertools.product(((), ("-",), ("not",)), repeat=3):
            for ty in ("DDD", "DDB", "BBB", "BDD"):
                cases.append(pre[0] + LEAF[ty[0]][0] + (ops[0],) + pre[1] + LEAF[ty[1]][1] + (ops[1],) + pre[2] + LEAF[ty[2]][2])
    progs("prefix operators", cases, ENV, styles=(0, 2))
    cases = []
    for ops in itertools.product(OPS, repeat=3):
        for ty in ("DDDD", "DDBB", "BBDD"):
            l = [LEAF[t][min(i, 2)] for i, t in enumerate(ty)]
            cases.append(("(",) + l[0] + (ops[0],) + l[1] + (")", ops[1], "(") + l[2] + (ops[2],) + l[3] + (")",))
            cases.append(l[0] + (ops[0], "(") + l[1] + (ops[1], "(") + l[2] + (ops[2],) + l[3] + (")", ")"))
    progs("parentheses", cases, ENV[:1])

    # comparisons of all kinds of values, tuples element by element
    NUM = [math.nan, -math.inf, -1.0, -0.0, 0.0, 1.0, math.inf]
    D = {math.inf: ("ln", 0), }

    def num(v):
        if math.isnan(v):
            return ("(", 0.0, "/", 0.0, ")")
        if math.isinf(v):
            return ("(", 1.0, "/", 0.0, ")") if v > 0 else ("(", "-", 1.0, "/", 0.0, ")")
        return ("(", "-", abs(v), ")") if math.copysign(1, v) < 0 else (v,)
    CMP = ["=", "!=", "<>", "<", "<=", ">", ">="]
    cases = [num(a) + (o,) + num(b) for a in NUM for b in NUM for o in CMP + ["+", "-", "*", "/", "^"]]
    cases += [("(",) + num(a) + (",",) + num(b) + (")", o, "(") + num(c) + (",",) + num(d) + (")",) for a, b, c, d in itertools.product((math.nan, 0.0, 1.0), repeat=4) for o in CMP]
    tup = lambda *xs: ("(",) + tuple(y for i, x in enumerate(xs) for y in ((",",) if i else ()) + x) + (")",)
    els = [(1.0,), ("$value",), ("$time",), (("T", 5 * S),), (("I", S),), BT, BF]
    cases += [tup(a, b) + (o,) + tup(c, d) for a, b, c, d in itertools.product(els, repeat=4) for o in ("=", "<=", ">", "!=")]
    cases += [tup(*c) + (o,) + tup(*d) for n in (2, 3) for m in (2, 3) for c in itertools.product(((1.0,), (2.0,)), repeat=n) for d in itertools.product(((1.0,), (2.0,)), repeat=m) for o in CMP]
    progs("comparisons", cases, ENV)

    # functions
    VALS = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, -2.5, 2.0, 10.0, 100.0, 1e10, -1e300, 1e300, 5e-324, math.inf, -math.inf, math.nan]
    cases = [(f + "(", "$value", ")") for f in L.FN]
    progs("functions of one argument", cases, [(0, v) for v in VALS], styles=(0, 2))
    cases = [(f + "(",) + num(a) + (",",) + num(b) + (")",) for f in ("log", "atan2") for a in VALS[:12] + [math.inf, math.nan] for b in VALS[:12] + [math.inf, math.nan]]
    progs("functions of two arguments", cases, ENV[:1])
    args = [("$value",), (2.0,), ("$time",), BT, (("I", S),), tup((1.0,), (2.0,))]
    cases = []
    for f in list(L.FN) + ["ABS", "Sqrt", "foo", "exp", "sqrt2", "p", "atan3"]:
        for n in range(4):
            for a in itertools.product(args if n < 3 else args[:2], repeat=n):
                c = [f + "("]
                for i, x in enumerate(a):
                    c += ([","] if i else []) + list(x)
                cases.append(tuple(c + [")"]))
                if n:
                    cases.append(tuple(c + [",", ")"]))
        cases += [(f + "(", ",", ")"), (f + "(", "$value"), (f + "(", "$value", ",", ",", "$value", ")"), (f,) if f not in ("p",) else (f + "(",)]
    progs("arguments", [c for c in cases if not isinstance(c[0], str) or c[0].endswith("(")], ENV[:1])
    cases = [(f + "(", g + "(", "$value", ")", ")") for f in L.FN for g in L.FN]
    progs("nested functions", cases, [(0, 0.5), (0, -2.0)])

    # variables: up to three, used or not, in any order; names of any kind
    E1 = [(2.0,), ("$value",), ("$value", "+", 1.0), ("$time",), BF, tup((1.0,), ("$value",))]
    E2 = [("$a", "*", 2.0), ("$a",), (1.0,), ("$a", "=", "$a"), ("$b",)]
    E3 = [("$a",), ("$b",), ("$a", "+", "$b"), ("$b", "-", "$a", "*", "$a"), ("$a", "=", "$b"), ("$a", ",", "$b"), ("$time", ",", "$a"), ("$c",), ("(", "$b", ")"), ("-", "$b")]
    cases = [("let", "$a", "=") + a + (";", "let", n, "=") + b + (";",) + c for a in E1 for b in E2 for c in E3 for n in ("$b", "$a")]
    cases += [("(", "let", "$a", "=") + a + (";",) + c + (")",) + d for a in E1 for c in E3[:2] for d in ((), ("+", 1.0), ("*", "$value"))]
    cases += [("let", "$a", "=", "(", "let", "$b", "=") + a + (";", "$b", ")", ";", "$a") for a in E1]
    cases += [("let", "$a", "=", 1.0, ";"), ("let", "$a", 1.0, ";", "$a"), ("let", "$a", "=", 1.0, "$a"), ("let", "a", "=", 1.0, ";", "$value"), ("$a",), ("let", "$a", "=", "$a", ";", "$a"),
              ("let", "$a", "=", ("I", S), "/", 0.0, ";", "$value"), ("let", "$a", "=", ("I", S), "/", 0.0, ";", "$value", ">", 100.0, "and", "$a", "=", ("I", S)), ("let", "$a", "=", ("I", S), "/", 0.0, ";", "$a")]
    NAMES = ["$b1", "$_", "$1", "$A", "$value2", "$values", "$value_", "$time2", "$times", "$TimeX", "$Value1", "$let", "$and", "$notx", "$or", "$x" * 1 + "y" * 60]
    for n in NAMES:
        cases += [("let", n, "=", 7.0, ";", n, "+", "$value"), ("let", n, "=", 7.0, ";", "$value", "*", n), ("let", n, "=", 7.0, ";", "-", n, "^", 2.0), ("let", n, "=", 7.0, ";", "let", n + "z", "=", 8.0, ";", n, "-", n + "z"), (n,)]
    # three to five variables, each its own value, used in every order
    for n, uses in ((3, 4), (4, chk.pick(3, 4)), (5, 3)):
        for refs in itertools.product(*[[None] + list(range(i)) for i in range(n)]) if n < 4 or chk.thorough else [tuple([None] * n), (None, 0, 1, 2, 3)[:n], (None, 0, None, 0, 2)[:n]]:
            lets = ()
            for i, r in enumerate(refs):
                lets += ("let", "$" + "pqrst"[i], "=") + (("$value",) if r is None else ("$" + "pqrst"[r],)) + ("+", float(10 ** i), ";")
            for u in itertools.product(range(n), repeat=uses):
                c = lets
                for k, x in enumerate(u):
                    c += (("+",) if k else ()) + (float(3 ** k), "*", "$" + "pqrst"[x])
                cases.append(c)
    progs("variables", cases, ENV, styles=(0, 1, 2))

    # the same programs over several rows: nothing is carried from one row to the next
    ROWS = [(0, 1.0), (4 * S, -3.0), (5 * S, 0.5), (6 * S, 1.0)]

    def work_m(conn, part, out):
        qs, meta = [], []
        tv = V.text([(t, v) for t, v in ROWS])
        for toks in part:
            try:
                exp = [L.evaluate(toks, t, v) for t, v in ROWS]
            except L.Unspec:
                continue
            tt = text(toks)
            if any(e is None for e in exp):
                w = None
                kinds = ("map", "filter")
            else:
                ty = exp[0][0]
                kinds = ("map",) if ty in ("D", ("T", "D")) else ("filter",) if ty == "B" else ()
                w = [(t, e[1]) for (t, v), e in zip(ROWS, exp)] if ty == "D" else [tuple(e[1]) for e in exp] if ty == ("T", "D") else [r for r, e in zip(ROWS, exp) if e[1]]
                if ty == ("T", "D") and "," not in toks:
                    continue
            for k in kinds:
                qs.append(f"SELECT ({lit(tv)}::timevector_tstz_f64 -> {TE}{k}($mc${tt}$mc$))::text")
                meta.append((k, tt, w))
        for (k, tt, w), g in zip(meta, ask(conn, qs) if qs else []):
            out.trace({k: tt}, steps=len(ROWS), state=(k, tt))
            if w is None:
                bad = not g.startswith("ERR")
            elif g.startswith("ERR"):
                bad = True
            else:
                m = V.parse(g, strict=False)
                bad = isinstance(m, str) or len(m.pts) != len(w) or any(a[0] != b[0] or not V.same(a[1], b[1], 1e-13) for a, b in zip(w, m.pts))
            if bad:
                out.violation({k: tt, "rows": ROWS}, str(w), g)
    more = [c for c in cases]
    for ops in itertools.product(OPS, repeat=2):
        for a in (("$a",), ("$value",)):
            more.append(("let", "$a", "=", "$value", "*", 2.0, ";") + a + (ops[0], "$value", ops[1], "$a"))
    for a in E1:
        for k in E3:
            more.append(("let", "$b", "=", "$value", ";", "let", "$a", "=") + a + (";",) + k)
    chk.explore("variables over several rows", more, work_m, chunk=60)

    # literals, judged by PostgreSQL's own reading of them
    lits = []
    for n in ("0", "1", "007", "1.", "1.5", "1.5e3", "1e3", "1E3", "1.e3", "1e-3", "1e+3", "+5", "-5", "+1.25e2", "123456789012345678901234567890", "0.1", "1e400", "1e-400", "9007199254740993"):
        lits.append((f"SELECT {TE}f64_lambda({lit(n)}, now(), 0)::text", repr(float(n)), "f"))
    for n in (".5", "1e", "1.5.2", "1,", "0x10", "1_000", "e5", "inf", "nan", "--", "1 2", "$", "'a'", "''t", "''i", "'x't", "'x'i", "'1 s't i", "'1 s' i", "'1 s'I", "1;", "let", "let;", "()", "(,)", "1 +", "$value $value", "$value; ", "# ", "\\", "\"1\"", "1 == 2", "1 => 2", "1 && 2", "!(1<2)", "1 % 2", "é", "'2020-01-01'", "'1 s'i'1 s'i"):
        lits.append((f"SELECT string_agg(x, '|') FROM {TE}trace_lambda({lit(n)}, now(), 0) x", None, "e"))
    TIMES = ["2020-01-01", "2020-02-29 12:34:56.789012+03", "1999-12-31 23:59:59.999999 UTC", "infinity", "-infinity", "4713-01-01 BC", "294276-12-31 23:59:59 UTC", "Jan 5 2021 04:00 PST", "2020-06-15 10:00 America/New_York", "epoch"]
    IVS = ["1 s", "1 day", "24 hours", "1 mon", "30 days", "-1 mon 3 days", "1 year 2 mons -5 days 04:05:06.789", "-00:00:00.000001", "0", "1.5 days", "P1Y2M", "1 week", "178000000 years", "@ 1 minute ago"]
    for t in TIMES:
        lits.append((f"SELECT {TE}ttz_lambda({lit(chr(39) + t + chr(39) + 't')}, now(), 0)::text", f"SELECT {lit(t)}::timestamptz::text", "q"))
        for t2 in TIMES:
            for o in CMP:
                lits.append((f"SELECT {TE}bool_lambda($$'{t}'t {o} '{t2}'t$$, now(), 0)::text", f"SELECT ({lit(t)}::timestamptz {o} {lit(t2)}::timestamptz)::text", "q"))
    for iv in IVS:
        lits.append((f"SELECT {TE}interval_lambda($$'{iv}'i$$, now(), 0)::text", f"SELECT {lit(iv)}::interval::text", "q"))
        for t in TIMES:
            for o in "+-":
                lits.append((f"SELECT {TE}ttz_lambda($$'{t}'t {o} '{iv}'i$$, now(), 0)::text", f"SELECT ({lit(t)}::timestamptz {o} {lit(iv)}::interval)::text", "q"))
                lits.append((f"SELECT {TE}ttz_lambda($$let $i = '{iv}'i; $time {o} $i {o} $i$$, {lit(t)}, 0)::text", f"SELECT ({lit(t)}::timestamptz {o} {lit(iv)}::interval {o} {lit(iv)}::interval)::text", "q"))
        for i2 in IVS:
            for o in CMP:
                lits.append((f"SELECT {TE}bool_lambda($$'{iv}'i {o} '{i2}'i$$, now(), 0)::text", f"SELECT ({lit(iv)}::interval {o} {lit(i2)}::interval)::text", "q"))
            for o in "+-":
                lits.append((f"SELECT {TE}interval_lambda($$'{iv}'i {o} '{i2}'i$$, now(), 0)::text", f"SELECT ({lit(iv)}::interval {o} {lit(i2)}::interval)::text", "q"))
        for x in (0.0, 1.0, -1.0, 0.5, 1.1, -2.7, 1e-3, 12.0, 1e5, 1e15, math.inf, math.nan):
            lits.append((f"SELECT {TE}interval_lambda($$'{iv}'i * $value$$, now(), {lit(fl(x))})::text", f"SELECT ({lit(iv)}::interval * {lit(fl(x))}::float8)::text", "q"))
            lits.append((f"SELECT {TE}interval_lambda($$$value * '{iv}'i$$, now(), {lit(fl(x))})::text", f"SELECT ({lit(fl(x))}::float8 * {lit(iv)}::interval)::text", "q"))
            lits.append((f"SELECT {TE}interval_lambda($$'{iv}'i / $value$$, now(), {lit(fl(x))})::text", f"SELECT ({lit(iv)}::interval / {lit(fl(x))}::float8)::text", "q"))

    def work_l(conn, part, out):
        qs = []
        for a, b, k in part:
            qs += [a] + ([b] if k == "q" else [])
        got = iter(ask(conn, qs))
        for a, b, k in part:
            g = next(got)
            out.trace(a, steps=1, state=a)
            if k == "q":
                w = next(got)
                if g != w and not (g.startswith("ERR") and w.startswith("ERR")):
                    out.violation({"query": a}, w, g)
            elif k == "e":
                if not g.startswith("ERR"):
                    out.violation({"query": a}, "an error", g)
            elif g.startswith("ERR") or not V.same(float(b), float(g), 0):
                out.violation({"query": a}, b, g)
    chk.explore("literals and time arithmetic", lits, work_l, chunk=100)

    # text form, and expressions of any size: a value or an error, never a crash
    big = []
    for n in (10, 100, 199, 200, 201, 999, 1000, 1001, 5000, 100000):
        big += [("D", 1.0, "(" * n + "1" + ")" * n), ("D", 1.0, "abs(" * n + "1" + ")" * n), ("D", (-1.0) ** n, "-" * n + "1"), ("B", n % 2 == 0, "not " * n + "(1<2)"),
                ("D", n + 1.0, "+".join(["1"] * (n + 1))), ("D", 1.0, "^".join(["1"] * (n + 1))), ("B", True, " and ".join(["(1<2)"] * (n + 1))), ("B", False, " or ".join(["(1>2)"] * (n + 1))),
                ("D", float(n), "".join(f"let $a{i} = $a{i-1}+1;" if i else "let $a0 = 1;" for i in range(n)) + f"$a{n-1}"),
                ("D", 1.0, "(" * min(n, 200) + "-" * (n & ~1) + "1" + ")" * min(n, 200)), ("E", 0, "(" * n), ("E", 0, "-" * n), ("E", 0, ")" * n + "("), ("E", 0, "not " * n), ("E", 0, "let $x=" * n),
                ("D", 1.0, " " * n + "1"), ("D", float("1" * n), "1" * n), ("D", 1.0, f"let ${'x' * n} = 1; ${'x' * n}")]

    def work_b(conn, part, out):
        for ty, v, t in part:
            g = ask(conn, [query(None if ty == "E" else (ty, v), t, 0, 0.0)])[0]
            case = {"lambda of length": len(t), "start": t[:30]}
            out.trace(case, steps=1, state=t)
            if ty == "E" and not g.startswith("ERR"):
                out.violation(case, "an error", g)
            elif ty != "E" and not agrees((ty, v), g) and not (g.startswith("ERR") and len(t) > 400 and "crash" not in g):
                out.violation(case, str(v), g)
    chk.explore("large expressions", big, work_b, chunk=4)


if __name__ == "__main__":
    main(run)
