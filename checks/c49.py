"""C49: the documentation tester reports exactly the SQL blocks whose result is not the documented one.

The real sql-doctester (built from a copy of its sources whose startup script, which needs TimescaleDB, is empty) is
run on directories of generated Markdown documents against a private cluster; its report and exit code are compared
with what the documents say."""
import os, sys, re, shutil, tempfile, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import *
import pg

TOOL = None


def build(work):
    """Build the tool from a copy of the working tree's sources; return the binary's path."""
    global TOOL
    with Lock("doctester"):
        d = os.path.join(BUILD, "doctester-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])
        src = os.path.join(REPO, "tools/sql-doctester")
        os.makedirs(d + "/src", exist_ok=True)
        want = {}
        for root, _, files in os.walk(src + "/src"):
            for f in files:
                p = os.path.join(root, f)
                want[os.path.relpath(p, src)] = open(p, "rb").read()
        want["src/startup.sql"] = b"SELECT 1;\n"
        want["Cargo.toml"] = open(src + "/Cargo.toml", "rb").read() + b"\n[workspace]\n"
        want["Cargo.lock"] = open(REPO + "/Cargo.lock", "rb").read()
        for root, _, files in os.walk(d + "/src"):
            for f in files:
                p = os.path.join(root, f)
                if os.path.relpath(p, d) not in want:
                    os.unlink(p)
        for n, t in want.items():
            p = os.path.join(d, n)
            if n == "Cargo.lock" and os.path.exists(p) and os.path.exists(p + ".of") and open(p + ".of", "rb").read() == t:
                continue       # cargo has pruned it
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p) or open(p, "rb").read() != t:
                with open(p, "wb") as f:
                    f.write(t)
            if n == "Cargo.lock":
                shutil.copyfile(p, p + ".of")
        env = cargo_env()
        env["CARGO_TARGET_DIR"] = d + "/target"
        sh(["cargo", "build", "--offline"], cwd=d, env=env)
        TOOL = os.path.join(work, "sql-doctester")
        shutil.copyfile(d + "/target/debug/sql-doctester", TOOL)
        os.chmod(TOOL, 0o755)


class Doc:
    """One Markdown file being written, with the locations that are to be reported."""

    def __init__(self):
        self.lines = []
        self.heads = []
        self.bad = []        # (line, header)
        self.bar = None      # rows of the table bar, None: not there
        self.marks = {}      # line -> text the error position is shown in

    def put(self, *ls):
        self.lines += "\n".join(ls).split("\n") + [""]

    def heading(self, level, text):
        self.put("#" * level + " " + text)
        del self.heads[level - 1:]
        self.heads.append("`" + text + "`")

    def sql(self, text, ok, tag="", output=None, otag="", between=None, fence="```", name="SQL", mark=None):
        line = len(self.lines) + 1
        self.put(fence + name + tag, *text.split("\n"), fence)
        for b in between or []:
            self.put(b)
        if output is not None:
            self.put(fence + "output" + otag, *output, fence)
        if not ok:
            self.bad.append((line, "::".join(self.heads) or "<root>"))
            if mark:
                self.marks[line] = mark

    def text(self):
        return "\n".join(self.lines)


def table(rows, cols=1):
    return [" | ".join("c%d" % i for i in range(cols)), "+".join("---" for _ in range(cols))] + [" | ".join(r) for r in rows]


# --- blocks: each writes itself and says whether it is to be reported -------------------------------------------
def b_none(d): d.sql("SELECT i FROM generate_series(1, 0) i", True)
def b_right(d): d.sql("SELECT 1, 'a'", True, output=table([["1", "a"]], 2))
def b_lower(d): d.sql("SELECT 1, 'a'", True, name="sql", output=["   x  |  y", "------+-----", "    1 |   a   "])
def b_wrong(d): d.sql("SELECT 1, 'a'", False, output=table([["1", "b"]], 2))
def b_between(d): d.sql("SELECT 1\nWHERE true", True, output=table([["1"]]), between=["Some text in between.", "* and a list\n* of things"])
def b_between_wrong(d): d.sql("SELECT 1", False, output=table([["2"]]), between=["Some text."])
def b_between_odd(d): d.sql("SELECT 1", True, output=table([["1"]]), between=["* * *", "> quoted", "<!-- note -->", "![x](y)", "1. one", "    indented"])
def b_unsaid(d): d.sql("SELECT 1", False)
def b_missing(d): d.sql("SELECT 1 UNION ALL SELECT 2", False, output=table([["1"]]))
def b_toomany(d): d.sql("SELECT 1", False, output=table([["1"], ["2"]]))
def b_order(d): d.sql("SELECT 1 UNION ALL SELECT 2", False, output=table([["2"], ["1"]]))
def b_error(d): d.sql("SELECT nosuch", False, mark="SELECT ~>nosuch")
def b_runtime(d): d.sql("SELECT 1/0", False, output=table([["1"]]))
def b_ignoreout(d): d.sql("SELECT 1", True, tag=",ignore-output", output=table([["7"]]))
def b_ignoreout_error(d): d.sql("SELECT 1/0", False, tag=",ignore-output")
def b_ignore(d): d.sql("SELECT 1/0", True, tag=",ignore")
def b_other(d): d.put("```rust", "SELECT 1/0", "```")
def b_indented(d): d.put("Text:", "", "    SELECT 1/0")
def b_text(d): d.put("Some text with `SELECT 1/0` in it.")
def b_rule(d): d.put("***")
def b_quote(d): d.put("> quoted `SELECT 1/0`", "> more")
def b_comment(d): d.put("<!-- SELECT 1/0 -->")
def b_list(d): d.put("* a", "* b", "", "1. one", "2. two")
def b_h1(d): d.heading(1, "one")
def b_h2(d): d.heading(2, "two")
def b_h3(d): d.heading(3, "three")
def b_hidden(d):
    d.put("<div hidden>")
    d.sql("SELECT 3", False, output=table([["4"]]))
    d.put("</div>")
def b_tilde(d): d.sql("SELECT '```'", False, fence="~~~", output=table([["'''"]]))
def b_precise(d): d.sql("SELECT 1.23456, 'x'", True, output=table([["1.23999", "x"]], 2), otag=",precision(0: 4)")
def b_precise_sql(d): d.sql("SELECT 1.23456, 'x'", True, tag=",precision(0: 4)", output=table([["1.23999", "x"]], 2))
def b_imprecise(d): d.sql("SELECT 1.23456, 'x'", False, output=table([["1.23999", "x"]], 2), otag=", precision(0: 5), precision(1: 1)")
# blocks about state
def b_tx_create(d): d.sql("CREATE TABLE bar(i int)", d.bar is None)
def b_tx_insert(d): d.sql("INSERT INTO bar SELECT 1", d.bar is not None)
def b_tx_create_wrong(d): d.sql("CREATE TABLE bar(i int); SELECT 1", False, output=table([["2"]]))
def b_create(d):
    d.sql("CREATE TABLE bar(i int)", d.bar is None, tag=",non-transactional")
    d.bar = 0 if d.bar is None else d.bar
def b_insert(d):
    d.sql("INSERT INTO bar SELECT 1", d.bar is not None, tag=",non-transactional")
    d.bar = d.bar if d.bar is None else d.bar + 1
def b_insert_wrong(d):
    d.sql("INSERT INTO bar SELECT 1 RETURNING i", False, tag=",non-transactional", output=table([["2"]]))
    d.bar = d.bar if d.bar is None else d.bar + 1
def b_vacuum(d): d.sql("VACUUM pg_namespace", True, tag=",non-transactional,ignore-output")
def b_vacuum_tx(d): d.sql("VACUUM pg_namespace", False)
def b_there(d): d.sql("SELECT count(*) FROM pg_class WHERE relname = 'bar'", (d.bar is None), output=table([["0"]]))
def b_count(d): d.sql("SELECT count(*) FROM bar", d.bar == 1, output=table([["1"]]))


STATELESS = [b_none, b_right, b_lower, b_wrong, b_between, b_between_wrong, b_unsaid, b_missing, b_toomany, b_order, b_error, b_runtime,
             b_ignoreout, b_ignoreout_error, b_ignore, b_other, b_indented, b_text, b_rule, b_quote, b_comment, b_list, b_between_odd, b_h1, b_h2, b_h3, b_hidden, b_tilde, b_precise,
             b_precise_sql, b_imprecise]
SHAPE = [b_none, b_right, b_wrong, b_between, b_ignore, b_other, b_text, b_h1, b_h2, b_h3, b_error]
STATE = [b_tx_create, b_create, b_insert, b_tx_insert, b_there, b_count, b_insert_wrong, b_vacuum, b_vacuum_tx, b_tx_create_wrong]
BY = {f.__name__[2:]: f for f in STATELESS + STATE}


def name(f):
    return f.__name__[2:]


def doc_of(case):
    d = Doc()
    if case[0] == "blocks":
        for b in case[1]:
            BY[b](d)
    elif case[0] == "tables":
        for actual, expected, spec, where in case[1]:
            sel = "VALUES " + ", ".join("(" + ", ".join("NULL" if v == "" else "'" + v + "'" for v in r) + ")" for r in actual) if actual else "SELECT 1 WHERE false"
            lim = dict(spec)

            def cut(i, s):
                return s.encode()[:lim[i]] if i in lim else s.encode()
            ok = [[cut(i, s) for i, s in enumerate(r)] for r in actual] == [[cut(i, s) for i, s in enumerate(r)] for r in expected]
            tag = "".join(f",precision({i}: {n})" for i, n in spec)
            d.sql(sel, ok, tag=tag if where == "sql" else "", output=table(expected, 2), otag="" if where == "sql" else tag)
    elif case[0] == "positions":
        for pre, post in case[1]:
            d.sql(f"SELECT {pre}nosuch{post}", False, mark=f"SELECT {pre}~>nosuch{post}")
    return d


def run_tool(sock, root, args=()):
    env = {"PATH": "/usr/bin:/bin", "NO_COLOR": "1", "RAYON_NUM_THREADS": "3", "RUST_BACKTRACE": "0", "LANG": "C.UTF-8"}
    r = subprocess.run([TOOL, "-h", sock, "-u", "postgres", "-d", "postgres", *args, root], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=600, cwd="/")
    return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")


def reported(out, root):
    """[(file, line, header)], and the text after each."""
    got, cur = [], None
    for l in out.split("\n"):
        m = re.match(re.escape(root) + r"/([^\s:]+):(\d+) (.*)$", l)
        if m:
            cur = [m.group(1), int(m.group(2)), m.group(3), ""]
            got.append(cur)
        elif cur:
            cur[3] += l + "\n"
    return got


def run_group(sock, base, group, out, deep=True):
    """group: [(path in the directory, case)]; True if as documented."""
    root = tempfile.mkdtemp(prefix="docs.", dir=base)
    try:
        docs = {}
        for p, case in group:
            d = docs[p] = doc_of(case)
            os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
            with open(os.path.join(root, p), "w") as f:
                f.write(d.text())
        rc, so, se = run_tool(sock, root)
        want = sorted((p, l, h) for p, d in docs.items() for l, h in d.bad)
        rep = reported(so, root)
        got = sorted((p, l, h) for p, l, h, _ in rep)
        if got == want and rc == (1 if want else 0):
            for p, l, h, t in rep:
                m = docs[p].marks.get(l)
                if m and m not in t:
                    out.violation({"document": docs[p].text(), "block at line": l}, f"the report shows {m}", t)
                    return False
            return True
        if deep and len(group) > 1:
            # which document is it?
            for g in group:
                if not run_group(sock, base, [g], out, False):
                    return False
        p, case = group[0]
        out.violation({"documents": {p: docs[p].text() for p, _ in group[:3]}, "files": len(group)},
                      {"exit": 1 if want else 0, "reported": [x for x in want if x not in got][:5]},
                      {"exit": rc, "reported": [x for x in got if x not in want][:5], "stderr": [l for l in se.split("\n") if "panick" in l or "error" in l][:4]})
        return False
    finally:
        shutil.rmtree(root)


def main_(chk):
    work = tempfile.mkdtemp(prefix="mcdt.", dir="/tmp")
    try:
        go(chk, work)
    finally:
        shutil.rmtree(work)


def go(chk, work):
    build(work)
    chk.cl = cl = pg.Cluster(TOOL, "SELECT 1")
    sock = cl.sockdir
    T = chk.thorough

    def batches(cases, size, path=lambda i: f"d{i:05}.md"):
        return [[(path(i), c) for i, c in enumerate(cases[a:a + size])] for a in range(0, len(cases), size)]

    def run(conn, part, out):
        for group in part:
            if not run_group(sock, work, group, out):
                return
            for p, case in group:
                out.trace({"file": p, case[0]: case[1] if case[0] == "blocks" else case[1][:2]}, len(case[1]), hash64(repr(case)))

    cases = [("blocks", [name(b) for b in bs]) for n in range(1, 3) for bs in itertools.product(STATELESS, repeat=n)]
    chk.explore("documents of up to 2 blocks of every kind", batches(cases, 60), run, chunk=1)
    cases = [("blocks", [name(b) for b in bs]) for bs in itertools.product(SHAPE, repeat=chk.pick(3, 4))]
    cases += [("blocks", [name(b) for b in bs]) for bs in itertools.product(STATELESS, repeat=3)] if T else []
    chk.explore("longer documents: headings, pairing of blocks with outputs", batches(cases, 150), run, chunk=1)
    # what blocks leave behind, each file alone
    cases = [("blocks", [name(b) for b in bs]) for n in range(1, chk.pick(3, 4)) for bs in itertools.product(STATE, repeat=n)
             if any(b in (b_create, b_insert, b_insert_wrong, b_vacuum) for b in bs)]
    cases += [("blocks", [name(b) for b in bs]) for bs in itertools.product([b_create, b_insert, b_count, b_there, b_tx_create, b_tx_insert], repeat=3)
              if bs[0] is b_create and not T]
    mixed = [("blocks", ["there"]), ("blocks", ["tx_create", "there"]), ("blocks", ["tx_create", "tx_create"]), ("blocks", ["tx_create_wrong", "there", "tx_create_wrong"])]
    groups = []
    for g in batches(cases, 12):
        groups.append([("a/%s" % p, c) for p, c in g] + [(f"{'aA'[i % 2]}/0{i}.md", c) for i, c in enumerate(mixed)] + [(f"z{i}.md", c) for i, c in enumerate(mixed)])
    chk.explore("what blocks leave behind", groups, run, chunk=1)
    # outputs
    V = ["a", "ab", "é", ""]
    rows1 = [[v] for v in V if v]
    rows2 = [[a, b] for a in V for b in V if a or b]
    acts = [[]] + [[r] for r in rows1] + [[r] for r in rows2] + [[r, s] for r in rows1 for s in rows1]
    acts += [[r, s] for r in rows2 for s in rows2] if T else [[r, s] for r in rows2[:6] for s in rows2[6:12]]
    specs = [(), ((0, 1),), ((1, 1),), ((0, 2),), ((0, 1), (1, 2)), ((2, 0),), ((0, 0),)]
    tests = []
    for a in acts:
        exps = [a, a[:1], a + [["a"]], a + [["a", "b"]], a[::-1], [r + ["a"] for r in a], [r[:1] for r in a]]
        exps += [a[:i] + [a[i] + ["x"]] + a[i + 1:] for i in range(len(a))]
        for i, r in enumerate(a):
            for j in range(len(r)):
                exps += [a[:i] + [r[:j] + [w] + r[j + 1:]] + a[i + 1:] for w in ("a", "ac", "è", "éa", "abc", "")]
        seen = []
        for e in exps:
            if e in seen or any(len(r) == 1 and not r[0] for r in e):
                continue       # a blank line is not a row
            seen.append(e)
            for k, s in enumerate(specs):
                tests.append((a, e, s, "sql" if (k + len(seen)) % 2 else "output"))
                if T or k in (1, 4):
                    tests.append((a, e, s, "output" if (k + len(seen)) % 2 else "sql"))
    cases = [("tables", tests[i:i + 40]) for i in range(0, len(tests), 40)]
    chk.explore("outputs: every single deviation, with and without precision limits", batches(cases, 6), run, chunk=1)
    chk.explore("any number of failures", [[(f"d{i}.md", ("blocks", ["wrong"] * 32)) for i in range(n)] for n in chk.pick((4, 8), (1, 2, 4, 8, 16))], run, chunk=1)
    pieces = ["", "1, ", "'é', ", "'日本', 2, ", "'𝄞', ", "'é' -- ü\n, ", "\n'x',\n\n"]
    cases = [("positions", [(a + b, c) for c in ("", ", 'ö'", " FROM pg_class -- ñ")]) for a in pieces for b in pieces]
    chk.explore("errors shown where they are", batches(cases, 7), run, chunk=1)

    # directories: which files are read
    def layouts(conn, part, out):
        for case in part:
            root = tempfile.mkdtemp(prefix="docs.", dir=work)
            os.makedirs(root + "/outside")
            os.makedirs(root + "/in/sub/deep")
            bad = doc_of(("blocks", ["h1", "wrong"]))
            for f in ("in/a.md", "in/b.txt", "in/c.MD", "in/sub/d.md", "in/sub/deep/e.md", "in/md", "outside/f.md"):
                open(os.path.join(root, f), "w").write(bad.text())
            want = ["a.md", "sub/d.md", "sub/deep/e.md"]
            if case == "symlinks":
                os.symlink("../../outside/f.md", root + "/in/sub/link.md")
                os.symlink(root + "/outside", root + "/in/dir")
                want += ["sub/link.md", "dir/f.md"]
            if case == "empty":
                shutil.rmtree(root + "/in")
                os.makedirs(root + "/in")
                open(root + "/in/x.md", "w").write("# nothing\n\nto run\n")
                want = []
            rc, so, se = run_tool(sock, root + "/in")
            got = sorted(p for p, _, _, _ in reported(so, root + "/in"))
            if got != sorted(want) or rc != (1 if want else 0):
                out.violation({"directory": case}, sorted(want), [rc, got, se[-300:]])
            out.trace({"directory": case}, 7, hash64(case))
    chk.explore("directories", ["plain", "symlinks", "empty"], layouts, chunk=1)

    # misuse is never taken for success
    misuse = {
        "output without a test": "```output\n x\n---\n 1\n```\n",
        "output after a heading": "```SQL\nSELECT i FROM generate_series(1, 0) i\n```\n\n# head\n\n```output\n x\n---\n 1\n```\n",
        "second output": "```SQL\nSELECT 1\n```\n\n```output\n x\n---\n 1\n```\n\n```output\n x\n---\n 1\n```\n",
        "precision without a length": "```SQL,precision(0)\nSELECT 1\n```\n\n```output\n x\n---\n 1\n```\n",
        "precision without a number": "```SQL,precision(x: 1)\nSELECT 1\n```\n\n```output\n x\n---\n 1\n```\n",
        "precision on both": "```SQL,precision(0: 1)\nSELECT 1\n```\n\n```output,precision(0: 1)\n x\n---\n 1\n```\n",
        "precision twice": "```SQL,precision(0: 1),precision(0: 2)\nSELECT 1\n```\n\n```output\n x\n---\n 1\n```\n",
    }

    def wrong(conn, part, out):
        for case in part:
            root = tempfile.mkdtemp(prefix="docs.", dir=work)
            open(root + "/x.md", "w").write(misuse[case])
            rc, so, se = run_tool(sock, root)
            if rc == 0:
                out.violation({"document": misuse[case]}, "a failure", "exit 0")
            out.trace({"misuse": case}, 1, hash64(case))
    chk.explore("misuse", sorted(misuse), wrong, chunk=1)
    c = cl.conn()
    left = c.q("SELECT datname FROM pg_database WHERE datname NOT IN ('postgres', 'template0', 'template1')")
    if left and not chk.viol:
        chk.violation({"after": "all runs"}, "no databases left behind", [r[0] for r in left][:5])


if __name__ == "__main__":
    main(main_)
