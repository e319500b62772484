"""C50: the update tester reports exactly the blocks that fail before or after the upgrade, and refuses bad upgrades.

The real update-tester (built from a copy of its sources, with a small list of stable objects in place of the
extension's) creates and validates test objects on private clusters whose timescaledb_toolkit is a stand-in made of SQL
scripts only; its reports and exit codes are compared with what the documents and the scripts say."""
import os, sys, re, shutil, tempfile, itertools, fcntl
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mclib import *
import pg
import c49

TOOL = None
NSLOTS = 6
STABLE = """
crate::functions_stabilized_at! {
    STABLE_FUNCTIONS
    "1.2.0" => {
        mc_new(double precision, int),
    }
    "prehistory" => {
        mc_old(text),
        mc_version(),
    }
}
crate::types_stabilized_at! {
    STABLE_TYPES
    "1.2.0" => { mc_tnew, }
    "prehistory" => { mc_told, }
}
crate::operators_stabilized_at! {
    STABLE_OPERATORS
    "1.2.0" => { "@@@" (int, double precision), }
    "prehistory" => { "%%%" (int, int), "%%%" (text, int), "%%%" (int, text), }
}
"""
OBJECTS = {   # what the stand-in consists of, and with which version it comes
    "version": "CREATE OR REPLACE FUNCTION mc_version() RETURNS text LANGUAGE sql AS $$SELECT '%s'$$;",
    "old": "CREATE FUNCTION mc_old(text) RETURNS int LANGUAGE sql AS 'SELECT 1';",
    "told": "CREATE DOMAIN mc_told AS int;",
    "plus": "CREATE FUNCTION mc_plus(int, int) RETURNS int LANGUAGE sql AS 'SELECT $1'; CREATE OPERATOR %%% (function=mc_plus, leftarg=int, rightarg=int); "
            "CREATE FUNCTION mc_ti(text, int) RETURNS int LANGUAGE sql AS 'SELECT $2'; CREATE OPERATOR %%% (function=mc_ti, leftarg=text, rightarg=int); "
            "CREATE FUNCTION mc_it(int, text) RETURNS int LANGUAGE sql AS 'SELECT $1'; CREATE OPERATOR %%% (function=mc_it, leftarg=int, rightarg=text);",
    "new": "CREATE FUNCTION mc_new(float8, int) RETURNS int LANGUAGE sql AS 'SELECT 2';",
    "tnew": "CREATE DOMAIN mc_tnew AS int;",
    "at": "CREATE FUNCTION mc_at(int, float8) RETURNS int LANGUAGE sql AS 'SELECT $1'; CREATE OPERATOR @@@ (function=mc_at, leftarg=int, rightarg=float8);",
}
NEW = ("new", "tnew", "at")
C = "CREATE FUNCTION {0}(int) RETURNS int LANGUAGE c AS 'plpgsql', 'plpgsql_call_handler'; UPDATE pg_proc SET probin = '{1}' WHERE proname = '{0}';"


def build(work):
    """Build the tool from a copy of the working tree's sources."""
    global TOOL
    with Lock("uptester"):
        d = os.path.join(BUILD, "uptester-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])
        want = {}
        for sub in ("tools/update-tester", "crates/scripting-utilities/control_file_reader", "crates/scripting-utilities/postgres_connection_configuration"):
            for root, _, files in os.walk(os.path.join(REPO, sub)):
                for f in files:
                    p = os.path.join(root, f)
                    want[os.path.relpath(p, REPO)] = open(p, "rb").read()
        want["tools/update-tester/Cargo.toml"] += b"\n[workspace]\n"
        want["tools/update-tester/Cargo.lock"] = open(REPO + "/Cargo.lock", "rb").read()
        want["extension/src/stabilization_info.rs"] = STABLE.encode()
        for root, _, files in os.walk(d):
            if "/target" in root:
                continue
            for f in files:
                p = os.path.join(root, f)
                if f.endswith(".rs") and os.path.relpath(p, d) not in want:
                    os.unlink(p)
        for n, t in want.items():
            p = os.path.join(d, n)
            lock = n.endswith("Cargo.lock")
            if lock and os.path.exists(p) and os.path.exists(p + ".of") and open(p + ".of", "rb").read() == t:
                continue       # cargo has pruned it
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p) or open(p, "rb").read() != t:
                with open(p, "wb") as f:
                    f.write(t)
            if lock:
                shutil.copyfile(p, p + ".of")
        env = cargo_env()
        env["CARGO_TARGET_DIR"] = d + "/target"
        sh(["cargo", "build", "--offline"], cwd=d + "/tools/update-tester", env=env)
        TOOL = os.path.join(work, "update-tester")
        shutil.copyfile(d + "/target/debug/update-tester", TOOL)
        os.chmod(TOOL, 0o755)
        os.makedirs(work + "/bin")
        with open(work + "/bin/locale", "w") as f:
            f.write("#!/bin/sh\necho C; echo C.UTF-8\n")
        os.chmod(work + "/bin/locale", 0o755)


class Slot:
    """A cluster with its own installation of PostgreSQL, so that it has its own timescaledb_toolkit."""

    def __init__(self, work, i):
        self.root = os.path.join(work, f"slot{i}")
        b = self.root + "/usr/lib/postgresql/16"
        os.makedirs(b + "/bin")
        for f in ("postgres", "initdb"):
            shutil.copy("/usr/lib/postgresql/16/bin/" + f, b + "/bin")
        os.symlink("/usr/lib/postgresql/16/lib", b + "/lib")
        s = self.root + "/usr/share/postgresql/16"
        self.ext = s + "/extension"
        os.makedirs(self.ext)
        for f in os.listdir("/usr/share/postgresql/16"):
            if f != "extension":
                os.symlink("/usr/share/postgresql/16/" + f, s + "/" + f)
        for f in os.listdir("/usr/share/postgresql/16/extension"):
            if f.startswith("plpgsql"):
                os.symlink("/usr/share/postgresql/16/extension/" + f, self.ext + "/" + f)
        pg.PGBIN = b + "/bin"
        self.cl = pg.Cluster(TOOL, "SELECT 1")
        c = self.cl.conn()
        c.q("ALTER SYSTEM SET timezone TO 'America/New_York'")
        c.q("SELECT pg_reload_conf()")
        self.lock = self.root + ".lock"
        open(self.lock, "w").close()
        self.cwd = self.root + "/cwd"

    def install(self, default, scripts):
        for f in os.listdir(self.ext):
            if f.startswith("timescaledb_toolkit"):
                os.unlink(self.ext + "/" + f)
        with open(self.ext + "/timescaledb_toolkit.control", "w") as f:
            f.write(f"default_version = '{default}'\nrelocatable = false\nsuperuser = true\n")
        for n, t in scripts.items():
            with open(f"{self.ext}/timescaledb_toolkit--{n}.sql", "w") as f:
                f.write(t)

    def checkout(self, docs, version, upgradeable):
        """The directory the tool is run in."""
        shutil.rmtree(self.cwd, ignore_errors=True)
        os.makedirs(self.cwd + "/tests/update")
        os.makedirs(self.cwd + "/extension")
        for p, t in docs.items():
            os.makedirs(os.path.dirname(f"{self.cwd}/tests/update/{p}"), exist_ok=True)
            with open(f"{self.cwd}/tests/update/{p}", "w") as f:
                f.write(t)
        with open(self.cwd + "/extension/Cargo.toml", "w") as f:
            f.write(f'[package]\nname = "timescaledb_toolkit"\nversion = "{version}"\n')
        with open(self.cwd + "/extension/timescaledb_toolkit.control", "w") as f:
            f.write(f"comment = 'x'\ndefault_version = '@CARGO_VERSION@'\n{upgradeable}\n")

    def tool(self, cmd, work):
        env = {"PATH": work + "/bin:/usr/bin:/bin", "NO_COLOR": "1", "RUST_BACKTRACE": "0", "LANG": "C.UTF-8"}
        r = subprocess.run([TOOL, cmd, "-h", self.cl.sockdir, "-p", "5432", "-u", "postgres", "-d", "postgres"], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=600, cwd=self.cwd)
        return r.returncode, r.stderr.decode(errors="replace")


SLOTS = []


class Claim:
    """Whichever slot is free."""

    def __enter__(self):
        while True:
            for s in SLOTS:
                f = open(s.lock)
                try:
                    fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                except OSError:
                    f.close()
                    continue
                self.f = f
                return s
            time.sleep(0.05)

    def __exit__(self, *a):
        self.f.close()


def semver(v):
    """Order of releases; what is before a release sorts before it."""
    v = {"1.4": "1.4.0", "1.5": "1.5.0", "1.10.0-dev": "1.10.0"}.get(v, v)
    core, _, pre = v.partition("-")
    return tuple(map(int, core.split("."))) + (not pre, pre)


TAGS = {"c": (",creation", "c"), "v": (",validation", "v"), "cv": (",creation, validation", "cv"), "": ("", ""), "vc": (", validation,creation", "cv")}


class Doc(c49.Doc):
    """A document with blocks of both phases; `mode` says which the next ones are of."""

    def __init__(self, old):
        super().__init__()
        self.old = old
        self.mode, self.minv, self.pre = "c", None, False
        self.badc, self.badv = [], []
        self.n = 0

    def sql(self, text, ok, tag="", output=None, otag="", between=None, fence="```", name="SQL", mark=None, okv=None):
        line = len(self.lines) + 1
        tags, ph = TAGS[self.mode]
        mv = "" if self.minv is None else f",{' ' if self.n % 2 else ''}min-toolkit-version={self.minv}"
        self.n += 1
        tags = mv + tags if self.pre else tags + mv
        self.put(fence + name + (tags + tag if self.n % 3 else tag + tags), *text.split("\n"), fence)
        for b in between or []:
            self.put(b)
        if output is not None:
            self.put(fence + "output" + otag, *output, fence)
        if "ignore" in [t.strip() for t in tag.split(",")] or self.minv and semver(self.minv) > semver(self.old):
            return
        entry = (line, "::".join(self.heads) or "<root>")
        if "c" in ph and not ok:
            self.badc.append(entry)
        if "v" in ph and not (ok if okv is None else okv):
            self.badv.append(entry)
        if mark:
            self.marks[line] = mark


KINDS = [f for f in c49.STATELESS]


def reported(err):
    got = {}
    cur = None
    for l in err.split("\n"):
        m = re.match(r"tests/update/([^\s:]+):(\d+) (.*)$", l)
        if m:
            cur = (m.group(1), int(m.group(2)), m.group(3).strip())
            got.setdefault(cur, "")
        elif cur:
            got[cur] += l + "\n"
    return got


OLD, NEWV = "1.14.0", "1.15.0"


def scripts(old=OLD, new=NEWV, drop=(), after="", before=""):
    base = "".join(OBJECTS[o] % old if o == "version" else OBJECTS[o] for o in OBJECTS if o not in NEW) + before
    up = OBJECTS["version"] % new + "".join(OBJECTS[o] for o in NEW if o not in drop) + after
    return {old: base, f"{old}--{new}": up}


def judge(out, case, what, docs, want, rc, err):
    rep = reported(err)
    got = sorted(rep)
    if got == want and rc == (1 if want else 0):
        for p, l, h in got:
            m = docs[p].marks.get(l)
            if m and m not in rep[(p, l, h)]:
                out.violation({"document": docs[p].text()[:3000], "block at line": l}, f"the report shows {m}", rep[(p, l, h)])
                return False
        return True
    odd = [x for x in want if x not in got] + [x for x in got if x not in want]
    p = odd[0][0] if odd else sorted(docs)[0]
    txt = docs[p].text().split("\n")
    l = odd[0][1] if odd else 1
    out.violation({what: case, "file": p, "around": "\n".join(txt[max(0, l - 3):l + 12])}, {"exit": 1 if want else 0, "reported": [x for x in want if x not in got][:4]},
                  {"exit": rc, "reported": [x for x in got if x not in want][:4], "stderr": [x for x in err.split("\n") if "panick" in x or "could not" in x or "rror:" in x][:4]})
    return False


def two_phases(out, work, case, docs, old=OLD, new=NEWV):
    """docs: {path: Doc}"""
    with Claim() as s:
        texts = {p: d.text() for p, d in docs.items()}
        s.install(old, scripts(old, new))
        s.checkout(texts, old, "# upgradeable_from = '1.0.0'")
        rc, err = s.tool("create-test-objects", work)
        if not judge(out, case, "creation", docs, sorted((p, l, h) for p, d in docs.items() for l, h in d.badc), rc, err):
            return False
        s.install(new, scripts(old, new))
        s.checkout(texts, new, f"# upgradeable_from = '1.0.0, {old}'")
        rc, err = s.tool("validate-test-objects", work)
        want = sorted((p, l, h) for p, d in docs.items() for l, h in d.badv)
        if not judge(out, case, "validation", docs, want, rc, err):
            return False
        c = s.cl.conn()
        left = [r[0] for r in c.q("SELECT datname FROM pg_database WHERE datname LIKE 'tsdb%'")]
        c.close()
        if left and not want:
            out.violation({"after": case}, "no tsdb_toolkit_test left", left)
            return False
    return True


def main_(chk):
    work = tempfile.mkdtemp(prefix="mcup.", dir="/tmp")
    os.chmod(work, 0o755)
    try:
        go(chk, work)
    finally:
        for s in SLOTS:
            s.cl.stop()
        shutil.rmtree(work)


def go(chk, work):
    build(work)
    for i in range(NSLOTS):
        SLOTS.append(Slot(work, i))
    T = chk.thorough

    def ex(name, cases, fn):
        chk.explore(name, cases, fn, chunk=1, pgconn=False, nproc=NSLOTS)

    # blocks
    def blocks(conn, part, out):
        for case in part:
            docs = {}
            for i, seqs in enumerate(case):
                d = docs[f"{'sub/' if i % 2 else ''}f{i}.md"] = Doc(OLD)
                for seq in seqs:
                    for b, m in seq:
                        d.mode = m
                        c49.BY[b](d)
            if not two_phases(out, work, [s[:2] for s in case][:2], docs):
                return
            for seqs in case:
                for seq in seqs:
                    out.trace({"blocks": seq}, 2 * len(seq), hash64(repr(seq)))

    names = [c49.name(f) for f in KINDS]
    silent = {c49.name(f) for f in (c49.b_other, c49.b_indented, c49.b_text, c49.b_rule, c49.b_quote, c49.b_comment, c49.b_list, c49.b_h1, c49.b_h2, c49.b_h3)}

    def modes(b, ms):
        return [(b, m) for m in (ms if b not in silent else ms[:1])]
    allm, fewm = ["c", "v", "cv", "", "vc"], ["c", "v"]
    seqs = [[x, y] for a in names for b in names for x in modes(a, allm) for y in modes(b, allm if T else ["c", "v", ""])]
    shape = [c49.name(f) for f in c49.SHAPE]
    seqs += [[x, y, z] for a in shape for b in shape for c in shape for x in modes(a, fewm) for y in modes(b, fewm if T else ["v"]) for z in modes(c, fewm if T else ["c"])]
    files = [seqs[i:i + 150] for i in range(0, len(seqs), 150)]
    ex("blocks of every kind in either phase", [files[i:i + 4] for i in range(0, len(files), 4)], blocks)

    # versions
    OLDS = ["1.4", "1.5", "1.10.0-dev", "1.10.1", "1.13.1", "1.14.0", "1.15.0"]
    MINS = [None, "0.9.0", "1.4.0", "1.5.0", "1.9.9", "1.10.0", "1.10.1", "1.11.0", "1.13.1", "1.13.10", "1.14.0-dev", "1.14.0", "1.14.1", "1.15.0", "1.16.0", "2.0.0", "10.0.0"]

    def versions(conn, part, out):
        for old, new in part:
            docs = {}
            for i, pre in enumerate((False, True)):
                d = docs[f"v{i}.md"] = Doc(old)
                d.pre = pre
                for mv in MINS:
                    for m in ("c", "v", "cv", "vc", ""):
                        for b in ("right", "wrong", "wrong"):
                            d.mode, d.minv = m, mv
                            c49.BY[b](d)
            if not two_phases(out, work, [old, new], docs, old, new):
                return
            out.trace({"from": old, "to": new}, len(MINS) * 24, hash64(repr((old, new))))
    ex("minimum versions", [(o, n) for o in OLDS for n in (["1.16.0", "1.15.1-dev", "2.0.0"] if T else ["1.16.0"])], versions)

    # what the blocks of the first phase leave for those of the second, and for no other file
    def st_create(d, t, m): d.sql(f"CREATE TABLE {t}(v text)", t not in d.tc, okv=t not in d.tv, name="sql"); d.eff(m, t, "create")
    def st_insert(d, t, m): d.sql(f"INSERT INTO {t} SELECT mc_version()", t in d.tc, okv=t in d.tv); d.eff(m, t, "insert")
    def st_drop(d, t, m): d.sql(f"DROP TABLE {t}", t in d.tc, okv=t in d.tv); d.eff(m, t, "drop")
    def st_look(d, t, m):
        d.sql(f"SELECT count(*), min(v) FROM {t}", d.tc.get(t) == [OLD], okv=d.tv.get(t) == [OLD], output=c49.table([["1", OLD]], 2))
    def st_two(d, t, m):
        d.sql(f"SELECT v FROM {t} ORDER BY 1", d.tc.get(t) == [OLD, NEWV], okv=d.tv.get(t) == [OLD, NEWV], output=c49.table([[OLD], [NEWV]]))
    ST = {"create": st_create, "insert": st_insert, "drop": st_drop, "look": st_look, "two": st_two}

    class StDoc(Doc):
        pass

    def state(conn, part, out):
        for case in part:
            docs = {}
            for fi, seqs in enumerate(case):
                d = docs[f"s{fi}.md"] = StDoc(OLD)
                for k, seq in enumerate(seqs):
                    t = f"t{k}"
                    # the tables as each block finds them: the first phase, then the second
                    tabs, seen = {}, [[None, None] for _ in seq]
                    for ph, ver in ((0, OLD), (1, NEWV)):
                        for j, (b, m) in enumerate(seq):
                            seen[j][ph] = {x: list(y) for x, y in tabs.items()}
                            if "cv"[ph] in m:
                                if b == "create" and t not in tabs:
                                    tabs[t] = []
                                elif b == "insert" and t in tabs:
                                    tabs[t].append(ver)
                                elif b == "drop":
                                    tabs.pop(t, None)
                    d.eff = lambda *a: None
                    for j, (b, m) in enumerate(seq):
                        d.mode = m
                        d.tc, d.tv = seen[j]
                        ST[b](d, t, m)
            if not two_phases(out, work, case[0][:2], docs):
                return
            for seqs in case:
                for seq in seqs:
                    out.trace({"state": seq}, 2 * len(seq), hash64(repr(seq)))
    steps = [(b, m) for b in ST for m in ("c", "v", "cv")]
    seqs = [list(s) for n in (1, 2, 3) for s in itertools.product(steps, repeat=n)]
    seqs += [[("create", "c"), *s] for s in itertools.product(steps, repeat=3)] if T else []
    # every file has tables of the same names: what is in one must not be seen in another
    files = [seqs[i::chk.pick(24, 48)] for i in range(chk.pick(24, 48))]
    ex("what blocks leave for the second phase", [files[i:i + 3] for i in range(0, len(files), 3)], state)

    def counts(conn, part, out):
        for nc, nv, nf in part:
            docs = {f"n{i}.md": Doc(OLD) for i in range(nf)}
            for i, d in enumerate(docs.values()):
                d.mode = "cv"
                d.sql("SELECT '2020-01-01'::timestamptz", True, output=c49.table([["2020-01-01 00:00:00+00"]]))
                for m, k in (("c", nc), ("v", nv)):
                    d.mode = m
                    for j in range(k):
                        if j % nf == i:
                            c49.BY["wrong"](d)
            if not two_phases(out, work, [nc, nv, nf], docs):
                return
            out.trace({"failures": [nc, nv], "files": nf}, nc + nv, hash64(repr((nc, nv, nf))))
    ns = (0, 1, 2, 256)
    ex("any number of failures", [(a, b, f) for a in ns for b in ns for f in (1, 3)], counts)

    # bad upgrades
    def upgrade(conn, part, out):
        for case in part:
            good, sc, extra, per_file = BAD[case]
            docs = {f"g{i}.md": Doc(OLD) for i in range(3)}
            for i, d in enumerate(docs.values()):
                d.mode = "c"
                d.sql("CREATE TABLE x(i int)", True)
                if per_file and i == per_file[0]:
                    d.sql(per_file[1], True)
                d.mode = "v"
                d.sql("SELECT count(*) FROM x", True, output=c49.table([["0"]]))
            with Claim() as s:
                texts = {p: d.text() for p, d in docs.items()}
                s.install(OLD, scripts(before=extra.get("before", "")))
                s.checkout(texts, OLD, "# upgradeable_from = '1.0.0'")
                rc, err = s.tool("create-test-objects", work)
                if rc != 0:
                    out.violation({"creation before": case}, "exit 0", [rc, err[-400:]])
                    return
                s.install(extra.get("default", NEWV), sc)
                s.checkout(texts, NEWV, extra.get("upgradeable", f"# upgradeable_from = '{OLD}'"))
                rc, err = s.tool("validate-test-objects", work)
                if (rc == 0) != good:
                    out.violation({"upgrade": case}, "accepted" if good else "refused", [rc, err[-400:]])
                    return
                c = s.cl.conn()
                left = [r[0] for r in c.q("SELECT datname FROM pg_database WHERE datname LIKE 'tsdb%'")]
                c.close()
                if good and left:
                    out.violation({"after": case}, "no tsdb_toolkit_test left", left)
                    return
            out.trace({"upgrade": case}, 6, hash64(case))
    leak = "objects referring to the old binary"
    lib = "$libdir/timescaledb_toolkit"
    BAD = {"good": (True, scripts(), {}, None)}
    for o in NEW:
        BAD[f"without {o}"] = (False, scripts(drop=(o,)), {}, None)
    for o, d in (("old", "DROP FUNCTION mc_old(text);"), ("told", "DROP DOMAIN mc_told;"), ("version", "DROP FUNCTION mc_version();")):
        BAD[f"{o} dropped"] = (False, scripts(after=d), {}, None)
    for o in ("int, int", "text, int", "int, text"):
        BAD[f"operator of {o} dropped"] = (False, scripts(after=f"DROP OPERATOR %%% ({o});"), {}, None)
    BAD["old with another argument"] = (False, scripts(after="DROP FUNCTION mc_old(text); CREATE FUNCTION mc_old(int) RETURNS int LANGUAGE sql AS 'SELECT 1';"), {}, None)
    BAD["new with another argument"] = (False, scripts(drop=("new",), after="CREATE FUNCTION mc_new(float8, bigint) RETURNS int LANGUAGE sql AS 'SELECT 1';"), {}, None)
    BAD["operator with another argument"] = (False, scripts(drop=("at",), after="CREATE FUNCTION mc_at(int, float4) RETURNS int LANGUAGE sql AS 'SELECT $1'; CREATE OPERATOR @@@ (function=mc_at, leftarg=int, rightarg=float4);"), {}, None)
    BAD["one object more"] = (True, scripts(after="CREATE FUNCTION mc_more() RETURNS int LANGUAGE sql AS 'SELECT 1';"), {}, None)
    BAD["no way"] = (False, {NEWV: scripts()[OLD]}, {}, None)
    BAD["failing script"] = (False, scripts(after="SELECT 1/0;"), {}, None)
    for what, binary, good in (("the old library", f"{lib}-{OLD}", False), ("the new library", f"{lib}-{NEWV}", True), ("the library of no version", lib, False),
                               ("an older library", f"{lib}-1.5", False), ("a library whose name is longer", f"{lib}-{NEWV}0", False), ("another library", "$libdir/plpgsql", True)):
        BAD[f"one function in {what}"] = (good, scripts(after=C.format("mc_c", binary)), {}, None)
        BAD[f"one function in {what} since before"] = (good, scripts(), {"before": C.format("mc_c", binary)}, None)
        for i in range(3):
            BAD[f"{what} in database {i}"] = (good, scripts(), {}, (i, C.format("mc_c", binary)))
        BAD[f"{what} as one of two"] = (good, scripts(after=C.format("mc_c", f"{lib}-{NEWV}") + C.format("mc_d", binary)), {}, None)
    for i in range(3):
        BAD[f"cannot be upgraded in database {i}"] = (False, scripts(), {}, (i, "CREATE FUNCTION mc_new(float8, int) RETURNS int LANGUAGE sql AS 'SELECT 3';"))
    BAD["nothing to upgrade from"] = (False, scripts(), {"upgradeable": "# nothing"}, None)
    ex("good and bad upgrades", sorted(BAD), upgrade)

    # a document that says nothing is not taken for a success
    misuse = {k: v.replace("```SQL", "```SQL,creation") for k, v in {
        "output without a test": "```output\n x\n---\n 1\n```\n",
        "output after a heading": "```SQL\nSELECT i FROM generate_series(1, 0) i\n```\n\n# head\n\n```output\n x\n---\n 1\n```\n",
        "second output": "```SQL\nSELECT 1\n```\n\n```output\n x\n---\n 1\n```\n\n```output\n x\n---\n 1\n```\n",
        "precision without a length": "```SQL,precision(0)\nSELECT 1\n```\n\n```output\n x\n---\n 1\n```\n",
        "precision on both": "```SQL,precision(0: 1)\nSELECT 1\n```\n\n```output,precision(0: 1)\n x\n---\n 1\n```\n",
        "precision twice": "```SQL,precision(0: 1),precision(0: 2)\nSELECT 1\n```\n\n```output\n x\n---\n 1\n```\n",
        "no version": "```SQL,min-toolkit-version=new\nSELECT 1\n```\n\n```output\n x\n---\n 1\n```\n",
    }.items()}

    def wrong(conn, part, out):
        for case in part:
            with Claim() as s:
                s.install(OLD, scripts())
                s.checkout({"a.md": misuse[case]}, OLD, "# upgradeable_from = '1.0.0'")
                rc, err = s.tool("create-test-objects", work)
            if rc == 0:
                out.violation({"document": misuse[case]}, "a failure", "exit 0")
            out.trace({"misuse": case}, 1, hash64(case))
    ex("misuse", sorted(misuse), wrong)

    # results: every single deviation, as in the documentation tester
    V = ["a", "é", ""]
    rows = [[v] for v in V if v] + [[a, b] for a in V for b in V if a or b]
    tests = []
    for a in [[]] + [[r] for r in rows] + [[r, s] for r in rows[:4] for s in rows[2:]]:
        exps = [a, a[:1], a + [["a"]], a[::-1], [r + ["a"] for r in a], [r[:1] for r in a]] + [a[:i] + [a[i] + ["x"]] + a[i + 1:] for i in range(len(a))]
        for i, r in enumerate(a):
            for j in range(len(r)):
                exps += [a[:i] + [r[:j] + [w] + r[j + 1:]] + a[i + 1:] for w in ("a", "ac", "è", "éa", "")]
        seen = []
        for e in exps:
            if e in seen or any(len(r) == 1 and not r[0] for r in e):
                continue       # a blank line is not a row
            seen.append(e)
            for k, sp in enumerate([(), ((0, 1),), ((1, 1),), ((0, 2), (1, 2)), ((0, 0),)]):
                for where in ("sql", "output"):
                    tests.append((a, e, sp, where))

    def results(conn, part, out):
        for case in part:
            d = Doc(OLD)
            for k, (actual, expected, spec, where) in enumerate(case):
                # a test of the first phase, of the second, of both
                sub = c49.doc_of(("tables", [(actual, expected, spec, where)]))
                d.mode = ("c", "v", "cv")[k % 3]
                sel = "VALUES " + ", ".join("(" + ", ".join("NULL" if v == "" else "'" + v + "'" for v in r) + ")" for r in actual) if actual else "SELECT 1 WHERE false"
                tag = "".join(f",precision({i}: {n})" for i, n in spec)
                same = len({len(r) for r in actual}) < 2
                d.sql(sel, not sub.bad if same else False, tag=tag if where == "sql" else "", output=c49.table(expected, 2), otag="" if where == "sql" else tag)
            if not two_phases(out, work, case[:2], {"r.md": d}):
                return
            for t in case:
                out.trace({"result": t}, 2, hash64(repr(t)))
    ex("results", [tests[i:i + 400] for i in range(0, len(tests), 400)], results)

    pieces = ["", "1, ", "'é', ", "'日本', 2, ", "'𝄞', ", "'é' -- ü\n, ", "\n'x',\n\n"]

    def positions(conn, part, out):
        for case in part:
            d = Doc(OLD)
            for a, b, c in case:
                d.mode = "cv"
                d.sql(f"SELECT {a}{b}nosuch{c}", False, mark=f"SELECT {a}{b}~>nosuch{c}")
            if not two_phases(out, work, case[:2], {"p.md": d}):
                return
            out.trace({"positions": case[:2]}, len(case), hash64(repr(case)))
    cases = [(a, b, c) for a in pieces for b in pieces for c in ("", ", 'ö'", " FROM pg_class -- ñ")]
    ex("errors shown where they are", [cases[i::6] for i in range(6)], positions)


if __name__ == "__main__":
    main(main_)
