"""C48: updating from any supported version ends in the catalogue of a fresh installation.

The real post-install tool makes the update scripts from the real install script; every state "extension at
version V" (the objects stabilized up to V by the frozen history in mc/golden_objects.json, with older or
different definitions, with and without an experimental schema and user objects) is built in a database, the
script is run, and the catalogue, the user's views and the user's data are compared."""
import os, sys, json, re, shutil, tempfile, stat
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import *
import pg

GOLD = json.load(open(os.path.join(VERIF, "mc/golden_objects.json")))
GF = {(a, b): v for a, b, v in GOLD["functions"]}
GT = {a: v for a, v in GOLD["types"]}
GO = {(a, b, c): v for a, b, c, v in GOLD["operators"]}
UNLISTED = {("approx_percentile_array", "double precision[],uddsketch"), ("approx_percentiles", "double precision[]")}
NS = "n.nspname NOT LIKE 'pg\\_%' AND n.nspname NOT IN ('information_schema', 'mine')"


def ver(s):
    if s == "prehistory":
        return (0, 0, 0)
    p = s.replace("-dev", "").split(".")
    return tuple(int(x) for x in (p + ["0"])[:3])


def statements(sql):
    """Split an SQL script into statements (quotes, dollar quotes, comments)."""
    out, i, start, n = [], 0, 0, len(sql)
    while i < n:
        c = sql[i]
        if c == "'":
            i = sql.index("'", i + 1)
        elif c == '"':
            i = sql.index('"', i + 1)
        elif sql.startswith("--", i):
            i = sql.find("\n", i)
            if i < 0:
                break
        elif sql.startswith("/*", i):
            i = sql.index("*/", i) + 1
        elif c == "$":
            m = re.compile(r"\$\w*\$").match(sql, i)
            if m:
                i = sql.index(m.group(), m.end()) + len(m.group()) - 1
        elif c == ";":
            out.append(sql[start:i + 1])
            start = i + 1
        i += 1
    if sql[start:].strip():
        out.append(sql[start:])
    return out


def without_tests(sql):
    """The install script as shipped: without what only the pg_test feature adds."""
    out = []
    for s in statements(sql):
        body = re.sub(r"/\*.*?\*/|--[^\n]*", "", s, flags=re.S)
        if re.search(r"\btests\b", body):
            continue
        out.append(s)
    return "".join(out)


def catalogue(c):
    r = {}
    q = {
        "function": f"""SELECT n.nspname, lower(p.proname), pg_get_function_identity_arguments(p.oid), prokind, pg_get_function_arguments(p.oid), pg_get_function_result(p.oid),
            provolatile, proisstrict, proparallel, procost, prorows, proleakproof, prosecdef, prosupport::regproc, proconfig::text, l.lanname, prosrc, probin, proacl::text
            FROM pg_proc p JOIN pg_namespace n ON n.oid=p.pronamespace JOIN pg_language l ON l.oid=p.prolang WHERE {NS}""",
        "aggregate": f"""SELECT a.aggfnoid::regprocedure::text, aggkind, aggnumdirectargs, aggtransfn::regproc, aggfinalfn::regproc, aggcombinefn::regproc, aggserialfn::regproc, aggdeserialfn::regproc,
            aggmtransfn::regproc, aggminvtransfn::regproc, aggmfinalfn::regproc, aggfinalextra, aggmfinalextra, aggfinalmodify, aggmfinalmodify, aggsortop::regoperator, aggtranstype::regtype, aggtransspace,
            aggmtranstype::regtype, aggmtransspace, agginitval, aggminitval
            FROM pg_aggregate a JOIN pg_proc p ON p.oid=a.aggfnoid JOIN pg_namespace n ON n.oid=p.pronamespace WHERE {NS}""",
        "type": f"""SELECT n.nspname, typname, typlen, typbyval, typtype, typcategory, typisdefined, typinput::regproc, typoutput::regproc, typreceive::regproc, typsend::regproc, typmodin::regproc, typanalyze::regproc, typalign, typstorage
            FROM pg_type t JOIN pg_namespace n ON n.oid=t.typnamespace WHERE {NS}""",
        "operator": f"""SELECT n.nspname, oprname, oprkind, oprleft::regtype, oprright::regtype, oprresult::regtype, oprcode::regproc, oprcom::regoperator, oprnegate::regoperator, oprrest::regproc, oprjoin::regproc, oprcanmerge, oprcanhash
            FROM pg_operator o JOIN pg_namespace n ON n.oid=o.oprnamespace WHERE {NS}""",
        "cast": "SELECT castsource::regtype, casttarget::regtype, castfunc::regproc, castcontext, castmethod FROM pg_cast WHERE oid >= 16384",
        "schema": f"SELECT n.nspname, nspacl::text FROM pg_namespace n WHERE {NS}",
        "relation": f"SELECT n.nspname, relname, relkind, CASE WHEN relkind='v' THEN pg_get_viewdef(c.oid) END FROM pg_class c JOIN pg_namespace n ON n.oid=c.relnamespace WHERE {NS}",
        "event trigger": "SELECT evtname FROM pg_event_trigger",
        "opclass": f"SELECT n.nspname, opcname, opcintype::regtype FROM pg_opclass o JOIN pg_namespace n ON n.oid=o.opcnamespace WHERE {NS}",
        "comment": f"SELECT pg_describe_object(classoid, objoid, objsubid), description FROM pg_description WHERE objoid >= 16384",
    }
    for k, s in q.items():
        r[k] = {tuple(x) for x in c.q(s)}
    return r


def funs(c):
    return {(x[0], x[1]): x[2:] for x in c.q("""SELECT lower(p.proname), coalesce((SELECT string_agg(lower(format_type(t,null)),',' ORDER BY o) FROM unnest(p.proargtypes) WITH ORDINALITY u(t,o)),''),
        p.oid::regprocedure::text, p.prokind, p.proretset FROM pg_proc p JOIN pg_namespace n ON n.oid=p.pronamespace WHERE nspname='public'""")}


def types(c):
    return {x[0]: x[1] for x in c.q("SELECT lower(typname), t.oid::regtype::text FROM pg_type t JOIN pg_namespace n ON n.oid=t.typnamespace WHERE nspname='public' AND typelem=0 AND typtype='b'")}


def opers(c):
    return {tuple(x[:3]): x[3] for x in c.q("SELECT oprname, lower(format_type(oprleft,null)), lower(format_type(oprright,null)), o.oid::regoperator::text FROM pg_operator o JOIN pg_namespace n ON n.oid=o.oprnamespace WHERE nspname='public'")}


DATA = [  # (needs function, expression)
    (("stats_agg", "double precision"), "SELECT stats_agg(x::float8) FROM generate_series(1, 9) x"),
    (("stats_agg", "double precision,double precision"), "SELECT stats_agg(x::float8, x::float8 * 2) FROM generate_series(1, 9) x"),
    (("uddsketch", "integer,double precision,double precision"), "SELECT uddsketch(100, 0.01, x::float8) FROM generate_series(1, 9) x"),
    (("tdigest", "integer,double precision"), "SELECT tdigest(100, x::float8) FROM generate_series(1, 9) x"),
    (("hyperloglog", "integer,anyelement"), "SELECT hyperloglog(64, x) FROM generate_series(1, 9) x"),
    (("time_weight", "text,timestamp with time zone,double precision"), "SELECT time_weight('LOCF', '2020-01-01'::timestamptz + x * interval '1 day', x::float8) FROM generate_series(1, 9) x"),
    (("counter_agg", "timestamp with time zone,double precision"), "SELECT counter_agg('2020-01-01'::timestamptz + x * interval '1 day', x::float8) FROM generate_series(1, 9) x"),
    (("gauge_agg", "timestamp with time zone,double precision"), "SELECT gauge_agg('2020-01-01'::timestamptz + x * interval '1 day', x::float8) FROM generate_series(1, 9) x"),
    (("state_agg", "timestamp with time zone,text"), "SELECT state_agg('2020-01-01'::timestamptz + x * interval '1 day', x::text) FROM generate_series(1, 9) x"),
    (("heartbeat_agg", "timestamp with time zone,timestamp with time zone,interval,interval"), "SELECT heartbeat_agg('2020-01-01'::timestamptz + x * interval '1 day', '2020-01-01', '20 days', '1 hour') FROM generate_series(1, 9) x"),
    (("max_n", "bigint,bigint"), "SELECT max_n(x::bigint, 3) FROM generate_series(1, 9) x"),
    (("freq_agg", "double precision,text"), "SELECT freq_agg(0.1, x::text) FROM generate_series(1, 9) x"),
    (("candlestick_agg", "timestamp with time zone,double precision,double precision"), "SELECT candlestick_agg('2020-01-01'::timestamptz + x * interval '1 day', x::float8, 2.0::float8) FROM generate_series(1, 9) x"),
    (("timevector", "timestamp with time zone,double precision"), "SELECT timevector('2020-01-01'::timestamptz + x * interval '1 day', x::float8) FROM generate_series(1, 9) x"),
]


def main_(chk):
    work = tempfile.mkdtemp(prefix="mcup.", dir="/tmp")
    try:
        go(chk, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def package(chk, tool, work, name, schema, froms):
    """A package directory as the release scripts make it, and the real tool run on it."""
    d = os.path.join(work, name)
    ext, lib = d + "/usr/share/extension", d + "/usr/lib"
    os.makedirs(ext)
    os.makedirs(lib)
    version = re.search(r'^version = "(.*)"', open(REPO + "/extension/Cargo.toml").read(), re.M).group(1)
    control = open(REPO + "/extension/timescaledb_toolkit.control").read().replace("@CARGO_VERSION@", version)
    listed = [x.strip() for x in re.search(r"^# upgradeable_from = '(.*)'", control, re.M).group(1).split(",")]
    if froms is None:
        froms = listed
    else:
        control = re.sub(r"^(# upgradeable_from = ').*'", lambda m: m.group(1) + ", ".join(froms) + "'", control, flags=re.M)
    cf, inst, so = ext + "/timescaledb_toolkit.control", ext + f"/timescaledb_toolkit--{version}.sql", lib + "/timescaledb_toolkit.so"
    for f, t in ((cf, control), (inst, schema), (so, "so")):
        open(f, "w").write(t)
    os.chmod(inst, 0o640)
    r = subprocess.run([tool, "--dir", d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        chk.violation({"post-install": name}, "exit 0", f"exit {r.returncode}: {r.stdout[-600:]}")
        return version, froms, None
    path = f"$libdir/timescaledb_toolkit-{version}"
    want = {os.path.basename(cf): 0, os.path.basename(inst): 0, **{f"timescaledb_toolkit--{v}--{version}.sql": 0 for v in froms}}
    if set(os.listdir(ext)) != set(want) or os.listdir(lib) != [f"timescaledb_toolkit-{version}.so"]:
        chk.violation({"post-install": name}, sorted(want), [sorted(os.listdir(ext)), os.listdir(lib)])
    if open(inst).read() != schema.replace("MODULE_PATHNAME", path):
        chk.violation({"post-install": name}, "the install script with the versioned library", "something else")
    got = open(cf).read().split("\n")
    if [l for l in got if l] != [l for l in control.split("\n") if l and not l.startswith("module_pathname")]:
        chk.violation({"post-install": name}, "the control file without module_pathname", got)
    scripts = {}
    for v in froms:
        f = f"{ext}/timescaledb_toolkit--{v}--{version}.sql"
        if not os.path.exists(f):
            continue
        if stat.S_IMODE(os.stat(f).st_mode) != 0o640:
            chk.violation({"post-install": name, "script": v}, "permissions of the install script", oct(os.stat(f).st_mode))
        scripts[v] = open(f).read().replace(path, "MODULE_PATHNAME")
        if "$libdir" in scripts[v]:
            chk.violation({"post-install": name, "script": v}, "the versioned library", "another library path")
    chk.traces += 1
    return version, froms, scripts


def go(chk, work):
    env = cargo_env()
    with Lock("ext"):
        sh(["cargo", "build", "--offline"], cwd=REPO + "/tools/post-install", env=env)
        tool = os.path.join(work, "post-install")
        shutil.copyfile(env["CARGO_TARGET_DIR"] + "/debug/post-install", tool)
        os.chmod(tool, 0o755)
    so, schema, sched = build_extension()
    schema = without_tests(schema)
    chk.cl = cl = pg.Cluster(so, "SELECT 1")
    os.unlink(so)
    os.unlink(sched)
    cuts = sorted({ver(v) for v in list(GF.values()) + list(GT.values()) + list(GO.values()) if v != "prehistory"})
    # every state the history distinguishes: at each version that stabilized something, and just before it
    synth = sorted({".".join(map(str, x)) for c in cuts for x in (c, (c[0], c[1] - 1, 99)) if x >= (1, 5, 0)}, key=ver)
    version, froms, s1 = package(chk, tool, work, "shipped", schema, None)
    _, froms2, s2 = package(chk, tool, work, "every cut", schema, [v for v in synth if ver(v) < ver(version)] + ["1.16.0-dev"])
    if s1 is None or s2 is None:
        return
    scripts = {("shipped", v): s for v, s in s1.items()}
    scripts.update({("cut", v): s for v, s in s2.items()})
    for v in froms:
        if ver(v) >= ver(version) and "-dev" not in version:
            chk.violation({"upgradeable_from": v}, f"older than {version}", "not older")
    c0 = cl.conn()
    c0.q("CREATE DATABASE fresh TEMPLATE template0")
    c = cl.conn("fresh")
    install = "SET check_function_bodies = off;\n" + schema.replace("MODULE_PATHNAME", cl.so)
    c.q(install)
    fresh = catalogue(c)
    F, T, O = funs(c), types(c), opers(c)
    ret = dict(map(tuple, c.q("SELECT oid::regprocedure::text, prorettype::regtype::text FROM pg_proc WHERE prokind='a'")))
    c.close()
    stable = lambda a: "toolkit_experimental." not in a

    def since_f(k):
        if k in UNLISTED:
            return (1, 16, 0)
        return ver(GF[k]) if k in GF else None     # None: newer than every released version, or experimental
    cases = []
    for kind, v in sorted(scripts):
        for old in ("same", "other"):
            for e in ("as now", "none", "own"):
                if kind == "cut" and e != "as now" and not chk.thorough:
                    continue
                cases.append((kind, v, old, e))

    def run(conn, part, out):
        for kind, v, old, e in part:
            case = {"from": v, "list": kind, "old definitions": old, "experimental schema": e}
            db = f"u{os.getpid()}_{out.traces}"
            conn.q(f"CREATE DATABASE {db} TEMPLATE fresh")
            c = cl.conn(db)
            try:
                one(c, case, scripts[kind, v], v, old, e, out)
            finally:
                c.close()
                conn.try_q(f"DROP DATABASE {db} WITH (FORCE)")

    def one(c, case, script, v, old, e, out):
        c.q("SET check_function_bodies = off; SET client_min_messages = error; SET allow_system_table_mods = on")
        # 1. the extension as of v
        if e != "as now":
            c.q("DROP SCHEMA toolkit_experimental CASCADE")
        new = lambda s: s is None or s > ver(v)
        for k, o in O.items():
            if stable(k[1] + k[2]) and (k not in GO or ver(GO[k]) > ver(v)):
                c.try_q(f"DROP OPERATOR IF EXISTS {o}")
        for want_kind in ("a", "f"):
            for k, (o, kind, _) in F.items():
                if kind == want_kind and stable(k[1]) and new(since_f(k)):
                    c.q(f"DROP {'AGGREGATE' if kind == 'a' else 'FUNCTION'} IF EXISTS {o} CASCADE")
        for k, o in T.items():
            if k not in GT or ver(GT[k]) > ver(v):
                c.q(f"DROP TYPE IF EXISTS {o} CASCADE")
        f0 = funs(c)
        # an aggregate that was there before the support functions it has now: the old one had others
        c.q("CREATE SCHEMA mine")
        for k, (o, kind, _) in F.items():
            if kind == "a" and stable(k[1]) and not new(since_f(k)) and k not in f0:
                a = o[o.index("("):]
                c.q(f"CREATE OR REPLACE FUNCTION mine.sf(int, {a[1:]} RETURNS int LANGUAGE sql AS 'SELECT 1'; CREATE OR REPLACE FUNCTION mine.ff{len(f0)}(int) RETURNS {ret[o]} LANGUAGE sql AS 'SELECT NULL::{ret[o]}'; "
                    f"CREATE AGGREGATE {o} (SFUNC=mine.sf, STYPE=int, FINALFUNC=mine.ff{len(f0)})")
                f0[k] = F[k]
        f0, t0, o0 = funs(c), types(c), opers(c)
        lost = [k for k in F if stable(k[1]) and not new(since_f(k)) and k not in f0] + [k for k in T if k in GT and ver(GT[k]) <= ver(v) and k not in t0] \
            + [k for k in O if k in GO and ver(GO[k]) <= ver(v) and k not in o0]
        if lost:
            out.violation(case, "the objects stabilized up to this version need only each other", f"{lost[:5]} need newer objects")
            return
        # 2. the user's objects
        cols = []
        for i, (k, o) in enumerate(sorted(t0.items())):
            cols.append(f"c{i} {o}")
        c.q("CREATE TABLE mine.t (" + ",".join(cols) + "); INSERT INTO mine.t DEFAULT VALUES")
        n = 0
        for need, q in DATA:
            if need in f0:
                c.q(f"CREATE TABLE mine.d{n} AS SELECT ({q}) AS x")
                n += 1
        calls, aggs = [], []
        for (name, args), (o, kind, setof) in sorted(f0.items()):
            a = args.split(",") if args else []
            if any(x in ("internal", "cstring", "anyelement", "record", "trigger") or x.startswith("toolkit_exp") for x in a) or setof == "t" or kind not in "fa":
                continue
            if kind == "f" and c.one(f"SELECT (SELECT typtype FROM pg_type t WHERE t.oid=prorettype) = 'p' FROM pg_proc WHERE oid='{o}'::regprocedure") == "t":
                continue
            (calls if kind == "f" else aggs).append(o.split("(")[0] + "(" + ",".join(f"NULL::{x}" for x in a) + ")")
        for (op, l, r), o in sorted(o0.items()):
            if stable(l + r):
                calls.append(f"((NULL::{l} {op} NULL::{r})::text)")
        c.q("CREATE VIEW mine.calls AS SELECT " + ",".join(f"{x} AS k{i}" for i, x in enumerate(calls)))
        c.q("CREATE VIEW mine.aggs AS SELECT " + ",".join(f"{x} AS k{i}" for i, x in enumerate(aggs)) + " FROM (SELECT) s")
        c.q("CREATE SEQUENCE mine.s")
        def user():
            r = {"views": c.q("SELECT relname, pg_get_viewdef(oid) FROM pg_class WHERE relnamespace='mine'::regnamespace AND relkind='v' ORDER BY 1"),
                 "columns": c.q("SELECT c.relname, attname, atttypid::regtype FROM pg_attribute a JOIN pg_class c ON c.oid=attrelid WHERE relnamespace='mine'::regnamespace AND attnum>0 AND relkind IN ('r','v') ORDER BY 1,2")}
            r["data"] = [c.q(f"SELECT x FROM mine.d{i}") for i in range(n)] + c.q("SELECT count(*) FROM mine.t")
            return r
        before = user()
        # 3. what the old version had in the experimental schema, and its own definitions of the stable objects
        if e == "own":
            c.q("CREATE SCHEMA toolkit_experimental; CREATE TABLE toolkit_experimental.x(a int); CREATE FUNCTION toolkit_experimental.gone(int) RETURNS int LANGUAGE sql AS 'SELECT 1'; CREATE VIEW toolkit_experimental.v AS SELECT toolkit_experimental.gone(a) FROM toolkit_experimental.x; CREATE VIEW mine_v AS SELECT * FROM toolkit_experimental.v")
            c.q("CREATE FUNCTION disallow_experimental_deps() RETURNS event_trigger LANGUAGE plpgsql AS 'BEGIN END'; CREATE EVENT TRIGGER disallow_experimental_deps ON ddl_command_end EXECUTE FUNCTION disallow_experimental_deps(); DROP EVENT TRIGGER disallow_experimental_deps; DROP FUNCTION disallow_experimental_deps()")
            c.q("CREATE FUNCTION disallow_experimental_dependencies() RETURNS event_trigger LANGUAGE plpgsql AS 'BEGIN END'; CREATE EVENT TRIGGER disallow_experimental_deps ON ddl_command_end EXECUTE FUNCTION disallow_experimental_dependencies(); CREATE FUNCTION disallow_experimental_view_dependencies() RETURNS event_trigger LANGUAGE plpgsql AS 'BEGIN END'; CREATE EVENT TRIGGER disallow_experimental_dependencies_on_views ON ddl_command_end EXECUTE FUNCTION disallow_experimental_view_dependencies(); CREATE FUNCTION timescaledb_toolkit_probe() RETURNS void LANGUAGE sql AS 'SELECT'")
        if old == "other":
            mine = "pronamespace='public'::regnamespace AND proname NOT IN ('disallow_experimental_dependencies','disallow_experimental_view_dependencies','timescaledb_toolkit_probe')"
            c.q(f"UPDATE pg_proc SET procost=777, proparallel='u', proleakproof=true WHERE {mine} AND prokind='a'")
            c.q(f"UPDATE pg_proc SET procost=777, proparallel='u', proisstrict=not proisstrict, provolatile=CASE provolatile WHEN 'v' THEN 'i' ELSE 'v' END, probin='/nonexistent/old.so', prosrc='old_'||prosrc, proleakproof=true WHERE {mine} AND prokind='f' AND probin IS NOT NULL")
            c.q("UPDATE pg_aggregate SET aggtransspace=4242, aggcombinefn=0, aggserialfn=0, aggdeserialfn=0 WHERE aggfnoid IN (SELECT oid FROM pg_proc WHERE pronamespace='public'::regnamespace)")
            c.close()
            c.connect()
            c.q("SET check_function_bodies = off; SET client_min_messages = error")
        # 4. the update, as one transaction, like ALTER EXTENSION UPDATE
        r = c.try_q("BEGIN;\n" + script.replace("MODULE_PATHNAME", cl.so) + "\nCOMMIT;")
        if isinstance(r, pg.PgError):
            pos = int(r.fields.get("P", "1"))
            out.violation(case, "the update succeeds", f"{r}: {script[max(0, pos - 20):pos + 120]}")
            return
        got = catalogue(c)
        for k in fresh:
            if got[k] != fresh[k]:
                miss, more = sorted(fresh[k] - got[k], key=str), sorted(got[k] - fresh[k], key=str)
                out.violation({**case, "catalogue": k}, f"{len(miss)} as in a fresh installation, such as {miss[:1]}", f"{len(more)} such as {more[:1]}")
                return
        after = user()
        for k in before:
            if before[k] != after[k]:
                out.violation({**case, "of the user": k}, str([x for x in before[k] if x not in after[k]])[:400], str([x for x in after[k] if x not in before[k]])[:400])
                return
        out.trace(case, len(statements(script)), hash64(json.dumps([sorted(map(str, f0)), old, e])))

    # each script on its own: run cases in the pool
    chk.explore("update from every version, every shape of the old installation", cases, run, chunk=2)


main(main_)
