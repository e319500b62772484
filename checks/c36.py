"""C36: a value of any of the extension's types stays the same value through its text form (under every setting, in another session or
database) and through every way in which PostgreSQL stores and hands on a datum."""
import os, sys, itertools, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, lit
import vals

PATH = "public, toolkit_experimental"
BASE = {"DateStyle": "ISO, MDY", "TimeZone": "UTC", "IntervalStyle": "postgres", "extra_float_digits": "1", "search_path": PATH}
STYLES = {"DateStyle": ["ISO, MDY", "ISO, DMY", "SQL, MDY", "SQL, DMY", "German", "Postgres, DMY", "Postgres, MDY"],
          "TimeZone": ["UTC", "America/New_York", "Asia/Kathmandu", "Europe/Dublin"],
          "IntervalStyle": ["postgres", "sql_standard", "iso_8601", "postgres_verbose"],
          "extra_float_digits": ["1", "0", "-15", "3"],
          "search_path": [PATH, "''", "mcs, public, toolkit_experimental"]}
FUNS = r"""
-- every observer of the value that expression x gives in the row
CREATE FUNCTION public.mc_obs(obs text[], x text, frm text) RETURNS text[] LANGUAGE plpgsql AS $$
DECLARE r text[] := '{}'; o text; t text;
BEGIN
  BEGIN   -- mostly, none is an error
    EXECUTE 'SELECT ARRAY[' || (SELECT string_agg('(' || replace(u, '{a}', x) || ')::text', ',') FROM unnest(obs) u) || '] FROM ' || frm INTO r;
    RETURN r;
  EXCEPTION WHEN OTHERS THEN r := '{}'; END;
  FOREACH o IN ARRAY obs LOOP
    BEGIN
      EXECUTE 'SELECT (' || replace(o, '{a}', x) || ')::text FROM ' || frm INTO t;
      r := r || t;
    EXCEPTION WHEN OTHERS THEN r := r || ('ERR'::text); END;
  END LOOP;
  RETURN r;
END $$;
"""


def setting(conn, s):
    for k in BASE:
        v = s.get(k, BASE[k])
        conn.q(f"SET {k} = {v if k == 'search_path' else lit(v)}")


def try1(conn, q):
    r = conn.try_q(q)
    return ("ERR " + str(r)[:200], None) if isinstance(r, Exception) else (None, r)


def prepare(conn):
    setting(conn, {})


def values_of(chk, conn):
    """[(type, qualified type, expression, [observer])] without errors and NULLs"""
    cat, V = vals.catalog(conn), vals.values(chk.thorough)
    for t, l in vals.constructors(conn, every=chk.thorough).items():
        V[t] = [f"{ns}.{f}({', '.join(a)})" for ns, f, a in l]
    missing = [t for t in cat if t not in V and t != "datumstoretester"]
    if missing:
        chk.violation({"types": missing}, "values of every type", "none are made")
    roll = {r[0]: r[1] for r in conn.q("SELECT t.typname, min(pn.nspname || '.rollup') FROM pg_proc p JOIN pg_namespace pn ON pn.oid = p.pronamespace JOIN pg_type t ON t.oid = p.proargtypes[0] WHERE p.prokind = 'a' AND p.proname = 'rollup' AND p.pronargs = 1 GROUP BY 1")}
    out = []
    for t, es in V.items():
        if t not in cat:
            continue
        n, obs = cat[t]
        if t in roll:
            obs = obs + [f"(SELECT {roll[t]}(y) FROM (VALUES ({{a}}), ({{a}})) z(y))"]
        for e in es:
            out.append((t, n, e, obs))
    return out


def run(chk):
    chk.start_pg()
    conn = chk.cl.conn()
    conn.q(vals.SETUP)
    conn.q(FUNS)
    prepare(conn)
    # the same types and functions in another database, made in another order, so that every object has another OID there
    conn.q("CREATE DATABASE mc_other")
    other_setup(chk)
    allv = values_of(chk, conn)
    ok = []
    for t, n, e, obs in allv:
        r = conn.try_q(f"SELECT ({e}) IS NULL, pg_typeof({e})")
        if not isinstance(r, Exception) and r[0][0] == "f":
            ok.append((t, n, e, obs))
    conn.close()
    chk.explore("text form x settings, sessions and databases", ok, text_forms, chunk=24)
    chk.explore("stored x alignment x storage x container", ok, stored, chunk=24)
    chk.assumptions += ["Two values count as the same when all functions of one argument, the listed functions with further arguments, rollup and the text form give the same text (or all fail).",
                        "Output settings are judged only where PostgreSQL's own timestamptz survives being printed and read under the same settings.",
                        "Reading under other settings than the value was printed with: only DateStyle ISO on the printing side, any TimeZone, IntervalStyle and search_path on the other."]


def other_setup(chk):
    c2 = chk.cl.conn(db="mc_other")
    c2.q("CREATE TYPE public.filler1 AS ENUM ('x')")
    c2.q("SET check_function_bodies = off;\n" + chk.cl.schema)
    c2.q("SET check_function_bodies = on")
    c2.q("CREATE TYPE public.filler2 AS (a int)")
    lines = [l for l in vals.SETUP.strip().split("\n")]
    order = [l for l in lines if "SCHEMA" in l or l.startswith("SET")] + [l for l in lines if "DOMAIN" in l or "pair" in l] + [l for l in lines if " en " in l or ".en " in l and "mkenum" not in l and "SCHEMA" not in l]
    order += [l for l in reversed(lines) if l not in order]
    for l in order:
        c2.q(l)
    c2.q(FUNS)
    c2.close()


def text_forms(conn, part, out):
    prepare(conn)
    conn2 = out.check.cl.conn(db="mc_other")
    prepare(conn2)
    groups = {}
    for t, n, e, obs in part:
        groups.setdefault((t, n, tuple(obs)), []).append(e)
    for (t, n, obs), es in groups.items():
        arr = "ARRAY[" + ",".join(lit(o) for o in obs) + "]"
        conn.q("DROP TABLE IF EXISTS pg_temp.v")
        conn.q(f"CREATE TEMP TABLE v(id int, a {n})")
        for i, e in enumerate(es):
            conn.q(f"INSERT INTO v SELECT {i}, {e}")
        orig = {r[0]: r[1] for r in conn.q("SELECT id, a::text FROM v")}

        def judge(cn, src, how, tag=None, deep=False, frm=""):
            """src: an expression that reads the value back from the text in column a"""
            err, rows = try1(cn, f"SELECT id, ({src})::text FROM {frm or 'v'}")
            if err:
                rows = []
                for i in range(len(es)):
                    err1, r = try1(cn, f"SELECT id, ({src})::text FROM {frm or 'v'} WHERE id = {i}")
                    if err1:
                        out.violation({"type": t, "value": es[i][:300], "text": orig[str(i)][:300], "how": how}, "the same value", err1, **({"tag": tag} if tag else {}))
                    else:
                        rows += r
            return rows

        # printed and read in the same session: every observer
        for i in range(len(es)):
            a = conn.q(f"SELECT public.mc_obs({arr}, 'a', 'v WHERE id = {i}')")[0][0]
            b = try1(conn, f"SELECT public.mc_obs({arr}, '(a::text::{n})', 'v WHERE id = {i}')")
            got = b[0] or b[1][0][0]
            out.trace(None, len(obs), (t, es[i]))
            if got != a:
                out.violation({"type": t, "value": es[i][:300], "text": orig[str(i)][:300], "how": "a::text::" + n, "observers": list(obs)}, a[:1500], got[:1500])
        # a literal: the planner reads it
        for i in range(len(es)):
            err, r = try1(conn, f"SELECT ({lit(orig[str(i)])}::{n})::text")
            out.trace()
            if err or r[0][0] != orig[str(i)]:
                out.violation({"type": t, "value": es[i][:300], "how": "a constant"}, orig[str(i)][:500], err or r[0][0][:500])
        # settings: both sides under the same settings
        combos = [{k: v} for k in STYLES for v in STYLES[k][1:]]
        combos += [{"DateStyle": d, "TimeZone": z} for d, z in zip(STYLES["DateStyle"][2:], itertools.cycle(STYLES["TimeZone"][1:]))]
        if out.check.thorough:
            combos = [dict(zip(STYLES, v)) for v in itertools.product(*STYLES.values())]
        for s in combos:
            if int(s.get("extra_float_digits", 1)) < 1 and (t == "spacesavingaggregate" or t.startswith(("minby", "maxby"))):
                continue    # these hold data in PostgreSQL's own text form
            setting(conn, s)
            err, r = try1(conn, "SELECT bool_and(x::timestamptz::text::timestamptz = x::timestamptz) FROM unnest(ARRAY[" + ",".join(lit(x) for x in vals.TS) + "]) x")
            okset = not err and r[0][0] == "t"
            q = qualify(n)
            rows = judge(conn, f"(a::text::{q})", s) if okset else []
            if rows and "search_path" not in s:
                pass
            # compare under the base settings
            conn.q("DROP TABLE IF EXISTS pg_temp.w")
            good = [r[0] for r in rows]
            if good:
                conn.q(f"CREATE TEMP TABLE w AS SELECT id, a::text::{q} AS a FROM v WHERE id IN ({','.join(good)})")
            # printed under ISO dates, read under s
            iso = "DateStyle" not in s or s["DateStyle"].startswith("ISO")
            texts = conn.q("SELECT id, a::text FROM v") if iso else None
            setting(conn, {})
            if good:
                for i, x in conn.q("SELECT id, a::text FROM w"):
                    out.trace(None, 1, (t, es[int(i)], str(s)))
                    if x != orig[i]:
                        out.violation({"type": t, "value": es[int(i)][:300], "how": s}, orig[i][:700], x[:700])
            if iso:
                for i, tx in texts:
                    err, r = try1(conn, f"SELECT ({lit(tx)}::{q})::text")
                    out.trace()
                    if err or r[0][0] != orig[i]:
                        out.violation({"type": t, "value": es[int(i)][:300], "text": tx[:300], "how": f"printed under {s}, read under the defaults"}, orig[i][:700], err or r[0][0][:700])
        # printed under the defaults, read under s
        for s in ([{"TimeZone": z} for z in STYLES["TimeZone"][1:]] + [{"IntervalStyle": z} for z in STYLES["IntervalStyle"][1:]] + [{"DateStyle": z} for z in STYLES["DateStyle"][1:]] + [{"search_path": "''"}]):
            setting(conn, s)
            conn.q("DROP TABLE IF EXISTS pg_temp.w")
            conn.q(f"CREATE TEMP TABLE w(id int, a {qualify(n)})")
            for i in orig:
                err, r = try1(conn, f"INSERT INTO w VALUES ({i}, {lit(orig[i])}::{qualify(n)})")
                if err:
                    out.violation({"type": t, "value": es[int(i)][:300], "text": orig[i][:300], "how": f"printed under the defaults, read under {s}"}, "the same value", err)
            setting(conn, {})
            for i, x in conn.q("SELECT id, a::text FROM w"):
                out.trace()
                if x != orig[i]:
                    out.violation({"type": t, "value": es[int(i)][:300], "how": f"printed under the defaults, read under {s}"}, orig[i][:700], x[:700])
        # another database
        for i in range(len(es)):
            tag = None
            if any(u in es[i] for u in ("mcs.", '"mc s"')) and t.startswith(("minby", "maxby", "spacesavingaggregate")):
                tag = "stored-type-oid"
            a = conn.q(f"SELECT public.mc_obs({arr}, 'a', 'v WHERE id = {i}')")[0][0]
            err, b = try1(conn2, f"SELECT public.mc_obs({arr}, 'a', $f$(SELECT {lit(orig[str(i)])}::{n} AS a) x$f$)")
            out.trace(None, len(obs), (t, es[i], "other database"))
            if err or b[0][0] != a:
                out.violation({"type": t, "value": es[i][:300], "text": orig[str(i)][:300], "how": "read in another database"}, a[:1500], err or b[0][0][:1500], **({"tag": tag} if tag else {}))
    conn2.close()


def qualify(n):
    return n


STOR = ["EXTENDED", "EXTERNAL", "MAIN", "PLAIN"]


def stored(conn, part, out):
    prepare(conn)
    groups = {}
    for t, n, e, obs in part:
        groups.setdefault((t, n, tuple(obs)), []).append(e)
    for (t, n, obs), es in groups.items():
        arr = "ARRAY[" + ",".join(lit(o) for o in obs) + "]"
        for tb in ("v", "w", "x", "y", "z"):
            conn.q(f"DROP TABLE IF EXISTS pg_temp.{tb}")
        conn.q(f"CREATE TEMP TABLE v(id int, a {n})")
        want = {}
        for i, e in enumerate(es):
            conn.q(f"INSERT INTO v SELECT {i}, {e}")
            want[i] = conn.q(f"SELECT public.mc_obs({arr}, 'a', 'v WHERE id = {i}')")[0][0]
            # never stored: the value as the aggregate returned it (states are kept in no order)
            if "state_agg(" not in e:
                got = conn.q(f"SELECT public.mc_obs({arr}, 'a', $f$(SELECT {e} AS a OFFSET 0) x$f$)")[0][0]
                out.trace(None, len(obs), (t, e, "fresh"))
                if got != want[i]:
                    out.violation({"type": t, "value": e[:300], "how": "not stored", "observers": list(obs)}, want[i][:1500], got[:1500])
        pads = range(9) if out.check.thorough else (0, 1, 2, 4, 7)
        for st in STOR:
            for p in (pads if st in ("EXTENDED", "PLAIN") or out.check.thorough else (0, 3)):
                conn.q("DROP TABLE IF EXISTS pg_temp.w")
                cols = "".join(f"p{j} bool, " for j in range(p))
                conn.q(f"CREATE TEMP TABLE w(id int, {cols}a {n}, e int)")
                conn.q(f"ALTER TABLE w ALTER a SET STORAGE {st}")
                sel = ", ".join(["id"] + ["true"] * p + ["a", "id"])
                q = f"INSERT INTO w SELECT {sel} FROM v" + (" WHERE pg_column_size(a) < 7000 AND length(a::text) < 7000" if st == "PLAIN" else "")
                err, _ = try1(conn, q)
                if err:
                    if st != "PLAIN":
                        out.violation({"type": t, "how": f"storage {st}"}, "stored", err)
                    continue
                for (i,) in conn.q("SELECT id FROM w"):
                    got = conn.q(f"SELECT public.mc_obs({arr}, 'a', 'w WHERE id = {i}')")[0][0]
                    out.trace(None, len(obs), (t, es[int(i)], st, p))
                    if got != want[int(i)]:
                        out.violation({"type": t, "value": es[int(i)][:300], "how": f"stored {st} after {p} one-byte columns", "observers": list(obs)}, want[int(i)][:1500], got[:1500])
        # containers and ways through expressions
        conn.q(f"CREATE TEMP TABLE x(id int, b bool, c {n}[], d {n}[])")
        conn.q(f"INSERT INTO x SELECT id, true, ARRAY[NULL, a, a], (SELECT array_agg(a ORDER BY w.id) FROM v w WHERE w.id <= v.id) FROM v")
        conn.q("DROP TYPE IF EXISTS pg_temp.mc_c CASCADE")
        conn.q(f"CREATE TYPE pg_temp.mc_c AS (b bool, a {n}, c {n})")
        conn.q("CREATE TEMP TABLE y(id int, rw pg_temp.mc_c)")
        conn.q("INSERT INTO y SELECT id, ROW(true, a, a)::pg_temp.mc_c FROM v")
        conn.q(f"CREATE OR REPLACE FUNCTION pg_temp.mc_through(a {n}) RETURNS {n} LANGUAGE plpgsql AS $$ DECLARE b {n}; r record; BEGIN b := a; SELECT true AS t, b AS c INTO r; RETURN r.c; END $$")
        ways = {"array element": ("(c[2])", "x"), "last array element": ("(c[3])", "x"), "aggregated array": ("(d[id + 1])", "x"), "field": ("((rw).a)", "y"), "last field": ("((rw).c)", "y"),
                "array through text": (f"((c::text::{n}[])[2])", "x"), "row through text": ("((rw::text::pg_temp.mc_c).a)", "y"),
                "function": ("(pg_temp.mc_through(a))", "v"), "case": ("(CASE WHEN id >= 0 THEN a END)", "v"), "coalesce": (f"(coalesce(NULL::{n}, a))", "v"), "subquery": ("(SELECT w.a FROM v w WHERE w.id = v.id)", "v"),
                "window": (f"(SELECT first_value(q.a) OVER (ORDER BY q.id DESC) FROM v q WHERE q.id <= v.id LIMIT 1)", "v"), "sorted and materialized": (f"(SELECT a FROM (SELECT a, id i FROM v q ORDER BY id DESC OFFSET 0) k WHERE k.i = v.id)", "v")}
        for how, (x, frm) in ways.items():
            for i in range(len(es)):
                err, r = try1(conn, f"SELECT public.mc_obs({arr}, {lit(x)}, '{frm} WHERE id = {i}')")
                out.trace(None, len(obs), (t, es[i], how))
                if err or r[0][0] != want[i]:
                    out.violation({"type": t, "value": es[i][:300], "how": how, "observers": list(obs)}, want[i][:1500], err or r[0][0][:1500])


main(run)
