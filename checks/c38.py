"""C38: for every accessor, aggregate -> accessor(arguments) is accessor(aggregate, arguments)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, lit
import vals

FUNS = r"""
CREATE FUNCTION public.mc_all(es text[]) RETURNS text[] LANGUAGE plpgsql AS $$
DECLARE r text[] := '{}'; e text; t text;
BEGIN
  FOREACH e IN ARRAY es LOOP
    BEGIN
      EXECUTE e INTO t;
      r := r || t;
    EXCEPTION WHEN OTHERS THEN r := r || ('ERR ' || left(SQLERRM, 0)); END;
  END LOOP;
  RETURN r;
END $$;
"""
SPECIAL = {"approx_percentile": lambda a, xs: f"approx_percentile({xs[0]}, {a})", "approx_percentile_rank": lambda a, xs: f"approx_percentile_rank({xs[0]}, {a})", "approx_percentiles": lambda a, xs: f"approx_percentile_array({xs[0]}, {a})"}


def run(chk):
    chk.start_pg()
    conn = chk.cl.conn()
    conn.q(vals.SETUP)
    conn.q(FUNS)
    ctors, V = vals.constructors(conn, with_null=True, every=chk.thorough), vals.values(chk.thorough)
    ops = conn.q("SELECT (SELECT typname FROM pg_type WHERE oid = oprleft), l.nspname || '.' || lt.typname, (SELECT typname FROM pg_type WHERE oid = oprright), rn.nspname || '.' || rt.typname, p.proretset FROM pg_operator o JOIN pg_namespace n ON n.oid = o.oprnamespace JOIN pg_proc p ON p.oid = o.oprcode JOIN pg_type lt ON lt.oid = oprleft JOIN pg_namespace l ON l.oid = lt.typnamespace JOIN pg_type rt ON rt.oid = oprright JOIN pg_namespace rn ON rn.oid = rt.typnamespace WHERE n.nspname IN ('public', 'toolkit_experimental') AND oprname = '->' ORDER BY 1, 3")
    cases, seen = [], set()
    for l, lq, r, rq, srf in ops:
        if r not in ctors:
            continue        # pipelines: C33
        if (l, r) == ("gaugesummary", "accessorcounterzerotime"):
            continue        # has no function form
        seen.add(r)
        es = [e for e in V[l]] + [f"NULL::{lq}"]
        if not chk.thorough and len(es) > 30:
            es = es[::len(es) // 30 + 1] + es[-1:]
        forms = []
        for ns, f, xs in ctors[r]:
            if f == "topn" and xs and not -2 ** 31 <= int(xs[0].split("::")[0].replace("NULL", "0")) < 2 ** 31:
                continue
            if r == "accessorpercentilearray" and any("'" in x and "::" not in x for x in xs):
                continue
            xs2 = [x.replace("::bigint", "::int") for x in xs] if f == "topn" else xs
            fn = SPECIAL[f]("a", xs2) if f in SPECIAL else f"{ns}.{f}({', '.join(['a'] + xs2)})"
            if r == "accessorasof":
                fn = f"a -> {ns}.{f}({', '.join(xs)})"  # no function form: only the ways of giving the accessor are compared
            forms.append((f"{ns}.{f}({', '.join(xs)})", fn))
        for e in es:
            cases.append((l, e, rq, srf == "t", tuple(forms)))
    if len(seen) < 100:
        chk.violation({"accessors": len(seen)}, "all the accessors", "operators are missing")
    conn.close()
    chk.explore("aggregates x accessors x arguments", cases, compare, chunk=60)


def compare(conn, part, out):
    conn.q("SET search_path = public, toolkit_experimental; DROP TABLE IF EXISTS pg_temp.v; DROP TABLE IF EXISTS pg_temp.k")
    for l, e, rq, srf, forms in part:
        conn.q("DROP TABLE IF EXISTS pg_temp.v; DROP TABLE IF EXISTS pg_temp.k")
        if isinstance(conn.try_q(f"CREATE TEMP TABLE v AS SELECT {e} AS a"), Exception):
            continue
        wrap = (lambda x, frm: f"SELECT json_agg(y::text)::text FROM (SELECT {x} AS y FROM {frm}) z") if srf else (lambda x, frm: f"SELECT ({x})::text FROM {frm}")
        qs = []
        for k, (acc, fn) in enumerate(forms):
            qs += [wrap(fn, "v"), wrap(f"a -> {acc}", "v"), wrap("a -> c", f"v, (SELECT {acc} AS c OFFSET 0) w"), wrap(f"a -> ({acc})::text::{rq}", "v"), f"SELECT a IS NULL OR ({acc}) IS NULL FROM v"]
        r = conn.q(f"SELECT unnest(mc_all(ARRAY[{','.join(lit(q) for q in qs)}]))")
        r = [x[0] for x in r]
        for k, (acc, fn) in enumerate(forms):
            want, null = r[5 * k], r[5 * k + 4]
            for how, got in zip(("constant", "column", "text form"), r[5 * k + 1:5 * k + 4]):
                out.trace(None, 2, (l, e, acc, how))
                if got != want and not (null == "true" and got is None) and not (str(null).startswith("ERR") and (want is None or "NULL::" in acc)):
                    # the operator is strict; a bad argument may be refused earlier
                    out.violation({"aggregate": e[:400], "accessor": acc, "function": fn, "form": how}, want, got)


main(run)
