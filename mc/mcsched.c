/*
 * mcsched: a controlled scheduler for PostgreSQL aggregates.
 *
 * mcrun(template, agg, prog, rows, argtypes) executes one aggregation schedule against the
 * real transition / combine / serialize / deserialize / final functions of an aggregate,
 * exactly as nodeAgg.c would call them, and returns the final result.
 *
 * prog is a stack program:
 *   [        push a fresh partial aggregate (NULL transition state)
 *   0-9a-zA-Z  transition of row i into the partial on top of the stack
 *   +        combine:  pop b, pop a, push combinefn(a, b)
 *   s        serialize + deserialize the partial on top of the stack
 *   *        transition of every row, in order
 *   {a:b:c}  transition of rows a, a+c, a+2c, ... below b (c may be negative: down to above b)
 *   f        call the final function and throw the result away
 * Input datums, serialized states and deserialized states are poisoned and freed as soon as
 * the executor would be allowed to free them.
 */
#include "postgres.h"
#include "fmgr.h"
#include "miscadmin.h"
#include "access/htup_details.h"
#include "catalog/pg_aggregate.h"
#include "catalog/pg_collation.h"
#include "catalog/pg_proc.h"
#include "catalog/pg_type.h"
#include "nodes/execnodes.h"
#include "parser/parse_agg.h"
#include "utils/array.h"
#include "utils/builtins.h"
#include "utils/datum.h"
#include "utils/lsyscache.h"
#include "utils/memutils.h"
#include "utils/syscache.h"

PG_MODULE_MAGIC;
PG_FUNCTION_INFO_V1(mcrun);

#define MAXARGS 16
#define MAXSTACK 64

typedef struct AggInfo
{
	struct AggInfo *next;
	Oid			agg;
	int			nargs;
	Oid			argtypes[MAXARGS];
	FmgrInfo	argin[MAXARGS];
	Oid			argioparam[MAXARGS];
	bool		argbyval[MAXARGS];
	int16		arglen[MAXARGS];
	FmgrInfo	trans, combine, serial, deserial, final;
	bool		has_combine, has_serial, has_final;
	Oid			restype;
	bool		resbyval;
	int16		reslen;
} AggInfo;

static AggInfo *infos = NULL;

typedef struct Entry
{
	Datum		val;
	bool		isnull;
	MemoryContext tmp;			/* context of a deserialized state */
	bytea	   *ser;
} Entry;

static AggInfo *
get_info(Oid agg, int ntypes, Oid *types)
{
	AggInfo    *i;
	HeapTuple	aggt, proct;
	Form_pg_aggregate af;
	Form_pg_proc pf;
	MemoryContext old;
	Expr	   *tex, *invex, *fex;
	int			k;

	for (i = infos; i; i = i->next)
		if (i->agg == agg && (ntypes < 0 || (i->nargs == ntypes && memcmp(i->argtypes, types, sizeof(Oid) * ntypes) == 0)))
			return i;
	aggt = SearchSysCache1(AGGFNOID, ObjectIdGetDatum(agg));
	proct = SearchSysCache1(PROCOID, ObjectIdGetDatum(agg));
	if (!HeapTupleIsValid(aggt) || !HeapTupleIsValid(proct))
		elog(ERROR, "mcrun: no such aggregate %u", agg);
	af = (Form_pg_aggregate) GETSTRUCT(aggt);
	pf = (Form_pg_proc) GETSTRUCT(proct);
	old = MemoryContextSwitchTo(TopMemoryContext);
	i = palloc0(sizeof(AggInfo));
	i->agg = agg;
	i->nargs = pf->pronargs;
	if (ntypes >= 0 && ntypes != i->nargs)
		elog(ERROR, "mcrun: wrong number of argument types");
	for (k = 0; k < i->nargs; k++)
	{
		Oid			inf;

		i->argtypes[k] = ntypes >= 0 ? types[k] : pf->proargtypes.values[k];
		getTypeInputInfo(i->argtypes[k], &inf, &i->argioparam[k]);
		fmgr_info(inf, &i->argin[k]);
		get_typlenbyval(i->argtypes[k], &i->arglen[k], &i->argbyval[k]);
	}
	build_aggregate_transfn_expr(i->argtypes, i->nargs, 0, false, af->aggtranstype,
								 DEFAULT_COLLATION_OID, af->aggtransfn, InvalidOid, &tex, &invex);
	fmgr_info(af->aggtransfn, &i->trans);
	fmgr_info_set_expr((Node *) tex, &i->trans);
	if (OidIsValid(af->aggcombinefn))
	{
		i->has_combine = true;
		build_aggregate_transfn_expr(&af->aggtranstype, 1, 0, false, af->aggtranstype,
									 DEFAULT_COLLATION_OID, af->aggcombinefn, InvalidOid, &tex, &invex);
		fmgr_info(af->aggcombinefn, &i->combine);
		fmgr_info_set_expr((Node *) tex, &i->combine);
	}
	if (OidIsValid(af->aggserialfn) && OidIsValid(af->aggdeserialfn))
	{
		i->has_serial = true;
		fmgr_info(af->aggserialfn, &i->serial);
		fmgr_info(af->aggdeserialfn, &i->deserial);
	}
	i->restype = af->aggtranstype;
	if (OidIsValid(af->aggfinalfn))
	{
		Oid			ftypes[1];

		i->has_final = true;
		fmgr_info(af->aggfinalfn, &i->final);
		i->restype = get_func_rettype(af->aggfinalfn);
		ftypes[0] = af->aggtranstype;
		build_aggregate_finalfn_expr(ftypes, 1, af->aggtranstype, i->restype, DEFAULT_COLLATION_OID, af->aggfinalfn, &fex);
		fmgr_info_set_expr((Node *) fex, &i->final);
	}
	get_typlenbyval(i->restype, &i->reslen, &i->resbyval);
	i->next = infos;
	infos = i;
	MemoryContextSwitchTo(old);
	ReleaseSysCache(aggt);
	ReleaseSysCache(proct);
	return i;
}

static Datum
call(FmgrInfo *f, AggState *as, int n, Datum *a, bool *nulls, bool *isnull)
{
	LOCAL_FCINFO(fc, MAXARGS + 1);
	Datum		r;
	int			k;

	InitFunctionCallInfoData(*fc, f, n, DEFAULT_COLLATION_OID, (Node *) as, NULL);
	for (k = 0; k < n; k++)
	{
		fc->args[k].value = a[k];
		fc->args[k].isnull = nulls[k];
	}
	r = FunctionCallInvoke(fc);
	*isnull = fc->isnull;
	return r;
}

static void
poison_datum(Datum d, bool byval, int16 len)
{
	if (byval)
		return;
	if (len == -1)
	{
		Size		n = VARSIZE_ANY(DatumGetPointer(d));

		memset(DatumGetPointer(d), 0x7E, n);
	}
	else if (len > 0)
		memset(DatumGetPointer(d), 0x7E, len);
}

static void
drop_tmp(Entry *e)
{
	if (e->ser)
		memset(e->ser, 0x7E, VARSIZE(e->ser));
	if (e->tmp)
		MemoryContextDelete(e->tmp);
	e->ser = NULL;
	e->tmp = NULL;
}

static Datum
do_final(AggInfo *ai, AggState *as, Entry *e, bool *isnull)
{
	if (!ai->has_final)
	{
		*isnull = e->isnull;
		return e->val;
	}
	if (ai->final.fn_strict && e->isnull)
	{
		*isnull = true;
		return (Datum) 0;
	}
	return call(&ai->final, as, 1, &e->val, &e->isnull, isnull);
}

static void
do_trans(AggInfo *ai, AggState *as, MemoryContext tup, Entry *e, Datum *elems, bool *enulls, int nrows, int r)
{
	Datum		a[MAXARGS + 1];
	bool		n[MAXARGS + 1];
	int			k;
	bool		skip = false;
	MemoryContext old;

	if (!e || r >= nrows)
		elog(ERROR, "mcrun: bad row or empty stack");
	if (e->tmp)
		elog(ERROR, "mcrun: transition on a deserialized state");
	old = MemoryContextSwitchTo(tup);
	a[0] = e->val;
	n[0] = e->isnull;
	for (k = 0; k < ai->nargs; k++)
	{
		int			x = r * ai->nargs + k;

		n[k + 1] = enulls[x];
		a[k + 1] = enulls[x] ? (Datum) 0 :
			InputFunctionCall(&ai->argin[k], text_to_cstring(DatumGetTextPP(elems[x])), ai->argioparam[k], -1);
		if (enulls[x] && ai->trans.fn_strict)
			skip = true;
	}
	if (!skip)
	{
		if (ai->trans.fn_strict && e->isnull)
			elog(ERROR, "mcrun: strict transition function with NULL state");
		e->val = call(&ai->trans, as, ai->nargs + 1, a, n, &e->isnull);
		for (k = 0; k < ai->nargs; k++)
			if (!n[k + 1])
				poison_datum(a[k + 1], ai->argbyval[k], ai->arglen[k]);
	}
	MemoryContextSwitchTo(old);
	MemoryContextReset(tup);
}

Datum
mcrun(PG_FUNCTION_ARGS)
{
	Oid			agg;
	char	   *prog, *p;
	ArrayType  *rows = NULL;
	AggInfo    *ai;
	Datum	   *elems = NULL;
	bool	   *enulls = NULL;
	int			nelems = 0, nrows = 0, sp = 0;
	Entry		st[MAXSTACK];
	MemoryContext aggctx, tup, old, callctx = CurrentMemoryContext;
	AggState   *as;
	ExprContext *ec;
	Datum		res;
	bool		resnull;

	if (PG_ARGISNULL(1) || PG_ARGISNULL(2))
		PG_RETURN_NULL();
	agg = PG_GETARG_OID(1);
	prog = text_to_cstring(PG_GETARG_TEXT_PP(2));
	if (PG_NARGS() > 4 && !PG_ARGISNULL(4))
	{
		ArrayType  *at = PG_GETARG_ARRAYTYPE_P(4);
		Datum	   *td;
		bool	   *tn;
		int			nt, k;
		Oid			ts[MAXARGS];

		deconstruct_array(at, ARR_ELEMTYPE(at), 4, true, TYPALIGN_INT, &td, &tn, &nt);
		for (k = 0; k < nt && k < MAXARGS; k++)
			ts[k] = DatumGetObjectId(td[k]);
		ai = get_info(agg, nt, ts);
	}
	else
		ai = get_info(agg, -1, NULL);
	if (ai->restype != get_fn_expr_argtype(fcinfo->flinfo, 0))
		elog(ERROR, "mcrun: template type differs from the aggregate's result type");
	if (!PG_ARGISNULL(3))
	{
		rows = PG_GETARG_ARRAYTYPE_P(3);
		deconstruct_array(rows, TEXTOID, -1, false, TYPALIGN_INT, &elems, &enulls, &nelems);
		if (nelems % ai->nargs)
			elog(ERROR, "mcrun: rows do not match the aggregate's arguments");
		nrows = nelems / ai->nargs;
	}

	aggctx = AllocSetContextCreate(callctx, "mcsched agg", ALLOCSET_DEFAULT_SIZES);
	tup = AllocSetContextCreate(callctx, "mcsched tuple", ALLOCSET_DEFAULT_SIZES);
	as = makeNode(AggState);
	ec = makeNode(ExprContext);
	ec->ecxt_per_tuple_memory = aggctx;
	ec->ecxt_per_query_memory = callctx;
	as->curaggcontext = ec;
	as->tmpcontext = makeNode(ExprContext);
	as->tmpcontext->ecxt_per_tuple_memory = tup;
	as->tmpcontext->ecxt_per_query_memory = callctx;

	for (p = prog; *p; p++)
	{
		int			r = -1;

		CHECK_FOR_INTERRUPTS();
		if (*p >= '0' && *p <= '9')
			r = *p - '0';
		else if (*p >= 'A' && *p <= 'Z')
			r = *p - 'A' + 10;
		else if (*p >= 'a' && *p <= 'e')
			r = *p - 'a' + 36;
		else if (*p == '[')
		{
			if (sp >= MAXSTACK)
				elog(ERROR, "mcrun: stack overflow");
			memset(&st[sp], 0, sizeof(Entry));
			st[sp].isnull = true;
			sp++;
			continue;
		}
		else if (*p == '*')
		{
			/* every row, in order */
			int			q;

			for (q = 0; q < nrows; q++)
				do_trans(ai, as, tup, sp < 1 ? NULL : &st[sp - 1], elems, enulls, nrows, q);
			continue;
		}
		else if (*p == '{')
		{
			long		a, b, c, q;
			char	   *e;

			a = strtol(p + 1, &e, 10);
			b = strtol(e + 1, &e, 10);
			c = strtol(e + 1, &e, 10);
			if (*e != '}' || c == 0)
				elog(ERROR, "mcrun: bad range");
			for (q = a; c > 0 ? q < b : q > b; q += c)
				do_trans(ai, as, tup, sp < 1 ? NULL : &st[sp - 1], elems, enulls, nrows, (int) q);
			p = e;
			continue;
		}
		if (r >= 0)
		{
			do_trans(ai, as, tup, sp < 1 ? NULL : &st[sp - 1], elems, enulls, nrows, r);
			continue;
		}
		switch (*p)
		{
			case '+':
				{
					Datum		a[2];
					bool		n[2];
					Entry	   *x, *y;

					if (sp < 2)
						elog(ERROR, "mcrun: combine needs two partials");
					if (!ai->has_combine)
						elog(ERROR, "mcrun: aggregate has no combine function");
					x = &st[sp - 2];
					y = &st[sp - 1];
					if (x->tmp)
						elog(ERROR, "mcrun: left side of combine is a deserialized state");
					a[0] = x->val;
					n[0] = x->isnull;
					a[1] = y->val;
					n[1] = y->isnull;
					old = MemoryContextSwitchTo(tup);
					if (ai->combine.fn_strict && (n[0] || n[1]))
					{
						if (!n[1])
							elog(ERROR, "mcrun: strict combine with NULL state");
					}
					else
						x->val = call(&ai->combine, as, 2, a, n, &x->isnull);
					MemoryContextSwitchTo(old);
					MemoryContextReset(tup);
					drop_tmp(y);
					sp--;
					break;
				}
			case 's':
				{
					Entry	   *e;
					Datum		s, a[2];
					bool		n[2], sn;

					if (sp < 1)
						elog(ERROR, "mcrun: empty stack");
					if (!ai->has_serial)
						elog(ERROR, "mcrun: aggregate has no serial functions");
					e = &st[sp - 1];
					if (e->tmp)
						elog(ERROR, "mcrun: state already deserialized");
					if (e->isnull && ai->serial.fn_strict)
						break;
					e->tmp = AllocSetContextCreate(callctx, "mcsched deser", ALLOCSET_DEFAULT_SIZES);
					old = MemoryContextSwitchTo(tup);
					a[0] = e->val;
					n[0] = e->isnull;
					s = call(&ai->serial, as, 1, a, n, &sn);
					if (sn)
						e->isnull = true;
					else
					{
						MemoryContextSwitchTo(e->tmp);
						e->ser = (bytea *) PG_DETOAST_DATUM_COPY(s);
					}
					MemoryContextReset(tup);
					MemoryContextSwitchTo(e->tmp);
					a[0] = PointerGetDatum(e->ser);
					n[0] = sn;
					a[1] = (Datum) 0;
					n[1] = false;
					if (sn && ai->deserial.fn_strict)
						e->isnull = true;
					else
						e->val = call(&ai->deserial, as, 2, a, n, &e->isnull);
					MemoryContextSwitchTo(old);
					break;
				}
			case 'f':
				{
					bool		dn;

					if (sp < 1)
						elog(ERROR, "mcrun: empty stack");
					old = MemoryContextSwitchTo(tup);
					do_final(ai, as, &st[sp - 1], &dn);
					MemoryContextSwitchTo(old);
					MemoryContextReset(tup);
					break;
				}
			default:
				elog(ERROR, "mcrun: bad program character '%c'", *p);
		}
	}
	if (sp != 1)
		elog(ERROR, "mcrun: %d partials left", sp);
	old = MemoryContextSwitchTo(tup);
	res = do_final(ai, as, &st[0], &resnull);
	MemoryContextSwitchTo(old);
	if (!resnull && !ai->resbyval)
	{
		if (ai->reslen == -1)
			res = PointerGetDatum(PG_DETOAST_DATUM_COPY(res));
		else
			res = datumCopy(res, ai->resbyval, ai->reslen);
	}
	drop_tmp(&st[0]);
	MemoryContextDelete(tup);
	MemoryContextDelete(aggctx);
	if (resnull)
		PG_RETURN_NULL();
	PG_RETURN_DATUM(res);
}
