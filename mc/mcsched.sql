CREATE FUNCTION mcrun(anyelement, regprocedure, text, text[], oid[] DEFAULT NULL) RETURNS anyelement
  AS 'MCSCHED_PATHNAME', 'mcrun' LANGUAGE C VOLATILE;
CREATE FUNCTION mctry(q text) RETURNS text LANGUAGE plpgsql AS $$
DECLARE r text; BEGIN EXECUTE q INTO r; RETURN r;
EXCEPTION WHEN OTHERS THEN RETURN 'ERR ' || SQLSTATE || ' ' || SQLERRM; END $$;
-- stand-in for TimescaleDB's time_bucket (only what the toolkit's SQL functions call)
CREATE FUNCTION time_bucket(interval, timestamptz) RETURNS timestamptz LANGUAGE SQL IMMUTABLE AS
  $$ SELECT date_bin($1, $2, '2000-01-03'::timestamptz) $$;
