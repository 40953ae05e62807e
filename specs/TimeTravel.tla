----------------------------- MODULE TimeTravel -----------------------------
(***************************************************************************)
(* Queries that refer to tables at a version, `name('version')`.           *)
(*                                                                         *)
(* A state is a query, built outwards from a first table reference: each   *)
(* step puts the query so far into some position of a larger one and adds  *)
(* further references.  `src` is the text as a user writes it; `dst` is    *)
(* the same text with every versioned reference (and nothing else)         *)
(* replaced by a placeholder "@k" for the k-th entry of `refs`, the table  *)
(* and version it must be redirected to and reported as needing.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Base,      \* references the innermost query may make
          Added,     \* references added by the surrounding queries
          Depth      \* nesting depth

VARIABLES src, dst, refs, depth, pos
vars == <<src, dst, refs, depth, pos>>

DefaultDb == "dflt"
DefaultSchema == "public"

\* How a table is written, and which table that is
Name(x) ==
  CASE x = "t"       -> [pre |-> "",           txt |-> "t",        full |-> <<DefaultDb, DefaultSchema, "t">>]
    [] x = "T"       -> [pre |-> "",           txt |-> "T",        full |-> <<DefaultDb, DefaultSchema, "t">>]
    [] x = "qT"      -> [pre |-> "",           txt |-> "\"T\"",    full |-> <<DefaultDb, DefaultSchema, "T">>]
    [] x = "s.t"     -> [pre |-> "s.",         txt |-> "t",        full |-> <<DefaultDb, "s", "t">>]
    [] x = "S.t"     -> [pre |-> "S.",         txt |-> "t",        full |-> <<DefaultDb, "s", "t">>]
    [] x = "qS.t"    -> [pre |-> "\"S\".",     txt |-> "t",        full |-> <<DefaultDb, "S", "t">>]
    [] x = "d.s.t"   -> [pre |-> "d.s.",       txt |-> "t",        full |-> <<"d", "s", "t">>]
    [] x = "qdot"    -> [pre |-> "",           txt |-> "\"t.u\"",  full |-> <<DefaultDb, DefaultSchema, "t.u">>]
    [] x = "qall"    -> [pre |-> "\"D b\".\"s.s\".", txt |-> "\"t:u\"", full |-> <<"D b", "s.s", "t:u">>]
    [] x = "u"       -> [pre |-> "",           txt |-> "u",        full |-> <<DefaultDb, DefaultSchema, "u">>]

\* Kinds of reference
\*   plain: no version;  ver: the version;  the others are table functions that are no version references
Versions == [v1 |-> "2020-01-01T00:00:00Z", v2 |-> "2021-02-03 04:05:06", v3 |-> "Fri, 14 Jul 2017 02:40:00 +0000"]
Ref(r, k) ==   \* r = <<name, kind>>, k = number of versioned references so far
  LET n == Name(r[1]) IN
  CASE r[2] = "plain" -> [s |-> n.pre \o n.txt, d |-> n.pre \o n.txt, refs |-> <<>>]
    [] r[2] \in DOMAIN Versions ->
         [s |-> n.pre \o n.txt \o "('" \o Versions[r[2]] \o "')", d |-> n.pre \o "\"@" \o ToString(k + 1) \o "\"",
          refs |-> <<[full |-> n.full, v |-> Versions[r[2]]]>>]
    [] r[2] = "num"   -> [s |-> n.txt \o "(42)", d |-> n.txt \o "(42)", refs |-> <<>>]
    [] r[2] = "none"  -> [s |-> n.txt \o "()", d |-> n.txt \o "()", refs |-> <<>>]
    [] r[2] = "two"   -> [s |-> n.txt \o "('a', 'b')", d |-> n.txt \o "('a', 'b')", refs |-> <<>>]
    [] r[2] = "expr"  -> [s |-> n.txt \o "('a' || 'b')", d |-> n.txt \o "('a' || 'b')", refs |-> <<>>]
    [] r[2] = "col"   -> [s |-> n.txt \o "(x)", d |-> n.txt \o "(x)", refs |-> <<>>]
    [] r[2] = "named" -> [s |-> n.txt \o "(x => 'v')", d |-> n.txt \o "(x => 'v')", refs |-> <<>>]

\* Positions: text before the inner query, between inner query and reference, after; `first` tells which comes first
P(id, a, b, c, innerFirst) == [id |-> id, a |-> a, b |-> b, c |-> c, inf |-> innerFirst]
Positions == {
  P("derived-join",   "SELECT * FROM (", ") AS x JOIN ", " AS y ON x.a = y.a", TRUE),
  P("left-join",      "SELECT * FROM ", " AS y LEFT JOIN (", ") AS x ON x.a = y.a", FALSE),
  P("comma",          "SELECT * FROM ", " AS y, (", ") AS x", FALSE),
  P("nested-join",    "SELECT * FROM (", " AS y CROSS JOIN (", ") AS x)", FALSE),
  P("lateral",        "SELECT * FROM ", " AS y, LATERAL (", ") AS x", FALSE),
  P("cte",            "WITH c AS (", ") SELECT * FROM c, ", " AS y", TRUE),
  P("cte-in-derived", "SELECT * FROM (WITH c AS (", ") SELECT * FROM c) AS x, ", " AS y", TRUE),
  P("cte-second",     "WITH b AS (SELECT a FROM ", "), c AS (", ") SELECT * FROM b, c", FALSE),
  P("union",          "SELECT a FROM (", ") AS x UNION SELECT a FROM ", "", TRUE),
  P("union-all",      "SELECT a FROM ", " UNION ALL (", ")", FALSE),
  P("except",         "SELECT a FROM ", " EXCEPT (", ")", FALSE),
  P("intersect",      "SELECT a FROM ", " INTERSECT (", ")", FALSE),
  P("in",             "SELECT a FROM ", " AS y WHERE y.a IN (", ")", FALSE),
  P("not-in",         "SELECT a FROM ", " AS y WHERE NOT (y.a NOT IN (", ")) AND y.a > 1", FALSE),
  P("exists",         "SELECT a FROM ", " AS y WHERE EXISTS (", ")", FALSE),
  P("not-exists",     "SELECT a FROM ", " AS y WHERE y.a = 1 OR NOT EXISTS (", ")", FALSE),
  P("compare",        "SELECT a FROM ", " AS y WHERE y.a = (", ")", FALSE),
  P("between",        "SELECT a FROM ", " AS y WHERE y.a BETWEEN 0 AND (", ")", FALSE),
  P("scalar",         "SELECT (", ") AS a FROM ", " AS y", TRUE),
  P("function-arg",   "SELECT coalesce((", "), 1) AS a FROM ", " AS y", TRUE),
  P("case",           "SELECT CASE WHEN y.a = (", ") THEN 1 ELSE 0 END AS a FROM ", " AS y", TRUE),
  P("cast",           "SELECT CAST((", ") AS BIGINT) + 1 AS a FROM ", " AS y", TRUE),
  P("having",         "SELECT count(*) AS a FROM ", " AS y GROUP BY y.a HAVING count(*) > (", ")", FALSE),
  P("group-by",       "SELECT count(*) AS a FROM ", " AS y GROUP BY (", ")", FALSE),
  P("order-by",       "SELECT a FROM ", " AS y ORDER BY (", ")", FALSE),
  P("join-on",        "SELECT y.a FROM u JOIN ", " AS y ON y.a = (", ")", FALSE),
  P("distinct-on",    "SELECT DISTINCT ON ((", ")) y.a FROM ", " AS y", TRUE),
  P("aggregate",      "SELECT sum((", ") + max(y.a)) AS a FROM ", " AS y", TRUE),
  P("window",         "SELECT sum(y.a) OVER (PARTITION BY (", ")) AS a FROM ", " AS y", TRUE),
  P("look-alikes",    "SELECT t('v1') AS b, 't(''v1'')' AS a, \"t('v1')\" FROM ", " AS t WHERE t.a IN (", ")", FALSE)
}

Init == \E r \in Base : LET f == Ref(r, 0) IN
          /\ src = "SELECT a FROM " \o f.s /\ dst = "SELECT a FROM " \o f.d
          /\ refs = f.refs /\ depth = 1 /\ pos = <<>>

Surround(p, r) ==
  LET f == Ref(r, Len(refs)) IN
  /\ depth < Depth
  /\ src' = IF p.inf THEN p.a \o src \o p.b \o f.s \o p.c ELSE p.a \o f.s \o p.b \o src \o p.c
  /\ dst' = IF p.inf THEN p.a \o dst \o p.b \o f.d \o p.c ELSE p.a \o f.d \o p.b \o dst \o p.c
  /\ refs' = refs \o f.refs
  /\ depth' = depth + 1
  /\ pos' = Append(pos, p.id)

Next == \E p \in Positions, r \in Added : Surround(p, r)
Spec == Init /\ [][Next]_vars

\* Every versioned reference is accounted for, and only those
Counted == Len(refs) <= depth
\* ---------------------------------------------------------------------------
Case(s, d, r, p) == PrintT(ToJson([k |-> "c", src |-> s, dst |-> d, refs |-> r, pos |-> p]))
Emit == Case(src', dst', refs', pos')
EmitInit == depth = 1 => Case(src, dst, refs, pos)
=============================================================================
