------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* Texts of several statements. Written piece by piece: a statement, a     *)
(* separator, empty statements. `want` lists the statements the text       *)
(* contains (as indices into Atom); `delim` whether a separator has to     *)
(* come before the next statement; `ok` whether the text is well formed.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxStmts, Use, Seps

Atom == <<
  "SELECT 1",                                     \* 1
  "SELECT 'a;b', \"x;y\" FROM t",                 \* 2
  "COPY t TO '/a;b'",                             \* 3
  "COPY (SELECT 1) TO '/a' OPTIONS (a 'b')",      \* 4
  "CREATE EXTERNAL TABLE t STORED AS CSV LOCATION '/a'", \* 5
  "CREATE FUNCTION f AS 'a;b'",                   \* 6
  "CREATE FUNCTION g AS $$ a; 'b $$",             \* 7
  "CONVERT '/a' TO DELTA t",                      \* 8
  "VACUUM TABLE t",                               \* 9
  "VACUUM DATABASE d",                            \* 10
  "TRUNCATE TABLE t",                             \* 11
  "CREATE TABLE t (a INT)",                       \* 12
  "INSERT INTO t VALUES (1, ';')",                \* 13
  "DROP TABLE t",                                 \* 14
  "/* ; */ SELECT 2 -- ;\n",                      \* 15
  "WITH a AS (SELECT 1) SELECT * FROM a",         \* 16
  "EXPLAIN SELECT 1",                             \* 17
  "DELETE FROM t WHERE a = 1",                    \* 18
  "COPY t TO '/a' STORED AS csv PARTITIONED BY (a)", \* 19
  "CREATE EXTERNAL TABLE t (a INT) STORED AS CSV LOCATION '/a' OPTIONS (b 1)", \* 20
  "CREATE OR REPLACE VIEW v AS SELECT 1",         \* 21
  "UPDATE t SET a = 1",                           \* 22
  "ALTER TABLE t RENAME TO u",                    \* 23
  "DROP FUNCTION f"                               \* 24
  >>
\* statements that no statement can be extended by
Opens == {1, 8, 9, 10, 11, 13, 14, 18, 23}
\* statements that end where they end
Closed == {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 19, 20}
Malformed == {"SELEC 1", "COPY t", "VACUUM", "VACUUM t", "SELECT (1", ")", "CREATE EXTERNAL TABLE t", "TRUNCATE t", "CONVERT t", "SELECT 1 FROM",
              "DROP", "SELECT 'abc", "SELECT \"abc", "COPY t TO", "CREATE FUNCTION f AS", ", SELECT 1", "1"}

\* separators for the configurations
SepQ == {";", " ; ", ";;\n;", "; -- x;\n", ";/* ; */;"}
SepD == {";", ";;", "; -- x;\n"}

VARIABLES txt, want, delim, ok, n
vars == <<txt, want, delim, ok, n>>
Init == txt = "" /\ want = <<>> /\ delim = FALSE /\ ok = TRUE /\ n = 0

Statement(i) == /\ ok /\ n < MaxStmts /\ ~delim
                /\ txt' = txt \o Atom[i] /\ want' = Append(want, i) /\ delim' = TRUE /\ n' = n + 1 /\ ok' = TRUE
Separate(s) == /\ ok /\ delim /\ txt' = txt \o s /\ delim' = FALSE /\ UNCHANGED <<want, ok, n>>
EmptyFirst(s) == txt = "" /\ txt' = s /\ UNCHANGED <<want, delim, ok, n>>
\* two statements with nothing between them
RunOn(i) == /\ ok /\ delim /\ n < MaxStmts /\ want[Len(want)] \in Closed /\ i \in Opens
            /\ txt' = txt \o " " \o Atom[i] /\ want' = <<>> /\ ok' = FALSE /\ n' = n + 1 /\ delim' = TRUE
Unfinished == {"SELECT 'abc", "SELECT \"abc"}   \* these swallow what follows
Malform(m) == /\ ok /\ n < MaxStmts /\ ~delim /\ txt' = txt \o m /\ want' = <<>> /\ ok' = FALSE /\ delim' = TRUE
              /\ n' = IF m \in Unfinished THEN MaxStmts ELSE n + 1
\* one malformed statement spoils the whole text, whatever follows
Trail(i) == ~ok /\ n < MaxStmts /\ txt' = txt \o "; " \o Atom[i] /\ n' = n + 1 /\ UNCHANGED <<want, delim, ok>>
Next == (\E i \in Use : Statement(i) \/ RunOn(i) \/ Trail(i)) \/ (\E s \in Seps : Separate(s) \/ EmptyFirst(s)) \/ (\E m \in Malformed : Malform(m))
Spec == Init /\ [][Next]_vars
AllWanted == ok => Len(want) = n
EmitInv == PrintT(ToJson([k |-> "c", txt |-> txt, ok |-> ok, want |-> [i \in 1..Len(want) |-> Atom[want[i]]]]))
=============================================================================
