------------------------------ MODULE Catalog ------------------------------
(***************************************************************************)
(* The metadata catalog: databases, schemas ("collections"), tables with   *)
(* their version history, and stored functions.                            *)
(*                                                                         *)
(* One action per catalog operation: each operation is atomic, reports a   *)
(* result, and a result other than "ok..." leaves everything unchanged.    *)
(* `op`/`res` record the last call and its result; they are hidden by VIEW *)
(* and only used to emit the transitions that are replayed on the code.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS DB,        \* database names
          CN,        \* schema names
          TN,        \* table names
          Handle,    \* sequence of table identities (storage UUIDs)
          Schema,    \* column lists (opaque here; the driver knows them)
          BadSchema, \* column lists no table can have (a duplicate column)
          VerNo,     \* version numbers a write may carry
          MaxVer,    \* bound on retained versions per table (exploration only)
          FN,        \* function names
          Det,       \* function definitions (opaque)
          Fam,       \* operation families enabled: subset of {"db","coll","tab","ren","ver","del","fn"}
          Bogus      \* identifiers that never existed are used too (BOOLEAN)

VARIABLES db, coll, tab, fn, op, res

abs == <<db, coll, tab, fn>>
vars == <<db, coll, tab, fn, op, res>>

Unknown == "?"            \* an identifier that never existed
Handles == {Handle[i] : i \in 1..Len(Handle)}
Live == DOMAIN tab
HasFree == \E i \in 1..Len(Handle) : Handle[i] \notin Live
Fresh == Handle[CHOOSE i \in 1..Len(Handle) :
                  Handle[i] \notin Live /\ \A j \in 1..(i-1) : Handle[j] \in Live]
NameTaken(d, c, n) == \E h \in Live : tab[h].d = d /\ tab[h].c = c /\ tab[h].n = n
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Last(s) == s[Len(s)]

Empty == [x \in {} |-> 0]
Init == db = {} /\ coll = {} /\ tab = Empty /\ fn = Empty /\ op = [op |-> "init"] /\ res = "ok"

Fail(r) == res' = r /\ UNCHANGED abs
Ok(r) == res' = r

CreateDatabase(d) ==
  /\ op' = [op |-> "create_database", d |-> d]
  /\ IF d \in db THEN Fail("unique")
     ELSE Ok("ok") /\ db' = db \cup {d} /\ UNCHANGED <<coll, tab, fn>>

CreateCollection(d, c) ==
  /\ op' = [op |-> "create_collection", d |-> d, c |-> c]
  /\ IF d \notin db THEN Fail("fk")
     ELSE IF <<d, c>> \in coll THEN Fail("unique")
     ELSE Ok("ok") /\ coll' = coll \cup {<<d, c>>} /\ UNCHANGED <<db, tab, fn>>

CreateTable(d, c, n, s, h) ==
  /\ op' = [op |-> "create_table", d |-> d, c |-> c, n |-> n, s |-> s, h |-> h]
  /\ IF <<d, c>> \notin coll THEN Fail("fk")
     ELSE IF NameTaken(d, c, n) THEN Fail("unique")
     ELSE IF s \in BadSchema THEN Fail("unique")
     ELSE Ok("ok") /\ tab' = With(tab, h, [d |-> d, c |-> c, n |-> n, s |-> s, vs |-> <<0>>])
                   /\ UNCHANGED <<db, coll, fn>>

NewVersion(h, v) ==
  /\ op' = [op |-> "create_new_version", h |-> h, v |-> v]
  /\ IF h \notin Live THEN Fail("missing")
     ELSE Ok("ok") /\ tab' = [tab EXCEPT ![h].vs = Append(@, v)] /\ UNCHANGED <<db, coll, fn>>

DeleteOldVersions(h) ==
  /\ op' = [op |-> "delete_old_versions", h |-> h]
  /\ IF h \notin Live THEN Ok("ok:0") /\ UNCHANGED abs
     ELSE /\ Ok("ok:" \o ToString(Len(tab[h].vs) - 1))
          /\ tab' = [tab EXCEPT ![h].vs = <<Last(@)>>] /\ UNCHANGED <<db, coll, fn>>

\* Rename inside its schema, or move to another schema (of any database) and rename
Rename(h, n, d, c, stay) ==
  /\ op' = [op |-> "rename_table", h |-> h, n |-> n, d |-> d, c |-> c, stay |-> stay]
  /\ IF h \notin Live THEN Fail("missing")
     ELSE LET td == IF stay THEN tab[h].d ELSE d
              tc == IF stay THEN tab[h].c ELSE c
          IN IF <<td, tc>> \notin coll THEN Fail("fk")
             ELSE IF \E g \in Live \ {h} : tab[g].d = td /\ tab[g].c = tc /\ tab[g].n = n THEN Fail("unique")
             ELSE Ok("ok") /\ tab' = [tab EXCEPT ![h].n = n, ![h].d = td, ![h].c = tc] /\ UNCHANGED <<db, coll, fn>>

DeleteTable(h) ==
  /\ op' = [op |-> "delete_table", h |-> h]
  /\ IF h \notin Live THEN Fail("missing")
     ELSE Ok("ok") /\ tab' = Without(tab, {h}) /\ UNCHANGED <<db, coll, fn>>

DeleteCollection(d, c) ==
  /\ op' = [op |-> "delete_collection", d |-> d, c |-> c]
  /\ IF <<d, c>> \notin coll THEN Fail("missing")
     ELSE /\ Ok("ok") /\ coll' = coll \ {<<d, c>>}
          /\ tab' = Without(tab, {h \in Live : tab[h].d = d /\ tab[h].c = c})
          /\ UNCHANGED <<db, fn>>

DeleteDatabase(d) ==
  /\ op' = [op |-> "delete_database", d |-> d]
  /\ IF d \notin db THEN Fail("missing")
     ELSE /\ Ok("ok") /\ db' = db \ {d}
          /\ coll' = {x \in coll : x[1] # d}
          /\ tab' = Without(tab, {h \in Live : tab[h].d = d})
          /\ fn' = Without(fn, {x \in DOMAIN fn : x[1] = d})

CreateFunction(d, f, repl, det) ==
  /\ op' = [op |-> "create_function", d |-> d, f |-> f, repl |-> repl, det |-> det]
  /\ IF d \notin db THEN Fail("fk")
     ELSE IF <<d, f>> \in DOMAIN fn /\ ~repl THEN Fail("unique")
     ELSE Ok("ok") /\ fn' = With(fn, <<d, f>>, det) /\ UNCHANGED <<db, coll, tab>>

DropFunctions(d, fs) ==
  /\ op' = [op |-> "drop_function", d |-> d, fs |-> fs]
  /\ LET hit == {x \in DOMAIN fn : x[1] = d /\ \E i \in 1..Len(fs) : fs[i] = x[2]} IN
     IF hit = {} THEN Fail("missing")
     ELSE Ok("ok") /\ fn' = Without(fn, hit) /\ UNCHANGED <<db, coll, tab>>

\* ---------------------------------------------------------------------------
\* identifiers handed to the operations: those alive, plus one that never existed.
Q == IF Bogus THEN {Unknown} ELSE {}
CollIds == coll \cup {<<x, x>> : x \in Q}
NameLists == {<<>> \o <<f>> : f \in FN} \cup {<<f, g>> : f \in FN, g \in FN} \cup
             (IF Cardinality(FN) > 2 THEN {<<f, g, k>> : f \in FN, g \in FN, k \in FN} ELSE {})

DoDb   == "db"   \in Fam /\ \E d \in DB : CreateDatabase(d)
DoColl == "coll" \in Fam /\ \E d \in db \cup Q, c \in CN : CreateCollection(d, c)
DoTab  == "tab"  \in Fam /\ HasFree /\ \E x \in CollIds, n \in TN, s \in Schema \cup BadSchema :
                               CreateTable(x[1], x[2], n, s, Fresh)
DoRen  == "ren"  \in Fam /\ \E h \in Live \cup Q, n \in TN :
                               \/ Rename(h, n, Unknown, Unknown, TRUE)
                               \/ \E x \in CollIds : Rename(h, n, x[1], x[2], FALSE)
DoVer  == "ver"  \in Fam /\ \/ \E h \in Live \cup Q, v \in VerNo :
                                   (h \in Live => Len(tab[h].vs) < MaxVer) /\ NewVersion(h, v)
                            \/ \E h \in Live \cup Q : DeleteOldVersions(h)
DoDel  == "del"  \in Fam /\ \/ \E h \in Live \cup Q : DeleteTable(h)
                            \/ \E x \in CollIds : DeleteCollection(x[1], x[2])
                            \/ \E d \in db \cup Q : DeleteDatabase(d)
DoFn   == "fn"   \in Fam /\ \/ \E d \in db \cup Q, f \in FN, r \in BOOLEAN, t \in Det : CreateFunction(d, f, r, t)
                            \/ \E d \in db \cup Q, fs \in NameLists : DropFunctions(d, fs)

Next == DoDb \/ DoColl \/ DoTab \/ DoRen \/ DoVer \/ DoDel \/ DoFn
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------------------
\* Properties of the design
Referential == /\ \A x \in coll : x[1] \in db
               /\ \A h \in Live : <<tab[h].d, tab[h].c>> \in coll
               /\ \A x \in DOMAIN fn : x[1] \in db
UniqueNames == \A g, h \in Live : g # h => <<tab[g].d, tab[g].c, tab[g].n>> # <<tab[h].d, tab[h].c, tab[h].n>>
HasVersion == \A h \in Live : Len(tab[h].vs) >= 1 /\ tab[h].s \notin BadSchema
Failed(r) == r \in {"unique", "fk", "missing"}
FailureIsInert == [][Failed(res') => UNCHANGED abs]_vars
\* a version, once recorded, is the one shown, until another is recorded; history only grows or is pruned to its last
HistoryMonotone == [][\A h \in Live : h \in DOMAIN tab' /\ op'.op # "create_table" =>
                        LET a == tab[h].vs  b == tab'[h].vs IN
                          \/ a = b
                          \/ Len(b) = Len(a) + 1 /\ SubSeq(b, 1, Len(a)) = a
                          \/ b = <<Last(a)>>]_vars
\* drops touch nothing outside what is dropped
DropIsLocal == [][op'.op = "delete_collection" /\ res' = "ok" =>
                    \A h \in Live : (tab[h].d # op'.d \/ tab[h].c # op'.c) => h \in DOMAIN tab' /\ tab'[h] = tab[h]]_vars

\* ---------------------------------------------------------------------------
\* Abstract state as compared with the code, and the emitted transitions
Tabs(t) == {[h |-> h, d |-> t[h].d, c |-> t[h].c, n |-> t[h].n, s |-> t[h].s, vs |-> t[h].vs] : h \in DOMAIN t}
Fns(f) == {[d |-> x[1], f |-> x[2], det |-> f[x]] : x \in DOMAIN f}
Abs == [dbSet |-> db, collSet |-> coll, tabSet |-> Tabs(tab), fnSet |-> Fns(fn)]
AbsN == [dbSet |-> db', collSet |-> coll', tabSet |-> Tabs(tab'), fnSet |-> Fns(fn')]
View == abs
Emit == PrintT(ToJson([k |-> "e", s |-> Abs, o |-> op', r |-> res', t |-> AbsN]))
=============================================================================
