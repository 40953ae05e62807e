------------------------------ MODULE Schemas ------------------------------
(***************************************************************************)
(* Schemas of a database, the tables in them, and external tables, on       *)
(* servers over one catalog. Schemas and tables are shared by the servers    *)
(* and survive restarts; external tables belong to the server they were      *)
(* made on, show the rows of their file, and are gone when it restarts.      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC, Json
CONSTANTS Server, File, MaxTabs
VARIABLES there, tab, ext, op, result
vars == <<there, tab, ext, op, result>>
Schema == {"public", "s", "S"}
Reserved == {"staging"}
None == 0
Made == 1 \* what CREATE TABLE AS puts into a table; copies have what the file has
Init == there = {"public"} /\ tab = [s \in Schema |-> None] /\ ext = [v \in Server |-> None] /\ op = [op |-> "init"] /\ result = "ok"
Tabs(t) == {s \in Schema : t[s] # None}
Ok(b) == result' = IF b THEN "ok" ELSE "no"
CreateSchema(v, s, ine) ==
  /\ op' = [op |-> "create schema", server |-> v, s |-> s, ine |-> ine]
  /\ Ok(s \notin Reserved /\ (s \notin there \/ ine))
  /\ there' = IF result' = "ok" THEN there \cup {s} ELSE there
  /\ UNCHANGED <<tab, ext>>
\* its tables go with it
DropSchema(v, s, ie) ==
  /\ op' = [op |-> "drop schema", server |-> v, s |-> s, ie |-> ie]
  /\ Ok(s \notin Reserved /\ (s \in there \/ ie))
  /\ there' = IF s \in Reserved THEN there ELSE there \ {s}
  /\ tab' = [x \in Schema |-> IF x = s THEN None ELSE tab[x]]
  /\ UNCHANGED ext
\* a table with the rows of a query, which may read the server's external table
Create(v, s, from) ==
  /\ op' = [op |-> "create", server |-> v, s |-> s, from |-> from]
  /\ LET what == IF from = "rows" THEN Made ELSE ext[v] IN
     /\ Ok(s \in there /\ tab[s] = None /\ what # None)
     /\ tab' = IF result' = "ok" THEN [tab EXCEPT ![s] = what] ELSE tab
  /\ Cardinality(Tabs(tab')) <= MaxTabs
  /\ UNCHANGED <<there, ext>>
Drop(v, s, ie) ==
  /\ op' = [op |-> "drop", server |-> v, s |-> s, ie |-> ie]
  /\ Ok(tab[s] # None \/ ie)
  /\ tab' = [tab EXCEPT ![s] = None]
  /\ UNCHANGED <<there, ext>>
Move(v, a, b) ==
  /\ op' = [op |-> "move", server |-> v, a |-> a, b |-> b] /\ a # b
  /\ Ok(tab[a] # None /\ b \in there /\ tab[b] = None)
  /\ tab' = IF result' = "ok" THEN [tab EXCEPT ![b] = tab[a], ![a] = None] ELSE tab
  /\ UNCHANGED <<there, ext>>
\* external tables are in the staging schema only
External(v, where, f, ine) ==
  /\ op' = [op |-> "external", server |-> v, where |-> where, file |-> f, ine |-> ine]
  /\ Ok(where # "public." /\ (ext[v] = None \/ ine))
  /\ ext' = IF result' = "ok" /\ ext[v] = None THEN [ext EXCEPT ![v] = f] ELSE ext
  /\ UNCHANGED <<there, tab>>
DropExternal(v, ie) ==
  /\ op' = [op |-> "drop external", server |-> v, ie |-> ie]
  /\ Ok(ext[v] # None \/ ie)
  /\ ext' = [ext EXCEPT ![v] = None]
  /\ UNCHANGED <<there, tab>>
Restart(v) == op' = [op |-> "restart", server |-> v] /\ result' = "ok" /\ ext' = [ext EXCEPT ![v] = None] /\ UNCHANGED <<there, tab>>
Next ==
  \E v \in Server :
    \/ Restart(v)
    \/ \E b \in BOOLEAN : \/ DropExternal(v, b)
                          \/ \E s \in {"s", "S"} \cup Reserved : CreateSchema(v, s, b)
                          \/ \E s \in {"s", "S"} : DropSchema(v, s, b)
                          \/ \E s \in Schema : Drop(v, s, b)
                          \/ \E f \in File, w \in {"", "staging.", "public."} : (w = "" \/ f = 11) /\ External(v, w, f, b)
    \/ \E s \in Reserved : DropSchema(v, s, FALSE)
    \/ \E s \in Schema, f \in {"rows", "external"} : Create(v, s, f)
    \/ \E a, b \in Schema : Move(v, a, b)
Spec == Init /\ [][Next]_vars
View == <<there, tab, ext>>
St(h, t, e) == [shared |-> [s \in h |-> t[s]], ext |-> e]
Emit == PrintT(ToJson([k |-> "e", s |-> St(there, tab, ext), o |-> op', r |-> result', t |-> St(there', tab', ext')]))
(* The specification's own properties *)
Inside == \A s \in Schema : tab[s] # None => s \in there
Own == [][\A v \in Server : (op'.server # v) => ext'[v] = ext[v]]_vars
Inert == [][result' = "no" => UNCHANGED <<there, tab, ext>>]_vars
=============================================================================
