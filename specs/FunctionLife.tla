----------------------------- MODULE FunctionLife -----------------------------
(***************************************************************************)
(* User-defined functions as statements see them: a function can be called  *)
(* in its database, by its name, from its creation to its removal, as it    *)
(* was last defined, on every server over the same catalog and after        *)
(* restarts. It hides a built-in function of its name while it is there.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Server, Def, Bad, MaxFns, Lists
VARIABLES fn, op, result
vars == <<fn, op, result>>
DBs == {"default", "other"}
\* spelling |-> name
Spelled == { <<"f", "f">>, <<"F", "f">>, <<"\"F\"", "F">>, <<"\"f\"", "f">>, <<"abs", "abs">> }
Names == {"f", "F", "abs"}
BuiltIn == {"abs"}
\* only one name is used in the other database
Here(d, n) == d = "default" \/ n = "f"
Slot == {x \in DBs \X Names : Here(x[1], x[2])}
None == "none"
Init == fn = [x \in Slot |-> None] /\ op = [op |-> "init"] /\ result = "ok"
Defined(f) == {x \in Slot : f[x] # None}
\* definitions in Bad are broken: they are refused whatever there is
Plain(d, w) == Here(d, w[2]) /\ (d # "default" => w[1] = "f")
Create(v, d, w, def, rep) ==
  LET x == <<d, w[2]>> ok == def \notin Bad /\ (rep \/ fn[x] = None) IN
  /\ Plain(d, w)
  /\ fn' = IF ok THEN [fn EXCEPT ![x] = def] ELSE fn
  /\ Cardinality(Defined(fn')) <= MaxFns
  /\ result' = IF ok THEN "ok" ELSE "no"
  /\ op' = [op |-> "create", server |-> v, d |-> d, w |-> w[1], def |-> def, rep |-> rep]
\* removes those that are there; an error if none is
Drop(v, d, ws, ex) ==
  LET xs == {<<d, ws[i][2]>> : i \in DOMAIN ws} \cap Defined(fn) IN
  /\ \A i \in DOMAIN ws : Plain(d, ws[i])
  /\ fn' = [x \in Slot |-> IF x \in xs THEN None ELSE fn[x]]
  /\ result' = IF xs # {} \/ ex THEN "ok" ELSE "no"
  /\ op' = [op |-> "drop", server |-> v, d |-> d, ws |-> [i \in DOMAIN ws |-> ws[i][1]], ex |-> ex]
Restart(v) == op' = [op |-> "restart", server |-> v] /\ result' = "ok" /\ UNCHANGED fn
\* asking another server for nothing but a plan changes nothing
Next ==
  \E v \in Server :
    \/ Restart(v)
    \/ \E d \in DBs, w \in Spelled, ex \in BOOLEAN : Drop(v, d, <<w>>, ex)
    \/ \E d \in DBs, w \in Lists, ex \in BOOLEAN : Drop(v, d, w, ex)
    \/ \E d \in DBs, w \in Spelled, def \in Def \cup Bad, rep \in BOOLEAN :
         (def \in Bad => w[1] \in {"f", "abs"}) /\ Create(v, d, w, def, rep)
Spec == Init /\ [][Next]_vars
View == fn
TwoLists == { << <<"f", "f">>, <<"\"F\"", "F">> >> }
(* What calling a name gives in each database *)
Means(f, d, n) == IF Here(d, n) /\ f[<<d, n>>] # None THEN f[<<d, n>>] ELSE IF n \in BuiltIn THEN "built-in" ELSE None
St(f) == [fn |-> [d \in DBs |-> [n \in Names |-> Means(f, d, n)]]]
Emit == PrintT(ToJson([k |-> "e", s |-> St(fn), o |-> op', r |-> result', t |-> St(fn')]))
(* The specification's own properties *)
Apart == [][op'.op \in {"create", "drop"} => \A x \in Slot : x[1] # op'.d => fn'[x] = fn[x]]_vars
Inert == [][result' = "no" => UNCHANGED fn]_vars
Last == [][op'.op = "create" /\ result' = "ok" => \E n \in Names : Here(op'.d, n) /\ fn'[<<op'.d, n>>] = op'.def]_vars
=============================================================================
