------------------------------- MODULE Flight -------------------------------
(***************************************************************************)
(* Queries over Arrow Flight: a request names the tables it is about (those *)
(* of the server, in one schema or another, or a catalog that comes with    *)
(* it), and gets a ticket; the ticket is redeemed once, for the rows there  *)
(* were when it was issued. Requests do not see each other.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxRows, MaxTickets, Writable, Together, Tries
VARIABLES n, tick, op, result
vars == <<n, tick, op, result>>
\* the tables t of the server's two schemas, and two that only catalogs sent along name t
Tables == {"public", "second", "X", "Y"}
\* request |-> the table it reads ("" if it is to be refused)
Asks == {<<"plain", "public">>, <<"path second", "second">>, <<"inline X", "X">>, <<"inline Y", "Y">>, <<"path second, inline second X", "X">>,
         <<"path of no schema", "">>, <<"inline without t", "">>, <<"inline with no such store", "">>, <<"inline without catalog", "">>, <<"not SQL", "">>, <<"two statements", "">>,
         <<"foreign command", "">>, <<"other command", "">>}
Init == n = [t \in Tables |-> IF t = "Y" THEN 2 ELSE 1] /\ tick = <<>> /\ op = [op |-> "init"] /\ result = "ok"
Rows(t) == [t |-> t, n |-> n[t]]
Text(k) == k.t \o ":" \o ToString(k.n)
Answer(a) == IF a[2] = "" THEN "refused" ELSE Text(Rows(a[2]))
Gone == [t |-> "gone", n |-> 0]
Write(t) == n[t] < MaxRows /\ n' = [n EXCEPT ![t] = @ + 1] /\ op' = [op |-> "write", t |-> t] /\ result' = "ok" /\ UNCHANGED tick
Ask(a) ==
  /\ op' = [op |-> "ask", a |-> a[1]] /\ UNCHANGED n
  /\ IF a[2] = "" THEN tick' = tick /\ result' = "refused"
     ELSE Len(tick) < MaxTickets /\ tick' = Append(tick, Rows(a[2])) /\ result' = "ok"
\* a write that arrives over Flight is done when its ticket is issued
Insert == n["public"] < MaxRows /\ n' = [n EXCEPT !["public"] = @ + 1] /\ op' = [op |-> "insert"] /\ result' = "ok" /\ UNCHANGED tick
Redeem(i) == /\ op' = [op |-> "redeem", i |-> i] /\ UNCHANGED n
             /\ IF tick[i] = Gone THEN UNCHANGED tick /\ result' = "refused"
                ELSE tick' = [tick EXCEPT ![i] = Gone] /\ result' = Text(tick[i])
Forged == op' = [op |-> "forged"] /\ result' = "refused" /\ UNCHANGED <<n, tick>>
\* tickets nobody will redeem any more are forgotten
Forget == tick # <<>> /\ (\A i \in DOMAIN tick : tick[i] = Gone) /\ tick' = <<>> /\ op' = [op |-> "forget"] /\ result' = "ok" /\ UNCHANGED n
\* asked and redeemed at the same time, over and over
Both(a, b) == op' = [op |-> "both", a |-> a[1], b |-> b[1], tries |-> Tries] /\ result' = Answer(a) \o " and " \o Answer(b)
              /\ UNCHANGED <<n, tick>>
Next == \/ \E t \in Writable : Write(t)
        \/ \E a \in Asks : Ask(a)
        \/ Insert \/ Forged \/ Forget
        \/ \E i \in DOMAIN tick : Redeem(i)
        \/ tick = <<>> /\ \E a, b \in Asks : a[1] \in Together /\ b[1] \in Together /\ Both(a, b)
Spec == Init /\ [][Next]_vars
View == <<n, tick>>
St(m, k) == [n |-> m, tick |-> k]
Emit == PrintT(ToJson([k |-> "e", s |-> St(n, tick), o |-> op', r |-> result', t |-> St(n', tick')]))
(* The specification's own properties *)
Fixed == [][\A i \in DOMAIN tick : i \in DOMAIN tick' => tick'[i] \in {tick[i], Gone}]_vars
Kept == [][op'.op \in {"ask", "redeem", "forged", "both"} => UNCHANGED n]_vars
=============================================================================
