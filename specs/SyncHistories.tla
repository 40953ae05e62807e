--------------------------- MODULE SyncHistories ---------------------------
(***************************************************************************)
(* Changes of the rows of one table, a message each, that end up in one     *)
(* write. On the way the receiver may compact what it holds (Squash), or it *)
(* may write, restart and be sent all of the changes once more, because     *)
(* their transaction wasn't complete (Restart). Neither makes a difference  *)
(* for the rows in the end.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Max, Squash, Restart, Starts
VARIABLES start, ch, at
vars == <<start, ch, at>>
Key == 1..Keys
First == 90 \* what the rows have at the start
\* rows: for each key the change its row is from, 0: no row; changes: old key, new key (0: none)
Eff(t, c, i) == [k \in Key |-> IF k = c[2] THEN i ELSE IF k = c[1] THEN 0 ELSE t[k]]
RECURSIVE Apply(_, _, _, _)
Apply(t, p, from, to) == IF from > to THEN t ELSE Apply(Eff(t, p[from], from), p, from + 1, to)
Rows0 == [k \in Key |-> IF k \in start THEN First + k ELSE 0]
Now == Apply(Rows0, ch, 1, Len(ch))
Valid(t, c) == /\ c # <<0, 0>>
               /\ c[1] # 0 => t[c[1]] # 0
               /\ c[2] # 0 /\ c[2] # c[1] => t[c[2]] = 0
Changes == {<<a, b>> : a \in 0..Keys, b \in 0..Keys}
Init == /\ start \in {1..n : n \in Starts} /\ ch = <<>> /\ at = 0
Next == \/ /\ Len(ch) < Max
           /\ \E c \in Changes : Valid(Now, c) /\ ch' = Append(ch, c)
           /\ UNCHANGED <<start, at>>
        \/ /\ at = 0 /\ Len(ch) > 0 /\ (Squash \/ Restart) /\ at' = Len(ch)
           /\ UNCHANGED <<start, ch>>
Spec == Init /\ [][Next]_vars
\* sending the changes again, from a table that shows some of them, comes to the same
Again == Apply(Apply(Rows0, ch, 1, at), ch, 1, Len(ch)) = Now
\* compaction: the rows a sequence of changes touches, and what becomes of them
Touched == {k \in Key : \E i \in 1..Len(ch) : k \in {ch[i][1], ch[i][2]}}
Untouched == \A k \in Key \ Touched : Now[k] = Rows0[k]
\* known finding: a row that wasn't there at the point from which changes are sent again, and is gone after them, isn't
\* part of what is written; if the table shows it from before the restart, it stays
Stays == LET shown == Apply(Rows0, ch, 1, at) IN [k \in Key |-> IF Restart /\ Rows0[k] = 0 /\ Now[k] = 0 THEN shown[k] ELSE Now[k]]
EmitInv ==
  /\ Again /\ Untouched
  /\ (Len(ch) = 0 \/ ((Squash \/ Restart) /\ (at = 0 \/ (Squash /\ at = Len(ch))))) \/
     PrintT(ToJson([k |-> "c", start |-> Rows0, ch |-> ch, squash |-> IF Squash THEN at ELSE 0, restart |-> IF Restart THEN at ELSE 0, want |-> Now, stays |-> Stays]))
=============================================================================
