---------------------------- MODULE SyncSchemas ----------------------------
(***************************************************************************)
(* Descriptions of replicated changes: lists of columns, each with a role,  *)
(* the table's column it is about, and the type and the name of its data.   *)
(* Which of them describe changes of rows, and which two describe changes   *)
(* of the same form (so that their data may be put together)?               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Roles, Names, Types, Max, Pairs
VARIABLES cols, other
Col == [role : Roles, name : Names, type : Types]
Is(l, r) == {i \in 1..Len(l) : l[i].role = r}
What(l, r) == {[name |-> l[i].name, type |-> l[i].type] : i \in Is(l, r)}
About(l, r) == {l[i].name : i \in Is(l, r)}
Unambiguous(l) == \A i, j \in 1..Len(l) : (i # j /\ l[i].role = l[j].role) => l[i].name # l[j].name
Ok(l) ==
  /\ Is(l, "bad") = {}
  /\ Unambiguous(l)
  /\ What(l, "old") # {} /\ What(l, "old") = What(l, "new")
  /\ \A i \in Is(l, "changed") : l[i].type = "bool" /\ l[i].name \in About(l, "value")
  /\ About(l, "value") \cap About(l, "new") = {}
Lists == UNION {{l \in [1..n -> Col] : Ok(l)} : n \in 1..Max}
Init == cols \in (IF Pairs THEN Lists ELSE {<<>>}) /\ other = <<>>
Grow == ~Pairs /\ Len(cols) < Max /\ \E c \in Col : cols' = Append(cols, c) /\ UNCHANGED other
Pick == Pairs /\ other = <<>> /\ other' \in Lists /\ UNCHANGED cols
Next == Grow \/ Pick
Spec == Init /\ [][Next]_<<cols, other>>
\* a description of a changed column holds as well without its flag, one without a key doesn't
Keep(l, S) == LET RECURSIVE go(_)
                  go(i) == IF i = 0 THEN <<>> ELSE IF i \in S THEN Append(go(i - 1), l[i]) ELSE go(i - 1)
              IN go(Len(l))
Laws == Ok(cols) => /\ Ok(Keep(cols, (1..Len(cols)) \ Is(cols, "changed")))
                    /\ \A i \in Is(cols, "old") \cup Is(cols, "new") : ~Ok(Keep(cols, (1..Len(cols)) \ {i}))
EmitInv ==
  /\ Laws
  /\ IF Pairs THEN other # <<>> => PrintT(ToJson([k |-> "c", a |-> cols, b |-> other, same |-> cols = other]))
     ELSE PrintT(ToJson([k |-> "c", a |-> cols, ok |-> Ok(cols)]))
=============================================================================
