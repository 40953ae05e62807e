------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Memory reservations of query operators against a pool, and what is      *)
(* reported about them. A consumer registers with the pool and gets a      *)
(* reservation, which can be split; all its parts belong to the consumer,  *)
(* which is unregistered along with the last of them.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pools,      \* "greedy", "fair", "unbounded"
          Limit, Slots, Max, Amounts,
          Consumers   \* [name, kind, spill]: operators of one kind are reported together
VARIABLES pool, slot, op, res
vars == <<pool, slot, op, res>>

None == [reg |-> 0, size |-> 0, c |-> [name |-> "", kind |-> "", spill |-> FALSE]]
S == 1..Slots
Live == {i \in S : slot[i] # None}
Sum(f) == LET RECURSIVE Go(_)
              Go(X) == IF X = {} THEN 0 ELSE LET i == CHOOSE j \in X : TRUE IN f[i].size + Go(X \ {i})
          IN Go(S)
SumOf(P(_)) == Sum([i \in S |-> IF P(slot[i]) THEN slot[i] ELSE None])
Reserved == Sum(slot)
Spillable == SumOf(LAMBDA r : r.c.spill)
Unspillable == SumOf(LAMBDA r : ~r.c.spill)
Spillers == Cardinality({slot[i].reg : i \in {j \in Live : slot[j].c.spill}})
Grants(i, n) ==
  CASE pool = "unbounded" -> TRUE
    [] pool = "greedy" -> Reserved + n <= Limit
    [] pool = "fair" /\ slot[i].c.spill -> slot[i].size + n <= (IF Limit > Unspillable THEN Limit - Unspillable ELSE 0) \div Spillers
    [] OTHER -> n <= (IF Limit > Reserved THEN Limit - Reserved ELSE 0)

\* what is added to the totals: allocated (granted or refused) and freed, by kind of consumer
Nothing == [kind |-> "", granted |-> 0, refused |-> 0, freed |-> 0]
Granted(i, n) == IF n = 0 THEN Nothing ELSE [Nothing EXCEPT !.kind = slot[i].c.kind, !.granted = n]
Refused(i, n) == IF n = 0 THEN Nothing ELSE [Nothing EXCEPT !.kind = slot[i].c.kind, !.refused = n]
Freed(i, n) == IF n = 0 THEN Nothing ELSE [Nothing EXCEPT !.kind = slot[i].c.kind, !.freed = n]
Do(o, s, r, add) == op' = o /\ slot' = s /\ res' = [r |-> r, add |-> add] /\ UNCHANGED pool
Size(i, n) == [slot EXCEPT ![i].size = n]

Init == pool = "none" /\ slot = [i \in S |-> None] /\ op = [op |-> "init"] /\ res = [r |-> "ok", add |-> Nothing]
\* registrations are told apart by the lowest free number
Fresh == CHOOSE n \in 1..(Slots + 1) : n \notin {slot[i].reg : i \in Live} /\ \A m \in 1..(n - 1) : m \in {slot[i].reg : i \in Live}
FreeSlot == CHOOSE i \in S : slot[i] = None /\ \A j \in 1..(i - 1) : slot[j] # None
Register(c) == Cardinality(Live) < Slots /\ Do([op |-> "register", i |-> FreeSlot, name |-> c.name, spill |-> c.spill],
                 [slot EXCEPT ![FreeSlot] = [reg |-> Fresh, size |-> 0, c |-> c]], "ok", Nothing)
Grow(i, n) == Do([op |-> "grow", i |-> i, n |-> n], Size(i, slot[i].size + n), "ok", Granted(i, n))
TryGrow(i, n) == LET o == [op |-> "try_grow", i |-> i, n |-> n] IN
  IF Grants(i, n) THEN Do(o, Size(i, slot[i].size + n), "ok", Granted(i, n)) ELSE Do(o, slot, "refused", Refused(i, n))
Shrink(i, n) == n <= slot[i].size /\ Do([op |-> "shrink", i |-> i, n |-> n], Size(i, slot[i].size - n), "ok", Freed(i, n))
TryShrink(i, n) == LET o == [op |-> "try_shrink", i |-> i, n |-> n] IN
  IF n <= slot[i].size THEN Do(o, Size(i, slot[i].size - n), "ok", Freed(i, n)) ELSE Do(o, slot, "refused", Nothing)
Resize(i, n) == LET o == [op |-> "resize", i |-> i, n |-> n] IN
  IF n >= slot[i].size THEN Do(o, Size(i, n), "ok", Granted(i, n - slot[i].size)) ELSE Do(o, Size(i, n), "ok", Freed(i, slot[i].size - n))
TryResize(i, n) == LET o == [op |-> "try_resize", i |-> i, n |-> n] IN
  IF n < slot[i].size THEN Do(o, Size(i, n), "ok", Freed(i, slot[i].size - n))
  ELSE IF n = slot[i].size THEN Do(o, slot, "ok", Nothing)
  ELSE IF Grants(i, n - slot[i].size) THEN Do(o, Size(i, n), "ok", Granted(i, n - slot[i].size))
  ELSE Do(o, slot, "refused", Refused(i, n - slot[i].size))
Free(i) == Do([op |-> "free", i |-> i], Size(i, 0), "ok", Freed(i, slot[i].size))
Split(i, n) == Cardinality(Live) < Slots /\ n <= slot[i].size /\
  Do([op |-> "split", i |-> i, j |-> FreeSlot, n |-> n], [slot EXCEPT ![i].size = @ - n, ![FreeSlot] = [slot[i] EXCEPT !.size = n]], "ok", Nothing)
Take(i) == Cardinality(Live) < Slots /\
  Do([op |-> "take", i |-> i, j |-> FreeSlot], [slot EXCEPT ![i].size = 0, ![FreeSlot] = slot[i]], "ok", Nothing)
NewEmpty(i) == Cardinality(Live) < Slots /\
  Do([op |-> "new_empty", i |-> i, j |-> FreeSlot], [slot EXCEPT ![FreeSlot] = [slot[i] EXCEPT !.size = 0]], "ok", Nothing)
Drop(i) == Do([op |-> "drop", i |-> i], [slot EXCEPT ![i] = None], "ok", Freed(i, slot[i].size))
Open(p) == pool = "none" /\ pool' = p /\ op' = [op |-> "open", pool |-> p, limit |-> Limit] /\ res' = [r |-> "ok", add |-> Nothing] /\ UNCHANGED slot
Next == IF pool = "none" THEN \E p \in Pools : Open(p) ELSE
        \/ \E c \in Consumers : Register(c)
        \/ \E i \in Live : \/ \E n \in Amounts : Grow(i, n) \/ TryGrow(i, n) \/ Shrink(i, n) \/ TryShrink(i, n) \/ Resize(i, n) \/ TryResize(i, n) \/ Split(i, n)
                           \/ Free(i) \/ Take(i) \/ NewEmpty(i) \/ Drop(i)
Spec == Init /\ [][Next]_vars
Bound == Reserved <= Max

\* growth beyond the limit is only ever forced, never granted
LimitHolds == [][(pool = "greedy" /\ op'.op \in {"try_grow", "try_resize"} /\ Reserved' > Reserved) => Reserved' <= Limit]_vars
\* the totals and the current reservation agree at every step
Balance == [][Reserved' - Reserved = res'.add.granted - res'.add.freed]_vars
View == <<pool, slot>>
St(p, s) == [pool |-> p, slots |-> [i \in S |-> [reg |-> s[i].reg, size |-> s[i].size, name |-> s[i].c.name]], reserved |-> Sum(s)]
Emit == Reserved' <= Max => PrintT(ToJson([k |-> "e", s |-> St(pool, slot), o |-> op', r |-> res', t |-> St(pool', slot')]))
K(n, k, s) == [name |-> n, kind |-> k, spill |-> s]
ConsumersP == {K("Sort[0]", "Sort", TRUE), K("Join", "Join", FALSE)}
ConsumersQ == {K("Sort[0]", "Sort", TRUE), K("Join", "Join", FALSE), K("Sort[1]", "Sort", FALSE)}
ConsumersT == ConsumersQ \cup {K("[7]", "", FALSE), K("Merge[1][2]", "Merge", TRUE), K("", "", TRUE), K("Sört]", "Sört]", FALSE)}
=============================================================================
