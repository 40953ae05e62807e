---------------------------- MODULE MemoryReport ----------------------------
(***************************************************************************)
(* Several threads change reservations and report it. A change of the pool *)
(* and its report are two steps, others may come between. Reports must be  *)
(* such that, whatever the order, the reported reservation is that of the  *)
(* pool when nothing is under way: reports of changes are (Relative), and  *)
(* reports of what the pool held after the change are not.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Ops,    \* an operation: [op, n]
          MaxLen, Limit, Relative
VARIABLES prog, at, mid, size, pool, seen, gauge, granted, refused, freed
vars == <<prog, at, mid, size, pool, seen, gauge, granted, refused, freed>>
T == 1..Threads
Progs == UNION {[1..k -> Ops] : k \in 1..MaxLen}
\* shrinking only what was grown without condition
RECURSIVE Fits(_, _)
Fits(p, have) == IF p = <<>> THEN TRUE ELSE
  LET o == Head(p) IN CASE o.op = "shrink" -> o.n <= have /\ Fits(Tail(p), have - o.n)
                        [] o.op = "grow" -> Fits(Tail(p), have + o.n)
                        [] OTHER -> Fits(Tail(p), have)
Init == /\ prog \in {q \in [T -> Progs] : \A t \in T : Fits(q[t], 0)}
        /\ at = [t \in T |-> 1] /\ mid = [t \in T |-> FALSE] /\ size = [t \in T |-> 0]
        /\ pool = 0 /\ seen = [t \in T |-> 0] /\ gauge = 0 /\ granted = 0 /\ refused = 0 /\ freed = 0
Op(t) == prog[t][at[t]]
Ok(t) == Op(t).op = "try_grow" => pool + Op(t).n <= Limit
Delta(t) == CASE Op(t).op = "shrink" -> 0 - Op(t).n [] OTHER -> IF Ok(t) THEN Op(t).n ELSE 0
Change(t) == /\ at[t] <= Len(prog[t]) /\ ~mid[t]
             /\ pool' = pool + Delta(t) /\ size' = [size EXCEPT ![t] = @ + Delta(t)]
             /\ seen' = [seen EXCEPT ![t] = IF Relative THEN Delta(t) ELSE pool']
             /\ granted' = granted + (IF Op(t).op # "shrink" /\ Ok(t) THEN Op(t).n ELSE 0)
             /\ refused' = refused + (IF ~Ok(t) THEN Op(t).n ELSE 0)
             /\ freed' = freed + (IF Op(t).op = "shrink" THEN Op(t).n ELSE 0)
             /\ mid' = [mid EXCEPT ![t] = TRUE] /\ UNCHANGED <<prog, at, gauge>>
Report(t) == /\ mid[t] /\ gauge' = (IF Relative THEN gauge + seen[t] ELSE seen[t])
             /\ mid' = [mid EXCEPT ![t] = FALSE] /\ at' = [at EXCEPT ![t] = @ + 1]
             /\ UNCHANGED <<prog, size, pool, seen, granted, refused, freed>>
Next == \E t \in T : Change(t) \/ Report(t)
Spec == Init /\ [][Next]_vars
Quiet == \A t \in T : ~mid[t]
Agrees == Quiet => gauge = pool
Balance == pool = granted - freed
Over == \A t \in T : at[t] > Len(prog[t])
EmitInv == Over => PrintT(ToJson([k |-> "c", limit |-> Limit, prog |-> prog, size |-> size, pool |-> pool, gauge |-> gauge, granted |-> granted, refused |-> refused, freed |-> freed]))
O(o, n) == [op |-> o, n |-> n]
OpsQ == {O("grow", 2), O("try_grow", 2), O("shrink", 2), O("try_grow", 1)}
OpsT == OpsQ \cup {O("grow", 1), O("shrink", 1)}
=============================================================================
