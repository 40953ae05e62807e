----------------------------- MODULE DataFiles -----------------------------
(***************************************************************************)
(* The rows of a plan are written to data files: a plan has partitions,     *)
(* which give batches of rows, in files of at most Limit rows. Files are    *)
(* uploaded in parts, or moved if the store is a directory; an upload may    *)
(* fail at any request, of which the writer has to tell.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Limits, MaxRows, MaxBatches, Kinds, Cuts, Faults, Stores
VARIABLES plan, rows, limit, store, fault
vars == <<plan, rows, limit, store, fault>>
\* plan: how many rows each batch has, 'next' for the start of another partition; rows: what each row is like
Next_ == 100
RECURSIVE Total(_)
Total(p) == IF p = <<>> THEN 0 ELSE (IF Head(p) = Next_ THEN 0 ELSE Head(p)) + Total(Tail(p))
Init == plan = <<>> /\ rows = <<>> /\ limit \in Limits /\ store \in Stores /\ fault \in Faults
Batch == /\ \E n \in 0..MaxRows : \E k \in [1..n -> Kinds] : plan' = Append(plan, n) /\ rows' = rows \o k
         /\ UNCHANGED <<limit, store, fault>>
Cut == /\ Cuts /\ plan # <<>> /\ plan[Len(plan)] # Next_ /\ plan' = Append(plan, Next_) /\ UNCHANGED <<rows, limit, store, fault>>
Next == Len(plan) < MaxBatches /\ (Batch \/ Cut)
Spec == Init /\ [][Next]_vars
\* one way to do it: fill up one file after the other
RECURSIVE Fill(_)
Fill(r) == IF Len(r) <= limit THEN <<r>> ELSE <<SubSeq(r, 1, limit)>> \o Fill(SubSeq(r, limit + 1, Len(r)))
RECURSIVE All(_)
All(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs) \o All(Tail(fs))
\* so it can be done
Laws == /\ Total(plan) = Len(rows)
        /\ LET fs == Fill(rows) IN All(fs) = rows /\ \A i \in 1..Len(fs) : Len(fs[i]) <= limit /\ (rows # <<>> => fs[i] # <<>>)
EmitInv == Laws /\ (plan = <<>> \/ PrintT(ToJson([k |-> "c", plan |-> plan, rows |-> rows, limit |-> limit, store |-> store, fault |-> fault, most |-> Len(Fill(rows))])))
=============================================================================
