--------------------------- MODULE DroppedTables ---------------------------
(* The record of dropped tables whose files still have to be deleted.      *)
(* Entries are added when tables are dropped (by the environment here: by  *)
(* older versions of the program); cleanup lists, advances and completes   *)
(* them.                                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Uuid, DB, Status
VARIABLES ent, op, res
vars == <<ent, op, res>>
Unknown == "?"
Empty == [x \in {} |-> 0]
Init == ent = Empty /\ op = [op |-> "init"] /\ res = "ok"
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Dropped(u, d) == /\ u \notin DOMAIN ent
                 /\ ent' = With(ent, u, [d |-> d, st |-> "PENDING"])
                 /\ op' = [op |-> "env_dropped", u |-> u, d |-> d] /\ res' = "ok"
Update(u, s) == /\ op' = [op |-> "update_dropped_table", u |-> u, st |-> s]
                /\ IF u \in DOMAIN ent THEN ent' = [ent EXCEPT ![u].st = s] /\ res' = "ok"
                   ELSE res' = "missing" /\ UNCHANGED ent
Complete(u) == /\ op' = [op |-> "delete_dropped_table", u |-> u]
               /\ IF u \in DOMAIN ent THEN ent' = [x \in DOMAIN ent \ {u} |-> ent[x]] /\ res' = "ok"
                  ELSE res' = "missing" /\ UNCHANGED ent
Next == \/ \E u \in Uuid, d \in DB : Dropped(u, d)
        \/ \E u \in Uuid \cup {Unknown}, s \in Status : Update(u, s)
        \/ \E u \in Uuid \cup {Unknown} : Complete(u)
Spec == Init /\ [][Next]_vars
\* an operation changes at most the entry it names
OnlyNamed == [][\A u \in (DOMAIN ent \cap DOMAIN ent') : u # op'.u => ent'[u] = ent[u]]_vars
NoLoss == [][\A u \in DOMAIN ent : u \notin DOMAIN ent' => op'.op = "delete_dropped_table" /\ op'.u = u]_vars
TypeOK == \A u \in DOMAIN ent : ent[u].st \in Status
Set(e) == {[u |-> u, d |-> e[u].d, st |-> e[u].st] : u \in DOMAIN e}
View == ent
Emit == PrintT(ToJson([k |-> "e", s |-> [entSet |-> Set(ent)], o |-> op', r |-> res', t |-> [entSet |-> Set(ent')]]))
=============================================================================
