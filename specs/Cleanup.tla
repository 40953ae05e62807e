------------------------------ MODULE Cleanup ------------------------------
(***************************************************************************)
(* Deleting the files of dropped tables (garbage collection, VACUUM         *)
(* DATABASE): the records of tables to delete, the files of all tables, and *)
(* storage and catalog failing on the way.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Uuid, Live, DB, Faults
VARIABLES rec, obj, fault, op
vars == <<rec, obj, fault, op>>
\* obj: all files of the table, at least one of them (perhaps all), none
No == [d |-> "none", st |-> "none"]
Init == rec = [u \in Uuid |-> No] /\ obj = [u \in Uuid |-> "full"] /\ fault = [what |-> "none", u |-> "none"] /\ op = [op |-> "init"]
Recorded(u) == rec[u].st # "none"
\* a table was dropped and is to be deleted
Drop(u, d) == /\ ~Recorded(u) /\ u \notin Live /\ obj[u] = "full"
              /\ rec' = [rec EXCEPT ![u] = [d |-> d, st |-> "PENDING"]]
              /\ op' = [op |-> "drop", u |-> u, d |-> d] /\ UNCHANGED <<obj, fault>>
\* listing the files of a table fails (at once, or midway), or deleting its last one does; or the catalog refuses to forget tables
Break(f, u) == /\ fault' = [what |-> f, u |-> u] /\ fault' # fault
               /\ op' = [op |-> "break", what |-> f, u |-> u] /\ UNCHANGED <<rec, obj>>
Storage == {"list", "listmid", "delete"}
Concerned(u, d) == Recorded(u) /\ rec[u].st # "FAILED" /\ (d = "*" \/ rec[u].d = d)
Fails(u) == /\ fault.what \in Storage /\ fault.u = u
            /\ fault.what = "list" \/ obj[u] # "gone"
Next_(st) == IF st = "PENDING" THEN "RETRY" ELSE "FAILED"
\* one run, for one database or all; how: in the background, or as a statement
Clean(d, how) ==
  /\ (how = "vacuum" => d # "*")
  /\ rec' = [u \in Uuid |-> IF ~Concerned(u, d) THEN rec[u]
                            ELSE IF Fails(u) THEN [rec[u] EXCEPT !.st = Next_(@)]
                            ELSE IF fault.what = "remove" THEN rec[u] ELSE No]
  /\ obj' = [u \in Uuid |-> IF ~Concerned(u, d) THEN obj[u]
                            ELSE IF Fails(u) THEN (IF fault.what = "list" THEN obj[u] ELSE "part")
                            ELSE "gone"]
  /\ op' = [op |-> "clean", d |-> d, how |-> how] /\ UNCHANGED fault
Next == \/ \E u \in Uuid, d \in DB : Drop(u, d)
        \/ \E f \in Faults, u \in Uuid : Break(f, u)
        \/ Break("none", "none") \/ Break("remove", "none")
        \/ \E d \in DB \cup {"*"}, how \in {"gc", "vacuum"} : Clean(d, how)
Spec == Init /\ [][Next]_vars
View == <<rec, obj, fault>>
St(r, o, f) == [rec |-> r, obj |-> o, fault |-> f]
Emit == PrintT(ToJson([k |-> "e", s |-> St(rec, obj, fault), o |-> op', r |-> "ok", t |-> St(rec', obj', fault')]))

(* The specification's own properties *)
\* the files of tables that are not to be deleted stay
Safe == \A u \in Uuid : u \in Live => obj[u] = "full"
OnlyDropped == [][\A u \in Uuid : obj[u] # obj'[u] => Recorded(u) /\ rec[u].st # "FAILED"]_vars
\* a table is forgotten once its files are gone
ForgottenLast == [][\A u \in Uuid : Recorded(u) /\ rec'[u] = No => obj'[u] = "gone"]_vars
\* without failures one run does it
Heals == [][op'.op = "clean" /\ op'.d = "*" /\ fault.what = "none" => \A u \in Uuid : Recorded(u) /\ rec[u].st # "FAILED" => obj'[u] = "gone" /\ rec'[u] = No]_vars
OtherDatabases == [][op'.op = "clean" /\ op'.d # "*" => \A u \in Uuid : rec[u].d # op'.d => rec'[u] = rec[u] /\ obj'[u] = obj[u]]_vars
=============================================================================
