----------------------------- MODULE LocalStore -----------------------------
(***************************************************************************)
(* A configured store holds exactly the objects put there, under their     *)
(* paths below its root; a local one keeps no directory without an object. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Paths, Contents, Tells   \* Tells: removing what is not there is told
VARIABLES objects, op, result
vars == <<objects, op, result>>
None == "-"
\* directories of each path
Dirs(p) == CASE p = "a/b/x" -> {"a", "a/b"} [] p = "a/b/y" -> {"a", "a/b"} [] p = "a/z" -> {"a"} [] p = "c/é d/w" -> {"c", "c/é d"} [] OTHER -> {}
Live == {p \in Paths : objects[p] # None}
Init == objects = [p \in Paths |-> None] /\ op = [op |-> "init"] /\ result = "ok"
Put(p, v) == /\ objects' = [objects EXCEPT ![p] = v] /\ op' = [op |-> "put", path |-> p, value |-> v] /\ result' = "ok"
Create(p, v) == /\ op' = [op |-> "create", path |-> p, value |-> v]
                /\ IF objects[p] = None THEN objects' = [objects EXCEPT ![p] = v] /\ result' = "ok" ELSE UNCHANGED objects /\ result' = "exists"
Delete(p) == /\ op' = [op |-> "delete", path |-> p, value |-> None] /\ objects' = [objects EXCEPT ![p] = None]
             /\ result' = IF objects[p] = None /\ Tells THEN "absent" ELSE "ok"
Next == (\E p \in Paths, v \in Contents : Put(p, v) \/ Create(p, v)) \/ (\E p \in Paths : Delete(p))
Spec == Init /\ [][Next]_vars
View == objects
DirsOf(o) == UNION {Dirs(p) : p \in {q \in Paths : o[q] # None}}
AllDirs == UNION {Dirs(p) : p \in Paths}
St(o) == [objects |-> o, dirs |-> [d \in AllDirs |-> d \in DirsOf(o)]]
Emit == PrintT(ToJson([k |-> "e", s |-> St(objects), o |-> op', r |-> result', t |-> St(objects')]))
=============================================================================
