------------------------------- MODULE Nodes -------------------------------
(***************************************************************************)
(* Planned Seafowl statements travel through DataFusion's planner as       *)
(* opaque nodes. A plan is described by the statement it stands for: two   *)
(* plans are the same exactly if they do the same thing, and no step of    *)
(* planning turns one into another.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Wide
VARIABLES left, right
vars == <<left, right>>
None == "-"
Node(k, a, b, on, l) == [kind |-> k, a |-> a, b |-> b, on |-> on, names |-> l]
Schemas == {"s", "s-null", "s-type", "s-name", "s-meta", "s-two"}
Details == {"f", "f-entry", "f-input", "f-return", "f-data", "f-volatility", "f-language"}
Lists == {<<n>> : n \in Names} \cup {<<m, n>> : m \in Names, n \in Names} \cup (IF Wide THEN {<<m, n, o>> : m \in Names, n \in Names, o \in Names} ELSE {})
Nodes == {Node("ConvertTable", n, m, FALSE, <<>>) : n \in Names, m \in Names}
         \cup {Node("CreateTable", n, x, o, <<>>) : n \in Names, x \in Schemas, o \in BOOLEAN}
         \cup {Node("CreateFunction", n, d, o, <<>>) : n \in Names, d \in Details, o \in BOOLEAN}
         \cup {Node("DropFunction", None, None, o, l) : o \in BOOLEAN, l \in Lists}
         \cup {Node("RenameTable", n, m, FALSE, <<>>) : n \in Names, m \in Names}
         \cup {Node("Vacuum", n, m, FALSE, <<>>) : n \in Names \cup {None}, m \in Names \cup {None}}
         \cup {Node("Truncate", n, None, FALSE, <<>>) : n \in Names}
\* what an explained plan must name
Targets(n) ==
  CASE n.kind \in {"ConvertTable", "RenameTable"} -> <<n.a, n.b>>
    [] n.kind \in {"CreateTable", "CreateFunction", "Truncate"} -> <<n.a>>
    [] n.kind = "DropFunction" -> n.names
    [] n.kind = "Vacuum" -> IF n.a # None THEN <<"database">> ELSE <<"tables">>
Step(n) == n   \* rebuilding a node from its (no) expressions and inputs, cloning, optimizing
Init == left \in Nodes /\ right \in Nodes
Next == left' = Step(left) /\ right' = Step(right)
Spec == Init /\ [][Next]_vars
Unchanged == [][left' = left /\ right' = right]_vars
EmitInv == PrintT(ToJson([k |-> "c", left |-> left, right |-> right, same |-> left = right, targets |-> Targets(left)]))
=============================================================================
