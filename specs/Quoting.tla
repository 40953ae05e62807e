------------------------------ MODULE Quoting ------------------------------
(***************************************************************************)
(* Names and texts inside the SQL of remote databases, as sequences of       *)
(* character codes: how each database reads them (from its manual), and a     *)
(* reference way of writing them.  The states are all names and texts over    *)
(* an alphabet of characters with a special meaning somewhere.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Alphabet

Dbs == {"postgres", "sqlite", "mysql"}
Apostrophe == 39
Quote == 34
Backtick == 96
Backslash == 92
\* characters that may open a name or a text in each database
NameQuotes(db) == CASE db = "postgres" -> {Quote} [] db = "sqlite" -> {Quote, Backtick} [] db = "mysql" -> {Backtick}
TextQuotes(db) == IF db = "mysql" THEN {Apostrophe, Quote} ELSE {Apostrophe}
Escapes(db) == db = "mysql"
\* what a character means after a backslash (MySQL)
Escaped(c) == CASE c = 110 -> <<10>> [] c = 116 -> <<9>> [] c = 114 -> <<13>> [] c = 98 -> <<8>> [] c = 48 -> <<0>> [] c = 90 -> <<26>>
                [] c \in {37, 95} -> <<Backslash, c>> [] OTHER -> <<c>>
Bad == [ok |-> FALSE, val |-> <<>>, next |-> 0]
RECURSIVE Body(_, _, _, _, _)
\* the rest of something opened by q, from position i
Body(cs, i, q, esc, acc) ==
  IF i > Len(cs) THEN Bad
  ELSE IF cs[i] = 0 THEN Bad
  ELSE IF cs[i] = q THEN IF i < Len(cs) /\ cs[i + 1] = q THEN Body(cs, i + 2, q, esc, Append(acc, q))
                         ELSE [ok |-> TRUE, val |-> acc, next |-> i + 1]
  ELSE IF esc /\ cs[i] = Backslash THEN IF i = Len(cs) THEN Bad ELSE Body(cs, i + 2, q, esc, acc \o Escaped(cs[i + 1]))
  ELSE Body(cs, i + 1, q, esc, Append(acc, cs[i]))
ReadName(db, cs, i) == IF i <= Len(cs) /\ cs[i] \in NameQuotes(db) THEN Body(cs, i + 1, cs[i], FALSE, <<>>) ELSE Bad
ReadText(db, cs, i) == IF i <= Len(cs) /\ cs[i] \in TextQuotes(db) THEN Body(cs, i + 1, cs[i], Escapes(db), <<>>) ELSE Bad
RECURSIVE Skip(_, _)
Skip(cs, i) == IF i <= Len(cs) /\ cs[i] = 32 THEN Skip(cs, i + 1) ELSE i
\* NAME = TEXT, all of it
Reads(db, cs, name, text) ==
  LET n == ReadName(db, cs, Skip(cs, 1)) IN
  /\ n.ok /\ n.val = name
  /\ LET e == Skip(cs, n.next) IN
     /\ e <= Len(cs) /\ cs[e] = 61
     /\ LET v == ReadText(db, cs, Skip(cs, e + 1)) IN v.ok /\ v.val = text /\ Skip(cs, v.next) = Len(cs) + 1

\* the reference way of writing them
RECURSIVE Double(_, _)
Double(s, q) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in q THEN <<Head(s), Head(s)>> ELSE <<Head(s)>>) \o Double(Tail(s), q)
WriteName(db, s) == LET q == IF db = "mysql" THEN Backtick ELSE Quote IN <<q>> \o Double(s, {q}) \o <<q>>
WriteText(db, s) == <<Apostrophe>> \o Double(s, IF Escapes(db) THEN {Apostrophe, Backslash} ELSE {Apostrophe}) \o <<Apostrophe>>
Writable(s) == \A i \in 1..Len(s) : s[i] # 0

VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
\* what is written that way is read as what was meant
RoundTrip == Writable(s) => \A db \in Dbs : Reads(db, WriteName(db, s) \o <<32, 61>> \o WriteText(db, s), s, s)
EmitInv == PrintT(ToJson([k |-> "c", s |-> s]))
=============================================================================
