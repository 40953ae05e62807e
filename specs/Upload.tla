------------------------------- MODULE Upload -------------------------------
(***************************************************************************)
(* Files uploaded over HTTP. A CSV file or a Parquet file, with its rows, is *)
(* appended to a table, which is made (as is its schema) if it isn't there.  *)
(* If the file can't be read as rows of the table it is refused, and no      *)
(* table has changed, nor has one been made.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Row, MaxOf
VARIABLES tab, op, result
vars == <<tab, op, result>>
Table == {"public.t", "other.t"}
Absent == [there |-> FALSE]
Has(b) == [there |-> TRUE, rows |-> b]
Empty == [r \in Row |-> 0]
Init == tab = [t \in Table |-> Absent] /\ op = [op |-> "init"] /\ result = "ok"
(* Ways of writing rows into a file. head: it has a line of names; says: the  *)
(* upload says so; types: it tells the types of columns.                      *)
Good == [kind : {"csv"}, head : BOOLEAN, says : {"yes", "no", ""}, types : BOOLEAN, form : {"plain"}]
        \cup [kind : {"parquet"}, head : {FALSE}, says : {"no", ""}, types : BOOLEAN, form : {"plain", "reordered"}]
Bad == [kind : {"csv"}, head : {TRUE}, says : {"yes"}, types : {TRUE}, form : {"cell", "columns", "late"}]
       \cup [kind : {"parquet"}, head : {FALSE}, says : {""}, types : {FALSE}, form : {"garbage", "cut"}]
       \cup [kind : {"json", ""}, head : {FALSE}, says : {""}, types : {FALSE}, form : {"plain"}]
Named(w) == w.says # "no"
\* a file without types is not understood as such if what it says about its first line is wrong
Sound(w, t) == /\ w.kind = "csv" /\ (w.head # Named(w) \/ ~w.head) => w.types \/ tab[t].there
               \* what a table's columns are called and in which order they are is another matter
               /\ w.form = "reordered" => tab[t].there
\* the first line: taken for names though it's a row, or for a row though it's names
Swallowed(w, rs) == IF w.kind = "csv" /\ ~w.head /\ Named(w) THEN Tail(rs) ELSE rs
Refused(w) == w \in Bad \/ (w.kind = "csv" /\ w.head /\ ~Named(w))
Count(rs, r) == Len(SelectSeq(rs, LAMBDA x : x = r))
Put(t, w, rs) ==
  /\ op' = [op |-> "upload", t |-> t, w |-> w, rs |-> rs]
  /\ Sound(w, t)
  /\ LET before == IF tab[t].there THEN tab[t].rows ELSE Empty
         after == [r \in Row |-> before[r] + Count(Swallowed(w, rs), r)] IN
     /\ result' = IF Refused(w) THEN "no" ELSE "ok"
     /\ tab' = IF Refused(w) THEN tab ELSE [tab EXCEPT ![t] = Has(after)]
     /\ Refused(w) \/ \A r \in Row : after[r] <= MaxOf
Drop(t) == /\ op' = [op |-> "drop", t |-> t] /\ result' = IF tab[t].there THEN "ok" ELSE "no"
           /\ tab' = [tab EXCEPT ![t] = Absent]
Lists == {<<a>> : a \in Row} \cup {<<a, b>> : a, b \in Row}
Next == \E t \in Table : Drop(t) \/ \E w \in Good \cup Bad, rs \in Lists : (Len(rs) = 2 \/ w.form = "plain") /\ Put(t, w, rs)
Spec == Init /\ [][Next]_vars
View == tab
Inert == [][result' = "no" => UNCHANGED tab]_vars
\* uploads only add
Adds == [][op'.op = "upload" => \A t \in Table : tab[t].there => tab'[t].there /\ \A r \in Row : tab'[t].rows[r] >= tab[t].rows[r]]_vars
Emit == PrintT(ToJson([k |-> "e", s |-> tab, o |-> op', r |-> result', t |-> tab']))
=============================================================================
