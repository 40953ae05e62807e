------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* CONVERT 'location' TO DELTA name: Parquet files which somebody put into   *)
(* the storage become a table, of exactly those files, without being         *)
(* copied. Doing it again changes nothing; when it fails, nothing has        *)
(* changed, so that the location can still be converted under another name.  *)
(* Files put there later aren't part of the table. A location is one table's *)
(* at most. All that is there goes with it when it is dropped, and then the  *)
(* location is as new.                                                       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC, Json
CONSTANTS Place, Name, File, MaxRows
VARIABLES files, of, tab, more, op, result
(* files: what is at a location; of: the files of the table it has become,   *)
(* or NotYet; tab: the location of a table, Own for one that was created, or *)
(* None; more: rows inserted into it                                         *)
vars == <<files, of, tab, more, op, result>>
None == 0
Own == 9
NotYet == {0}
Init == /\ files = [p \in Place |-> {}] /\ of = [p \in Place |-> NotYet] /\ tab = [n \in Name |-> None] /\ more = [n \in Name |-> 0]
        /\ op = [op |-> "init"] /\ result = "ok"
Ok(b) == result' = IF b THEN "ok" ELSE "no"
Put(p, f) ==
  /\ op' = [op |-> "put", p |-> p, f |-> f] /\ Ok(TRUE)
  /\ f \notin files[p] /\ files' = [files EXCEPT ![p] = @ \cup {f}]
  /\ UNCHANGED <<of, tab, more>>
Convert(p, n) ==
  /\ op' = [op |-> "convert", p |-> p, n |-> n]
  /\ LET new == tab[n] = None /\ of[p] = NotYet /\ files[p] # {} IN
     /\ Ok(tab[n] = p \/ new)
     /\ of' = IF new THEN [of EXCEPT ![p] = files[p]] ELSE of
     /\ tab' = IF new THEN [tab EXCEPT ![n] = p] ELSE tab
  /\ UNCHANGED <<files, more>>
\* a location that isn't in the storage's form, or has nothing in it
Elsewhere(n, w) ==
  /\ op' = [op |-> "elsewhere", n |-> n, where |-> w] /\ Ok(FALSE) /\ UNCHANGED <<files, of, tab, more>>
Create(n) ==
  /\ op' = [op |-> "create", n |-> n] /\ Ok(tab[n] = None)
  /\ tab' = IF tab[n] = None THEN [tab EXCEPT ![n] = Own] ELSE tab
  /\ UNCHANGED <<files, of, more>>
Insert(n) ==
  /\ op' = [op |-> "insert", n |-> n] /\ Ok(tab[n] # None)
  /\ more[n] < MaxRows
  /\ more' = IF tab[n] # None THEN [more EXCEPT ![n] = @ + 1] ELSE more
  /\ UNCHANGED <<files, of, tab>>
Drop(n) ==
  /\ op' = [op |-> "drop", n |-> n] /\ Ok(tab[n] # None)
  /\ tab' = [tab EXCEPT ![n] = None] /\ more' = [more EXCEPT ![n] = 0]
  /\ files' = [p \in Place |-> IF p = tab[n] THEN {} ELSE files[p]] /\ of' = [p \in Place |-> IF p = tab[n] THEN NotYet ELSE of[p]]
Restart == op' = [op |-> "restart"] /\ Ok(TRUE) /\ UNCHANGED <<files, of, tab, more>>
Next == \/ \E p \in Place : (\E f \in File : Put(p, f)) \/ \E n \in Name : Convert(p, n)
        \/ \E n \in Name : Create(n) \/ Insert(n) \/ Drop(n) \/ \E w \in {"empty", "path", "word"} : Elsewhere(n, w)
        \/ Restart
Spec == Init /\ [][Next]_vars
View == <<files, of, tab, more>>
Inside == /\ \A p \in Place : of[p] # NotYet => of[p] \subseteq files[p] /\ of[p] # {}
          /\ \A n \in Name : tab[n] \in Place => of[tab[n]] # NotYet
\* a location is one table's
Single == \A m, n \in Name : m # n /\ tab[m] \in Place => tab[m] # tab[n]
\* a statement that fails changes nothing, and the files of a table don't change
Inert == [][result' = "no" => UNCHANGED View]_vars
Fixed == [][\A p \in Place : of[p] # NotYet => of'[p] = of[p] \/ op'.op = "drop"]_vars
Rows(n) == IF tab[n] = None THEN [there |-> FALSE] ELSE
           [there |-> TRUE, filesSet |-> IF tab[n] = Own THEN {} ELSE {10 * tab[n] + f : f \in of[tab[n]]}, more |-> more[n]]
St(tb, o, f) == [tabs |-> tb, places |-> [p \in Place |-> [filesSet |-> f[p], delta |-> o[p] # NotYet]]]
Tabs == [n \in Name |-> Rows(n)]
Emit == PrintT(ToJson([k |-> "e", s |-> St(Tabs, of, files), o |-> op', r |-> result', t |-> St(Tabs', of', files')]))
=============================================================================
