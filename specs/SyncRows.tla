------------------------------ MODULE SyncRows ------------------------------
(***************************************************************************)
(* Replicated changes of rows: what a table holds after changes (inserts,   *)
(* updates that may change the key, deletes) that came in batches of        *)
(* different column sets have been written to it.                           *)
(*                                                                          *)
(* A batch has, for each column v and w, either its values, its values and  *)
(* a flag telling in which rows it has changed, or nothing.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Key, Schemas, Max, MoveUnset, Again
VARIABLES base, pend, op
vars == <<base, pend, op>>
None == [v |-> "none", w |-> "none"]
Null == "null"
B(k) == "b" \o ToString(k)
P(i) == "p" \o ToString(i)
\* a schema: v and w are "all" (values), "flag" (values where flagged), "no" (absent)
Sch(s) == CASE s = "vw" -> [v |-> "all", w |-> "all"]  [] s = "v" -> [v |-> "all", w |-> "no"]
            [] s = "w" -> [v |-> "no", w |-> "all"]    [] s = "-" -> [v |-> "no", w |-> "no"]
            [] s = "Vw" -> [v |-> "flag", w |-> "all"] [] s = "vW" -> [v |-> "all", w |-> "flag"]
            [] s = "VW" -> [v |-> "flag", w |-> "flag"] [] s = "V" -> [v |-> "flag", w |-> "no"]
            [] s = "W" -> [v |-> "no", w |-> "flag"]
\* one change of the table t, the i-th pending one; o, n: old and new key (0: none); cv, cw: flags
Set(how, flag) == how = "all" \/ (how = "flag" /\ flag)
Eff(t, c, i) ==
  LET s == Sch(c.s)
      was == IF c.o = 0 THEN [v |-> Null, w |-> Null] ELSE t[c.o]
      row == [v |-> IF Set(s.v, c.cv) THEN P(i) ELSE was.v, w |-> IF Set(s.w, c.cw) THEN P(i) ELSE was.w]
  IN [k \in Key |-> IF k = c.n THEN row ELSE IF k = c.o THEN None ELSE t[k]]
RECURSIVE Fold(_, _, _)
Fold(t, p, i) == IF i > Len(p) THEN t ELSE Fold(Eff(t, p[i], i), p, i + 1)
Now == Fold(base, pend, 1)
Init == /\ base = [k \in Key |-> None] /\ pend = <<>> /\ op = [op |-> "init"]
Has(t, k) == t[k] # None
Valid(t, c) == LET s == Sch(c.s) IN
  /\ c.o # 0 => Has(t, c.o)
  /\ c.n # 0 /\ c.n # c.o => ~Has(t, c.n)
  /\ c.o # 0 \/ c.n # 0
  \* flags mean something only in updates
  /\ (s.v # "flag" \/ c.o = 0 \/ c.n = 0) => c.cv
  /\ (s.w # "flag" \/ c.o = 0 \/ c.n = 0) => c.cw
  \* a row that gets a key without a value for a column, where the key was another row's or the row's
  \* key changes: only with MoveUnset
  /\ (~MoveUnset /\ c.n # 0 /\ c.n # c.o /\ ~(Set(s.v, c.cv) /\ Set(s.w, c.cw))) => (c.o = 0 /\ ~Has(base, c.n))
Change(c) == /\ Len(pend) < Max /\ Valid(Now, c)
             /\ pend' = Append(pend, c) /\ op' = [op |-> "change", c |-> c] /\ UNCHANGED base
Kept(t) == [k \in Key |-> IF t[k] = None THEN None ELSE
              [v |-> IF t[k].v = Null THEN Null ELSE B(k), w |-> IF t[k].w = Null THEN Null ELSE B(k)]]
\* a sender may send it all again if it doesn't hear in time that it has been written; nothing changes
Flush(again) == /\ pend # <<>> /\ base' = Kept(Now) /\ pend' = <<>> /\ op' = [op |-> "flush", now |-> Now, again |-> again]
Next == \/ \E s \in Schemas, o \in Key \cup {0}, n \in Key \cup {0}, cv \in BOOLEAN, cw \in BOOLEAN :
             Change([s |-> s, o |-> o, n |-> n, cv |-> cv, cw |-> cw])
        \/ \E again \in Again : Flush(again)
Spec == Init /\ [][Next]_vars
\* a change, or a deletion and an insertion
Few == Len(pend) <= 1 \/ (pend[1].n = 0 /\ pend[2].o = 0)
View == <<base, pend>>
St(b, p) == [base |-> [k \in {ToString(x) : x \in Key} |-> b[CHOOSE y \in Key : ToString(y) = k]], pend |-> p]
Tab(t) == [k \in {ToString(x) : x \in Key} |-> t[CHOOSE y \in Key : ToString(y) = k]]
Emit == PrintT(ToJson([k |-> "e", s |-> St(base, pend), o |-> IF op'.op = "flush" THEN [op'  EXCEPT !.now = Tab(@)] ELSE op', r |-> "ok", t |-> St(base', pend')]))
\* changes that give all values can come again
Replay == (\A i \in 1..Len(pend) : pend[i].s = "vw") => Fold(Now, pend, 1) = Now
\* values come from the row's own history
Sound == \A k \in Key : Has(Now, k) => \A x \in {Now[k].v, Now[k].w} :
           x = Null \/ (\E j \in Key : x = B(j) /\ Has(base, j)) \/ (\E i \in 1..Len(pend) : x = P(i))
=============================================================================
