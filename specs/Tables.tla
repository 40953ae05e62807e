------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* What statements do to the contents of tables.  A table is a bag of rows  *)
(* <<a, b, c>> (BIGINT, TEXT, BIGINT, each possibly NULL); a row is updated  *)
(* or deleted exactly if the predicate is TRUE for it, under three-valued    *)
(* logic.  A table keeps its identity through RENAME; its past contents can  *)
(* be read until VACUUM.  Instants that can be asked for are marks.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
NL == 9999          \* NULL of a number
NS == "~"           \* NULL of a text
\* texts in ascending order
Texts == << "", "B", "a", "x", "y", "é" >>
Rank(s) == CHOOSE i \in 1..Len(Texts) : Texts[i] = s
Cols == << "a", "b", "c" >>
Pos(c) == CASE c = "a" -> 1 [] c = "b" -> 2 [] c = "c" -> 3
Range(s) == {s[i] : i \in 1..Len(s)}

(***************************** expressions ********************************)
RECURSIVE Num(_, _)
Num(e, r) ==
  CASE e[1] = "col" -> r[Pos(e[2])]
    [] e[1] = "int" -> e[2]
    [] e[1] = "boom" -> NL
    [] OTHER -> LET x == Num(e[2], r)
                    y == Num(e[3], r) IN
                IF x = NL \/ y = NL THEN NL ELSE IF e[1] = "+" THEN x + y ELSE x - y
\* whether computing the expression fails: boom is 1 / (a - a)
Fails(e, r) == e[1] = "boom" /\ r[1] # NL
\* whether the expression may be NULL for a row of a table with these NOT NULL columns
RECURSIVE Nullable(_, _)
Nullable(e, nn) == CASE e[1] = "col" -> e[2] \notin nn
                     [] e[1] = "int" -> e[2] = NL
                     [] e[1] = "str" -> e[2] = NS
                     [] e[1] = "boom" -> "a" \notin nn
                     [] OTHER -> Nullable(e[2], nn) \/ Nullable(e[3], nn)
Str(e, r) == IF e[1] = "col" THEN r[2] ELSE e[2]
Truth(b) == IF b THEN 1 ELSE 0
Order(o, x, y) == CASE o = "=" -> x = y [] o = "<>" -> x # y [] o = "<" -> x < y [] o = "<=" -> x <= y [] o = ">" -> x > y [] o = ">=" -> x >= y
\* membership of a list which may hold NULL
In(x, null, s) == IF x = null THEN NL ELSE IF x \in Range(s) THEN 1 ELSE IF null \in Range(s) THEN NL ELSE 0
RECURSIVE Holds(_, _)
Holds(p, r) ==
  CASE p[1] = "none" -> 1
    [] p[1] = "lit" -> p[2]
    [] p[1] = "cmp" -> (LET x == Num(p[3], r)
                            y == Num(p[4], r) IN IF x = NL \/ y = NL THEN NL ELSE Truth(Order(p[2], x, y)))
    [] p[1] = "scmp" -> (LET x == Str(p[3], r)
                             y == Str(p[4], r) IN IF x = NS \/ y = NS THEN NL ELSE Truth(Order(p[2], Rank(x), Rank(y))))
    [] p[1] = "null" -> Truth(r[Pos(p[2])] = (IF p[2] = "b" THEN NS ELSE NL))
    [] p[1] = "in" -> In(Num(p[2], r), NL, p[3])
    [] p[1] = "sin" -> In(Str(p[2], r), NS, p[3])
    [] p[1] = "not" -> (LET x == Holds(p[2], r) IN IF x = NL THEN NL ELSE 1 - x)
    [] p[1] = "and" -> (LET x == Holds(p[2], r)
                            y == Holds(p[3], r) IN IF x = 0 \/ y = 0 THEN 0 ELSE IF x = NL \/ y = NL THEN NL ELSE 1)
    [] p[1] = "or" -> (LET x == Holds(p[2], r)
                           y == Holds(p[3], r) IN IF x = 1 \/ y = 1 THEN 1 ELSE IF x = NL \/ y = NL THEN NL ELSE 0)
Matches(p, r) == Holds(p, r) = 1

(******************************** bags ************************************)
Empty == [r \in {} |-> 0]
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Count(B, r) == IF r \in DOMAIN B THEN B[r] ELSE 0
Size(B) == Sum(B, DOMAIN B)
Plus(B, C) == [r \in DOMAIN B \cup DOMAIN C |-> Count(B, r) + Count(C, r)]
Where(B, p) == [r \in {q \in DOMAIN B : Matches(p, q)} |-> B[r]]
WhereNot(B, p) == [r \in {q \in DOMAIN B : ~Matches(p, q)} |-> B[r]]
Image(B, f(_)) == [d \in {f(r) : r \in DOMAIN B} |-> Sum(B, {r \in DOMAIN B : f(r) = d})]
OfSeq(s) == [r \in Range(s) |-> Cardinality({i \in 1..Len(s) : s[i] = r})]

(***************************** statements *********************************)
\* value of column c of the row built from expressions es for columns cs
Cell(c, cs, es, r) ==
  IF \E i \in 1..Len(cs) : cs[i] = c
  THEN LET e == es[CHOOSE i \in 1..Len(cs) : cs[i] = c] IN IF c = "b" THEN Str(e, r) ELSE Num(e, r)
  ELSE IF c = "b" THEN NS ELSE NL
Made(cs, es, r) == << Cell("a", cs, es, r), Cell("b", cs, es, r), Cell("c", cs, es, r) >>
\* assignments see the row as it was
Set(cs, es, r) == << IF "a" \in Range(cs) THEN Cell("a", cs, es, r) ELSE r[1],
                     IF "b" \in Range(cs) THEN Cell("b", cs, es, r) ELSE r[2],
                     IF "c" \in Range(cs) THEN Cell("c", cs, es, r) ELSE r[3] >>
NoRow == << NL, NS, NL >>
\* whether a bag of rows may be in a table with these NOT NULL columns
Fits(B, nn) == \A r \in DOMAIN B : \A c \in nn : r[Pos(c)] # (IF c = "b" THEN NS ELSE NL)
AnyFails(B, es) == \E r \in DOMAIN B : \E i \in 1..Len(es) : Fails(es[i], r)

CONSTANT Names
VARIABLES tab,      \* name -> [id, nn, rows, past, fresh]: nn: columns that are NOT NULL; past[m] is what the table held at mark m; fresh: marks since its last change
          marks, ids, result
vars == <<tab, marks, ids, result>>
Unknown == [known |-> FALSE, rows |-> Empty]
Absent == [id |-> 0, nn |-> {}, rows |-> Empty, past |-> << >>, fresh |-> 0]
Exists(n) == tab[n].id # 0
Init == tab = [n \in Names |-> Absent] /\ marks = 0 /\ ids = 0 /\ result = "ok"

Fail == result' = "error" /\ UNCHANGED <<tab, marks, ids>>
\* a statement that would leave a NULL where there must be none changes nothing
Change(n, B) == IF ~Fits(B, tab[n].nn) THEN Fail
                ELSE /\ tab' = [tab EXCEPT ![n].rows = B, ![n].fresh = 0]
                     /\ result' = "ok" /\ UNCHANGED <<marks, ids>>
New(n, nn, B) == /\ tab' = [tab EXCEPT ![n] = [id |-> ids + 1, nn |-> nn, rows |-> B, past |-> [m \in 1..marks |-> Unknown], fresh |-> 0]]
                 /\ ids' = ids + 1 /\ result' = "ok" /\ UNCHANGED marks
Nothing == result' = "ok" /\ UNCHANGED <<tab, marks, ids>>

Create(n, nn, ine) == IF Exists(n) THEN (IF ine THEN Nothing ELSE Fail) ELSE New(n, nn, Empty)
Ctas(n, from, cs, es, p, ine) ==
  IF ~Exists(from) THEN Fail
  ELSE IF Exists(n) THEN (IF ine THEN Nothing ELSE Fail)
  ELSE LET B == Where(tab[from].rows, p)
           f(r) == Made(cs, es, r) IN
       IF AnyFails(B, es) THEN Fail
       ELSE New(n, {cs[i] : i \in {k \in 1..Len(cs) : ~Nullable(es[k], tab[from].nn)}}, Image(B, f))
Insert(n, cs, vs) == IF ~Exists(n) THEN Fail
                     ELSE Change(n, Plus(tab[n].rows, OfSeq([i \in 1..Len(vs) |-> Made(cs, vs[i], NoRow)])))
InsertSelect(n, from, cs, es, p) ==
  IF ~Exists(n) \/ ~Exists(from) THEN Fail
  ELSE LET B == Where(tab[from].rows, p)
           f(r) == Made(cs, es, r) IN
       IF AnyFails(B, es) THEN Fail ELSE Change(n, Plus(tab[n].rows, Image(B, f)))
Update(n, cs, es, p) ==
  IF ~Exists(n) THEN Fail
  ELSE LET B == Where(tab[n].rows, p)
           f(r) == Set(cs, es, r) IN
       IF AnyFails(B, es) THEN Fail ELSE Change(n, Plus(WhereNot(tab[n].rows, p), Image(B, f)))
\* a file appended to a table, which is made if there is none; an empty field of a CSV is NULL
Read(kind, r) == IF kind = "csv" /\ r[2] = "" THEN << r[1], NS, r[3] >> ELSE r
Upload(n, kind, rs) == LET B == OfSeq([i \in 1..Len(rs) |-> Read(kind, rs[i])]) IN
                       IF Exists(n) THEN Change(n, Plus(tab[n].rows, B)) ELSE New(n, {}, B)
Delete(n, p) == IF ~Exists(n) THEN Fail ELSE Change(n, WhereNot(tab[n].rows, p))
Truncate(n) == IF ~Exists(n) THEN Fail ELSE Change(n, Empty)
Drop(n, ie) == IF ~Exists(n) THEN (IF ie THEN Nothing ELSE Fail)
               ELSE tab' = [tab EXCEPT ![n] = Absent] /\ result' = "ok" /\ UNCHANGED <<marks, ids>>
Rename(n, m) == IF ~Exists(n) \/ Exists(m) THEN Fail
                ELSE tab' = [tab EXCEPT ![m] = tab[n], ![n] = Absent] /\ result' = "ok" /\ UNCHANGED <<marks, ids>>
\* nothing is promised about contents replaced before
Vacuum(n) == /\ Exists(n)
             /\ tab' = [tab EXCEPT ![n].past = [m \in 1..marks |-> IF m > marks - tab[n].fresh THEN tab[n].past[m] ELSE Unknown]]
             /\ result' = "ok" /\ UNCHANGED <<marks, ids>>
Mark == /\ marks' = marks + 1
        /\ tab' = [n \in Names |-> IF Exists(n) THEN [tab[n] EXCEPT !.past = Append(@, [known |-> TRUE, rows |-> tab[n].rows]), !.fresh = @ + 1] ELSE Absent]
        /\ result' = "ok" /\ UNCHANGED ids

\* statements of a database do not interfere: at most the tables named change
Bags(B) == {<<r, B[r]>> : r \in DOMAIN B}
=============================================================================
