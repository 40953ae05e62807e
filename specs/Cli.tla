-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line. Typed lines accumulate until they form a command (the *)
(* input starts with a backslash) or a complete statement text (it ends    *)
(* with a semicolon, trailing blanks apart). Every complete input is acted *)
(* on once, in order, before more is read: a command does what its name    *)
(* says, an unknown one nothing; of a statement text first all statements  *)
(* are planned, then each is run and printed. A failure ends the input it  *)
(* is in, not the session. Only \q or the end of the input ends that.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Lines, MaxLines
VARIABLES pending, typed, did, open
vars == <<pending, typed, did, open>>
NL == "\n"
BS == "\\"
Blank == {" ", NL, "\t"}
\* one typed line, as tokens
L == [ d |-> <<BS, "d">>, q |-> <<BS, "q">>, help |-> <<BS, "?">>, quit |-> <<BS, "quit">>, x |-> <<BS, "x">>, bs |-> <<BS>>,
       dt |-> <<BS, "d", " ", "tbl">>, dtt |-> <<BS, "d", " ", " ", "tbl", "\t", "two", " ">>, qx |-> <<BS, "q", " ", "tbl">>, hx |-> <<BS, "?", " ", "tbl">>,
       sp |-> <<BS, " ", "d">>, ind |-> <<" ", BS, "d">>, dsp |-> <<BS, "d", " ", " ">>, dsemi |-> <<BS, "d", ";">>, D |-> <<BS, "D">>,
       empty |-> <<>>, blank |-> <<" ">>, semi |-> <<";">>,
       s |-> <<"ok1", ";">>, s2 |-> <<"ok1", ";", " ", "ok2", ";">>, ssp |-> <<"ok1", ";", " ", "\t">>, open |-> <<"ok1">>, close |-> <<"more", ";">>,
       mid |-> <<"ok1", ";", " ", "ok2">>, word |-> <<"q">>, wquit |-> <<"quit">>, qs |-> <<"q", ";">>,
       bad |-> <<"ok1", ";", "badparse", ";">>, badplan |-> <<"ok1", ";", "badplan", ";", "ok2", ";">>, badrun |-> <<"ok1", ";", "badrun", ";", "ok2", ";">>,
       badphys |-> <<"ok1", ";", "badphys", ";", "ok2", ";">>, none |-> <<"nothing", ";", "ok1", ";">> ]
RECURSIVE TrimEnd(_)
TrimEnd(t) == IF t # <<>> /\ Last(t) \in Blank THEN TrimEnd(Front(t)) ELSE t
RECURSIVE Flat(_)
Flat(t) == IF t = <<>> THEN "" ELSE Head(t) \o Flat(Tail(t))
\* words of a text: maximal runs of tokens between blanks
Words(t) ==
  LET F[i \in 0..Len(t)] == IF i = 0 THEN [done |-> <<>>, cur |-> <<>>]
        ELSE LET p == F[i-1] IN
             IF t[i] \in Blank THEN [done |-> IF p.cur = <<>> THEN p.done ELSE Append(p.done, p.cur), cur |-> <<>>]
             ELSE [p EXCEPT !.cur = Append(p.cur, t[i])]
      z == F[Len(t)]
  IN IF z.cur = <<>> THEN z.done ELSE Append(z.done, z.cur)
IsCommand(t) == t # <<>> /\ t[1] = BS
Complete(t) == IsCommand(t) \/ (TrimEnd(t) # <<>> /\ Last(TrimEnd(t)) = ";")
Act(w, x) == [act |-> w, what |-> x]
Join(ws) == LET F[i \in 1..Len(ws)] == IF i = 1 THEN Flat(ws[1]) ELSE F[i-1] \o " " \o Flat(ws[i]) IN F[Len(ws)]
Run(q) == <<Act("parse", q), Act("plan", q), Act("physical", q), Act("run", q)>>
Command(t) ==
  LET w == Words(t) name == Tail(w[1]) args == Tail(w) IN
  CASE name \in {<<"q">>, <<"quit">>} /\ args = <<>> -> <<Act("quit", "")>>
    [] name = <<"d">> /\ args = <<>> -> Run("SHOW TABLES")
    [] name = <<"d">> /\ args # <<>> -> Run("SHOW COLUMNS FROM " \o Join(args))
    [] name = <<"?">> /\ args = <<>> -> <<Act("help", "")>>
    [] OTHER -> <<Act("unknown", "")>>
\* the statements of a text: between semicolons, those of blanks only left out
Pieces(t) ==
  LET F[i \in 0..Len(t)] == IF i = 0 THEN [done |-> <<>>, cur |-> <<>>]
        ELSE LET p == F[i-1] IN IF t[i] = ";" THEN [done |-> Append(p.done, p.cur), cur |-> <<>>] ELSE [p EXCEPT !.cur = Append(p.cur, t[i])]
      z == F[Len(t)]
  IN SelectSeq([i \in 1..Len(z.done) |-> Words(z.done[i])], LAMBDA ws : ws # <<>>)
Has(p, x) == \E i \in 1..Len(p) : p[i] = <<x>>
Statements(t) ==
  LET ps == Pieces(t)
      bad(x) == {i \in 1..Len(ps) : Has(ps[i], x)}
      first(S) == IF S = {} THEN Len(ps) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
      stop == LET a == first(bad("badplan")) b == first(bad("badphys")) IN IF a < b THEN a ELSE b
      planned(i) == IF i < stop THEN <<Act("plan", Join(ps[i])), Act("physical", Join(ps[i]))>>
                    ELSE IF i = stop THEN <<Act("plan", Join(ps[i]))>> \o (IF Has(ps[i], "badphys") THEN <<Act("physical", Join(ps[i]))>> ELSE <<>>) ELSE <<>>
      plans == FlattenSeq([i \in 1..Len(ps) |-> planned(i)])
      runs == IF stop <= Len(ps) THEN <<>> ELSE [i \in 1..(IF first(bad("badrun")) <= Len(ps) THEN first(bad("badrun")) ELSE Len(ps)) |-> Act("run", Join(ps[i]))]
      failed == stop <= Len(ps) \/ bad("badrun") # {}
  IN IF bad("badparse") # {} THEN <<Act("parse", Flat(TrimEnd(t))), Act("error", "")>>
     ELSE <<Act("parse", Flat(TrimEnd(t)))>> \o plans \o runs \o (IF failed THEN <<Act("error", "")>> ELSE <<>>)
Init == pending = <<>> /\ typed = <<>> /\ did = <<>> /\ open = TRUE
Type(n) ==
  /\ open /\ Len(typed) < MaxLines
  /\ typed' = Append(typed, Flat(L[n]))
  /\ LET t == pending \o L[n] IN
     IF ~Complete(t) THEN pending' = Append(t, NL) /\ UNCHANGED <<did, open>>
     ELSE /\ pending' = <<>>
          /\ LET a == IF IsCommand(t) THEN Command(t) ELSE Statements(t) IN
             did' = did \o a /\ open' = (a # <<Act("quit", "")>>)
Next == \E n \in Lines : Type(n)
Spec == Init /\ [][Next]_vars
Runs == SelectSeq(did, LAMBDA a : a.act = "run")
\* nothing runs before it was planned, and every text is parsed once
Planned == \A i \in 1..Len(did) : did[i].act = "run" => \E j \in 1..i : did[j].act = "physical" /\ did[j].what = did[i].what
NothingFromUnfinished == [][pending' # <<>> => did' = did]_vars
EmitInv == typed # <<>> => PrintT(ToJson([k |-> "c", typed |-> typed, did |-> did, open |-> open]))
=============================================================================
