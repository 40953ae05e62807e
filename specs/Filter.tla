------------------------------ MODULE Filter ------------------------------
(***************************************************************************)
(* Filters that may be delegated to a remote database.  A state is a filter *)
(* (in prefix form) with its value on every row of a small table under      *)
(* three-valued logic, and the remote databases that have no exact           *)
(* counterpart for some part of it.  A step puts the filter so far into a    *)
(* bigger one.  If the filter is delegated, the text sent must have, read    *)
(* with the grammar of that database, the same value on every row.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxDepth, Ops, Sides, Odd

NL == 9999      \* NULL
ER == 8888      \* the filter has no value here (division by zero, numbers beyond the model): any outcome is fine
Rows == 1..16
\* the table
A == << NL, 0, 1, 2, 3, -1, -2, 4, 1, 0, NL, 2, 5, 3, 1, -3 >>
B == << 1, NL, 2, 1, 2, 3, -2, 3, 1, -1, NL, 2, 4, 1, 3, 2 >>
P == << 1, 0, NL, 1, 0, NL, 1, 0, NL, 0, 1, 1, 0, 0, 1, NL >>
Q == << 0, 1, 1, NL, 0, NL, 1, 0, 0, NL, 1, 0, 1, NL, 1, 0 >>
S == << "x", "y", "X", "-", "xx", "x", "y", "X", "-", "xy", "yx", "x", "-", "X", "xx", "y" >>  \* "-" stands for NULL

Dbs == {"postgres", "sqlite", "mysql"}

(***************************** meaning ********************************)
Lim(x) == IF x \in -100..100 THEN x ELSE ER
Tr(x, y) == LET ax == IF x < 0 THEN -x ELSE x
                ay == IF y < 0 THEN -y ELSE y IN
            IF (x < 0) = (y < 0) THEN ax \div ay ELSE -(ax \div ay)
Bit(x, i) == (x \div (2 ^ i)) % 2
\* numbers as 8 bits, two's complement
Bits(f(_, _), x, y) == LET u == [i \in 0..7 |-> f(Bit(x, i), Bit(y, i)) * (2 ^ i)]
                           n == u[0] + u[1] + u[2] + u[3] + u[4] + u[5] + u[6] + u[7] IN IF n > 127 THEN n - 256 ELSE n
BAnd(x, y) == x * y
BOr(x, y) == IF x + y > 0 THEN 1 ELSE 0
BXor(x, y) == (x + y) % 2
Truth(b) == IF b THEN 1 ELSE 0
Not3(x) == IF x = NL THEN NL ELSE 1 - x
Arith(o, x, y) ==
  CASE x = ER \/ y = ER -> ER
    [] x = NL \/ y = NL -> NL
    [] o = "+" -> Lim(x + y) [] o = "-" -> Lim(x - y) [] o = "*" -> Lim(x * y)
    [] o \in {"/", "%"} /\ y = 0 -> ER
    [] o = "/" -> Lim(Tr(x, y)) [] o = "%" -> Lim(x - y * Tr(x, y))
    [] o = "&" -> Bits(BAnd, x, y) [] o = "|" -> Bits(BOr, x, y) [] o = "#" -> Bits(BXor, x, y)
    [] o \in {"<<", ">>"} /\ ~(y \in 0..3) -> ER
    [] o = "<<" -> Lim(x * (2 ^ y)) [] o = ">>" -> x \div (2 ^ y)
Compare(o, x, y) ==
  CASE x = ER \/ y = ER -> ER
    [] o = "distinct" -> Truth(x # y) [] o = "notdistinct" -> Truth(x = y)
    [] x = NL \/ y = NL -> NL
    [] o = "=" -> Truth(x = y) [] o = "!=" -> Truth(x # y)
    [] o = "<" -> Truth(x < y) [] o = "<=" -> Truth(x <= y) [] o = ">" -> Truth(x > y) [] o = ">=" -> Truth(x >= y)
Logic(o, x, y) ==
  CASE x = ER \/ y = ER -> ER
    [] o = "and" -> IF x = 0 \/ y = 0 THEN 0 ELSE IF x = NL \/ y = NL THEN NL ELSE 1
    [] o = "or" -> IF x = 1 \/ y = 1 THEN 1 ELSE IF x = NL \/ y = NL THEN NL ELSE 0
Is(o, x) ==
  CASE x = ER -> ER
    [] o = "isnull" -> Truth(x = NL) [] o = "isnotnull" -> Truth(x # NL)
    [] o = "istrue" -> Truth(x = 1) [] o = "isfalse" -> Truth(x = 0)
    [] o = "isnottrue" -> Truth(x # 1) [] o = "isnotfalse" -> Truth(x # 0)
InList(x, l) == IF x = ER \/ ER \in l THEN ER ELSE IF x = NL THEN NL ELSE IF x \in l THEN 1 ELSE IF NL \in l THEN NL ELSE 0
\* text: only operators against 'x'
Match(o, t) == IF t = "-" THEN NL ELSE
  CASE o = "t=" -> Truth(t = "x") [] o = "t!=" -> Truth(t # "x")
    [] o \in {"~", "~~"} -> Truth(IF o = "~" THEN t \in {"x", "xx", "xy", "yx"} ELSE t = "x")
    [] o \in {"!~", "!~~"} -> Truth(~(IF o = "!~" THEN t \in {"x", "xx", "xy", "yx"} ELSE t = "x"))
    [] o = "~*" -> Truth(t \in {"x", "X", "xx", "xy", "yx"}) [] o = "!~*" -> Truth(~(t \in {"x", "X", "xx", "xy", "yx"}))
    [] o = "~~*" -> Truth(t \in {"x", "X"}) [] o = "!~~*" -> Truth(~(t \in {"x", "X"}))
    [] o = "||" -> Truth(t = "x")          \* s || 'x' = 'xx'

(****************** what has no exact counterpart where ****************)
No(o) ==
  CASE o \in {"~~", "!~~", "~~*", "!~~*"} -> {"sqlite", "mysql"}
    [] o \in {"~", "!~"} -> {"sqlite"}
    [] o \in {"~*", "!~*"} -> {"sqlite", "mysql"}
    [] o = "#" -> {"sqlite"}
    [] o \in {"/", "||", "distinct"} -> {"mysql"}
    [] o \in {"udf", "placeholder", "variable", "outer", "similar", "unknownlit", "ilike"} -> Dbs
    [] OTHER -> {}

(*************************** grammars **********************************)
\* how tightly each operator binds, and which way a row of them groups ("n": not at all, a mistake), by database manual
G(db, l, as, os) == {[db |-> db, op |-> o, level |-> l, assoc |-> as] : o \in os}
Grammar ==
  G("postgres", 1, "l", {"OR"}) \cup G("postgres", 2, "l", {"AND"}) \cup G("postgres", 3, "p", {"NOT"})
  \cup G("postgres", 4, "n", {"IS DISTINCT FROM", "IS NOT DISTINCT FROM"})
  \cup G("postgres", 4, "s", {"IS NULL", "IS NOT NULL", "IS TRUE", "IS NOT TRUE", "IS FALSE", "IS NOT FALSE", "IS UNKNOWN", "IS NOT UNKNOWN"})
  \cup G("postgres", 5, "n", {"<", ">", "=", "<=", ">=", "<>", "!="}) \cup G("postgres", 6, "s", {"IN", "NOT IN"})
  \cup G("postgres", 7, "l", {"&", "|", "#", "<<", ">>", "||", "~", "!~", "~*", "!~*", "~~", "!~~", "~~*", "!~~*"})
  \cup G("postgres", 8, "l", {"+", "-"}) \cup G("postgres", 9, "l", {"*", "/", "%"}) \cup G("postgres", 12, "u", {"-"})
  \cup G("sqlite", 1, "l", {"OR"}) \cup G("sqlite", 2, "l", {"AND"}) \cup G("sqlite", 3, "p", {"NOT"})
  \cup G("sqlite", 4, "l", {"=", "==", "<>", "!=", "IS DISTINCT FROM", "IS NOT DISTINCT FROM"})
  \cup G("sqlite", 4, "s", {"IS NULL", "IS NOT NULL", "IS TRUE", "IS NOT TRUE", "IS FALSE", "IS NOT FALSE", "IN", "NOT IN"})
  \cup G("sqlite", 5, "l", {"<", "<=", ">", ">="}) \cup G("sqlite", 7, "l", {"&", "|", "<<", ">>"}) \cup G("sqlite", 8, "l", {"+", "-"})
  \cup G("sqlite", 9, "l", {"*", "/", "%"}) \cup G("sqlite", 10, "l", {"||"}) \cup G("sqlite", 12, "u", {"-"})
  \cup G("mysql", 1, "l", {"OR", "||"}) \cup G("mysql", 3, "l", {"AND"}) \cup G("mysql", 4, "p", {"NOT"})
  \cup G("mysql", 5, "e", {"IS TRUE", "IS NOT TRUE", "IS FALSE", "IS NOT FALSE", "IS UNKNOWN", "IS NOT UNKNOWN"})
  \cup G("mysql", 6, "l", {"=", "<=>", ">=", ">", "<=", "<", "<>", "!="}) \cup G("mysql", 6, "s", {"IS NULL", "IS NOT NULL"})
  \cup G("mysql", 7, "e", {"IN", "NOT IN"}) \cup G("mysql", 7, "n", {"RLIKE", "NOT RLIKE"})
  \cup G("mysql", 8, "l", {"|"}) \cup G("mysql", 9, "l", {"&"}) \cup G("mysql", 10, "l", {"<<", ">>"}) \cup G("mysql", 11, "l", {"+", "-"})
  \cup G("mysql", 12, "l", {"*", "/", "%"}) \cup G("mysql", 13, "l", {"^"}) \cup G("mysql", 14, "u", {"-"})
ASSUME PrintT(ToJson([k |-> "g", grammar |-> Grammar, rows |-> [a |-> A, b |-> B, p |-> P, q |-> Q, s |-> S], null |-> NL, err |-> ER]))

(*************************** filters ***********************************)
T(x, s, v, no) == [x |-> x, s |-> s, v |-> v, no |-> no]
Const(x, s, c) == T(x, s, [r \in Rows |-> c], {})
IntLeaves == {T("a", "i", A, {}), T("b", "i", B, {}), Const("2", "i", 2), Const("-1", "i", -1), Const("null", "i", NL)}
BoolLeaves == {T("p", "b", P, {}), T("q", "b", Q, {}), Const("true", "b", 1), Const("bnull", "b", NL)}
IntSide == {t \in IntLeaves : t.x \in Sides}
BoolSide == {t \in BoolLeaves : t.x \in Sides}
Bin(o, l, r, s, f(_, _, _)) == T("(" \o o \o " " \o l.x \o " " \o r.x \o ")", s, [i \in Rows |-> f(o, l.v[i], r.v[i])], No(o) \cup l.no \cup r.no)
Un(o, l, s, f(_, _)) == T("(" \o o \o " " \o l.x \o ")", s, [i \in Rows |-> f(o, l.v[i])], No(o) \cup l.no)
Same(o, x) == x
NegF(o, x) == Arith("-", 0, x)
NotF(o, x) == IF x = ER THEN ER ELSE Not3(x)

ArithOps == {"+", "-", "*", "/", "%", "&", "|", "#", "<<", ">>"} \cap Ops
CompareOps == {"=", "!=", "<", "<=", ">", ">=", "distinct", "notdistinct"} \cap Ops
LogicOps == {"and", "or"} \cap Ops
IsOps == {"istrue", "isfalse", "isnottrue", "isnotfalse"} \cap Ops
NullOps == {"isnull", "isnotnull"} \cap Ops
InOps == {"in", "notin"} \cap Ops
In(o, l, e1, e2) == T("(" \o o \o " " \o l.x \o " " \o e1.x \o " " \o e2.x \o ")", "b",
   [i \in Rows |-> LET v == InList(l.v[i], {e1.v[i], e2.v[i]}) IN IF o = "in" \/ v = ER THEN v ELSE Not3(v)], l.no \cup e1.no \cup e2.no)

\* the filters made from t and leaves at its side by one more operator
Around(t) ==
  IF t.s = "i" THEN
      {Bin(o, t, u, "i", Arith) : o \in ArithOps, u \in IntSide} \cup {Bin(o, u, t, "i", Arith) : o \in ArithOps, u \in IntSide}
    \cup {Bin(o, t, u, "b", Compare) : o \in CompareOps, u \in IntSide} \cup {Bin(o, u, t, "b", Compare) : o \in CompareOps, u \in IntSide}
    \cup {Un(o, t, "i", NegF) : o \in {"neg"} \cap Ops} \cup {Un(o, t, "b", Is) : o \in NullOps}
    \cup {In(o, t, u, Const("2", "i", 2)) : o \in InOps, u \in IntSide} \cup {In(o, u, t, Const("2", "i", 2)) : o \in InOps, u \in IntSide}
    \cup {Un(o, t, "i", Same) : o \in Odd \cap {"udf"}}
  ELSE
      {Bin(o, t, u, "b", Logic) : o \in LogicOps, u \in BoolSide} \cup {Bin(o, u, t, "b", Logic) : o \in LogicOps, u \in BoolSide}
    \cup {Bin(o, t, u, "b", Compare) : o \in CompareOps \cap {"=", "!=", "<", "distinct", "notdistinct"}, u \in BoolSide}
    \cup {Bin(o, u, t, "b", Compare) : o \in CompareOps \cap {"=", "!=", "<", "distinct", "notdistinct"}, u \in BoolSide}
    \cup {Un(o, t, "b", NotF) : o \in {"not"} \cap Ops} \cup {Un(o, t, "b", Is) : o \in IsOps \cup NullOps}
    \cup {In(o, t, u, Const("true", "b", 1)) : o \in InOps, u \in BoolSide}
Text == {T("(" \o o \o " s)", "b", [i \in Rows |-> Match(o, S[i])], No(o)) :
          o \in {"t=", "t!=", "~", "!~", "~*", "!~*", "~~", "!~~", "~~*", "!~~*", "||"} \cap (Ops \cup {"t="})}
OddLeaves == {T(o, "b", [i \in Rows |-> ER], Dbs) : o \in Odd \ {"udf", "join"}}
Leaves == IntLeaves \cup BoolLeaves \cup Text \cup OddLeaves

VARIABLES t, d
vars == <<t, d>>
Init == t \in Leaves /\ d = 0
Grow == d < MaxDepth /\ t' \in Around(t) /\ d' = d + 1
\* two filters of one operator each, joined
Small == UNION {Around(l) : l \in {u \in IntLeaves \cup BoolLeaves : u.x \in {"a", "p"}}}
Join == /\ d = 1 /\ MaxDepth > 1 /\ "join" \in Odd
        /\ \E u \in Small : u.s = t.s /\ t' \in (IF t.s = "i" THEN {Bin(o, t, u, "i", Arith) : o \in ArithOps} \cup {Bin(o, t, u, "b", Compare) : o \in CompareOps}
                                                 ELSE {Bin(o, t, u, "b", Logic) : o \in LogicOps})
        /\ d' = MaxDepth
Next == Grow \/ Join
Spec == Init /\ [][Next]_vars

\* laws of the logic, as a check of the definitions
Laws == /\ t.s = "b" => \A i \in Rows : t.v[i] \in {0, 1, NL, ER}
        /\ \A i \in Rows : t.v[i] \in -128..127 \cup {NL, ER}
EmitInv == t.s = "b" => PrintT(ToJson([k |-> "c", x |-> t.x, v |-> t.v, no |-> t.no]))
=============================================================================
