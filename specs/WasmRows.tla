------------------------------ MODULE WasmRows ------------------------------
(***************************************************************************)
(* Applying a user-defined function to batches of rows. A function gives   *)
(* back one of its arguments (`pick`), what it was given (`seen`), or how  *)
(* often it ran before in this batch (`count`). A batch is written row by  *)
(* row; columns may be constant. `want` is the result column of a batch:   *)
(* one value per row, computed from that row only. A row with a NULL among *)
(* its arguments yields NULL.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sigs,       \* signatures to use: [lang, args, fn, col] (see Sig*)
          MaxRows, MaxBatches, Nulls, Width   \* Width: how many values a column takes

VARIABLES sig, consts, batches, want
vars == <<sig, consts, batches, want>>

NULL == "NULL"
Ints16 == <<"1", "0", "-1", "127", "128", "255", "256", "-32", "-33", "-128", "-129", "32767", "-32768">>
Ints32 == Ints16 \o <<"65535", "65536", "2147483647", "-2147483648", "-32769">>
Ints64 == Ints32 \o <<"4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "-2147483649">>
Floats == <<"1.5", "0", "-0", "-1", "3e38", "1e-45", "-1.1754944e-38", "inf", "-inf", "NaN">>
Floats64 == Floats \o <<"1e308", "-5e-324", "0.1", "9007199254740993">>
Texts == <<"a", "", "<31>", "<32>", "<255>", "<256>", "<65535>", "<65536>", "<unicode>", "<nul>", "it's \"q\"", "NULL?", " a ", " ", "A", "\\", "\n", "1", "true", "%_">>
Decs == <<"1", "0", "-1", "255", "-129", "2147483648", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
          "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-18446744073709551616",
          "-18446744073709551615", "27670116110564327424", "99999999999999999999999999999999999999", "-99999999999999999999999999999999999999">>
Bools == <<"true", "false">>
Values(t) ==
  CASE t = "SMALLINT" -> Ints16
    [] t \in {"INT", "I32", "DATE"} -> Ints32
    [] t \in {"BIGINT", "I64", "TIMESTAMP"} -> Ints64
    [] t \in {"FLOAT", "REAL", "F32"} -> Floats
    [] t \in {"DOUBLE", "F64"} -> Floats64
    [] t \in {"TEXT", "CHAR", "VARCHAR"} -> Texts
    [] t = "BOOLEAN" -> Bools
    [] t = "DECIMAL(5,2)" -> <<"1", "0", "-1", "99999", "-99999">>
    [] OTHER -> Decs
Ran(q) == {q[i] : i \in 1..Len(q)}
Min(a, b) == IF a < b THEN a ELSE b
\* the values of a column
Col(t) == {Values(t)[k] : k \in 1..Min(Width, Len(Values(t)))}
             \cup (IF Nulls THEN {NULL} ELSE {})

Native == {"I32", "I64", "F32", "F64", "INT", "BIGINT", "FLOAT", "REAL", "DOUBLE"}
All == Native \cup {"SMALLINT", "CHAR", "VARCHAR", "TEXT", "BOOLEAN", "DATE", "TIMESTAMP", "DECIMAL(38,10)", "DECIMAL(38,0)", "DECIMAL(38,-3)", "DECIMAL(5,2)"}
One(l, t, f) == [lang |-> l, args |-> <<t>>, fn |-> f, col |-> 1]
\* every type on its own
Sig1 == {One("wasm", t, f) : t \in Native, f \in {"pick", "count"}} \cup {One("wasmMessagePack", t, f) : t \in All, f \in {"pick", "seen", "count"}}
\* several arguments
Mixes == {<<"INT", "BIGINT">>, <<"DOUBLE", "INT">>, <<"BIGINT", "REAL", "INT">>}
MixesMp == Mixes \cup {<<"TEXT", "INT">>, <<"DECIMAL(38,10)", "TEXT">>, <<"BOOLEAN", "TEXT", "TIMESTAMP">>, <<"SMALLINT", "TEXT">>, <<"DATE", "FLOAT">>}
Multi(l, m) == {[lang |-> l, args |-> a, fn |-> "pick", col |-> c] : a \in m, c \in 1..3} \cup
               {[lang |-> l, args |-> a, fn |-> "count", col |-> 1] : a \in m}
Sig2 == {s \in Multi("wasm", Mixes) \cup Multi("wasmMessagePack", MixesMp) : s.col <= Len(s.args)} \cup
        {[lang |-> "wasmMessagePack", args |-> a, fn |-> "seen", col |-> 1] : a \in MixesMp}
\* no arguments: the function runs once, however many rows there are
Sig0 == {[lang |-> l, args |-> <<>>, fn |-> "count", col |-> 1] : l \in {"wasm", "wasmMessagePack"}}
SigR == {s \in Sig2 : s.args \in {<<"INT", "BIGINT">>, <<"TEXT", "INT">>, <<"DECIMAL(38,10)", "TEXT">>}}
SigC == {s \in Sig1 : s.args[1] \in {"INT", "TEXT", "BIGINT", "DOUBLE"}}

Open == -1
\* the constant columns have their value from the beginning
Init == /\ sig \in Sigs
        /\ \E k \in SUBSET (1..Len(sig.args)) :
             /\ Cardinality(k) > 0 => (Len(sig.args) > 1 \/ Nulls)
             /\ \E v \in [k -> UNION {Col(sig.args[i]) : i \in 1..Len(sig.args)} \cup {NULL}] :
                  /\ \A i \in k : v[i] \in Col(sig.args[i])
                  /\ consts = [i \in 1..Len(sig.args) |-> IF i \in k THEN v[i] ELSE "column"]
        /\ batches = <<<<>>>> /\ want = <<<<>>>>

AllConst == \A i \in 1..Len(sig.args) : consts[i] # "column"
\* runs before this row in its batch
Before(w) == Cardinality({i \in 1..Len(w) : w[i] # NULL})
Result(r, w) == IF \E i \in 1..Len(r) : r[i] = NULL THEN NULL
                ELSE CASE sig.fn = "pick" -> r[sig.col]
                       [] sig.fn = "count" -> IF AllConst THEN "0" ELSE ToString(Before(w))
                       [] sig.fn = "seen" -> r
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
AddRow == /\ Len(Last(batches)) < MaxRows
          /\ \E r \in [1..Len(sig.args) -> UNION {Col(sig.args[i]) : i \in 1..Len(sig.args)} \cup {NULL} \cup Ran(consts)] :
               /\ \A i \in 1..Len(sig.args) : IF consts[i] = "column" THEN r[i] \in Col(sig.args[i]) ELSE r[i] = consts[i]
               /\ batches' = Append(Front(batches), Append(Last(batches), r))
               /\ want' = Append(Front(want), Append(Last(want), Result(r, Last(want))))
          /\ UNCHANGED <<sig, consts>>
NewBatch == Len(batches) < MaxBatches /\ batches' = Append(batches, <<>>) /\ want' = Append(want, <<>>) /\ UNCHANGED <<sig, consts>>
Next == AddRow \/ NewBatch
Spec == Init /\ [][Next]_vars

\* a row's result depends on nothing but the row (counting apart)
RowWise == \A b \in 1..Len(batches), c \in 1..Len(batches) : \A i \in 1..Len(batches[b]), j \in 1..Len(batches[c]) :
             (batches[b][i] = batches[c][j] /\ sig.fn # "count") => want[b][i] = want[c][j]
OnePerRow == \A b \in 1..Len(batches) : Len(want[b]) = Len(batches[b])
EmitInv == PrintT(ToJson([k |-> "c", sig |-> sig, consts |-> consts, batches |-> batches, want |-> want]))
=============================================================================
