---------------------------- MODULE Definitions ----------------------------
(***************************************************************************)
(* What a function definition means: a JSON object with the entrypoint, the *)
(* language, the types of arguments and result, the code and the            *)
(* volatility. Types are written in any letter case; language and           *)
(* volatility may be left out.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxArgs, ListTypes
\* ways to write a type |-> the type, "" if there is no such type
Lower == <<"i32", "i64", "f32", "f64", "smallint", "int", "bigint", "char", "varchar", "text", "decimal", "float", "real", "double", "boolean", "date", "timestamp">>
Upper == <<"I32", "I64", "F32", "F64", "SMALLINT", "INT", "BIGINT", "CHAR", "VARCHAR", "TEXT", "DECIMAL", "FLOAT", "REAL", "DOUBLE", "BOOLEAN", "DATE", "TIMESTAMP">>
Mixed == <<"i32", "I64", "f32", "F64", "SmallInt", "Int", "bigInt", "Char", "varChar", "tExT", "Decimal", "Float", "rEAL", "Double", "Boolean", "daTe", "timeStamp">>
Escaped == {<<"\\u0069nt", "INT">>, <<"TE\\u0058T", "TEXT">>, <<"d\\u0061te", "DATE">>}
Wrong == {"", "integer", "string", "int ", " int", "bool", "int4", "decimal(10,2)", "timestamptz", "i16", "unt", "ints", "{int}"}
Known == {<<x[i], Upper[i]>> : i \in 1..Len(Upper), x \in {Lower, Upper, Mixed}}
Spelled == Known \cup Escaped \cup {<<w, "">> : w \in Wrong}
Languages == {<<"", "wasmMessagePack">>, <<"wasm", "wasm">>, <<"wasmMessagePack", "wasmMessagePack">>, <<"Wasm", "">>, <<"WASM", "">>, <<"wasmmessagepack", "">>, <<"sql", "">>}
Volatilities == {<<"", "volatile">>, <<"volatile", "volatile">>, <<"stable", "stable">>, <<"immutable", "immutable">>, <<"Volatile", "">>, <<"IMMUTABLE", "">>, <<"never", "">>}
Texts == {"f", "", "some_function", "two words", "quo'te", "a%b_c", "ünïcode", "NULL"}
Left == {"nothing", "entrypoint", "input_types", "return_type", "data"}
Plain == [entry |-> "f", lang |-> <<"", "wasmMessagePack">>, args |-> << <<"int", "INT">> >>, ret |-> <<"text", "TEXT">>, data |-> "AAAA", vol |-> <<"", "volatile">>, without |-> "nothing"]
Lists == UNION {[1..n -> {<<t, Upper[CHOOSE i \in 1..Len(Upper) : Lower[i] = t]>> : t \in ListTypes}] : n \in 0..MaxArgs}
VARIABLE d
Init ==
  \/ \E t \in Spelled : d = [Plain EXCEPT !.args = <<t>>] \/ d = [Plain EXCEPT !.ret = t] \/ d = [Plain EXCEPT !.args = << <<"int", "INT">>, t, <<"TEXT", "TEXT">> >>]
  \/ \E l \in Languages, v \in Volatilities : d = [Plain EXCEPT !.lang = l, !.vol = v]
  \/ \E a \in Lists, l \in {x \in Languages : x[2] # ""} : d = [Plain EXCEPT !.args = a, !.lang = l]
  \/ \E a, b \in Texts : d = [Plain EXCEPT !.entry = a, !.data = b]
  \/ \E w \in Left : d = [Plain EXCEPT !.without = w]
Next == FALSE /\ d' = d
Spec == Init /\ [][Next]_d
Q(s) == "\"" \o s \o "\""
RECURSIVE Join(_)
Join(l) == IF l = <<>> THEN "" ELSE Q(l[1][1]) \o (IF Len(l) = 1 THEN "" ELSE ", " \o Join(Tail(l)))
Fields == << <<"entrypoint", Q(d.entry)>>, <<"language", IF d.lang[1] = "" THEN "" ELSE Q(d.lang[1])>>, <<"input_types", "[" \o Join(d.args) \o "]">>,
             <<"return_type", Q(d.ret[1])>>, <<"data", Q(d.data)>>, <<"volatility", IF d.vol[1] = "" THEN "" ELSE Q(d.vol[1])>> >>
RECURSIVE Write(_)
Write(l) == IF l = <<>> THEN "" ELSE
  LET skip == l[1][2] = "" \/ l[1][1] = d.without IN
  (IF skip THEN "" ELSE Q(l[1][1]) \o ": " \o l[1][2] \o ", ") \o Write(Tail(l))
\* the last entry is one nobody knows, which is none of our business
Txt == "{" \o Write(Fields) \o "\"comment\": 1}"
Ok == d.without = "nothing" /\ d.lang[2] # "" /\ d.vol[2] # "" /\ d.ret[2] # "" /\ \A i \in DOMAIN d.args : d.args[i][2] # ""
EmitInv == PrintT(ToJson([k |-> "c", txt |-> Txt, ok |-> Ok, entry |-> d.entry, lang |-> d.lang[2], args |-> [i \in DOMAIN d.args |-> d.args[i][2]], ret |-> d.ret[2], data |-> d.data, vol |-> d.vol[2]]))
=============================================================================
