------------------------------ MODULE Columns ------------------------------
(***************************************************************************)
(* Column definitions of CREATE TABLE: each becomes a field of the declared *)
(* name, type and nullability, in order; one that cannot be represented     *)
(* makes the whole statement fail.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxCols, TypesFirst, TypesMore

\* SQL type |-> type of the column (Arrow notation), or "" if there is no such type
Types == {
 <<"BOOLEAN", "Boolean">>, <<"BOOL", "Boolean">>, <<"TINYINT", "Int8">>, <<"SMALLINT", "Int16">>, <<"INT2", "Int16">>,
 <<"INT", "Int32">>, <<"INTEGER", "Int32">>, <<"INT4", "Int32">>, <<"BIGINT", "Int64">>, <<"INT8", "Int64">>,
 <<"TINYINT UNSIGNED", "UInt8">>, <<"SMALLINT UNSIGNED", "UInt16">>, <<"INT2 UNSIGNED", "UInt16">>, <<"INT UNSIGNED", "UInt32">>,
 <<"INTEGER UNSIGNED", "UInt32">>, <<"INT4 UNSIGNED", "UInt32">>, <<"BIGINT UNSIGNED", "UInt64">>, <<"INT8 UNSIGNED", "UInt64">>,
 <<"FLOAT", "Float32">>, <<"REAL", "Float32">>, <<"FLOAT4", "Float32">>, <<"DOUBLE", "Float64">>, <<"DOUBLE PRECISION", "Float64">>, <<"FLOAT8", "Float64">>,
 <<"CHAR", "Utf8">>, <<"CHAR(5)", "Utf8">>, <<"VARCHAR", "Utf8">>, <<"VARCHAR(10)", "Utf8">>, <<"TEXT", "Utf8">>, <<"STRING", "Utf8">>,
 <<"TIMESTAMP", "Timestamp(Microsecond, None)">>, <<"TIMESTAMP WITHOUT TIME ZONE", "Timestamp(Microsecond, None)">>,
 <<"TIMESTAMP WITH TIME ZONE", "Timestamp(Microsecond, Some(\"+00:00\"))">>, <<"TIMESTAMPTZ", "Timestamp(Microsecond, Some(\"+00:00\"))">>,
 <<"DATE", "Date32">>, <<"TIME", "Time64(Nanosecond)">>, <<"TIME WITHOUT TIME ZONE", "Time64(Nanosecond)">>,
 <<"BYTEA", "Binary">>, <<"INTERVAL", "Interval(MonthDayNano)">>,
 <<"TIMESTAMP(3)", "">>, <<"TIME(3)", "">>, <<"TIME WITH TIME ZONE", "">>, <<"TIMETZ", "">>, <<"JSON", "">>, <<"JSONB", "">>, <<"UUID", "">>,
 <<"BLOB", "">>, <<"BINARY(3)", "">>, <<"VARBINARY(3)", "">>, <<"DATETIME", "">>, <<"NVARCHAR(3)", "">>, <<"CLOB", "">>, <<"MEDIUMINT", "">>, <<"INT[]", "">>,
 <<"REGCLASS", "">>, <<"CHARACTER VARYING(3)", "">>, <<"CHARACTER(3)", "">>, <<"mytype", "">>, <<"BIT(3)", "">>, <<"ENUM('a')", "">>, <<"BIGNUMERIC", "">>,
 <<"BYTES", "">>, <<"STRUCT<a INT>", "">>, <<"DEC(5,2)", "">>
 }
\* DECIMAL(p, s) |-> Decimal128(p, s) exactly if 1 <= p <= 38 and s <= p
Precisions == {0, 1, 5, 18, 37, 38, 39, 76, 255, 256, 257, 261, 294, 512, 65537}
Scales == {0, 1, 2, 5, 6, 38, 39, 127, 128, 129, 200, 251, 254, 255, 256, 258, 511}
Decimals == {<<w, "Decimal128(38, 10)">> : w \in {"DECIMAL", "NUMERIC"}} \cup
  {<<w \o "(" \o ToString(p) \o ")", IF p \in 1..38 THEN "Decimal128(" \o ToString(p) \o ", 0)" ELSE "">> : w \in {"DECIMAL", "NUMERIC"}, p \in Precisions} \cup
  {<<"NUMERIC(" \o ToString(p) \o "," \o ToString(s) \o ")",
     IF p \in 1..38 /\ s <= p THEN "Decimal128(" \o ToString(p) \o ", " \o ToString(s) \o ")" ELSE "">> : p \in Precisions, s \in Scales}
All == Types \cup Decimals
Some == {t \in All : t[1] \in {"INT", "TEXT", "NUMERIC(5,2)", "TIMESTAMP", "JSON", "BIGINT UNSIGNED"}}

SomeT == {t \in All : t[1] \in {"INT", "NUMERIC(5,2)", "JSON"}}

\* written name |-> column name
ColNames == { <<"a", "a">>, <<"MyCol", "mycol">>, <<"\"MyCol\"", "MyCol">>, <<"`x y`", "x y">>, <<"\"b\"", "b">> }
\* options |-> nullable?
Opts == { <<"", TRUE>>, <<" NOT NULL", FALSE>>, <<" NULL", TRUE>>, <<" CONSTRAINT c NOT NULL", FALSE>>, <<" COMMENT 'x' NOT NULL", FALSE>>,
          <<" DEFAULT 1 NOT NULL", FALSE>>, <<" COMMENT 'NOT NULL'", TRUE>> }

VARIABLES cols, txt, ok
vars == <<cols, txt, ok>>
Init == cols = <<>> /\ txt = "" /\ ok = TRUE
Add(nm, ty, op) ==
  /\ Len(cols) < MaxCols
  /\ \A i \in 1..Len(cols) : cols[i].name # nm[2]
  /\ cols' = Append(cols, [name |-> nm[2], type |-> ty[2], null |-> op[2]])
  /\ txt' = (IF txt = "" THEN "" ELSE txt \o ", ") \o nm[1] \o " " \o ty[1] \o op[1]
  /\ ok' = (ok /\ ty[2] # "")
Next == \E nm \in ColNames, ty \in (IF cols = <<>> THEN TypesFirst ELSE TypesMore), op \in Opts : Add(nm, ty, op)
Spec == Init /\ [][Next]_vars
Faithful == ok => \A i \in 1..Len(cols) : cols[i].type # ""
EmitInv == cols # <<>> => PrintT(ToJson([k |-> "c", txt |-> "CREATE TABLE t (" \o txt \o ")", ok |-> ok, cols |-> IF ok THEN cols ELSE <<>>]))
=============================================================================
