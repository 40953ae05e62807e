----------------------------- MODULE WasmValues -----------------------------
(***************************************************************************)
(* What the bytes a function returns mean as a value of its return type:   *)
(* that value, or nothing, in which case the query fails. Where a number   *)
(* of another kind is exactly that of the return type, both are allowed.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES ty, raw
vars == <<ty, raw>>

Types == {"SMALLINT", "INT", "I32", "BIGINT", "I64", "DATE", "TIMESTAMP", "TEXT", "CHAR", "VARCHAR", "BOOLEAN", "FLOAT", "REAL", "F32", "DOUBLE", "F64",
          "DECIMAL(10,2)", "DECIMAL(38,0)", "DECIMAL(10,-2)"}
\* [hex: the bytes; k: kind; v: the value; w: the smallest of the widths 15, 16 (integers), 31 .. that hold it]
I(h, v, w) == [hex |-> h, k |-> "int", v |-> v, w |-> w]
F(h, k, v, i) == [hex |-> h, k |-> k, v |-> v, w |-> i]
B(h) == [hex |-> h, k |-> "other", v |-> "", w |-> 0]
D(h, p, s, v) == [hex |-> h, k |-> "dec", v |-> v, w |-> 0, p |-> p, s |-> s]
Raw ==
  { I("00", "0", 16), I("7f", "127", 16), I("ff", "-1", 16), I("e0", "-32", 16), I("cc80", "128", 16), I("ccff", "255", 16), I("cd7fff", "32767", 16),
    I("cd8000", "32768", 32), I("d18000", "-32768", 16), I("d2ffff7fff", "-32769", 32), I("ce7fffffff", "2147483647", 32),
    I("ce80000000", "2147483648", 64), I("d280000000", "-2147483648", 32), I("d3ffffffff7fffffff", "-2147483649", 64), I("d3ffffffffffffffff", "-1", 16),
    I("cf7fffffffffffffff", "9223372036854775807", 64), I("cf8000000000000000", "9223372036854775808", 65),
    I("cfffffffffffffffff", "18446744073709551615", 65), I("d38000000000000000", "-9223372036854775808", 64), I("cf0000000000000001", "1", 16),
    F("ca3fc00000", "f32", "1.5", "both"), F("ca3dcccccd", "f32", "0.1", "f32"), F("ca7f800000", "f32", "inf", "both"), F("caff800000", "f32", "-inf", "both"),
    F("ca80000000", "f32", "-0", "both"), F("ca00000001", "f32", "1e-45", "f32"), F("cb3ff8000000000000", "f64", "1.5", "both"),
    F("cb3fb999999999999a", "f64", "0.1", "f64"), F("cb7ff0000000000000", "f64", "inf", "both"), F("cb8000000000000000", "f64", "-0", "both"),
    F("cb7fefffffffffffff", "f64", "1.7976931348623157e308", "f64"), F("cb0000000000000001", "f64", "5e-324", "f64"),
    [hex |-> "c2", k |-> "bool", v |-> "false", w |-> 0], [hex |-> "c3", k |-> "bool", v |-> "true", w |-> 0],
    [hex |-> "a0", k |-> "text", v |-> "", w |-> 0], [hex |-> "a161", k |-> "text", v |-> "a", w |-> 0], [hex |-> "d90261c3", k |-> "other", v |-> "", w |-> 0],
    [hex |-> "da000131", k |-> "text", v |-> "1", w |-> 0], [hex |-> "db00000002c5be", k |-> "text", v |-> "<z>", w |-> 0], [hex |-> "a474727565", k |-> "text", v |-> "true", w |-> 0],
    B("c0"), B("c1"), B("a2c328"), B("c40161"), B("c400"), B("80"), B("810102"), B("90"), B("9101"), B("91a161"), B("d40100"), B("c70001"), B("920102"),
    B(""), B("d9"), B("cd00"), B("a261"), B("9201"), B("8101"), B("dd00000001"), B("ddffffffff"), B("dbffffffff"), B("dfffffffff"), B("c6ffffffff"),
    D("940a020001", 10, 2, "1"), D("940a02ffff", 10, 2, "-1"), D("940a0200cf8000000000000000", 10, 2, "?"), D("940a02ffd38000000000000000", 10, 2, "-9223372036854775808"),
    D("940a0200d3ffffffffffffffff", 10, 2, "18446744073709551615"), D("940a020100", 10, 2, "18446744073709551616"), D("940a02fe00", 10, 2, "-36893488147419103232"),
    D("94260000d38000000000000000", 38, 0, "9223372036854775808"), D("94260001d38000000000000000", 38, 0, "27670116110564327424"),
    D("942600ffff", 38, 0, "-1"), D("942600ff00", 38, 0, "-18446744073709551616"), D("940afe0005", 10, -2, "5"), D("940afeffff", 10, -2, "-1"),
    D("940b020001", 11, 2, "1"), D("940a030001", 10, 3, "1"), D("9426000001", 38, 0, "1"), D("94cd010a020001", 266, 2, "1"), D("940acd01020001", 10, 258, "1"),
    B("930a0200"), B("950a02000100"), B("940a0200c0"), B("940a02c001"), B("94c0020001"), B("940ac00001"), B("940a02cb3ff000000000000001"), B("940a0200cb3ff0000000000000"),
    B("94a13aa1320001"), B("940a02cf800000000000000001"), B("94ff020001") }

Prec(t) == CASE t = "DECIMAL(10,2)" -> <<10, 2>> [] t = "DECIMAL(38,0)" -> <<38, 0>> [] t = "DECIMAL(10,-2)" -> <<10, -2>> [] OTHER -> <<0, 0>>
Width(t) == CASE t = "SMALLINT" -> 16 [] t \in {"INT", "I32", "DATE"} -> 32 [] t \in {"BIGINT", "I64", "TIMESTAMP"} -> 64 [] OTHER -> 0
IsF32(t) == t \in {"FLOAT", "REAL", "F32"}
IsF64(t) == t \in {"DOUBLE", "F64"}
No == [ok |-> FALSE, err |-> TRUE, v |-> ""]
Yes(v) == [ok |-> TRUE, err |-> FALSE, v |-> v]
Maybe(v) == [ok |-> TRUE, err |-> TRUE, v |-> v]
Means(t, r) ==
  CASE r.k = "int" -> IF Width(t) > 0 THEN (IF r.w <= Width(t) THEN Yes(r.v) ELSE No)
                      ELSE IF (IsF32(t) \/ IsF64(t)) /\ r.w = 16 THEN Maybe(r.v) ELSE IF IsF32(t) \/ IsF64(t) THEN Maybe("?") ELSE No
    [] r.k = "f32" -> IF IsF32(t) THEN Yes(r.v) ELSE IF IsF64(t) THEN (IF r.w = "both" THEN Maybe(r.v) ELSE Maybe("?")) ELSE No
    [] r.k = "f64" -> IF IsF64(t) THEN Yes(r.v) ELSE IF IsF32(t) THEN (IF r.w = "both" THEN Maybe(r.v) ELSE No) ELSE No
    [] r.k = "bool" -> IF t = "BOOLEAN" THEN Yes(r.v) ELSE No
    [] r.k = "text" -> IF t \in {"TEXT", "CHAR", "VARCHAR"} THEN Yes(r.v) ELSE No
    [] r.k = "dec" -> IF Prec(t) = <<r.p, r.s>> THEN (IF r.v = "?" THEN Maybe("9223372036854775808") ELSE IF t = "DECIMAL(10,2)" /\ r.hex \in {"940a020100", "940a02fe00", "940a02ffd38000000000000000", "940a0200d3ffffffffffffffff"} THEN Maybe(r.v) ELSE Yes(r.v)) ELSE No
    [] OTHER -> No
Init == ty \in Types /\ raw \in Raw
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* what is read is read as the same number by every type that can hold it
Agree == \A t \in Types : (Means(t, raw).ok /\ ~Means(t, raw).err /\ Means(ty, raw).ok /\ ~Means(ty, raw).err) => Means(t, raw).v = Means(ty, raw).v
EmitInv == PrintT(ToJson([k |-> "c", ty |-> ty, hex |-> raw.hex, want |-> Means(ty, raw)]))
=============================================================================
