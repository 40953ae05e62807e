------------------------------ MODULE Literals ------------------------------
(***************************************************************************)
(* Literal values of every type inside filters for remote databases, with    *)
(* the value that the text sent must denote: a number, an instant, nothing    *)
(* (NULL), or none, if the type has no counterpart and must not be sent.     *)
(***************************************************************************)
EXTENDS Calendar, Sequences, FiniteSets, Json
CONSTANTS Days, Secs, Fracs
Instants == {"Date32", "Date64", "TimestampSecond", "TimestampMillisecond", "TimestampMicrosecond", "TimestampNanosecond"}
Zoned == {"TimestampSecondTz", "TimestampMillisecondTz", "TimestampMicrosecondTz", "TimestampNanosecondTz"}
\* the precision of each type in nanoseconds
Unit(k) == CASE k \in {"Date32", "TimestampSecond", "TimestampSecondTz"} -> 1000000000 [] k \in {"Date64", "TimestampMillisecond", "TimestampMillisecondTz"} -> 1000000
             [] k \in {"TimestampMicrosecond", "TimestampMicrosecondTz"} -> 1000 [] OTHER -> 1
Ints == {<<"Int8", {"0", "1", "-1", "127", "-128"}>>, <<"Int16", {"-32768", "32767", "5"}>>, <<"Int32", {"-2147483648", "2147483647", "42"}>>,
         <<"Int64", {"-9223372036854775808", "9223372036854775807", "-7", "0"}>>, <<"UInt8", {"0", "255"}>>, <<"UInt16", {"65535"}>>,
         <<"UInt32", {"4294967295"}>>, <<"UInt64", {"18446744073709551615", "0"}>>}
Floats == {<<"Float64", {"0", "1", "-1.5", "0.1", "1e300", "1e-300", "123456789.125", "5e-324", "-0.25"}>>, <<"Float32", {"1", "0.1", "16777216", "-2.5", "3.4e38", "1e-40"}>>,
           <<"Decimal128", {"1.23", "-1.23", "100.00"}>>, <<"Decimal256", {"1.23"}>>}
NoNumber == {<<"Float64", {"NaN", "inf", "-inf"}>>, <<"Float32", {"NaN", "inf", "-inf"}>>}
NoCounterpart == {"Binary", "LargeBinary", "BinaryView", "FixedSizeBinary", "Time32Second", "Time32Millisecond", "Time64Microsecond", "Time64Nanosecond",
  "IntervalYearMonth", "IntervalDayTime", "IntervalMonthDayNano", "DurationSecond", "DurationMillisecond", "DurationMicrosecond", "DurationNanosecond",
  "List", "LargeList", "FixedSizeList", "Struct"}
Booleans == {"true", "false"}
Nullable == {"Boolean", "Int64", "UInt8", "Float64", "Float32", "Utf8", "LargeUtf8", "Utf8View", "Binary", "Date32", "Date64", "TimestampSecond", "TimestampNanosecond",
  "Decimal128", "Time64Nanosecond", "IntervalMonthDayNano", "DurationSecond", "Null"}

VARIABLE c
Of(S, w) == UNION {{[kind |-> e[1], val |-> v, want |-> w] : v \in e[2]} : e \in S}
Parts(d, x, f) == LET y == CivilFromDays(d) IN <<y[1], y[2], y[3], x \div 3600, (x \div 60) % 60, x % 60, f>>
Init == c \in Of(Ints, "integer") \cup Of(Floats, "number") \cup Of(NoNumber, "none")
           \cup {[kind |-> k, val |-> "", want |-> "none"] : k \in NoCounterpart}
           \cup {[kind |-> "Boolean", val |-> v, want |-> "boolean"] : v \in Booleans}
           \cup {[kind |-> k, val |-> "", want |-> "null"] : k \in Nullable}
           \cup UNION {{[kind |-> k, val |-> "", want |-> IF k \in Zoned THEN "none" ELSE "instant", day |-> d, sec |-> x, frac |-> f, parts |-> Parts(d, x, f)] :
                   d \in (IF k \in {"TimestampNanosecond", "TimestampNanosecondTz"} THEN Days \cap (-100000..100000) ELSE Days),
                   x \in (IF k = "Date32" THEN {0} ELSE Secs), f \in {y \in Fracs : y % Unit(k) = 0}} : k \in Instants \cup Zoned}
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
EmitInv == PrintT(ToJson([k |-> "c", c |-> c]))
CalendarLaw == c.want = "instant" => (c.parts[1] \in 1600..2400 => DaysFromCivil(<<c.parts[1], c.parts[2], c.parts[3]>>) = c.day)
=============================================================================
