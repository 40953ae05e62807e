------------------------------ MODULE Calendar ------------------------------
EXTENDS Integers, Sequences, TLC
\* Gregorian calendar (proleptic), after Hinnant
CivilFromDays(z0) ==
  LET z == z0 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, d>>
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
\* independent inverse, by summing years and months
RECURSIVE YearDays(_, _), MonthDays(_, _, _)
YearDays(a, b) == IF a >= b THEN 0 ELSE (IF Leap(a) THEN 366 ELSE 365) + YearDays(a + 1, b)
MonthDays(y, a, b) == IF a >= b THEN 0 ELSE MonthLen(y, a) + MonthDays(y, a + 1, b)
DaysFromCivil(c) == (IF c[1] >= 1970 THEN YearDays(1970, c[1]) ELSE 0 - YearDays(c[1], 1970)) + MonthDays(c[1], 1, c[2]) + c[3] - 1
Weekday(n) == <<"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed">>[(n % 7) + 1]
MonthName == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>

Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Pad4(n) == IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
=============================================================================
