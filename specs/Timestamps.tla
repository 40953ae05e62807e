----------------------------- MODULE Timestamps -----------------------------
(***************************************************************************)
(* Version timestamps. A state is an instant (day number and second of day *)
(* since 1970-01-01 00:00 UTC, plus nanoseconds) together with one way of  *)
(* writing it: a format and an offset from UTC. Changing the writing never *)
(* changes the instant. `bad` # "none" is a text that is no timestamp.     *)
(***************************************************************************)
EXTENDS Calendar, Sequences, TLC, Json

CONSTANTS Days, Secs, Offsets, Formats, Fractions, Bads
VARIABLES day, sec, frac, fmt, off, bad
vars == <<day, sec, frac, fmt, off, bad>>

OffText(o, sep) == (IF o < 0 THEN "-" ELSE "+") \o Pad2(Abs(o) \div 60) \o sep \o Pad2(Abs(o) % 60)
FracText(f) == CASE f = 0 -> "" [] f = 500000000 -> ".5" [] f = 123456789 -> ".123456789" [] f = 1 -> ".000000001"

\* what the clock on the wall at offset o shows
LocalDay(d, s, o) == d + ((s + o * 60) \div 86400)
LocalSec(s, o) == (s + o * 60) % 86400

Render(d, s, f, fm, o) ==
  LET oo == IF fm \in {"naive", "rfc3339z", "rfc3339zl", "spacez", "gmt"} THEN 0 ELSE o
      ld == LocalDay(d, s, oo)  ls == LocalSec(s, oo)
      c == CivilFromDays(ld)
      date == Pad4(c[1]) \o "-" \o Pad2(c[2]) \o "-" \o Pad2(c[3])
      time == Pad2(ls \div 3600) \o ":" \o Pad2((ls \div 60) % 60) \o ":" \o Pad2(ls % 60)
      mail == Weekday(ld) \o ", " \o Pad2(c[3]) \o " " \o MonthName[c[2]] \o " " \o Pad4(c[1]) \o " " \o time
  IN CASE fm = "rfc3339"  -> date \o "T" \o time \o FracText(f) \o OffText(oo, ":")
       [] fm = "rfc3339z" -> date \o "T" \o time \o FracText(f) \o "Z"
       [] fm = "rfc3339zl" -> date \o "t" \o time \o FracText(f) \o "z"
       [] fm = "spacez"   -> date \o " " \o time \o FracText(f) \o "Z"
       [] fm = "space"    -> date \o " " \o time \o FracText(f) \o OffText(oo, ":")
       [] fm = "custom"   -> date \o " " \o time \o " " \o OffText(oo, ":")
       [] fm = "customc"  -> date \o " " \o time \o " " \o OffText(oo, "")
       [] fm = "naive"    -> date \o " " \o time
       [] fm = "rfc2822"  -> mail \o " " \o OffText(oo, "")
       [] fm = "gmt"      -> mail \o " GMT"
HasFraction(fm) == fm \in {"rfc3339", "rfc3339z", "rfc3339zl", "spacez", "space"}

\* Texts that are no timestamps, made from a valid one
Broken(d, s, b) ==
  LET c == CivilFromDays(d)  y == Pad4(c[1])
      time == Pad2(s \div 3600) \o ":" \o Pad2((s \div 60) % 60) \o ":" \o Pad2(s % 60)
  IN CASE b = "empty" -> ""
       [] b = "word" -> "yesterday"
       [] b = "number" -> ToString(d)
       [] b = "month13" -> y \o "-13-01 " \o time
       [] b = "month0" -> y \o "-00-01 " \o time
       [] b = "day" -> y \o "-" \o Pad2(c[2]) \o "-" \o Pad2(MonthLen(c[1], c[2]) + 1) \o " " \o time
       [] b = "dayz" -> y \o "-" \o Pad2(c[2]) \o "-" \o Pad2(MonthLen(c[1], c[2]) + 1) \o "T" \o time \o "Z"
       [] b = "hour" -> y \o "-01-01 24:00:00"
       [] b = "minute" -> y \o "-01-01 00:60:00"
       [] b = "second" -> y \o "-01-01T00:00:61Z"
       [] b = "offset" -> y \o "-01-01T00:00:00+25:00"
       [] b = "weekday" -> Weekday(d + 1) \o ", " \o Pad2(c[3]) \o " " \o MonthName[c[2]] \o " " \o y \o " " \o time \o " +0000"
       [] b = "trailing" -> Render(d, s, 0, "naive", 0) \o " x"
       [] b = "trailingz" -> Render(d, s, 0, "rfc3339z", 0) \o "Z"
       [] b = "leading" -> "x" \o Render(d, s, 0, "naive", 0)
       [] b = "date" -> y \o "-" \o Pad2(c[2]) \o "-" \o Pad2(c[3])
       [] b = "slashes" -> y \o "/" \o Pad2(c[2]) \o "/" \o Pad2(c[3]) \o " " \o time

Init == /\ day \in Days /\ sec \in Secs /\ frac = 0 /\ fmt = "naive" /\ off = 0 /\ bad = "none"
Rewrite(fm, o, f) == /\ bad = "none" /\ fmt' = fm /\ off' = o /\ (f = 0 \/ HasFraction(fm)) /\ frac' = f
                     /\ UNCHANGED <<day, sec, bad>>
Break(b) == bad = "none" /\ bad' = b /\ fmt' = "naive" /\ off' = 0 /\ frac' = 0 /\ UNCHANGED <<day, sec>>
Next == (\E fm \in Formats, o \in Offsets, f \in Fractions : Rewrite(fm, o, f)) \/ \E b \in Bads : Break(b)
Spec == Init /\ [][Next]_vars

\* The text read back by the (independently written) calendar gives the instant
Reads == LET o == IF fmt \in {"naive", "rfc3339z", "rfc3339zl", "spacez", "gmt"} THEN 0 ELSE off
             ld == LocalDay(day, sec, o)  ls == LocalSec(sec, o)
             c == CivilFromDays(ld)
             u == DaysFromCivil(c) * 1440 + (ls \div 60) - o
         IN u = day * 1440 + sec \div 60
SameInstant == [][day' = day /\ sec' = sec]_vars

Out == PrintT(ToJson([k |-> "c", txt |-> IF bad = "none" THEN Render(day, sec, frac, fmt, off) ELSE Broken(day, sec, bad),
                      ok |-> bad = "none", day |-> day, sec |-> sec, frac |-> frac, how |-> IF bad = "none" THEN fmt ELSE bad]))
EmitInv == Out
=============================================================================
