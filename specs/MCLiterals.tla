---- MODULE MCLiterals ----
EXTENDS Literals
DaysQ == {-719529, -719528, -719163, -719162, -25567, -1, 0, 59, 11016, 19782, 20000, 2932896, 2932897, 5000000}
DaysT == DaysQ \cup {-719162 + 36524 * i : i \in {0, 10, 40, 50, 53, 54, 55, 60, 80}} \cup {11000 + i : i \in 0..30}
====
