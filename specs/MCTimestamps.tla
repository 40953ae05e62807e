---- MODULE MCTimestamps ----
EXTENDS Timestamps
OffQ == {0, 120, 330, 765, -60, -210, -720, 840}
DaysQ == {-1, 0, 17361, 19782, 19783, 11016, 20088, 20089, 24855, 47540, -25509}
DaysT == {k * 61 - 8000 : k \in 0..600} \cup DaysQ
====
