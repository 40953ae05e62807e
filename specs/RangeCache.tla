----------------------------- MODULE RangeCache -----------------------------
(***************************************************************************)
(* Reading ranges of objects through a cache of chunks of C bytes, kept in  *)
(* files. Whatever was read before, whatever became of the files and        *)
(* whatever failed on the way, a read gives the object's bytes or an error. *)
(*                                                                         *)
(* have[o][c]: what is known of chunk c of object o: "no" (not cached),      *)
(* "yes" (cached, its file is there) or "maybe" (its file was lost, or could *)
(* not be written).                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS C, Lens, MaxEnd, Pairs, Faults
VARIABLES have, down, full, op, result
vars == <<have, down, full, op, result>>
Objects == DOMAIN Lens
LastChunk(o) == (Lens[o] - 1) \div C
Min(a, b) == IF a < b THEN a ELSE b
Fresh == [o \in Objects |-> [c \in 0..LastChunk(o) |-> "no"]]
Init == have = Fresh /\ down = FALSE /\ full = FALSE /\ op = [op |-> "init"] /\ result = [data |-> "none", again |-> << >>]

\* the chunks that hold the bytes s..e-1 of an object
Chunks(o, s, e) == IF s >= Min(e, Lens[o]) THEN {} ELSE (s \div C)..((Min(e, Lens[o]) - 1) \div C)
Bytes(o, s, e) == [i \in 1..(Min(e, Lens[o]) - s) |-> s + i - 1]
\* the chunk in which the end of the object is, if any byte of it is left to read
EndOf(o, s) == IF s >= Lens[o] /\ s \div C = LastChunk(o) THEN {LastChunk(o)} ELSE {}
Missing(o, s, e) == {c \in Chunks(o, s, e) : have[o][c] = "no"}
Doubtful(o, s, e) == {c \in Chunks(o, s, e) : have[o][c] = "maybe"}
\* the answer: exactly the bytes, an error, or either
Answer(o, s, e) ==
  CASE s >= e \/ s >= Lens[o] -> "nothing"
    [] down /\ Missing(o, s, e) # {} -> "error"
    [] down /\ Doubtful(o, s, e) # {} -> "either"
    [] e > Lens[o] -> "either"
    [] OTHER -> "bytes"
\* what is in the cache then
After(o, s, e, c, x) ==
  CASE x = "yes" -> "yes"
    [] c \in Chunks(o, s, e) /\ x = "no" /\ Answer(o, s, e) = "bytes" -> IF full THEN "maybe" ELSE "yes"
    [] c \in Chunks(o, s, e) /\ x = "no" /\ Answer(o, s, e) = "error" -> "no"
    [] c \in (Chunks(o, s, e) \cup EndOf(o, s)) /\ x = "no" /\ ~down -> "maybe"
    [] OTHER -> x
Read(o, s, e) == [o |-> o, s |-> s, e |-> e, answer |-> Answer(o, s, e), bytes |-> IF Answer(o, s, e) \in {"bytes", "either"} THEN Bytes(o, s, e) ELSE << >>]
Cached == {<<o, c>> \in Objects \X (0..MaxEnd) : c <= LastChunk(o) /\ have[o][c] = "yes"}

\* one read: chunks that are cached are not asked for again
One(o, s, e) == /\ op' = [op |-> "read", reads |-> <<Read(o, s, e)>>, cachedSet |-> Cached]
                /\ result' = [data |-> <<Answer(o, s, e)>>, again |-> << >>]
                /\ have' = [have EXCEPT ![o] = [c \in DOMAIN @ |-> After(o, s, e, c, @[c])]]
                /\ UNCHANGED <<down, full>>
\* several reads at a time
Several(rs) == LET x == [i \in DOMAIN rs |-> Read(rs[i][1], rs[i][2], rs[i][3])] IN
               /\ op' = [op |-> "read", reads |-> x, cachedSet |-> Cached]
               /\ result' = [data |-> [i \in DOMAIN x |-> x[i].answer], again |-> << >>]
               /\ \A i \in DOMAIN x : x[i].answer = "bytes"
               /\ have' = [o \in Objects |-> [c \in DOMAIN have[o] |-> IF have[o][c] = "no" /\ \E i \in DOMAIN x : x[i].o = o /\ c \in Chunks(o, x[i].s, x[i].e) THEN IF full THEN "maybe" ELSE "yes" ELSE have[o][c]]]
               /\ UNCHANGED <<down, full>>
\* a file of the cache disappears
Lose(o, c) == /\ have[o][c] = "yes" /\ have' = [have EXCEPT ![o][c] = "maybe"]
              /\ op' = [op |-> "lose", o |-> o, c |-> c] /\ result' = [data |-> << >>, again |-> << >>] /\ UNCHANGED <<down, full>>
\* the store fails, or the disk is full, or not any more
Break(x) == /\ Faults
            /\ IF x = "store" THEN down' = ~down /\ UNCHANGED full ELSE full' = ~full /\ UNCHANGED down
            /\ op' = [op |-> "break", what |-> x, on |-> IF x = "store" THEN down' ELSE full'] /\ result' = [data |-> << >>, again |-> << >>] /\ UNCHANGED have
\* the cache goes away, with its files, and another one is set up
Reopen == /\ have' = Fresh /\ op' = [op |-> "reopen"] /\ result' = [data |-> << >>, again |-> << >>] /\ UNCHANGED <<down, full>>

Next == \/ \E o \in Objects, s, e \in 0..MaxEnd : One(o, s, e)
        \/ \E rs \in Pairs : Several(rs)
        \/ \E o \in Objects : \E c \in DOMAIN have[o] : Lose(o, c)
        \/ \E x \in {"store", "disk"} : Break(x)
        \/ Reopen
Spec == Init /\ [][Next]_vars
View == <<have, down, full>>
St(h, d, f) == [have |-> h, down |-> d, full |-> f]
Emit == PrintT(ToJson([k |-> "e", s |-> St(have, down, full), o |-> op', r |-> result', t |-> St(have', down', full')]))

(* Bounds *)
OneObject == <<5>>
TwoObjects == <<5, 4>>
ThreeObjects == <<7, 4, 1>>
NoPairs == {}
Within(o) == {<<o, s, e>> : s \in 0..(Lens[o] - 1), e \in 1..Lens[o]}
Proper(o) == {r \in Within(o) : r[2] < r[3]}
SomePairs == {<<a, b>> \in Proper(1) \X Proper(1) : a[2] <= b[2] /\ (a[3] - a[2]) % 2 = 0} \cup {<<a, b, a>> : a \in Proper(1), b \in {<<2, 0, 4>>, <<2, 1, 2>>}}
AllPairs == {<<a, b>> : a \in Proper(1), b \in Proper(1) \cup Proper(2)} \cup {<<a, b, a>> : a \in Proper(1), b \in Proper(2)}

(* The specification's own properties *)
TypeOK == \A o \in Objects : \A c \in DOMAIN have[o] : have[o][c] \in {"no", "yes", "maybe"}
\* without faults a chunk that was read whole stays cached until its file is lost
Keeps == [][op'.op = "read" => \A o \in Objects : \A c \in DOMAIN have[o] : have[o][c] = "yes" => have'[o][c] = "yes"]_vars
Full == [][op'.op = "read" /\ ~down /\ ~full => \A i \in DOMAIN op'.reads : op'.reads[i].answer = "bytes" =>
            \A c \in Chunks(op'.reads[i].o, op'.reads[i].s, op'.reads[i].e) : have'[op'.reads[i].o][c] # "no"]_vars
=============================================================================
