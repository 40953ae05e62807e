---------------------------- MODULE StoreConfig ----------------------------
(***************************************************************************)
(* Store configurations as a user writes them (fields of a configuration   *)
(* file or options of a statement), and the options, URL and base path a   *)
(* configured store is described by.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES c
None == "-"
Dirs == {"/data", "rel/dir", "", "/dé ta", "/data/"}
Flags == {None, "true", "false", "TRUE", "1", ""}
Buckets == {"b", "my-bucket"}
Prefixes == {None, "p", "p/q", "", "a b"}
Creds == {None, "/c.json"}
\* [what the store is, its fields, unrelated options beside them]
Init == c \in {[store |-> "local", dir |-> d, flag |-> f, bucket |-> None, prefix |-> None, creds |-> None, more |-> m] : d \in Dirs \cup {None}, f \in Flags, m \in BOOLEAN}
         \cup {[store |-> "gcs", dir |-> None, flag |-> None, bucket |-> b, prefix |-> p, creds |-> k, more |-> m] : b \in Buckets, p \in Prefixes, k \in Creds, m \in BOOLEAN}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Ok == c.store = "gcs" \/ c.dir # None
Hardlinks == c.flag # "true"     \* linking is on unless it is disabled in so many words
EmitInv == PrintT(ToJson([k |-> "c", c |-> c, ok |-> Ok, disable |-> ~Hardlinks]))
=============================================================================
