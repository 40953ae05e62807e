-------------------------- MODULE RangeCacheTrace --------------------------
(***************************************************************************)
(* Recorded reads through caches that are too small for the objects, whose  *)
(* entries expire, and that are read by several readers at a time. After    *)
(* each event the files of the cache are recorded.                          *)
(***************************************************************************)
EXTENDS RangeCache, IOUtils
CONSTANTS WatchData, WatchFiles  \* what is judged: the data read, what the cache keeps
VARIABLES l, on, cap, ttl
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
E == Trace[l]
ToSet(q) == {q[i] : i \in DOMAIN q}
SizeOf(k) == Min(C, Lens[k[1]] - k[2] * C)
RECURSIVE Size(_)
Size(ks) == IF ks = {} THEN 0 ELSE LET k == CHOOSE k \in ks : TRUE IN SizeOf(k) + Size(ks \ {k})
Exact(r) == WatchData => r.got = Bytes(r.o, r.s, r.e)
Needs == UNION {{<<r.o, c>> : c \in Chunks(r.o, r.s, r.e)} : r \in ToSet(E.reads)}
Files == ToSet(E.files)
\* no other files, no more than fits
Held == WatchFiles => E.stray = 0 /\ Size(Files) <= cap
\* the store is asked for what isn't there, and for nothing else
Asked == WatchFiles => ToSet(E.asked) \subseteq Needs /\ Needs \ on \subseteq ToSet(E.asked)
Opened == E.k = "open" /\ on' = {} /\ cap' = E.cap /\ ttl' = E.ttl
Reads == /\ E.k = "reads"
         /\ \A r \in ToSet(E.reads) : Exact(r)
         /\ Asked /\ Held /\ (WatchFiles => Files \subseteq (on \cup Needs))
         \* what fits stays, and is not asked for again
         /\ (WatchFiles /\ ~ttl /\ Size(on \cup Needs) <= cap) => Files = on \cup Needs /\ ToSet(E.asked) \cap on = {}
         /\ on' = Files /\ UNCHANGED <<cap, ttl>>
\* entries have expired: only what was read since is there
Waited == /\ E.k = "waited" /\ \A r \in ToSet(E.reads) : Exact(r)
          /\ Asked /\ Held /\ (WatchFiles => Files \subseteq Needs)
          /\ on' = Files /\ UNCHANGED <<cap, ttl>>
Closed == E.k = "closed" /\ (WatchFiles => E.left = 0) /\ on' = {} /\ UNCHANGED <<cap, ttl>>
TraceInit == Init /\ l = 1 /\ on = {} /\ cap = 0 /\ ttl = FALSE
TraceNext == l <= N /\ l' = l + 1 /\ UNCHANGED vars /\ (Opened \/ Reads \/ Waited \/ Closed)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l, on, cap, ttl>>
TraceAccepted == TLCGet("stats").diameter - 1 = N
TraceObjects == <<9, 6, 4>>
=============================================================================
