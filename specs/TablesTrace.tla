---------------------------- MODULE TablesTrace ----------------------------
(* Checks a recorded execution of statements on the real system against Tables.tla.                            *)
EXTENDS Tables, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
E == Trace[l]
O == E.o
Is(x) == l <= N /\ O.op = x /\ l' = l + 1
BagOf(S) == [r \in {x.r : x \in Range(S)} |-> (CHOOSE x \in Range(S) : x.r = r).n]
SeenAs(t, e) == /\ e.there = (t.id # 0)
                /\ Range(e.nn) = t.nn
                /\ BagOf(e.rowsSet) = t.rows
                /\ e.listed = TRUE
                /\ Len(e.past) = Len(t.past)
                /\ \A m \in 1..Len(t.past) : t.past[m].known => BagOf(e.past[m].rowsSet) = t.past[m].rows
Seen == result' = E.r /\ \A n \in Names : SeenAs(tab'[n], E.t[n])
TraceInit == Init /\ l = 1
TraceNext ==
  /\ \/ Is("create") /\ Create(O.n, Range(O.nn), O.ine)
     \/ Is("ctas") /\ Ctas(O.n, O.m, O.cs, O.es, O.p, O.ine)
     \/ Is("insert") /\ Insert(O.n, O.cs, O.vs)
     \/ Is("insertselect") /\ InsertSelect(O.n, O.m, O.cs, O.es, O.p)
     \/ Is("upload") /\ Upload(O.n, O.kind, O.rs)
     \/ Is("update") /\ Update(O.n, O.cs, O.es, O.p)
     \/ Is("delete") /\ Delete(O.n, O.p)
     \/ Is("truncate") /\ Truncate(O.n)
     \/ Is("drop") /\ Drop(O.n, O.ie)
     \/ Is("rename") /\ Rename(O.n, O.m)
     \/ Is("vacuum") /\ Vacuum(O.n)
     \/ Is("mark") /\ Mark
  /\ Seen
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == l
TraceAccepted == TLCGet("stats").diameter - 1 = N
=============================================================================
