---------------------------- MODULE CatalogTrace ----------------------------
(* Checks a recorded execution of the real catalog, one event per call, against Catalog.tla.                    *)
EXTENDS Catalog, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Range(s) == {s[i] : i \in 1..Len(s)}
E == Trace[l]
O == E.o
Is(x) == l <= N /\ O.op = x /\ l' = l + 1
Matches == /\ res' = E.r
           /\ db' = Range(E.t.dbSet)
           /\ coll' = {<<x[1], x[2]>> : x \in Range(E.t.collSet)}
           /\ Tabs(tab') = Range(E.t.tabSet)
           /\ Fns(fn') = Range(E.t.fnSet)
           /\ "probSet" \notin DOMAIN E.t
TraceInit == Init /\ l = 1
TraceNext ==
  /\ \/ Is("create_database") /\ CreateDatabase(O.d)
     \/ Is("create_collection") /\ CreateCollection(O.d, O.c)
     \/ Is("create_table") /\ CreateTable(O.d, O.c, O.n, O.s, O.h)
     \/ Is("create_new_version") /\ NewVersion(O.h, O.v)
     \/ Is("delete_old_versions") /\ DeleteOldVersions(O.h)
     \/ Is("rename_table") /\ Rename(O.h, O.n, O.d, O.c, O.stay)
     \/ Is("delete_table") /\ DeleteTable(O.h)
     \/ Is("delete_collection") /\ DeleteCollection(O.d, O.c)
     \/ Is("delete_database") /\ DeleteDatabase(O.d)
     \/ Is("create_function") /\ CreateFunction(O.d, O.f, O.repl, O.det)
     \/ Is("drop_function") /\ DropFunctions(O.d, O.fs)
  /\ Matches
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == l
TraceAccepted == TLCGet("stats").diameter - 1 = N
=============================================================================
