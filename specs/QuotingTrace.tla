---------------------------- MODULE QuotingTrace ----------------------------
(* Conditions NAME = TEXT written by the real code, one event each, read with the rules of Quoting.tla.          *)
EXTENDS Quoting, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
E == Trace[l]
TraceInit == l = 1 /\ s = <<>>
TraceNext == l <= N /\ l' = l + 1 /\ UNCHANGED s
             /\ \/ Len(E.got) = 0
                \/ Reads(E.db, E.got, E.name, E.text)
TraceSpec == TraceInit /\ [][TraceNext]_<<s, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = N
=============================================================================
