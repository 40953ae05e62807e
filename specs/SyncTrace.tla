----------------------------- MODULE SyncTrace -----------------------------
(***************************************************************************)
(* Replication: origins send transactions of changes of rows of tables, in  *)
(* messages; the last message of a transaction has its sequence number.     *)
(* The receiver keeps them in memory and writes them to the tables when it  *)
(* sees fit, a table at a time. For each origin it tells the last sequence  *)
(* number it knows (mem) and the one up to which everything is written      *)
(* (dur).                                                                   *)
(* Checks a recorded execution of the real receiver, whose tables are read  *)
(* after every message.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l,
  txs,    \* transactions since the receiver's start: origin, sequence number (0: not known yet), and for each table the
          \* number of changes of it up to their end
  log,    \* for each table, the changes received since then
  base,   \* for each table, its rows then
  cut,    \* for each table, how many of the changes its rows show
  truth,  \* for each table, the rows after all of the changes
  mem, dur
vars == <<txs, log, base, cut, truth, mem, dur>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
E == Trace[l]
Tables == {"x", "y", "z"}
Origins == {"A", "B"}
Key == 1..4
\* rows: a value for each key, 0 for none; changes: old key, new key (0: none), value
Eff(t, c) == [k \in Key |-> IF k = c[2] THEN c[3] ELSE IF k = c[1] THEN 0 ELSE t[k]]
RECURSIVE Fold(_, _, _)
Fold(t, p, i) == IF i > Len(p) THEN t ELSE Fold(Eff(t, p[i]), p, i + 1)
Upto(t, n) == Fold(base[t], SubSeq(log[t], 1, n), 1)
Nothing == [k \in Key |-> 0]
TraceInit == /\ l = 1 /\ txs = <<>> /\ log = [t \in Tables |-> <<>>] /\ base = [t \in Tables |-> Nothing]
             /\ cut = [t \in Tables |-> 0] /\ truth = [t \in Tables |-> Nothing]
             /\ mem = [o \in Origins |-> 0] /\ dur = [o \in Origins |-> 0]
Open == txs # <<>> /\ txs[Len(txs)].seq = 0
Refused(e) == \/ Open /\ txs[Len(txs)].o # e.o
              \/ ~Open /\ e.ch = <<>> /\ e.seq # 0
Marks(lg) == [t \in Tables |-> Len(lg[t])]
\* the last transaction of an origin up to which everything is written, of all origins, in the order of arrival
Written(tx, ct, o) ==
  LET full(i) == tx[i].seq # 0 /\ \A t \in Tables : tx[i].upto[t] <= ct[t]
      good == {i \in 1..Len(tx) : tx[i].o = o /\ \A j \in 1..i : full(j)}
  IN IF good = {} THEN 0 ELSE tx[CHOOSE i \in good : \A j \in good : j <= i].seq
Everything(tx, lg, ct) == (\A t \in Tables : ct[t] = Len(lg[t])) /\ \A i \in 1..Len(tx) : tx[i].seq # 0
\* what was seen after the step: rows, and sequence numbers
Shown(t) == {n \in cut[t]..Len(log'[t]) : Fold(base[t], SubSeq(log'[t], 1, n), 1) = E.rows[t]}
Seen(calm) ==
  /\ \E x \in Shown("x"), y \in Shown("y"), z \in Shown("z") : cut' = [t \in Tables |-> IF t = "x" THEN x ELSE IF t = "y" THEN y ELSE z]
  /\ dur' = [o \in Origins |-> E.dur[o]]
  /\ \A o \in Origins : /\ mem'[o] = E.mem[o]
                        /\ dur'[o] >= dur[o] /\ dur'[o] <= Written(txs', cut', o)
                        /\ (calm /\ Everything(txs', log', cut')) => dur'[o] = Written(txs', cut', o)
Told == \A o \in Origins : E.mem[o] = mem'[o] /\ E.dur[o] = dur'[o]
Keeps == UNCHANGED <<txs, log, truth, mem>>
Msg ==
  /\ E.e = "msg"
  /\ UNCHANGED base
  /\ IF Refused(E) THEN E.r = "refused" /\ Keeps
     ELSE /\ E.r \in {"ok", "failed"}
          /\ (E.r = "failed" => E.fault)
          /\ log' = [log EXCEPT ![E.t] = @ \o E.ch]
          /\ txs' = LET tx == [o |-> E.o, seq |-> E.seq, upto |-> Marks(log')] IN
                    IF Open THEN [txs EXCEPT ![Len(txs)] = tx] ELSE Append(txs, tx)
          /\ truth' = IF E.again THEN truth ELSE [truth EXCEPT ![E.t] = Fold(@, E.ch, 1)]
          /\ mem' = IF E.seq = 0 THEN mem ELSE [mem EXCEPT ![E.o] = E.seq]
  /\ Seen(E.r = "ok")
\* the receiver is asked to write what is due
Flush == /\ E.e = "flush" /\ Keeps /\ UNCHANGED base /\ E.r \in {"ok", "failed"} /\ (E.r = "failed" => E.fault)
         /\ Seen(E.r = "ok")
         /\ (E.all /\ E.r = "ok") => \A t \in Tables : cut'[t] = Len(log[t])
\* it forgets all that it hasn't written; what it has is sent again from where it last told it was written
Restart == /\ E.e = "restart" /\ txs' = <<>> /\ log' = [t \in Tables |-> <<>>] /\ base' = [t \in Tables |-> E.rows[t]]
           /\ \A t \in Tables : base'[t] = Upto(t, cut[t])
           /\ cut' = [t \in Tables |-> 0] /\ mem' = [o \in Origins |-> 0] /\ dur' = [o \in Origins |-> 0]
           /\ UNCHANGED truth /\ Told
\* everything has been sent and written
End == /\ E.e = "end" /\ UNCHANGED vars /\ Told /\ \A t \in Tables : E.rows[t] = truth[t]
New == E.e = "new" /\ txs' = <<>> /\ log' = [t \in Tables |-> <<>>] /\ base' = [t \in Tables |-> Nothing]
       /\ cut' = [t \in Tables |-> 0] /\ truth' = [t \in Tables |-> Nothing]
       /\ mem' = [o \in Origins |-> 0] /\ dur' = [o \in Origins |-> 0] /\ Told /\ \A t \in Tables : E.rows[t] = Nothing
TraceNext == l <= N /\ l' = l + 1 /\ (New \/ Msg \/ Flush \/ Restart \/ End)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = N
\* sending changes again from anywhere before what a table shows leads to the same rows in the end
Replay == \A t \in Tables : Len(log[t]) <= 12 => \A n \in 0..Len(log[t]) :
            Fold(Upto(t, cut[t]), SubSeq(log[t], IF n < cut[t] THEN n + 1 ELSE cut[t] + 1, Len(log[t])), 1) = Upto(t, Len(log[t]))
=============================================================================
