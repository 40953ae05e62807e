---- MODULE SyncTrace_TTrace_1795076628 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, SyncTrace

_expression ==
    LET SyncTrace_TEExpression == INSTANCE SyncTrace_TEExpression
    IN SyncTrace_TEExpression!expression
----

_trace ==
    LET SyncTrace_TETrace == INSTANCE SyncTrace_TETrace
    IN SyncTrace_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        dur = ([A |-> 0, B |-> 0])
        /\
        cut = ([x |-> 0, y |-> 0, z |-> 1])
        /\
        truth = ([x |-> <<2, 0, 3, 6>>, y |-> <<0, 0, 4, 0>>, z |-> <<0, 8, 0, 0>>])
        /\
        mem = ([A |-> 0, B |-> 7])
        /\
        log = ([x |-> <<<<0, 1, 1>>, <<1, 1, 2>>, <<0, 3, 3>>, <<0, 2, 5>>, <<0, 4, 6>>, <<2, 0, 7>>>>, y |-> <<<<0, 3, 4>>>>, z |-> <<<<0, 2, 8>>>>])
        /\
        l = (69)
        /\
        txs = (<<[o |-> "B", seq |-> 3, upto |-> [x |-> 3, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 5, upto |-> [x |-> 6, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 7, upto |-> [x |-> 6, y |-> 1, z |-> 1]]>>)
        /\
        base = ([x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>])
    )
----

_init ==
    /\ txs = _TETrace[1].txs
    /\ cut = _TETrace[1].cut
    /\ truth = _TETrace[1].truth
    /\ log = _TETrace[1].log
    /\ l = _TETrace[1].l
    /\ dur = _TETrace[1].dur
    /\ base = _TETrace[1].base
    /\ mem = _TETrace[1].mem
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ txs  = _TETrace[i].txs
        /\ txs' = _TETrace[j].txs
        /\ cut  = _TETrace[i].cut
        /\ cut' = _TETrace[j].cut
        /\ truth  = _TETrace[i].truth
        /\ truth' = _TETrace[j].truth
        /\ log  = _TETrace[i].log
        /\ log' = _TETrace[j].log
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ dur  = _TETrace[i].dur
        /\ dur' = _TETrace[j].dur
        /\ base  = _TETrace[i].base
        /\ base' = _TETrace[j].base
        /\ mem  = _TETrace[i].mem
        /\ mem' = _TETrace[j].mem

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("SyncTrace_TTrace_1795076628.json", _TETrace)

=============================================================================

 Note that you can extract this module `SyncTrace_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `SyncTrace_TEExpression.tla` file takes precedence 
  over the module `SyncTrace_TEExpression` below).

---- MODULE SyncTrace_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, SyncTrace

expression == 
    [
        \* To hide variables of the `SyncTrace` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        txs |-> txs
        ,cut |-> cut
        ,truth |-> truth
        ,log |-> log
        ,l |-> l
        ,dur |-> dur
        ,base |-> base
        ,mem |-> mem
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_txsUnchanged |-> txs = txs'
        
        \* Format the `txs` variable as Json value.
        \* ,_txsJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(txs)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_txsModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].txs # _TETrace[s-1].txs
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE SyncTrace_TETrace ----
\*EXTENDS IOUtils, TLC, SyncTrace
\*
\*trace == IODeserialize("SyncTrace_TTrace_1795076628.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE SyncTrace_TETrace ----
EXTENDS TLC, SyncTrace

trace == 
    <<
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 1,txs |-> <<>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 2,txs |-> <<>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 3,txs |-> <<>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 2],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 2, 1, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>>>],l |-> 4,txs |-> <<[o |-> "B", seq |-> 0, upto |-> [x |-> 0, y |-> 0, z |-> 2]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 2],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 2, 1, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>>>],l |-> 5,txs |-> <<[o |-> "B", seq |-> 0, upto |-> [x |-> 0, y |-> 0, z |-> 2]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 3],cut |-> [x |-> 0, y |-> 2, z |-> 2],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 5, 4>>, z |-> <<0, 2, 1, 0>>],mem |-> [A |-> 0, B |-> 3],log |-> [x |-> <<>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>>>],l |-> 6,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 2, B |-> 3],cut |-> [x |-> 0, y |-> 5, z |-> 2],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<6, 7, 5, 0>>, z |-> <<0, 2, 1, 0>>],mem |-> [A |-> 2, B |-> 3],log |-> [x |-> <<>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>>>],l |-> 7,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 2, B |-> 3],cut |-> [x |-> 0, y |-> 5, z |-> 2],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<6, 7, 5, 0>>, z |-> <<0, 2, 1, 0>>],mem |-> [A |-> 2, B |-> 3],log |-> [x |-> <<>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>>>],l |-> 8,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 2, B |-> 3],cut |-> [x |-> 0, y |-> 5, z |-> 2],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<6, 7, 5, 0>>, z |-> <<0, 2, 1, 0>>],mem |-> [A |-> 2, B |-> 3],log |-> [x |-> <<>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>>>],l |-> 9,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 4, B |-> 3],cut |-> [x |-> 2, y |-> 5, z |-> 2],truth |-> [x |-> <<9, 0, 10, 0>>, y |-> <<6, 7, 5, 0>>, z |-> <<0, 2, 1, 0>>],mem |-> [A |-> 4, B |-> 3],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>>>],l |-> 10,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 4, B |-> 4],cut |-> [x |-> 2, y |-> 5, z |-> 4],truth |-> [x |-> <<9, 0, 10, 0>>, y |-> <<6, 7, 5, 0>>, z |-> <<12, 2, 11, 0>>],mem |-> [A |-> 4, B |-> 4],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>>>],l |-> 11,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 6, B |-> 4],cut |-> [x |-> 2, y |-> 5, z |-> 7],truth |-> [x |-> <<9, 0, 10, 0>>, y |-> <<6, 7, 5, 0>>, z |-> <<12, 2, 14, 0>>],mem |-> [A |-> 6, B |-> 4],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>>>],l |-> 12,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 6, B |-> 5],cut |-> [x |-> 5, y |-> 5, z |-> 7],truth |-> [x |-> <<9, 0, 18, 0>>, y |-> <<6, 7, 5, 0>>, z |-> <<12, 2, 14, 0>>],mem |-> [A |-> 6, B |-> 5],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>>>],l |-> 13,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 6, B |-> 5],cut |-> [x |-> 5, y |-> 5, z |-> 10],truth |-> [x |-> <<9, 0, 18, 0>>, y |-> <<6, 7, 5, 0>>, z |-> <<21, 2, 20, 0>>],mem |-> [A |-> 6, B |-> 5],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>>>],l |-> 14,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 0, upto |-> [x |-> 5, y |-> 5, z |-> 10]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 9, B |-> 5],cut |-> [x |-> 8, y |-> 5, z |-> 10],truth |-> [x |-> <<0, 24, 18, 23>>, y |-> <<6, 7, 5, 0>>, z |-> <<21, 2, 20, 0>>],mem |-> [A |-> 9, B |-> 5],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>>>],l |-> 15,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 9, B |-> 5],cut |-> [x |-> 8, y |-> 5, z |-> 13],truth |-> [x |-> <<0, 24, 18, 23>>, y |-> <<6, 7, 5, 0>>, z |-> <<0, 2, 26, 25>>],mem |-> [A |-> 9, B |-> 5],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>>>],l |-> 16,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 0, upto |-> [x |-> 8, y |-> 5, z |-> 13]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 10, B |-> 5],cut |-> [x |-> 9, y |-> 5, z |-> 13],truth |-> [x |-> <<0, 24, 28, 23>>, y |-> <<6, 7, 5, 0>>, z |-> <<0, 2, 26, 25>>],mem |-> [A |-> 10, B |-> 5],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>>>],l |-> 17,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 10, B |-> 7],cut |-> [x |-> 9, y |-> 5, z |-> 14],truth |-> [x |-> <<0, 24, 28, 23>>, y |-> <<6, 7, 5, 0>>, z |-> <<29, 2, 26, 25>>],mem |-> [A |-> 10, B |-> 7],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>>>],l |-> 18,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 10, B |-> 7],cut |-> [x |-> 9, y |-> 5, z |-> 14],truth |-> [x |-> <<0, 24, 28, 23>>, y |-> <<6, 7, 5, 0>>, z |-> <<29, 2, 26, 25>>],mem |-> [A |-> 10, B |-> 7],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>>>],l |-> 19,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 10, B |-> 10],cut |-> [x |-> 9, y |-> 5, z |-> 17],truth |-> [x |-> <<0, 24, 28, 23>>, y |-> <<6, 7, 5, 0>>, z |-> <<29, 31, 26, 0>>],mem |-> [A |-> 10, B |-> 10],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>>>],l |-> 20,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 13, B |-> 10],cut |-> [x |-> 9, y |-> 6, z |-> 17],truth |-> [x |-> <<0, 24, 28, 23>>, y |-> <<6, 7, 5, 33>>, z |-> <<29, 31, 26, 0>>],mem |-> [A |-> 13, B |-> 10],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>>>],l |-> 21,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 13, B |-> 12],cut |-> [x |-> 9, y |-> 6, z |-> 20],truth |-> [x |-> <<0, 24, 28, 23>>, y |-> <<6, 7, 5, 33>>, z |-> <<29, 36, 0, 0>>],mem |-> [A |-> 13, B |-> 12],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>>>],l |-> 22,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 12],cut |-> [x |-> 9, y |-> 6, z |-> 21],truth |-> [x |-> <<0, 24, 28, 23>>, y |-> <<6, 7, 5, 33>>, z |-> <<29, 36, 37, 0>>],mem |-> [A |-> 16, B |-> 12],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>>>],l |-> 23,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 12],cut |-> [x |-> 9, y |-> 6, z |-> 21],truth |-> [x |-> <<0, 24, 28, 23>>, y |-> <<6, 7, 5, 33>>, z |-> <<29, 36, 37, 0>>],mem |-> [A |-> 16, B |-> 12],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>>>],l |-> 24,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 19, B |-> 12],cut |-> [x |-> 9, y |-> 8, z |-> 21],truth |-> [x |-> <<0, 24, 28, 23>>, y |-> <<6, 0, 0, 33>>, z |-> <<29, 36, 37, 0>>],mem |-> [A |-> 19, B |-> 12],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>>>],l |-> 25,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 20, B |-> 12],cut |-> [x |-> 9, y |-> 8, z |-> 23],truth |-> [x |-> <<0, 24, 28, 23>>, y |-> <<6, 0, 0, 33>>, z |-> <<29, 36, 0, 40>>],mem |-> [A |-> 20, B |-> 12],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>>>],l |-> 26,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 20, B |-> 14],cut |-> [x |-> 11, y |-> 8, z |-> 23],truth |-> [x |-> <<42, 24, 0, 23>>, y |-> <<6, 0, 0, 33>>, z |-> <<29, 36, 0, 40>>],mem |-> [A |-> 20, B |-> 14],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>>>],l |-> 27,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 22, B |-> 14],cut |-> [x |-> 14, y |-> 8, z |-> 23],truth |-> [x |-> <<42, 0, 0, 0>>, y |-> <<6, 0, 0, 33>>, z |-> <<29, 36, 0, 40>>],mem |-> [A |-> 22, B |-> 14],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>>>],l |-> 28,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 22, B |-> 14],cut |-> [x |-> 15, y |-> 8, z |-> 23],truth |-> [x |-> <<42, 0, 0, 47>>, y |-> <<6, 0, 0, 33>>, z |-> <<29, 36, 0, 40>>],mem |-> [A |-> 22, B |-> 14],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>>>],l |-> 29,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 0, upto |-> [x |-> 17, y |-> 8, z |-> 23]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 22, B |-> 16],cut |-> [x |-> 17, y |-> 8, z |-> 24],truth |-> [x |-> <<42, 0, 0, 47>>, y |-> <<6, 0, 0, 33>>, z |-> <<29, 36, 50, 40>>],mem |-> [A |-> 22, B |-> 16],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>>>],l |-> 30,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 24, B |-> 16],cut |-> [x |-> 17, y |-> 9, z |-> 24],truth |-> [x |-> <<42, 0, 0, 47>>, y |-> <<51, 0, 0, 33>>, z |-> <<29, 36, 50, 40>>],mem |-> [A |-> 24, B |-> 16],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>>>],l |-> 31,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 24, B |-> 16],cut |-> [x |-> 17, y |-> 12, z |-> 24],truth |-> [x |-> <<42, 0, 0, 47>>, y |-> <<53, 0, 54, 0>>, z |-> <<29, 36, 50, 40>>],mem |-> [A |-> 24, B |-> 16],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>>>],l |-> 32,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 0, upto |-> [x |-> 17, y |-> 12, z |-> 24]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 25, B |-> 16],cut |-> [x |-> 17, y |-> 12, z |-> 24],truth |-> [x |-> <<42, 0, 0, 47>>, y |-> <<53, 0, 54, 0>>, z |-> <<29, 36, 50, 40>>],mem |-> [A |-> 25, B |-> 16],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>>>],l |-> 33,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 25, B |-> 16],cut |-> [x |-> 17, y |-> 12, z |-> 24],truth |-> [x |-> <<42, 0, 0, 47>>, y |-> <<53, 0, 54, 0>>, z |-> <<29, 36, 50, 40>>],mem |-> [A |-> 25, B |-> 16],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>>>],l |-> 34,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 25, B |-> 18],cut |-> [x |-> 17, y |-> 14, z |-> 24],truth |-> [x |-> <<42, 0, 0, 47>>, y |-> <<53, 55, 54, 56>>, z |-> <<29, 36, 50, 40>>],mem |-> [A |-> 25, B |-> 18],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>>>],l |-> 35,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 25, B |-> 20],cut |-> [x |-> 17, y |-> 14, z |-> 26],truth |-> [x |-> <<42, 0, 0, 47>>, y |-> <<53, 55, 54, 56>>, z |-> <<0, 0, 50, 40>>],mem |-> [A |-> 25, B |-> 20],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>>>],l |-> 36,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 25, B |-> 20],cut |-> [x |-> 17, y |-> 14, z |-> 26],truth |-> [x |-> <<42, 0, 0, 47>>, y |-> <<53, 55, 54, 56>>, z |-> <<0, 0, 50, 40>>],mem |-> [A |-> 25, B |-> 20],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>>>],l |-> 37,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 25, B |-> 20],cut |-> [x |-> 17, y |-> 14, z |-> 26],truth |-> [x |-> <<42, 0, 0, 47>>, y |-> <<53, 55, 54, 56>>, z |-> <<0, 0, 50, 40>>],mem |-> [A |-> 25, B |-> 20],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>>>],l |-> 38,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 25, B |-> 20],cut |-> [x |-> 17, y |-> 14, z |-> 26],truth |-> [x |-> <<42, 0, 0, 47>>, y |-> <<53, 55, 54, 56>>, z |-> <<0, 0, 50, 40>>],mem |-> [A |-> 25, B |-> 20],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>>>],l |-> 39,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 25, B |-> 23],cut |-> [x |-> 18, y |-> 14, z |-> 26],truth |-> [x |-> <<42, 0, 0, 59>>, y |-> <<53, 55, 54, 56>>, z |-> <<0, 0, 50, 40>>],mem |-> [A |-> 25, B |-> 23],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>>>],l |-> 40,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 25, B |-> 24],cut |-> [x |-> 18, y |-> 14, z |-> 27],truth |-> [x |-> <<42, 0, 0, 59>>, y |-> <<53, 55, 54, 56>>, z |-> <<60, 0, 50, 40>>],mem |-> [A |-> 25, B |-> 24],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>>>],l |-> 41,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 25, B |-> 24],cut |-> [x |-> 18, y |-> 14, z |-> 27],truth |-> [x |-> <<42, 0, 0, 59>>, y |-> <<53, 55, 54, 56>>, z |-> <<60, 0, 50, 40>>],mem |-> [A |-> 25, B |-> 24],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>>>],l |-> 42,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 25, B |-> 24],cut |-> [x |-> 20, y |-> 14, z |-> 27],truth |-> [x |-> <<42, 0, 61, 0>>, y |-> <<53, 55, 54, 56>>, z |-> <<60, 0, 50, 40>>],mem |-> [A |-> 25, B |-> 24],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>>>],l |-> 43,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 0, upto |-> [x |-> 20, y |-> 14, z |-> 27]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 24],cut |-> [x |-> 20, y |-> 16, z |-> 27],truth |-> [x |-> <<42, 0, 61, 0>>, y |-> <<53, 64, 54, 56>>, z |-> <<60, 0, 50, 40>>],mem |-> [A |-> 28, B |-> 24],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>>>],l |-> 44,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 24],cut |-> [x |-> 20, y |-> 17, z |-> 27],truth |-> [x |-> <<42, 0, 61, 0>>, y |-> <<0, 64, 54, 56>>, z |-> <<60, 0, 50, 40>>],mem |-> [A |-> 28, B |-> 24],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>>>],l |-> 45,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 0, upto |-> [x |-> 20, y |-> 17, z |-> 27]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 24],cut |-> [x |-> 20, y |-> 17, z |-> 27],truth |-> [x |-> <<42, 0, 61, 0>>, y |-> <<0, 64, 54, 56>>, z |-> <<60, 0, 50, 40>>],mem |-> [A |-> 30, B |-> 24],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>>>],l |-> 46,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 32, B |-> 24],cut |-> [x |-> 21, y |-> 17, z |-> 27],truth |-> [x |-> <<42, 66, 61, 0>>, y |-> <<0, 64, 54, 56>>, z |-> <<60, 0, 50, 40>>],mem |-> [A |-> 32, B |-> 24],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>>>],l |-> 47,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 32, B |-> 24],cut |-> [x |-> 21, y |-> 20, z |-> 27],truth |-> [x |-> <<42, 66, 61, 0>>, y |-> <<67, 68, 0, 0>>, z |-> <<60, 0, 50, 40>>],mem |-> [A |-> 32, B |-> 24],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>>>],l |-> 48,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 0, upto |-> [x |-> 21, y |-> 20, z |-> 27]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 32, B |-> 27],cut |-> [x |-> 22, y |-> 20, z |-> 27],truth |-> [x |-> <<42, 66, 61, 70>>, y |-> <<67, 68, 0, 0>>, z |-> <<60, 0, 50, 40>>],mem |-> [A |-> 32, B |-> 27],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>>>],l |-> 49,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 32, B |-> 27],cut |-> [x |-> 22, y |-> 20, z |-> 27],truth |-> [x |-> <<42, 66, 61, 70>>, y |-> <<67, 68, 0, 0>>, z |-> <<60, 0, 50, 40>>],mem |-> [A |-> 32, B |-> 27],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>>>],l |-> 50,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 32, B |-> 29],cut |-> [x |-> 22, y |-> 20, z |-> 29],truth |-> [x |-> <<42, 66, 61, 70>>, y |-> <<67, 68, 0, 0>>, z |-> <<72, 71, 0, 40>>],mem |-> [A |-> 32, B |-> 29],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>, <<1, 2, 71>>, <<3, 1, 72>>>>],l |-> 51,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 20, z |-> 29]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 32, B |-> 29],cut |-> [x |-> 22, y |-> 20, z |-> 29],truth |-> [x |-> <<42, 66, 61, 70>>, y |-> <<67, 68, 0, 0>>, z |-> <<72, 71, 0, 40>>],mem |-> [A |-> 32, B |-> 29],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>, <<1, 2, 71>>, <<3, 1, 72>>>>],l |-> 52,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 20, z |-> 29]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 32, B |-> 29],cut |-> [x |-> 25, y |-> 20, z |-> 29],truth |-> [x |-> <<42, 66, 75, 70>>, y |-> <<67, 68, 0, 0>>, z |-> <<72, 71, 0, 40>>],mem |-> [A |-> 32, B |-> 29],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>, <<3, 0, 73>>, <<0, 3, 74>>, <<3, 3, 75>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>, <<1, 2, 71>>, <<3, 1, 72>>>>],l |-> 53,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 20, z |-> 29]], [o |-> "B", seq |-> 0, upto |-> [x |-> 25, y |-> 20, z |-> 29]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 32, B |-> 31],cut |-> [x |-> 25, y |-> 23, z |-> 29],truth |-> [x |-> <<42, 66, 75, 70>>, y |-> <<67, 0, 0, 78>>, z |-> <<72, 71, 0, 40>>],mem |-> [A |-> 32, B |-> 31],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>, <<3, 0, 73>>, <<0, 3, 74>>, <<3, 3, 75>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>, <<2, 2, 76>>, <<2, 4, 77>>, <<4, 4, 78>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>, <<1, 2, 71>>, <<3, 1, 72>>>>],l |-> 54,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 20, z |-> 29]], [o |-> "B", seq |-> 31, upto |-> [x |-> 25, y |-> 23, z |-> 29]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 32, B |-> 31],cut |-> [x |-> 25, y |-> 23, z |-> 29],truth |-> [x |-> <<42, 66, 75, 70>>, y |-> <<67, 0, 0, 78>>, z |-> <<72, 71, 0, 40>>],mem |-> [A |-> 32, B |-> 31],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>, <<3, 0, 73>>, <<0, 3, 74>>, <<3, 3, 75>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>, <<2, 2, 76>>, <<2, 4, 77>>, <<4, 4, 78>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>, <<1, 2, 71>>, <<3, 1, 72>>>>],l |-> 55,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 20, z |-> 29]], [o |-> "B", seq |-> 31, upto |-> [x |-> 25, y |-> 23, z |-> 29]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 32, B |-> 31],cut |-> [x |-> 25, y |-> 23, z |-> 31],truth |-> [x |-> <<42, 66, 75, 70>>, y |-> <<67, 0, 0, 78>>, z |-> <<0, 71, 0, 80>>],mem |-> [A |-> 32, B |-> 31],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>, <<3, 0, 73>>, <<0, 3, 74>>, <<3, 3, 75>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>, <<2, 2, 76>>, <<2, 4, 77>>, <<4, 4, 78>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>, <<1, 2, 71>>, <<3, 1, 72>>, <<4, 0, 79>>, <<1, 4, 80>>>>],l |-> 56,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 20, z |-> 29]], [o |-> "B", seq |-> 31, upto |-> [x |-> 25, y |-> 23, z |-> 29]], [o |-> "B", seq |-> 0, upto |-> [x |-> 25, y |-> 23, z |-> 31]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 32, B |-> 33],cut |-> [x |-> 25, y |-> 23, z |-> 31],truth |-> [x |-> <<42, 66, 75, 70>>, y |-> <<67, 0, 0, 78>>, z |-> <<0, 71, 0, 80>>],mem |-> [A |-> 32, B |-> 33],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>, <<3, 0, 73>>, <<0, 3, 74>>, <<3, 3, 75>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>, <<2, 2, 76>>, <<2, 4, 77>>, <<4, 4, 78>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>, <<1, 2, 71>>, <<3, 1, 72>>, <<4, 0, 79>>, <<1, 4, 80>>>>],l |-> 57,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 20, z |-> 29]], [o |-> "B", seq |-> 31, upto |-> [x |-> 25, y |-> 23, z |-> 29]], [o |-> "B", seq |-> 33, upto |-> [x |-> 25, y |-> 23, z |-> 31]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 34, B |-> 33],cut |-> [x |-> 26, y |-> 23, z |-> 31],truth |-> [x |-> <<42, 81, 75, 70>>, y |-> <<67, 0, 0, 78>>, z |-> <<0, 71, 0, 80>>],mem |-> [A |-> 34, B |-> 33],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>, <<3, 0, 73>>, <<0, 3, 74>>, <<3, 3, 75>>, <<2, 2, 81>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>, <<2, 2, 76>>, <<2, 4, 77>>, <<4, 4, 78>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>, <<1, 2, 71>>, <<3, 1, 72>>, <<4, 0, 79>>, <<1, 4, 80>>>>],l |-> 58,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 20, z |-> 29]], [o |-> "B", seq |-> 31, upto |-> [x |-> 25, y |-> 23, z |-> 29]], [o |-> "B", seq |-> 33, upto |-> [x |-> 25, y |-> 23, z |-> 31]], [o |-> "A", seq |-> 34, upto |-> [x |-> 26, y |-> 23, z |-> 31]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 34, B |-> 35],cut |-> [x |-> 27, y |-> 23, z |-> 31],truth |-> [x |-> <<42, 81, 75, 0>>, y |-> <<67, 0, 0, 78>>, z |-> <<0, 71, 0, 80>>],mem |-> [A |-> 34, B |-> 35],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>, <<3, 0, 73>>, <<0, 3, 74>>, <<3, 3, 75>>, <<2, 2, 81>>, <<4, 0, 82>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>, <<2, 2, 76>>, <<2, 4, 77>>, <<4, 4, 78>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>, <<1, 2, 71>>, <<3, 1, 72>>, <<4, 0, 79>>, <<1, 4, 80>>>>],l |-> 59,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 20, z |-> 29]], [o |-> "B", seq |-> 31, upto |-> [x |-> 25, y |-> 23, z |-> 29]], [o |-> "B", seq |-> 33, upto |-> [x |-> 25, y |-> 23, z |-> 31]], [o |-> "A", seq |-> 34, upto |-> [x |-> 26, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 35, upto |-> [x |-> 27, y |-> 23, z |-> 31]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 34, B |-> 37],cut |-> [x |-> 29, y |-> 23, z |-> 31],truth |-> [x |-> <<0, 84, 75, 83>>, y |-> <<67, 0, 0, 78>>, z |-> <<0, 71, 0, 80>>],mem |-> [A |-> 34, B |-> 37],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>, <<3, 0, 73>>, <<0, 3, 74>>, <<3, 3, 75>>, <<2, 2, 81>>, <<4, 0, 82>>, <<2, 4, 83>>, <<1, 2, 84>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>, <<2, 2, 76>>, <<2, 4, 77>>, <<4, 4, 78>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>, <<1, 2, 71>>, <<3, 1, 72>>, <<4, 0, 79>>, <<1, 4, 80>>>>],l |-> 60,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 20, z |-> 29]], [o |-> "B", seq |-> 31, upto |-> [x |-> 25, y |-> 23, z |-> 29]], [o |-> "B", seq |-> 33, upto |-> [x |-> 25, y |-> 23, z |-> 31]], [o |-> "A", seq |-> 34, upto |-> [x |-> 26, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 35, upto |-> [x |-> 27, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 37, upto |-> [x |-> 29, y |-> 23, z |-> 31]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 34, B |-> 40],cut |-> [x |-> 31, y |-> 23, z |-> 31],truth |-> [x |-> <<86, 84, 75, 0>>, y |-> <<67, 0, 0, 78>>, z |-> <<0, 71, 0, 80>>],mem |-> [A |-> 34, B |-> 40],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>, <<3, 0, 73>>, <<0, 3, 74>>, <<3, 3, 75>>, <<2, 2, 81>>, <<4, 0, 82>>, <<2, 4, 83>>, <<1, 2, 84>>, <<4, 0, 85>>, <<0, 1, 86>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>, <<2, 2, 76>>, <<2, 4, 77>>, <<4, 4, 78>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>, <<1, 2, 71>>, <<3, 1, 72>>, <<4, 0, 79>>, <<1, 4, 80>>>>],l |-> 61,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 20, z |-> 29]], [o |-> "B", seq |-> 31, upto |-> [x |-> 25, y |-> 23, z |-> 29]], [o |-> "B", seq |-> 33, upto |-> [x |-> 25, y |-> 23, z |-> 31]], [o |-> "A", seq |-> 34, upto |-> [x |-> 26, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 35, upto |-> [x |-> 27, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 37, upto |-> [x |-> 29, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 40, upto |-> [x |-> 31, y |-> 23, z |-> 31]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 34, B |-> 40],cut |-> [x |-> 31, y |-> 23, z |-> 31],truth |-> [x |-> <<86, 84, 75, 0>>, y |-> <<67, 0, 0, 78>>, z |-> <<0, 71, 0, 80>>],mem |-> [A |-> 34, B |-> 40],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>, <<3, 0, 73>>, <<0, 3, 74>>, <<3, 3, 75>>, <<2, 2, 81>>, <<4, 0, 82>>, <<2, 4, 83>>, <<1, 2, 84>>, <<4, 0, 85>>, <<0, 1, 86>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>, <<2, 2, 76>>, <<2, 4, 77>>, <<4, 4, 78>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>, <<1, 2, 71>>, <<3, 1, 72>>, <<4, 0, 79>>, <<1, 4, 80>>>>],l |-> 62,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 20, z |-> 29]], [o |-> "B", seq |-> 31, upto |-> [x |-> 25, y |-> 23, z |-> 29]], [o |-> "B", seq |-> 33, upto |-> [x |-> 25, y |-> 23, z |-> 31]], [o |-> "A", seq |-> 34, upto |-> [x |-> 26, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 35, upto |-> [x |-> 27, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 37, upto |-> [x |-> 29, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 40, upto |-> [x |-> 31, y |-> 23, z |-> 31]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 34, B |-> 40],cut |-> [x |-> 31, y |-> 23, z |-> 31],truth |-> [x |-> <<86, 84, 75, 0>>, y |-> <<67, 0, 0, 78>>, z |-> <<0, 71, 0, 80>>],mem |-> [A |-> 34, B |-> 40],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>, <<3, 0, 73>>, <<0, 3, 74>>, <<3, 3, 75>>, <<2, 2, 81>>, <<4, 0, 82>>, <<2, 4, 83>>, <<1, 2, 84>>, <<4, 0, 85>>, <<0, 1, 86>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>, <<2, 2, 76>>, <<2, 4, 77>>, <<4, 4, 78>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>, <<1, 2, 71>>, <<3, 1, 72>>, <<4, 0, 79>>, <<1, 4, 80>>>>],l |-> 63,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 20, z |-> 29]], [o |-> "B", seq |-> 31, upto |-> [x |-> 25, y |-> 23, z |-> 29]], [o |-> "B", seq |-> 33, upto |-> [x |-> 25, y |-> 23, z |-> 31]], [o |-> "A", seq |-> 34, upto |-> [x |-> 26, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 35, upto |-> [x |-> 27, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 37, upto |-> [x |-> 29, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 40, upto |-> [x |-> 31, y |-> 23, z |-> 31]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 34, B |-> 40],cut |-> [x |-> 31, y |-> 23, z |-> 31],truth |-> [x |-> <<86, 84, 75, 0>>, y |-> <<67, 0, 0, 78>>, z |-> <<0, 71, 0, 80>>],mem |-> [A |-> 34, B |-> 40],log |-> [x |-> <<<<0, 1, 9>>, <<0, 3, 10>>, <<3, 4, 16>>, <<4, 3, 17>>, <<3, 3, 18>>, <<1, 4, 22>>, <<4, 4, 23>>, <<0, 2, 24>>, <<3, 3, 28>>, <<0, 1, 42>>, <<3, 0, 43>>, <<4, 3, 44>>, <<3, 0, 45>>, <<2, 0, 46>>, <<0, 4, 47>>, <<0, 3, 48>>, <<3, 0, 49>>, <<4, 4, 59>>, <<0, 3, 61>>, <<4, 0, 62>>, <<0, 2, 66>>, <<0, 4, 70>>, <<3, 0, 73>>, <<0, 3, 74>>, <<3, 3, 75>>, <<2, 2, 81>>, <<4, 0, 82>>, <<2, 4, 83>>, <<1, 2, 84>>, <<4, 0, 85>>, <<0, 1, 86>>>>, y |-> <<<<0, 4, 4>>, <<0, 3, 5>>, <<0, 1, 6>>, <<0, 2, 7>>, <<4, 0, 8>>, <<0, 4, 33>>, <<3, 0, 38>>, <<2, 0, 39>>, <<1, 1, 51>>, <<4, 0, 52>>, <<1, 1, 53>>, <<0, 3, 54>>, <<0, 2, 55>>, <<0, 4, 56>>, <<2, 0, 63>>, <<0, 2, 64>>, <<1, 0, 65>>, <<2, 1, 67>>, <<4, 2, 68>>, <<3, 0, 69>>, <<2, 2, 76>>, <<2, 4, 77>>, <<4, 4, 78>>>>, z |-> <<<<0, 3, 1>>, <<0, 2, 2>>, <<3, 3, 11>>, <<0, 1, 12>>, <<3, 4, 13>>, <<0, 3, 14>>, <<4, 0, 15>>, <<1, 1, 19>>, <<3, 3, 20>>, <<1, 1, 21>>, <<3, 4, 25>>, <<0, 3, 26>>, <<1, 0, 27>>, <<0, 1, 29>>, <<2, 0, 30>>, <<0, 2, 31>>, <<4, 0, 32>>, <<3, 3, 34>>, <<2, 0, 35>>, <<3, 2, 36>>, <<0, 3, 37>>, <<0, 4, 40>>, <<3, 0, 41>>, <<0, 3, 50>>, <<1, 0, 57>>, <<2, 0, 58>>, <<0, 1, 60>>, <<1, 2, 71>>, <<3, 1, 72>>, <<4, 0, 79>>, <<1, 4, 80>>>>],l |-> 64,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 2, z |-> 2]], [o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 5, z |-> 2]], [o |-> "A", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 2]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 4]], [o |-> "A", seq |-> 6, upto |-> [x |-> 2, y |-> 5, z |-> 7]], [o |-> "B", seq |-> 5, upto |-> [x |-> 5, y |-> 5, z |-> 7]], [o |-> "A", seq |-> 9, upto |-> [x |-> 8, y |-> 5, z |-> 10]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 13]], [o |-> "B", seq |-> 7, upto |-> [x |-> 9, y |-> 5, z |-> 14]], [o |-> "B", seq |-> 10, upto |-> [x |-> 9, y |-> 5, z |-> 17]], [o |-> "A", seq |-> 13, upto |-> [x |-> 9, y |-> 6, z |-> 17]], [o |-> "B", seq |-> 12, upto |-> [x |-> 9, y |-> 6, z |-> 20]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 6, z |-> 21]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 8, z |-> 21]], [o |-> "A", seq |-> 20, upto |-> [x |-> 9, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 14, upto |-> [x |-> 11, y |-> 8, z |-> 23]], [o |-> "A", seq |-> 22, upto |-> [x |-> 14, y |-> 8, z |-> 23]], [o |-> "B", seq |-> 16, upto |-> [x |-> 17, y |-> 8, z |-> 24]], [o |-> "A", seq |-> 24, upto |-> [x |-> 17, y |-> 9, z |-> 24]], [o |-> "A", seq |-> 25, upto |-> [x |-> 17, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 17, y |-> 14, z |-> 24]], [o |-> "B", seq |-> 20, upto |-> [x |-> 17, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 23, upto |-> [x |-> 18, y |-> 14, z |-> 26]], [o |-> "B", seq |-> 24, upto |-> [x |-> 18, y |-> 14, z |-> 27]], [o |-> "A", seq |-> 28, upto |-> [x |-> 20, y |-> 16, z |-> 27]], [o |-> "A", seq |-> 30, upto |-> [x |-> 20, y |-> 17, z |-> 27]], [o |-> "A", seq |-> 32, upto |-> [x |-> 21, y |-> 17, z |-> 27]], [o |-> "B", seq |-> 27, upto |-> [x |-> 22, y |-> 20, z |-> 27]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 20, z |-> 29]], [o |-> "B", seq |-> 31, upto |-> [x |-> 25, y |-> 23, z |-> 29]], [o |-> "B", seq |-> 33, upto |-> [x |-> 25, y |-> 23, z |-> 31]], [o |-> "A", seq |-> 34, upto |-> [x |-> 26, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 35, upto |-> [x |-> 27, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 37, upto |-> [x |-> 29, y |-> 23, z |-> 31]], [o |-> "B", seq |-> 40, upto |-> [x |-> 31, y |-> 23, z |-> 31]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 65,txs |-> <<>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<2, 0, 3, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<<<0, 1, 1>>, <<1, 1, 2>>, <<0, 3, 3>>>>, y |-> <<>>, z |-> <<>>],l |-> 66,txs |-> <<[o |-> "B", seq |-> 0, upto |-> [x |-> 3, y |-> 0, z |-> 0]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<2, 0, 3, 0>>, y |-> <<0, 0, 4, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 3],log |-> [x |-> <<<<0, 1, 1>>, <<1, 1, 2>>, <<0, 3, 3>>>>, y |-> <<<<0, 3, 4>>>>, z |-> <<>>],l |-> 67,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 3, y |-> 1, z |-> 0]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<2, 0, 3, 6>>, y |-> <<0, 0, 4, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 5],log |-> [x |-> <<<<0, 1, 1>>, <<1, 1, 2>>, <<0, 3, 3>>, <<0, 2, 5>>, <<0, 4, 6>>, <<2, 0, 7>>>>, y |-> <<<<0, 3, 4>>>>, z |-> <<>>],l |-> 68,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 3, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 5, upto |-> [x |-> 6, y |-> 1, z |-> 0]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 1],truth |-> [x |-> <<2, 0, 3, 6>>, y |-> <<0, 0, 4, 0>>, z |-> <<0, 8, 0, 0>>],mem |-> [A |-> 0, B |-> 7],log |-> [x |-> <<<<0, 1, 1>>, <<1, 1, 2>>, <<0, 3, 3>>, <<0, 2, 5>>, <<0, 4, 6>>, <<2, 0, 7>>>>, y |-> <<<<0, 3, 4>>>>, z |-> <<<<0, 2, 8>>>>],l |-> 69,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 3, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 5, upto |-> [x |-> 6, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 7, upto |-> [x |-> 6, y |-> 1, z |-> 1]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]])
    >>
----


=============================================================================

---- CONFIG SyncTrace_TTrace_1795076628 ----

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 08:23:50 UTC 2026