---- MODULE SyncTrace_TTrace_1795076452 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, SyncTrace

_expression ==
    LET SyncTrace_TEExpression == INSTANCE SyncTrace_TEExpression
    IN SyncTrace_TEExpression!expression
----

_trace ==
    LET SyncTrace_TETrace == INSTANCE SyncTrace_TETrace
    IN SyncTrace_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        dur = ([A |-> 0, B |-> 0])
        /\
        cut = ([x |-> 2, y |-> 0, z |-> 0])
        /\
        truth = ([x |-> <<5, 0, 0, 0>>, y |-> <<0, 0, 3, 0>>, z |-> <<0, 0, 0, 0>>])
        /\
        mem = ([A |-> 0, B |-> 2])
        /\
        log = ([x |-> <<<<0, 1, 4>>, <<1, 1, 5>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>>>, z |-> <<>>])
        /\
        l = (69)
        /\
        txs = (<<[o |-> "B", seq |-> 2, upto |-> [x |-> 2, y |-> 3, z |-> 0]]>>)
        /\
        base = ([x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>])
    )
----

_init ==
    /\ txs = _TETrace[1].txs
    /\ cut = _TETrace[1].cut
    /\ truth = _TETrace[1].truth
    /\ log = _TETrace[1].log
    /\ l = _TETrace[1].l
    /\ dur = _TETrace[1].dur
    /\ base = _TETrace[1].base
    /\ mem = _TETrace[1].mem
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ txs  = _TETrace[i].txs
        /\ txs' = _TETrace[j].txs
        /\ cut  = _TETrace[i].cut
        /\ cut' = _TETrace[j].cut
        /\ truth  = _TETrace[i].truth
        /\ truth' = _TETrace[j].truth
        /\ log  = _TETrace[i].log
        /\ log' = _TETrace[j].log
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ dur  = _TETrace[i].dur
        /\ dur' = _TETrace[j].dur
        /\ base  = _TETrace[i].base
        /\ base' = _TETrace[j].base
        /\ mem  = _TETrace[i].mem
        /\ mem' = _TETrace[j].mem

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("SyncTrace_TTrace_1795076452.json", _TETrace)

=============================================================================

 Note that you can extract this module `SyncTrace_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `SyncTrace_TEExpression.tla` file takes precedence 
  over the module `SyncTrace_TEExpression` below).

---- MODULE SyncTrace_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, SyncTrace

expression == 
    [
        \* To hide variables of the `SyncTrace` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        txs |-> txs
        ,cut |-> cut
        ,truth |-> truth
        ,log |-> log
        ,l |-> l
        ,dur |-> dur
        ,base |-> base
        ,mem |-> mem
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_txsUnchanged |-> txs = txs'
        
        \* Format the `txs` variable as Json value.
        \* ,_txsJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(txs)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_txsModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].txs # _TETrace[s-1].txs
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE SyncTrace_TETrace ----
\*EXTENDS IOUtils, TLC, SyncTrace
\*
\*trace == IODeserialize("SyncTrace_TTrace_1795076452.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE SyncTrace_TETrace ----
EXTENDS TLC, SyncTrace

trace == 
    <<
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 1,txs |-> <<>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 2,txs |-> <<>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 3,txs |-> <<>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 1],cut |-> [x |-> 0, y |-> 3, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 3, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 1],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>>>, z |-> <<>>],l |-> 4,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 1],cut |-> [x |-> 0, y |-> 3, z |-> 3],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 3, 0>>, z |-> <<0, 5, 0, 6>>],mem |-> [A |-> 0, B |-> 1],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>>>],l |-> 5,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 0, upto |-> [x |-> 0, y |-> 3, z |-> 3]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 1],cut |-> [x |-> 0, y |-> 3, z |-> 4],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 3, 0>>, z |-> <<0, 0, 7, 6>>],mem |-> [A |-> 0, B |-> 1],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>>>],l |-> 6,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 0, upto |-> [x |-> 0, y |-> 3, z |-> 4]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 1, B |-> 1],cut |-> [x |-> 0, y |-> 3, z |-> 4],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 3, 0>>, z |-> <<0, 0, 7, 6>>],mem |-> [A |-> 1, B |-> 1],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>>>],l |-> 7,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 1, B |-> 3],cut |-> [x |-> 0, y |-> 3, z |-> 6],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 3, 0>>, z |-> <<0, 9, 7, 6>>],mem |-> [A |-> 1, B |-> 3],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>>>],l |-> 8,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 3, B |-> 3],cut |-> [x |-> 0, y |-> 4, z |-> 6],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 10, 0>>, z |-> <<0, 9, 7, 6>>],mem |-> [A |-> 3, B |-> 3],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>>>],l |-> 9,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 3, B |-> 3],cut |-> [x |-> 0, y |-> 4, z |-> 6],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 10, 0>>, z |-> <<0, 9, 7, 6>>],mem |-> [A |-> 3, B |-> 3],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>>>],l |-> 10,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 3, B |-> 3],cut |-> [x |-> 0, y |-> 7, z |-> 6],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<12, 0, 0, 0>>, z |-> <<0, 9, 7, 6>>],mem |-> [A |-> 3, B |-> 3],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>>>],l |-> 11,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 0, upto |-> [x |-> 0, y |-> 7, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 3, B |-> 4],cut |-> [x |-> 0, y |-> 7, z |-> 6],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<12, 0, 0, 0>>, z |-> <<0, 9, 7, 6>>],mem |-> [A |-> 3, B |-> 4],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>>>],l |-> 12,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 5, B |-> 4],cut |-> [x |-> 0, y |-> 9, z |-> 6],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 15, 0>>, z |-> <<0, 9, 7, 6>>],mem |-> [A |-> 5, B |-> 4],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>>>],l |-> 13,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 5, B |-> 4],cut |-> [x |-> 0, y |-> 10, z |-> 6],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<16, 0, 15, 0>>, z |-> <<0, 9, 7, 6>>],mem |-> [A |-> 5, B |-> 4],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>>>],l |-> 14,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 0, upto |-> [x |-> 0, y |-> 10, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 6, B |-> 4],cut |-> [x |-> 0, y |-> 13, z |-> 6],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 17, 15, 18>>, z |-> <<0, 9, 7, 6>>],mem |-> [A |-> 6, B |-> 4],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>>>],l |-> 15,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 6, B |-> 4],cut |-> [x |-> 0, y |-> 13, z |-> 6],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 17, 15, 18>>, z |-> <<0, 9, 7, 6>>],mem |-> [A |-> 6, B |-> 4],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>>>],l |-> 16,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 6, B |-> 4],cut |-> [x |-> 0, y |-> 13, z |-> 6],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 17, 15, 18>>, z |-> <<0, 9, 7, 6>>],mem |-> [A |-> 6, B |-> 4],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>>>],l |-> 17,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 9, B |-> 4],cut |-> [x |-> 0, y |-> 14, z |-> 6],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<20, 17, 15, 18>>, z |-> <<0, 9, 7, 6>>],mem |-> [A |-> 9, B |-> 4],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>>>],l |-> 18,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 9, B |-> 4],cut |-> [x |-> 0, y |-> 14, z |-> 6],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<20, 17, 15, 18>>, z |-> <<0, 9, 7, 6>>],mem |-> [A |-> 9, B |-> 4],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>>>],l |-> 19,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 9, B |-> 4],cut |-> [x |-> 0, y |-> 14, z |-> 6],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<20, 17, 15, 18>>, z |-> <<0, 9, 7, 6>>],mem |-> [A |-> 9, B |-> 4],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>>>],l |-> 20,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 10, B |-> 4],cut |-> [x |-> 0, y |-> 14, z |-> 8],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<20, 17, 15, 18>>, z |-> <<21, 9, 22, 6>>],mem |-> [A |-> 10, B |-> 4],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>>>],l |-> 21,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 10, B |-> 4],cut |-> [x |-> 3, y |-> 14, z |-> 8],truth |-> [x |-> <<0, 25, 24, 0>>, y |-> <<20, 17, 15, 18>>, z |-> <<21, 9, 22, 6>>],mem |-> [A |-> 10, B |-> 4],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>>>],l |-> 22,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 0, upto |-> [x |-> 3, y |-> 14, z |-> 8]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 10, B |-> 4],cut |-> [x |-> 3, y |-> 14, z |-> 8],truth |-> [x |-> <<0, 25, 24, 0>>, y |-> <<20, 17, 15, 18>>, z |-> <<21, 9, 22, 6>>],mem |-> [A |-> 10, B |-> 4],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>>>],l |-> 23,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 0, upto |-> [x |-> 3, y |-> 14, z |-> 8]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 10, B |-> 7],cut |-> [x |-> 3, y |-> 17, z |-> 8],truth |-> [x |-> <<0, 25, 24, 0>>, y |-> <<27, 17, 26, 0>>, z |-> <<21, 9, 22, 6>>],mem |-> [A |-> 10, B |-> 7],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>>>],l |-> 24,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 11, B |-> 7],cut |-> [x |-> 4, y |-> 17, z |-> 8],truth |-> [x |-> <<0, 0, 24, 0>>, y |-> <<27, 17, 26, 0>>, z |-> <<21, 9, 22, 6>>],mem |-> [A |-> 11, B |-> 7],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>>>],l |-> 25,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 11, B |-> 7],cut |-> [x |-> 6, y |-> 17, z |-> 8],truth |-> [x |-> <<0, 0, 30, 31>>, y |-> <<27, 17, 26, 0>>, z |-> <<21, 9, 22, 6>>],mem |-> [A |-> 11, B |-> 7],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>>>],l |-> 26,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 0, upto |-> [x |-> 6, y |-> 17, z |-> 8]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 11, B |-> 8],cut |-> [x |-> 6, y |-> 18, z |-> 8],truth |-> [x |-> <<0, 0, 30, 31>>, y |-> <<27, 32, 26, 0>>, z |-> <<21, 9, 22, 6>>],mem |-> [A |-> 11, B |-> 8],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>>>],l |-> 27,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 11, B |-> 11],cut |-> [x |-> 6, y |-> 18, z |-> 10],truth |-> [x |-> <<0, 0, 30, 31>>, y |-> <<27, 32, 26, 0>>, z |-> <<34, 9, 22, 6>>],mem |-> [A |-> 11, B |-> 11],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>>>],l |-> 28,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 12, B |-> 11],cut |-> [x |-> 6, y |-> 19, z |-> 10],truth |-> [x |-> <<0, 0, 30, 31>>, y |-> <<27, 32, 26, 35>>, z |-> <<34, 9, 22, 6>>],mem |-> [A |-> 12, B |-> 11],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>>>],l |-> 29,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 13, B |-> 11],cut |-> [x |-> 6, y |-> 22, z |-> 10],truth |-> [x |-> <<0, 0, 30, 31>>, y |-> <<27, 38, 26, 36>>, z |-> <<34, 9, 22, 6>>],mem |-> [A |-> 13, B |-> 11],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>>>],l |-> 30,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 13, B |-> 11],cut |-> [x |-> 6, y |-> 25, z |-> 10],truth |-> [x |-> <<0, 0, 30, 31>>, y |-> <<40, 41, 26, 36>>, z |-> <<34, 9, 22, 6>>],mem |-> [A |-> 13, B |-> 11],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>>>],l |-> 31,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 0, upto |-> [x |-> 6, y |-> 25, z |-> 10]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 11],cut |-> [x |-> 6, y |-> 25, z |-> 10],truth |-> [x |-> <<0, 0, 30, 31>>, y |-> <<40, 41, 26, 36>>, z |-> <<34, 9, 22, 6>>],mem |-> [A |-> 16, B |-> 11],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>>>],l |-> 32,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 11],cut |-> [x |-> 6, y |-> 25, z |-> 10],truth |-> [x |-> <<0, 0, 30, 31>>, y |-> <<40, 41, 26, 36>>, z |-> <<34, 9, 22, 6>>],mem |-> [A |-> 16, B |-> 11],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>>>],l |-> 33,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 11],cut |-> [x |-> 6, y |-> 25, z |-> 10],truth |-> [x |-> <<0, 0, 30, 31>>, y |-> <<40, 41, 26, 36>>, z |-> <<34, 9, 22, 6>>],mem |-> [A |-> 16, B |-> 11],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>>>],l |-> 34,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 14],cut |-> [x |-> 7, y |-> 25, z |-> 10],truth |-> [x |-> <<0, 0, 30, 0>>, y |-> <<40, 41, 26, 36>>, z |-> <<34, 9, 22, 6>>],mem |-> [A |-> 16, B |-> 14],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>>>],l |-> 35,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 14],cut |-> [x |-> 7, y |-> 25, z |-> 10],truth |-> [x |-> <<0, 0, 30, 0>>, y |-> <<40, 41, 26, 36>>, z |-> <<34, 9, 22, 6>>],mem |-> [A |-> 16, B |-> 14],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>>>],l |-> 36,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 17],cut |-> [x |-> 7, y |-> 25, z |-> 11],truth |-> [x |-> <<0, 0, 30, 0>>, y |-> <<40, 41, 26, 36>>, z |-> <<34, 0, 22, 6>>],mem |-> [A |-> 16, B |-> 17],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>>>],l |-> 37,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 17],cut |-> [x |-> 7, y |-> 25, z |-> 11],truth |-> [x |-> <<0, 0, 30, 0>>, y |-> <<40, 41, 26, 36>>, z |-> <<34, 0, 22, 6>>],mem |-> [A |-> 16, B |-> 17],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>>>],l |-> 38,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 20],cut |-> [x |-> 7, y |-> 25, z |-> 12],truth |-> [x |-> <<0, 0, 30, 0>>, y |-> <<40, 41, 26, 36>>, z |-> <<34, 44, 22, 0>>],mem |-> [A |-> 16, B |-> 20],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>>>],l |-> 39,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 20],cut |-> [x |-> 8, y |-> 25, z |-> 12],truth |-> [x |-> <<0, 0, 30, 45>>, y |-> <<40, 41, 26, 36>>, z |-> <<34, 44, 22, 0>>],mem |-> [A |-> 16, B |-> 20],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>>>],l |-> 40,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 0, upto |-> [x |-> 8, y |-> 25, z |-> 12]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 20],cut |-> [x |-> 8, y |-> 25, z |-> 12],truth |-> [x |-> <<0, 0, 30, 45>>, y |-> <<40, 41, 26, 36>>, z |-> <<34, 44, 22, 0>>],mem |-> [A |-> 16, B |-> 20],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>>>],l |-> 41,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 0, upto |-> [x |-> 8, y |-> 25, z |-> 12]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 20],cut |-> [x |-> 8, y |-> 27, z |-> 12],truth |-> [x |-> <<0, 0, 30, 45>>, y |-> <<40, 0, 0, 36>>, z |-> <<34, 44, 22, 0>>],mem |-> [A |-> 16, B |-> 20],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>>>],l |-> 42,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 0, upto |-> [x |-> 8, y |-> 27, z |-> 12]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 21],cut |-> [x |-> 8, y |-> 27, z |-> 15],truth |-> [x |-> <<0, 0, 30, 45>>, y |-> <<40, 0, 0, 36>>, z |-> <<0, 44, 22, 0>>],mem |-> [A |-> 16, B |-> 21],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>>>],l |-> 43,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 21],cut |-> [x |-> 8, y |-> 28, z |-> 15],truth |-> [x |-> <<0, 0, 30, 45>>, y |-> <<40, 0, 54, 36>>, z |-> <<0, 44, 22, 0>>],mem |-> [A |-> 16, B |-> 21],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>>>],l |-> 44,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 0, upto |-> [x |-> 8, y |-> 28, z |-> 15]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 24],cut |-> [x |-> 8, y |-> 28, z |-> 15],truth |-> [x |-> <<0, 0, 30, 45>>, y |-> <<40, 0, 54, 36>>, z |-> <<0, 44, 22, 0>>],mem |-> [A |-> 16, B |-> 24],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>>>],l |-> 45,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 24],cut |-> [x |-> 8, y |-> 31, z |-> 15],truth |-> [x |-> <<0, 0, 30, 45>>, y |-> <<40, 55, 56, 57>>, z |-> <<0, 44, 22, 0>>],mem |-> [A |-> 16, B |-> 24],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>>>],l |-> 46,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 0, upto |-> [x |-> 8, y |-> 31, z |-> 15]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 26],cut |-> [x |-> 8, y |-> 31, z |-> 17],truth |-> [x |-> <<0, 0, 30, 45>>, y |-> <<40, 55, 56, 57>>, z |-> <<59, 44, 0, 0>>],mem |-> [A |-> 16, B |-> 26],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>>>],l |-> 47,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 26],cut |-> [x |-> 8, y |-> 31, z |-> 17],truth |-> [x |-> <<0, 0, 30, 45>>, y |-> <<40, 55, 56, 57>>, z |-> <<59, 44, 0, 0>>],mem |-> [A |-> 16, B |-> 26],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>>>],l |-> 48,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 26],cut |-> [x |-> 8, y |-> 31, z |-> 17],truth |-> [x |-> <<0, 0, 30, 45>>, y |-> <<40, 55, 56, 57>>, z |-> <<59, 44, 0, 0>>],mem |-> [A |-> 16, B |-> 26],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>>>],l |-> 49,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 26],cut |-> [x |-> 8, y |-> 31, z |-> 17],truth |-> [x |-> <<0, 0, 30, 45>>, y |-> <<40, 55, 56, 57>>, z |-> <<59, 44, 0, 0>>],mem |-> [A |-> 16, B |-> 26],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>>>],l |-> 50,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 19, B |-> 26],cut |-> [x |-> 8, y |-> 31, z |-> 18],truth |-> [x |-> <<0, 0, 30, 45>>, y |-> <<40, 55, 56, 57>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 19, B |-> 26],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 51,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 19, B |-> 26],cut |-> [x |-> 10, y |-> 31, z |-> 18],truth |-> [x |-> <<62, 61, 30, 0>>, y |-> <<40, 55, 56, 57>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 19, B |-> 26],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>, <<4, 2, 61>>, <<0, 1, 62>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 52,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 0, upto |-> [x |-> 10, y |-> 31, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 22, B |-> 26],cut |-> [x |-> 10, y |-> 31, z |-> 18],truth |-> [x |-> <<62, 61, 30, 0>>, y |-> <<40, 55, 56, 57>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 22, B |-> 26],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>, <<4, 2, 61>>, <<0, 1, 62>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 53,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 22, upto |-> [x |-> 10, y |-> 31, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 22, B |-> 27],cut |-> [x |-> 11, y |-> 31, z |-> 18],truth |-> [x |-> <<62, 61, 30, 63>>, y |-> <<40, 55, 56, 57>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 22, B |-> 27],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>, <<4, 2, 61>>, <<0, 1, 62>>, <<0, 4, 63>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 54,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 22, upto |-> [x |-> 10, y |-> 31, z |-> 18]], [o |-> "B", seq |-> 27, upto |-> [x |-> 11, y |-> 31, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 25, B |-> 27],cut |-> [x |-> 12, y |-> 31, z |-> 18],truth |-> [x |-> <<62, 61, 0, 63>>, y |-> <<40, 55, 56, 57>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 25, B |-> 27],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>, <<4, 2, 61>>, <<0, 1, 62>>, <<0, 4, 63>>, <<3, 0, 64>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 55,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 22, upto |-> [x |-> 10, y |-> 31, z |-> 18]], [o |-> "B", seq |-> 27, upto |-> [x |-> 11, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 25, upto |-> [x |-> 12, y |-> 31, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 25, B |-> 27],cut |-> [x |-> 12, y |-> 32, z |-> 18],truth |-> [x |-> <<62, 61, 0, 63>>, y |-> <<0, 55, 56, 57>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 25, B |-> 27],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>, <<4, 2, 61>>, <<0, 1, 62>>, <<0, 4, 63>>, <<3, 0, 64>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>, <<1, 0, 65>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 56,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 22, upto |-> [x |-> 10, y |-> 31, z |-> 18]], [o |-> "B", seq |-> 27, upto |-> [x |-> 11, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 25, upto |-> [x |-> 12, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 0, upto |-> [x |-> 12, y |-> 32, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 27],cut |-> [x |-> 12, y |-> 32, z |-> 18],truth |-> [x |-> <<62, 61, 0, 63>>, y |-> <<0, 55, 56, 57>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 28, B |-> 27],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>, <<4, 2, 61>>, <<0, 1, 62>>, <<0, 4, 63>>, <<3, 0, 64>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>, <<1, 0, 65>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 57,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 22, upto |-> [x |-> 10, y |-> 31, z |-> 18]], [o |-> "B", seq |-> 27, upto |-> [x |-> 11, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 25, upto |-> [x |-> 12, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 28, upto |-> [x |-> 12, y |-> 32, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 27],cut |-> [x |-> 12, y |-> 32, z |-> 18],truth |-> [x |-> <<62, 61, 0, 63>>, y |-> <<0, 55, 56, 57>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 28, B |-> 27],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>, <<4, 2, 61>>, <<0, 1, 62>>, <<0, 4, 63>>, <<3, 0, 64>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>, <<1, 0, 65>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 58,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 22, upto |-> [x |-> 10, y |-> 31, z |-> 18]], [o |-> "B", seq |-> 27, upto |-> [x |-> 11, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 25, upto |-> [x |-> 12, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 28, upto |-> [x |-> 12, y |-> 32, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 27],cut |-> [x |-> 12, y |-> 33, z |-> 18],truth |-> [x |-> <<62, 61, 0, 63>>, y |-> <<0, 55, 56, 66>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 28, B |-> 27],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>, <<4, 2, 61>>, <<0, 1, 62>>, <<0, 4, 63>>, <<3, 0, 64>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>, <<1, 0, 65>>, <<4, 4, 66>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 59,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 22, upto |-> [x |-> 10, y |-> 31, z |-> 18]], [o |-> "B", seq |-> 27, upto |-> [x |-> 11, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 25, upto |-> [x |-> 12, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 28, upto |-> [x |-> 12, y |-> 32, z |-> 18]], [o |-> "A", seq |-> 0, upto |-> [x |-> 12, y |-> 33, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 27],cut |-> [x |-> 14, y |-> 33, z |-> 18],truth |-> [x |-> <<62, 61, 67, 68>>, y |-> <<0, 55, 56, 66>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 28, B |-> 27],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>, <<4, 2, 61>>, <<0, 1, 62>>, <<0, 4, 63>>, <<3, 0, 64>>, <<0, 3, 67>>, <<4, 4, 68>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>, <<1, 0, 65>>, <<4, 4, 66>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 60,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 22, upto |-> [x |-> 10, y |-> 31, z |-> 18]], [o |-> "B", seq |-> 27, upto |-> [x |-> 11, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 25, upto |-> [x |-> 12, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 28, upto |-> [x |-> 12, y |-> 32, z |-> 18]], [o |-> "A", seq |-> 0, upto |-> [x |-> 14, y |-> 33, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 27],cut |-> [x |-> 15, y |-> 33, z |-> 18],truth |-> [x |-> <<62, 61, 0, 68>>, y |-> <<0, 55, 56, 66>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 30, B |-> 27],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>, <<4, 2, 61>>, <<0, 1, 62>>, <<0, 4, 63>>, <<3, 0, 64>>, <<0, 3, 67>>, <<4, 4, 68>>, <<3, 0, 69>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>, <<1, 0, 65>>, <<4, 4, 66>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 61,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 22, upto |-> [x |-> 10, y |-> 31, z |-> 18]], [o |-> "B", seq |-> 27, upto |-> [x |-> 11, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 25, upto |-> [x |-> 12, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 28, upto |-> [x |-> 12, y |-> 32, z |-> 18]], [o |-> "A", seq |-> 30, upto |-> [x |-> 15, y |-> 33, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 27],cut |-> [x |-> 15, y |-> 34, z |-> 18],truth |-> [x |-> <<62, 61, 0, 68>>, y |-> <<70, 55, 56, 66>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 30, B |-> 27],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>, <<4, 2, 61>>, <<0, 1, 62>>, <<0, 4, 63>>, <<3, 0, 64>>, <<0, 3, 67>>, <<4, 4, 68>>, <<3, 0, 69>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>, <<1, 0, 65>>, <<4, 4, 66>>, <<0, 1, 70>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 62,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 22, upto |-> [x |-> 10, y |-> 31, z |-> 18]], [o |-> "B", seq |-> 27, upto |-> [x |-> 11, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 25, upto |-> [x |-> 12, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 28, upto |-> [x |-> 12, y |-> 32, z |-> 18]], [o |-> "A", seq |-> 30, upto |-> [x |-> 15, y |-> 33, z |-> 18]], [o |-> "B", seq |-> 0, upto |-> [x |-> 15, y |-> 34, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 28],cut |-> [x |-> 15, y |-> 34, z |-> 18],truth |-> [x |-> <<62, 61, 0, 68>>, y |-> <<70, 55, 56, 66>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 30, B |-> 28],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>, <<4, 2, 61>>, <<0, 1, 62>>, <<0, 4, 63>>, <<3, 0, 64>>, <<0, 3, 67>>, <<4, 4, 68>>, <<3, 0, 69>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>, <<1, 0, 65>>, <<4, 4, 66>>, <<0, 1, 70>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 63,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 22, upto |-> [x |-> 10, y |-> 31, z |-> 18]], [o |-> "B", seq |-> 27, upto |-> [x |-> 11, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 25, upto |-> [x |-> 12, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 28, upto |-> [x |-> 12, y |-> 32, z |-> 18]], [o |-> "A", seq |-> 30, upto |-> [x |-> 15, y |-> 33, z |-> 18]], [o |-> "B", seq |-> 28, upto |-> [x |-> 15, y |-> 34, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 28],cut |-> [x |-> 15, y |-> 34, z |-> 18],truth |-> [x |-> <<62, 61, 0, 68>>, y |-> <<70, 55, 56, 66>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 30, B |-> 28],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>, <<4, 2, 61>>, <<0, 1, 62>>, <<0, 4, 63>>, <<3, 0, 64>>, <<0, 3, 67>>, <<4, 4, 68>>, <<3, 0, 69>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>, <<1, 0, 65>>, <<4, 4, 66>>, <<0, 1, 70>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 64,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 22, upto |-> [x |-> 10, y |-> 31, z |-> 18]], [o |-> "B", seq |-> 27, upto |-> [x |-> 11, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 25, upto |-> [x |-> 12, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 28, upto |-> [x |-> 12, y |-> 32, z |-> 18]], [o |-> "A", seq |-> 30, upto |-> [x |-> 15, y |-> 33, z |-> 18]], [o |-> "B", seq |-> 28, upto |-> [x |-> 15, y |-> 34, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 28],cut |-> [x |-> 15, y |-> 34, z |-> 18],truth |-> [x |-> <<62, 61, 0, 68>>, y |-> <<70, 55, 56, 66>>, z |-> <<59, 44, 60, 0>>],mem |-> [A |-> 30, B |-> 28],log |-> [x |-> <<<<0, 2, 23>>, <<0, 3, 24>>, <<2, 2, 25>>, <<2, 0, 29>>, <<3, 3, 30>>, <<0, 4, 31>>, <<4, 0, 42>>, <<0, 4, 45>>, <<4, 2, 61>>, <<0, 1, 62>>, <<0, 4, 63>>, <<3, 0, 64>>, <<0, 3, 67>>, <<4, 4, 68>>, <<3, 0, 69>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>, <<3, 3, 10>>, <<0, 1, 11>>, <<1, 1, 12>>, <<3, 0, 13>>, <<1, 1, 14>>, <<1, 3, 15>>, <<0, 1, 16>>, <<0, 2, 17>>, <<0, 4, 18>>, <<1, 0, 19>>, <<0, 1, 20>>, <<3, 3, 26>>, <<1, 1, 27>>, <<4, 0, 28>>, <<2, 2, 32>>, <<0, 4, 35>>, <<4, 4, 36>>, <<2, 0, 37>>, <<0, 2, 38>>, <<1, 0, 39>>, <<0, 1, 40>>, <<2, 2, 41>>, <<3, 0, 49>>, <<2, 0, 50>>, <<0, 3, 54>>, <<0, 2, 55>>, <<3, 3, 56>>, <<4, 4, 57>>, <<1, 0, 65>>, <<4, 4, 66>>, <<0, 1, 70>>>>, z |-> <<<<0, 4, 4>>, <<4, 2, 5>>, <<0, 4, 6>>, <<2, 3, 7>>, <<0, 2, 8>>, <<2, 2, 9>>, <<3, 1, 21>>, <<0, 3, 22>>, <<1, 1, 33>>, <<1, 1, 34>>, <<2, 0, 43>>, <<4, 2, 44>>, <<0, 4, 51>>, <<1, 0, 52>>, <<4, 0, 53>>, <<3, 0, 58>>, <<0, 1, 59>>, <<0, 3, 60>>>>],l |-> 65,txs |-> <<[o |-> "B", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 0]], [o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 3, z |-> 4]], [o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 3, z |-> 6]], [o |-> "A", seq |-> 3, upto |-> [x |-> 0, y |-> 4, z |-> 6]], [o |-> "B", seq |-> 4, upto |-> [x |-> 0, y |-> 7, z |-> 6]], [o |-> "A", seq |-> 5, upto |-> [x |-> 0, y |-> 9, z |-> 6]], [o |-> "A", seq |-> 6, upto |-> [x |-> 0, y |-> 13, z |-> 6]], [o |-> "A", seq |-> 9, upto |-> [x |-> 0, y |-> 14, z |-> 6]], [o |-> "A", seq |-> 10, upto |-> [x |-> 0, y |-> 14, z |-> 8]], [o |-> "B", seq |-> 7, upto |-> [x |-> 3, y |-> 17, z |-> 8]], [o |-> "A", seq |-> 11, upto |-> [x |-> 4, y |-> 17, z |-> 8]], [o |-> "B", seq |-> 8, upto |-> [x |-> 6, y |-> 18, z |-> 8]], [o |-> "B", seq |-> 11, upto |-> [x |-> 6, y |-> 18, z |-> 10]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 19, z |-> 10]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 22, z |-> 10]], [o |-> "A", seq |-> 16, upto |-> [x |-> 6, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 14, upto |-> [x |-> 7, y |-> 25, z |-> 10]], [o |-> "B", seq |-> 17, upto |-> [x |-> 7, y |-> 25, z |-> 11]], [o |-> "B", seq |-> 20, upto |-> [x |-> 7, y |-> 25, z |-> 12]], [o |-> "B", seq |-> 21, upto |-> [x |-> 8, y |-> 27, z |-> 15]], [o |-> "B", seq |-> 24, upto |-> [x |-> 8, y |-> 28, z |-> 15]], [o |-> "B", seq |-> 26, upto |-> [x |-> 8, y |-> 31, z |-> 17]], [o |-> "A", seq |-> 19, upto |-> [x |-> 8, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 22, upto |-> [x |-> 10, y |-> 31, z |-> 18]], [o |-> "B", seq |-> 27, upto |-> [x |-> 11, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 25, upto |-> [x |-> 12, y |-> 31, z |-> 18]], [o |-> "A", seq |-> 28, upto |-> [x |-> 12, y |-> 32, z |-> 18]], [o |-> "A", seq |-> 30, upto |-> [x |-> 15, y |-> 33, z |-> 18]], [o |-> "B", seq |-> 28, upto |-> [x |-> 15, y |-> 34, z |-> 18]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 66,txs |-> <<>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 3, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>>>, z |-> <<>>],l |-> 67,txs |-> <<[o |-> "B", seq |-> 0, upto |-> [x |-> 0, y |-> 3, z |-> 0]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 2, y |-> 0, z |-> 0],truth |-> [x |-> <<5, 0, 0, 0>>, y |-> <<0, 0, 3, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<<<0, 1, 4>>, <<1, 1, 5>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>>>, z |-> <<>>],l |-> 68,txs |-> <<[o |-> "B", seq |-> 0, upto |-> [x |-> 2, y |-> 3, z |-> 0]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 2, y |-> 0, z |-> 0],truth |-> [x |-> <<5, 0, 0, 0>>, y |-> <<0, 0, 3, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 2],log |-> [x |-> <<<<0, 1, 4>>, <<1, 1, 5>>>>, y |-> <<<<0, 3, 1>>, <<3, 0, 2>>, <<0, 3, 3>>>>, z |-> <<>>],l |-> 69,txs |-> <<[o |-> "B", seq |-> 2, upto |-> [x |-> 2, y |-> 3, z |-> 0]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]])
    >>
----


=============================================================================

---- CONFIG SyncTrace_TTrace_1795076452 ----

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 08:20:53 UTC 2026