---- MODULE SyncTrace_TTrace_1795076965 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, SyncTrace

_expression ==
    LET SyncTrace_TEExpression == INSTANCE SyncTrace_TEExpression
    IN SyncTrace_TEExpression!expression
----

_trace ==
    LET SyncTrace_TETrace == INSTANCE SyncTrace_TETrace
    IN SyncTrace_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        dur = ([A |-> 0, B |-> 0])
        /\
        cut = ([x |-> 3, y |-> 0, z |-> 0])
        /\
        truth = ([x |-> <<0, 4, 0, 3>>, y |-> <<0, 0, 0, 0>>, z |-> <<1, 0, 0, 0>>])
        /\
        mem = ([A |-> 3, B |-> 0])
        /\
        log = ([x |-> <<<<0, 1, 2>>, <<0, 4, 3>>, <<1, 2, 4>>>>, y |-> <<>>, z |-> <<<<0, 1, 1>>>>])
        /\
        l = (69)
        /\
        txs = (<<[o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 0, z |-> 1]]>>)
        /\
        base = ([x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>])
    )
----

_init ==
    /\ txs = _TETrace[1].txs
    /\ cut = _TETrace[1].cut
    /\ truth = _TETrace[1].truth
    /\ log = _TETrace[1].log
    /\ l = _TETrace[1].l
    /\ dur = _TETrace[1].dur
    /\ base = _TETrace[1].base
    /\ mem = _TETrace[1].mem
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ txs  = _TETrace[i].txs
        /\ txs' = _TETrace[j].txs
        /\ cut  = _TETrace[i].cut
        /\ cut' = _TETrace[j].cut
        /\ truth  = _TETrace[i].truth
        /\ truth' = _TETrace[j].truth
        /\ log  = _TETrace[i].log
        /\ log' = _TETrace[j].log
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ dur  = _TETrace[i].dur
        /\ dur' = _TETrace[j].dur
        /\ base  = _TETrace[i].base
        /\ base' = _TETrace[j].base
        /\ mem  = _TETrace[i].mem
        /\ mem' = _TETrace[j].mem

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("SyncTrace_TTrace_1795076965.json", _TETrace)

=============================================================================

 Note that you can extract this module `SyncTrace_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `SyncTrace_TEExpression.tla` file takes precedence 
  over the module `SyncTrace_TEExpression` below).

---- MODULE SyncTrace_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, SyncTrace

expression == 
    [
        \* To hide variables of the `SyncTrace` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        txs |-> txs
        ,cut |-> cut
        ,truth |-> truth
        ,log |-> log
        ,l |-> l
        ,dur |-> dur
        ,base |-> base
        ,mem |-> mem
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_txsUnchanged |-> txs = txs'
        
        \* Format the `txs` variable as Json value.
        \* ,_txsJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(txs)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_txsModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].txs # _TETrace[s-1].txs
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE SyncTrace_TETrace ----
\*EXTENDS IOUtils, TLC, SyncTrace
\*
\*trace == IODeserialize("SyncTrace_TTrace_1795076965.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE SyncTrace_TETrace ----
EXTENDS TLC, SyncTrace

trace == 
    <<
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 1,txs |-> <<>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 2,txs |-> <<>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 2, 3, 0>>],mem |-> [A |-> 0, B |-> 3],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>>>],l |-> 3,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 2, 3, 0>>],mem |-> [A |-> 0, B |-> 3],log |-> [x |-> <<>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>>>],l |-> 4,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 0, upto |-> [x |-> 0, y |-> 2, z |-> 3]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 2, 3, 0>>],mem |-> [A |-> 0, B |-> 3],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>>>],l |-> 5,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 0, upto |-> [x |-> 2, y |-> 2, z |-> 3]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 2, 3, 0>>],mem |-> [A |-> 0, B |-> 4],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>>>],l |-> 6,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 11>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 2, 3, 0>>],mem |-> [A |-> 0, B |-> 4],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>>>],l |-> 7,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 0, upto |-> [x |-> 3, y |-> 5, z |-> 3]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 11>>, y |-> <<13, 0, 14, 12>>, z |-> <<0, 2, 3, 0>>],mem |-> [A |-> 0, B |-> 5],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>>>],l |-> 8,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 11>>, y |-> <<13, 0, 14, 12>>, z |-> <<0, 2, 3, 0>>],mem |-> [A |-> 0, B |-> 5],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>>>],l |-> 9,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 11>>, y |-> <<17, 16, 0, 12>>, z |-> <<0, 2, 3, 0>>],mem |-> [A |-> 3, B |-> 5],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>>>],l |-> 10,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 3],cut |-> [x |-> 0, y |-> 11, z |-> 4],truth |-> [x |-> <<0, 0, 0, 11>>, y |-> <<17, 16, 0, 12>>, z |-> <<0, 2, 3, 18>>],mem |-> [A |-> 5, B |-> 5],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>>>],l |-> 11,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 3],cut |-> [x |-> 0, y |-> 11, z |-> 4],truth |-> [x |-> <<0, 0, 0, 11>>, y |-> <<17, 16, 0, 12>>, z |-> <<19, 2, 3, 0>>],mem |-> [A |-> 5, B |-> 8],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>>>],l |-> 12,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 5, B |-> 8],cut |-> [x |-> 3, y |-> 11, z |-> 7],truth |-> [x |-> <<0, 0, 0, 11>>, y |-> <<17, 16, 0, 12>>, z |-> <<19, 0, 21, 20>>],mem |-> [A |-> 5, B |-> 8],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>>>],l |-> 13,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 0, upto |-> [x |-> 3, y |-> 11, z |-> 7]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 5, B |-> 10],cut |-> [x |-> 3, y |-> 11, z |-> 7],truth |-> [x |-> <<0, 0, 0, 11>>, y |-> <<17, 16, 0, 12>>, z |-> <<19, 0, 21, 20>>],mem |-> [A |-> 5, B |-> 10],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>>>],l |-> 14,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 5, B |-> 10],cut |-> [x |-> 3, y |-> 11, z |-> 7],truth |-> [x |-> <<0, 0, 0, 11>>, y |-> <<17, 16, 24, 0>>, z |-> <<19, 0, 21, 20>>],mem |-> [A |-> 5, B |-> 10],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>>>],l |-> 15,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 0, upto |-> [x |-> 3, y |-> 14, z |-> 7]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 5, B |-> 10],cut |-> [x |-> 3, y |-> 11, z |-> 7],truth |-> [x |-> <<0, 0, 0, 11>>, y |-> <<17, 16, 24, 0>>, z |-> <<19, 0, 21, 20>>],mem |-> [A |-> 7, B |-> 10],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>>>],l |-> 16,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 5, B |-> 10],cut |-> [x |-> 3, y |-> 11, z |-> 7],truth |-> [x |-> <<0, 0, 0, 11>>, y |-> <<17, 16, 24, 25>>, z |-> <<19, 0, 21, 20>>],mem |-> [A |-> 10, B |-> 10],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>>>],l |-> 17,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 5, B |-> 10],cut |-> [x |-> 6, y |-> 11, z |-> 7],truth |-> [x |-> <<27, 0, 26, 0>>, y |-> <<17, 16, 24, 25>>, z |-> <<19, 0, 21, 20>>],mem |-> [A |-> 12, B |-> 10],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>>>],l |-> 18,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 5, B |-> 10],cut |-> [x |-> 6, y |-> 11, z |-> 7],truth |-> [x |-> <<27, 0, 26, 0>>, y |-> <<17, 16, 0, 25>>, z |-> <<19, 0, 21, 20>>],mem |-> [A |-> 12, B |-> 12],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>>>],l |-> 19,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 12, B |-> 15],cut |-> [x |-> 6, y |-> 16, z |-> 9],truth |-> [x |-> <<27, 0, 26, 0>>, y |-> <<17, 16, 0, 25>>, z |-> <<0, 30, 31, 20>>],mem |-> [A |-> 12, B |-> 15],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>>>],l |-> 20,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 12, B |-> 15],cut |-> [x |-> 6, y |-> 16, z |-> 9],truth |-> [x |-> <<27, 0, 26, 0>>, y |-> <<17, 16, 0, 25>>, z |-> <<34, 33, 31, 20>>],mem |-> [A |-> 12, B |-> 17],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>>>],l |-> 21,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 12, B |-> 15],cut |-> [x |-> 6, y |-> 16, z |-> 9],truth |-> [x |-> <<27, 0, 26, 0>>, y |-> <<17, 16, 35, 25>>, z |-> <<34, 33, 31, 20>>],mem |-> [A |-> 13, B |-> 17],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>>>],l |-> 22,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 12, B |-> 15],cut |-> [x |-> 6, y |-> 16, z |-> 9],truth |-> [x |-> <<27, 0, 26, 36>>, y |-> <<17, 16, 35, 25>>, z |-> <<34, 33, 31, 20>>],mem |-> [A |-> 13, B |-> 17],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>>>],l |-> 23,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 0, upto |-> [x |-> 9, y |-> 17, z |-> 12]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 12, B |-> 15],cut |-> [x |-> 6, y |-> 16, z |-> 9],truth |-> [x |-> <<27, 0, 26, 36>>, y |-> <<17, 16, 35, 25>>, z |-> <<34, 33, 31, 20>>],mem |-> [A |-> 14, B |-> 17],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>>>],l |-> 24,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 12, B |-> 15],cut |-> [x |-> 6, y |-> 20, z |-> 9],truth |-> [x |-> <<27, 0, 26, 36>>, y |-> <<17, 41, 0, 0>>, z |-> <<34, 33, 31, 20>>],mem |-> [A |-> 14, B |-> 17],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>>>],l |-> 25,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 0, upto |-> [x |-> 9, y |-> 20, z |-> 12]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 12, B |-> 15],cut |-> [x |-> 6, y |-> 20, z |-> 9],truth |-> [x |-> <<27, 0, 26, 36>>, y |-> <<17, 41, 0, 0>>, z |-> <<34, 33, 31, 20>>],mem |-> [A |-> 16, B |-> 17],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>>>],l |-> 26,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 13, B |-> 17],cut |-> [x |-> 6, y |-> 20, z |-> 14],truth |-> [x |-> <<27, 0, 26, 36>>, y |-> <<17, 41, 0, 0>>, z |-> <<34, 33, 43, 20>>],mem |-> [A |-> 16, B |-> 17],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>>>],l |-> 27,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 0, upto |-> [x |-> 9, y |-> 20, z |-> 14]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 13, B |-> 17],cut |-> [x |-> 6, y |-> 20, z |-> 14],truth |-> [x |-> <<27, 0, 26, 36>>, y |-> <<17, 41, 0, 0>>, z |-> <<34, 0, 43, 20>>],mem |-> [A |-> 18, B |-> 17],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>>>],l |-> 28,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 13, B |-> 17],cut |-> [x |-> 6, y |-> 23, z |-> 14],truth |-> [x |-> <<27, 0, 26, 36>>, y |-> <<17, 41, 46, 0>>, z |-> <<34, 0, 43, 20>>],mem |-> [A |-> 19, B |-> 17],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>>>],l |-> 29,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 13, B |-> 17],cut |-> [x |-> 6, y |-> 23, z |-> 14],truth |-> [x |-> <<27, 0, 26, 36>>, y |-> <<17, 41, 46, 0>>, z |-> <<34, 0, 43, 20>>],mem |-> [A |-> 19, B |-> 17],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>>>],l |-> 30,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 13, B |-> 17],cut |-> [x |-> 6, y |-> 23, z |-> 14],truth |-> [x |-> <<27, 0, 26, 36>>, y |-> <<17, 41, 46, 0>>, z |-> <<34, 0, 48, 20>>],mem |-> [A |-> 21, B |-> 17],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>>>],l |-> 31,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 17],cut |-> [x |-> 11, y |-> 23, z |-> 14],truth |-> [x |-> <<50, 49, 0, 36>>, y |-> <<17, 41, 46, 0>>, z |-> <<34, 0, 48, 20>>],mem |-> [A |-> 21, B |-> 17],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>>>],l |-> 32,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 0, upto |-> [x |-> 11, y |-> 23, z |-> 16]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 17],cut |-> [x |-> 14, y |-> 23, z |-> 14],truth |-> [x |-> <<0, 49, 51, 52>>, y |-> <<17, 41, 46, 0>>, z |-> <<34, 0, 48, 20>>],mem |-> [A |-> 21, B |-> 17],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>>>],l |-> 33,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 0, upto |-> [x |-> 14, y |-> 23, z |-> 16]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 17],cut |-> [x |-> 16, y |-> 23, z |-> 14],truth |-> [x |-> <<54, 49, 0, 52>>, y |-> <<17, 41, 46, 0>>, z |-> <<34, 0, 48, 20>>],mem |-> [A |-> 21, B |-> 20],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>>>],l |-> 34,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 16, B |-> 17],cut |-> [x |-> 16, y |-> 23, z |-> 14],truth |-> [x |-> <<54, 49, 0, 52>>, y |-> <<17, 41, 46, 0>>, z |-> <<34, 0, 58, 20>>],mem |-> [A |-> 21, B |-> 20],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>>>],l |-> 35,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 0, upto |-> [x |-> 16, y |-> 23, z |-> 19]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 24, B |-> 20],cut |-> [x |-> 16, y |-> 23, z |-> 19],truth |-> [x |-> <<54, 49, 0, 52>>, y |-> <<17, 41, 46, 0>>, z |-> <<34, 0, 58, 20>>],mem |-> [A |-> 24, B |-> 20],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>>>],l |-> 36,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 24, B |-> 20],cut |-> [x |-> 16, y |-> 23, z |-> 19],truth |-> [x |-> <<54, 49, 0, 52>>, y |-> <<17, 0, 46, 0>>, z |-> <<34, 0, 58, 20>>],mem |-> [A |-> 24, B |-> 20],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>>>],l |-> 37,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 0, upto |-> [x |-> 16, y |-> 24, z |-> 19]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 24, B |-> 20],cut |-> [x |-> 16, y |-> 23, z |-> 19],truth |-> [x |-> <<54, 49, 0, 52>>, y |-> <<0, 0, 46, 0>>, z |-> <<34, 0, 58, 20>>],mem |-> [A |-> 25, B |-> 20],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>>>],l |-> 38,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 24, B |-> 20],cut |-> [x |-> 16, y |-> 23, z |-> 19],truth |-> [x |-> <<54, 49, 0, 52>>, y |-> <<0, 0, 46, 0>>, z |-> <<34, 0, 58, 20>>],mem |-> [A |-> 25, B |-> 20],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>>>],l |-> 39,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 20],cut |-> [x |-> 16, y |-> 29, z |-> 19],truth |-> [x |-> <<54, 49, 0, 52>>, y |-> <<64, 0, 46, 0>>, z |-> <<34, 0, 58, 20>>],mem |-> [A |-> 28, B |-> 20],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>>>],l |-> 40,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 20],cut |-> [x |-> 16, y |-> 29, z |-> 19],truth |-> [x |-> <<54, 49, 0, 52>>, y |-> <<64, 0, 46, 0>>, z |-> <<34, 0, 58, 20>>],mem |-> [A |-> 28, B |-> 20],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>>>],l |-> 41,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 20],cut |-> [x |-> 16, y |-> 29, z |-> 19],truth |-> [x |-> <<54, 49, 0, 52>>, y |-> <<64, 0, 46, 0>>, z |-> <<34, 65, 58, 20>>],mem |-> [A |-> 28, B |-> 23],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>>>],l |-> 42,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 20],cut |-> [x |-> 16, y |-> 29, z |-> 19],truth |-> [x |-> <<66, 49, 0, 52>>, y |-> <<64, 0, 46, 0>>, z |-> <<34, 65, 58, 20>>],mem |-> [A |-> 28, B |-> 23],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>>>],l |-> 43,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 0, upto |-> [x |-> 17, y |-> 29, z |-> 20]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 20],cut |-> [x |-> 16, y |-> 29, z |-> 19],truth |-> [x |-> <<66, 49, 0, 52>>, y |-> <<64, 0, 46, 0>>, z |-> <<34, 65, 58, 20>>],mem |-> [A |-> 28, B |-> 23],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>>>],l |-> 44,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 0, upto |-> [x |-> 17, y |-> 29, z |-> 20]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 20],cut |-> [x |-> 16, y |-> 29, z |-> 19],truth |-> [x |-> <<66, 49, 0, 0>>, y |-> <<64, 0, 46, 0>>, z |-> <<34, 65, 58, 20>>],mem |-> [A |-> 30, B |-> 23],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>>>],l |-> 45,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 20],cut |-> [x |-> 16, y |-> 29, z |-> 19],truth |-> [x |-> <<66, 49, 68, 69>>, y |-> <<64, 0, 46, 0>>, z |-> <<34, 65, 58, 20>>],mem |-> [A |-> 30, B |-> 26],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>>>],l |-> 46,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 20],cut |-> [x |-> 16, y |-> 29, z |-> 19],truth |-> [x |-> <<66, 0, 68, 70>>, y |-> <<64, 0, 46, 0>>, z |-> <<34, 65, 58, 20>>],mem |-> [A |-> 30, B |-> 28],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>>>],l |-> 47,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 28, B |-> 20],cut |-> [x |-> 22, y |-> 29, z |-> 19],truth |-> [x |-> <<66, 0, 68, 70>>, y |-> <<64, 0, 46, 0>>, z |-> <<34, 73, 58, 74>>],mem |-> [A |-> 30, B |-> 29],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>>>],l |-> 48,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 29],cut |-> [x |-> 22, y |-> 29, z |-> 23],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<64, 0, 46, 0>>, z |-> <<34, 73, 58, 74>>],mem |-> [A |-> 31, B |-> 29],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>>>],l |-> 49,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 29],cut |-> [x |-> 22, y |-> 29, z |-> 23],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<78, 0, 46, 79>>, z |-> <<34, 73, 58, 74>>],mem |-> [A |-> 31, B |-> 30],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>>>],l |-> 50,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 29],cut |-> [x |-> 22, y |-> 29, z |-> 23],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<78, 0, 46, 79>>, z |-> <<34, 73, 58, 74>>],mem |-> [A |-> 31, B |-> 30],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>>>],l |-> 51,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 29],cut |-> [x |-> 22, y |-> 29, z |-> 23],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<78, 0, 46, 79>>, z |-> <<34, 73, 58, 74>>],mem |-> [A |-> 31, B |-> 30],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>>>],l |-> 52,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 29],cut |-> [x |-> 22, y |-> 32, z |-> 23],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<78, 80, 0, 79>>, z |-> <<34, 73, 58, 74>>],mem |-> [A |-> 32, B |-> 30],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>, <<3, 2, 80>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>>>],l |-> 53,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]], [o |-> "A", seq |-> 32, upto |-> [x |-> 25, y |-> 32, z |-> 23]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 29],cut |-> [x |-> 22, y |-> 32, z |-> 23],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<78, 80, 0, 79>>, z |-> <<34, 73, 58, 74>>],mem |-> [A |-> 32, B |-> 30],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>, <<3, 2, 80>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>>>],l |-> 54,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]], [o |-> "A", seq |-> 32, upto |-> [x |-> 25, y |-> 32, z |-> 23]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 29],cut |-> [x |-> 22, y |-> 32, z |-> 23],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<78, 80, 0, 79>>, z |-> <<0, 73, 58, 74>>],mem |-> [A |-> 32, B |-> 30],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>, <<3, 2, 80>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>, <<1, 0, 81>>>>],l |-> 55,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]], [o |-> "A", seq |-> 32, upto |-> [x |-> 25, y |-> 32, z |-> 23]], [o |-> "B", seq |-> 0, upto |-> [x |-> 25, y |-> 32, z |-> 24]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 29],cut |-> [x |-> 22, y |-> 32, z |-> 23],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<78, 80, 0, 79>>, z |-> <<0, 73, 58, 74>>],mem |-> [A |-> 32, B |-> 30],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>, <<3, 2, 80>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>, <<1, 0, 81>>>>],l |-> 56,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]], [o |-> "A", seq |-> 32, upto |-> [x |-> 25, y |-> 32, z |-> 23]], [o |-> "B", seq |-> 0, upto |-> [x |-> 25, y |-> 32, z |-> 24]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 29],cut |-> [x |-> 22, y |-> 34, z |-> 23],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<78, 80, 84, 83>>, z |-> <<0, 73, 58, 74>>],mem |-> [A |-> 32, B |-> 30],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>, <<3, 2, 80>>, <<4, 4, 83>>, <<0, 3, 84>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>, <<1, 0, 81>>>>],l |-> 57,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]], [o |-> "A", seq |-> 32, upto |-> [x |-> 25, y |-> 32, z |-> 23]], [o |-> "B", seq |-> 0, upto |-> [x |-> 25, y |-> 34, z |-> 24]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 29],cut |-> [x |-> 22, y |-> 34, z |-> 27],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<78, 80, 84, 83>>, z |-> <<85, 73, 58, 87>>],mem |-> [A |-> 32, B |-> 30],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>, <<3, 2, 80>>, <<4, 4, 83>>, <<0, 3, 84>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>, <<1, 0, 81>>, <<0, 1, 85>>, <<4, 0, 86>>, <<0, 4, 87>>>>],l |-> 58,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]], [o |-> "A", seq |-> 32, upto |-> [x |-> 25, y |-> 32, z |-> 23]], [o |-> "B", seq |-> 0, upto |-> [x |-> 25, y |-> 34, z |-> 27]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 29],cut |-> [x |-> 22, y |-> 34, z |-> 27],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<78, 80, 84, 83>>, z |-> <<85, 73, 58, 87>>],mem |-> [A |-> 32, B |-> 33],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>, <<3, 2, 80>>, <<4, 4, 83>>, <<0, 3, 84>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>, <<1, 0, 81>>, <<0, 1, 85>>, <<4, 0, 86>>, <<0, 4, 87>>>>],l |-> 59,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]], [o |-> "A", seq |-> 32, upto |-> [x |-> 25, y |-> 32, z |-> 23]], [o |-> "B", seq |-> 33, upto |-> [x |-> 25, y |-> 34, z |-> 27]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 29],cut |-> [x |-> 22, y |-> 34, z |-> 27],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<78, 80, 84, 83>>, z |-> <<85, 89, 58, 0>>],mem |-> [A |-> 33, B |-> 33],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>, <<3, 2, 80>>, <<4, 4, 83>>, <<0, 3, 84>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>, <<1, 0, 81>>, <<0, 1, 85>>, <<4, 0, 86>>, <<0, 4, 87>>, <<4, 0, 88>>, <<2, 2, 89>>>>],l |-> 60,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]], [o |-> "A", seq |-> 32, upto |-> [x |-> 25, y |-> 32, z |-> 23]], [o |-> "B", seq |-> 33, upto |-> [x |-> 25, y |-> 34, z |-> 27]], [o |-> "A", seq |-> 33, upto |-> [x |-> 25, y |-> 34, z |-> 29]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 29],cut |-> [x |-> 22, y |-> 35, z |-> 27],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<0, 80, 84, 83>>, z |-> <<85, 89, 58, 0>>],mem |-> [A |-> 33, B |-> 36],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>, <<3, 2, 80>>, <<4, 4, 83>>, <<0, 3, 84>>, <<1, 0, 90>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>, <<1, 0, 81>>, <<0, 1, 85>>, <<4, 0, 86>>, <<0, 4, 87>>, <<4, 0, 88>>, <<2, 2, 89>>>>],l |-> 61,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]], [o |-> "A", seq |-> 32, upto |-> [x |-> 25, y |-> 32, z |-> 23]], [o |-> "B", seq |-> 33, upto |-> [x |-> 25, y |-> 34, z |-> 27]], [o |-> "A", seq |-> 33, upto |-> [x |-> 25, y |-> 34, z |-> 29]], [o |-> "B", seq |-> 36, upto |-> [x |-> 25, y |-> 35, z |-> 29]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 30, B |-> 29],cut |-> [x |-> 22, y |-> 35, z |-> 27],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<0, 80, 84, 91>>, z |-> <<85, 89, 58, 0>>],mem |-> [A |-> 35, B |-> 36],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>, <<3, 2, 80>>, <<4, 4, 83>>, <<0, 3, 84>>, <<1, 0, 90>>, <<4, 4, 91>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>, <<1, 0, 81>>, <<0, 1, 85>>, <<4, 0, 86>>, <<0, 4, 87>>, <<4, 0, 88>>, <<2, 2, 89>>>>],l |-> 62,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]], [o |-> "A", seq |-> 32, upto |-> [x |-> 25, y |-> 32, z |-> 23]], [o |-> "B", seq |-> 33, upto |-> [x |-> 25, y |-> 34, z |-> 27]], [o |-> "A", seq |-> 33, upto |-> [x |-> 25, y |-> 34, z |-> 29]], [o |-> "B", seq |-> 36, upto |-> [x |-> 25, y |-> 35, z |-> 29]], [o |-> "A", seq |-> 35, upto |-> [x |-> 25, y |-> 36, z |-> 29]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 35, B |-> 36],cut |-> [x |-> 25, y |-> 36, z |-> 29],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<0, 80, 84, 91>>, z |-> <<85, 89, 58, 0>>],mem |-> [A |-> 35, B |-> 36],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>, <<3, 2, 80>>, <<4, 4, 83>>, <<0, 3, 84>>, <<1, 0, 90>>, <<4, 4, 91>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>, <<1, 0, 81>>, <<0, 1, 85>>, <<4, 0, 86>>, <<0, 4, 87>>, <<4, 0, 88>>, <<2, 2, 89>>>>],l |-> 63,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]], [o |-> "A", seq |-> 32, upto |-> [x |-> 25, y |-> 32, z |-> 23]], [o |-> "B", seq |-> 33, upto |-> [x |-> 25, y |-> 34, z |-> 27]], [o |-> "A", seq |-> 33, upto |-> [x |-> 25, y |-> 34, z |-> 29]], [o |-> "B", seq |-> 36, upto |-> [x |-> 25, y |-> 35, z |-> 29]], [o |-> "A", seq |-> 35, upto |-> [x |-> 25, y |-> 36, z |-> 29]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 35, B |-> 36],cut |-> [x |-> 25, y |-> 36, z |-> 29],truth |-> [x |-> <<77, 75, 0, 70>>, y |-> <<0, 80, 84, 91>>, z |-> <<85, 89, 58, 0>>],mem |-> [A |-> 35, B |-> 36],log |-> [x |-> <<<<0, 1, 6>>, <<1, 0, 7>>, <<0, 4, 11>>, <<0, 3, 26>>, <<0, 1, 27>>, <<4, 0, 28>>, <<0, 4, 36>>, <<0, 2, 37>>, <<2, 0, 38>>, <<1, 2, 49>>, <<3, 1, 50>>, <<4, 3, 51>>, <<0, 4, 52>>, <<1, 0, 53>>, <<0, 1, 54>>, <<3, 0, 55>>, <<1, 1, 66>>, <<4, 0, 67>>, <<0, 3, 68>>, <<0, 4, 69>>, <<4, 4, 70>>, <<2, 0, 71>>, <<0, 2, 75>>, <<1, 0, 76>>, <<3, 1, 77>>>>, y |-> <<<<0, 3, 4>>, <<3, 0, 5>>, <<0, 4, 8>>, <<4, 4, 9>>, <<4, 0, 10>>, <<0, 4, 12>>, <<0, 1, 13>>, <<0, 3, 14>>, <<1, 0, 15>>, <<0, 2, 16>>, <<3, 1, 17>>, <<0, 3, 22>>, <<4, 0, 23>>, <<3, 3, 24>>, <<0, 4, 25>>, <<3, 0, 29>>, <<0, 3, 35>>, <<4, 0, 39>>, <<2, 0, 40>>, <<3, 2, 41>>, <<0, 4, 45>>, <<0, 3, 46>>, <<4, 0, 47>>, <<2, 0, 59>>, <<1, 1, 60>>, <<1, 0, 61>>, <<0, 4, 62>>, <<4, 0, 63>>, <<0, 1, 64>>, <<1, 1, 78>>, <<0, 4, 79>>, <<3, 2, 80>>, <<4, 4, 83>>, <<0, 3, 84>>, <<1, 0, 90>>, <<4, 4, 91>>>>, z |-> <<<<0, 2, 1>>, <<2, 2, 2>>, <<0, 3, 3>>, <<0, 4, 18>>, <<4, 1, 19>>, <<2, 4, 20>>, <<3, 3, 21>>, <<1, 2, 30>>, <<3, 3, 31>>, <<2, 2, 32>>, <<2, 2, 33>>, <<0, 1, 34>>, <<3, 0, 42>>, <<0, 3, 43>>, <<2, 0, 44>>, <<3, 3, 48>>, <<0, 2, 56>>, <<3, 0, 57>>, <<2, 3, 58>>, <<0, 2, 65>>, <<2, 0, 72>>, <<4, 2, 73>>, <<0, 4, 74>>, <<1, 0, 81>>, <<0, 1, 85>>, <<4, 0, 86>>, <<0, 4, 87>>, <<4, 0, 88>>, <<2, 2, 89>>>>],l |-> 64,txs |-> <<[o |-> "B", seq |-> 3, upto |-> [x |-> 0, y |-> 0, z |-> 3]], [o |-> "B", seq |-> 4, upto |-> [x |-> 2, y |-> 5, z |-> 3]], [o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 8, z |-> 3]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 11, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 3, y |-> 11, z |-> 4]], [o |-> "B", seq |-> 8, upto |-> [x |-> 3, y |-> 11, z |-> 5]], [o |-> "B", seq |-> 10, upto |-> [x |-> 3, y |-> 11, z |-> 7]], [o |-> "A", seq |-> 7, upto |-> [x |-> 3, y |-> 14, z |-> 7]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 15, z |-> 7]], [o |-> "A", seq |-> 12, upto |-> [x |-> 6, y |-> 15, z |-> 7]], [o |-> "B", seq |-> 12, upto |-> [x |-> 6, y |-> 16, z |-> 7]], [o |-> "B", seq |-> 15, upto |-> [x |-> 6, y |-> 16, z |-> 9]], [o |-> "B", seq |-> 17, upto |-> [x |-> 6, y |-> 16, z |-> 12]], [o |-> "A", seq |-> 13, upto |-> [x |-> 6, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 14, upto |-> [x |-> 9, y |-> 17, z |-> 12]], [o |-> "A", seq |-> 16, upto |-> [x |-> 9, y |-> 20, z |-> 12]], [o |-> "A", seq |-> 18, upto |-> [x |-> 9, y |-> 20, z |-> 15]], [o |-> "A", seq |-> 19, upto |-> [x |-> 9, y |-> 23, z |-> 15]], [o |-> "A", seq |-> 21, upto |-> [x |-> 9, y |-> 23, z |-> 16]], [o |-> "B", seq |-> 20, upto |-> [x |-> 16, y |-> 23, z |-> 16]], [o |-> "A", seq |-> 24, upto |-> [x |-> 16, y |-> 23, z |-> 19]], [o |-> "A", seq |-> 25, upto |-> [x |-> 16, y |-> 26, z |-> 19]], [o |-> "A", seq |-> 28, upto |-> [x |-> 16, y |-> 29, z |-> 19]], [o |-> "B", seq |-> 23, upto |-> [x |-> 16, y |-> 29, z |-> 20]], [o |-> "A", seq |-> 30, upto |-> [x |-> 18, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 26, upto |-> [x |-> 20, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 28, upto |-> [x |-> 22, y |-> 29, z |-> 20]], [o |-> "B", seq |-> 29, upto |-> [x |-> 22, y |-> 29, z |-> 23]], [o |-> "A", seq |-> 31, upto |-> [x |-> 25, y |-> 29, z |-> 23]], [o |-> "B", seq |-> 30, upto |-> [x |-> 25, y |-> 31, z |-> 23]], [o |-> "A", seq |-> 32, upto |-> [x |-> 25, y |-> 32, z |-> 23]], [o |-> "B", seq |-> 33, upto |-> [x |-> 25, y |-> 34, z |-> 27]], [o |-> "A", seq |-> 33, upto |-> [x |-> 25, y |-> 34, z |-> 29]], [o |-> "B", seq |-> 36, upto |-> [x |-> 25, y |-> 35, z |-> 29]], [o |-> "A", seq |-> 35, upto |-> [x |-> 25, y |-> 36, z |-> 29]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 65,txs |-> <<>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 66,txs |-> <<>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<1, 0, 0, 0>>],mem |-> [A |-> 2, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<<<0, 1, 1>>>>],l |-> 67,txs |-> <<[o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 0, z |-> 1]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<2, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<1, 0, 0, 0>>],mem |-> [A |-> 2, B |-> 0],log |-> [x |-> <<<<0, 1, 2>>>>, y |-> <<>>, z |-> <<<<0, 1, 1>>>>],l |-> 68,txs |-> <<[o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 0, upto |-> [x |-> 1, y |-> 0, z |-> 1]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 3, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 4, 0, 3>>, y |-> <<0, 0, 0, 0>>, z |-> <<1, 0, 0, 0>>],mem |-> [A |-> 3, B |-> 0],log |-> [x |-> <<<<0, 1, 2>>, <<0, 4, 3>>, <<1, 2, 4>>>>, y |-> <<>>, z |-> <<<<0, 1, 1>>>>],l |-> 69,txs |-> <<[o |-> "A", seq |-> 2, upto |-> [x |-> 0, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 3, upto |-> [x |-> 3, y |-> 0, z |-> 1]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]])
    >>
----


=============================================================================

---- CONFIG SyncTrace_TTrace_1795076965 ----

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 08:29:27 UTC 2026