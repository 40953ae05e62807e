---- MODULE SyncTrace_TTrace_1795076903 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, SyncTrace

_expression ==
    LET SyncTrace_TEExpression == INSTANCE SyncTrace_TEExpression
    IN SyncTrace_TEExpression!expression
----

_trace ==
    LET SyncTrace_TETrace == INSTANCE SyncTrace_TETrace
    IN SyncTrace_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        dur = ([A |-> 0, B |-> 0])
        /\
        cut = ([x |-> 6, y |-> 0, z |-> 6])
        /\
        truth = ([x |-> <<73, 74, 80, 87>>, y |-> <<0, 67, 0, 69>>, z |-> <<76, 84, 83, 81>>])
        /\
        mem = ([A |-> 27, B |-> 28])
        /\
        log = ([x |-> <<<<1, 0, 72>>, <<2, 1, 73>>, <<0, 2, 74>>, <<4, 0, 78>>, <<3, 0, 79>>, <<0, 3, 80>>, <<0, 4, 85>>, <<4, 0, 86>>, <<0, 4, 87>>>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>, <<4, 4, 69>>>>, z |-> <<<<2, 0, 68>>, <<1, 0, 70>>, <<3, 3, 71>>, <<0, 2, 75>>, <<0, 1, 76>>, <<4, 0, 77>>, <<3, 4, 81>>, <<2, 2, 82>>, <<0, 3, 83>>, <<2, 2, 84>>>>])
        /\
        l = (69)
        /\
        txs = (<<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]], [o |-> "B", seq |-> 18, upto |-> [x |-> 0, y |-> 6, z |-> 1]], [o |-> "B", seq |-> 19, upto |-> [x |-> 0, y |-> 6, z |-> 3]], [o |-> "A", seq |-> 27, upto |-> [x |-> 3, y |-> 6, z |-> 3]], [o |-> "B", seq |-> 21, upto |-> [x |-> 3, y |-> 6, z |-> 6]], [o |-> "B", seq |-> 23, upto |-> [x |-> 6, y |-> 6, z |-> 6]], [o |-> "B", seq |-> 26, upto |-> [x |-> 6, y |-> 6, z |-> 7]], [o |-> "B", seq |-> 28, upto |-> [x |-> 6, y |-> 6, z |-> 10]], [o |-> "B", seq |-> 0, upto |-> [x |-> 9, y |-> 6, z |-> 10]]>>)
        /\
        base = ([x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>])
    )
----

_init ==
    /\ txs = _TETrace[1].txs
    /\ cut = _TETrace[1].cut
    /\ truth = _TETrace[1].truth
    /\ log = _TETrace[1].log
    /\ l = _TETrace[1].l
    /\ dur = _TETrace[1].dur
    /\ base = _TETrace[1].base
    /\ mem = _TETrace[1].mem
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ txs  = _TETrace[i].txs
        /\ txs' = _TETrace[j].txs
        /\ cut  = _TETrace[i].cut
        /\ cut' = _TETrace[j].cut
        /\ truth  = _TETrace[i].truth
        /\ truth' = _TETrace[j].truth
        /\ log  = _TETrace[i].log
        /\ log' = _TETrace[j].log
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ dur  = _TETrace[i].dur
        /\ dur' = _TETrace[j].dur
        /\ base  = _TETrace[i].base
        /\ base' = _TETrace[j].base
        /\ mem  = _TETrace[i].mem
        /\ mem' = _TETrace[j].mem

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("SyncTrace_TTrace_1795076903.json", _TETrace)

=============================================================================

 Note that you can extract this module `SyncTrace_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `SyncTrace_TEExpression.tla` file takes precedence 
  over the module `SyncTrace_TEExpression` below).

---- MODULE SyncTrace_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, SyncTrace

expression == 
    [
        \* To hide variables of the `SyncTrace` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        txs |-> txs
        ,cut |-> cut
        ,truth |-> truth
        ,log |-> log
        ,l |-> l
        ,dur |-> dur
        ,base |-> base
        ,mem |-> mem
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_txsUnchanged |-> txs = txs'
        
        \* Format the `txs` variable as Json value.
        \* ,_txsJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(txs)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_txsModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].txs # _TETrace[s-1].txs
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE SyncTrace_TETrace ----
\*EXTENDS IOUtils, TLC, SyncTrace
\*
\*trace == IODeserialize("SyncTrace_TTrace_1795076903.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE SyncTrace_TETrace ----
EXTENDS TLC, SyncTrace

trace == 
    <<
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 1,txs |-> <<>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 2,txs |-> <<>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 1, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 1, B |-> 0],log |-> [x |-> <<>>, y |-> <<<<0, 2, 1>>>>, z |-> <<>>],l |-> 3,txs |-> <<[o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 1, z |-> 0]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<2, 0, 0, 0>>, y |-> <<0, 1, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 2, B |-> 0],log |-> [x |-> <<<<0, 1, 2>>>>, y |-> <<<<0, 2, 1>>>>, z |-> <<>>],l |-> 4,txs |-> <<[o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 1, z |-> 0]], [o |-> "A", seq |-> 2, upto |-> [x |-> 1, y |-> 1, z |-> 0]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<5, 4, 0, 0>>, y |-> <<0, 1, 0, 0>>, z |-> <<0, 0, 0, 0>>],mem |-> [A |-> 2, B |-> 0],log |-> [x |-> <<<<0, 1, 2>>, <<0, 4, 3>>, <<4, 2, 4>>, <<1, 1, 5>>>>, y |-> <<<<0, 2, 1>>>>, z |-> <<>>],l |-> 5,txs |-> <<[o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 1, z |-> 0]], [o |-> "A", seq |-> 2, upto |-> [x |-> 1, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 0, upto |-> [x |-> 4, y |-> 1, z |-> 0]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 3],truth |-> [x |-> <<5, 4, 0, 0>>, y |-> <<0, 1, 0, 0>>, z |-> <<7, 0, 8, 0>>],mem |-> [A |-> 2, B |-> 1],log |-> [x |-> <<<<0, 1, 2>>, <<0, 4, 3>>, <<4, 2, 4>>, <<1, 1, 5>>>>, y |-> <<<<0, 2, 1>>>>, z |-> <<<<0, 1, 6>>, <<1, 1, 7>>, <<0, 3, 8>>>>],l |-> 6,txs |-> <<[o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 1, z |-> 0]], [o |-> "A", seq |-> 2, upto |-> [x |-> 1, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 1, upto |-> [x |-> 4, y |-> 1, z |-> 3]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 5],truth |-> [x |-> <<5, 4, 0, 0>>, y |-> <<0, 1, 0, 0>>, z |-> <<7, 0, 10, 9>>],mem |-> [A |-> 5, B |-> 1],log |-> [x |-> <<<<0, 1, 2>>, <<0, 4, 3>>, <<4, 2, 4>>, <<1, 1, 5>>>>, y |-> <<<<0, 2, 1>>>>, z |-> <<<<0, 1, 6>>, <<1, 1, 7>>, <<0, 3, 8>>, <<0, 4, 9>>, <<3, 3, 10>>>>],l |-> 7,txs |-> <<[o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 1, z |-> 0]], [o |-> "A", seq |-> 2, upto |-> [x |-> 1, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 1, upto |-> [x |-> 4, y |-> 1, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 4, y |-> 1, z |-> 5]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 6, y |-> 0, z |-> 5],truth |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 0, 0>>, z |-> <<7, 0, 10, 9>>],mem |-> [A |-> 7, B |-> 1],log |-> [x |-> <<<<0, 1, 2>>, <<0, 4, 3>>, <<4, 2, 4>>, <<1, 1, 5>>, <<0, 3, 11>>, <<3, 3, 12>>>>, y |-> <<<<0, 2, 1>>>>, z |-> <<<<0, 1, 6>>, <<1, 1, 7>>, <<0, 3, 8>>, <<0, 4, 9>>, <<3, 3, 10>>>>],l |-> 8,txs |-> <<[o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 1, z |-> 0]], [o |-> "A", seq |-> 2, upto |-> [x |-> 1, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 1, upto |-> [x |-> 4, y |-> 1, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 4, y |-> 1, z |-> 5]], [o |-> "A", seq |-> 7, upto |-> [x |-> 6, y |-> 1, z |-> 5]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 6, y |-> 0, z |-> 5],truth |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>],mem |-> [A |-> 7, B |-> 1],log |-> [x |-> <<<<0, 1, 2>>, <<0, 4, 3>>, <<4, 2, 4>>, <<1, 1, 5>>, <<0, 3, 11>>, <<3, 3, 12>>>>, y |-> <<<<0, 2, 1>>, <<0, 3, 13>>>>, z |-> <<<<0, 1, 6>>, <<1, 1, 7>>, <<0, 3, 8>>, <<0, 4, 9>>, <<3, 3, 10>>>>],l |-> 9,txs |-> <<[o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 1, z |-> 0]], [o |-> "A", seq |-> 2, upto |-> [x |-> 1, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 1, upto |-> [x |-> 4, y |-> 1, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 4, y |-> 1, z |-> 5]], [o |-> "A", seq |-> 7, upto |-> [x |-> 6, y |-> 1, z |-> 5]], [o |-> "B", seq |-> 0, upto |-> [x |-> 6, y |-> 2, z |-> 5]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 6, y |-> 0, z |-> 5],truth |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>],mem |-> [A |-> 7, B |-> 4],log |-> [x |-> <<<<0, 1, 2>>, <<0, 4, 3>>, <<4, 2, 4>>, <<1, 1, 5>>, <<0, 3, 11>>, <<3, 3, 12>>>>, y |-> <<<<0, 2, 1>>, <<0, 3, 13>>>>, z |-> <<<<0, 1, 6>>, <<1, 1, 7>>, <<0, 3, 8>>, <<0, 4, 9>>, <<3, 3, 10>>>>],l |-> 10,txs |-> <<[o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 1, z |-> 0]], [o |-> "A", seq |-> 2, upto |-> [x |-> 1, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 1, upto |-> [x |-> 4, y |-> 1, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 4, y |-> 1, z |-> 5]], [o |-> "A", seq |-> 7, upto |-> [x |-> 6, y |-> 1, z |-> 5]], [o |-> "B", seq |-> 4, upto |-> [x |-> 6, y |-> 2, z |-> 5]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 6, y |-> 0, z |-> 5],truth |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>],mem |-> [A |-> 7, B |-> 4],log |-> [x |-> <<<<0, 1, 2>>, <<0, 4, 3>>, <<4, 2, 4>>, <<1, 1, 5>>, <<0, 3, 11>>, <<3, 3, 12>>>>, y |-> <<<<0, 2, 1>>, <<0, 3, 13>>>>, z |-> <<<<0, 1, 6>>, <<1, 1, 7>>, <<0, 3, 8>>, <<0, 4, 9>>, <<3, 3, 10>>>>],l |-> 11,txs |-> <<[o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 1, z |-> 0]], [o |-> "A", seq |-> 2, upto |-> [x |-> 1, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 1, upto |-> [x |-> 4, y |-> 1, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 4, y |-> 1, z |-> 5]], [o |-> "A", seq |-> 7, upto |-> [x |-> 6, y |-> 1, z |-> 5]], [o |-> "B", seq |-> 4, upto |-> [x |-> 6, y |-> 2, z |-> 5]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 7, B |-> 4],cut |-> [x |-> 6, y |-> 2, z |-> 5],truth |-> [x |-> <<5, 4, 15, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>],mem |-> [A |-> 7, B |-> 5],log |-> [x |-> <<<<0, 1, 2>>, <<0, 4, 3>>, <<4, 2, 4>>, <<1, 1, 5>>, <<0, 3, 11>>, <<3, 3, 12>>, <<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>>>, y |-> <<<<0, 2, 1>>, <<0, 3, 13>>>>, z |-> <<<<0, 1, 6>>, <<1, 1, 7>>, <<0, 3, 8>>, <<0, 4, 9>>, <<3, 3, 10>>>>],l |-> 12,txs |-> <<[o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 1, z |-> 0]], [o |-> "A", seq |-> 2, upto |-> [x |-> 1, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 1, upto |-> [x |-> 4, y |-> 1, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 4, y |-> 1, z |-> 5]], [o |-> "A", seq |-> 7, upto |-> [x |-> 6, y |-> 1, z |-> 5]], [o |-> "B", seq |-> 4, upto |-> [x |-> 6, y |-> 2, z |-> 5]], [o |-> "B", seq |-> 5, upto |-> [x |-> 9, y |-> 2, z |-> 5]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 7, B |-> 4],cut |-> [x |-> 6, y |-> 2, z |-> 5],truth |-> [x |-> <<5, 4, 15, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<17, 0, 10, 9>>],mem |-> [A |-> 7, B |-> 5],log |-> [x |-> <<<<0, 1, 2>>, <<0, 4, 3>>, <<4, 2, 4>>, <<1, 1, 5>>, <<0, 3, 11>>, <<3, 3, 12>>, <<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>>>, y |-> <<<<0, 2, 1>>, <<0, 3, 13>>>>, z |-> <<<<0, 1, 6>>, <<1, 1, 7>>, <<0, 3, 8>>, <<0, 4, 9>>, <<3, 3, 10>>, <<1, 1, 17>>>>],l |-> 13,txs |-> <<[o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 1, z |-> 0]], [o |-> "A", seq |-> 2, upto |-> [x |-> 1, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 1, upto |-> [x |-> 4, y |-> 1, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 4, y |-> 1, z |-> 5]], [o |-> "A", seq |-> 7, upto |-> [x |-> 6, y |-> 1, z |-> 5]], [o |-> "B", seq |-> 4, upto |-> [x |-> 6, y |-> 2, z |-> 5]], [o |-> "B", seq |-> 5, upto |-> [x |-> 9, y |-> 2, z |-> 5]], [o |-> "A", seq |-> 0, upto |-> [x |-> 9, y |-> 2, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 7, B |-> 4],cut |-> [x |-> 6, y |-> 2, z |-> 5],truth |-> [x |-> <<5, 4, 15, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<17, 0, 10, 9>>],mem |-> [A |-> 10, B |-> 5],log |-> [x |-> <<<<0, 1, 2>>, <<0, 4, 3>>, <<4, 2, 4>>, <<1, 1, 5>>, <<0, 3, 11>>, <<3, 3, 12>>, <<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>>>, y |-> <<<<0, 2, 1>>, <<0, 3, 13>>>>, z |-> <<<<0, 1, 6>>, <<1, 1, 7>>, <<0, 3, 8>>, <<0, 4, 9>>, <<3, 3, 10>>, <<1, 1, 17>>>>],l |-> 14,txs |-> <<[o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 1, z |-> 0]], [o |-> "A", seq |-> 2, upto |-> [x |-> 1, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 1, upto |-> [x |-> 4, y |-> 1, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 4, y |-> 1, z |-> 5]], [o |-> "A", seq |-> 7, upto |-> [x |-> 6, y |-> 1, z |-> 5]], [o |-> "B", seq |-> 4, upto |-> [x |-> 6, y |-> 2, z |-> 5]], [o |-> "B", seq |-> 5, upto |-> [x |-> 9, y |-> 2, z |-> 5]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 2, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 7, B |-> 4],cut |-> [x |-> 6, y |-> 2, z |-> 5],truth |-> [x |-> <<0, 4, 0, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<17, 0, 10, 9>>],mem |-> [A |-> 10, B |-> 7],log |-> [x |-> <<<<0, 1, 2>>, <<0, 4, 3>>, <<4, 2, 4>>, <<1, 1, 5>>, <<0, 3, 11>>, <<3, 3, 12>>, <<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>>>, y |-> <<<<0, 2, 1>>, <<0, 3, 13>>>>, z |-> <<<<0, 1, 6>>, <<1, 1, 7>>, <<0, 3, 8>>, <<0, 4, 9>>, <<3, 3, 10>>, <<1, 1, 17>>>>],l |-> 15,txs |-> <<[o |-> "A", seq |-> 1, upto |-> [x |-> 0, y |-> 1, z |-> 0]], [o |-> "A", seq |-> 2, upto |-> [x |-> 1, y |-> 1, z |-> 0]], [o |-> "B", seq |-> 1, upto |-> [x |-> 4, y |-> 1, z |-> 3]], [o |-> "A", seq |-> 5, upto |-> [x |-> 4, y |-> 1, z |-> 5]], [o |-> "A", seq |-> 7, upto |-> [x |-> 6, y |-> 1, z |-> 5]], [o |-> "B", seq |-> 4, upto |-> [x |-> 6, y |-> 2, z |-> 5]], [o |-> "B", seq |-> 5, upto |-> [x |-> 9, y |-> 2, z |-> 5]], [o |-> "A", seq |-> 10, upto |-> [x |-> 9, y |-> 2, z |-> 6]], [o |-> "B", seq |-> 7, upto |-> [x |-> 11, y |-> 2, z |-> 6]]>>,base |-> [x |-> <<0, 0, 0, 0>>, y |-> <<0, 0, 0, 0>>, z |-> <<0, 0, 0, 0>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 4, 0, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<17, 0, 10, 9>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 16,txs |-> <<>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 4, 0, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<17, 0, 10, 9>>],mem |-> [A |-> 0, B |-> 5],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>>>, y |-> <<>>, z |-> <<>>],l |-> 17,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 4, 0, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<17, 0, 10, 9>>],mem |-> [A |-> 0, B |-> 5],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>>>, y |-> <<>>, z |-> <<<<1, 1, 17>>>>],l |-> 18,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 0, upto |-> [x |-> 3, y |-> 0, z |-> 1]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 4, 0, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<17, 0, 10, 9>>],mem |-> [A |-> 10, B |-> 5],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>>>, y |-> <<>>, z |-> <<<<1, 1, 17>>>>],l |-> 19,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 4, 0, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<17, 0, 10, 9>>],mem |-> [A |-> 10, B |-> 7],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>>>, y |-> <<>>, z |-> <<<<1, 1, 17>>>>],l |-> 20,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<0, 4, 0, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<17, 0, 10, 9>>],mem |-> [A |-> 10, B |-> 7],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>>>, y |-> <<>>, z |-> <<<<1, 1, 17>>>>],l |-> 21,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 0, B |-> 5],cut |-> [x |-> 8, y |-> 0, z |-> 0],truth |-> [x |-> <<22, 0, 0, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<17, 0, 10, 9>>],mem |-> [A |-> 11, B |-> 7],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>>>, y |-> <<>>, z |-> <<<<1, 1, 17>>>>],l |-> 22,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 0, B |-> 5],cut |-> [x |-> 8, y |-> 0, z |-> 0],truth |-> [x |-> <<22, 0, 0, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<17, 0, 10, 9>>],mem |-> [A |-> 11, B |-> 7],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>>>, y |-> <<>>, z |-> <<<<1, 1, 17>>>>],l |-> 23,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 0, B |-> 5],cut |-> [x |-> 8, y |-> 0, z |-> 0],truth |-> [x |-> <<22, 0, 0, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<17, 23, 0, 9>>],mem |-> [A |-> 13, B |-> 7],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>>>, y |-> <<>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>>>],l |-> 24,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 0, B |-> 5],cut |-> [x |-> 8, y |-> 0, z |-> 0],truth |-> [x |-> <<22, 0, 0, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<17, 23, 25, 9>>],mem |-> [A |-> 13, B |-> 7],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>>>, y |-> <<>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>>>],l |-> 25,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 0, upto |-> [x |-> 8, y |-> 0, z |-> 4]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 13, B |-> 7],cut |-> [x |-> 8, y |-> 0, z |-> 4],truth |-> [x |-> <<22, 26, 27, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<17, 23, 25, 9>>],mem |-> [A |-> 16, B |-> 7],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>>>, y |-> <<>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>>>],l |-> 26,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 13, B |-> 7],cut |-> [x |-> 8, y |-> 0, z |-> 4],truth |-> [x |-> <<22, 26, 27, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<30, 23, 25, 29>>],mem |-> [A |-> 16, B |-> 10],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>>>, y |-> <<>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>>>],l |-> 27,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 13, B |-> 7],cut |-> [x |-> 8, y |-> 0, z |-> 4],truth |-> [x |-> <<0, 26, 27, 16>>, y |-> <<0, 1, 13, 0>>, z |-> <<30, 23, 25, 29>>],mem |-> [A |-> 16, B |-> 10],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>>>, y |-> <<>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>>>],l |-> 28,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 0, upto |-> [x |-> 11, y |-> 0, z |-> 7]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 13, B |-> 7],cut |-> [x |-> 8, y |-> 3, z |-> 4],truth |-> [x |-> <<0, 26, 27, 16>>, y |-> <<34, 1, 13, 33>>, z |-> <<30, 23, 25, 29>>],mem |-> [A |-> 16, B |-> 10],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>>>],l |-> 29,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 0, upto |-> [x |-> 11, y |-> 3, z |-> 7]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 16, B |-> 7],cut |-> [x |-> 13, y |-> 3, z |-> 4],truth |-> [x |-> <<35, 36, 27, 16>>, y |-> <<34, 1, 13, 33>>, z |-> <<30, 23, 25, 29>>],mem |-> [A |-> 16, B |-> 10],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>>>],l |-> 30,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 0, upto |-> [x |-> 13, y |-> 3, z |-> 7]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 16, B |-> 7],cut |-> [x |-> 13, y |-> 3, z |-> 4],truth |-> [x |-> <<35, 36, 27, 16>>, y |-> <<34, 1, 13, 33>>, z |-> <<30, 0, 25, 29>>],mem |-> [A |-> 17, B |-> 10],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>>>],l |-> 31,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 16, B |-> 7],cut |-> [x |-> 13, y |-> 3, z |-> 4],truth |-> [x |-> <<35, 36, 27, 16>>, y |-> <<34, 1, 0, 33>>, z |-> <<30, 0, 25, 29>>],mem |-> [A |-> 17, B |-> 10],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>>>],l |-> 32,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 0, upto |-> [x |-> 13, y |-> 4, z |-> 8]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 17, B |-> 10],cut |-> [x |-> 13, y |-> 3, z |-> 10],truth |-> [x |-> <<35, 36, 27, 16>>, y |-> <<34, 1, 0, 33>>, z |-> <<40, 39, 25, 29>>],mem |-> [A |-> 17, B |-> 10],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>>>],l |-> 33,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 0, upto |-> [x |-> 13, y |-> 4, z |-> 10]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 17, B |-> 10],cut |-> [x |-> 13, y |-> 3, z |-> 10],truth |-> [x |-> <<35, 36, 27, 16>>, y |-> <<34, 1, 0, 33>>, z |-> <<40, 39, 25, 29>>],mem |-> [A |-> 18, B |-> 10],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>>>],l |-> 34,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 17, B |-> 10],cut |-> [x |-> 13, y |-> 3, z |-> 10],truth |-> [x |-> <<35, 36, 27, 16>>, y |-> <<0, 41, 42, 33>>, z |-> <<40, 39, 25, 29>>],mem |-> [A |-> 18, B |-> 10],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>>>],l |-> 35,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 0, upto |-> [x |-> 13, y |-> 7, z |-> 10]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 17, B |-> 10],cut |-> [x |-> 13, y |-> 3, z |-> 10],truth |-> [x |-> <<45, 0, 27, 0>>, y |-> <<0, 41, 42, 33>>, z |-> <<40, 39, 25, 29>>],mem |-> [A |-> 18, B |-> 10],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>>>],l |-> 36,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 0, upto |-> [x |-> 16, y |-> 7, z |-> 10]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 17, B |-> 10],cut |-> [x |-> 13, y |-> 3, z |-> 10],truth |-> [x |-> <<45, 0, 27, 0>>, y |-> <<0, 41, 42, 33>>, z |-> <<40, 39, 25, 29>>],mem |-> [A |-> 19, B |-> 10],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>>>],l |-> 37,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 17, B |-> 10],cut |-> [x |-> 13, y |-> 3, z |-> 13],truth |-> [x |-> <<45, 0, 27, 0>>, y |-> <<0, 41, 42, 33>>, z |-> <<49, 47, 25, 29>>],mem |-> [A |-> 19, B |-> 10],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>>>],l |-> 38,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 0, upto |-> [x |-> 16, y |-> 7, z |-> 13]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 17, B |-> 10],cut |-> [x |-> 13, y |-> 3, z |-> 13],truth |-> [x |-> <<45, 0, 27, 0>>, y |-> <<0, 41, 42, 33>>, z |-> <<49, 47, 25, 29>>],mem |-> [A |-> 19, B |-> 13],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>>>],l |-> 39,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 18, B |-> 10],cut |-> [x |-> 13, y |-> 7, z |-> 13],truth |-> [x |-> <<45, 0, 27, 0>>, y |-> <<0, 41, 42, 33>>, z |-> <<49, 47, 25, 51>>],mem |-> [A |-> 21, B |-> 13],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>, <<4, 4, 50>>, <<4, 4, 51>>>>],l |-> 40,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]], [o |-> "A", seq |-> 21, upto |-> [x |-> 16, y |-> 7, z |-> 15]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 18, B |-> 10],cut |-> [x |-> 13, y |-> 7, z |-> 13],truth |-> [x |-> <<45, 0, 27, 0>>, y |-> <<0, 41, 42, 33>>, z |-> <<49, 0, 25, 51>>],mem |-> [A |-> 21, B |-> 13],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>, <<4, 4, 50>>, <<4, 4, 51>>, <<2, 0, 52>>>>],l |-> 41,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]], [o |-> "A", seq |-> 21, upto |-> [x |-> 16, y |-> 7, z |-> 15]], [o |-> "B", seq |-> 0, upto |-> [x |-> 16, y |-> 7, z |-> 16]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 18, B |-> 10],cut |-> [x |-> 13, y |-> 7, z |-> 13],truth |-> [x |-> <<45, 0, 27, 0>>, y |-> <<0, 41, 42, 33>>, z |-> <<54, 53, 25, 51>>],mem |-> [A |-> 21, B |-> 15],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>, <<4, 4, 50>>, <<4, 4, 51>>, <<2, 0, 52>>, <<0, 2, 53>>, <<1, 1, 54>>>>],l |-> 42,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]], [o |-> "A", seq |-> 21, upto |-> [x |-> 16, y |-> 7, z |-> 15]], [o |-> "B", seq |-> 15, upto |-> [x |-> 16, y |-> 7, z |-> 18]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 18, B |-> 10],cut |-> [x |-> 13, y |-> 7, z |-> 13],truth |-> [x |-> <<45, 0, 27, 0>>, y |-> <<0, 41, 42, 33>>, z |-> <<54, 53, 25, 51>>],mem |-> [A |-> 21, B |-> 15],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>, <<4, 4, 50>>, <<4, 4, 51>>, <<2, 0, 52>>, <<0, 2, 53>>, <<1, 1, 54>>>>],l |-> 43,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]], [o |-> "A", seq |-> 21, upto |-> [x |-> 16, y |-> 7, z |-> 15]], [o |-> "B", seq |-> 15, upto |-> [x |-> 16, y |-> 7, z |-> 18]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 18, B |-> 10],cut |-> [x |-> 13, y |-> 7, z |-> 19],truth |-> [x |-> <<45, 0, 27, 0>>, y |-> <<0, 41, 42, 33>>, z |-> <<54, 53, 0, 51>>],mem |-> [A |-> 21, B |-> 15],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>, <<4, 4, 50>>, <<4, 4, 51>>, <<2, 0, 52>>, <<0, 2, 53>>, <<1, 1, 54>>, <<3, 0, 55>>, <<0, 3, 56>>, <<3, 0, 57>>>>],l |-> 44,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]], [o |-> "A", seq |-> 21, upto |-> [x |-> 16, y |-> 7, z |-> 15]], [o |-> "B", seq |-> 15, upto |-> [x |-> 16, y |-> 7, z |-> 18]], [o |-> "A", seq |-> 0, upto |-> [x |-> 16, y |-> 7, z |-> 21]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 18, B |-> 10],cut |-> [x |-> 13, y |-> 7, z |-> 19],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<54, 53, 0, 51>>],mem |-> [A |-> 24, B |-> 15],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>, <<0, 2, 58>>, <<0, 4, 59>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>, <<4, 4, 50>>, <<4, 4, 51>>, <<2, 0, 52>>, <<0, 2, 53>>, <<1, 1, 54>>, <<3, 0, 55>>, <<0, 3, 56>>, <<3, 0, 57>>>>],l |-> 45,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]], [o |-> "A", seq |-> 21, upto |-> [x |-> 16, y |-> 7, z |-> 15]], [o |-> "B", seq |-> 15, upto |-> [x |-> 16, y |-> 7, z |-> 18]], [o |-> "A", seq |-> 24, upto |-> [x |-> 18, y |-> 7, z |-> 21]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 18, B |-> 10],cut |-> [x |-> 13, y |-> 7, z |-> 19],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<54, 53, 0, 51>>],mem |-> [A |-> 24, B |-> 15],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>, <<0, 2, 58>>, <<0, 4, 59>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>, <<4, 4, 50>>, <<4, 4, 51>>, <<2, 0, 52>>, <<0, 2, 53>>, <<1, 1, 54>>, <<3, 0, 55>>, <<0, 3, 56>>, <<3, 0, 57>>>>],l |-> 46,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]], [o |-> "A", seq |-> 21, upto |-> [x |-> 16, y |-> 7, z |-> 15]], [o |-> "B", seq |-> 15, upto |-> [x |-> 16, y |-> 7, z |-> 18]], [o |-> "A", seq |-> 24, upto |-> [x |-> 18, y |-> 7, z |-> 21]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 18, B |-> 10],cut |-> [x |-> 13, y |-> 7, z |-> 19],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>],mem |-> [A |-> 24, B |-> 17],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>, <<0, 2, 58>>, <<0, 4, 59>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>, <<4, 4, 50>>, <<4, 4, 51>>, <<2, 0, 52>>, <<0, 2, 53>>, <<1, 1, 54>>, <<3, 0, 55>>, <<0, 3, 56>>, <<3, 0, 57>>, <<0, 3, 60>>, <<1, 1, 61>>, <<2, 2, 62>>>>],l |-> 47,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]], [o |-> "A", seq |-> 21, upto |-> [x |-> 16, y |-> 7, z |-> 15]], [o |-> "B", seq |-> 15, upto |-> [x |-> 16, y |-> 7, z |-> 18]], [o |-> "A", seq |-> 24, upto |-> [x |-> 18, y |-> 7, z |-> 21]], [o |-> "B", seq |-> 17, upto |-> [x |-> 18, y |-> 7, z |-> 24]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 18, B |-> 10],cut |-> [x |-> 13, y |-> 7, z |-> 19],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>],mem |-> [A |-> 24, B |-> 17],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>, <<0, 2, 58>>, <<0, 4, 59>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>, <<4, 4, 50>>, <<4, 4, 51>>, <<2, 0, 52>>, <<0, 2, 53>>, <<1, 1, 54>>, <<3, 0, 55>>, <<0, 3, 56>>, <<3, 0, 57>>, <<0, 3, 60>>, <<1, 1, 61>>, <<2, 2, 62>>>>],l |-> 48,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]], [o |-> "A", seq |-> 21, upto |-> [x |-> 16, y |-> 7, z |-> 15]], [o |-> "B", seq |-> 15, upto |-> [x |-> 16, y |-> 7, z |-> 18]], [o |-> "A", seq |-> 24, upto |-> [x |-> 18, y |-> 7, z |-> 21]], [o |-> "B", seq |-> 17, upto |-> [x |-> 18, y |-> 7, z |-> 24]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 24, B |-> 17],cut |-> [x |-> 18, y |-> 7, z |-> 24],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 0, 42, 65>>, z |-> <<61, 62, 60, 51>>],mem |-> [A |-> 24, B |-> 17],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>, <<0, 2, 58>>, <<0, 4, 59>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>, <<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>, <<4, 4, 50>>, <<4, 4, 51>>, <<2, 0, 52>>, <<0, 2, 53>>, <<1, 1, 54>>, <<3, 0, 55>>, <<0, 3, 56>>, <<3, 0, 57>>, <<0, 3, 60>>, <<1, 1, 61>>, <<2, 2, 62>>>>],l |-> 49,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]], [o |-> "A", seq |-> 21, upto |-> [x |-> 16, y |-> 7, z |-> 15]], [o |-> "B", seq |-> 15, upto |-> [x |-> 16, y |-> 7, z |-> 18]], [o |-> "A", seq |-> 24, upto |-> [x |-> 18, y |-> 7, z |-> 21]], [o |-> "B", seq |-> 17, upto |-> [x |-> 18, y |-> 7, z |-> 24]], [o |-> "A", seq |-> 0, upto |-> [x |-> 18, y |-> 10, z |-> 24]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 24, B |-> 17],cut |-> [x |-> 18, y |-> 7, z |-> 24],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 67, 0, 65>>, z |-> <<61, 62, 60, 51>>],mem |-> [A |-> 26, B |-> 17],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>, <<0, 2, 58>>, <<0, 4, 59>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>, <<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>, <<4, 4, 50>>, <<4, 4, 51>>, <<2, 0, 52>>, <<0, 2, 53>>, <<1, 1, 54>>, <<3, 0, 55>>, <<0, 3, 56>>, <<3, 0, 57>>, <<0, 3, 60>>, <<1, 1, 61>>, <<2, 2, 62>>>>],l |-> 50,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]], [o |-> "A", seq |-> 21, upto |-> [x |-> 16, y |-> 7, z |-> 15]], [o |-> "B", seq |-> 15, upto |-> [x |-> 16, y |-> 7, z |-> 18]], [o |-> "A", seq |-> 24, upto |-> [x |-> 18, y |-> 7, z |-> 21]], [o |-> "B", seq |-> 17, upto |-> [x |-> 18, y |-> 7, z |-> 24]], [o |-> "A", seq |-> 26, upto |-> [x |-> 18, y |-> 12, z |-> 24]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 24, B |-> 17],cut |-> [x |-> 18, y |-> 7, z |-> 24],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 67, 0, 65>>, z |-> <<61, 62, 60, 51>>],mem |-> [A |-> 26, B |-> 17],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>, <<0, 2, 58>>, <<0, 4, 59>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>, <<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>, <<4, 4, 50>>, <<4, 4, 51>>, <<2, 0, 52>>, <<0, 2, 53>>, <<1, 1, 54>>, <<3, 0, 55>>, <<0, 3, 56>>, <<3, 0, 57>>, <<0, 3, 60>>, <<1, 1, 61>>, <<2, 2, 62>>>>],l |-> 51,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]], [o |-> "A", seq |-> 21, upto |-> [x |-> 16, y |-> 7, z |-> 15]], [o |-> "B", seq |-> 15, upto |-> [x |-> 16, y |-> 7, z |-> 18]], [o |-> "A", seq |-> 24, upto |-> [x |-> 18, y |-> 7, z |-> 21]], [o |-> "B", seq |-> 17, upto |-> [x |-> 18, y |-> 7, z |-> 24]], [o |-> "A", seq |-> 26, upto |-> [x |-> 18, y |-> 12, z |-> 24]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 24, B |-> 17],cut |-> [x |-> 18, y |-> 7, z |-> 24],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 67, 0, 65>>, z |-> <<61, 0, 60, 51>>],mem |-> [A |-> 26, B |-> 17],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>, <<0, 2, 58>>, <<0, 4, 59>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>, <<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>, <<4, 4, 50>>, <<4, 4, 51>>, <<2, 0, 52>>, <<0, 2, 53>>, <<1, 1, 54>>, <<3, 0, 55>>, <<0, 3, 56>>, <<3, 0, 57>>, <<0, 3, 60>>, <<1, 1, 61>>, <<2, 2, 62>>, <<2, 0, 68>>>>],l |-> 52,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]], [o |-> "A", seq |-> 21, upto |-> [x |-> 16, y |-> 7, z |-> 15]], [o |-> "B", seq |-> 15, upto |-> [x |-> 16, y |-> 7, z |-> 18]], [o |-> "A", seq |-> 24, upto |-> [x |-> 18, y |-> 7, z |-> 21]], [o |-> "B", seq |-> 17, upto |-> [x |-> 18, y |-> 7, z |-> 24]], [o |-> "A", seq |-> 26, upto |-> [x |-> 18, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 0, upto |-> [x |-> 18, y |-> 12, z |-> 25]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 24, B |-> 17],cut |-> [x |-> 18, y |-> 7, z |-> 24],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 67, 0, 69>>, z |-> <<61, 0, 60, 51>>],mem |-> [A |-> 26, B |-> 18],log |-> [x |-> <<<<0, 4, 14>>, <<3, 3, 15>>, <<4, 4, 16>>, <<1, 0, 18>>, <<3, 0, 19>>, <<2, 1, 20>>, <<1, 0, 21>>, <<0, 1, 22>>, <<0, 2, 26>>, <<0, 3, 27>>, <<1, 0, 31>>, <<0, 1, 35>>, <<2, 2, 36>>, <<1, 0, 44>>, <<2, 1, 45>>, <<4, 0, 46>>, <<0, 2, 58>>, <<0, 4, 59>>>>, y |-> <<<<0, 1, 32>>, <<1, 4, 33>>, <<0, 1, 34>>, <<3, 0, 38>>, <<2, 2, 41>>, <<0, 3, 42>>, <<1, 0, 43>>, <<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>, <<4, 4, 69>>>>, z |-> <<<<1, 1, 17>>, <<0, 2, 23>>, <<3, 0, 24>>, <<0, 3, 25>>, <<4, 0, 28>>, <<1, 4, 29>>, <<0, 1, 30>>, <<2, 0, 37>>, <<0, 2, 39>>, <<1, 1, 40>>, <<2, 2, 47>>, <<1, 0, 48>>, <<0, 1, 49>>, <<4, 4, 50>>, <<4, 4, 51>>, <<2, 0, 52>>, <<0, 2, 53>>, <<1, 1, 54>>, <<3, 0, 55>>, <<0, 3, 56>>, <<3, 0, 57>>, <<0, 3, 60>>, <<1, 1, 61>>, <<2, 2, 62>>, <<2, 0, 68>>>>],l |-> 53,txs |-> <<[o |-> "B", seq |-> 5, upto |-> [x |-> 3, y |-> 0, z |-> 0]], [o |-> "A", seq |-> 10, upto |-> [x |-> 3, y |-> 0, z |-> 1]], [o |-> "B", seq |-> 7, upto |-> [x |-> 5, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 11, upto |-> [x |-> 8, y |-> 0, z |-> 1]], [o |-> "A", seq |-> 13, upto |-> [x |-> 8, y |-> 0, z |-> 3]], [o |-> "A", seq |-> 16, upto |-> [x |-> 10, y |-> 0, z |-> 4]], [o |-> "B", seq |-> 10, upto |-> [x |-> 10, y |-> 0, z |-> 7]], [o |-> "A", seq |-> 17, upto |-> [x |-> 13, y |-> 3, z |-> 8]], [o |-> "A", seq |-> 18, upto |-> [x |-> 13, y |-> 4, z |-> 10]], [o |-> "A", seq |-> 19, upto |-> [x |-> 16, y |-> 7, z |-> 10]], [o |-> "B", seq |-> 13, upto |-> [x |-> 16, y |-> 7, z |-> 13]], [o |-> "A", seq |-> 21, upto |-> [x |-> 16, y |-> 7, z |-> 15]], [o |-> "B", seq |-> 15, upto |-> [x |-> 16, y |-> 7, z |-> 18]], [o |-> "A", seq |-> 24, upto |-> [x |-> 18, y |-> 7, z |-> 21]], [o |-> "B", seq |-> 17, upto |-> [x |-> 18, y |-> 7, z |-> 24]], [o |-> "A", seq |-> 26, upto |-> [x |-> 18, y |-> 12, z |-> 24]], [o |-> "B", seq |-> 18, upto |-> [x |-> 18, y |-> 13, z |-> 25]]>>,base |-> [x |-> <<5, 4, 12, 0>>, y |-> <<0, 1, 13, 0>>, z |-> <<7, 0, 10, 9>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 67, 0, 69>>, z |-> <<61, 0, 60, 51>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],l |-> 54,txs |-> <<>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 67, 0, 69>>, z |-> <<61, 0, 60, 51>>],mem |-> [A |-> 0, B |-> 0],log |-> [x |-> <<>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>>>, z |-> <<>>],l |-> 55,txs |-> <<[o |-> "A", seq |-> 0, upto |-> [x |-> 0, y |-> 3, z |-> 0]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 67, 0, 69>>, z |-> <<61, 0, 60, 51>>],mem |-> [A |-> 26, B |-> 0],log |-> [x |-> <<>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>>>, z |-> <<>>],l |-> 56,txs |-> <<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 67, 0, 69>>, z |-> <<61, 0, 60, 51>>],mem |-> [A |-> 26, B |-> 0],log |-> [x |-> <<>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>>>, z |-> <<<<2, 0, 68>>>>],l |-> 57,txs |-> <<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]], [o |-> "B", seq |-> 0, upto |-> [x |-> 0, y |-> 5, z |-> 1]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 67, 0, 69>>, z |-> <<61, 0, 60, 51>>],mem |-> [A |-> 26, B |-> 18],log |-> [x |-> <<>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>, <<4, 4, 69>>>>, z |-> <<<<2, 0, 68>>>>],l |-> 58,txs |-> <<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]], [o |-> "B", seq |-> 18, upto |-> [x |-> 0, y |-> 6, z |-> 1]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 67, 0, 69>>, z |-> <<61, 0, 60, 51>>],mem |-> [A |-> 26, B |-> 18],log |-> [x |-> <<>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>, <<4, 4, 69>>>>, z |-> <<<<2, 0, 68>>>>],l |-> 59,txs |-> <<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]], [o |-> "B", seq |-> 18, upto |-> [x |-> 0, y |-> 6, z |-> 1]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 67, 0, 69>>, z |-> <<0, 0, 71, 51>>],mem |-> [A |-> 26, B |-> 19],log |-> [x |-> <<>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>, <<4, 4, 69>>>>, z |-> <<<<2, 0, 68>>, <<1, 0, 70>>, <<3, 3, 71>>>>],l |-> 60,txs |-> <<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]], [o |-> "B", seq |-> 18, upto |-> [x |-> 0, y |-> 6, z |-> 1]], [o |-> "B", seq |-> 19, upto |-> [x |-> 0, y |-> 6, z |-> 3]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 0],truth |-> [x |-> <<73, 74, 27, 59>>, y |-> <<0, 67, 0, 69>>, z |-> <<0, 0, 71, 51>>],mem |-> [A |-> 27, B |-> 19],log |-> [x |-> <<<<1, 0, 72>>, <<2, 1, 73>>, <<0, 2, 74>>>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>, <<4, 4, 69>>>>, z |-> <<<<2, 0, 68>>, <<1, 0, 70>>, <<3, 3, 71>>>>],l |-> 61,txs |-> <<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]], [o |-> "B", seq |-> 18, upto |-> [x |-> 0, y |-> 6, z |-> 1]], [o |-> "B", seq |-> 19, upto |-> [x |-> 0, y |-> 6, z |-> 3]], [o |-> "A", seq |-> 27, upto |-> [x |-> 3, y |-> 6, z |-> 3]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 6],truth |-> [x |-> <<73, 74, 27, 59>>, y |-> <<0, 67, 0, 69>>, z |-> <<76, 75, 71, 0>>],mem |-> [A |-> 27, B |-> 21],log |-> [x |-> <<<<1, 0, 72>>, <<2, 1, 73>>, <<0, 2, 74>>>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>, <<4, 4, 69>>>>, z |-> <<<<2, 0, 68>>, <<1, 0, 70>>, <<3, 3, 71>>, <<0, 2, 75>>, <<0, 1, 76>>, <<4, 0, 77>>>>],l |-> 62,txs |-> <<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]], [o |-> "B", seq |-> 18, upto |-> [x |-> 0, y |-> 6, z |-> 1]], [o |-> "B", seq |-> 19, upto |-> [x |-> 0, y |-> 6, z |-> 3]], [o |-> "A", seq |-> 27, upto |-> [x |-> 3, y |-> 6, z |-> 3]], [o |-> "B", seq |-> 21, upto |-> [x |-> 3, y |-> 6, z |-> 6]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 6],truth |-> [x |-> <<73, 74, 80, 0>>, y |-> <<0, 67, 0, 69>>, z |-> <<76, 75, 71, 0>>],mem |-> [A |-> 27, B |-> 21],log |-> [x |-> <<<<1, 0, 72>>, <<2, 1, 73>>, <<0, 2, 74>>, <<4, 0, 78>>, <<3, 0, 79>>, <<0, 3, 80>>>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>, <<4, 4, 69>>>>, z |-> <<<<2, 0, 68>>, <<1, 0, 70>>, <<3, 3, 71>>, <<0, 2, 75>>, <<0, 1, 76>>, <<4, 0, 77>>>>],l |-> 63,txs |-> <<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]], [o |-> "B", seq |-> 18, upto |-> [x |-> 0, y |-> 6, z |-> 1]], [o |-> "B", seq |-> 19, upto |-> [x |-> 0, y |-> 6, z |-> 3]], [o |-> "A", seq |-> 27, upto |-> [x |-> 3, y |-> 6, z |-> 3]], [o |-> "B", seq |-> 21, upto |-> [x |-> 3, y |-> 6, z |-> 6]], [o |-> "B", seq |-> 0, upto |-> [x |-> 6, y |-> 6, z |-> 6]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 0, y |-> 0, z |-> 6],truth |-> [x |-> <<73, 74, 80, 0>>, y |-> <<0, 67, 0, 69>>, z |-> <<76, 75, 71, 0>>],mem |-> [A |-> 27, B |-> 23],log |-> [x |-> <<<<1, 0, 72>>, <<2, 1, 73>>, <<0, 2, 74>>, <<4, 0, 78>>, <<3, 0, 79>>, <<0, 3, 80>>>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>, <<4, 4, 69>>>>, z |-> <<<<2, 0, 68>>, <<1, 0, 70>>, <<3, 3, 71>>, <<0, 2, 75>>, <<0, 1, 76>>, <<4, 0, 77>>>>],l |-> 64,txs |-> <<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]], [o |-> "B", seq |-> 18, upto |-> [x |-> 0, y |-> 6, z |-> 1]], [o |-> "B", seq |-> 19, upto |-> [x |-> 0, y |-> 6, z |-> 3]], [o |-> "A", seq |-> 27, upto |-> [x |-> 3, y |-> 6, z |-> 3]], [o |-> "B", seq |-> 21, upto |-> [x |-> 3, y |-> 6, z |-> 6]], [o |-> "B", seq |-> 23, upto |-> [x |-> 6, y |-> 6, z |-> 6]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 6, y |-> 0, z |-> 6],truth |-> [x |-> <<73, 74, 80, 0>>, y |-> <<0, 67, 0, 69>>, z |-> <<76, 75, 0, 81>>],mem |-> [A |-> 27, B |-> 26],log |-> [x |-> <<<<1, 0, 72>>, <<2, 1, 73>>, <<0, 2, 74>>, <<4, 0, 78>>, <<3, 0, 79>>, <<0, 3, 80>>>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>, <<4, 4, 69>>>>, z |-> <<<<2, 0, 68>>, <<1, 0, 70>>, <<3, 3, 71>>, <<0, 2, 75>>, <<0, 1, 76>>, <<4, 0, 77>>, <<3, 4, 81>>>>],l |-> 65,txs |-> <<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]], [o |-> "B", seq |-> 18, upto |-> [x |-> 0, y |-> 6, z |-> 1]], [o |-> "B", seq |-> 19, upto |-> [x |-> 0, y |-> 6, z |-> 3]], [o |-> "A", seq |-> 27, upto |-> [x |-> 3, y |-> 6, z |-> 3]], [o |-> "B", seq |-> 21, upto |-> [x |-> 3, y |-> 6, z |-> 6]], [o |-> "B", seq |-> 23, upto |-> [x |-> 6, y |-> 6, z |-> 6]], [o |-> "B", seq |-> 26, upto |-> [x |-> 6, y |-> 6, z |-> 7]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 6, y |-> 0, z |-> 6],truth |-> [x |-> <<73, 74, 80, 0>>, y |-> <<0, 67, 0, 69>>, z |-> <<76, 84, 83, 81>>],mem |-> [A |-> 27, B |-> 28],log |-> [x |-> <<<<1, 0, 72>>, <<2, 1, 73>>, <<0, 2, 74>>, <<4, 0, 78>>, <<3, 0, 79>>, <<0, 3, 80>>>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>, <<4, 4, 69>>>>, z |-> <<<<2, 0, 68>>, <<1, 0, 70>>, <<3, 3, 71>>, <<0, 2, 75>>, <<0, 1, 76>>, <<4, 0, 77>>, <<3, 4, 81>>, <<2, 2, 82>>, <<0, 3, 83>>, <<2, 2, 84>>>>],l |-> 66,txs |-> <<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]], [o |-> "B", seq |-> 18, upto |-> [x |-> 0, y |-> 6, z |-> 1]], [o |-> "B", seq |-> 19, upto |-> [x |-> 0, y |-> 6, z |-> 3]], [o |-> "A", seq |-> 27, upto |-> [x |-> 3, y |-> 6, z |-> 3]], [o |-> "B", seq |-> 21, upto |-> [x |-> 3, y |-> 6, z |-> 6]], [o |-> "B", seq |-> 23, upto |-> [x |-> 6, y |-> 6, z |-> 6]], [o |-> "B", seq |-> 26, upto |-> [x |-> 6, y |-> 6, z |-> 7]], [o |-> "B", seq |-> 28, upto |-> [x |-> 6, y |-> 6, z |-> 10]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 6, y |-> 0, z |-> 6],truth |-> [x |-> <<73, 74, 80, 0>>, y |-> <<0, 67, 0, 69>>, z |-> <<76, 84, 83, 81>>],mem |-> [A |-> 27, B |-> 28],log |-> [x |-> <<<<1, 0, 72>>, <<2, 1, 73>>, <<0, 2, 74>>, <<4, 0, 78>>, <<3, 0, 79>>, <<0, 3, 80>>>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>, <<4, 4, 69>>>>, z |-> <<<<2, 0, 68>>, <<1, 0, 70>>, <<3, 3, 71>>, <<0, 2, 75>>, <<0, 1, 76>>, <<4, 0, 77>>, <<3, 4, 81>>, <<2, 2, 82>>, <<0, 3, 83>>, <<2, 2, 84>>>>],l |-> 67,txs |-> <<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]], [o |-> "B", seq |-> 18, upto |-> [x |-> 0, y |-> 6, z |-> 1]], [o |-> "B", seq |-> 19, upto |-> [x |-> 0, y |-> 6, z |-> 3]], [o |-> "A", seq |-> 27, upto |-> [x |-> 3, y |-> 6, z |-> 3]], [o |-> "B", seq |-> 21, upto |-> [x |-> 3, y |-> 6, z |-> 6]], [o |-> "B", seq |-> 23, upto |-> [x |-> 6, y |-> 6, z |-> 6]], [o |-> "B", seq |-> 26, upto |-> [x |-> 6, y |-> 6, z |-> 7]], [o |-> "B", seq |-> 28, upto |-> [x |-> 6, y |-> 6, z |-> 10]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 6, y |-> 0, z |-> 6],truth |-> [x |-> <<73, 74, 80, 87>>, y |-> <<0, 67, 0, 69>>, z |-> <<76, 84, 83, 81>>],mem |-> [A |-> 27, B |-> 28],log |-> [x |-> <<<<1, 0, 72>>, <<2, 1, 73>>, <<0, 2, 74>>, <<4, 0, 78>>, <<3, 0, 79>>, <<0, 3, 80>>, <<0, 4, 85>>, <<4, 0, 86>>, <<0, 4, 87>>>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>, <<4, 4, 69>>>>, z |-> <<<<2, 0, 68>>, <<1, 0, 70>>, <<3, 3, 71>>, <<0, 2, 75>>, <<0, 1, 76>>, <<4, 0, 77>>, <<3, 4, 81>>, <<2, 2, 82>>, <<0, 3, 83>>, <<2, 2, 84>>>>],l |-> 68,txs |-> <<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]], [o |-> "B", seq |-> 18, upto |-> [x |-> 0, y |-> 6, z |-> 1]], [o |-> "B", seq |-> 19, upto |-> [x |-> 0, y |-> 6, z |-> 3]], [o |-> "A", seq |-> 27, upto |-> [x |-> 3, y |-> 6, z |-> 3]], [o |-> "B", seq |-> 21, upto |-> [x |-> 3, y |-> 6, z |-> 6]], [o |-> "B", seq |-> 23, upto |-> [x |-> 6, y |-> 6, z |-> 6]], [o |-> "B", seq |-> 26, upto |-> [x |-> 6, y |-> 6, z |-> 7]], [o |-> "B", seq |-> 28, upto |-> [x |-> 6, y |-> 6, z |-> 10]], [o |-> "B", seq |-> 0, upto |-> [x |-> 9, y |-> 6, z |-> 10]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]]),
    ([dur |-> [A |-> 0, B |-> 0],cut |-> [x |-> 6, y |-> 0, z |-> 6],truth |-> [x |-> <<73, 74, 80, 87>>, y |-> <<0, 67, 0, 69>>, z |-> <<76, 84, 83, 81>>],mem |-> [A |-> 27, B |-> 28],log |-> [x |-> <<<<1, 0, 72>>, <<2, 1, 73>>, <<0, 2, 74>>, <<4, 0, 78>>, <<3, 0, 79>>, <<0, 3, 80>>, <<0, 4, 85>>, <<4, 0, 86>>, <<0, 4, 87>>>>, y |-> <<<<2, 0, 63>>, <<4, 4, 64>>, <<4, 4, 65>>, <<3, 3, 66>>, <<3, 2, 67>>, <<4, 4, 69>>>>, z |-> <<<<2, 0, 68>>, <<1, 0, 70>>, <<3, 3, 71>>, <<0, 2, 75>>, <<0, 1, 76>>, <<4, 0, 77>>, <<3, 4, 81>>, <<2, 2, 82>>, <<0, 3, 83>>, <<2, 2, 84>>>>],l |-> 69,txs |-> <<[o |-> "A", seq |-> 26, upto |-> [x |-> 0, y |-> 5, z |-> 0]], [o |-> "B", seq |-> 18, upto |-> [x |-> 0, y |-> 6, z |-> 1]], [o |-> "B", seq |-> 19, upto |-> [x |-> 0, y |-> 6, z |-> 3]], [o |-> "A", seq |-> 27, upto |-> [x |-> 3, y |-> 6, z |-> 3]], [o |-> "B", seq |-> 21, upto |-> [x |-> 3, y |-> 6, z |-> 6]], [o |-> "B", seq |-> 23, upto |-> [x |-> 6, y |-> 6, z |-> 6]], [o |-> "B", seq |-> 26, upto |-> [x |-> 6, y |-> 6, z |-> 7]], [o |-> "B", seq |-> 28, upto |-> [x |-> 6, y |-> 6, z |-> 10]], [o |-> "B", seq |-> 0, upto |-> [x |-> 9, y |-> 6, z |-> 10]]>>,base |-> [x |-> <<45, 58, 27, 59>>, y |-> <<0, 41, 42, 33>>, z |-> <<61, 62, 60, 51>>]])
    >>
----


=============================================================================

---- CONFIG SyncTrace_TTrace_1795076903 ----

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 08:28:25 UTC 2026