---- MODULE RangeCacheTrace_TTrace_1795077187 ----
EXTENDS Sequences, TLCExt, RangeCacheTrace, Toolbox, Naturals, TLC

_expression ==
    LET RangeCacheTrace_TEExpression == INSTANCE RangeCacheTrace_TEExpression
    IN RangeCacheTrace_TEExpression!expression
----

_trace ==
    LET RangeCacheTrace_TETrace == INSTANCE RangeCacheTrace_TETrace
    IN RangeCacheTrace_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        result = ([data |-> "none", again |-> <<>>])
        /\
        op = ([op |-> "init"])
        /\
        cap = (8)
        /\
        have = (<<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>)
        /\
        l = (94)
        /\
        ttl = (FALSE)
        /\
        down = (FALSE)
        /\
        on = ({<<1, 0>>, <<1, 3>>, <<2, 2>>, <<3, 1>>})
        /\
        full = (FALSE)
    )
----

_init ==
    /\ on = _TETrace[1].on
    /\ op = _TETrace[1].op
    /\ l = _TETrace[1].l
    /\ full = _TETrace[1].full
    /\ cap = _TETrace[1].cap
    /\ have = _TETrace[1].have
    /\ ttl = _TETrace[1].ttl
    /\ down = _TETrace[1].down
    /\ result = _TETrace[1].result
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ on  = _TETrace[i].on
        /\ on' = _TETrace[j].on
        /\ op  = _TETrace[i].op
        /\ op' = _TETrace[j].op
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ full  = _TETrace[i].full
        /\ full' = _TETrace[j].full
        /\ cap  = _TETrace[i].cap
        /\ cap' = _TETrace[j].cap
        /\ have  = _TETrace[i].have
        /\ have' = _TETrace[j].have
        /\ ttl  = _TETrace[i].ttl
        /\ ttl' = _TETrace[j].ttl
        /\ down  = _TETrace[i].down
        /\ down' = _TETrace[j].down
        /\ result  = _TETrace[i].result
        /\ result' = _TETrace[j].result

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("RangeCacheTrace_TTrace_1795077187.json", _TETrace)

=============================================================================

 Note that you can extract this module `RangeCacheTrace_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `RangeCacheTrace_TEExpression.tla` file takes precedence 
  over the module `RangeCacheTrace_TEExpression` below).

---- MODULE RangeCacheTrace_TEExpression ----
EXTENDS Sequences, TLCExt, RangeCacheTrace, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `RangeCacheTrace` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        on |-> on
        ,op |-> op
        ,l |-> l
        ,full |-> full
        ,cap |-> cap
        ,have |-> have
        ,ttl |-> ttl
        ,down |-> down
        ,result |-> result
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_onUnchanged |-> on = on'
        
        \* Format the `on` variable as Json value.
        \* ,_onJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(on)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_onModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].on # _TETrace[s-1].on
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE RangeCacheTrace_TETrace ----
\*EXTENDS IOUtils, RangeCacheTrace, TLC
\*
\*trace == IODeserialize("RangeCacheTrace_TTrace_1795077187.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE RangeCacheTrace_TETrace ----
EXTENDS RangeCacheTrace, TLC

trace == 
    <<
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 0,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 1,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 2,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 3,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 4,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 5,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 6,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 7,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 8,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 9,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 10,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 11,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 12,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 13,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 14,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 15,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 16,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 17,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 18,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 19,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 20,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 21,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 22,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 23,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 24,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 25,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 26,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 27,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 28,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 29,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 30,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 31,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 32,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 33,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 34,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 35,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 36,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 37,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 38,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 39,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 40,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 41,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 42,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 43,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 44,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 45,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 46,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 47,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 48,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 49,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 50,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 51,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 52,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 53,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 54,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 55,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 56,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 57,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 58,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 59,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 60,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 61,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 62,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 63,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 64,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 65,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 66,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 67,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 68,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 69,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 70,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 71,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 72,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 73,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 74,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 75,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 76,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 77,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 78,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 79,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 80,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 81,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 82,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 83,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 84,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 85,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 86,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 87,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 88,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 89,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 90,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 91,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 92,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 93,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 94,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<2, 2>>, <<3, 1>>},full |-> FALSE])
    >>
----


=============================================================================

---- CONFIG RangeCacheTrace_TTrace_1795077187 ----
CONSTANTS
    C = 2
    Lens <- TraceObjects
    MaxEnd = 10
    Pairs <- NoPairs
    Faults = FALSE
    WatchData = FALSE
    WatchFiles = TRUE

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 08:33:09 UTC 2026