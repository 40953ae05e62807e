---- MODULE RangeCacheTrace_TTrace_1795077268 ----
EXTENDS Sequences, TLCExt, RangeCacheTrace, Toolbox, Naturals, TLC

_expression ==
    LET RangeCacheTrace_TEExpression == INSTANCE RangeCacheTrace_TEExpression
    IN RangeCacheTrace_TEExpression!expression
----

_trace ==
    LET RangeCacheTrace_TETrace == INSTANCE RangeCacheTrace_TETrace
    IN RangeCacheTrace_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        result = ([data |-> "none", again |-> <<>>])
        /\
        op = ([op |-> "init"])
        /\
        cap = (14)
        /\
        have = (<<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>)
        /\
        l = (486)
        /\
        ttl = (TRUE)
        /\
        down = (FALSE)
        /\
        on = ({<<1, 2>>, <<1, 4>>})
        /\
        full = (FALSE)
    )
----

_init ==
    /\ on = _TETrace[1].on
    /\ op = _TETrace[1].op
    /\ l = _TETrace[1].l
    /\ full = _TETrace[1].full
    /\ cap = _TETrace[1].cap
    /\ have = _TETrace[1].have
    /\ ttl = _TETrace[1].ttl
    /\ down = _TETrace[1].down
    /\ result = _TETrace[1].result
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ on  = _TETrace[i].on
        /\ on' = _TETrace[j].on
        /\ op  = _TETrace[i].op
        /\ op' = _TETrace[j].op
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ full  = _TETrace[i].full
        /\ full' = _TETrace[j].full
        /\ cap  = _TETrace[i].cap
        /\ cap' = _TETrace[j].cap
        /\ have  = _TETrace[i].have
        /\ have' = _TETrace[j].have
        /\ ttl  = _TETrace[i].ttl
        /\ ttl' = _TETrace[j].ttl
        /\ down  = _TETrace[i].down
        /\ down' = _TETrace[j].down
        /\ result  = _TETrace[i].result
        /\ result' = _TETrace[j].result

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("RangeCacheTrace_TTrace_1795077268.json", _TETrace)

=============================================================================

 Note that you can extract this module `RangeCacheTrace_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `RangeCacheTrace_TEExpression.tla` file takes precedence 
  over the module `RangeCacheTrace_TEExpression` below).

---- MODULE RangeCacheTrace_TEExpression ----
EXTENDS Sequences, TLCExt, RangeCacheTrace, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `RangeCacheTrace` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        on |-> on
        ,op |-> op
        ,l |-> l
        ,full |-> full
        ,cap |-> cap
        ,have |-> have
        ,ttl |-> ttl
        ,down |-> down
        ,result |-> result
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_onUnchanged |-> on = on'
        
        \* Format the `on` variable as Json value.
        \* ,_onJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(on)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_onModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].on # _TETrace[s-1].on
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE RangeCacheTrace_TETrace ----
\*EXTENDS IOUtils, RangeCacheTrace, TLC
\*
\*trace == IODeserialize("RangeCacheTrace_TTrace_1795077268.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE RangeCacheTrace_TETrace ----
EXTENDS RangeCacheTrace, TLC

trace == 
    <<
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 0,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 1,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 2,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 3,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 4,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 5,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 6,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 7,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 8,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 9,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 10,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 11,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 12,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 13,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 14,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 15,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 16,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 17,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 18,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 19,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 20,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 21,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 22,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 23,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 24,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 25,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 26,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 27,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 28,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 29,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 30,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 31,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 32,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 33,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 34,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 35,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 36,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 37,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 38,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 39,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 40,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 41,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 42,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 43,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 44,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 45,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 46,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 47,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 48,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 49,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 50,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 51,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 52,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 53,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 54,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 55,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 56,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 57,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 58,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 59,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 60,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 61,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 62,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 63,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 64,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 65,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 66,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 67,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 68,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 69,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 70,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 71,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 72,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 73,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 74,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 75,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 76,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 77,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 78,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 79,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 80,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 81,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 82,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 83,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 84,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 85,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 86,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 87,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 88,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 89,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 90,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 91,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 92,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 93,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 94,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 95,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 96,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 97,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 98,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 99,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 100,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 101,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 102,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 103,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 104,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 105,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 106,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 107,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 108,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 109,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 110,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 111,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 112,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 113,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 114,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 115,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 116,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 117,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 118,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 119,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 120,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 121,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 122,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 123,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 124,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 125,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 126,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 127,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 128,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 129,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 130,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 131,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 132,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 133,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 134,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 135,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 136,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 137,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 138,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 139,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 140,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 141,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 142,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 143,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 144,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 145,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 146,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 147,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 148,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 149,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 150,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 151,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 152,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 153,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 154,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 155,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 156,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 157,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 158,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 159,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 160,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 161,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 162,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 163,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 164,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 165,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 166,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 167,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 168,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 169,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 170,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 171,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 172,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 173,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 174,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 175,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 176,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 177,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 178,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 179,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 180,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 181,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 182,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 183,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 184,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 185,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 186,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 187,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 188,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 189,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 190,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 191,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 192,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 193,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 194,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 195,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 196,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 197,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 198,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 199,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 200,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 201,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 202,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 203,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 204,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 205,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 206,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 207,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 208,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 3>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 209,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 210,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 211,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 212,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 213,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 214,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 215,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 216,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 217,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 218,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 219,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 220,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 221,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 222,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 223,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 224,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 225,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 226,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 227,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 228,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 229,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 230,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 231,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 232,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 233,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 234,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 235,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 236,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 237,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 238,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 239,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 240,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 241,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 242,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 243,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 244,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 245,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 246,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 247,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 248,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 249,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 250,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 251,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 252,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 253,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 254,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 255,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 256,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 257,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 258,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 259,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 260,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 261,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 262,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 263,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 264,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 265,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 266,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 267,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 268,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 269,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 270,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<1, 4>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 271,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 272,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 273,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 274,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 275,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 276,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 277,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 278,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 279,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 280,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 281,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 282,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 283,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 284,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 285,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 286,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 287,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 288,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 289,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 290,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 291,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 292,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 293,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 294,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 295,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 296,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 297,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 298,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 299,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 300,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 301,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 302,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 303,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 304,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 305,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 306,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 307,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 308,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 309,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 310,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 311,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 312,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 313,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 314,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 315,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 316,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 317,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 318,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 319,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 320,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 321,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 322,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 323,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 324,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 325,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 326,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 327,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 328,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 329,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 330,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 331,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 332,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 333,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 334,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 335,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 336,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 337,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 338,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 339,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 340,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 341,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 342,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 343,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 344,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 345,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 346,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 347,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 348,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 349,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 350,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 351,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 352,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 353,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 354,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 355,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 356,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 357,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 358,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 359,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 360,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 361,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 362,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 363,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 364,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 365,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 366,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 367,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 368,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 369,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 370,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 371,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 372,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 373,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 374,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 375,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 376,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 377,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 378,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 379,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 380,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 381,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 382,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 383,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 384,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 385,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 386,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 387,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 388,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 389,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 390,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 391,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 392,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 393,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 394,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 395,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 396,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 397,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 398,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 399,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 400,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 401,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 402,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 403,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 404,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 4>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 405,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 406,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 407,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 408,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 409,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 410,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 411,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 412,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 413,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 414,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 415,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 416,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 417,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 418,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 419,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 420,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 421,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 422,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 423,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 424,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 425,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 426,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 427,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 428,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 429,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 430,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 431,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 432,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 433,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 434,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 435,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 436,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 437,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 438,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 439,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 440,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 441,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 442,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 443,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 444,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 445,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 446,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 447,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 448,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 449,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 450,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 451,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 452,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 453,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 454,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 455,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 456,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 457,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 458,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 459,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 460,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 461,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 462,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 463,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 464,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 465,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 466,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 467,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 468,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 469,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 470,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 471,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 472,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 473,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 474,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 475,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 476,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 477,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 478,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 479,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 480,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 481,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 482,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 483,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 484,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 485,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 486,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>},full |-> FALSE])
    >>
----


=============================================================================

---- CONFIG RangeCacheTrace_TTrace_1795077268 ----
CONSTANTS
    C = 2
    Lens <- TraceObjects
    MaxEnd = 10
    Pairs <- NoPairs
    Faults = FALSE
    WatchData = FALSE
    WatchFiles = TRUE

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 08:34:29 UTC 2026