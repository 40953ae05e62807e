---- MODULE RangeCacheTrace_TTrace_1795077193 ----
EXTENDS Sequences, TLCExt, RangeCacheTrace, Toolbox, Naturals, TLC

_expression ==
    LET RangeCacheTrace_TEExpression == INSTANCE RangeCacheTrace_TEExpression
    IN RangeCacheTrace_TEExpression!expression
----

_trace ==
    LET RangeCacheTrace_TETrace == INSTANCE RangeCacheTrace_TETrace
    IN RangeCacheTrace_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        result = ([data |-> "none", again |-> <<>>])
        /\
        op = ([op |-> "init"])
        /\
        cap = (4)
        /\
        have = (<<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>)
        /\
        l = (875)
        /\
        ttl = (FALSE)
        /\
        down = (FALSE)
        /\
        on = ({<<3, 0>>, <<3, 1>>})
        /\
        full = (FALSE)
    )
----

_init ==
    /\ on = _TETrace[1].on
    /\ op = _TETrace[1].op
    /\ l = _TETrace[1].l
    /\ full = _TETrace[1].full
    /\ cap = _TETrace[1].cap
    /\ have = _TETrace[1].have
    /\ ttl = _TETrace[1].ttl
    /\ down = _TETrace[1].down
    /\ result = _TETrace[1].result
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ on  = _TETrace[i].on
        /\ on' = _TETrace[j].on
        /\ op  = _TETrace[i].op
        /\ op' = _TETrace[j].op
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ full  = _TETrace[i].full
        /\ full' = _TETrace[j].full
        /\ cap  = _TETrace[i].cap
        /\ cap' = _TETrace[j].cap
        /\ have  = _TETrace[i].have
        /\ have' = _TETrace[j].have
        /\ ttl  = _TETrace[i].ttl
        /\ ttl' = _TETrace[j].ttl
        /\ down  = _TETrace[i].down
        /\ down' = _TETrace[j].down
        /\ result  = _TETrace[i].result
        /\ result' = _TETrace[j].result

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("RangeCacheTrace_TTrace_1795077193.json", _TETrace)

=============================================================================

 Note that you can extract this module `RangeCacheTrace_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `RangeCacheTrace_TEExpression.tla` file takes precedence 
  over the module `RangeCacheTrace_TEExpression` below).

---- MODULE RangeCacheTrace_TEExpression ----
EXTENDS Sequences, TLCExt, RangeCacheTrace, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `RangeCacheTrace` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        on |-> on
        ,op |-> op
        ,l |-> l
        ,full |-> full
        ,cap |-> cap
        ,have |-> have
        ,ttl |-> ttl
        ,down |-> down
        ,result |-> result
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_onUnchanged |-> on = on'
        
        \* Format the `on` variable as Json value.
        \* ,_onJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(on)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_onModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].on # _TETrace[s-1].on
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE RangeCacheTrace_TETrace ----
\*EXTENDS IOUtils, RangeCacheTrace, TLC
\*
\*trace == IODeserialize("RangeCacheTrace_TTrace_1795077193.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE RangeCacheTrace_TETrace ----
EXTENDS RangeCacheTrace, TLC

trace == 
    <<
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 0,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 1,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 2,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 3,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 4,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 5,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 6,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 7,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 8,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 9,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 10,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 11,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 12,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 13,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 14,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 15,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 16,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 17,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 18,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 19,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 20,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 21,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 22,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 23,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 24,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 25,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 26,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 27,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 28,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 29,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 30,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 31,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 32,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 33,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 34,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 35,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 36,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 37,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 38,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 39,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 40,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 41,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 42,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 43,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 44,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 45,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 46,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 47,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 48,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 49,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 50,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 51,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 52,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 53,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 54,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 55,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 56,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 57,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 58,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 59,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 60,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 61,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 62,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 63,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 64,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 65,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 66,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 67,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 68,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 69,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 70,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 71,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 72,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 73,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 74,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 75,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 76,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 77,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 78,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 79,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 80,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 81,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 82,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 83,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 84,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 85,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 86,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 87,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 88,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 89,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 90,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 91,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 92,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 93,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 94,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 95,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 96,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 97,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 98,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 99,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 100,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 101,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 102,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 103,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 104,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 105,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 106,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 107,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 108,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 109,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 110,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 111,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 112,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 113,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 114,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 115,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 116,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 117,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 118,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 119,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 120,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 121,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 122,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 123,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 124,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 125,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 126,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 127,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 128,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 129,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 130,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 131,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 132,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 133,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 134,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 135,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 136,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 137,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 138,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 139,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 140,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 141,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 142,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 143,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 144,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 145,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 146,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 147,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 148,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 149,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 150,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 151,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 152,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 153,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 154,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 155,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 156,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 157,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 158,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 159,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 160,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 161,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 162,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 163,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 164,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 165,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 166,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 167,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 168,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 169,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 170,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 171,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 172,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 173,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 174,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 175,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 176,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 177,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 178,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 179,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 180,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 181,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 182,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 183,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 184,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 185,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 186,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 187,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 188,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 189,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 190,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 191,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 192,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 193,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 194,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 195,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 196,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 197,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 198,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 199,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 200,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 201,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 202,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 203,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 204,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 205,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 206,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 207,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 208,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 209,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 210,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 211,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 212,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 213,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 214,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 215,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 216,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 217,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 218,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 219,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 220,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 221,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 222,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 223,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 224,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 225,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 226,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 227,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 228,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 229,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 230,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 231,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 232,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 233,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 234,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 235,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 236,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 237,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 238,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 239,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 240,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 241,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 242,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 243,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 244,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 245,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 246,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 247,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 248,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 249,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 250,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 251,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 252,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 253,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 254,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 255,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 256,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 257,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 258,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 259,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 260,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 261,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 262,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 263,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 264,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 265,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 266,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 267,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 268,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 269,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 270,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 271,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 272,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 273,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 274,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 275,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 276,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 277,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 278,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 279,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 280,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 281,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 282,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 283,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 284,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 285,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 286,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 287,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 288,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 289,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 290,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 291,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 292,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 293,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 294,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 295,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 296,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 297,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 298,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 299,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 300,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 301,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 302,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 303,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 304,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 305,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 306,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 307,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 308,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 309,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 310,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 311,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 312,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 313,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 314,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 315,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 316,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 317,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 318,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 319,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 320,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 321,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 322,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 323,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 324,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 325,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 326,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 327,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 328,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 329,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 330,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 331,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 332,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 333,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 334,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 335,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 336,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 337,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 338,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 339,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 340,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 341,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 342,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 343,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 344,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 345,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 346,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 347,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 348,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 349,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 350,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 351,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 352,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 353,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 354,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 355,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 356,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 357,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 358,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 359,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 360,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 361,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 362,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 363,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 364,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 365,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 366,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 367,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 368,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 369,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 370,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 371,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 372,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 373,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 374,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 375,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 376,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 377,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 378,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 379,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 380,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 381,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 382,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 383,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 384,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 385,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 386,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 387,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 388,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 389,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 390,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 391,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 392,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 393,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 394,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 395,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 396,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 397,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 398,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 399,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 400,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 401,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 402,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 403,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 404,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 405,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 406,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 407,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 408,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 409,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 410,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 411,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 412,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 413,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 4>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 414,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 415,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 416,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 417,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 418,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 419,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 420,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 421,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 422,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 423,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 424,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 425,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 426,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 427,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 428,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 429,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 430,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 431,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 432,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 433,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 434,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 435,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 436,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 437,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 438,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 439,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 440,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 441,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 442,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 443,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 444,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 445,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 446,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 447,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 448,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 449,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 450,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 451,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<2, 0>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 452,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 453,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 454,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 455,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 456,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 3>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 457,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 458,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 459,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 460,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 461,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 462,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 463,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 464,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 465,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 466,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 467,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 468,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 469,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 470,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 471,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 472,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 473,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 474,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 475,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 476,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 477,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 478,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 479,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 480,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 481,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 482,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 483,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 484,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 485,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 486,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 487,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 488,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 489,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 490,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 491,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 492,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 493,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 494,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 495,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 496,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 497,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 498,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 499,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 500,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 501,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 502,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 503,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 504,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 505,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 506,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 507,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 508,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 509,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 510,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 511,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 512,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 513,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 514,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 515,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 516,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 517,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 518,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 519,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 520,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 521,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 522,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 523,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 524,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 525,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 526,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 527,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 528,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 529,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 530,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 531,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 532,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 533,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 4>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 534,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 535,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 536,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 537,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 538,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 539,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 540,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 541,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 542,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 543,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 544,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 545,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 546,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 8,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 547,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 548,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 549,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 550,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 551,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 552,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 553,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 554,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 555,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 556,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 557,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 558,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 559,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 560,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 561,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 562,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 563,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 564,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 565,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 566,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 567,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 568,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 569,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 570,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 571,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 572,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 573,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 574,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 575,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 576,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 577,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 578,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 579,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 580,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 581,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 582,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 583,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 584,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 585,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 586,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 587,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 588,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 589,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 590,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 591,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 592,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 593,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 594,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 595,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 596,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 597,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 598,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 599,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 600,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 601,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 602,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 603,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 604,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 605,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 606,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 607,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 608,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 609,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 610,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 611,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 612,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 613,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 614,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 615,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 616,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 617,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 618,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 619,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 620,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 621,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 622,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 623,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 624,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 625,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 626,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 627,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 628,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 629,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 630,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 14,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 631,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 632,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 633,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 634,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 635,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 636,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 637,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 638,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 639,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 640,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 641,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 642,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 643,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 644,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 645,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 646,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 647,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 648,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 649,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 650,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 651,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 652,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 653,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 654,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 655,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 656,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 657,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 658,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 659,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 660,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 661,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 662,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 663,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 664,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 665,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 666,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 667,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 668,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 669,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 670,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 671,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 672,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 673,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 674,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 675,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 676,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 677,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 678,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 679,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 680,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 681,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 682,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 683,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 684,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 4>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 685,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 686,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 687,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 688,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 689,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 690,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 691,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 692,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 693,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 694,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 695,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 696,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 697,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 698,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 699,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 700,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 701,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 702,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 703,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 704,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 705,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 706,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 707,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 708,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 709,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 710,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 711,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 712,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 713,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 714,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 6,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 715,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 716,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 717,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 718,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 719,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 720,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 721,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 722,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 723,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 724,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 725,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 726,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 727,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 728,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 729,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 730,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 731,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 732,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 733,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 734,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 735,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 736,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 737,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 738,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 739,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 740,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 741,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 742,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 743,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 744,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 745,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 746,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 747,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 748,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 749,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 750,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 751,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 752,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 753,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 754,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 755,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 756,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 12,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 757,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 758,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 759,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 760,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 761,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 762,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 763,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 764,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 765,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 766,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 767,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 768,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>, <<1, 4>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 769,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 770,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 771,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 772,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 773,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 774,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 775,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 776,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 777,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 778,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 779,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 780,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 781,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 782,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 783,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 784,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 785,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 786,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 787,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 788,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 4>>, <<2, 0>>, <<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 789,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 790,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 791,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 792,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 793,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 794,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 795,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<2, 2>>, <<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 796,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 797,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 798,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 10,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 799,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 800,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 801,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 802,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 803,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 804,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 805,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 806,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 807,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 808,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 809,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 810,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 811,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 812,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 813,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 814,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 815,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 816,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 817,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 818,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 819,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 4>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 820,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 821,ttl |-> TRUE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 822,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 2>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 823,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 824,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 825,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 826,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 827,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 828,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 829,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 830,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 831,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 832,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 833,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 834,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 835,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 836,ttl |-> TRUE,down |-> FALSE,on |-> {<<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 837,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 838,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 839,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 840,ttl |-> TRUE,down |-> FALSE,on |-> {<<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 841,ttl |-> TRUE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 842,ttl |-> FALSE,down |-> FALSE,on |-> {},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 843,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 844,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 3>>, <<1, 4>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 845,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 846,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 847,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 3>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 848,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 849,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 850,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 851,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 852,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 853,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 854,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 855,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 856,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 857,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 858,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 859,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 860,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 861,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<2, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 862,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 863,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 864,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 865,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 2>>, <<3, 0>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 866,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 867,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 868,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 869,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 0>>, <<2, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 870,ttl |-> FALSE,down |-> FALSE,on |-> {<<2, 1>>, <<2, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 871,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 1>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 872,ttl |-> FALSE,down |-> FALSE,on |-> {<<1, 0>>, <<1, 2>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 873,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 874,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE]),
    ([result |-> [data |-> "none", again |-> <<>>],op |-> [op |-> "init"],cap |-> 4,have |-> <<(0 :> "no" @@ 1 :> "no" @@ 2 :> "no" @@ 3 :> "no" @@ 4 :> "no"), (0 :> "no" @@ 1 :> "no" @@ 2 :> "no"), (0 :> "no" @@ 1 :> "no")>>,l |-> 875,ttl |-> FALSE,down |-> FALSE,on |-> {<<3, 0>>, <<3, 1>>},full |-> FALSE])
    >>
----


=============================================================================

---- CONFIG RangeCacheTrace_TTrace_1795077193 ----
CONSTANTS
    C = 2
    Lens <- TraceObjects
    MaxEnd = 10
    Pairs <- NoPairs
    Faults = FALSE
    WatchData = FALSE
    WatchFiles = TRUE

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 08:33:15 UTC 2026