---- MODULE CatalogTrace_TTrace_1795076737 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, CatalogTrace

_expression ==
    LET CatalogTrace_TEExpression == INSTANCE CatalogTrace_TEExpression
    IN CatalogTrace_TEExpression!expression
----

_trace ==
    LET CatalogTrace_TETrace == INSTANCE CatalogTrace_TETrace
    IN CatalogTrace_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        op = ([op |-> "delete_database", d |-> "db"])
        /\
        res = ("ok")
        /\
        coll = ({<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>})
        /\
        tab = ([h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3, 1>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0, 2>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0, 1>>], h24 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]])
        /\
        fn = ((<<"db%_'\"", "FUN">> :> "z"))
        /\
        l = (108)
        /\
        db = ({"db%_'\""})
    )
----

_init ==
    /\ coll = _TETrace[1].coll
    /\ tab = _TETrace[1].tab
    /\ op = _TETrace[1].op
    /\ l = _TETrace[1].l
    /\ db = _TETrace[1].db
    /\ res = _TETrace[1].res
    /\ fn = _TETrace[1].fn
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ coll  = _TETrace[i].coll
        /\ coll' = _TETrace[j].coll
        /\ tab  = _TETrace[i].tab
        /\ tab' = _TETrace[j].tab
        /\ op  = _TETrace[i].op
        /\ op' = _TETrace[j].op
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ db  = _TETrace[i].db
        /\ db' = _TETrace[j].db
        /\ res  = _TETrace[i].res
        /\ res' = _TETrace[j].res
        /\ fn  = _TETrace[i].fn
        /\ fn' = _TETrace[j].fn

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("CatalogTrace_TTrace_1795076737.json", _TETrace)

=============================================================================

 Note that you can extract this module `CatalogTrace_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `CatalogTrace_TEExpression.tla` file takes precedence 
  over the module `CatalogTrace_TEExpression` below).

---- MODULE CatalogTrace_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, CatalogTrace

expression == 
    [
        \* To hide variables of the `CatalogTrace` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        coll |-> coll
        ,tab |-> tab
        ,op |-> op
        ,l |-> l
        ,db |-> db
        ,res |-> res
        ,fn |-> fn
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_collUnchanged |-> coll = coll'
        
        \* Format the `coll` variable as Json value.
        \* ,_collJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(coll)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_collModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].coll # _TETrace[s-1].coll
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE CatalogTrace_TETrace ----
\*EXTENDS IOUtils, TLC, CatalogTrace
\*
\*trace == IODeserialize("CatalogTrace_TTrace_1795076737.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE CatalogTrace_TETrace ----
EXTENDS TLC, CatalogTrace

trace == 
    <<
    ([op |-> [op |-> "init"],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 1,db |-> {}]),
    ([op |-> [op |-> "create_database", d |-> "db%_'\""],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 2,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db%_'\"", f |-> "fun", repl |-> TRUE, det |-> "x"],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x"),l |-> 3,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 5],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x"),l |-> 4,db |-> {"db%_'\""}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table ", h |-> "h1"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x"),l |-> 5,db |-> {"db%_'\""}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table", h |-> "h2"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x"),l |-> 6,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 1],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x"),l |-> 7,db |-> {"db%_'\""}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table%_'\"", h |-> "h3"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x"),l |-> 8,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db%_'\"", f |-> "fun ", repl |-> TRUE, det |-> "y"],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y"),l |-> 9,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db%_'\"", f |-> "FUN", repl |-> FALSE, det |-> "z"],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 10,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 0],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 11,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db%_'\"", f |-> "FUN", repl |-> FALSE, det |-> "y"],res |-> "unique",coll |-> {},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 12,db |-> {"db%_'\""}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "h4"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 13,db |-> {"db%_'\""}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "h5"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 14,db |-> {"db%_'\""}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "h6"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 15,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db%_'\"", c |-> "PUBLIC"],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 16,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "?"],res |-> "ok:0",coll |-> {<<"db%_'\"", "PUBLIC">>},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 17,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", h |-> "?", stay |-> FALSE],res |-> "missing",coll |-> {<<"db%_'\"", "PUBLIC">>},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 18,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db%_'\"", f |-> "fun%_'\"", repl |-> TRUE, det |-> "z"],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 19,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db%_'\"", f |-> "fun%_'\"", repl |-> FALSE, det |-> "z"],res |-> "unique",coll |-> {<<"db%_'\"", "PUBLIC">>},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 20,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "db"],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 21,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 3],res |-> "missing",coll |-> {<<"db%_'\"", "PUBLIC">>},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 22,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db%_'\"", c |-> "public%_'\""],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 23,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "db"],res |-> "unique",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 24,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db", c |-> "PUBLIC"],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> <<>>,fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 25,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "db", c |-> "PUBLIC", n |-> "table", h |-> "h7"],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 26,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "db"],res |-> "unique",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 27,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h7", v |-> 4],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 4>>]],fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 28,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "h7", stay |-> TRUE],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0, 4>>]],fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 29,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", h |-> "h8"],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0, 4>>], h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 30,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h7", v |-> 4],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0, 4, 4>>], h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 31,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "db"],res |-> "unique",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0, 4, 4>>], h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 32,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", h |-> "h9"],res |-> "unique",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0, 4, 4>>], h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 33,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table", h |-> "h7", stay |-> TRUE],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 4, 4>>], h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 34,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", h |-> "h10"],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 4, 4>>], h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h10 |-> [s |-> "B", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 35,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h10", v |-> 3],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 4, 4>>], h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h10 |-> [s |-> "B", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 3>>]],fn |-> (<<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 36,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db", f |-> "FUN", repl |-> TRUE, det |-> "x"],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 4, 4>>], h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h10 |-> [s |-> "B", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 3>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 37,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h7", v |-> 4],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 4, 4, 4>>], h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h10 |-> [s |-> "B", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 3>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 38,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "h8"],res |-> "ok:0",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 4, 4, 4>>], h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h10 |-> [s |-> "B", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 3>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "fun ">> :> "y" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 39,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "drop_function", d |-> "db%_'\"", fs |-> <<"fun ">>],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h7 |-> [s |-> "B", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 4, 4, 4>>], h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h10 |-> [s |-> "B", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 3>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 40,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "delete_table", h |-> "h7"],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h10 |-> [s |-> "B", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 3>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 41,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", h |-> "h10", stay |-> FALSE],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h10 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 3>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 42,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "delete_table", h |-> "h10"],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 43,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h8", v |-> 0],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 44,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db", f |-> "fun ", repl |-> TRUE, det |-> "x"],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0>>]],fn |-> (<<"db", "fun ">> :> "x" @@ <<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 45,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "db%_'\""],res |-> "unique",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0>>]],fn |-> (<<"db", "fun ">> :> "x" @@ <<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 46,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "drop_function", d |-> "db", fs |-> <<"fun ", "fun ", "fun ">>],res |-> "ok",coll |-> {<<"db", "PUBLIC">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 47,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "delete_collection", d |-> "db", c |-> "PUBLIC"],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 48,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 4],res |-> "missing",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 49,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db%_'\"", f |-> "fun", repl |-> FALSE, det |-> "z"],res |-> "unique",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 50,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db%_'\"", c |-> "PUBLIC"],res |-> "unique",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 51,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h8", v |-> 5],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0, 5>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 52,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h8", v |-> 3],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0, 5, 3>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 53,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h8", v |-> 0],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0, 5, 3, 0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 54,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h8", v |-> 3],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0, 5, 3, 0, 3>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 55,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table", h |-> "?", stay |-> TRUE],res |-> "missing",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0, 5, 3, 0, 3>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 56,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db%_'\"", f |-> "FUN", repl |-> FALSE, det |-> "y"],res |-> "unique",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0, 5, 3, 0, 3>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 57,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h8", v |-> 3],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0, 5, 3, 0, 3, 3>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 58,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", h |-> "h11"],res |-> "unique",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 0, 5, 3, 0, 3, 3>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 59,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", h |-> "h8", stay |-> FALSE],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 0, 5, 3, 0, 3, 3>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 60,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", h |-> "h12"],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 0, 5, 3, 0, 3, 3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 61,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", h |-> "h13"],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 0, 5, 3, 0, 3, 3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 62,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h12", v |-> 0],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 0, 5, 3, 0, 3, 3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 63,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db", c |-> "public"],res |-> "ok",coll |-> {<<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 0, 5, 3, 0, 3, 3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 64,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", h |-> "h14"],res |-> "ok",coll |-> {<<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 0, 5, 3, 0, 3, 3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 65,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "db", c |-> "public", n |-> "table", h |-> "h15"],res |-> "ok",coll |-> {<<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 0, 5, 3, 0, 3, 3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 66,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db%_'\"", c |-> "public"],res |-> "ok",coll |-> {<<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 0, 5, 3, 0, 3, 3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 67,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db", c |-> "public"],res |-> "unique",coll |-> {<<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 0, 5, 3, 0, 3, 3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 68,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table ", h |-> "h14", stay |-> TRUE],res |-> "ok",coll |-> {<<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 0, 5, 3, 0, 3, 3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 69,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db", f |-> "fun%_'\"", repl |-> FALSE, det |-> "x"],res |-> "ok",coll |-> {<<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<0, 0, 5, 3, 0, 3, 3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 70,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "h8"],res |-> "ok:6",coll |-> {<<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 71,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db", c |-> "public%_'\""],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 72,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "E", op |-> "create_table", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", h |-> "h16"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 73,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "h8"],res |-> "ok:0",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 74,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h14", v |-> 2],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 75,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table%_'\"", h |-> "h16", stay |-> TRUE],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 76,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "db%_'\"", c |-> "public", n |-> "table", h |-> "h17"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 77,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "drop_function", d |-> "db", fs |-> <<"fun ", "fun ", "FUN">>],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 78,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "db%_'\""],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 79,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db%_'\"", f |-> "fun%_'\"", repl |-> FALSE, det |-> "y"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 80,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "db%_'\"", c |-> "public", n |-> "table", h |-> "h18"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 81,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h13", v |-> 2],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 82,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db%_'\"", c |-> "PUBLIC"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 83,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", h |-> "h19"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 84,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "db", c |-> "public", n |-> "table ", h |-> "h20"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 85,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db%_'\"", c |-> "PUBLIC"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h12 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 0>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 86,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "delete_table", h |-> "h12"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "fun">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z" @@ <<"db%_'\"", "fun%_'\"">> :> "z"),l |-> 87,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "drop_function", d |-> "db%_'\"", fs |-> <<"fun%_'\"", "fun", "fun%_'\"">>],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 88,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "TABLE", h |-> "h21"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 89,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "db%_'\""],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 90,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h14", v |-> 0],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 91,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", h |-> "h22"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 92,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h17", v |-> 2],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 93,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table%_'\"", h |-> "h14", stay |-> TRUE],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 94,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db", c |-> "public%_'\""],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 95,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h22", v |-> 1],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 96,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table ", h |-> "h17", stay |-> TRUE],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 97,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", h |-> "h23"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 98,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db%_'\"", c |-> "public%_'\""],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 99,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h8", v |-> 1],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3, 1>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 100,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "db", c |-> "public%_'\"", n |-> "table", h |-> "h16", stay |-> FALSE],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3, 1>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 101,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h16", v |-> 2],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3, 1>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 2>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 102,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", h |-> "h16", stay |-> FALSE],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3, 1>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 103,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "E", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", h |-> "h24"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3, 1>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0, 1>>], h24 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 104,db |-> {"db", "db%_'\""}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", h |-> "h25"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3, 1>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0, 1>>], h24 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h25 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 105,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db", c |-> "public%_'\""],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3, 1>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0, 1>>], h24 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h25 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 106,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "db%_'\""],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "public">>, <<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3, 1>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h15 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0, 2>>], h20 |-> [s |-> "A", d |-> "db", c |-> "public", n |-> "table ", vs |-> <<0>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0, 1>>], h24 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h25 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "fun%_'\"">> :> "x" @@ <<"db%_'\"", "FUN">> :> "z"),l |-> 107,db |-> {"db", "db%_'\""}]),
    ([op |-> [op |-> "delete_database", d |-> "db"],res |-> "ok",coll |-> {<<"db%_'\"", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>, <<"db%_'\"", "public">>},tab |-> [h8 |-> [s |-> "W", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table", vs |-> <<3, 1>>], h13 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 2>>], h14 |-> [s |-> "A", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table%_'\"", vs |-> <<0, 2, 0>>], h16 |-> [s |-> "E", d |-> "db%_'\"", c |-> "PUBLIC", n |-> "table ", vs |-> <<0, 2>>], h17 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0, 2>>], h22 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0, 1>>], h24 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db%_'\"", "FUN">> :> "z"),l |-> 108,db |-> {"db%_'\""}])
    >>
----


=============================================================================

---- CONFIG CatalogTrace_TTrace_1795076737 ----
CONSTANTS
    DB = { }
    CN = { }
    TN = { }
    Handle = { }
    Schema = { }
    BadSchema = { "D" }
    VerNo = { }
    MaxVer = 0
    FN = { }
    Det = { }
    Fam = { }
    Bogus = FALSE

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 08:25:38 UTC 2026