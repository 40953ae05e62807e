---- MODULE CatalogTrace_TTrace_1795076761 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, CatalogTrace

_expression ==
    LET CatalogTrace_TEExpression == INSTANCE CatalogTrace_TEExpression
    IN CatalogTrace_TEExpression!expression
----

_trace ==
    LET CatalogTrace_TETrace == INSTANCE CatalogTrace_TETrace
    IN CatalogTrace_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        op = ([op |-> "create_new_version", h |-> "h28", v |-> 4])
        /\
        res = ("ok")
        /\
        coll = ({<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>})
        /\
        tab = ([h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<1, 1, 4>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>], h31 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]])
        /\
        fn = ((<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x" @@ <<"db%_'\"", "fun">> :> "x"))
        /\
        l = (131)
        /\
        db = ({"db", "DB", "db%_'\""})
    )
----

_init ==
    /\ coll = _TETrace[1].coll
    /\ tab = _TETrace[1].tab
    /\ op = _TETrace[1].op
    /\ l = _TETrace[1].l
    /\ db = _TETrace[1].db
    /\ res = _TETrace[1].res
    /\ fn = _TETrace[1].fn
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ coll  = _TETrace[i].coll
        /\ coll' = _TETrace[j].coll
        /\ tab  = _TETrace[i].tab
        /\ tab' = _TETrace[j].tab
        /\ op  = _TETrace[i].op
        /\ op' = _TETrace[j].op
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ db  = _TETrace[i].db
        /\ db' = _TETrace[j].db
        /\ res  = _TETrace[i].res
        /\ res' = _TETrace[j].res
        /\ fn  = _TETrace[i].fn
        /\ fn' = _TETrace[j].fn

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("CatalogTrace_TTrace_1795076761.json", _TETrace)

=============================================================================

 Note that you can extract this module `CatalogTrace_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `CatalogTrace_TEExpression.tla` file takes precedence 
  over the module `CatalogTrace_TEExpression` below).

---- MODULE CatalogTrace_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, CatalogTrace

expression == 
    [
        \* To hide variables of the `CatalogTrace` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        coll |-> coll
        ,tab |-> tab
        ,op |-> op
        ,l |-> l
        ,db |-> db
        ,res |-> res
        ,fn |-> fn
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_collUnchanged |-> coll = coll'
        
        \* Format the `coll` variable as Json value.
        \* ,_collJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(coll)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_collModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].coll # _TETrace[s-1].coll
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE CatalogTrace_TETrace ----
\*EXTENDS IOUtils, TLC, CatalogTrace
\*
\*trace == IODeserialize("CatalogTrace_TTrace_1795076761.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE CatalogTrace_TETrace ----
EXTENDS TLC, CatalogTrace

trace == 
    <<
    ([op |-> [op |-> "init"],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 1,db |-> {}]),
    ([op |-> [op |-> "create_collection", d |-> "?", c |-> "public%_'\""],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 2,db |-> {}]),
    ([op |-> [s |-> "E", op |-> "create_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "h1"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 3,db |-> {}]),
    ([op |-> [op |-> "create_collection", d |-> "?", c |-> "public%_'\""],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 4,db |-> {}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "?"],res |-> "ok:0",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 5,db |-> {}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 1],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 6,db |-> {}]),
    ([op |-> [op |-> "delete_collection", d |-> "?", c |-> "?"],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 7,db |-> {}]),
    ([op |-> [op |-> "delete_collection", d |-> "?", c |-> "?"],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 8,db |-> {}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 2],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 9,db |-> {}]),
    ([op |-> [op |-> "create_database", d |-> "db%_'\""],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 10,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table", h |-> "?", stay |-> FALSE],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 11,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "?", stay |-> TRUE],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 12,db |-> {"db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "DB"],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 13,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 4],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 14,db |-> {"DB", "db%_'\""}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table%_'\"", h |-> "h2"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 15,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "DB"],res |-> "unique",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 16,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db%_'\"", c |-> "public"],res |-> "ok",coll |-> {<<"db%_'\"", "public">>},tab |-> <<>>,fn |-> <<>>,l |-> 17,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "DB"],res |-> "unique",coll |-> {<<"db%_'\"", "public">>},tab |-> <<>>,fn |-> <<>>,l |-> 18,db |-> {"DB", "db%_'\""}]),
    ([op |-> [s |-> "E", op |-> "create_table", d |-> "db%_'\"", c |-> "public", n |-> "table ", h |-> "h3"],res |-> "ok",coll |-> {<<"db%_'\"", "public">>},tab |-> [h3 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0>>]],fn |-> <<>>,l |-> 19,db |-> {"DB", "db%_'\""}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", h |-> "h4"],res |-> "ok",coll |-> {<<"db%_'\"", "public">>},tab |-> [h3 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "table ", vs |-> <<0>>], h4 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 20,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "delete_database", d |-> "db%_'\""],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 21,db |-> {"DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 4],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 22,db |-> {"DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 0],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 23,db |-> {"DB"}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "?"],res |-> "ok:0",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 24,db |-> {"DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "fun", repl |-> FALSE, det |-> "x"],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun">> :> "x"),l |-> 25,db |-> {"DB"}]),
    ([op |-> [op |-> "create_collection", d |-> "DB", c |-> "public"],res |-> "ok",coll |-> {<<"DB", "public">>},tab |-> <<>>,fn |-> (<<"DB", "fun">> :> "x"),l |-> 26,db |-> {"DB"}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "DB", c |-> "public", n |-> "table ", h |-> "h5"],res |-> "ok",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x"),l |-> 27,db |-> {"DB"}]),
    ([op |-> [op |-> "create_collection", d |-> "DB", c |-> "public"],res |-> "unique",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x"),l |-> 28,db |-> {"DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "h5", v |-> 1],res |-> "ok",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"DB", "fun">> :> "x"),l |-> 29,db |-> {"DB"}]),
    ([op |-> [op |-> "delete_table", h |-> "?"],res |-> "missing",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"DB", "fun">> :> "x"),l |-> 30,db |-> {"DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "h5", v |-> 0],res |-> "ok",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>]],fn |-> (<<"DB", "fun">> :> "x"),l |-> 31,db |-> {"DB"}]),
    ([op |-> [s |-> "E", op |-> "create_table", d |-> "DB", c |-> "public", n |-> "TABLE", h |-> "h6"],res |-> "ok",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x"),l |-> 32,db |-> {"DB"}]),
    ([op |-> [op |-> "create_database", d |-> "DB"],res |-> "unique",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x"),l |-> 33,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table ", h |-> "h5", stay |-> TRUE],res |-> "ok",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x"),l |-> 34,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table", h |-> "h6", stay |-> TRUE],res |-> "ok",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x"),l |-> 35,db |-> {"DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "FUN", repl |-> TRUE, det |-> "y"],res |-> "ok",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 36,db |-> {"DB"}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "h6"],res |-> "ok:0",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 37,db |-> {"DB"}]),
    ([op |-> [op |-> "create_database", d |-> "db"],res |-> "ok",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 38,db |-> {"db", "DB"}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "DB", c |-> "public", n |-> "table", h |-> "h7"],res |-> "unique",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 39,db |-> {"db", "DB"}]),
    ([op |-> [s |-> "E", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table%_'\"", h |-> "h8"],res |-> "fk",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 40,db |-> {"db", "DB"}]),
    ([op |-> [s |-> "E", op |-> "create_table", d |-> "DB", c |-> "public", n |-> "table", h |-> "h9"],res |-> "unique",coll |-> {<<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 41,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_collection", d |-> "db", c |-> "public%_'\""],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 42,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "h6", stay |-> TRUE],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 43,db |-> {"db", "DB"}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "DB", c |-> "public", n |-> "table%_'\"", h |-> "h10"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 44,db |-> {"db", "DB"}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "db", c |-> "public%_'\"", n |-> "table ", h |-> "h11"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 45,db |-> {"db", "DB"}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "DB", c |-> "public", n |-> "table%_'\"", h |-> "h12"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "TABLE", vs |-> <<0>>], h12 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 46,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "db", c |-> "public%_'\"", n |-> "table", h |-> "h12", stay |-> FALSE],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "TABLE", vs |-> <<0>>], h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 47,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_function", d |-> "db", f |-> "fun ", repl |-> TRUE, det |-> "y"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "TABLE", vs |-> <<0>>], h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 48,db |-> {"db", "DB"}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "DB", c |-> "public", n |-> "table ", h |-> "h13"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "TABLE", vs |-> <<0>>], h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 49,db |-> {"db", "DB"}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "db", c |-> "public%_'\"", n |-> "table", h |-> "h14"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "TABLE", vs |-> <<0>>], h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 50,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "h5", v |-> 2],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "public">>},tab |-> [h5 |-> [s |-> "A", d |-> "DB", c |-> "public", n |-> "table ", vs |-> <<0, 1, 0, 2>>], h6 |-> [s |-> "E", d |-> "DB", c |-> "public", n |-> "TABLE", vs |-> <<0>>], h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 51,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "delete_collection", d |-> "DB", c |-> "public"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 52,db |-> {"db", "DB"}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", h |-> "h15"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>], h15 |-> [s |-> "B", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 53,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "fun", repl |-> FALSE, det |-> "y"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>], h15 |-> [s |-> "B", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 54,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_collection", d |-> "DB", c |-> "public%_'\""],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>], h15 |-> [s |-> "B", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 55,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "h12"],res |-> "ok:0",coll |-> {<<"db", "public%_'\"">>, <<"DB", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>], h15 |-> [s |-> "B", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 56,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "delete_table", h |-> "h15"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 57,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "h12", v |-> 3],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 3>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 58,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "delete_collection", d |-> "DB", c |-> "public%_'\""],res |-> "ok",coll |-> {<<"db", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 3>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 59,db |-> {"db", "DB"}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table ", h |-> "h16"],res |-> "fk",coll |-> {<<"db", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 3>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y"),l |-> 60,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "fun ", repl |-> TRUE, det |-> "x"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 3>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 61,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "h12", v |-> 2],res |-> "ok",coll |-> {<<"db", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 3, 2>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 62,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "h12"],res |-> "ok:2",coll |-> {<<"db", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 63,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "fun", repl |-> FALSE, det |-> "x"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 64,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_collection", d |-> "?", c |-> "public"],res |-> "fk",coll |-> {<<"db", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 65,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_collection", d |-> "DB", c |-> "PUBLIC"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 66,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "h12", v |-> 3],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<2, 3>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 67,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "h12"],res |-> "ok:1",coll |-> {<<"db", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 68,db |-> {"db", "DB"}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "DB", c |-> "PUBLIC", n |-> "table%_'\"", h |-> "h17"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 69,db |-> {"db", "DB"}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", h |-> "h18"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 70,db |-> {"db", "DB"}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", h |-> "h19"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 71,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_function", d |-> "?", f |-> "FUN", repl |-> TRUE, det |-> "x"],res |-> "fk",coll |-> {<<"db", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 72,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "h19", v |-> 5],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 73,db |-> {"db", "DB"}]),
    ([op |-> [op |-> "create_database", d |-> "db%_'\""],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 74,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db", f |-> "FUN", repl |-> TRUE, det |-> "x"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 75,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db", c |-> "PUBLIC"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 76,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", h |-> "h20"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "x" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 77,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db", f |-> "FUN", repl |-> TRUE, det |-> "z"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 78,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", h |-> "h18", stay |-> FALSE],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 79,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h18", v |-> 0],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0, 0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 80,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "db", c |-> "PUBLIC", n |-> "table", h |-> "h12", stay |-> FALSE],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0, 0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 81,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [s |-> "E", op |-> "create_table", d |-> "db", c |-> "PUBLIC", n |-> "table", h |-> "h21"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0, 0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 82,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "db%_'\""],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "PUBLIC">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0, 0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 83,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db%_'\"", c |-> "public%_'\""],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0, 0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "y" @@ <<"DB", "fun ">> :> "x"),l |-> 84,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "FUN", repl |-> TRUE, det |-> "x"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h18 |-> [s |-> "B", d |-> "DB", c |-> "PUBLIC", n |-> "TABLE", vs |-> <<0, 0>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 85,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "delete_collection", d |-> "DB", c |-> "PUBLIC"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 86,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table", h |-> "h12", stay |-> TRUE],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 87,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db%_'\"", c |-> "public%_'\""],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 88,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table ", h |-> "h22"],res |-> "fk",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h19 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 5>>]],fn |-> (<<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 89,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "delete_table", h |-> "h19"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>]],fn |-> (<<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 90,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db", f |-> "fun", repl |-> TRUE, det |-> "z"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 91,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", h |-> "h23"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<3>>], h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 92,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h12", v |-> 0],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<3, 0>>], h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 93,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "db", c |-> "PUBLIC", n |-> "table", h |-> "h12", stay |-> FALSE],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table", vs |-> <<3, 0>>], h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 94,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table ", h |-> "h12", stay |-> TRUE],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table ", vs |-> <<3, 0>>], h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 95,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h23", v |-> 1],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table ", vs |-> <<3, 0>>], h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 96,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "FUN", repl |-> FALSE, det |-> "z"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table ", vs |-> <<3, 0>>], h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 97,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db", c |-> "PUBLIC"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table ", vs |-> <<3, 0>>], h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 98,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db", f |-> "fun", repl |-> FALSE, det |-> "z"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table ", vs |-> <<3, 0>>], h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 99,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db", c |-> "public%_'\""],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "PUBLIC", n |-> "table ", vs |-> <<3, 0>>], h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 100,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "db", c |-> "public%_'\"", n |-> "table", h |-> "h12", stay |-> FALSE],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3, 0>>], h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 101,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h12", v |-> 0],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3, 0, 0>>], h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 102,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "?", f |-> "fun ", repl |-> FALSE, det |-> "y"],res |-> "fk",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3, 0, 0>>], h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 103,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", h |-> "h24"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h12 |-> [s |-> "A", d |-> "db", c |-> "public%_'\"", n |-> "table", vs |-> <<3, 0, 0>>], h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 104,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "delete_table", h |-> "h12"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 105,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", h |-> "h25"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 106,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db", c |-> "PUBLIC"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 107,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "db", c |-> "public%_'\"", n |-> "table ", h |-> "h26"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h23 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 108,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "delete_table", h |-> "h23"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"db%_'\"", "public%_'\"">>},tab |-> <<>>,fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 109,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "DB", c |-> "public%_'\""],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> <<>>,fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 110,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table", h |-> "h27"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> <<>>,fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 111,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 5],res |-> "missing",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> <<>>,fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 112,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", h |-> "h28"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 113,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "h29"],res |-> "fk",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 114,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "drop_function", d |-> "db%_'\"", fs |-> <<"fun ">>],res |-> "missing",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 115,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [s |-> "E", op |-> "create_table", d |-> "db", c |-> "public%_'\"", n |-> "table ", h |-> "h30"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 116,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table%_'\"", h |-> "h28", stay |-> FALSE],res |-> "fk",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 117,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h30", v |-> 5],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 118,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [s |-> "E", op |-> "create_table", d |-> "DB", c |-> "public%_'\"", n |-> "table ", h |-> "h31"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>], h31 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 119,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", h |-> "h32"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>], h31 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h32 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 120,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "drop_function", d |-> "DB", fs |-> <<"fun%_'\"">>],res |-> "missing",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>], h31 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h32 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 121,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h32", v |-> 1],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>], h31 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h32 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 122,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h28", v |-> 1],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0, 1>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>], h31 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h32 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 123,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "h28"],res |-> "ok:1",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<1>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>], h31 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h32 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 1>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 124,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h32", v |-> 4],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<1>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>], h31 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h32 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 1, 4>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 125,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "h28"],res |-> "ok:0",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<1>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>], h31 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h32 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 1, 4>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 126,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", h |-> "h33"],res |-> "unique",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<1>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>], h31 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h32 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 1, 4>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 127,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h28", v |-> 1],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<1, 1>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>], h31 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h32 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 1, 4>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 128,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "delete_table", h |-> "h32"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<1, 1>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>], h31 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x"),l |-> 129,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_function", d |-> "db%_'\"", f |-> "fun", repl |-> TRUE, det |-> "x"],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<1, 1>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>], h31 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x" @@ <<"db%_'\"", "fun">> :> "x"),l |-> 130,db |-> {"db", "DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "h28", v |-> 4],res |-> "ok",coll |-> {<<"db", "public%_'\"">>, <<"db", "PUBLIC">>, <<"DB", "public%_'\"">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h28 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<1, 1, 4>>], h30 |-> [s |-> "E", d |-> "db", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 5>>], h31 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"db", "fun">> :> "z" @@ <<"db", "FUN">> :> "z" @@ <<"db", "fun ">> :> "y" @@ <<"DB", "fun">> :> "x" @@ <<"DB", "FUN">> :> "x" @@ <<"DB", "fun ">> :> "x" @@ <<"db%_'\"", "fun">> :> "x"),l |-> 131,db |-> {"db", "DB", "db%_'\""}])
    >>
----


=============================================================================

---- CONFIG CatalogTrace_TTrace_1795076761 ----
CONSTANTS
    DB = { }
    CN = { }
    TN = { }
    Handle = { }
    Schema = { }
    BadSchema = { "D" }
    VerNo = { }
    MaxVer = 0
    FN = { }
    Det = { }
    Fam = { }
    Bogus = FALSE

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 08:26:02 UTC 2026