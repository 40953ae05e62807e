---- MODULE CatalogTrace_TTrace_1795076795 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, CatalogTrace

_expression ==
    LET CatalogTrace_TEExpression == INSTANCE CatalogTrace_TEExpression
    IN CatalogTrace_TEExpression!expression
----

_trace ==
    LET CatalogTrace_TETrace == INSTANCE CatalogTrace_TETrace
    IN CatalogTrace_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        op = ([op |-> "rename_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "h15", stay |-> TRUE])
        /\
        res = ("ok")
        /\
        coll = ({<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>})
        /\
        tab = ([h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h22 |-> [s |-> "W", d |-> "DB", c |-> "PUBLIC", n |-> "table", vs |-> <<0>>]])
        /\
        fn = ((<<"DB", "fun%_'\"">> :> "y" @@ <<"DB", "fun ">> :> "y" @@ <<"DB", "FUN">> :> "z"))
        /\
        l = (108)
        /\
        db = ({"DB"})
    )
----

_init ==
    /\ coll = _TETrace[1].coll
    /\ tab = _TETrace[1].tab
    /\ op = _TETrace[1].op
    /\ l = _TETrace[1].l
    /\ db = _TETrace[1].db
    /\ res = _TETrace[1].res
    /\ fn = _TETrace[1].fn
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ coll  = _TETrace[i].coll
        /\ coll' = _TETrace[j].coll
        /\ tab  = _TETrace[i].tab
        /\ tab' = _TETrace[j].tab
        /\ op  = _TETrace[i].op
        /\ op' = _TETrace[j].op
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ db  = _TETrace[i].db
        /\ db' = _TETrace[j].db
        /\ res  = _TETrace[i].res
        /\ res' = _TETrace[j].res
        /\ fn  = _TETrace[i].fn
        /\ fn' = _TETrace[j].fn

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("CatalogTrace_TTrace_1795076795.json", _TETrace)

=============================================================================

 Note that you can extract this module `CatalogTrace_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `CatalogTrace_TEExpression.tla` file takes precedence 
  over the module `CatalogTrace_TEExpression` below).

---- MODULE CatalogTrace_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, CatalogTrace

expression == 
    [
        \* To hide variables of the `CatalogTrace` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        coll |-> coll
        ,tab |-> tab
        ,op |-> op
        ,l |-> l
        ,db |-> db
        ,res |-> res
        ,fn |-> fn
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_collUnchanged |-> coll = coll'
        
        \* Format the `coll` variable as Json value.
        \* ,_collJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(coll)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_collModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].coll # _TETrace[s-1].coll
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE CatalogTrace_TETrace ----
\*EXTENDS IOUtils, TLC, CatalogTrace
\*
\*trace == IODeserialize("CatalogTrace_TTrace_1795076795.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE CatalogTrace_TETrace ----
EXTENDS TLC, CatalogTrace

trace == 
    <<
    ([op |-> [op |-> "init"],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 1,db |-> {}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "?", stay |-> TRUE],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 2,db |-> {}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 4],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 3,db |-> {}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "?", stay |-> TRUE],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 4,db |-> {}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "?"],res |-> "ok:0",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 5,db |-> {}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table", h |-> "h1"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 6,db |-> {}]),
    ([op |-> [op |-> "delete_table", h |-> "?"],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 7,db |-> {}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table", h |-> "h2"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 8,db |-> {}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 0],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 9,db |-> {}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "h3"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 10,db |-> {}]),
    ([op |-> [op |-> "create_collection", d |-> "?", c |-> "public"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 11,db |-> {}]),
    ([op |-> [op |-> "delete_database", d |-> "?"],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 12,db |-> {}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "?", stay |-> FALSE],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 13,db |-> {}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "?"],res |-> "ok:0",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 14,db |-> {}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table ", h |-> "?", stay |-> TRUE],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 15,db |-> {}]),
    ([op |-> [op |-> "create_function", d |-> "?", f |-> "fun%_'\"", repl |-> FALSE, det |-> "z"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 16,db |-> {}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 5],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 17,db |-> {}]),
    ([op |-> [op |-> "create_database", d |-> "DB"],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 18,db |-> {"DB"}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table%_'\"", h |-> "h4"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 19,db |-> {"DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 2],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 20,db |-> {"DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 1],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 21,db |-> {"DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "fun ", repl |-> TRUE, det |-> "z"],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun ">> :> "z"),l |-> 22,db |-> {"DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "FUN", repl |-> FALSE, det |-> "y"],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun ">> :> "z" @@ <<"DB", "FUN">> :> "y"),l |-> 23,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table", h |-> "?", stay |-> FALSE],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun ">> :> "z" @@ <<"DB", "FUN">> :> "y"),l |-> 24,db |-> {"DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "fun ", repl |-> TRUE, det |-> "z"],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun ">> :> "z" @@ <<"DB", "FUN">> :> "y"),l |-> 25,db |-> {"DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 4],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun ">> :> "z" @@ <<"DB", "FUN">> :> "y"),l |-> 26,db |-> {"DB"}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "?"],res |-> "ok:0",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun ">> :> "z" @@ <<"DB", "FUN">> :> "y"),l |-> 27,db |-> {"DB"}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table", h |-> "h5"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun ">> :> "z" @@ <<"DB", "FUN">> :> "y"),l |-> 28,db |-> {"DB"}]),
    ([op |-> [op |-> "drop_function", d |-> "DB", fs |-> <<"FUN">>],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun ">> :> "z"),l |-> 29,db |-> {"DB"}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table ", h |-> "h6"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun ">> :> "z"),l |-> 30,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "?", stay |-> TRUE],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun ">> :> "z"),l |-> 31,db |-> {"DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "fun", repl |-> TRUE, det |-> "x"],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "fun ">> :> "z"),l |-> 32,db |-> {"DB"}]),
    ([op |-> [op |-> "create_database", d |-> "db%_'\""],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "fun ">> :> "z"),l |-> 33,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "drop_function", d |-> "DB", fs |-> <<"FUN">>],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "fun ">> :> "z"),l |-> 34,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table", h |-> "?", stay |-> TRUE],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "fun ">> :> "z"),l |-> 35,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "?"],res |-> "ok:0",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "fun ">> :> "z"),l |-> 36,db |-> {"DB", "db%_'\""}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "h7"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "fun ">> :> "z"),l |-> 37,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table", h |-> "?", stay |-> TRUE],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "fun ">> :> "z"),l |-> 38,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "DB"],res |-> "unique",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "fun ">> :> "z"),l |-> 39,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 2],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "fun ">> :> "z"),l |-> 40,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 0],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "fun ">> :> "z"),l |-> 41,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "?", stay |-> FALSE],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun">> :> "x" @@ <<"DB", "fun ">> :> "z"),l |-> 42,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "drop_function", d |-> "DB", fs |-> <<"fun", "fun", "fun%_'\"">>],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> (<<"DB", "fun ">> :> "z"),l |-> 43,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "drop_function", d |-> "DB", fs |-> <<"fun ">>],res |-> "ok",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 44,db |-> {"DB", "db%_'\""}]),
    ([op |-> [s |-> "E", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table%_'\"", h |-> "h8"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 45,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "DB"],res |-> "unique",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 46,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "create_new_version", h |-> "?", v |-> 0],res |-> "missing",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 47,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "?"],res |-> "ok:0",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 48,db |-> {"DB", "db%_'\""}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table%_'\"", h |-> "h9"],res |-> "fk",coll |-> {},tab |-> <<>>,fn |-> <<>>,l |-> 49,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db%_'\"", c |-> "public%_'\""],res |-> "ok",coll |-> {<<"db%_'\"", "public%_'\"">>},tab |-> <<>>,fn |-> <<>>,l |-> 50,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table", h |-> "?", stay |-> TRUE],res |-> "missing",coll |-> {<<"db%_'\"", "public%_'\"">>},tab |-> <<>>,fn |-> <<>>,l |-> 51,db |-> {"DB", "db%_'\""}]),
    ([op |-> [s |-> "E", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", h |-> "h10"],res |-> "ok",coll |-> {<<"db%_'\"", "public%_'\"">>},tab |-> [h10 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 52,db |-> {"DB", "db%_'\""}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", h |-> "h11"],res |-> "ok",coll |-> {<<"db%_'\"", "public%_'\"">>},tab |-> [h10 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h11 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> <<>>,l |-> 53,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "db%_'\"", c |-> "public"],res |-> "ok",coll |-> {<<"db%_'\"", "public">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h10 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h11 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> <<>>,l |-> 54,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "create_database", d |-> "DB"],res |-> "unique",coll |-> {<<"db%_'\"", "public">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h10 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h11 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> <<>>,l |-> 55,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "create_collection", d |-> "DB", c |-> "public%_'\""],res |-> "ok",coll |-> {<<"DB", "public%_'\"">>, <<"db%_'\"", "public">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h10 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h11 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> <<>>,l |-> 56,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "rename_table", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", h |-> "h10", stay |-> FALSE],res |-> "ok",coll |-> {<<"DB", "public%_'\"">>, <<"db%_'\"", "public">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h10 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0>>], h11 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> <<>>,l |-> 57,db |-> {"DB", "db%_'\""}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", h |-> "h12"],res |-> "ok",coll |-> {<<"DB", "public%_'\"">>, <<"db%_'\"", "public">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h10 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0>>], h11 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h12 |-> [s |-> "A", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 58,db |-> {"DB", "db%_'\""}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", h |-> "h13"],res |-> "unique",coll |-> {<<"DB", "public%_'\"">>, <<"db%_'\"", "public">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h10 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0>>], h11 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h12 |-> [s |-> "A", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 59,db |-> {"DB", "db%_'\""}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", h |-> "h14"],res |-> "ok",coll |-> {<<"DB", "public%_'\"">>, <<"db%_'\"", "public">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h10 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0>>], h11 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h12 |-> [s |-> "A", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h14 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 60,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "h14"],res |-> "ok:0",coll |-> {<<"DB", "public%_'\"">>, <<"db%_'\"", "public">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h10 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0>>], h11 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h12 |-> [s |-> "A", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h14 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 61,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "drop_function", d |-> "db%_'\"", fs |-> <<"FUN", "fun%_'\"">>],res |-> "missing",coll |-> {<<"DB", "public%_'\"">>, <<"db%_'\"", "public">>, <<"db%_'\"", "public%_'\"">>},tab |-> [h10 |-> [s |-> "E", d |-> "db%_'\"", c |-> "public", n |-> "TABLE", vs |-> <<0>>], h11 |-> [s |-> "B", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h12 |-> [s |-> "A", d |-> "db%_'\"", c |-> "public", n |-> "table%_'\"", vs |-> <<0>>], h14 |-> [s |-> "W", d |-> "db%_'\"", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 62,db |-> {"DB", "db%_'\""}]),
    ([op |-> [op |-> "delete_database", d |-> "db%_'\""],res |-> "ok",coll |-> {<<"DB", "public%_'\"">>},tab |-> <<>>,fn |-> <<>>,l |-> 63,db |-> {"DB"}]),
    ([op |-> [s |-> "E", op |-> "create_table", d |-> "DB", c |-> "public%_'\"", n |-> "table", h |-> "h15"],res |-> "ok",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> <<>>,l |-> 64,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table%_'\"", h |-> "h15", stay |-> TRUE],res |-> "ok",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 65,db |-> {"DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "fun%_'\"", repl |-> FALSE, det |-> "z"],res |-> "ok",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "z"),l |-> 66,db |-> {"DB"}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "h15"],res |-> "ok:0",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "z"),l |-> 67,db |-> {"DB"}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "DB", c |-> "public%_'\"", n |-> "table ", h |-> "h16"],res |-> "ok",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "z"),l |-> 68,db |-> {"DB"}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "DB", c |-> "public%_'\"", n |-> "table", h |-> "h17"],res |-> "ok",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "z"),l |-> 69,db |-> {"DB"}]),
    ([op |-> [s |-> "D", op |-> "create_table", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", h |-> "h18"],res |-> "unique",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "z"),l |-> 70,db |-> {"DB"}]),
    ([op |-> [s |-> "E", op |-> "create_table", d |-> "DB", c |-> "public%_'\"", n |-> "table", h |-> "h19"],res |-> "unique",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "z"),l |-> 71,db |-> {"DB"}]),
    ([op |-> [op |-> "drop_function", d |-> "DB", fs |-> <<"fun", "fun%_'\"", "FUN">>],res |-> "ok",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> <<>>,l |-> 72,db |-> {"DB"}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "h17"],res |-> "ok:0",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> <<>>,l |-> 73,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", h |-> "h15", stay |-> FALSE],res |-> "ok",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>]],fn |-> <<>>,l |-> 74,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table%_'\"", h |-> "h17", stay |-> TRUE],res |-> "ok",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 75,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table%_'\"", h |-> "h16", stay |-> TRUE],res |-> "unique",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 76,db |-> {"DB"}]),
    ([op |-> [op |-> "drop_function", d |-> "DB", fs |-> <<"FUN", "fun ">>],res |-> "missing",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 77,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "DB", c |-> "public%_'\"", n |-> "table ", h |-> "h17", stay |-> FALSE],res |-> "unique",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 78,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "DB", c |-> "public%_'\"", n |-> "table", h |-> "h15", stay |-> FALSE],res |-> "ok",coll |-> {<<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 79,db |-> {"DB"}]),
    ([op |-> [op |-> "create_collection", d |-> "DB", c |-> "public"],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 80,db |-> {"DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "h16", v |-> 1],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 81,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table ", h |-> "h15", stay |-> TRUE],res |-> "unique",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 82,db |-> {"DB"}]),
    ([op |-> [s |-> "A", op |-> "create_table", d |-> "DB", c |-> "public%_'\"", n |-> "table", h |-> "h20"],res |-> "unique",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>]],fn |-> <<>>,l |-> 83,db |-> {"DB"}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", h |-> "h21"],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h21 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> <<>>,l |-> 84,db |-> {"DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "h15", v |-> 2],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h21 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> <<>>,l |-> 85,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "DB", c |-> "public%_'\"", n |-> "table ", h |-> "?", stay |-> FALSE],res |-> "missing",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h21 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> <<>>,l |-> 86,db |-> {"DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "h15", v |-> 2],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<0, 2, 2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h21 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> <<>>,l |-> 87,db |-> {"DB"}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "h15"],res |-> "ok:2",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h17 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<0>>], h21 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> <<>>,l |-> 88,db |-> {"DB"}]),
    ([op |-> [op |-> "delete_table", h |-> "h17"],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h21 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> <<>>,l |-> 89,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "DB", c |-> "public", n |-> "TABLE", h |-> "?", stay |-> FALSE],res |-> "missing",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h21 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0>>]],fn |-> <<>>,l |-> 90,db |-> {"DB"}]),
    ([op |-> [op |-> "create_new_version", h |-> "h21", v |-> 2],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h21 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 2>>]],fn |-> <<>>,l |-> 91,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "DB", c |-> "public%_'\"", n |-> "table ", h |-> "h16", stay |-> FALSE],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h21 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 2>>]],fn |-> <<>>,l |-> 92,db |-> {"DB"}]),
    ([op |-> [op |-> "create_collection", d |-> "DB", c |-> "PUBLIC"],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h21 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 2>>]],fn |-> <<>>,l |-> 93,db |-> {"DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "FUN", repl |-> TRUE, det |-> "z"],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h21 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 2>>]],fn |-> (<<"DB", "FUN">> :> "z"),l |-> 94,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "DB", c |-> "public%_'\"", n |-> "table", h |-> "h16", stay |-> FALSE],res |-> "unique",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h21 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 2>>]],fn |-> (<<"DB", "FUN">> :> "z"),l |-> 95,db |-> {"DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "fun ", repl |-> TRUE, det |-> "x"],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h21 |-> [s |-> "W", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<0, 2>>]],fn |-> (<<"DB", "fun ">> :> "x" @@ <<"DB", "FUN">> :> "z"),l |-> 96,db |-> {"DB"}]),
    ([op |-> [op |-> "delete_table", h |-> "h21"],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"DB", "fun ">> :> "x" @@ <<"DB", "FUN">> :> "z"),l |-> 97,db |-> {"DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "fun%_'\"", repl |-> TRUE, det |-> "y"],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>]],fn |-> (<<"DB", "fun%_'\"">> :> "y" @@ <<"DB", "fun ">> :> "x" @@ <<"DB", "FUN">> :> "z"),l |-> 98,db |-> {"DB"}]),
    ([op |-> [s |-> "W", op |-> "create_table", d |-> "DB", c |-> "PUBLIC", n |-> "table", h |-> "h22"],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h22 |-> [s |-> "W", d |-> "DB", c |-> "PUBLIC", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "y" @@ <<"DB", "fun ">> :> "x" @@ <<"DB", "FUN">> :> "z"),l |-> 99,db |-> {"DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "fun ", repl |-> TRUE, det |-> "y"],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h22 |-> [s |-> "W", d |-> "DB", c |-> "PUBLIC", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "y" @@ <<"DB", "fun ">> :> "y" @@ <<"DB", "FUN">> :> "z"),l |-> 100,db |-> {"DB"}]),
    ([op |-> [s |-> "B", op |-> "create_table", d |-> "?", c |-> "?", n |-> "table%_'\"", h |-> "h23"],res |-> "fk",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h22 |-> [s |-> "W", d |-> "DB", c |-> "PUBLIC", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "y" @@ <<"DB", "fun ">> :> "y" @@ <<"DB", "FUN">> :> "z"),l |-> 101,db |-> {"DB"}]),
    ([op |-> [op |-> "create_function", d |-> "DB", f |-> "FUN", repl |-> TRUE, det |-> "z"],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h22 |-> [s |-> "W", d |-> "DB", c |-> "PUBLIC", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "y" @@ <<"DB", "fun ">> :> "y" @@ <<"DB", "FUN">> :> "z"),l |-> 102,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table ", h |-> "h16", stay |-> TRUE],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h22 |-> [s |-> "W", d |-> "DB", c |-> "PUBLIC", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "y" @@ <<"DB", "fun ">> :> "y" @@ <<"DB", "FUN">> :> "z"),l |-> 103,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table%_'\"", h |-> "h15", stay |-> TRUE],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h22 |-> [s |-> "W", d |-> "DB", c |-> "PUBLIC", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "y" @@ <<"DB", "fun ">> :> "y" @@ <<"DB", "FUN">> :> "z"),l |-> 104,db |-> {"DB"}]),
    ([op |-> [op |-> "delete_old_versions", h |-> "h22"],res |-> "ok:0",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h22 |-> [s |-> "W", d |-> "DB", c |-> "PUBLIC", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "y" @@ <<"DB", "fun ">> :> "y" @@ <<"DB", "FUN">> :> "z"),l |-> 105,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "table ", h |-> "h16", stay |-> TRUE],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h22 |-> [s |-> "W", d |-> "DB", c |-> "PUBLIC", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "y" @@ <<"DB", "fun ">> :> "y" @@ <<"DB", "FUN">> :> "z"),l |-> 106,db |-> {"DB"}]),
    ([op |-> [op |-> "create_collection", d |-> "DB", c |-> "PUBLIC"],res |-> "unique",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "table%_'\"", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h22 |-> [s |-> "W", d |-> "DB", c |-> "PUBLIC", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "y" @@ <<"DB", "fun ">> :> "y" @@ <<"DB", "FUN">> :> "z"),l |-> 107,db |-> {"DB"}]),
    ([op |-> [op |-> "rename_table", d |-> "?", c |-> "?", n |-> "TABLE", h |-> "h15", stay |-> TRUE],res |-> "ok",coll |-> {<<"DB", "public">>, <<"DB", "public%_'\"">>, <<"DB", "PUBLIC">>},tab |-> [h15 |-> [s |-> "E", d |-> "DB", c |-> "public%_'\"", n |-> "TABLE", vs |-> <<2>>], h16 |-> [s |-> "B", d |-> "DB", c |-> "public%_'\"", n |-> "table ", vs |-> <<0, 1>>], h22 |-> [s |-> "W", d |-> "DB", c |-> "PUBLIC", n |-> "table", vs |-> <<0>>]],fn |-> (<<"DB", "fun%_'\"">> :> "y" @@ <<"DB", "fun ">> :> "y" @@ <<"DB", "FUN">> :> "z"),l |-> 108,db |-> {"DB"}])
    >>
----


=============================================================================

---- CONFIG CatalogTrace_TTrace_1795076795 ----
CONSTANTS
    DB = { }
    CN = { }
    TN = { }
    Handle = { }
    Schema = { }
    BadSchema = { "D" }
    VerNo = { }
    MaxVer = 0
    FN = { }
    Det = { }
    Fam = { }
    Bogus = FALSE

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 08:26:36 UTC 2026