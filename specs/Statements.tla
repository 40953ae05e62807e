----------------------------- MODULE Statements -----------------------------
(***************************************************************************)
(* The statements Seafowl adds to SQL, as a machine that writes them       *)
(* clause by clause. `txt` is the text (keywords between tildes, so that   *)
(* the driver can spell them in any case), `st` what it means, `ok`        *)
(* whether the grammar allows it. Nothing follows a text that is already   *)
(* wrong; a text is complete at every state.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxClauses, Rich   \* Rich: all spellings of names also for long statements
VARIABLES kind, txt, st, bad, seen, n
vars == <<kind, txt, st, bad, seen, n>>

Id(v, q) == [v |-> v, q |-> q]
\* written name |-> parts (value, quoted?)
Names == { [w |-> "t",             p |-> <<Id("t", FALSE)>>],
           [w |-> "MyTable",       p |-> <<Id("MyTable", FALSE)>>],
           [w |-> "\"My t\"",      p |-> <<Id("My t", TRUE)>>],
           [w |-> "`t.u`",         p |-> <<Id("t.u", TRUE)>>],
           [w |-> "s.t",           p |-> <<Id("s", FALSE), Id("t", FALSE)>>],
           [w |-> "d.\"S\".t",     p |-> <<Id("d", FALSE), Id("S", TRUE), Id("t", FALSE)>>],
           [w |-> "\"table\"",     p |-> <<Id("table", TRUE)>>] }
Name1 == CHOOSE x \in Names : x.w = "s.t"
Few == {x \in Names : x.w \in {"s.t", "\"My t\""}}
Strings == { [w |-> "'/a/b'", v |-> "/a/b"], [w |-> "'it''s; \"x\" --'", v |-> "it's; \"x\" --"], [w |-> "''", v |-> ""] }
Str1 == CHOOSE x \in Strings : x.v = "/a/b"
Query == [w |-> "~SELECT~ a ~FROM~ t ~WHERE~ b = 'x;y'", v |-> "SELECT a FROM t WHERE b = 'x;y'"]

None == "-none-"
Done == 99

Begin(k, t, s, c) == kind' = k /\ txt' = t /\ st' = s /\ bad' = FALSE /\ seen' = {} /\ n' = c
Reject(k, t) == kind' = k /\ txt' = t /\ st' = [stmt |-> "rejected"] /\ bad' = TRUE /\ seen' = {} /\ n' = Done

Init == kind = "" /\ txt = "" /\ st = [stmt |-> "none"] /\ bad = FALSE /\ seen = {} /\ n = 0

\* ------------------------------------------------------------------ one-clause statements
Vacuum == kind = "" /\
  \/ \E x \in Names : Begin("vacuum", "~VACUUM~ ~TABLE~ " \o x.w, [stmt |-> "vacuum_table", name |-> x.p], Done)
  \/ \E x \in Names : IF Len(x.p) = 1
                      THEN Begin("vacuum", "~VACUUM~ ~DATABASE~ " \o x.w, [stmt |-> "vacuum_database", db |-> x.p[1].v], Done)
                      ELSE Reject("vacuum", "~VACUUM~ ~DATABASE~ " \o x.w)
  \/ \E t \in {"", " t", " ~SCHEMA~ t", " ~TABLE~", " ~DATABASE~", " ~TABLE~ t ~DATABASE~ d", " ~TABLE~ t u", " ~TABLE~ t, u",
               " ~DATABASE~ d ~TABLE~ t", " ~TABLE~ t.", " ~DATABASE~ 1", " ~FULL~ ~TABLE~ t"} : Reject("vacuum", "~VACUUM~" \o t)
Truncate == kind = "" /\
  \/ \E x \in Names : Begin("truncate", "~TRUNCATE~ ~TABLE~ " \o x.w, [stmt |-> "truncate", name |-> x.p], Done)
  \/ \E t \in {"", " t", " ~TABLE~", " ~TABLE~ t, u", " ~TABLE~ t ~CASCADE~", " ~DATABASE~ d"} : Reject("truncate", "~TRUNCATE~" \o t)
Convert == kind = "" /\
  \/ \E x \in Names, l \in Strings : Begin("convert", "~CONVERT~ " \o l.w \o " ~TO~ ~DELTA~ " \o x.w,
                                           [stmt |-> "convert", name |-> x.p, location |-> l.v], Done)
  \/ \E t \in {"", " '/a'", " '/a' ~TO~ t", " '/a' ~DELTA~ t", " '/a' ~TO~ ~DELTA~", " t ~TO~ '/a'", " 1 ~TO~ ~DELTA~ u",
               " '/a' ~TO~ ~DELTA~ t u", " '/a' ~TO~ ~DELTA~ t ~PARTITIONED~ ~BY~ (a)", " '/a' ~TO~ ~ICEBERG~ t"} : Reject("convert", "~CONVERT~" \o t)
Bodies == { [w |-> "'{\"a\": 1}'", t |-> "q", v |-> "{\"a\": 1}"], [w |-> "'it''s; x'", t |-> "q", v |-> "it's; x"],
            [w |-> "$$ it's; -- {} $$", t |-> "d", v |-> " it's; -- {} "] }
Function == kind = "" /\
  \/ \E x \in Names, b \in Bodies, r \in BOOLEAN :
       Begin("function", "~CREATE~ " \o (IF r THEN "~OR~ ~REPLACE~ " ELSE "") \o "~FUNCTION~ " \o x.w \o " ~AS~ " \o b.w,
             [stmt |-> "create_function", name |-> x.p, replace |-> r, temporary |-> FALSE, body |-> b.v, dollar |-> b.t = "d"], Done)
  \/ \E t \in {"", " f", " f ~AS~", " f 'x'", " ~AS~ 'x'", " f ~AS~ 1", " f ~AS~ 'x' 'y'", " f(a ~INT~) ~AS~ 'x'"} : Reject("function", "~CREATE~ ~FUNCTION~" \o t)
\* statements of the underlying dialect must keep their own flags
Native == kind = "" /\
  \/ \E r \in BOOLEAN : Begin("native", "~CREATE~ " \o (IF r THEN "~OR~ ~REPLACE~ " ELSE "") \o "~VIEW~ v ~AS~ ~SELECT~ 1",
                              [stmt |-> "create_view", name |-> <<Id("v", FALSE)>>, replace |-> r], Done)
  \/ \E r \in BOOLEAN, e \in BOOLEAN :
       Begin("native", "~CREATE~ " \o (IF r THEN "~OR~ ~REPLACE~ " ELSE "") \o "~TABLE~ " \o (IF e THEN "~IF~ ~NOT~ ~EXISTS~ " ELSE "") \o "t (a ~INT~)",
             [stmt |-> "create_table", name |-> <<Id("t", FALSE)>>, replace |-> r, ifne |-> e], Done)
  \/ \E t \in {"~CREATE~ ~OR~ ~REPLACE~ ~EXTERNAL~ ~TABLE~ t ~STORED~ ~AS~ csv ~LOCATION~ '/a'", "~CREATE~", "~CREATE~ ~OR~ ~TABLE~ t (a ~INT~)",
               "~CREATE~ ~OR~ ~REPLACE~ ~UNBOUNDED~ ~EXTERNAL~ ~TABLE~ t ~STORED~ ~AS~ csv ~LOCATION~ '/a'",
               "~CREATE~ ~UNBOUNDED~ ~TABLE~ t (a ~INT~)", "~CREATE~ ~EXTERNAL~ t ~STORED~ ~AS~ csv ~LOCATION~ '/a'"} : Reject("native", t)

\* ------------------------------------------------------------------ statements made of clauses
Formats == { [w |-> "parquet", v |-> "PARQUET"], [w |-> "Csv", v |-> "CSV"] }
S(v) == [t |-> "s", v |-> v]
Num(v) == [t |-> "n", v |-> v]
OptionLists == {
  [w |-> "(compression snappy)", v |-> << <<"compression", S("snappy")>> >>],
  [w |-> "('format.delimiter' ';', Format.has_header true, location 5,)",
   v |-> << <<"format.delimiter", S(";")>>, <<"Format.has_header", S("true")>>, <<"location", Num("5")>> >>] }
BadOptionLists == {"()", "(a)", "(a b c)", "(a. b)", "(a = b)", "a b", "(a b"}
PartLists == { [w |-> "(a)", v |-> <<"a">>], [w |-> "(Region, \"B c\",)", v |-> <<"Region", "B c">>] }
BadPartLists == {"(a b", "(a, 1)", "(,)", "('a')", "(a.b)", "(a, b ~INT~)", "(a ~INT~, b)"}

Add(c, t, upd) == /\ n < MaxClauses /\ txt' = txt \o " " \o t /\ kind' = kind
                  /\ IF c \in seen THEN bad' = TRUE /\ st' = [stmt |-> "rejected"] /\ n' = Done /\ seen' = seen
                     ELSE bad' = FALSE /\ st' = upd /\ n' = n + 1 /\ seen' = seen \cup {c}
AddAgain(c, t, upd) == /\ n < MaxClauses /\ txt' = txt \o " " \o t /\ kind' = kind
                       /\ bad' = FALSE /\ st' = upd /\ n' = n + 1 /\ seen' = seen \cup {c}
Spoil(t) == n < MaxClauses /\ txt' = txt \o " " \o t /\ kind' = kind /\ bad' = TRUE /\ st' = [stmt |-> "rejected"] /\ n' = Done /\ seen' = seen

CopyBegin == kind = "" /\
  \/ \E x \in Names : Begin("copy", "~COPY~ " \o x.w, [stmt |-> "copy", rel |-> x.p, query |-> None, target |-> None, stored |-> None,
                            parts |-> <<>>, opts |-> <<>>], IF Rich \/ x = Name1 THEN 0 ELSE MaxClauses - 1)
  \/ Begin("copy", "~COPY~ (" \o Query.w \o ")", [stmt |-> "copy", rel |-> <<>>, query |-> Query.v, target |-> None, stored |-> None,
                            parts |-> <<>>, opts |-> <<>>], IF Rich THEN 0 ELSE MaxClauses - 2)
  \/ \E t \in {"", " 'x'", " ~SELECT~ a ~FROM~ t ~TO~ 'x'", " () ~TO~ 'x'", " (~SELECT~ 1 ~TO~ 'x'"} : Reject("copy", "~COPY~" \o t)
CopyClause == kind = "copy" /\ ~bad /\
  \/ \E s \in Strings : Add("to", "~TO~ " \o s.w, [st EXCEPT !.target = s.v])
  \/ \E f \in Formats : Add("stored", "~STORED~ ~AS~ " \o f.w, [st EXCEPT !.stored = f.v])
  \/ \E p \in PartLists : Add("part", "~PARTITIONED~ ~BY~ " \o p.w, [st EXCEPT !.parts = p.v])
  \/ \E o \in OptionLists : Add("opts", "~OPTIONS~ " \o o.w, [st EXCEPT !.opts = o.v])
  \/ \E t \in {"~TO~ 1", "~TO~", "~STORED~ csv", "~STORED~ ~AS~ 'csv'", "~WITH~ ~HEADER~ ~ROW~", "~LOCATION~ '/a'", "foo", "~PARTITIONED~ (a)",
               "~STORED~ ~AS~", "1"} : Spoil(t)
  \/ \E b \in BadOptionLists : Spoil("~OPTIONS~ " \o b)
  \/ \E b \in BadPartLists : Spoil("~PARTITIONED~ ~BY~ " \o b)

Ext(x, u, e, t, c) == [stmt |-> "external", name |-> x.p, unbounded |-> u, ifne |-> e, temporary |-> t, cols |-> c,
                       stored |-> None, location |-> None, parts |-> <<>>, opts |-> <<>>, orders |-> <<>>]
ExtText(x, u, e, t, c) == "~CREATE~ " \o (IF u THEN "~UNBOUNDED~ " ELSE "") \o "~EXTERNAL~ " \o (IF t THEN "~TEMPORARY~ " ELSE "") \o "~TABLE~ " \o
                       (IF e THEN "~IF~ ~NOT~ ~EXISTS~ " ELSE "") \o x.w \o c
ColLists == { [w |-> "", v |-> <<>>], [w |-> " (a ~INT~ ~NOT~ ~NULL~, \"B c\" ~TEXT~)", v |-> <<"a INT NOT NULL", "\"B c\" TEXT">>] }
ExtBegin == kind = "" /\
  \/ \E x \in Names, u, e, t \in BOOLEAN, c \in ColLists :
       /\ x \in (IF u \/ e \/ t THEN Few ELSE Names)
       /\ Begin("external", ExtText(x, u, e, t, c.w), Ext(x, u, e, t, c.v),
                IF Rich \/ (x = Name1 /\ ~u /\ ~e /\ ~t /\ c.w # "") THEN 0 ELSE MaxClauses - 2)
ExtClause == kind = "external" /\ ~bad /\
  \/ \E f \in Formats : Add("stored", "~STORED~ ~AS~ " \o f.w, [st EXCEPT !.stored = f.v])
  \/ \E s \in {x \in Strings : x.v # ""} : Add("location", "~LOCATION~ " \o s.w, [st EXCEPT !.location = s.v])
  \/ \E p \in PartLists : Add("part", "~PARTITIONED~ ~BY~ " \o p.w, [st EXCEPT !.parts = p.v])
  \/ Add("part", "~PARTITIONED~ ~BY~ (p ~INT~, q ~TEXT~)", [st EXCEPT !.parts = <<"p", "q">>, !.cols = @ \o <<"p INT", "q TEXT">>])
  \/ \E o \in OptionLists : Add("opts", "~OPTIONS~ " \o o.w, [st EXCEPT !.opts = o.v])
  \/ AddAgain("order", "~WITH~ ~ORDER~ (a ~DESC~ ~NULLS~ ~LAST~, b)", [st EXCEPT !.orders = Append(@, <<"a DESC NULLS LAST", "b">>)])
  \/ AddAgain("order", "~WITH~ ~ORDER~ (c ~ASC~)", [st EXCEPT !.orders = Append(@, <<"c ASC">>)])
  \/ \E t \in {"~LOCATION~ 1", "~WITH~ ~HEADER~ ~ROW~", "~DELIMITER~ ','", "~COMPRESSION~ ~TYPE~ gzip", "~TO~ '/a'", "foo", "~STORED~ parquet",
               "~WITH~ ~ORDER~ a", "~WITH~ ~ORDER~ ()", "~PARTITIONED~ ~BY~ (p ~INT~, ~PRIMARY~ ~KEY~ (p))", "(z ~INT~)", "~STORED~ ~AS~ 1"} : Spoil(t)
  \/ \E b \in BadOptionLists : Spoil("~OPTIONS~ " \o b)
  \/ \E b \in BadPartLists : Spoil("~PARTITIONED~ ~BY~ " \o b)

Next == Vacuum \/ Truncate \/ Convert \/ Function \/ Native \/ CopyBegin \/ CopyClause \/ ExtBegin \/ ExtClause
Spec == Init /\ [][Next]_vars

\* A statement stands if nothing in it is wrong and what its kind requires is there
Accepted == ~bad /\ (kind = "copy" => "to" \in seen) /\ (kind = "external" => {"stored", "location"} \subseteq seen)
RequiredSet == Accepted /\ kind = "external" => st.stored # None /\ st.location # None
EmitInv == kind # "" => PrintT(ToJson([k |-> "c", txt |-> txt, ok |-> Accepted, st |-> IF Accepted THEN st ELSE [stmt |-> "rejected"]]))
=============================================================================
