---- MODULE MCTimeTravel ----
EXTENDS TimeTravel
AllNames == {"t", "T", "qT", "s.t", "S.t", "qS.t", "d.s.t", "qdot", "qall"}
BaseQ == ({"t", "T", "qT", "s.t", "qS.t", "d.s.t", "qdot", "qall"} \X {"plain", "v1", "v2"}) \cup ({"t"} \X {"num", "none", "two", "expr", "col", "named"})
AddedQ == {<<"t", "plain">>, <<"t", "v1">>, <<"t", "v2">>, <<"s.t", "v1">>, <<"qT", "v1">>, <<"qT", "plain">>, <<"u", "two">>, <<"d.s.t", "v2">>}
BaseT == (AllNames \X {"plain", "v1"}) \cup {<<"t", "two">>, <<"t", "v2">>}
BaseD == {<<"t", "v1">>, <<"t", "plain">>, <<"qT", "v2">>}
AddedD == {<<"t", "plain">>, <<"t", "v2">>, <<"u", "two">>}
====
