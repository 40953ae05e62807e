------------------------------ MODULE MCTables ------------------------------
(* All histories of statements over small tables, for replay on the real system.                               *)
EXTENDS Tables, Json, SequencesExt
CONSTANTS MaxRows, MaxMarks, MaxIds, Ops
VARIABLE op
mcvars == <<tab, marks, ids, result, op>>

A == <<"col", "a">>
B == <<"col", "b">>
C == <<"col", "c">>
I(k) == <<"int", k>>
S(s) == <<"str", s>>
Star == << A, B, C >>
Preds == <<
  <<"none">>, <<"cmp", "=", A, I(1)>>, <<"cmp", "<", A, I(2)>>, <<"not", <<"cmp", "<", A, I(2)>>>>, <<"cmp", "<>", A, I(1)>>,
  <<"null", "a">>, <<"not", <<"null", "b">>>>, <<"scmp", "=", B, S("x")>>, <<"scmp", "<>", B, S("x")>>, <<"scmp", ">=", B, S("x")>>,
  <<"in", A, <<1, NL>>>>, <<"not", <<"in", A, <<1, NL>>>>>>, <<"sin", B, <<"x", "é">>>>,
  <<"and", <<"cmp", "=", A, I(1)>>, <<"scmp", "=", B, S("x")>>>>, <<"or", <<"cmp", "=", A, I(1)>>, <<"scmp", "<>", B, S("x")>>>>,
  <<"cmp", "=", A, I(NL)>>, <<"cmp", "=", I(1), I(2)>>, <<"lit", 1>>, <<"lit", NL>>, <<"cmp", "<", A, C>>,
  <<"and", <<"cmp", ">", A, I(1)>>, <<"cmp", "<", A, I(1)>>>>, <<"not", <<"or", <<"null", "a">>, <<"cmp", "=", A, C>>>>>> >>
Sets == << << <<"a">>, <<I(2)>> >>, << <<"a">>, << <<"+", A, I(1)>> >> >>, << <<"b">>, <<S("x")>> >>, << <<"b", "a">>, <<S(NS), C>> >>,
           << <<"a", "c">>, <<C, A>> >>, << <<"c", "b">>, <<I(NL), S("y")>> >>, << <<"a", "c">>, << <<"boom">>, A>> >> >>
Rows3 == << << I(1), S("x"), I(1) >>, << I(2), S("y"), I(1) >>, << I(NL), S("x"), I(2) >>, << I(1), S(NS), I(NL) >>, << I(NL), S(NS), I(NL) >>, << I(2), S("é"), I(2) >> >>
Inserts == { <<Cols, <<Rows3[i]>> >> : i \in 1..6 } \cup { <<Cols, <<Rows3[1], Rows3[3]>> >>, <<Cols, <<Rows3[2], Rows3[4]>> >>, <<Cols, <<Rows3[1], Rows3[2], Rows3[5]>> >>,
             << <<"c", "a">>, << <<I(2), I(1)>>, <<I(1), I(NL)>> >> >>, << <<"b">>, << <<S("y")>> >> >> }
Few == {2, 3, 11}
FewInserts == { <<Cols, <<Rows3[1]>> >>, <<Cols, <<Rows3[1], Rows3[3]>> >> }
Projections == {"as is", "swap"} \cup (IF "notnull" \in Ops THEN {"fixed", "boom"} ELSE {})
Projected(k) == CASE k = "as is" -> <<Cols, Star>>
                  [] k = "swap" -> << <<"a", "c", "b">>, <<C, <<"+", A, I(1)>>, B>> >>
                  [] k = "fixed" -> << <<"b", "c", "a">>, <<S("y"), A, I(1)>> >>
                  [] k = "boom" -> << <<"c", "b", "a">>, <<A, B, <<"boom">> >> >>

Small == \A n \in Names : Size(tab'[n].rows) <= MaxRows /\ \A r \in DOMAIN tab'[n].rows : r[1] \in {NL, 1, 2} /\ r[3] \in {NL, 1, 2}
Do(o, a) == a /\ op' = o /\ Small
Has(x) == x \in Ops
OpCreate == \E n \in Names, nn \in (IF Has("notnull") THEN {<< >>, <<"a">>} ELSE {<< >>}), ine \in (IF Has("few") THEN {FALSE} ELSE BOOLEAN) : Has("create") /\ ids < MaxIds
               /\ Do([op |-> "create", n |-> n, nn |-> nn, ine |-> ine], Create(n, Range(nn), ine))
OpUpload == \E n \in Names, kind \in (IF Has("notnull") THEN {"csv"} ELSE {"csv", "parquet"}), i \in (IF Has("notnull") THEN {3} ELSE {1, 3, 6}) : Has("upload") /\ ids < MaxIds
               /\ LET rs == IF MaxRows = 1 THEN << Made(Cols, Rows3[i], NoRow) >> ELSE << Made(Cols, Rows3[i], NoRow), << NL, "", 2 >> >> IN Do([op |-> "upload", n |-> n, kind |-> kind, rs |-> rs], Upload(n, kind, rs))
OpInsert == \E n \in Names, i \in Inserts : Has("insert") /\ ("few" \in Ops => i \in FewInserts) /\ Do([op |-> "insert", n |-> n, cs |-> i[1], vs |-> i[2]], Insert(n, i[1], i[2]))
OpUpdate == \E n \in Names, i \in 1..Len(Sets), j \in 1..Len(Preds) : Has("update") /\ (IF "few" \in Ops THEN j = 3 /\ (i = 4 \/ ("notnull" \in Ops /\ i \in {3, 7})) ELSE i = 1 \/ j \in Few)
               /\ Do([op |-> "update", n |-> n, cs |-> Sets[i][1], es |-> Sets[i][2], p |-> Preds[j]], Update(n, Sets[i][1], Sets[i][2], Preds[j]))
OpDelete == \E n \in Names, j \in 1..Len(Preds) : Has("delete") /\ ("few" \in Ops => j \in Few)
               /\ Do([op |-> "delete", n |-> n, p |-> Preds[j]], Delete(n, Preds[j]))
OpTruncate == \E n \in Names : Has("truncate") /\ Do([op |-> "truncate", n |-> n], Truncate(n))
OpDrop == \E n \in Names, ie \in BOOLEAN : Has("drop") /\ Do([op |-> "drop", n |-> n, ie |-> ie], Drop(n, ie))
OpRename == \E n \in Names, m \in Names : Has("rename") /\ Do([op |-> "rename", n |-> n, m |-> m], Rename(n, m))
OpVacuum == \E n \in Names : Has("vacuum") /\ Do([op |-> "vacuum", n |-> n], Vacuum(n))
OpCtas == \E n \in Names, m \in Names, k \in Projections, j \in (IF "few" \in Ops THEN {3} ELSE Few), ine \in (IF Has("notnull") THEN {FALSE} ELSE BOOLEAN) : Has("ctas") /\ ids < MaxIds
               /\ Do([op |-> "ctas", n |-> n, m |-> m, cs |-> Projected(k)[1], es |-> Projected(k)[2], p |-> Preds[j], ine |-> ine],
                     Ctas(n, m, Projected(k)[1], Projected(k)[2], Preds[j], ine))
OpInsertSelect == \E n \in Names, m \in Names, k \in Projections, j \in (IF Has("notnull") THEN {1} ELSE {1, 3}) : Has("insertselect")
               /\ Do([op |-> "insertselect", n |-> n, m |-> m, cs |-> Projected(k)[1], es |-> Projected(k)[2], p |-> Preds[j]],
                     InsertSelect(n, m, Projected(k)[1], Projected(k)[2], Preds[j]))
OpMark == Has("mark") /\ marks < MaxMarks /\ (\E n \in Names : Exists(n)) /\ Do([op |-> "mark"], Mark)

MCInit == Init /\ op = [op |-> "init"]
MCNext == OpCreate \/ OpUpload \/ OpInsert \/ OpUpdate \/ OpDelete \/ OpTruncate \/ OpDrop \/ OpRename \/ OpVacuum \/ OpCtas \/ OpInsertSelect \/ OpMark
MCSpec == MCInit /\ [][MCNext]_mcvars
Ones(F) == {[r |-> r, n |-> F[r]] : r \in DOMAIN F}
St(t, m0) == [marks |-> m0, tabs |-> [n \in Names |-> [there |-> t[n].id # 0, nn |-> SetToSortSeq(t[n].nn, LAMBDA x, y : Pos(x) < Pos(y)), rowsSet |-> Ones(t[n].rows),
                                     past |-> [m \in 1..Len(t[n].past) |-> [known |-> t[n].past[m].known, rowsSet |-> Ones(t[n].past[m].rows)]], listed |-> TRUE, fresh |-> t[n].fresh]]]
\* identities are not told apart, except by what they held
View == <<[n \in Names |-> [there |-> tab[n].id # 0, nn |-> tab[n].nn, rows |-> tab[n].rows, past |-> tab[n].past, fresh |-> tab[n].fresh]], marks, IF MaxIds > 50 THEN 0 ELSE ids>>
Emit == PrintT(ToJson([k |-> "e", s |-> St(tab, marks), o |-> op', r |-> result', t |-> St(tab', marks')]))

(* The specification's own properties *)
\* a predicate splits a table in two; what it is NULL for stays
Partition == \A n \in Names, j \in 1..Len(Preds) : Plus(Where(tab[n].rows, Preds[j]), WhereNot(tab[n].rows, Preds[j])) = tab[n].rows
NotNull == \A n \in Names : Fits(tab[n].rows, tab[n].nn)
NamesApart == \A n, m \in Names : n # m /\ Exists(n) => tab[n].id # tab[m].id
PastLong == \A n \in Names : Exists(n) => Len(tab[n].past) = marks /\ tab[n].fresh <= marks
PastKept == [][\A n \in Names : Exists(n) /\ (\E m \in Names : tab'[m].id = tab[n].id) =>
                 LET m == CHOOSE m \in Names : tab'[m].id = tab[n].id IN
                 \A i \in 1..marks : tab'[m].past[i].known => tab[n].past[i].known /\ tab'[m].past[i] = tab[n].past[i]]_mcvars
=============================================================================
