----------------------------- MODULE HttpServer -----------------------------
(***************************************************************************)
(* What the HTTP interface does with a request: who may do what under an    *)
(* access policy, what the answer is, and what a client which remembers an  *)
(* answer (by its ETag) ends up seeing.                                     *)
(*                                                                         *)
(* Tables t and u (default database) and t of another database hold the     *)
(* rows 1..n; statements append the next row or empty a table.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Policies, Creds, Kinds, Queries, Dbs, MaxRows
VARIABLES pol, n, z, slot, op, result
vars == <<pol, n, z, slot, op, result>>
\* n: rows of t, u and of t in the other database; z: whether table z exists; slot: the answer the client remembers
None == [r |-> "none", w |-> "none"]
Access == {"any", "off", "pw"}
Init == pol = None /\ n = [t |-> 0, u |-> 0, o |-> 0] /\ z = FALSE /\ slot = [q |-> "none", same |-> TRUE] /\ op = [op |-> "init"] /\ result = [s |-> 0]

(************************** who may do what *******************************)
\* the principal for a credential, or the status of the refusal
Principal(p, c) ==
  CASE c = "none" -> IF p.r = "any" \/ p.w = "any" THEN "anonymous" ELSE "401"
    [] c = "malformed" -> "401"
    [] p.r # "pw" /\ p.w # "pw" -> "400"
    [] c = "write" /\ p.w = "pw" -> "writer"
    [] c = "read" /\ p.r = "pw" -> "reader"
    [] OTHER -> "401"
Refused(x) == x \in {"400", "401"}
Status(x) == IF x = "401" THEN 401 ELSE 400
May(p, x, a) == x = "writer" \/ (a = "read" /\ (x = "reader" \/ p.r = "any")) \/ (a = "write" /\ p.w = "any")

(************************** requests *************************************)
\* reads / writes: what the statements of a request need; bad: why the request is refused anyway (0: it is not)
GetBad(k) == CASE k = "get read" -> 0 [] k = "get write" -> 405 [] k = "get hash" -> 400 [] k = "get bad" -> 400 [] k = "get missing" -> 400 [] k = "get explain" -> 0 [] k = "get twice" -> 400
IsGet(k) == k \in {"get read", "get write", "get hash", "get bad", "get missing", "get explain", "get twice"}
Needs(k) == CASE k \in {"post read", "post explain", "post show", "post read read", "post analyze", "post missing"} -> {"read"}
              [] k \in {"post write", "upload", "post write write", "post create"} -> {"write"}
              [] k \in {"post write read", "post read write"} -> {"read", "write"}
              [] k \in {"post empty", "post bad"} -> {}
\* refused before permissions are looked at, and after
PostBad(k) == IF k \in {"post empty", "post bad"} THEN 400 ELSE 0
PostInvalid(k) == IF k \in {"post read write", "post read read", "post analyze", "post missing"} THEN 400 ELSE 0
Writes(k) == CASE k \in {"post write", "upload", "post write read"} -> 1 [] k = "post write write" -> 2 [] OTHER -> 0
Shows(k) == k \in {"get read", "post read", "post write read"}

Answer(k, p, c) ==
  LET x == Principal(p, c) IN
  IF k = "health" THEN 200
  ELSE IF k = "nowhere" THEN 404
  ELSE IF Refused(x) THEN Status(x)
  ELSE IF IsGet(k) THEN (IF p.r = "off" THEN 405 ELSE IF ~May(p, x, "read") THEN 403 ELSE IF GetBad(k) # 0 THEN GetBad(k) ELSE 200)
  ELSE IF PostBad(k) # 0 THEN PostBad(k)
  ELSE IF \E a \in Needs(k) : ~May(p, x, a) THEN 403
  ELSE IF PostInvalid(k) # 0 THEN PostInvalid(k) ELSE 200

(************************** answers **************************************)
UpTo(k) == [i \in 1..k |-> i]
Min(a, b) == IF a < b THEN a ELSE b
Merged(a, b) == [i \in 1..(a + b) |-> IF i <= 2 * Min(a, b) THEN (i + 1) \div 2 ELSE i - Min(a, b)]
Content(q, m, zz) ==
  CASE q = "t" -> UpTo(m.t)
    [] q = "join" -> UpTo(Min(m.t, m.u))
    [] q = "in" -> UpTo(Min(m.t, m.u))
    [] q = "scalar" -> UpTo(Min(m.t, m.u))
    [] q = "exists" -> UpTo(Min(m.t, IF m.u > 0 THEN m.u - 1 ELSE 0))
    [] q = "union" -> Merged(m.t, m.u)
    [] q = "count" -> <<m.u>>
    [] q = "cte" -> UpTo(m.u)
    [] q = "const" -> <<7>>
    [] q = "schema" -> << IF zz THEN 1 ELSE 0 >>
    [] q = "both" -> << IF zz THEN m.t + 1 ELSE m.t >>
Reads(q) == CASE q = "t" -> {"t"} [] q \in {"count", "cte"} -> {"u"} [] q = "const" -> {} [] q = "schema" -> {"z"} [] q = "both" -> {"t", "z"} [] OTHER -> {"t", "u"}
\* answers over such tables only can be remembered
Versioned(q) == q \notin {"schema", "both"}
Forget(ts) == slot' = [slot EXCEPT !.same = IF slot.q # "none" /\ Reads(slot.q) \cap ts # {} THEN FALSE ELSE @]
At(d) == IF d = "default" THEN "t" ELSE "o"

(************************** steps ****************************************)
Serve(p) == /\ pol = None /\ pol' = p /\ op' = [op |-> "serve", p |-> p] /\ result' = [s |-> 0] /\ UNCHANGED <<n, z, slot>>
\* one request of each kind, to a database, about its table t; a table that is full is emptied instead
Request(k, c, d) ==
  LET s == Answer(k, pol, c)
      gone == d = "missing" /\ s = 200 /\ k \notin {"health", "nowhere"}
      full == d # "missing" /\ n[At(d)] + Writes(k) > MaxRows
      done == s = 200 /\ ~gone /\ Writes(k) > 0
      m == IF ~done THEN n ELSE [n EXCEPT ![At(d)] = IF full THEN 0 ELSE @ + Writes(k)]
  IN /\ pol # None
     /\ k = "upload" => ~full
     /\ n' = m
     /\ op' = [op |-> "request", k |-> k, c |-> c, d |-> d, full |-> full]
     /\ result' = [s |-> IF gone THEN 400 ELSE s, b |-> IF s = 200 /\ ~gone /\ Shows(k) THEN UpTo(m[At(d)]) ELSE << >>]
     /\ IF done /\ d = "default" THEN Forget({"t"}) ELSE UNCHANGED slot
     /\ UNCHANGED <<pol, z>>
\* a client asks, and remembers the answer
Ask(q) == /\ pol # None /\ pol.r = "any"
          /\ result' = [s |-> 200, b |-> Content(q, n, z), hit |-> FALSE]
          /\ slot' = [q |-> q, same |-> TRUE]
          /\ op' = [op |-> "ask", q |-> q] /\ UNCHANGED <<pol, n, z>>
\* it asks again with what it remembers: what it sees then is always current
Again == /\ slot.q # "none"
         /\ result' = [s |-> 200, b |-> Content(slot.q, n, z), hit |-> slot.same /\ Versioned(slot.q)]
         /\ slot' = [slot EXCEPT !.same = TRUE]
         /\ op' = [op |-> "again", q |-> slot.q] /\ UNCHANGED <<pol, n, z>>
\* the tables change otherwise
Change(x, how) == /\ pol # None
                  /\ how = "insert" => n[x] < MaxRows
                  /\ n' = [n EXCEPT ![x] = IF how = "insert" THEN @ + 1 ELSE 0]
                  /\ Forget({x})
                  /\ op' = [op |-> "change", x |-> x, how |-> how] /\ result' = [s |-> 0] /\ UNCHANGED <<pol, z>>
Toggle == /\ pol # None /\ z' = ~z /\ Forget({"z"})
          /\ op' = [op |-> "toggle", there |-> z'] /\ result' = [s |-> 0] /\ UNCHANGED <<pol, n>>

Next == \/ \E p \in Policies : Serve(p)
        \/ \E k \in Kinds, c \in Creds, d \in Dbs : Request(k, c, d)
        \/ (Queries # {} /\ \E q \in Queries : Ask(q))
        \/ (Queries # {} /\ Again)
        \/ (Queries # {} /\ \E x \in {"t", "u"}, how \in {"insert", "delete", "recreate"} : Change(x, how))
        \/ (Queries # {} /\ Toggle)
Spec == Init /\ [][Next]_vars
AllPolicies == [r : Access, w : Access]
OpenPolicy == {[r |-> "any", w |-> "any"]}
NoStrings == {}
St(p, m, zz, sl) == [pol |-> p, n |-> m, z |-> zz, slot |-> sl]
View == <<pol, n, z, slot>>
Emit == PrintT(ToJson([k |-> "e", s |-> St(pol, n, z, slot), o |-> op', r |-> result', t |-> St(pol', n', z', slot')]))

(* The specification's own properties *)
TypeOK == \A x \in DOMAIN n : n[x] \in 0..MaxRows
\* nothing is read or changed without a permission
NoWrite == [][op'.op = "request" /\ n' # n => May(pol, Principal(pol, op'.c), "write")]_vars
NoRead == [][op'.op = "request" /\ result'.b # << >> => May(pol, Principal(pol, op'.c), "read")]_vars
OffIsOff == [][op'.op = "request" /\ pol.w = "off" => n' = n]_vars
Hits == [][op'.op = "again" /\ result'.hit => n = n']_vars
=============================================================================
