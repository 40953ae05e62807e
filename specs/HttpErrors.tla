----------------------------- MODULE HttpErrors -----------------------------
(***************************************************************************)
(* A request is tried on the routes in order. On each, admission may not   *)
(* apply to it (another path or method), may fail with an API error, or    *)
(* let it through to the handler, which replies or fails with an API error.*)
(* The first route that lets the request through answers it; otherwise the *)
(* failure of an admission does, whatever the other routes had against it. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxRoutes, Detail   \* Detail: kinds with every detail, or with one
VARIABLES routes, answer
vars == <<routes, answer>>

\* [kind of failure, detail: what it is about]
E(k, d) == [kind |-> k, detail |-> d]
Details == IF Detail THEN {"x", "a b", "é\"<>", "", "READ_FORBIDDEN", "cafe", "CAFE", "caf", "cafe0"} ELSE {"x"}
Plain == {"NotReadOnlyQuery", "ReadOnlyEndpointDisabled", "ReadForbidden", "WriteForbidden", "NeedAccessToken", "UselessAccessToken", "WrongAccessToken",
          "InvalidAuthorizationHeader", "InvalidMultiStatement", "EmptyMultiStatement", "UploadMissingFile", "UploadMissingFilename", "UploadHasHeaderParseError",
          "QueryDecodeError", "FromUtf8Error"}
IoKinds == {"IoPermissionDenied", "IoNotFound", "IoUnexpectedEof", "IoTimedOut", "IoInvalidInput", "IoOther"}
DataFusionKinds == {"DataFusionInternal", "DataFusionNotImplemented", "DataFusionConfiguration", "DataFusionArrow", "DataFusionParquet", "DataFusionObjectStore",
                    "DataFusionObjectNotFound", "DataFusionIo", "DataFusionExternal", "DataFusionSubstrait", "DataFusionContext", "DataFusionArrowExternal"}
WithDetail == (IF Detail THEN IoKinds \cup DataFusionKinds ELSE {}) \cup
              {"IoError", "FromIoError", "DataFusionPlan", "DataFusionExecution", "FromDataFusion", "HashMismatch", "UploadMissingFilenameExtension", "UploadUnsupportedFileFormat",
               "UploadFileLoadError"}
Built == {"UploadSchemaDeserializationError", "UploadSchemaParseError", "UploadBodyLoadError", "QueryParsingError", "DataFusionSql"}
Failures == {E(k, "") : k \in Plain \cup Built} \cup {E(k, d) : k \in WithDetail, d \in Details}

Status(k) ==
  CASE k \in {"NeedAccessToken", "WrongAccessToken", "InvalidAuthorizationHeader"} -> 401
    [] k \in {"ReadForbidden", "WriteForbidden"} -> 403
    [] k \in {"NotReadOnlyQuery", "ReadOnlyEndpointDisabled"} -> 405
    [] k \in {"IoError", "FromIoError"} \cup IoKinds -> 500
    [] OTHER -> 400
\* what the body must be, where clients rely on it, or contain
Code(k) ==
  CASE k = "NotReadOnlyQuery" -> "NOT_READ_ONLY_QUERY" [] k = "ReadOnlyEndpointDisabled" -> "READ_ONLY_ENDPOINT_DISABLED"
    [] k = "ReadForbidden" -> "READ_FORBIDDEN" [] k = "WriteForbidden" -> "WRITE_FORBIDDEN" [] k = "NeedAccessToken" -> "NEED_ACCESS_TOKEN"
    [] k = "UselessAccessToken" -> "USELESS_ACCESS_TOKEN" [] k = "WrongAccessToken" -> "INVALID_ACCESS_TOKEN"
    [] k = "InvalidAuthorizationHeader" -> "INVALID_AUTHORIZATION_HEADER" [] k \in {"QueryDecodeError", "FromUtf8Error"} -> "QUERY_DECODE_ERROR"
    [] OTHER -> ""
Answer(f) == [status |-> Status(f.kind), code |-> Code(f.kind), says |-> f.detail, kind |-> f.kind]
Ok == [status |-> 200, code |-> "fine", says |-> "", kind |-> "ok"]
NotFound == [status |-> 404, code |-> "", says |-> "", kind |-> "none"]
WrongMethod == [status |-> 405, code |-> "", says |-> "", kind |-> "none"]

Outcomes == {[on |-> "path", f |-> E("", "")], [on |-> "method", f |-> E("", "")], [on |-> "served", f |-> E("", "")]}
            \cup {[on |-> "admission", f |-> f] : f \in Failures} \cup {[on |-> "handler", f |-> f] : f \in Failures}
Idx(P(_)) == {i \in 1..Len(routes) : P(routes[i].on)}
Least(X) == CHOOSE i \in X : \A j \in X : i <= j
Result == LET through == Idx(LAMBDA o : o \in {"handler", "served"})
              refused == Idx(LAMBDA o : o = "admission")
              methods == Idx(LAMBDA o : o = "method")
          IN IF through # {} THEN (IF routes[Least(through)].on = "served" THEN Ok ELSE Answer(routes[Least(through)].f))
             ELSE IF refused # {} THEN Answer(routes[Least(refused)].f)
             ELSE IF methods # {} THEN WrongMethod ELSE NotFound
Init == routes = <<>> /\ answer = NotFound
\* what a second admission failure adds to a first is not specified
Add(o) == /\ Len(routes) < MaxRoutes
          /\ o.on = "admission" => \A i \in 1..Len(routes) : routes[i].on # "admission"
          /\ routes' = Append(routes, o) /\ UNCHANGED answer
Next == \E o \in Outcomes : Add(o)
Spec == Init /\ [][Next]_vars
\* a failure is answered alike wherever it arises
Alike == Len(routes) = 1 /\ routes[1].on \in {"admission", "handler"} => Result = Answer(routes[1].f)
EmitInv == Len(routes) > 0 => PrintT(ToJson([k |-> "c", routes |-> routes, want |-> Result]))
=============================================================================
