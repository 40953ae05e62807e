---------------------------- MODULE StoreOptions ----------------------------
(***************************************************************************)
(* Where a store's settings come from. An option given explicitly, in any  *)
(* accepted spelling, is never overridden; the environment only fills in   *)
(* what is missing. The path and the key of a service account exclude each *)
(* other: the environment's are consulted only if neither is given, the    *)
(* path first, and each is used as what it is. An unknown option is an     *)
(* error, an unknown environment variable is none of our business.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxGiven, MaxEnv, AllSpellings
VARIABLES given, env
vars == <<given, env>>
Keys == {"sa", "sak", "bucket", "creds", "timeout"}
Spell(k) ==
  LET all == CASE k = "sa" -> <<"google_service_account", "service_account", "google_service_account_path", "service_account_path">>
               [] k = "sak" -> <<"google_service_account_key", "service_account_key">>
               [] k = "bucket" -> <<"google_bucket", "bucket", "google_bucket_name", "bucket_name">>
               [] k = "creds" -> <<"google_application_credentials">>
               [] k = "timeout" -> <<"timeout", "google_timeout">>
               [] k = "?" -> <<"google_servic_account", "region", "">>
  IN {all[i] : i \in 1..(IF AllSpellings THEN Len(all) ELSE IF Len(all) < 2 THEN 1 ELSE 2)}
\* environment variables and the setting they stand for
Envs == [GOOGLE_SERVICE_ACCOUNT |-> "sa", GOOGLE_SERVICE_ACCOUNT_KEY |-> "sak", GOOGLE_BUCKET |-> "bucket", GOOGLE_BUCKET_NAME |-> "bucket",
         GOOGLE_APPLICATION_CREDENTIALS |-> "creds", GOOGLE_TIMEOUT |-> "timeout", GOOGLE_NONSENSE |-> "", BUCKET |-> "", google_bucket |-> "",
         SERVICE_ACCOUNT |-> "", TIMEOUT |-> ""]
Given == UNION {{[key |-> k, as |-> x] : x \in Spell(k)} : k \in Keys \cup {"?"}}
Init == given = {} /\ env = {}
Give(g) == given' = given \cup {g} /\ (\A h \in given : h.key # g.key) /\ Cardinality(given) < MaxGiven /\ UNCHANGED env
Set(e) == e \notin env /\ env' = env \cup {e} /\ Cardinality(env) < MaxEnv /\ UNCHANGED given
Next == (\E g \in Given : Give(g)) \/ (\E e \in DOMAIN Envs : Set(e))
Spec == Init /\ [][Next]_vars
Has(k) == \E g \in given : g.key = k
FromEnv(k) == {e \in env : Envs[e] = k}
\* the values a setting may have in the end, named by where they come from
Values(k) ==
  IF Has(k) THEN {g.as : g \in {h \in given : h.key = k}}
  ELSE IF k \in {"sa", "sak"} THEN
    IF Has("sa") \/ Has("sak") THEN {}
    ELSE IF k = "sa" THEN FromEnv("sa") ELSE IF FromEnv("sa") # {} THEN {} ELSE FromEnv("sak")
  ELSE FromEnv(k)
Resolved == [k \in Keys |-> Values(k)]
OneAccount == ~(Values("sa") # {} /\ Values("sak") # {} /\ ~(Has("sa") /\ Has("sak")))
ExplicitWins == \A g \in given : g.key \in Keys => Values(g.key) = {g.as}
EmitInv == PrintT(ToJson([k |-> "c", given |-> given, env |-> env, bad |-> Has("?"), want |-> Resolved]))
=============================================================================
