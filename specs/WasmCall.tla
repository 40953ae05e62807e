------------------------------ MODULE WasmCall ------------------------------
(***************************************************************************)
(* The life of a user-defined function: its module is loaded and checked,  *)
(* then called on batches; for each row host and guest follow a protocol,  *)
(* and any step of it can go wrong in a guest. The guest of the harness    *)
(* implements this protocol as a monitor: it traps on any departure.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxBatch, MaxBatches, Langs

\* defects that show when the module is loaded: the function must be refused then or at its first row
LoadDefects == [ wasm |-> {"garbage", "empty", "truncated", "no-entry", "entry-is-memory", "start-traps", "unknown-import"},
                 wasmMessagePack |-> {"garbage", "empty", "truncated", "no-entry", "entry-is-memory", "entry-params", "entry-result", "entry-none",
                   "start-traps", "unknown-import", "no-memory", "no-alloc", "no-dealloc", "alloc-params", "alloc-result", "dealloc-params",
                   "dealloc-result", "alloc-is-global"} ]
\* declared types that the function of the module does not have, or that no module can have
SigDefects == [ wasm |-> {"param-i64", "param-f32", "param-f64", "param-more", "param-fewer", "param-externref", "result-i64", "result-f32", "result-f64",
                          "result-none", "result-two", "result-externref", "declared-text", "declared-smallint", "declared-boolean", "declared-date",
                          "declared-timestamp", "declared-decimal", "returns-text", "returns-smallint", "returns-decimal"},
                wasmMessagePack |-> {} ]
\* defects of one row, by the step of the protocol they occur in
RowDefects == [ wasm |-> [run |-> {"unreachable", "divide", "overflow", "recursion", "memory"}],
                wasmMessagePack |-> [ alloc |-> {"alloc-traps", "alloc-negative", "alloc-outside", "alloc-at-end", "alloc-straddles"},
                                     run |-> {"unreachable", "divide", "overflow", "recursion", "memory", "exit"},
                                     header |-> {"result-negative", "result-outside", "result-at-end", "size-negative", "size-huge", "size-outside"},
                                     payload |-> {"payload-empty", "payload-truncated", "payload-reserved", "payload-nil", "payload-text", "payload-array",
                                                  "payload-deep", "payload-long", "payload-map"},
                                     free |-> {"free-input-traps", "free-output-traps"} ] ]
Steps(l) == IF l = "wasm" THEN <<"run">> ELSE <<"alloc", "run", "header", "payload", "free">>
Defects(l) == LoadDefects[l] \cup SigDefects[l] \cup UNION {RowDefects[l][s] : s \in DOMAIN RowDefects[l]} \cup {"none"}

VARIABLES lang, defect, st, batch, pc, hist, out
vars == <<lang, defect, st, batch, pc, hist, out>>

Init == /\ lang \in Langs /\ defect \in Defects(lang)
        /\ st = "new" /\ batch = <<>> /\ pc = 0 /\ hist = <<>> /\ out = <<>>
Load == /\ st = "new"
        /\ st' = IF defect \in LoadDefects[lang] \cup SigDefects[lang] THEN "refused" ELSE "ready"
        /\ UNCHANGED <<lang, defect, batch, pc, hist, out>>
\* rows: 1, 2 harmless; 9 meets the defect
Rows == {1, 9}
Batches == UNION {[1..n -> Rows] : n \in 0..MaxBatch}
Start == /\ st = "ready" /\ Len(hist) < MaxBatches
         /\ \E b \in Batches : hist' = Append(hist, b) /\ batch' = b
         /\ st' = "running" /\ pc' = 0 /\ out' = Append(out, <<>>) /\ UNCHANGED <<lang, defect>>
Err == <<0>>   \* no row has this value
Done == Len(out[Len(out)])
Fails(step) == batch[Done + 1] = 9 /\ step \in DOMAIN RowDefects[lang] /\ defect \in RowDefects[lang][step]
\* one step of the protocol for the row at hand: it goes well, or ends the batch
Step == /\ st = "running" /\ Done < Len(batch)
        /\ LET s == Steps(lang)[pc + 1] IN
           IF Fails(s)
           THEN st' = "ready" /\ pc' = 0 /\ batch' = <<>> /\ out' = [out EXCEPT ![Len(out)] = Err]
           ELSE IF pc + 1 = Len(Steps(lang))
           THEN pc' = 0 /\ out' = [out EXCEPT ![Len(out)] = Append(@, batch[Done + 1])] /\ UNCHANGED <<st, batch>>
           ELSE pc' = pc + 1 /\ UNCHANGED <<st, batch, out>>
        /\ UNCHANGED <<lang, defect, hist>>
Finish == st = "running" /\ Done = Len(batch) /\ st' = "ready" /\ batch' = <<>> /\ UNCHANGED <<lang, defect, pc, hist, out>>
Next == Load \/ Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* a batch ends with an error or with a value for each of its rows, never in between, whatever came before
Whole == st = "ready" => \A i \in 1..Len(hist) : out[i] = Err \/ out[i] = hist[i]
NoBlame == st = "ready" => \A i \in 1..Len(hist) : (9 \notin {hist[i][k] : k \in 1..Len(hist[i])}) => out[i] = hist[i]
AlwaysEnds == (st = "running") ~> (st = "ready")
EmitInv == (st \in {"ready", "refused"}) =>
             PrintT(ToJson([k |-> "c", lang |-> lang, defect |-> defect, refused |-> st = "refused", hist |-> hist, out |-> out]))
=============================================================================
