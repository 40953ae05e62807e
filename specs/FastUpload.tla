----------------------------- MODULE FastUpload -----------------------------
(***************************************************************************)
(* Moving finished files into a store on a local filesystem. There are two *)
(* filesystems; each may hold a finished file and the targets `t`, `d/t`   *)
(* and `d/e/t`. A move is carried out in steps, any of which may fail: the *)
(* directories are made, the file is renamed, or (between filesystems)     *)
(* copied and the source then removed. The environment puts files and      *)
(* obstacles in place and takes them away.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Contents, Paths, DirKinds, Limits, MaxUsed
FS == {"A", "B"}
VARIABLES src,   \* content of the finished file, "-" if there is none
          srcro, \* its directory cannot be changed
          dir,   \* what `d` is: "absent", "dir", "ro" (cannot be changed), "file"
          tgt,   \* content of each target, "-", "dir", or "?" after a failed move
          limit, \* no file larger than this can be written
          op, res
vars == <<src, srcro, dir, tgt, limit, op, res>>
state == <<src, srcro, dir, tgt, limit>>
Large == {"large", "huge"}

Init == /\ src = [f \in FS |-> "-"] /\ srcro = [f \in FS |-> FALSE] /\ dir = [f \in FS |-> "absent"]
        /\ tgt = [f \in FS |-> [p \in Paths |-> "-"]] /\ limit = FALSE /\ op = [op |-> "init"] /\ res = "ok"

Env(o) == op' = o /\ res' = "ok"
\* at most one finished file at a time
Finish(f, c) == /\ \A g \in FS : src[g] = "-" /\ ~srcro[g]
                /\ Env([op |-> "env_finish", f |-> f, c |-> c]) /\ src' = [src EXCEPT ![f] = c] /\ UNCHANGED <<srcro, dir, tgt, limit>>
Discard(f) == src[f] # "-" /\ ~srcro[f] /\ Env([op |-> "env_discard", f |-> f]) /\ src' = [src EXCEPT ![f] = "-"] /\ UNCHANGED <<srcro, dir, tgt, limit>>
Protect(f) == src[f] # "-" /\ Env([op |-> "env_protect", f |-> f, on |-> ~srcro[f]]) /\ srcro' = [srcro EXCEPT ![f] = ~@] /\ UNCHANGED <<src, dir, tgt, limit>>
Nested(p) == p # "t"
SetDir(g, k) == /\ dir[g] # k \/ \E p \in Paths : Nested(p) /\ tgt[g][p] # "-"
                /\ Env([op |-> "env_dir", f |-> g, kind |-> k]) /\ dir' = [dir EXCEPT ![g] = k]
                /\ tgt' = [tgt EXCEPT ![g] = [p \in Paths |-> IF Nested(p) THEN "-" ELSE @[p]]] /\ UNCHANGED <<src, srcro, limit>>
SetTarget(g, k) == /\ tgt[g]["t"] # k /\ Env([op |-> "env_target", f |-> g, kind |-> k])
                   /\ tgt' = [tgt EXCEPT ![g]["t"] = k] /\ UNCHANGED <<src, srcro, dir, limit>>
SetLimit == Limits /\ Env([op |-> "env_limit", on |-> ~limit]) /\ limit' = ~limit /\ UNCHANGED <<src, srcro, dir, tgt>>

\* the steps of a move
Reachable(g, p) == Nested(p) => dir[g] \in {"absent", "dir"}
Renames(f, g, p) == f = g /\ ~srcro[f] /\ tgt[g][p] # "dir"
Copies(f, g, p) == f # g /\ tgt[g][p] # "dir" /\ ~(limit /\ src[f] \in Large)
Removes(f) == ~srcro[f]
Succeeds(f, g, p) == src[f] # "-" /\ Reachable(g, p) /\ (Renames(f, g, p) \/ (Copies(f, g, p) /\ Removes(f)))
Move(f, g, p) == /\ tgt[g][p] # "?"
                 /\ op' = [op |-> "move", f |-> f, g |-> g, p |-> p]
                 /\ IF Succeeds(f, g, p)
                    THEN /\ res' = "ok" /\ src' = [src EXCEPT ![f] = "-"]
                         /\ tgt' = [tgt EXCEPT ![g][p] = src[f]]
                         /\ dir' = IF Nested(p) THEN [dir EXCEPT ![g] = "dir"] ELSE dir
                    ELSE /\ res' = "error" /\ tgt' = [tgt EXCEPT ![g][p] = "?"] /\ UNCHANGED <<src, dir>>
                 /\ UNCHANGED <<srcro, limit>>
Next == \/ \E f \in FS : (\E c \in Contents : Finish(f, c)) \/ Discard(f) \/ Protect(f)
        \/ \E g \in FS : (\E k \in DirKinds : SetDir(g, k)) \/ (\E k \in {"-", "dir"} : SetTarget(g, k))
        \/ SetLimit
        \/ \E f \in FS, g \in FS, p \in Paths : Move(f, g, p)
Spec == Init /\ [][Next]_vars
\* nothing is lost: content that a move takes away is at its target, and a failed move takes nothing away
NothingLost == [][op'.op = "move" =>
                   /\ res' = "ok" => (tgt'[op'.g][op'.p] = src[op'.f] /\ src'[op'.f] = "-" /\ src[op'.f] # "-")
                   /\ res' = "error" => src' = src
                   /\ \A g \in FS, p \in Paths : (g # op'.g \/ p # op'.p) => tgt'[g][p] = tgt[g][p]]_vars
Doubts == Cardinality({x \in FS \X Paths : tgt[x[1]][x[2]] = "?"})
Bound == Doubts <= 1 /\ Cardinality({x \in FS \X Paths : tgt[x[1]][x[2]] # "-"}) <= MaxUsed
View == state
St(a, b, c, d, e) == [src |-> a, srcro |-> b, tgt |-> d, limit |-> e, dir |-> c]
Emit == PrintT(ToJson([k |-> "e", s |-> St(src, srcro, dir, tgt, limit), o |-> op', r |-> res', t |-> St(src', srcro', dir', tgt', limit')]))
=============================================================================
