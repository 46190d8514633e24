-------------------------------- MODULE Cli --------------------------------
(* Training and query commands over a file system. Commands of several       *)
(* processes interleave step by step; the user creates and removes files in  *)
(* between. Output paths: "p" (in an existing directory), "q" (its directory *)
(* is missing), "r" (beneath something that is not a directory). Inputs:     *)
(* "ok", "absent", "unreadable".                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, MaxCmds, Sets, Bug
VARIABLES fs0,          \* what the user starts with at p
          fs,           \* output path -> content
          dirq,         \* whether the directory of q exists
          pc, cmd, made,
          hist,         \* commands given so far
          ends          \* ended commands: [cmd, st, own]
vars == <<fs0, fs, dirq, pc, cmd, made, hist, ends>>
No == [kind |-> "no", by |-> 0]
Old == [kind |-> "old", by |-> 0]
DirC == [kind |-> "dir", by |-> 0]
Part(c) == [kind |-> "part", by |-> c]
Full(c) == [kind |-> "full", by |-> c]
Paths == {"p", "q", "r"}
Trains == [op : {"train"}, path : Paths, inp : {"ok", "absent", "unreadable"}, set : Sets, vec : {"-"}, args : {"-"}]
Queries == [op : {"query"}, path : {"-"}, inp : {"-"}, set : {"-"}, vec : {"p", "good"}, args : {"known", "unknown", "none", "two"}] \cup
           [op : {"query"}, path : {"-"}, inp : {"-"}, set : {"-"}, vec : {"bad", "absent"}, args : {"known"}]
Remove == [op |-> "remove", path |-> "p", inp |-> "-", set |-> "-", vec |-> "-", args |-> "-"]
None == [op |-> "none", path |-> "-", inp |-> "-", set |-> "-", vec |-> "-", args |-> "-"]
Init == /\ fs0 \in {"no", "old", "dir"}
        /\ fs \in {("p" :> x) @@ ("q" :> No) @@ ("r" :> No) : x \in {y \in {No, Old, DirC} : y.kind = fs0}}
        /\ dirq = FALSE /\ pc = [p \in Procs |-> "idle"] /\ cmd = [p \in Procs |-> [c |-> None, n |-> 0]] /\ made = [p \in Procs |-> FALSE]
        /\ hist = <<>> /\ ends = {}
Give(p, c) == hist' = Append(hist, c) /\ cmd' = [cmd EXCEPT ![p] = [c |-> c, n |-> Len(hist) + 1]]
Start(p) == /\ pc[p] = "idle" /\ Len(hist) < MaxCmds
            /\ \E c \in Trains \cup (IF Cardinality(Procs) = 1 THEN Queries ELSE {}) :
                  Give(p, c) /\ pc' = [pc EXCEPT ![p] = IF c.op = "train" THEN "check" ELSE "query"]
            /\ made' = [made EXCEPT ![p] = FALSE]
            /\ UNCHANGED <<fs, dirq, ends>>
\* the user removes what is at p (only when no command runs)
User(p) == /\ \A x \in Procs : pc[x] = "idle" /\ Len(hist) < MaxCmds /\ fs["p"] # No
           /\ Give(p, Remove) /\ fs' = [fs EXCEPT !["p"] = No]
           /\ ends' = ends \cup {[c |-> Remove, n |-> Len(hist) + 1, st |-> 0]}
           /\ UNCHANGED <<dirq, pc, made>>
\* an invocation ends
End(p, st) == /\ ends' = ends \cup {[c |-> cmd[p].c, n |-> cmd[p].n, st |-> st]} /\ pc' = [pc EXCEPT ![p] = "idle"]
Fail(p) == /\ End(p, 1)
           /\ fs' = (IF (made[p] \/ Bug = "remove_always") /\ Bug # "keep_failed" /\ fs[cmd[p].c.path] # DirC
                     THEN [fs EXCEPT ![cmd[p].c.path] = No] ELSE fs)
C(p) == cmd[p].c
Check(p) == /\ pc[p] = "check"
            /\ IF fs[C(p).path] # No \/ C(p).inp = "absent" THEN Fail(p) ELSE pc' = [pc EXCEPT ![p] = "mkdir"] /\ UNCHANGED <<fs, ends>>
            /\ UNCHANGED <<dirq, cmd, made, hist>>
Mkdir(p) == /\ pc[p] = "mkdir"
            /\ IF C(p).path = "r" THEN Fail(p) /\ UNCHANGED dirq
               ELSE /\ dirq' = (dirq \/ C(p).path = "q") /\ pc' = [pc EXCEPT ![p] = "create"] /\ UNCHANGED <<fs, ends>>
            /\ UNCHANGED <<cmd, made, hist>>
Create(p) == /\ pc[p] = "create"
             /\ IF fs[C(p).path] # No /\ Bug # "no_excl" THEN Fail(p) /\ UNCHANGED made
                ELSE /\ fs' = [fs EXCEPT ![C(p).path] = Part(cmd[p].n)] /\ made' = [made EXCEPT ![p] = TRUE]
                     /\ pc' = [pc EXCEPT ![p] = "train"] /\ UNCHANGED ends
             /\ UNCHANGED <<dirq, cmd, hist>>
Train(p) == /\ pc[p] = "train"
            /\ IF C(p).inp = "unreadable" \/ (C(p).set # "ok" /\ Bug # "late_refusal") THEN Fail(p)
               ELSE IF Bug = "ok_early" THEN End(p, 0) /\ UNCHANGED fs
               ELSE pc' = [pc EXCEPT ![p] = "save"] /\ UNCHANGED <<fs, ends>>
            /\ UNCHANGED <<dirq, cmd, made, hist>>
Save(p) == /\ pc[p] = "save"
           /\ fs' = [fs EXCEPT ![C(p).path] = Full(cmd[p].n)]
           /\ End(p, 0)
           /\ UNCHANGED <<dirq, cmd, made, hist>>
Loadable(c) == c.vec = "good" \/ (c.vec = "p" /\ fs["p"].kind = "full")
Query(p) == /\ pc[p] = "query"
            /\ End(p, IF Loadable(C(p)) /\ C(p).args = "known" THEN 0 ELSE 1)
            /\ UNCHANGED <<fs, dirq, cmd, made, hist>>
Stop == Len(hist) = MaxCmds /\ (\A p \in Procs : pc[p] = "idle") /\ UNCHANGED <<fs, dirq, pc, cmd, made, hist, ends>>
Step(p) == (Check(p) \/ Mkdir(p) \/ Create(p) \/ Train(p) \/ Save(p) \/ Query(p)) /\ UNCHANGED fs0
Next == (\E p \in Procs : ((Start(p) \/ User(p)) /\ UNCHANGED fs0) \/ Step(p)) \/ (Stop /\ UNCHANGED fs0)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))
(* P24 *)
Ended(n) == \E e \in ends : e.n = n
St(n) == (CHOOSE e \in ends : e.n = n).st
\* a file that no running command has made never changes, except by the user
NoClobber == [][\A x \in Paths : (fs'[x] # fs[x] /\ ~(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "remove"))
                   => (fs[x] = No \/ (fs[x].kind = "part" /\ ~Ended(fs[x].by) /\ fs'[x] \in {No, Full(fs[x].by)}))]_vars
\* success: the complete result is there, until the user removes it
Success == \A e \in ends : (e.c.op = "train" /\ e.st = 0) =>
              /\ e.c.inp = "ok" /\ e.c.set = "ok" /\ e.c.path # "r"
              /\ fs[e.c.path] = Full(e.n) \/ \E i \in (e.n + 1)..Len(hist) : hist[i].op = "remove"
\* failure: nothing of it is left
Failure == \A e \in ends : (e.c.op = "train" /\ e.st # 0) => fs[e.c.path] \notin {Part(e.n), Full(e.n)}
Reasons == Cardinality(Procs) = 1 => \A e \in ends : (e.c.op = "train" /\ e.st # 0) =>
              \/ e.c.inp # "ok" \/ e.c.set # "ok" \/ e.c.path = "r"
              \/ fs[e.c.path].by # e.n      \* something else is, or was, there
Ends == \A p \in Procs : (pc[p] # "idle") ~> (pc[p] = "idle")
\* the command that failed because of its settings or input can be repeated with corrected ones
Repeat == (Cardinality(Procs) = 1 /\ pc[CHOOSE p \in Procs : TRUE] = "idle") =>
              \A x \in Paths : fs[x] \in {No, Old, DirC} \/ fs[x].kind = "full"
Gen == (Len(hist) = MaxCmds /\ \A p \in Procs : pc[p] = "idle") =>
       PrintT("@J" \o ToJson([init |-> fs0, cmds |-> hist, st |-> [i \in DOMAIN hist |-> St(i)], fs |-> fs]))
=============================================================================
