------------------------------ MODULE Persist ------------------------------
(* Saving vectors to a destination that may fail, and loading them back     *)
(* from a source that may fail.                                             *)
(* Save: the output is a sequence of bytes 1..Size, written through a       *)
(* buffer of BufSize bytes; the destination accepts at most Limit bytes.    *)
(* Load: a sequence of line kinds; reading fails before line FailAt.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS MaxSize, BufSizes, MaxLines, Kinds, Bug
VARIABLES mode, size, bufsize, limit, buf, next, acc, werr, pc, ret,   \* saving
          lines, failat, pos, ents                                     \* loading
svars == <<size, bufsize, limit, buf, next, acc, werr>>
lvars == <<lines, failat, pos, ents>>
vars == <<mode, pc, ret, svars, lvars>>

Init == \/ /\ mode = "save" /\ size \in 0..MaxSize /\ bufsize \in BufSizes /\ limit \in 0..MaxSize
           /\ buf = <<>> /\ next = 1 /\ acc = <<>> /\ werr = FALSE /\ pc = "write" /\ ret = "none"
           /\ lines = <<>> /\ failat = 0 /\ pos = 0 /\ ents = <<>>
        \/ /\ mode = "load" /\ size = 0 /\ bufsize = 1 /\ limit = 0 /\ buf = <<>> /\ next = 1 /\ acc = <<>> /\ werr = FALSE
           /\ pc = "read" /\ ret = "none"
           /\ lines \in UNION {[1..n -> Kinds] : n \in 0..MaxLines} /\ failat \in 0..(Len(lines) + 1) /\ pos = 0 /\ ents = <<>>

\* what the destination does with the buffered bytes: all, or as many as it still takes
Accept(b) == IF Len(acc) + Len(b) <= limit THEN b ELSE SubSeq(b, 1, limit - Len(acc))
Flush(next_pc) ==
    /\ LET a == Accept(buf) IN
       /\ acc' = acc \o a
       /\ werr' = (werr \/ Len(a) < Len(buf))
       /\ buf' = <<>>
    /\ pc' = next_pc
Put == /\ mode = "save" /\ pc = "write" /\ next <= size
       /\ IF Len(buf) < bufsize
          THEN buf' = Append(buf, next) /\ next' = next + 1 /\ UNCHANGED <<acc, werr, pc>>
          ELSE (IF werr THEN pc' = "end" /\ UNCHANGED <<buf, acc, werr>> ELSE Flush("write")) /\ UNCHANGED next
       /\ UNCHANGED <<mode, size, bufsize, limit, ret, lvars>>
Final == /\ mode = "save" /\ pc = "write" /\ next > size
         /\ IF werr THEN pc' = "end" /\ UNCHANGED <<buf, acc, werr>> ELSE Flush("end")
         /\ UNCHANGED <<mode, size, bufsize, limit, next, ret, lvars>>
SaveEnd == /\ mode = "save" /\ pc = "end"
           /\ ret' = (IF werr /\ Bug # "ignore_flush" THEN "error" ELSE "ok")
           /\ pc' = "done"
           /\ UNCHANGED <<mode, svars, lvars>>

\* one line: good = word and numbers; skip = starts with a space; few = no further field; bad = not a number
Entry(k) == k = "good"
Read == /\ mode = "load" /\ pc = "read"
        /\ LET i == pos + 1 IN
           IF failat = i THEN ret' = "error" /\ pc' = "done" /\ ents' = <<>> /\ UNCHANGED pos
           ELSE IF i > Len(lines) THEN ret' = "ok" /\ pc' = "done" /\ UNCHANGED <<pos, ents>>
           ELSE /\ pos' = i
                /\ CASE lines[i] = "good" -> ents' = Append(ents, i) /\ UNCHANGED <<ret, pc>>
                     [] lines[i] = "skip" -> UNCHANGED <<ents, ret, pc>>
                     [] OTHER -> ret' = "error" /\ pc' = "done" /\ ents' = (IF Bug = "partial_load" THEN ents ELSE <<>>)
        /\ UNCHANGED <<mode, svars, lines, failat>>
Done == pc = "done" /\ UNCHANGED vars
Next == Put \/ Final \/ SaveEnd \/ Read \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Output == [i \in 1..size |-> i]
\* P19
PrefixOnly == IsPrefix(acc, Output)
SaveRight == (mode = "save" /\ pc = "done") => ((ret = "ok" <=> acc = Output) /\ (ret = "error" <=> size > limit))
\* P20
LoadOk(ls, f) == f = 0 /\ \A i \in DOMAIN ls : ls[i] \in {"good", "skip"}
LoadEntries(ls) == SelectSeq([i \in DOMAIN ls |-> i], LAMBDA i : ls[i] = "good")
LoadRight == (mode = "load" /\ pc = "done") =>
                 /\ (ret = "ok" <=> LoadOk(lines, failat))
                 /\ (ret = "ok" => ents = LoadEntries(lines)) /\ (ret = "error" => ents = <<>>)
Finishes == <>(pc = "done")
Gen == pc = "done" => PrintT("@J" \o ToJson([mode |-> mode, size |-> size, limit |-> limit, accepted |-> Len(acc), lines |-> lines,
                                             failat |-> failat, ret |-> ret, ents |-> ents]))
=============================================================================
