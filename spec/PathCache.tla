----------------------------- MODULE PathCache -----------------------------
(* Lazily memoised root-to-leaf path of one leaf, looked up by concurrent   *)
(* threads: the first lookup appends the nodes from the leaf upwards and    *)
(* then reverses the cache in place. Once guards it the way sync.Once does. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Threads, Height, MaxDepth, Once
VARIABLES cache, built, once, pc, want, at, lo, res
vars == <<cache, built, once, pc, want, at, lo, res>>
Path == [i \in 1..Height |-> i]                      \* node 1 is the root, node Height the leaf
Cut(p, d) == IF d > 0 /\ d < Len(p) THEN SubSeq(p, 1, d) ELSE p
Init == /\ cache = <<>> /\ built = FALSE /\ once = "new"
        /\ pc = [t \in Threads |-> "start"] /\ want \in [Threads -> 0..MaxDepth]
        /\ at = [t \in Threads |-> 0] /\ lo = [t \in Threads |-> 0] /\ res = [t \in Threads |-> <<>>]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Enter(t) == /\ pc[t] = "start"
            /\ IF Once
               THEN CASE once = "new" -> once' = "running" /\ Go(t, "reset")
                      [] once = "done" -> Go(t, "return") /\ UNCHANGED once
                      [] OTHER -> FALSE            \* waits
               ELSE Go(t, IF built THEN "return" ELSE "reset") /\ UNCHANGED once
            /\ UNCHANGED <<cache, built, want, at, lo, res>>
Reset(t) == /\ pc[t] = "reset" /\ cache' = <<>> /\ built' = TRUE /\ at' = [at EXCEPT ![t] = Height]
            /\ Go(t, "append") /\ UNCHANGED <<once, want, lo, res>>
Add(t) == /\ pc[t] = "append"
          /\ IF at[t] > 0
             THEN cache' = Append(cache, at[t]) /\ at' = [at EXCEPT ![t] = @ - 1] /\ UNCHANGED <<lo, pc>>
             ELSE Go(t, "reverse") /\ lo' = [lo EXCEPT ![t] = 1] /\ UNCHANGED <<cache, at>>
          /\ UNCHANGED <<built, once, want, res>>
Swap(t) == /\ pc[t] = "reverse"
           /\ LET i == lo[t] j == Len(cache) + 1 - lo[t] IN
              IF i < j
              THEN cache' = [cache EXCEPT ![i] = cache[j], ![j] = cache[i]] /\ lo' = [lo EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, once>>
              ELSE Go(t, "return") /\ once' = (IF Once THEN "done" ELSE once) /\ UNCHANGED <<cache, lo>>
           /\ UNCHANGED <<built, want, at, res>>
Return(t) == /\ pc[t] = "return" /\ res' = [res EXCEPT ![t] = Cut(cache, want[t])] /\ Go(t, "done")
             /\ UNCHANGED <<cache, built, once, want, at, lo>>
Done == (\A t \in Threads : pc[t] = "done") /\ UNCHANGED vars
Next == (\E t \in Threads : Enter(t) \/ Reset(t) \/ Add(t) \/ Swap(t) \/ Return(t)) \/ Done
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Enter(t) \/ Reset(t) \/ Add(t) \/ Swap(t) \/ Return(t))
Correct == \A t \in Threads : pc[t] = "done" => res[t] = Cut(Path, want[t])
Stable == [][once = "done" => cache' = cache]_vars
Finishes == <>(\A t \in Threads : pc[t] = "done")
=============================================================================
