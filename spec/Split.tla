------------------------------- MODULE Split -------------------------------
(* Splitting n items over t workers into consecutive shares, one boundary   *)
(* at a time (the way the code does), and what any split has to satisfy.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN, MaxT, Bug
VARIABLES n, t, idx
vars == <<n, t, idx>>
\* bounds: t+1 boundaries; share k is bounds[k] .. bounds[k+1]-1
IsSplit(nn, tt, b) ==
    /\ Len(b) = tt + 1
    /\ b[1] = 0 /\ b[tt + 1] = nn
    /\ \A k \in 1..tt : b[k] <= b[k + 1]
    /\ \A k \in 1..tt : (b[k + 1] - b[k]) \in {nn \div tt, (nn + tt - 1) \div tt}

Init == n \in 0..MaxN /\ t \in 1..MaxT /\ idx = <<0>>
Boundary == /\ Len(idx) <= t
            /\ LET i == Len(idx) IN
               idx' = Append(idx, IF i = t /\ Bug # "no_end" THEN n
                                  ELSE idx[i] + (n + (IF Bug = "no_round" THEN 0 ELSE i)) \div t)
            /\ UNCHANGED <<n, t>>
Done == Len(idx) = t + 1 /\ UNCHANGED vars
Spec == Init /\ [][Boundary \/ Done]_vars /\ WF_vars(Boundary)
\* every finished split is a split; every unfinished one leaves a non-negative rest
Correct == Len(idx) = t + 1 => IsSplit(n, t, idx)
Partial == \A k \in 1..(Len(idx) - 1) : idx[k] <= idx[k + 1] /\ idx[k + 1] <= n
Fewer == (Len(idx) = t + 1 /\ n < t) => \A k \in 1..t : idx[k + 1] - idx[k] \in {0, 1}
Finishes == <>(Len(idx) = t + 1)
Gen == Len(idx) = 1 => PrintT("@J" \o ToJson([n |-> n, t |-> t]))
=============================================================================
