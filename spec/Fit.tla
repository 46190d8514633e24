-------------------------------- MODULE Fit --------------------------------
(* GloVe: the co-occurring pairs of a small text are the items; in every    *)
(* iteration each worker takes its share and trains every item in both      *)
(* directions. What has been trained is counted per (own vector of x,       *)
(* context vector of y) with the value it was trained towards.              *)
EXTENDS TrainDefs, Json
CONSTANTS MaxLen, V, Windows, Workers, Iters, CTypes, Bug
VARIABLES doc, window, ctype, g, items, lens, todo, it, N, F
vars == <<doc, window, ctype, g, items, lens, todo, it, N, F>>
DocsOf == UNION {[1..n -> 0..(V - 1)] : n \in 0..MaxLen}
PairsOf(b) == {<<k[1], k[2], b[k]>> : k \in DOMAIN b}
Begin(ls) == [k \in DOMAIN ls |-> SumSeq(SubSeq(ls, 1, k - 1)) + 1]
Init == /\ doc \in DocsOf /\ window \in Windows /\ ctype \in CTypes /\ g \in Workers
        /\ \E b \in {CoocDecl(doc, window, ctype)} : items \in SetToSeqs(PairsOf(b))       \* in any order
        /\ lens \in BalancedLens(Len(items), g) /\ todo = Begin(lens)
        /\ it = 1 /\ N = Zero(V) /\ F = Zero(V)
\* one direction: own vector of x with the context vector of y, towards f
One(n, f, x, y, val) == [n |-> Inc(n, x, y, 1), f |-> Inc(f, x, y, val)]
Item(k) ==
    /\ todo[k] <= SumSeq(SubSeq(lens, 1, k)) - (IF Bug = "drop_last" /\ lens[k] > 1 THEN 1 ELSE 0)
    /\ LET i == items[todo[k]]
           a == One(N, F, i[1], i[2], i[3])
           b == CASE Bug = "one_direction" -> a
                  [] Bug = "same_direction" -> One(a.n, a.f, i[1], i[2], i[3])
                  [] Bug = "diag_once" /\ i[1] = i[2] -> a
                  [] OTHER -> One(a.n, a.f, i[2], i[1], i[3]) IN
       N' = b.n /\ F' = b.f
    /\ todo' = [todo EXCEPT ![k] = @ + 1] /\ UNCHANGED <<doc, window, ctype, g, items, lens, it>>
IterDone == \A k \in DOMAIN lens : todo[k] > SumSeq(SubSeq(lens, 1, k)) - (IF Bug = "drop_last" /\ lens[k] > 1 THEN 1 ELSE 0)
NextIter == IterDone /\ it < Iters /\ it' = it + 1 /\ todo' = Begin(lens) /\ UNCHANGED <<doc, window, ctype, g, items, lens, N, F>>
Next == (\E k \in DOMAIN lens : Item(k)) \/ NextIter \/ (IterDone /\ it = Iters /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* P15: exactly the co-occurring pairs, in both directions, towards their value, once per iteration (a word's pair with itself: both directions coincide)
Fits == IterDone => \E m \in {CoocMat(doc, V, window, ctype)} : \A x, y \in 1..V :
            \E f \in {CoocAt(m, x - 1, y - 1)}, d \in {IF x = y THEN 2 ELSE 1} :
                N[x][y] = (IF f = 0 THEN 0 ELSE d * it) /\ F[x][y] = d * it * f
Gen == (IterDone /\ it = Iters /\ g = 1) => PrintT("@J" \o ToJson([doc |-> doc, window |-> window, ctype |-> ctype, n |-> N, f |-> F]))
=============================================================================
