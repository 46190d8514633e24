-------------------------------- MODULE Lex --------------------------------
(* LexVec over a small text: each step trains the pair of a word and one of *)
(* its context words towards the pair's relation, then draws words and      *)
(* trains the word's vector and the drawn word's context vector towards     *)
(* their relation. The invariant: the predicate used for trace validation   *)
(* accepts exactly such behaviours (with a defect switched on it refuses).  *)
EXTENDS TrainDefs, Json
CONSTANTS MaxLen, V, Window, NS, Sizes, Rel, Smooth4, Bug
VARIABLES doc, size, lens, sh, pos, S, B, Bt, todo, T
vars == <<doc, size, lens, sh, pos, S, B, Bt, todo, T>>
DocsOf == UNION {[1..n -> 0..(V - 1)] : n \in 1..MaxLen}
FreqOf(d) == [i \in 1..V |-> Cardinality({p \in DOMAIN d : d[p] = i - 1})]
TargetsOf(d, q) == LET fr == [x \in 1..V |-> Max2(1, FreqOf(d)[x])] IN
    [x \in 1..V |-> [y \in 1..V |-> PairTarget(Rel, CoocAt(CoocMat(d, V, Window, "inc"), x - 1, y - 1), x, y, fr, Len(d), q, TRUE)]]
Init == /\ doc \in DocsOf /\ size \in Sizes
        /\ lens = StreamLens(Len(doc), size) /\ sh = ShareIds(lens)
        /\ pos = [k \in DOMAIN lens |-> SumSeq(SubSeq(lens, 1, k - 1)) + 1]
        /\ S = Zero(V) /\ B = Zero(V) /\ Bt = Zero(V) /\ todo = <<>> /\ T = TargetsOf(doc, IF Bug = "unsmoothed" THEN 4 ELSE Smooth4)
EndOf(k) == SumSeq(SubSeq(lens, 1, k))
\* with the defect "own_target" the pair is trained towards the relation of the word with itself
Tg(a, b) == IF Bug = "own_target" THEN T[a + 1][a + 1] ELSE T[a + 1][b + 1]
Both(m, a, b, x) == IF Bug = "one_side" THEN Inc(m, a, b, x) ELSE Inc(Inc(m, a, b, x), b, a, x)
Step(k, r) ==
    /\ todo = <<>> /\ pos[k] <= EndOf(k)
    /\ \E cs \in {NearSeq(sh, pos[k], r)} :
          /\ S' = FoldLeft(LAMBDA m, q : Both(m, doc[pos[k]], doc[q], Tg(doc[pos[k]], doc[q])), S, cs)
          /\ todo' = FoldLeft(LAMBDA t, q : t \o [i \in 1..(NS + (IF Bug = "one_more" THEN 1 ELSE 0)) |-> <<doc[pos[k]], doc[q]>>], <<>>, cs)
    /\ pos' = [pos EXCEPT ![k] = @ + 1]
    /\ UNCHANGED <<doc, size, lens, sh, B, Bt, T>>
Draw(s) ==
    /\ todo # <<>>
    /\ LET a == Head(todo)[1] t == (IF Bug = "draw_pair_target" THEN T[a + 1][Head(todo)[2] + 1] ELSE T[a + 1][s + 1]) IN
          B' = Inc(B, a, s, t) /\ Bt' = (IF Bug = "own_only" THEN Bt ELSE Inc(Bt, a, s, t))
    /\ todo' = Tail(todo) /\ UNCHANGED <<doc, size, lens, sh, pos, S, T>>
AllDone == todo = <<>> /\ \A k \in DOMAIN lens : pos[k] > EndOf(k)
Next == (\E k \in DOMAIN lens, r \in 1..Window : Step(k, r)) \/ (\E s \in 0..(V - 1) : Draw(s)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Accepted == AllDone => \E t \in {TargetsOf(doc, Smooth4)} : LexOK(S, B, Bt, t, FreqOf(doc), doc, lens, Window, 1, NS, V)
\* G: without draws, radius 1: the vector changes every text has to lead to
Gen == AllDone => PrintT("@J" \o ToJson([doc |-> doc, size |-> size, s |-> S, b |-> B]))
=============================================================================
