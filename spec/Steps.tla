------------------------------- MODULE Steps -------------------------------
(* Training steps of one or more iterations over a small text, one position *)
(* at a time, in any order of the shares: the radius, and with negative     *)
(* sampling the drawn words, are arbitrary. The invariants say that the     *)
(* predicates used for trace validation (TrainDefs) accept everything the   *)
(* steps can do; with a defect switched on some of them must fail.          *)
EXTENDS TrainDefs, Json
CONSTANTS MaxLen, V, Window, NS, Iters, Kinds, Modes, Sizes, DocKind, Bug
VARIABLES doc, kind, mode, size, lens, sh, pos, it, K, KW, A, D, todo, steps
vars == <<doc, kind, mode, size, lens, sh, pos, it, K, KW, A, D, todo, steps>>
DocSet == IF DocKind = "distinct" THEN {[i \in 1..n |-> i - 1] : n \in 0..Min2(V, MaxLen)}
          ELSE UNION {[1..n -> 0..(V - 1)] : n \in 0..MaxLen}
Init == /\ doc \in DocSet /\ kind \in Kinds /\ mode \in Modes /\ size \in Sizes
        /\ lens \in LensSet(Len(doc), mode, size, size)
        /\ sh = ShareIds(lens) /\ it = 1
        /\ pos = [k \in DOMAIN lens |-> SumSeq(SubSeq(lens, 1, k - 1)) + 1]
        /\ K = Zero(V) /\ KW = Zero(V) /\ A = Zero(V) /\ D = Zero(V) /\ todo = <<>> /\ steps = 0
EndOf(k) == SumSeq(SubSeq(lens, 1, k))
\* contexts of position p at radius r, with the defects
Ctx(p, r) ==
    CASE Bug = "cross_share" -> SelectSeq([k \in 1..(2 * r + 1) |-> p - r - 1 + k], LAMBDA q : q \in DOMAIN doc /\ q # p)
      [] Bug = "own_position" -> NearSeq(sh, p, r) \o <<p>>
      [] Bug = "right_only" -> SelectSeq(NearSeq(sh, p, r), LAMBDA q : q > p)
      [] Bug = "wide" -> NearSeq(sh, p, r + 1)
      [] OTHER -> NearSeq(sh, p, r)
\* share k trains its next position with radius r
Step(k, r) ==
    /\ todo = <<>> /\ pos[k] <= EndOf(k)
    /\ \E cs \in {Ctx(pos[k], r)} : \E us \in {IF Bug = "other_window" /\ kind = "cbow" THEN Ctx(pos[k], 1) ELSE cs} :
          /\ K' = FoldLeft(LAMBDA m, q : Inc(m, doc[pos[k]], doc[q], 1), K, cs)      \* change of the context vector of the target
          /\ KW' = FoldLeft(LAMBDA m, q : Inc(m, doc[pos[k]], doc[q], 1), KW, us)    \* change of the own vectors of the contexts
          /\ A' = FoldLeft(LAMBDA m, q : Inc(m, doc[pos[k]], doc[q], 1), A, cs)
          /\ D' = FoldLeft(LAMBDA m, q : Inc(m, doc[pos[k]], doc[q], 1), D, cs)
          \* draws still to do: per context (skip-gram) or once for all (CBOW)
          /\ todo' = (IF NS = 0 THEN <<>> ELSE IF kind = "cbow" THEN (IF cs = <<>> THEN <<>> ELSE <<<<doc[pos[k]], [j \in DOMAIN cs |-> doc[cs[j]]], NS>>>>)
                      ELSE [j \in DOMAIN cs |-> <<doc[pos[k]], <<doc[cs[j]]>>, NS>>])
          /\ steps' = steps + Len(cs)
    /\ pos' = [pos EXCEPT ![k] = @ + (IF Bug = "skip_one" /\ @ + 1 = EndOf(k) THEN 2 ELSE 1)]
    /\ UNCHANGED <<doc, kind, mode, size, lens, sh, it>>
\* one draw; drawing the target itself does nothing
Draw(s) ==
    /\ todo # <<>>
    /\ LET h == Head(todo) IN
       /\ D' = (IF s = h[1] /\ Bug # "train_target" THEN D ELSE FoldLeft(LAMBDA m, c : Inc(m, s, c, -1), D, h[2]))
       /\ todo' = (IF h[3] = (IF Bug = "one_more" THEN 0 ELSE 1) THEN Tail(todo) ELSE <<<<h[1], h[2], h[3] - 1>>>> \o Tail(todo))
    /\ UNCHANGED <<doc, kind, mode, size, lens, sh, pos, it, K, KW, A, steps>>
PassDone == todo = <<>> /\ \A k \in DOMAIN lens : pos[k] > EndOf(k)
NextIter == /\ PassDone /\ it < Iters /\ it' = it + 1
            /\ pos' = [k \in DOMAIN lens |-> SumSeq(SubSeq(lens, 1, k - 1)) + 1]
            /\ UNCHANGED <<doc, kind, mode, size, lens, sh, K, KW, A, D, todo, steps>>
Done == PassDone /\ it = Iters /\ UNCHANGED vars
Next == (\E k \in DOMAIN lens, r \in 1..Window : Step(k, r)) \/ (\E s \in 0..(V - 1) : Draw(s)) \/ NextIter \/ Done
Spec == Init /\ [][Next]_vars
\* P07, P10: complete iterations are accepted by the trace predicates
Accepted == PassDone => ItersOK(K, doc, mode, size, size, Window, it, V) /\ KW = K
\* ... and only those that have trained the known number of steps at radius 1
Exact == (PassDone /\ Window = 1) => steps = it * SumSeq([p \in DOMAIN doc |-> Cardinality(Near(sh, p, 1))])
\* P11
Negatives == PassDone => NegOK(D, A, NS) /\ SumMat(A) - SumMat(D) <= NS * SumMat(A)
\* G: at radius 1 without draws the outcome is determined: all small texts, batch sizes and worker counts
Gen == (PassDone /\ it = Iters) => PrintT("@J" \o ToJson([doc |-> doc, kind |-> kind, mode |-> mode, size |-> size, iters |-> Iters, k |-> K]))
GenDraws == (PassDone /\ it = Iters) => PrintT("@J" \o ToJson([doc |-> doc, kind |-> kind, v |-> V, ns |-> NS, d |-> D]))
=============================================================================
