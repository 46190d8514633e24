----------------------------- MODULE SearchDefs -----------------------------
(* What a neighbour search has to return. lev is a sequence: the similarity *)
(* level of each item, 0 for items whose cosine similarity is not positive; *)
(* a higher level is a higher similarity, equal levels are ties. out is the *)
(* set of excluded item numbers.                                            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
Min2(a, b) == IF a < b THEN a ELSE b
Cand(lev, out) == {i \in DOMAIN lev : lev[i] > 0 /\ i \notin out}
\* res: sequence of item numbers
IsAnswer(lev, out, k, res) ==
    \E c \in {Cand(lev, out)}, got \in {{res[i] : i \in DOMAIN res}} :
    /\ Len(res) = (IF k <= 0 THEN 0 ELSE Min2(k, Cardinality(c)))
    /\ \A i \in DOMAIN res : res[i] \in c
    /\ Cardinality(got) = Len(res)
    /\ \A i \in 1..(Len(res) - 1) : lev[res[i]] >= lev[res[i + 1]]
    /\ res # <<>> => \A x \in c \ got : lev[x] <= lev[res[Len(res)]]

(* Exact comparison of cosine similarities of small integer vectors: the     *)
(* similarity to a fixed query is dot/|v|, compared by cross-multiplication. *)
Dot(a, b) == FoldLeft(LAMBDA s, i : s + a[i] * b[i], 0, [i \in DOMAIN a |-> i])
Pos(q, v) == Dot(q, v) > 0                 \* zero vectors have dot 0
Less(q, a, b) == \/ ~Pos(q, a) /\ Pos(q, b)
                 \/ Pos(q, a) /\ Pos(q, b) /\ Dot(q, a) * Dot(q, a) * Dot(b, b) < Dot(q, b) * Dot(q, b) * Dot(a, a)
\* similarity levels of a sequence of vectors
Levels(q, vs) == [i \in DOMAIN vs |-> IF ~Pos(q, vs[i]) THEN 0
                                      ELSE 1 + Cardinality({j \in DOMAIN vs : Pos(q, vs[j]) /\ Less(q, vs[j], vs[i])})]
=============================================================================
