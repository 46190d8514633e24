----------------------------- MODULE Subsample -----------------------------
(* A pass over a text with subsampling. Probabilities are counted: a draw   *)
(* is one of D equally likely outcomes, a word w is kept for Keep[w] of     *)
(* them; the state remembers in how many ways it is reached.                *)
EXTENDS SubsampleDefs
CONSTANTS MaxLen, V, Thresholds,      \* thresholds in 1/1024
          D, Bug
VARIABLES doc, thr, pos, trained, ctx, ways
vars == <<doc, thr, pos, trained, ctx, ways>>
Docs == UNION {[1..n -> 1..V] : n \in 1..MaxLen}
Freq(d, w) == Cardinality({p \in DOMAIN d : d[p] = w})
\* outcomes for which a word is kept, out of D
Keep(d, t, w) == LET z == IF Bug = "inverted" THEN 4096 - ProbOf(t, Freq(d, w)) ELSE ProbOf(t, Freq(d, w)) IN (z * D + 2048) \div 4096
Init == doc \in Docs /\ thr \in Thresholds /\ pos = 0 /\ trained = {} /\ ctx = {} /\ ways = 1
Here == pos + 1
Same(a, b) == doc[a] = doc[b]
Neighbours(p) == {q \in {p - 1, p + 1} : q \in DOMAIN doc}
\* one occurrence: kept in k of D ways
Visit == /\ pos < Len(doc) /\ pos' = Here /\ UNCHANGED <<doc, thr>>
         /\ LET k == Keep(doc, thr, doc[Here])
                before == {q \in 1..pos : Same(q, Here)}
                cached == Bug = "cached" /\ before # {}
            IN \/ /\ IF cached THEN before \cap trained # {} /\ ways' = ways ELSE k > 0 /\ ways' = ways * k
                  /\ trained' = trained \cup {Here}
                  /\ ctx' = ctx \cup {<<Here, q>> : q \in IF Bug = "dropped" THEN {x \in Neighbours(Here) : x < Here => x \in trained} ELSE Neighbours(Here)}
               \/ /\ IF cached THEN before \cap trained = {} /\ ways' = ways ELSE k < D /\ ways' = ways * (D - k)
                  /\ UNCHANGED <<trained, ctx>>
Spec == Init /\ [][Visit]_vars
------------------------------------------------------------------------
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
RECURSIVE Product(_, _)
Product(p, T) == IF p = 0 THEN 1 ELSE LET k == Keep(doc, thr, doc[p]) IN Product(p - 1, T) * (IF p \in T THEN k ELSE D - k)
\* every set of trained occurrences has the probability of independent decisions
Independent == ways = Product(pos, trained)
\* the rule's extremes
Extremes == /\ thr = 0 => trained = 1..pos
            /\ \A p \in trained : 1024 * Freq(doc, doc[p]) > thr
\* what is not trained stays a context
Contexts == \A p \in trained : \A q \in Neighbours(p) : <<p, q>> \in ctx
\* words occurring more often are trained more often; a higher threshold trains less
Monotone == \A a, b \in DOMAIN doc :
    /\ Freq(doc, doc[a]) <= Freq(doc, doc[b]) => ProbOf(thr, Freq(doc, doc[a])) <= ProbOf(thr, Freq(doc, doc[b]))
    /\ \A t \in Thresholds : t <= thr => ProbOf(t, Freq(doc, doc[a])) >= ProbOf(thr, Freq(doc, doc[a]))
\* the square root: z = 1 - sqrt(t/f)
Rule == \A a \in DOMAIN doc : LET f == Freq(doc, doc[a]) y == 4096 - ProbOf(thr, f) IN
    thr < 1024 * f => AbsF((y * y) \div 16384 - thr \div f) <= 2
\* the acceptance bound accepts every outcome of few decisions and refutes outcomes far out
Bound == /\ \A z \in {0, 41, 410, 2048, 3686, 4055, 4096} : CountOK((1000 * z) \div 4096, 1000, 1000, 1, z)
         /\ ~CountOK(500, 1000, 1000, 1, 4096) /\ ~CountOK(500, 1000, 1000, 1, 0) /\ ~CountOK(700, 1000, 1000, 1, 2048) /\ ~CountOK(300, 1000, 1000, 1, 2048)
=============================================================================
