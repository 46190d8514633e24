--------------------------- MODULE SubsampleTrace ---------------------------
(* Validation of recorded subsampling decisions: of the sampler itself, and  *)
(* of whole trainings with window 1 and one worker.                          *)
EXTENDS SubsampleDefs, TrainDefs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
TraceInit == l = 1 /\ TLCSet(1, 0)
Accept == l' = l + 1 /\ TLCSet(1, l)
\* K[w][c]: how often the word w was trained with the context c
Rows(K, doc, freq) ==
    \A w \in DOMAIN K :
        LET at == {p \in DOMAIN doc : doc[p] = w - 1}
            nb(p) == Cardinality({q \in {p - 1, p + 1} : q \in DOMAIN doc})
            n == E.iters * SumSeq([p \in DOMAIN doc |-> IF p \in at THEN nb(p) ELSE 0])
            n2 == E.iters * SumSeq([p \in DOMAIN doc |-> IF p \in at THEN nb(p) * nb(p) ELSE 0])
            z == ProbOf(E.thr, freq[w])
            k == SumSeq(K[w])
        IN /\ (z = 0 => k = 0) /\ CountOK(k, n, n2, 2, z)
           \* window 1: a pair is trained whenever one of its places is
           /\ \A c \in DOMAIN K : K[w][c] # 0 => \E p \in at : \E q \in {p - 1, p + 1} : q \in DOMAIN doc /\ doc[q] = c - 1
           /\ Distinct(doc) => \A p \in at : \A a, b \in {q \in {p - 1, p + 1} : q \in DOMAIN doc} : AbsF(K[w][doc[a] + 1] - K[w][doc[b] + 1]) <= K[w][doc[a] + 1] \div 60
\* the total, over all words: no decision for several occurrences at once
Total(k, doc, freq) ==
    LET nb(p) == Cardinality({q \in {p - 1, p + 1} : q \in DOMAIN doc})
        zs == [p \in DOMAIN doc |-> ProbOf(E.thr, freq[doc[p] + 1])]
        mean == (E.iters * SumSeq([p \in DOMAIN doc |-> nb(p) * zs[p]])) \div 4096
        var == (E.iters * SumSeq([p \in DOMAIN doc |-> nb(p) * nb(p) * ((zs[p] * (4096 - zs[p])) \div 4096)])) \div 4096 + 1
        d == Min2F(20000, AbsF(k - mean) - 12 - mean \div 150)
    IN d <= 0 \/ d * d <= 36 * var
\* distinct words, any window, several workers: the nearest contexts are trained with every training of a word
Wide(K, doc) ==
    \E m \in {[p \in DOMAIN doc |-> Max({K[doc[p] + 1][doc[q] + 1] : q \in {x \in {p - 1, p + 1} : x \in DOMAIN doc}})]} : \E z \in {ProbOf(E.thr, 1)} :
        /\ \A p \in DOMAIN doc : (z = 0 => m[p] = 0) /\ CountOK(m[p], E.iters, E.iters, 1, z)
        /\ (E.g = 1 => \A p \in 2..(Len(doc) - 1) : \A q \in {p - 1, p + 1} : AbsF(K[doc[p] + 1][doc[q] + 1] - m[p]) <= m[p] \div 60)
        /\ CountOK(SumSeq(m), E.iters * Len(doc), E.iters * Len(doc), 1, z)
\* LexVec: the change of a pair of words is n times its target f
PairCount(s, f) == IF f = 0 THEN (IF AbsF(s) <= 400 THEN 0 ELSE -1) ELSE IF s < 0 THEN -1 ELSE (2 * s + f) \div (2 * f)
Explained ==
          \E ws \in {Norm(E.text, E.lower, E.low)} : \E d \in {DictOf(ws)} : \E is \in {IdsOf(d, ws)} :
          \E doc \in {Eligible(d, is, E.max, E.min)} : \E V \in {Len(d.words)} :
             IF E.model = "word2vec"
             THEN /\ Len(E.k) = V
                  /\ IF E.window = 1 /\ E.g = 1 THEN Rows(E.k, doc, d.freq) /\ Total(SumMat(E.k), doc, d.freq) ELSE Wide(E.k, doc)
             ELSE \E co \in {CoocMat(is, V, 1, "inc")} :
                  \E n \in {[x \in 1..V |-> [y \in 1..V |-> PairCount(E.k[x][y], CoocAt(co, x - 1, y - 1))]]} :
                     /\ Len(E.k) = V /\ \A x, y \in 1..V : n[x][y] >= 0
                     /\ Total(SumSeq([x \in 1..V |-> SumSeq([y \in 1..V |-> IF x < y THEN n[x][y] ELSE 0])]), doc, d.freq)
                     /\ Distinct(doc) => \A p \in 1..(Len(doc) - 1) : LET z == ProbOf(E.thr, 1) IN
                            (z = 0 => n[doc[p] + 1][doc[p + 1] + 1] = 0) /\ CountOK(n[doc[p] + 1][doc[p + 1] + 1], 2 * E.iters, 2 * E.iters, 1, z)
Thinned == /\ l <= Len(Trace) /\ E.ev = "Sub" /\ E.odd = <<>>
           /\ (Explained = TRUE)
           /\ Accept
\* the sampler: per word its frequency, n trials, the successes, and the double successes of n/2 disjoint pairs of
\* consecutive trials (of the same word, of this word and the next)
Tried == \A i \in DOMAIN E.freq : LET z == ProbOf(E.thr, E.freq[i]) z2 == (z * z) \div 4096 n == E.n
                                         zn == ProbOf(E.thr, E.freq[(i % Len(E.freq)) + 1]) zx == (z * zn) \div 4096
                                     IN /\ (z = 0 => E.hits[i] = 0) /\ (E.thr = 0 => E.hits[i] = n)
                                        /\ CountOK(E.hits[i], n, n, 1, z)
                                        /\ CountOK(E.same[i], n \div 2, n \div 2, 1, z2)
                                        /\ CountOK(E.next[i], n \div 2, n \div 2, 1, zx)
Trials == /\ l <= Len(Trace) /\ E.ev = "Trials"
          /\ (Tried = TRUE)
          /\ Accept
TraceSpec == TraceInit /\ [][Thinned \/ Trials]_l
TraceDone == PrintT(<<"@ACCEPTED", TLCGet(1)>>)
=============================================================================
