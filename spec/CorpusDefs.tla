---------------------------- MODULE CorpusDefs ----------------------------
(* What a corpus is: words are numbers ("spellings"), Low maps a spelling  *)
(* to its lower-case spelling. Everything here is a pure definition used   *)
(* by the state machine Corpus, by the generators and by the trace         *)
(* specification CorpusTrace.                                              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* the words of a text as they enter the vocabulary
Norm(text, lower, Low) == IF lower THEN [i \in DOMAIN text |-> Low[text[i]]] ELSE text

------------------------------------------------------------------------
(* The vocabulary, operationally: one Add per word read.                 *)
EmptyDict == [words |-> <<>>, freq |-> <<>>, ids |-> <<>>]   \* ids: word -> id, <<>> = empty function
DictAdd(d, w) ==
    IF w \in DOMAIN d.ids
    THEN [d EXCEPT !.freq[d.ids[w] + 1] = @ + 1]
    ELSE [words |-> Append(d.words, w), freq |-> Append(d.freq, 1), ids |-> (w :> Len(d.words)) @@ d.ids]
DictOf(ws) == FoldLeft(DictAdd, EmptyDict, ws)

(* The same, declaratively.                                              *)
Occ(ws, w) == Cardinality({i \in DOMAIN ws : ws[i] = w})
FirstAt(ws, w) == CHOOSE i \in DOMAIN ws : ws[i] = w /\ \A j \in 1..(i - 1) : ws[j] # w
IsCensus(d, ws) ==
    /\ DOMAIN d.ids = Range(ws)
    /\ Range(d.words) = Range(ws)
    /\ Len(d.words) = Cardinality(Range(ws))
    /\ Len(d.freq) = Len(d.words)
    /\ \A w \in Range(ws) : d.words[d.ids[w] + 1] = w
    /\ \A i \in DOMAIN d.words : d.freq[i] = Occ(ws, d.words[i]) /\ d.ids[d.words[i]] = i - 1
    /\ \A i, j \in DOMAIN d.words : i < j => FirstAt(ws, d.words[i]) < FirstAt(ws, d.words[j])

------------------------------------------------------------------------
(* Frequency limits.                                                     *)
Filtered(d, id, maxc, minc) ==
    LET f == d.freq[id + 1] IN (0 < maxc /\ maxc < f) \/ (0 <= minc /\ f < minc)
Eligible(d, ids, maxc, minc) == SelectSeq(ids, LAMBDA id : ~Filtered(d, id, maxc, minc))
IdsOf(d, ws) == [i \in DOMAIN ws |-> d.ids[ws[i]]]

(* Consecutive batches of the given size; the last one may be shorter.   *)
Batches(ids, size) ==
    [k \in 1..((Len(ids) + size - 1) \div size) |-> SubSeq(ids, (k - 1) * size + 1, Min2(k * size, Len(ids)))]
DropLastEmpty(bs) == IF bs # <<>> /\ Last(bs) = <<>> THEN Front(bs) ELSE bs
IsPartition(bs, ids, size) == DropLastEmpty(bs) = Batches(ids, size)

------------------------------------------------------------------------
(* Co-occurrence: weights are scaled by lcm(1..window) to stay integral.  *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
LcmTo(n) == FoldLeft(Lcm, 1, [i \in 1..Max2(n, 1) |-> i])
Weight(ctype, dist, scale) == IF ctype = "inc" THEN 1 ELSE scale \div dist
Scale(ctype, window) == IF ctype = "inc" THEN 1 ELSE LcmTo(window)

Bag0 == <<>>                                    \* empty function: pair -> value
BagAdd(b, k, v) == IF k \in DOMAIN b THEN [b EXCEPT ![k] = @ + v] ELSE (k :> v) @@ b
Pair(a, b) == <<Min2(a, b), Max2(a, b)>>

(* Declaratively: the sum over all position pairs.                        *)
PosPairs(n, window) == {<<i, j>> \in (1..n) \X (1..n) : i < j /\ j - i <= window}
CoocDecl(ids, window, ctype) ==
    LET pp == PosPairs(Len(ids), window)
        ks == {Pair(ids[p[1]], ids[p[2]]) : p \in pp}
        sc == Scale(ctype, window)
    IN [k \in ks |-> FoldSet(LAMBDA p, s : s + Weight(ctype, p[2] - p[1], sc), 0,
                             {p \in pp : Pair(ids[p[1]], ids[p[2]]) = k})]
(* The same as a fold into a matrix (row <= column), for long texts.      *)
CoocMat(ids, v, window, ctype) ==
    LET sc == Scale(ctype, window)
        n == Len(ids)
        zero == [i \in 1..v |-> 0]
        add(m, i, j) == LET k == Pair(ids[i], ids[j]) IN [m EXCEPT ![k[1] + 1][k[2] + 1] = @ + Weight(ctype, j - i, sc)]
    IN FoldLeft(LAMBDA m, i : FoldLeft(LAMBDA mm, j : add(mm, i, j), m, [d \in 1..(Min2(n, i + window) - i) |-> i + d]),
                [i \in 1..v |-> zero], [i \in 1..n |-> i])
FarMat(ids, v, window) ==
    LET n == Len(ids)
        zero == [i \in 1..v |-> 0]
        add(m, i, j) == LET k == Pair(ids[i], ids[j]) IN [m EXCEPT ![k[1] + 1][k[2] + 1] = @ + 262144 \div (j - i)]
    IN FoldLeft(LAMBDA m, i : FoldLeft(LAMBDA mm, j : add(mm, i, j), m, [d \in 1..(Min2(n, i + window) - i) |-> i + d]),
                [i \in 1..v |-> zero], [i \in 1..n |-> i])
CoocAt(m, a, b) == LET k == Pair(a, b) IN m[k[1] + 1][k[2] + 1]
CoocSize(m) == FoldLeft(LAMBDA s, row : FoldLeft(LAMBDA t, x : IF x = 0 THEN t ELSE t + 1, s, row), 0, m)
NPairs(n, window) == FoldLeft(LAMBDA s, d : s + Max2(n - d, 0), 0, [d \in 1..window |-> d])
=============================================================================
