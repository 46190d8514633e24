----------------------------- MODULE TrainTrace -----------------------------
(* Trace validation of real trainings. A trace starts with a Train event    *)
(* (the configuration and the text) followed by what was observed: the      *)
(* changes of the vectors since the start of training as matrices of        *)
(* counts, learning rates, results.                                         *)
EXTENDS TrainDefs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, conf, dict, ids, doc, m, cooc, hs
tvars == <<l, conf, dict, ids, doc, m, cooc, hs>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
Keep == UNCHANGED <<conf, dict, ids, doc, cooc, hs>>
TraceInit == l = 1 /\ conf = [none |-> TRUE] /\ dict = EmptyDict /\ ids = <<>> /\ doc = <<>> /\ m = 0 /\ cooc = <<>> /\ hs = <<>>
V == Len(dict.words)

\* a new training of a text (spellings, low: lower-case spelling of each)
TTrain == /\ Is("Train") /\ conf' = E /\ m' = 0 /\ hs' = <<>>
          /\ \E ws \in {Norm(E.text, E.lower, E.low)} : \E d \in {DictOf(ws)} : \E is \in {IdsOf(d, ws)} :
                /\ dict' = d /\ ids' = is /\ doc' = Eligible(d, is, E.max, E.min)
                /\ cooc' = (IF E.cooc THEN CoocMat(is, Len(d.words), E.window, E.ctype) ELSE <<>>)

Known == E.odd = <<>> /\ E.rows = V
\* word2vec without draws: kc from the context vectors, kw from the own vectors. Between two observations
\* at the start of a pass at most one more iteration has been completed.
TSteps == /\ Is("Steps") /\ Known
          /\ E.kc = E.kw
          /\ \E mm \in (IF E.final THEN {conf.iters} ELSE {m, m + 1}) :
                /\ mm <= conf.iters
                /\ ItersOK(E.kc, doc, conf.mode, conf.batch, conf.g, conf.window, mm, V) = TRUE
                /\ m' = mm
          /\ Keep
\* the same for long texts of distinct words at radius 1: the trained pairs <<target, context, times>>
TSparse == /\ Is("Sparse") /\ E.odd = <<>> /\ E.rows = V /\ E.kc = E.kw
           /\ \E mm \in (IF E.final THEN {conf.iters} ELSE {m, m + 1}) : \E n \in {Len(doc)} : \E S \in {Range(E.kc)} :
              \E lens \in {IF conf.mode = "stream" THEN StreamLens(n, conf.batch)
                           ELSE LET ends == SelectSeq([p \in 1..n |-> p], LAMBDA p : p = n \/ <<doc[p], doc[p + 1], mm>> \notin S)
                                IN [k \in DOMAIN ends |-> ends[k] - (IF k = 1 THEN 0 ELSE ends[k - 1])]} :
                 /\ mm <= conf.iters
                 /\ (mm > 0 /\ conf.mode = "mem") => CutOK(lens, n, conf.g)
                 /\ \E sh \in {ShareIds(lens)} :
                    S = IF mm = 0 THEN {} ELSE {<<doc[p], doc[p + 1], mm>> : p \in {x \in 1..(n - 1) : sh[x] = sh[x + 1]}}
                                               \cup {<<doc[p + 1], doc[p], mm>> : p \in {x \in 1..(n - 1) : sh[x] = sh[x + 1]}}
                 /\ Len(E.kc) = Cardinality(S)
                 /\ m' = mm
           /\ Keep
\* word2vec with draws (radius 1, one share or the stream's batches)
TDraws == /\ Is("Draws") /\ Known /\ E.kc = E.kw
          /\ \E lens \in {IF conf.mode = "stream" THEN StreamLens(Len(doc), conf.batch) ELSE <<Len(doc)>>} :
             \E sh \in {ShareIds(lens)} : \E A \in {KConst(doc, sh, 1, V, conf.iters)} :
                (NegOK(E.kc, A, conf.ns) /\ NegTotal(E.kc, A, conf.ns, V)) = TRUE
          /\ m' = conf.iters /\ Keep
\* vocabularies of thousands of words, most of them not eligible (window 1, one share): which own vectors have changed,
\* which context vectors have not. With enough draws every word is drawn sooner or later.
TReach == /\ Is("Reach") /\ E.rows = V
          /\ \E draws \in {conf.ns * (IF conf.kind = "cbow" THEN Len(doc) ELSE 2 * (Len(doc) - 1))} :
                /\ E.w = SetToSortSeq(Range(doc), LAMBDA a, b : a < b)
                /\ (draws > 40 * V /\ V % 2 = 1) => E.c = <<>>
                /\ conf.ns = 0 => Range(E.c) = (0..(V - 1)) \ (IF conf.model = "lexvec" THEN {} ELSE Range(doc))
          /\ m' = conf.iters /\ Keep
\* the same for vocabularies too large to be counted here: E.elig eligible occurrences of the words 0..E.e-1, which come first
TFarReach == /\ Is("FarReach") /\ E.rows = E.v
             /\ \E draws \in {E.ns * (IF E.kind = "cbow" THEN E.elig ELSE 2 * (E.elig - 1))} :
                   /\ E.w = [k \in 1..E.e |-> k - 1]
                   /\ (draws > 36 * E.v /\ E.v % 2 = 1) => E.c = <<>>
             /\ UNCHANGED m /\ Keep
\* GloVe: v[x][y] = all co-occurrence values (scaled) that the change per iteration is compatible with, from the
\* own vector of x on the context vector of y; c[x][y]: from the context vector of x on the own vector of y
TFit == /\ Is("Fit") /\ Known
        /\ \A x, y \in 1..V : LET f == CoocAt(cooc, x - 1, y - 1) IN f \in Range(E.v[x][y]) /\ f \in Range(E.c[x][y])
        /\ m' = conf.iters /\ Keep
\* the same with workers that may overwrite each other's updates: nothing but updates of co-occurring words shows
TLossy == /\ Is("Lossy") /\ Known
          /\ \A i \in DOMAIN E.parts : E.parts[i][3] <= conf.iters /\ CoocAt(cooc, Abs(E.parts[i][1]) - 1, E.parts[i][2] - 1) > 0
          /\ m' = conf.iters /\ Keep
\* LexVec: s[x][y] change of the own vector of x on the own vector of y, b[x][y] (bt) of the own vector of x on the
\* context vector of y (and the other way round), in ten-thousandths
TgtMat(later) == [x \in 1..V |-> [y \in 1..V |-> PairTarget(conf.rel, CoocAt(cooc, x - 1, y - 1), x, y, dict.freq, Len(ids), conf.smooth4, later)]]
TLex == /\ Is("Lex") /\ Known
        /\ (\E T \in {TgtMat(o) : o \in BOOLEAN} : \E lens \in LensSet(Len(doc), conf.mode, conf.batch, conf.g) :
               LexOK(E.s, E.b, E.bt, T, dict.freq, doc, lens, conf.window, conf.iters, conf.ns, V)) = TRUE
        /\ m' = conf.iters /\ Keep
\* learning rates (millionths of the initial rate) used at the positions of iteration E.it, in document order; the
\* observer may lag by one word when there is one worker
Nearly(a, b) == a - b <= 8000 /\ b - a <= 4000
RECURSIVE Carried(_)
Carried(it) == IF it = 1 THEN 1000000 ELSE RateAfter(Len(doc), conf.u, Len(ids), conf.minppm, Carried(it - 1))
RateSet(p, carried) ==
    LET s(c) == RateAfter(c, conf.u, Len(ids), conf.minppm, carried) IN
    IF conf.g = 1 THEN {s(p - 1), s(Max2(0, p - 2))} ELSE {s(c) : c \in 0..Len(doc)}
TRates == /\ Is("Rates") /\ Len(E.r) = Len(doc)
          /\ (\E carried \in {Carried(E.it)} : \A p \in DOMAIN doc : \A x \in Range(E.r[p]) : \E y \in RateSet(p, carried) : Nearly(x, y)) = TRUE
          /\ UNCHANGED m /\ Keep
\* LexVec shows the sum of the rates of two neighbouring positions
TRateSums == /\ Is("RateSums") /\ Len(E.r) = Max2(0, Len(doc) - 1)
             /\ (\E carried \in {Carried(E.it)} : \A p \in DOMAIN E.r :
                   \E f \in {CoocAt(cooc, doc[p], doc[p + 1])} :        \* 0: excluded words in between
                   \E x \in RateSet(p, carried) : \E y \in RateSet(p + 1, carried) : Abs(E.r[p] - f * (x + y)) <= 8000) = TRUE
             /\ UNCHANGED m /\ Keep
\* both for texts too long to be counted here (E.len words): words in a row which occur once, the first of them at the
\* eligible position E.p; one share, one iteration
FarSet(p) == {RateAfter(p - 1, E.u, E.len, E.minppm, 1000000), RateAfter(Max2(0, p - 2), E.u, E.len, E.minppm, 1000000)}
TFarRates == /\ Is("FarRates")
             /\ (\A i \in DOMAIN E.r : \A x \in Range(E.r[i]) :
                   IF E.model = "lexvec" THEN \E a \in FarSet(E.p + i - 1) : \E b \in FarSet(E.p + i) : Abs(x - (a + b)) <= 8000
                   ELSE \E a \in FarSet(E.p + i - 1) : Nearly(x, a)) = TRUE
             /\ UNCHANGED m /\ Keep
\* GloVe, a text of E.v different words, window 1: word E.x is pulled towards its neighbours, both ways (all initial numbers
\* are positive, the logarithm of each co-occurrence value is 0), and not towards others
TFarFit == /\ Is("FarFit") /\ E.rows = E.v
           /\ \A i \in DOMAIN E.m : LET y == E.m[i][1] IN
                 IF y \in {E.x - 1, E.x + 1} THEN E.m[i][2] < -200 /\ E.m[i][3] < -200 ELSE Abs(E.m[i][2]) < 50 /\ Abs(E.m[i][3]) < 50
           /\ UNCHANGED m /\ Keep
\* hierarchical softmax: the paths of the words, then the observed change, in hundredths
TPaths == Is("Paths") /\ hs' = E /\ UNCHANGED <<conf, dict, ids, doc, cooc, m>>
TTree == /\ Is("Tree") /\ Known
         /\ \E sh \in {ShareIds(IF conf.mode = "stream" THEN StreamLens(Len(doc), conf.batch) ELSE <<Len(doc)>>)} :
            \E st \in {HAll(conf.kind, doc, sh, hs.paths, conf.depth, V, hs.nodes, conf.iters)} :
               \A x, y \in 1..V : LET d == E.h[x][y] - 100 * st.h[x][y] tol == 2 * st.habs[x][y] + 4 IN d <= tol /\ -d <= tol
         /\ m' = conf.iters /\ Keep
\* P08, P09: fired: a read or rewind has failed (or a word was too long)
TReturn == /\ Is("Return")
           /\ (E.err # "") = E.fired
           /\ ~E.leak
           /\ E.err = "" => E.still /\ E.rows = V /\ (V > 0 => E.cols = conf.dim)
           /\ UNCHANGED m /\ Keep
\* an earlier training of the same model, whatever its outcome
TEarlier == Is("Earlier") /\ UNCHANGED m /\ Keep
TraceSpec == TraceInit /\ [][TTrain \/ TSteps \/ TSparse \/ TDraws \/ TReach \/ TFarReach \/ TFit \/ TLossy \/ TLex \/ TRates \/ TRateSums \/ TFarRates \/ TFarFit \/ TPaths \/ TTree \/ TReturn \/ TEarlier]_tvars
TraceDone == PrintT(<<"@ACCEPTED", TLCGet("stats").diameter - 1>>)
=============================================================================
