---------------------------- MODULE CorpusTrace ----------------------------
(* Trace validation: is what the real corpus was observed to do a history   *)
(* of the specification? One event per public call, in call order.          *)
EXTENDS CorpusDefs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, conf, dict, ids, last   \* conf: last New event; dict, ids: abstract corpus
tvars == <<l, conf, dict, ids, last>>
None == [none |-> TRUE]
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
AsSet(s) == {s[i] : i \in DOMAIN s}

TraceInit == l = 1 /\ conf = None /\ dict = EmptyDict /\ ids = <<>> /\ last = <<>>

\* a new corpus over a text (a sequence of spellings)
TNew == Is("New") /\ conf' = E /\ dict' = EmptyDict /\ ids' = <<>> /\ last' = <<>>

\* Load: reading a readable text never fails; the vocabulary is the census
TLoad == /\ Is("Load") /\ E.err = ""
         /\ \E ws \in {Norm(conf.text, conf.lower, conf.low)} : \E d \in {DictOf(ws)} :
               /\ dict' = d /\ ids' = IdsOf(d, ws)
               /\ E.words = d.words /\ E.freq = d.freq /\ E.n = Len(ws) /\ E.dlen = Len(d.words)
         /\ UNCHANGED <<conf, last>>
\* a large vocabulary (no lower-casing): the same census, checked along the ids E.ids the dictionary gives the words of the text
TBig == /\ Is("Big") /\ E.err = "" /\ ~conf.lower
        /\ E.n = Len(conf.text) /\ Len(E.ids) = E.n /\ E.dlen = Len(E.words) /\ Len(E.freq) = E.dlen
        /\ Cardinality(AsSet(E.words)) = E.dlen
        /\ \A i \in DOMAIN E.ids : E.ids[i] \in 0..(E.dlen - 1) /\ E.words[E.ids[i] + 1] = conf.text[i]
        \* ids in the order of first appearance: each is known already or the next one
        /\ FoldLeft(LAMBDA k, i : IF i < k THEN k ELSE IF i = k THEN k + 1 ELSE 2147483647, 0, E.ids) = E.dlen
        \* frequencies: the lengths of the runs of the ids sorted by the permutation E.order of the positions
        /\ Len(E.order) = E.n /\ AsSet(E.order) = DOMAIN E.ids
        /\ \A i \in 1..(E.n - 1) : E.ids[E.order[i]] <= E.ids[E.order[i + 1]]
        /\ \E s \in {[i \in DOMAIN E.order |-> E.ids[E.order[i]]]} :
           \E r \in {FoldLeft(LAMBDA a, i : IF i = a[1] THEN <<i, a[2] + 1, a[3]>> ELSE <<i, 1, a[3] /\ (a[1] = -1 \/ E.freq[a[1] + 1] = a[2])>>,
                             <<-1, 0, TRUE>>, s)} :
              (r[3] /\ (E.dlen > 0 => E.freq[E.dlen] = r[2])) = TRUE
        /\ UNCHANGED <<conf, dict, ids, last>>
\* lookups by word: <<spelling, found, id, freq>>, by id: <<id, found, spelling, freq>>
TWord == /\ Is("Lookup")
         /\ \A q \in AsSet(E.byword) :
               IF q[1] \in DOMAIN dict.ids
               THEN q[2] = TRUE /\ q[3] = dict.ids[q[1]] /\ q[4] = dict.freq[dict.ids[q[1]] + 1]
               ELSE q[2] = FALSE /\ q[4] = 0
         /\ \A q \in AsSet(E.byid) :
               IF q[1] >= 0 /\ q[1] < Len(dict.words)
               THEN q[2] = TRUE /\ q[3] = dict.words[q[1] + 1] /\ q[4] = dict.freq[q[1] + 1]
               ELSE q[2] = FALSE /\ q[4] = 0
         /\ UNCHANGED <<conf, dict, ids, last>>
\* the in-memory training sequence
TDoc == /\ Is("Doc") /\ E.ids = Eligible(dict, ids, conf.max, conf.min)
        /\ UNCHANGED <<conf, dict, ids, last>>
\* one streaming pass: batches as received, result, whether the channel was closed
TPass == /\ Is("Pass") /\ E.err = "" /\ E.closed
         /\ IsPartition(E.batches, Eligible(dict, ids, conf.max, conf.min), E.size)
         /\ last' = Append(last, E.batches)
         /\ UNCHANGED <<conf, dict, ids>>
\* the same batch objects looked at again, after everything else has happened
TRecheck == /\ Is("Recheck") /\ E.passes = last
            /\ UNCHANGED <<conf, dict, ids, last>>
\* co-occurrences: entries <<id, id, scaled weight>>, lookups for ordered id pairs
TCooc == /\ Is("Cooc")
         /\ \E v \in {Len(dict.words)}, m \in {CoocMat(ids, Len(dict.words), conf.window, conf.ctype)} :
               /\ E.size = CoocSize(m)
               /\ Len(E.entries) = E.size
               /\ Cardinality({Pair(q[1], q[2]) : q \in AsSet(E.entries)}) = E.size
               /\ \A i \in DOMAIN E.entries : LET q == E.entries[i] IN
                     q[1] \in 0..(v - 1) /\ q[2] \in 0..(v - 1) /\ q[3] > 0 /\ q[3] = CoocAt(m, q[1], q[2])
               /\ \A i \in DOMAIN E.lookups : LET q == E.lookups[i] IN q[3] = CoocAt(m, q[1], q[2])
         /\ UNCHANGED <<conf, dict, ids, last>>
\* the same for windows whose distances have no small common multiple: weights in units of 2^-18, to within one unit per
\* contribution
TFar == /\ Is("Far")
        /\ \E v \in {Len(dict.words)} : \E cnt \in {CoocMat(ids, v, conf.window, "inc")} : \E m \in {FarMat(ids, v, conf.window)} :
               /\ E.size = CoocSize(cnt)
               /\ Len(E.entries) = E.size
               /\ Cardinality({Pair(q[1], q[2]) : q \in AsSet(E.entries)}) = E.size
               /\ \A i \in DOMAIN E.entries : LET q == E.entries[i] d == q[3] - CoocAt(m, q[1], q[2]) IN
                     q[1] \in 0..(v - 1) /\ q[2] \in 0..(v - 1) /\ d >= -1 /\ d <= CoocAt(cnt, q[1], q[2]) + 1
        /\ UNCHANGED <<conf, dict, ids, last>>
\* a long text of one word, any window: so many pairs that they are counted by a formula
TMono == /\ Is("Mono") /\ Len(dict.words) = 1 /\ conf.ctype = "inc"
         /\ E.size = 1 /\ Len(E.entries) = 1
         /\ E.entries[1] = <<0, 0, NPairs(Len(ids), Min2(conf.window, Len(ids)))>>
         /\ UNCHANGED <<conf, dict, ids, last>>
\* pair codes: <<l1, l2, code(l1,l2), code(l2,l1), decoded min, decoded max>>, all as strings
TCodec == /\ Is("Codec")
          /\ \A q \in AsSet(E.pairs) : q[3] = q[4] /\ {q[1], q[2]} = {q[5], q[6]}
          /\ Cardinality({q[3] : q \in AsSet(E.pairs)}) = Cardinality({{q[1], q[2]} : q \in AsSet(E.pairs)})
          /\ UNCHANGED <<conf, dict, ids, last>>
\* the streaming window primitive on its own: pairs in any order
TWindow == /\ Is("Window") /\ E.err = ""
           /\ \E v \in {Len(conf.low)} :
              \E zero \in {[i \in 1..(v + 1) |-> 0]} :
              \E obs \in {FoldLeft(LAMBDA m, q : [m EXCEPT ![q[1] + 1][q[2] + 1] = @ + 1], [i \in 1..(v + 1) |-> zero],
                                  [i \in DOMAIN E.pairs |-> Pair(E.pairs[i][1], E.pairs[i][2])])} :
              obs = CoocMat(conf.text, v + 1, E.window, "inc")
           /\ UNCHANGED <<conf, dict, ids, last>>

TraceNext == TNew \/ TLoad \/ TBig \/ TWord \/ TDoc \/ TPass \/ TRecheck \/ TCooc \/ TFar \/ TMono \/ TCodec \/ TWindow
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"@ACCEPTED", TLCGet("stats").diameter - 1>>)
=============================================================================
