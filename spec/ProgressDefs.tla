---------------------------- MODULE ProgressDefs ----------------------------
(* What a session reports. A session is a training followed by saves. A     *)
(* report is a sequence of intermediate numbers and a final one:            *)
(* [what |-> "read words", ints |-> <<2, 4>>, final |-> 5].                 *)
EXTENDS Integers, Sequences, SequencesExt

Multiples(k, n) == [i \in 1..(n \div k) |-> i * k]
Report(what, k, n) == [what |-> what, ints |-> Multiples(k, n), final |-> n]

\* t: [model, words, pairs, items, eligible, vocab, iters]: numbers of words read, position pairs, distinct
\* co-occurring pairs, eligible words, vocabulary words and iterations; k: logging interval, lk: that of loading
Cooc(t) == t.model # "word2vec"
Unit(t) == IF t.model = "glove" THEN "trained items" ELSE "trained words"
PerIter(t) == IF t.model = "glove" THEN t.items ELSE t.eligible
TrainReports(t, k, lk) ==
    <<Report("read words", lk, t.words)>>
    \o (IF Cooc(t) THEN <<Report("read tuples", lk, t.pairs), Report("build items", k, t.items)>> ELSE <<>>)
    \o [i \in 1..t.iters |-> Report(Unit(t), k, PerIter(t))]

Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
\* the words written so far when every k-th word is reported; never more than there are
SavedOK(r, k, n) == /\ r.what = "saved words" /\ r.final = n
                    /\ Increasing(r.ints) /\ \A i \in DOMAIN r.ints : 0 <= r.ints[i] /\ r.ints[i] <= n
                    /\ Len(r.ints) \in {n \div k, (n + k - 1) \div k}
\* after a failure: the reports of what came before it; the last iteration has gone through whole batches only (the part
\* of a word in front of the failure may count as one more word)
FailedOK(rs, t, k, lk, batch) ==
    LET all == TrainReports(t, k, lk) n == Len(rs) IN
    /\ n <= Len(all)
    /\ \A i \in 1..(n - 1) : rs[i] = all[i]
    /\ n > 0 => \/ rs[n] = all[n]
                \/ /\ rs[n].what = all[n].what                  \* interrupted: intermediate numbers only
                   /\ rs[n].final = -1 /\ IsPrefix(rs[n].ints, all[n].ints)
                \/ /\ rs[n].what = all[n].what /\ rs[n].what = "trained words"
                   /\ rs[n].final <= all[n].final + 1 /\ rs[n].final % batch = 0 /\ rs[n] = Report(rs[n].what, k, rs[n].final)
=============================================================================
