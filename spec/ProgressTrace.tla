---------------------------- MODULE ProgressTrace ----------------------------
(* Trace validation of recorded sessions: a Session event with the text and *)
(* the configuration, the reports of the training, the reports of each      *)
(* save; Pair compares a silent session with a verbose one.                 *)
EXTENDS ProgressDefs, CorpusDefs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, conf, sess
tvars == <<l, conf, sess>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
TraceInit == l = 1 /\ conf = [none |-> TRUE] /\ sess = [none |-> TRUE]
TSession ==
    /\ Is("Session") /\ conf' = E
    /\ \E ws \in {Norm(E.text, E.lower, E.low)} : \E d \in {DictOf(ws)} : \E is \in {IdsOf(d, ws)} :
       \E items \in {IF E.model = "word2vec" THEN 0 ELSE CoocSize(CoocMat(is, Len(d.words), E.window, "inc"))} :
          sess' = [model |-> E.model, words |-> Len(ws), pairs |-> NPairs(Len(ws), E.window), items |-> items,
                   eligible |-> Len(Eligible(d, is, E.max, E.min)), vocab |-> Len(d.words), iters |-> E.iters]
TTrained == /\ Is("Reports") /\ ~E.odd
            /\ IF ~conf.verbose THEN E.reports = <<>>
               ELSE IF E.failed THEN FailedOK(E.reports, sess, conf.k, conf.lk, conf.batch)
               ELSE E.reports = TrainReports(sess, conf.k, conf.lk)
            /\ UNCHANGED <<conf, sess>>
TSaved == /\ Is("Saved") /\ ~E.odd /\ E.err = ""
          /\ IF ~conf.verbose THEN E.reports = <<>> ELSE Len(E.reports) = 1 /\ SavedOK(E.reports[1], conf.k, sess.vocab)
          /\ UNCHANGED <<conf, sess>>
TPair == Is("Pair") /\ E.silent = E.verbose /\ UNCHANGED <<conf, sess>>
TraceNext == TSession \/ TTrained \/ TSaved \/ TPair
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"@ACCEPTED", TLCGet("stats").diameter - 1>>)
=============================================================================
