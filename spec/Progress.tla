------------------------------ MODULE Progress ------------------------------
(* Progress reporting: the loading pass, iterations whose workers send one  *)
(* token per item to an observer, and saving. The observer counts, lowers   *)
(* the rate every u tokens, and reports if the session is verbose.          *)
EXTENDS ProgressDefs, FiniteSets, TLC
CONSTANTS Eligible, Excluded, Vocab, Ks, Us, Workers, IterSet, Bug
VARIABLES conf, pc, i, iter, left, cnt, obs, closed, out, upd
vars == <<conf, pc, i, iter, left, cnt, obs, closed, out, upd>>

Confs == [e : Eligible, x : Excluded, v : Vocab, k : Ks, u : Us, g : Workers, iters : IterSet, verbose : BOOLEAN]
Sess(c) == [model |-> "word2vec", words |-> c.e + c.x, pairs |-> 0, items |-> 0, eligible |-> c.e, vocab |-> c.v, iters |-> c.iters]
Say(what, n, fin) == IF conf.verbose THEN out' = Append(out, <<what, n, fin>>) ELSE UNCHANGED out

Init == /\ conf \in Confs /\ pc = "load" /\ i = 0 /\ iter = 1 /\ left = <<>> /\ cnt = 0 /\ obs = "off" /\ closed = FALSE /\ out = <<>> /\ upd = 0

Load == /\ pc = "load"
        /\ IF i < conf.e + conf.x
           THEN i' = i + 1 /\ (IF (i + 1) % conf.k = 0 THEN Say("read words", i + 1, FALSE) ELSE UNCHANGED out) /\ UNCHANGED pc
           ELSE Say("read words", i, TRUE) /\ pc' = "start" /\ i' = 0
        /\ UNCHANGED <<conf, iter, left, cnt, obs, closed, upd>>
Share(w) == LET n == IF Bug = "count_excluded" THEN conf.e + conf.x ELSE conf.e IN (n + w - 1) \div conf.g
Start == /\ pc = "start"
         /\ IF iter > conf.iters THEN pc' = "save" /\ UNCHANGED <<left, cnt, obs, closed>>
            ELSE pc' = "run" /\ left' = [w \in 1..conf.g |-> Share(w)] /\ cnt' = 0 /\ obs' = "on" /\ closed' = FALSE
         /\ UNCHANGED <<conf, i, iter, out, upd>>
\* a worker hands over a token
Token == /\ pc = "run" /\ obs = "on"
         /\ \E w \in DOMAIN left : left[w] > 0 /\ left' = [left EXCEPT ![w] = @ - 1]
         /\ LET c == IF Bug = "count_if_verbose" /\ ~conf.verbose THEN cnt ELSE cnt + 1 IN
            /\ cnt' = c /\ upd' = (IF c > 0 /\ c % conf.u = 0 THEN upd + 1 ELSE upd)
            /\ IF c % conf.k = 0 THEN Say("trained words", c, FALSE) ELSE UNCHANGED out
         /\ UNCHANGED <<conf, pc, i, iter, obs, closed>>
Close == /\ pc = "run" /\ ~closed /\ \A w \in DOMAIN left : left[w] = 0
         /\ closed' = TRUE /\ UNCHANGED <<conf, pc, i, iter, left, cnt, obs, out, upd>>
Final == /\ closed /\ obs = "on"
         /\ obs' = "done"
         /\ IF Bug = "multiples_only" /\ cnt % conf.k # 0 THEN UNCHANGED out ELSE Say("trained words", cnt, TRUE)
         /\ UNCHANGED <<conf, pc, i, iter, left, cnt, closed, upd>>
Next1 == /\ pc = "run" /\ closed /\ (obs = "done" \/ Bug = "unjoined")
         /\ pc' = "start" /\ iter' = iter + 1 /\ UNCHANGED <<conf, i, left, cnt, obs, closed, out, upd>>
Save == /\ pc = "save"
        /\ IF i < conf.v
           THEN i' = i + 1 /\ (IF i % conf.k = 0 THEN Say("saved words", i, FALSE) ELSE UNCHANGED out) /\ UNCHANGED pc
           ELSE Say("saved words", IF Bug = "saved_last_index" THEN conf.v - 1 ELSE i, TRUE) /\ pc' = "done" /\ i' = 0
        /\ UNCHANGED <<conf, iter, left, cnt, obs, closed, upd>>
Done == pc = "done" /\ UNCHANGED vars
Next == Load \/ Start \/ Token \/ Close \/ Final \/ Next1 \/ Save \/ Done
Fair == /\ WF_vars(Load) /\ WF_vars(Start) /\ WF_vars(Token) /\ WF_vars(Close) /\ WF_vars(Final) /\ WF_vars(Next1) /\ WF_vars(Save)
Spec == Init /\ [][Next]_vars /\ Fair

\* the reports in a sequence of lines
Gather(ls) == FoldLeft(LAMBDA a, x :
    IF a.open THEN LET rs == Front(a.rs) r == Last(a.rs) IN
        [open |-> ~x[3], ok |-> a.ok /\ r.what = x[1],
         rs |-> Append(rs, IF x[3] THEN [r EXCEPT !.final = x[2]] ELSE [r EXCEPT !.ints = Append(@, x[2])])]
    ELSE [open |-> ~x[3], ok |-> a.ok,
          rs |-> Append(a.rs, [what |-> x[1], ints |-> IF x[3] THEN <<>> ELSE <<x[2]>>, final |-> IF x[3] THEN x[2] ELSE -1])],
    [rs |-> <<>>, open |-> FALSE, ok |-> TRUE], ls)

\* ------------------------------------------------------------ properties
Quiet == ~conf.verbose => out = <<>>
TrueTotals == (pc = "done" /\ conf.verbose) =>
    LET gth == Gather(out) IN
    /\ gth.ok /\ ~gth.open
    /\ SubSeq(gth.rs, 1, conf.iters + 1) = TrainReports(Sess(conf), conf.k, conf.k)
    /\ Len(gth.rs) = conf.iters + 2 /\ SavedOK(Last(gth.rs), conf.k, conf.v)
\* what was reported so far is true at every moment
NeverMore == \A j \in DOMAIN out : out[j][2] <= (CASE out[j][1] = "read words" -> conf.e + conf.x [] out[j][1] = "trained words" -> conf.e [] OTHER -> conf.v)
\* the outcome (here: the rate's updates) does not depend on the reporting
SameOutcome == pc = "done" => upd = conf.iters * (conf.e \div conf.u)
Ends == <>(pc = "done")
=============================================================================
