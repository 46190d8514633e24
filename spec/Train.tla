------------------------------- MODULE Train -------------------------------
(* The training pipeline of word2vec and LexVec (and, with mode "mem", of   *)
(* GloVe): passes over the corpus, a producer that reads batches, workers   *)
(* under a semaphore, an observer that counts trained items and lowers the  *)
(* learning rate, and a main thread that waits for all of them.             *)
(* Items are 1..n (the eligible words in order). The configuration is       *)
(* chosen in the initial state, so one run covers all configurations.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json
CONSTANTS Ns,           \* numbers of items
          Batches,      \* batch sizes
          Workers,      \* worker counts
          IterSet,      \* iteration counts
          Modes,        \* subset of {"mem", "stream"}
          Loads,        \* numbers of loading passes (2: with co-occurrences)
          Updates,      \* numbers of trained items between two rate updates
          Floors,       \* minimum rate, in units of Initlr/n ("MinLR * n / Initlr")
          Faults,       \* BOOLEAN subset: may a read fail
          Bug
VARIABLES conf,         \* [n, b, g, iters, mode, loads, u, min, fp, fa] fp: failing pass (0: none), fa: items read before
          pc, ret, iter, pass,
          pst, ppos, pbuf, perr,       \* producer
          ch, closed,                        \* the channel of batches
          ws, permits,                       \* workers
          wg,
          tclosed, ost, cnt, lr, stale,      \* observer; stale: count of an earlier iteration's observer that is still busy (0: none)
          count, overlap, bad                \* ghosts: trained[iter][item], overlapping iterations seen, rate violation seen
vars == <<conf, pc, ret, iter, pass, pst, ppos, pbuf, perr, ch, closed, ws, permits, wg, tclosed, ost, cnt, lr, stale, count, overlap, bad>>
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Confs == {c \in [n : Ns, b : Batches, g : Workers, iters : IterSet, mode : Modes, loads : Loads, u : Updates, min : Floors,
                 fp : 0..(Max(Loads) + Max(IterSet)), fa : 0..Max(Ns)] :
             /\ c.fp <= c.loads + (IF c.mode = "stream" THEN c.iters ELSE 0)
             /\ c.min <= Max2(c.n, 1)          \* MinLR is at most Initlr
             /\ c.fa <= c.n /\ (c.fp = 0 => c.fa = 0) /\ (c.fp # 0 => TRUE \in Faults)
             /\ (c.mode = "mem" => c.b = Min(Batches) /\ c.loads = 1)}

\* consecutive balanced shares of 1..n over g workers: <<start, end>> (as specified by Split)
Bound(n, g, i) == IF i = 0 THEN 0 ELSE FoldLeft(LAMBDA a, j : a + (n + j) \div g, 0, [j \in 1..(i - 1) |-> j]) + (IF i = g THEN 0 ELSE (n + i) \div g)
ShareEnd(n, g, i) == IF i = g THEN n ELSE FoldLeft(LAMBDA a, j : a + (n + j) \div g, 0, [j \in 1..i |-> j])
ShareOf(n, g, i) == LET s == IF i = 1 THEN 0 ELSE ShareEnd(n, g, i - 1) IN [k \in 1..(ShareEnd(n, g, i) - s) |-> s + k]

Rate(c) == Max2(conf.min, conf.n - c)            \* in units of Initlr / n
Init ==
    /\ conf \in Confs
    /\ pc = "load" /\ ret = "none" /\ iter = 1 /\ pass = 1
    /\ pst = "off" /\ ppos = 0 /\ pbuf = <<>> /\ perr = FALSE
    /\ ch = <<>> /\ closed = FALSE /\ ws = <<>> /\ permits = 0 /\ wg = 0
    /\ tclosed = FALSE /\ ost = "off" /\ cnt = 0 /\ lr = conf.n /\ stale = 0
    /\ count = [i \in 1..conf.iters |-> [k \in 1..conf.n |-> 0]] /\ overlap = FALSE /\ bad = FALSE

\* ------------------------------------------------------------------ main
Load == /\ pc = "load"
        /\ IF conf.fp = pass THEN pc' = "done" /\ ret' = "error" /\ UNCHANGED pass
           ELSE pass' = pass + 1 /\ pc' = (IF pass = conf.loads THEN "start" ELSE "load") /\ UNCHANGED ret
        /\ UNCHANGED <<conf, iter, pst, ppos, pbuf, perr, ch, closed, ws, permits, wg, tclosed, ost, cnt, lr, stale, count, overlap, bad>>

Task(items) == [items |-> items, i |-> 1, st |-> "sem", it |-> iter, counted |-> Bug # "wg_in_worker"]
Start ==
    /\ pc = "start"
    /\ IF iter > conf.iters
       THEN pc' = "done" /\ ret' = "ok" /\ UNCHANGED <<pst, ppos, pbuf, perr, ch, closed, ws, permits, wg, tclosed, ost, cnt, stale, overlap>>
       ELSE /\ permits' = conf.g /\ tclosed' = FALSE /\ ost' = "recv" /\ cnt' = 0
            /\ stale' = (IF ost = "upd" THEN cnt ELSE stale)
            /\ overlap' = (overlap \/ \E w \in DOMAIN ws : ws[w].st # "fin")
            /\ IF conf.mode = "stream"
               THEN /\ pst' = "read" /\ ppos' = 0 /\ pbuf' = <<>> /\ perr' = FALSE /\ ch' = <<>> /\ closed' = FALSE
                    /\ pc' = "recv" /\ UNCHANGED <<ws, wg>>
               ELSE /\ ws' = [w \in 1..conf.g |-> Task(ShareOf(conf.n, conf.g, w))] /\ wg' = (IF Bug = "wg_in_worker" THEN 0 ELSE conf.g)
                    /\ pc' = "wait" /\ UNCHANGED <<pst, ppos, pbuf, perr, ch, closed>>
            /\ UNCHANGED ret
    /\ UNCHANGED <<conf, iter, pass, lr, count, bad>>

Recv == /\ pc = "recv" /\ ch # <<>>
        /\ ws' = Append(IF \A w \in DOMAIN ws : ws[w].st = "fin" THEN <<>> ELSE ws, Task(Head(ch)))
        /\ ch' = Tail(ch) /\ wg' = (IF Bug = "wg_in_worker" THEN wg ELSE wg + 1)
        /\ UNCHANGED <<conf, pc, ret, iter, pass, pst, ppos, pbuf, perr, closed, permits, tclosed, ost, cnt, lr, stale, count, overlap, bad>>
RecvEnd == /\ pc = "recv" /\ ch = <<>> /\ closed /\ pc' = "wait"
           /\ UNCHANGED <<conf, ret, iter, pass, pst, ppos, pbuf, perr, ch, closed, ws, permits, wg, tclosed, ost, cnt, lr, stale, count, overlap, bad>>
Wait == /\ pc = "wait" /\ (wg = 0 \/ Bug = "no_wait")
        /\ tclosed' = (Bug # "no_wait") /\ pc' = (IF Bug = "no_join" THEN "readerr" ELSE "join")
        /\ UNCHANGED <<conf, ret, iter, pass, pst, ppos, pbuf, perr, ch, closed, ws, permits, wg, ost, cnt, lr, stale, count, overlap, bad>>
Join == /\ pc = "join" /\ (ost = "done" \/ Bug = "no_wait") /\ pc' = "readerr"
        /\ UNCHANGED <<conf, ret, iter, pass, pst, ppos, pbuf, perr, ch, closed, ws, permits, wg, tclosed, ost, cnt, lr, stale, count, overlap, bad>>
ReadErr == /\ pc = "readerr"
           /\ IF perr /\ Bug # "error_dropped" THEN pc' = "done" /\ ret' = "error" /\ UNCHANGED <<iter, pass>>
              ELSE pc' = "start" /\ iter' = iter + 1 /\ pass' = pass + 1 /\ UNCHANGED ret
           /\ UNCHANGED <<conf, pst, ppos, pbuf, perr, ch, closed, ws, permits, wg, tclosed, ost, cnt, lr, stale, count, overlap, bad>>

\* -------------------------------------------------------------- producer
PRead == /\ pst = "read"
         /\ IF conf.fp = pass /\ ppos = conf.fa
            THEN perr' = TRUE /\ pst' = "closing" /\ UNCHANGED <<ppos, pbuf>>
            ELSE IF ppos = conf.n THEN pst' = "last" /\ UNCHANGED <<ppos, pbuf, perr>>
            ELSE /\ ppos' = ppos + 1 /\ pbuf' = Append(pbuf, ppos + 1)
                 /\ pst' = (IF Len(pbuf) + 1 = conf.b THEN "send" ELSE "read") /\ UNCHANGED perr
         /\ UNCHANGED <<conf, pc, ret, iter, pass, ch, closed, ws, permits, wg, tclosed, ost, cnt, lr, stale, count, overlap, bad>>
\* with Bug = "reuse_buffer" every batch is the same buffer: what is in flight changes with it
Alias(s) == IF Bug = "reuse_buffer" THEN [k \in DOMAIN s |-> pbuf] ELSE s
PSend == /\ pst \in {"send", "last"} /\ Len(ch) < conf.g
         /\ ch' = Append(Alias(ch), pbuf) /\ pbuf' = <<>> /\ pst' = (IF pst = "last" THEN "closing" ELSE "read")
         /\ UNCHANGED <<conf, pc, ret, iter, pass, ppos, perr, closed, ws, permits, wg, tclosed, ost, cnt, lr, stale, count, overlap, bad>>
PClose == /\ pst = "closing" /\ pst' = "off" /\ closed' = (~perr \/ Bug # "close_lost")
          /\ UNCHANGED <<conf, pc, ret, iter, pass, ppos, pbuf, perr, ch, ws, permits, wg, tclosed, ost, cnt, lr, stale, count, overlap, bad>>

\* --------------------------------------------------------------- workers
WAcquire(w) == /\ ws[w].st = "sem" /\ permits > 0 /\ permits' = permits - 1
               /\ ws' = [ws EXCEPT ![w].st = "train", ![w].counted = TRUE]
               /\ wg' = (IF ws[w].counted THEN wg ELSE wg + 1)
               /\ UNCHANGED <<conf, pc, ret, iter, pass, pst, ppos, pbuf, perr, ch, closed, tclosed, ost, cnt, lr, stale, count, overlap, bad>>
WTrain(w) == /\ ws[w].st = "train" /\ ws[w].i <= Len(ws[w].items)
             /\ count' = [count EXCEPT ![ws[w].it][ws[w].items[ws[w].i]] = @ + 1]
             /\ bad' = (bad \/ lr < Min2(conf.min, conf.n) \/ lr > conf.n)
             /\ overlap' = (overlap \/ (ws[w].it # iter))
             /\ ws' = [ws EXCEPT ![w].st = "send"]
             /\ UNCHANGED <<conf, pc, ret, iter, pass, pst, ppos, pbuf, perr, ch, closed, permits, wg, tclosed, ost, cnt, lr, stale>>
\* handshake with the observer
WSend(w) == /\ ws[w].st = "send" /\ ost = "recv" /\ cnt' = cnt + 1 /\ ost' = "upd"
            /\ ws' = [ws EXCEPT ![w].st = "train", ![w].i = @ + 1]
            /\ UNCHANGED <<conf, pc, ret, iter, pass, pst, ppos, pbuf, perr, ch, closed, permits, wg, tclosed, lr, stale, count, overlap, bad>>
WEnd(w) == /\ ws[w].st = "train" /\ ws[w].i > Len(ws[w].items)
           /\ ws' = [ws EXCEPT ![w].st = "fin"] /\ wg' = wg - 1
           /\ permits' = (IF Bug = "sem_leak" /\ Len(ws[w].items) = 0 THEN permits ELSE permits + 1)
           /\ UNCHANGED <<conf, pc, ret, iter, pass, pst, ppos, pbuf, perr, ch, closed, tclosed, ost, cnt, lr, stale, count, overlap, bad>>

\* -------------------------------------------------------------- observer
OUpd == /\ ost = "upd" /\ ost' = "recv"
        /\ lr' = (IF cnt % conf.u = 0 THEN (IF Bug = "no_floor" THEN conf.n - cnt ELSE Rate(cnt)) ELSE lr)
        /\ UNCHANGED <<conf, pc, ret, iter, pass, pst, ppos, pbuf, perr, ch, closed, ws, permits, wg, tclosed, cnt, stale, count, overlap, bad>>
OEnd == /\ ost = "recv" /\ tclosed /\ ost' = "done"
        /\ UNCHANGED <<conf, pc, ret, iter, pass, pst, ppos, pbuf, perr, ch, closed, ws, permits, wg, tclosed, cnt, lr, stale, count, overlap, bad>>

OStale == /\ stale # 0 /\ stale' = 0 /\ lr' = (IF stale % conf.u = 0 THEN Rate(stale) ELSE lr)
          /\ UNCHANGED <<conf, pc, ret, iter, pass, pst, ppos, pbuf, perr, ch, closed, ws, permits, wg, tclosed, ost, cnt, count, overlap, bad>>
Quiet == stale = 0 /\ pst = "off" /\ ost \in {"off", "done"} /\ \A w \in DOMAIN ws : ws[w].st = "fin"
Done == pc = "done" /\ Quiet /\ UNCHANGED vars
Main == Load \/ Start \/ Recv \/ RecvEnd \/ Wait \/ Join \/ ReadErr
Producer == PRead \/ PSend \/ PClose
Worker(w) == w \in DOMAIN ws /\ (WAcquire(w) \/ WTrain(w) \/ WSend(w) \/ WEnd(w))
Observer == OUpd \/ OEnd \/ OStale
Next == Main \/ Producer \/ (\E w \in 1..(Max(Ns) + Max(Workers) + 1) : Worker(w)) \/ Observer \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ WF_vars(Producer) /\ WF_vars(Observer)
        /\ \A w \in 1..(Max(Ns) + Max(Workers) + 1) : WF_vars(Worker(w))

\* ------------------------------------------------------------ properties
\* P07: every completed iteration has trained every item exactly once, and iterations do not overlap
CountedOnce ==
    /\ \A i \in 1..conf.iters : \A k \in 1..conf.n :
          /\ count[i][k] <= 1
          /\ (i < iter /\ ~perr => count[i][k] = 1)
          /\ (i > iter => count[i][k] = 0)
    /\ (ret = "ok" => \A i \in 1..conf.iters : \A k \in 1..conf.n : count[i][k] = 1)
NoOverlap == ~overlap
\* P09
ErrorIff == pc = "done" => ((ret = "error") <=> (conf.fp # 0)) /\ ret # "none"
\* P08: it ends and leaves nothing running
Ends == <>(pc = "done")
NothingLeft == <>[]Quiet
\* P14
RateRange == ~bad
RateSchedule == (ost = "recv" /\ cnt > 0 /\ cnt >= conf.u) => lr = Rate((cnt \div conf.u) * conf.u)
RateStart == (iter = 1 /\ cnt < conf.u) => lr = conf.n
\* when a worker trains, the observer has counted all items sent so far, but may still be processing the last one
LagOne == (pc \in {"recv", "wait"} /\ ost = "upd" /\ cnt > conf.u /\ Bug = "none") => lr = Rate(((cnt - 1) \div conf.u) * conf.u)
SemOk == permits >= 0 /\ wg >= 0 /\ Cardinality({w \in DOMAIN ws : ws[w].st \in {"train", "send"}}) <= conf.g
\* all configurations with the specified outcome, without their behaviours
GenSpec == Init /\ [][FALSE]_vars
Gen == PrintT("@J" \o ToJson([conf |-> conf, ret |-> IF conf.fp = 0 THEN "ok" ELSE "error"]))
GenFull == (pc = "done" /\ Quiet) => PrintT("@J" \o ToJson([conf |-> conf, ret |-> ret, iters |-> iter - 1]))
=============================================================================
