------------------------------ MODULE Corpus ------------------------------
(* The corpus life cycle as a state machine: reading words into the        *)
(* vocabulary, counting co-occurrences (in memory: two loops; streaming: a  *)
(* sliding buffer), and offering the eligible words for training (in       *)
(* memory: one sequence; streaming: a producer that fills buffers and hands *)
(* them over a bounded channel to a consumer that looks at them later).     *)
EXTENDS CorpusDefs, Json
CONSTANTS Spell,       \* set of spellings (numbers)
          LowOf,       \* spelling -> lower-case spelling (a sequence)
          MaxText,     \* longest text
          Modes, Lowers, MaxCounts, MinCounts, Windows, CTypes, BatchSizes, Caps, Passes, \* configuration choices
          Bug          \* "none" or the name of a defect, to show that the invariants are not vacuous
VARIABLES cfg, pc, pos, dict, len, idoc,       \* load
          ws, wpos, wi, wj, cooc,              \* counting
          pass, rpos, buf, heap, chan, closed, \* producer (heap: buffer number -> contents)
          got, snap, offered                   \* consumer
vars == <<cfg, pc, pos, dict, len, idoc, ws, wpos, wi, wj, cooc, pass, rpos, buf, heap, chan, closed, got, snap, offered>>

Texts == UNION {[1..n -> Spell] : n \in 0..MaxText}
Cfgs == [text : Texts, mode : Modes, lower : Lowers, maxc : MaxCounts, minc : MinCounts, window : Windows,
         ctype : CTypes, bsize : BatchSizes, cap : Caps]
Words == Norm(cfg.text, cfg.lower, LowOf)
NormW(w) == IF cfg.lower THEN LowOf[w] ELSE w

Init == /\ cfg \in Cfgs
        /\ pc = "load" /\ pos = 0 /\ dict = EmptyDict /\ len = 0 /\ idoc = <<>>
        /\ ws = <<>> /\ wpos = 0 /\ wi = 1 /\ wj = 0 /\ cooc = Bag0
        /\ pass = 0 /\ rpos = 0 /\ buf = 0 /\ heap = <<>> /\ chan = <<>> /\ closed = FALSE
        /\ got = <<>> /\ snap = <<>> /\ offered = <<>>

UCnt == UNCHANGED <<ws, wpos, wi, wj, cooc>>
UProd == UNCHANGED <<pass, rpos, buf, heap, chan, closed, got, snap, offered>>
ULoad == UNCHANGED <<pos, dict, len, idoc>>

ReadWord ==
    /\ pc = "load" /\ pos < Len(cfg.text)
    /\ LET w == NormW(cfg.text[pos + 1])
           d == DictAdd(dict, w)
       IN /\ dict' = d
          /\ idoc' = IF cfg.mode = "mem" THEN Append(idoc, d.ids[w]) ELSE idoc
    /\ pos' = pos + 1 /\ len' = len + 1
    /\ UCnt /\ UProd /\ UNCHANGED <<cfg, pc>>
EndRead ==
    /\ pc = "load" /\ pos = Len(cfg.text)
    /\ pc' = IF cfg.ctype = "none" THEN "ready" ELSE "count"
    /\ ULoad /\ UCnt /\ UProd /\ UNCHANGED cfg

Sc == Scale(cfg.ctype, cfg.window)
IdAt(w) == IF w \in DOMAIN dict.ids THEN dict.ids[w] ELSE 0
\* in memory: for i, for j in i+1..i+window
CountMem ==
    /\ pc = "count" /\ cfg.mode = "mem" /\ wi <= Len(idoc)
    /\ LET d == wj + 1 IN
       IF wi + d <= Len(idoc) /\ d <= cfg.window
       THEN /\ cooc' = BagAdd(cooc, Pair(idoc[wi], idoc[wi + d]), Weight(cfg.ctype, d, Sc))
            /\ wj' = d /\ wi' = wi
       ELSE wi' = wi + 1 /\ wj' = 0 /\ UNCHANGED cooc
    /\ ULoad /\ UProd /\ UNCHANGED <<cfg, pc, ws, wpos>>
\* streaming: fill the buffer up to window+1 words, pair its head with the rest, drop the head
Fill ==
    /\ pc = "count" /\ cfg.mode = "fs" /\ wpos < Len(cfg.text) /\ Len(ws) <= cfg.window
    /\ ws' = Append(ws, cfg.text[wpos + 1]) /\ wpos' = wpos + 1
    /\ ULoad /\ UProd /\ UNCHANGED <<cfg, pc, wi, wj, cooc>>
Emit ==
    /\ pc = "count" /\ cfg.mode = "fs" /\ ws # <<>>
    /\ (wpos = Len(cfg.text) /\ Bug # "no_tail") \/ Len(ws) > cfg.window
    /\ LET idw(i) == IdAt(IF Bug = "raw_lookup" THEN ws[i] ELSE NormW(ws[i])) IN
       cooc' = FoldLeft(LAMBDA b, d : BagAdd(b, Pair(idw(1), idw(1 + d)), Weight(cfg.ctype, d, Sc)),
                        cooc, [d \in 1..(Len(ws) - 1) |-> d])
    /\ ws' = Tail(ws)
    /\ ULoad /\ UProd /\ UNCHANGED <<cfg, pc, wpos, wi, wj>>
EndCount ==
    /\ pc = "count"
    /\ \/ cfg.mode = "mem" /\ wi > Len(idoc)
       \/ cfg.mode = "fs" /\ wpos = Len(cfg.text) /\ (ws = <<>> \/ (Bug = "no_tail" /\ Len(ws) <= cfg.window))
    /\ pc' = "ready"
    /\ ULoad /\ UCnt /\ UProd /\ UNCHANGED cfg

\* a pass over the eligible words
Start ==
    /\ pc = "ready" /\ pass < Passes
    /\ pass' = pass + 1
    /\ IF cfg.mode = "mem"
       THEN /\ offered' = Eligible(dict, idoc, cfg.maxc, cfg.minc)
            /\ UNCHANGED <<pc, rpos, buf, heap, chan, closed, got, snap>>
       ELSE /\ pc' = "pass" /\ rpos' = 0 /\ chan' = <<>> /\ closed' = FALSE /\ got' = <<>> /\ offered' = <<>>
            /\ heap' = Append(heap, <<>>) /\ buf' = Len(heap) + 1 /\ UNCHANGED snap
    /\ ULoad /\ UCnt /\ UNCHANGED cfg
\* the producer reads one word; a full buffer blocks until there is room in the channel
Room == Len(chan) < cfg.cap
FreshBuf == IF Bug = "reuse_buffer" THEN buf ELSE Len(heap) + 1
Produce ==
    /\ pc = "pass" /\ ~closed /\ rpos < Len(cfg.text) /\ Len(heap[buf]) < cfg.bsize
    /\ rpos' = rpos + 1
    /\ LET id == IdAt(NormW(cfg.text[rpos + 1])) IN
       heap' = IF Filtered(dict, id, cfg.maxc, cfg.minc) THEN heap
               ELSE [heap EXCEPT ![buf] = Append(@, id)]
    /\ ULoad /\ UCnt /\ UNCHANGED <<cfg, pc, pass, buf, chan, closed, got, snap, offered>>
Hand ==
    /\ pc = "pass" /\ ~closed /\ Len(heap[buf]) = cfg.bsize /\ Room
    /\ chan' = Append(chan, [b |-> buf, at |-> heap[buf]])
    /\ heap' = IF Bug = "reuse_buffer" THEN [heap EXCEPT ![buf] = <<>>] ELSE Append(heap, <<>>)
    /\ buf' = FreshBuf
    /\ ULoad /\ UCnt /\ UNCHANGED <<cfg, pc, pass, rpos, closed, got, snap, offered>>
HandLast ==
    /\ pc = "pass" /\ ~closed /\ rpos = Len(cfg.text) /\ Len(heap[buf]) < cfg.bsize /\ Room
    /\ chan' = IF Bug = "lose_last" THEN chan ELSE Append(chan, [b |-> buf, at |-> heap[buf]])
    /\ closed' = TRUE
    /\ ULoad /\ UCnt /\ UNCHANGED <<cfg, pc, pass, rpos, buf, heap, got, snap, offered>>
\* the consumer takes a buffer; what it later reads is the heap, not what was handed over
Take ==
    /\ pc = "pass" /\ chan # <<>>
    /\ got' = Append(got, Head(chan).b) /\ chan' = Tail(chan)
    /\ snap' = Append(snap, Head(chan))
    /\ ULoad /\ UCnt /\ UNCHANGED <<cfg, pc, pass, rpos, buf, heap, closed, offered>>
EndPass ==
    /\ pc = "pass" /\ closed /\ chan = <<>>
    /\ offered' = [k \in DOMAIN got |-> heap[got[k]]]
    /\ pc' = "ready"
    /\ ULoad /\ UCnt /\ UNCHANGED <<cfg, pass, rpos, buf, heap, chan, closed, got, snap>>
Done == pc = "ready" /\ pass = Passes /\ UNCHANGED vars

Next == ReadWord \/ EndRead \/ CountMem \/ Fill \/ Emit \/ EndCount \/ Start \/ Produce \/ Hand \/ HandLast \/ Take \/ EndPass \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------
Loaded == pc \in {"ready", "pass"}
\* P01
Census == /\ IsCensus(dict, SubSeq(Words, 1, pos))
          /\ len = pos
          /\ (Loaded => pos = Len(cfg.text))
          /\ (cfg.mode = "mem" => idoc = IdsOf(dict, SubSeq(Words, 1, pos)))
\* P02, P03
Elig == Eligible(dict, IdsOf(dict, Words), cfg.maxc, cfg.minc)
Offered == (pc = "ready" /\ pass > 0) =>
              IF cfg.mode = "mem" THEN offered = Elig ELSE IsPartition(offered, Elig, cfg.bsize)
\* P03: nothing handed over is ever changed; handed-over batches are a prefix of the partition
Frozen == /\ \A k \in DOMAIN snap : heap[snap[k].b] = snap[k].at
          /\ \A k \in DOMAIN chan : heap[chan[k].b] = chan[k].at
Capacity == Len(chan) <= cfg.cap
\* P04, P05
Counted == (Loaded /\ cfg.ctype # "none") => cooc = CoocDecl(IdsOf(dict, Words), cfg.window, cfg.ctype)
FoldAgrees == (Loaded /\ cfg.ctype # "none") =>
                 /\ LET m == CoocMat(IdsOf(dict, Words), Len(dict.words), cfg.window, cfg.ctype)
                        c == CoocDecl(IdsOf(dict, Words), cfg.window, cfg.ctype)
                    IN /\ CoocSize(m) = Cardinality(DOMAIN c)
                       /\ \A k \in DOMAIN c : CoocAt(m, k[1], k[2]) = c[k] /\ CoocAt(m, k[2], k[1]) = c[k]
                 /\ NPairs(Len(Words), cfg.window) = Cardinality(PosPairs(Len(Words), cfg.window))
Finishes == <>(pc = "ready" /\ pass = Passes)

------------------------------------------------------------------------
(* Generator: every quiescent state is printed with what has to be observed. *)
CoocSeq == LET ks == SetToSeq(DOMAIN cooc) IN [i \in DOMAIN ks |-> <<ks[i][1], ks[i][2], cooc[ks[i]]>>]
Gen == (pc = "ready" /\ pass = Passes) =>
    PrintT("@J" \o ToJson([cfg |-> cfg, words |-> dict.words, freq |-> dict.freq, len |-> len,
                           elig |-> Elig, cooc |-> CoocSeq]))
=============================================================================
