---------------------------- MODULE PersistTrace ----------------------------
(* Values are opaque: the six-decimal rendering of a number is its          *)
(* identity here. saved is the abstract content of the last saved file.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
VARIABLES l, words, vals, saved
P == INSTANCE Persist WITH MaxSize <- 0, BufSizes <- {1}, MaxLines <- 0, Kinds <- {}, Bug <- "none", mode <- 0, size <- 0, bufsize <- 0,
     limit <- 0, buf <- <<>>, next <- 0, acc <- <<>>, werr <- FALSE, pc <- "", ret <- "", lines <- <<>>, failat <- 0, pos <- 0, ents <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
TraceInit == l = 1 /\ words = <<>> /\ vals = <<>> /\ saved = <<>>
\* a vocabulary and a matrix (rows of renderings)
TGiven == Is("Given") /\ words' = E.words /\ vals' = E.vals /\ saved' = <<>>
\* P18: saving: refused when the number of rows differs, otherwise one line per word
Lines == [i \in DOMAIN words |-> <<words[i]>> \o vals[i]]
TSave == /\ Is("Save")
         /\ IF Len(vals) # Len(words) THEN E.err # "" /\ E.lines = <<>> /\ saved' = <<>>
            ELSE E.err = "" /\ E.lines = Lines /\ E.trailing = "" /\ saved' = Lines
         /\ UNCHANGED <<words, vals>>
\* loading it back: <<word, dim, values rendered>>, norms
TBack == /\ Is("Back") /\ E.err = ""
         /\ Len(E.ents) = Len(saved)
         /\ \A i \in DOMAIN saved : /\ <<E.ents[i].w>> \o E.ents[i].v = saved[i]
                                    /\ E.ents[i].dim = Len(saved[i]) - 1
                                    /\ E.ents[i].norm
         /\ UNCHANGED <<words, vals, saved>>
\* P19: saving to a destination that takes only part of the output
TSaveTo == /\ Is("SaveTo")
           /\ (E.err # "") = E.lost
           /\ E.prefix
           /\ E.err = "" => E.accepted = E.total
           /\ UNCHANGED <<words, vals, saved>>
\* P20: loading lines of known kinds; failat = 0: the source does not fail
TLoad == /\ Is("Load")
         /\ IF P!LoadOk(E.kinds, E.failat)
            THEN E.err = "" /\ E.ents = [i \in DOMAIN P!LoadEntries(E.kinds) |-> E.content[P!LoadEntries(E.kinds)[i]]]
            ELSE E.err # "" /\ E.ents = <<>>
         /\ UNCHANGED <<words, vals, saved>>
\* a searcher needs equal dimensions
TSearcher == /\ Is("NewSearcher")
             /\ (E.err = "") = (Cardinality({E.dims[i] : i \in DOMAIN E.dims}) <= 1)
             /\ E.created = (E.err = "")
             /\ UNCHANGED <<words, vals, saved>>
TraceSpec == TraceInit /\ [][TGiven \/ TSave \/ TBack \/ TSaveTo \/ TLoad \/ TSearcher]_<<l, words, vals, saved>>
TraceDone == PrintT(<<"@ACCEPTED", TLCGet("stats").diameter - 1>>)
=============================================================================
