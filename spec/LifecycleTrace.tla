--------------------------- MODULE LifecycleTrace ---------------------------
(* What a reused model does, compared with a new one; what it hands out.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, words, own, known
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
TraceInit == l = 1 /\ words = <<>> /\ own = <<>> /\ known = <<>>
\* P27: the same settings, text and seed in a new model and in one that has been trained before
TAgain == Is("Again") /\ E.again = E.fresh /\ UNCHANGED <<words, own, known>>
\* P17: a history of one model. words, own.dim: the vocabulary and dimension of the last training; own.same: the model has
\* no context vectors. Values are opaque renderings: rows as saved, bits all of the values. known: what was first seen of each type.
\* (a training that fails leaves the vectors open; nothing is asked for until the next one)
TModel == Is("Model") /\ words' = E.words /\ own' = E /\ known' = <<>>
Typs(typ) == IF own.same THEN {"single", "agg"} ELSE {typ}
Fits(rows) == Len(rows) = Len(words) /\ \A i \in DOMAIN rows : Len(rows[i]) = own.dim
Learn(typ, rows, bits) ==
    /\ \A i \in DOMAIN known : known[i].typ \in Typs(typ) =>
          known[i].rows = rows /\ (bits = "" \/ known[i].bits = "" \/ known[i].bits = bits)
    \* single and aggregated vectors differ when there are context vectors
    /\ (~own.same /\ words # <<>>) => \A i \in DOMAIN known : known[i].typ # typ => known[i].rows # rows
    /\ known' = Append(known, [typ |-> typ, rows |-> rows, bits |-> bits])
TVectors == Is("Vectors") /\ Fits(E.rows) /\ Learn(E.typ, E.rows, E.bits) /\ UNCHANGED <<words, own>>
TScribble == Is("Scribble") /\ UNCHANGED <<words, own, known>>
\* one line per word, exactly the vectors of that type; another type is refused without writing anything
TSave == /\ Is("Save")
         /\ IF E.typ \in {"single", "agg"}
            THEN /\ E.err = "" /\ Len(E.lines) = Len(words)
                 /\ \A i \in DOMAIN words : E.lines[i][1] = words[i]
                 /\ \E rows \in {[i \in DOMAIN words |-> Tail(E.lines[i])]} : Fits(rows) /\ Learn(E.typ, rows, "")
            ELSE E.err # "" /\ E.lines = <<>> /\ UNCHANGED known
         /\ UNCHANGED <<words, own>>
TraceSpec == TraceInit /\ [][TAgain \/ TModel \/ TVectors \/ TScribble \/ TSave]_<<l, words, own, known>>
TraceDone == PrintT(<<"@ACCEPTED", TLCGet("stats").diameter - 1>>)
=============================================================================
