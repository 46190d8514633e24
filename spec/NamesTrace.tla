----------------------------- MODULE NamesTrace -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
TraceInit == l = 1
Known == [kind |-> {"cbow", "skipgram"}, opt |-> {"ns", "hs"}, solver |-> {"sgd", "adagrad"}, ctype |-> {"inc", "prox"},
          rel |-> {"ppmi", "pmi", "co", "logco"}, vec |-> {"single", "agg"}]
\* names: <<slot, value>> of the model; cooc: the text has co-occurrences; by: "sdk" or "cli"
Consulted(s) == s # "rel" \/ E.cooc
Unknown(n) == n[2] \notin Known[n[1]]
Refused == \E i \in DOMAIN E.names : Consulted(E.names[i][1]) /\ Unknown(E.names[i])
Open == \E i \in DOMAIN E.names : ~Consulted(E.names[i][1]) /\ Unknown(E.names[i])
\* saves: what saving with a vector type did after a successful training; n: bytes written
SaveOk(s) == IF s.typ \in Known.vec THEN s.err = "" ELSE s.err # "" /\ s.n = 0
TNamed == /\ Is("Named")
          /\ Open \/ (E.err # "") = Refused
          /\ \A i \in DOMAIN E.saves : SaveOk(E.saves[i])
TraceSpec == TraceInit /\ [][TNamed]_l
TraceDone == PrintT(<<"@ACCEPTED", TLCGet("stats").diameter - 1>>)
=============================================================================
