------------------------------- MODULE Names -------------------------------
(* Which names of models, optimizers, solvers, counting types, relations and *)
(* vector types are accepted. A training consults its names at different     *)
(* moments (construction, loading, building items, training); an unknown one *)
(* has to end it with an error whenever it is consulted.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Bad, Bug
VARIABLES stage, m, res, saves
vars == <<stage, m, res, saves>>
Known == [kind |-> {"cbow", "skipgram"}, opt |-> {"ns", "hs"}, solver |-> {"sgd", "adagrad"}, ctype |-> {"inc", "prox"},
          rel |-> {"ppmi", "pmi", "co", "logco"}, vec |-> {"single", "agg"}]
Slots == [word2vec |-> {"kind", "opt"}, glove |-> {"solver", "ctype"}, lexvec |-> {"rel"}]
\* the moment at which a name is consulted
When == [kind |-> 3, opt |-> 3, solver |-> 0, ctype |-> 1, rel |-> 2]
Texts == {"empty", "one", "words"}            \* without words, without co-occurrences, with
Values(s) == Known[s] \cup Bad \cup (IF s = "kind" THEN Known.opt ELSE IF s = "opt" THEN {"sgd"} ELSE Known.vec)
Trainings == UNION {[model : {x}, text : Texts, mode : {"mem", "stream"}, names : [Slots[x] -> UNION {Values(s) : s \in Slots[x]}]] : x \in DOMAIN Slots}
Sane(t) == \A s \in DOMAIN t.names : t.names[s] \in Values(s)
\* what the property asks for
Consulted(t, s) == s # "rel" \/ t.text = "words"
Refused(t) == \E s \in DOMAIN t.names : Consulted(t, s) /\ t.names[s] \notin Known[s]
Undecided(t) == \E s \in DOMAIN t.names : ~Consulted(t, s) /\ t.names[s] \notin Known[s]
Init == stage = 0 /\ m \in {t \in Trainings : Sane(t)} /\ res = "none" /\ saves = <<>>
Accepts(s, x) == x \in Known[s] \/ (Bug = "default" /\ s \in {"solver", "kind"}) \/ (Bug = "prefix" /\ s = "rel" /\ x = "near")
Step == /\ stage < 4 /\ res = "none"
        /\ \E bad \in {\E s \in DOMAIN m.names : When[s] = stage /\ Consulted(m, s) /\ ~Accepts(s, m.names[s])} :
              IF bad THEN res' = "error" /\ stage' = 5 ELSE stage' = stage + 1 /\ res' = (IF stage = 3 THEN "ok" ELSE res)
        /\ UNCHANGED <<m, saves>>
Save == /\ res = "ok" /\ saves = <<>>
        /\ \E v \in Known.vec \cup Bad : saves' = <<[typ |-> v, ok |-> v \in Known.vec \/ Bug = "save_any"]>>
        /\ UNCHANGED <<stage, m, res>>
Stop == (saves # <<>> \/ res = "error") /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Save \/ Stop]_vars
Verdict == (res # "none" /\ ~Undecided(m)) => (res = "error") = Refused(m)
SaveVerdict == \A i \in DOMAIN saves : saves[i].ok = (saves[i].typ \in Known.vec)
Gen == stage = 0 => PrintT("@J" \o ToJson([m |-> m, refused |-> Refused(m), open |-> Undecided(m)]))
=============================================================================
