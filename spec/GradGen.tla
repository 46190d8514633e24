------------------------------ MODULE GradGen ------------------------------
(* All small trainings of every model: the configurations that GradTrace    *)
(* then decides in numbers.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxLen, V
VARIABLES doc, conf
vars == <<doc, conf>>
\* texts in the order of first appearance: a word is at most one above those before it
RECURSIVE Canon(_, _)
Canon(d, seen) == IF d = <<>> THEN TRUE ELSE Head(d) <= seen + 1 /\ Canon(Tail(d), IF Head(d) > seen THEN Head(d) ELSE seen)
Docs == {d \in UNION {[1..n -> 1..V] : n \in 0..MaxLen} : Canon(d, 0)}
Confs ==
    [model : {"word2vec"}, kind : {"skipgram", "cbow"}, opt : {"ns"}, ns : {0, 1}, window : {1, 2}, iters : {1, 2}, lr : {4, 64}, depth : {0}, rel : {"co"}, solver : {"sgd"}, ctype : {"inc"}, xmax : {1}]
    \cup [model : {"word2vec"}, kind : {"skipgram", "cbow"}, opt : {"hs"}, ns : {0}, window : {1, 2}, iters : {1, 2}, lr : {4, 64}, depth : {0, 1, 2}, rel : {"co"}, solver : {"sgd"}, ctype : {"inc"}, xmax : {1}]
    \cup [model : {"lexvec"}, kind : {"skipgram"}, opt : {"ns"}, ns : {0, 1}, window : {1, 2}, iters : {1, 2}, lr : {2}, depth : {0}, rel : {"co", "logco", "pmi", "ppmi"}, solver : {"sgd"}, ctype : {"inc"}, xmax : {1}]
    \cup [model : {"glove"}, kind : {"skipgram"}, opt : {"ns"}, ns : {0}, window : {1, 2}, iters : {1, 2}, lr : {2}, depth : {0}, rel : {"co"}, solver : {"sgd", "adagrad"}, ctype : {"inc", "prox"}, xmax : {1, 3}]
Init == doc \in Docs /\ conf \in Confs
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Gen == PrintT("@J" \o ToJson([doc |-> doc, conf |-> conf]))
=============================================================================
