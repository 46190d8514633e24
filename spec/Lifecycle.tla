----------------------------- MODULE Lifecycle -----------------------------
(* One model object used again and again: training (which may fail), asking *)
(* for vectors, changing a returned matrix, saving. What the model holds is *)
(* written as where it comes from: the number of the training that made it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Docs, Bug
VARIABLES ops,                                   \* the history
          n,                                     \* number of trainings so far
          doc, vocab, counts, rate, vecs,        \* doc: text of the last training; the others: which trainings they come from
          mats, out                              \* returned matrices: [typ, from, dirty]; last saved content
vars == <<ops, n, doc, vocab, counts, rate, vecs, mats, out>>
Init == ops = <<>> /\ n = 0 /\ doc = 0 /\ vocab = {} /\ counts = {} /\ rate = {} /\ vecs = {} /\ mats = <<>> /\ out = <<>>
Op(o) == Len(ops) < MaxOps /\ ops' = Append(ops, o)
\* what a new training puts in place of the old
Put(old, keep) == IF Bug = keep THEN old \cup {n + 1} ELSE {n + 1}
Train(d, ok) ==
    /\ Op([op |-> IF ok THEN "train" ELSE "fail", doc |-> d]) /\ n' = n + 1 /\ doc' = d
    /\ vocab' = Put(vocab, "keep_vocab") /\ counts' = Put(counts, "keep_counts") /\ rate' = Put(rate, "keep_lr")
    /\ vecs' = (IF ok THEN Put(vecs, "keep_vectors") ELSE vecs)
    /\ UNCHANGED <<mats, out>>
Trained == n > 0 /\ vecs \ {0} = {n}
Vectors(typ) == /\ Trained /\ Op([op |-> "vectors", typ |-> typ])
                /\ mats' = Append(mats, [typ |-> typ, from |-> vecs, dirty |-> FALSE]) /\ UNCHANGED <<n, doc, vocab, counts, rate, vecs, out>>
\* a type that does not exist is refused
Refuse == /\ Trained /\ Op([op |-> "save", typ |-> "both"]) /\ UNCHANGED <<n, doc, vocab, counts, rate, vecs, mats, out>>
Scribble == /\ mats # <<>> /\ Op([op |-> "scribble", typ |-> mats[Len(mats)].typ])
            /\ mats' = [mats EXCEPT ![Len(mats)].dirty = TRUE]
            /\ vecs' = (IF Bug = "share" THEN vecs \cup {0} ELSE vecs)
            /\ UNCHANGED <<n, doc, vocab, counts, rate, out>>
Save(typ) == /\ Trained /\ Op([op |-> "save", typ |-> typ]) /\ out' = <<typ, vecs, vocab>> /\ UNCHANGED <<n, doc, vocab, counts, rate, vecs, mats>>
Done == Len(ops) = MaxOps /\ UNCHANGED vars
Next == (\E d \in 1..Docs, ok \in BOOLEAN : Train(d, ok)) \/ (\E t \in {"single", "agg"} : Vectors(t) \/ Save(t)) \/ Scribble \/ Refuse \/ Done
Spec == Init /\ [][Next]_vars
\* P27: after a successful training everything comes from it
Fresh == (ops # <<>> /\ ops[Len(ops)].op = "train") => vocab = {n} /\ counts = {n} /\ rate = {n} /\ vecs = {n}
\* P17: what is handed out and saved is the model's own, whatever was done to matrices handed out before
ExportsOwn == /\ \A i \in DOMAIN mats : mats[i].from # {} /\ 0 \notin mats[i].from
              /\ out # <<>> => 0 \notin out[2]
Gen == Len(ops) = MaxOps => PrintT("@J" \o ToJson([ops |-> ops]))
=============================================================================
