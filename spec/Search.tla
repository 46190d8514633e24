------------------------------- MODULE Search -------------------------------
(* The search algorithm over one list of items: a fixed number of slots, an  *)
(* admission threshold, insertion by bubbling. Several searches run over the *)
(* same items at the same time, one item per step, in any interleaving.      *)
EXTENDS SearchDefs, Json
CONSTANTS Vecs, MaxItems, Queries, Ks, Threads, Shared, Bug
VARIABLES items, q, k, ex, pos, slots, low, done
vars == <<items, q, k, ex, pos, slots, low, done>>
\* ex[t]: item excluded by thread t (search by word), 0 for none
Items == UNION {[1..n -> Vecs] : n \in 0..MaxItems}
EffK(t) == IF k[t] > Len(items) THEN Len(items) ELSE k[t]
Empty == [item |-> 0]
Init == /\ items \in Items /\ q \in [Threads -> Queries] /\ k \in [Threads -> Ks] /\ ex \in [Threads -> 0..Len(items)]
        /\ pos = [t \in Threads |-> 0] /\ low = [t \in Threads |-> 0]
        /\ slots = [t \in Threads |-> IF k[t] <= 0 THEN <<>> ELSE [i \in 1..Min2(k[t], Len(items)) |-> 0]]
        /\ done = [t \in Threads |-> k[t] <= 0 \/ Len(items) = 0]
Own(t) == IF Shared THEN CHOOSE x \in Threads : \A y \in Threads : x <= y ELSE t      \* whose slots a thread writes
Lev(t, i) == IF i = 0 THEN 0 ELSE Levels(q[t], items)[i]
\* put item x in front of the first slot that holds a less similar item
Insert(t, s, x) ==
    LET better == {i \in DOMAIN s : Lev(t, x) > Lev(t, s[i])} IN
    IF better = {} THEN s ELSE LET i == Min(better) IN SubSeq(SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s)), 1, Len(s))
Step(t) ==
    /\ ~done[t]
    /\ LET i == pos[t] + 1 o == Own(t) IN
       /\ pos' = [pos EXCEPT ![t] = i]
       /\ done' = [done EXCEPT ![t] = i = Len(items)]
       /\ IF i # ex[t] /\ Lev(t, i) > low[t]
          THEN LET s == Insert(t, slots[o], i) IN
               /\ slots' = [slots EXCEPT ![o] = s]
               /\ low' = [low EXCEPT ![t] = IF Bug = "stale_low" THEN Lev(t, i) ELSE Lev(t, s[Len(s)])]
          ELSE UNCHANGED <<slots, low>>
    /\ UNCHANGED <<items, q, k, ex>>
Stop == (\A t \in Threads : done[t]) /\ UNCHANGED vars
Spec == Init /\ [][(\E t \in Threads : Step(t)) \/ Stop]_vars /\ \A t \in Threads : WF_vars(Step(t))
Result(t) == SelectSeq(slots[t], LAMBDA x : x # 0)
Correct == \A t \in Threads : done[t] => IsAnswer(Levels(q[t], items), {ex[t]}, k[t], Result(t))
\* after i items the slots hold the answer for the first i items
Prefix == \A t \in Threads : (~Shared /\ k[t] > 0) => IsAnswer(Levels(q[t], SubSeq(items, 1, pos[t])), {ex[t]}, EffK(t), Result(t))
Finishes == <>(\A t \in Threads : done[t])
\* generator: inputs with the levels the specification assigns
Gen == (\A t \in Threads : pos[t] = 0) =>
       LET t == CHOOSE x \in Threads : TRUE IN
       PrintT("@J" \o ToJson([items |-> items, q |-> q[t], k |-> k[t], ex |-> ex[t], lev |-> Levels(q[t], items)]))
=============================================================================
