------------------------------ MODULE Softmax ------------------------------
(* Hierarchical softmax over a small text: every step walks the path of the *)
(* trained word in a given tree. The radius is arbitrary.                   *)
EXTENDS TrainDefs, Json
CONSTANTS MaxLen, Window, Depths, Kinds, Shape, Bug
VARIABLES doc, kind, depth, pos, st, used
vars == <<doc, kind, depth, pos, st, used>>
\* trees by paths <<node, code>>; leaves are nodes too
Trees == [two |-> <<<<<<1, 0>>, <<2, 0>>>>, <<<<1, 0>>, <<3, 1>>>>>>,
          three |-> <<<<<<1, 0>>, <<2, 0>>, <<4, 0>>>>, <<<<1, 0>>, <<2, 0>>, <<5, 1>>>>, <<<<1, 0>>, <<3, 1>>>>>>,
          four |-> <<<<<<1, 0>>, <<2, 0>>, <<4, 0>>>>, <<<<1, 0>>, <<2, 0>>, <<5, 1>>>>, <<<<1, 0>>, <<3, 1>>, <<6, 0>>>>, <<<<1, 0>>, <<3, 1>>, <<7, 1>>>>>>,
          chain |-> <<<<<<1, 0>>, <<2, 0>>>>, <<<<1, 0>>, <<3, 1>>, <<4, 0>>>>, <<<<1, 0>>, <<3, 1>>, <<5, 1>>, <<6, 0>>>>, <<<<1, 0>>, <<3, 1>>, <<5, 1>>, <<7, 1>>>>>>]
Paths == Trees[Shape]
V == Len(Paths)
Nodes == 2 * V - 1
\* the defects change the path that is walked
Walk(t, c) ==
    CASE Bug = "context_path" -> Paths[c + 1]
      [] Bug = "skip_root" -> Tail(Paths[t + 1])
      [] Bug = "own_code" -> [i \in DOMAIN Paths[t + 1] |-> <<Paths[t + 1][i][1], Paths[t + 1][Max2(1, i - 1)][2]>>]
      [] Bug = "flipped" -> [i \in DOMAIN Paths[t + 1] |-> <<Paths[t + 1][i][1], 1 - Paths[t + 1][i][2]>>]
      [] OTHER -> Paths[t + 1]
Deep == IF Bug = "ignore_depth" THEN 0 ELSE IF Bug = "one_short" /\ depth > 0 THEN depth - 1 ELSE depth
Train1(s, t, cs) == HTrain(s, 0, cs, <<Walk(t, Head(cs))>>, Deep)
Init == /\ doc \in UNION {[1..n -> 0..(V - 1)] : n \in 0..MaxLen} /\ kind \in Kinds /\ depth \in Depths
        /\ pos = 1 /\ st = HInit(V, Nodes) /\ used = {}
Step(r) ==
    /\ pos <= Len(doc)
    /\ \E cs \in {[k \in DOMAIN NearSeq([p \in DOMAIN doc |-> 1], pos, r) |-> doc[NearSeq([p \in DOMAIN doc |-> 1], pos, r)[k]]]} :
          /\ st' = (IF cs = <<>> THEN st ELSE IF kind = "cbow" THEN Train1(st, doc[pos], cs) ELSE FoldLeft(LAMBDA s, c : Train1(s, doc[pos], <<c>>), st, cs))
          /\ used' = (IF cs = <<>> THEN used ELSE used \cup {doc[pos]})
    /\ pos' = pos + 1 /\ UNCHANGED <<doc, kind, depth>>
Next == (\E r \in 1..Window : Step(r)) \/ (pos > Len(doc) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* P28: only the inner nodes of the (cut) paths of trained words change, and all of those do
Touched(x) == \E j \in 1..V : st.nabs[x][j] # 0
OnPath == \A x \in 1..Nodes : Touched(x) <=> \E t \in used : \E i \in 1..(Len(CutPath(Paths[t + 1], depth)) - 1) : Paths[t + 1][i][1] = x
\* ... towards the branch: with only one trained word so far, each node moved along the contexts in the direction of the word's code
Toward == \A t \in used : used = {t} =>
             \A i \in 1..(Len(CutPath(Paths[t + 1], depth)) - 1) : \A j \in 1..V :
                 st.node[Paths[t + 1][i][1]][j] = (1 - 2 * Paths[t + 1][i + 1][2]) * st.nabs[Paths[t + 1][i][1]][j]
\* at radius 1 the observed function of the trace specification
Accepted == (pos > Len(doc) /\ Window = 1) => st = HAll(kind, doc, [p \in DOMAIN doc |-> 1], Paths, depth, V, Nodes, 1)
=============================================================================
