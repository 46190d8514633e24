------------------------------ MODULE Huffman ------------------------------
(* Building the tree: stable sort of the leaves by weight, then repeatedly  *)
(* merge the two lightest and insert the merged node before the first node  *)
(* that is not lighter.                                                     *)
EXTENDS HuffmanDefs, Json
CONSTANTS MaxWords, MaxFreq, Bug
VARIABLES f, list, nodes
vars == <<f, list, nodes>>
Freqs == UNION {[1..n -> 1..MaxFreq] : n \in 0..MaxWords}
Leaf(w) == [p |-> 0, c |-> 0, v |-> w, d |-> 0, z |-> TRUE, k |-> <<>>]
SortedLeaves(ff) == SortSeq([i \in DOMAIN ff |-> i], LAMBDA a, b : ff[a] < ff[b] \/ (ff[a] = ff[b] /\ a < b))
Init == /\ f \in Freqs
        /\ nodes = [i \in DOMAIN f |-> Leaf(f[i])]
        /\ list = IF Bug = "no_sort" THEN [i \in DOMAIN f |-> i] ELSE SortedLeaves(f)
Merge ==
    /\ Len(list) > 1
    /\ LET a == list[1] b == list[2] m == Len(nodes) + 1
           w == nodes[a].v + nodes[b].v
           rest == SubSeq(list, 3, Len(list))
           lighter == SelectSeq(rest, LAMBDA x : nodes[x].v < w)
           heavier == SelectSeq(rest, LAMBDA x : nodes[x].v >= w)
       IN /\ nodes' = Append([nodes EXCEPT ![a].p = m, ![a].c = 0, ![b].p = m, ![b].c = 1],
                             [p |-> 0, c |-> 0, v |-> w, d |-> 1, z |-> TRUE, k |-> <<a, b>>])
          /\ list' = IF Bug = "append" THEN Append(rest, m) ELSE lighter \o <<m>> \o heavier
    /\ UNCHANGED f
Done == Len(list) <= 1 /\ UNCHANGED vars
Spec == Init /\ [][Merge \/ Done]_vars /\ WF_vars(Merge)
Built == Len(list) <= 1
Sorted == Bug = "none" => \A i \in 1..(Len(list) - 1) : nodes[list[i]].v <= nodes[list[i + 1]].v
Tree == Built => IsTree(nodes, f, 1)
Optimal == Built => Cost(nodes, Len(f)) = OptCost(DOMAIN f, f)
CostsAgree == Built => /\ Cost(nodes, Len(f)) = WeightedDepth(nodes, f)
                       /\ MergeCost(f) = OptCost(DOMAIN f, f)
Finishes == <>Built
Gen == Built => PrintT("@J" \o ToJson([f |-> f, cost |-> OptCost(DOMAIN f, f)]))
=============================================================================
