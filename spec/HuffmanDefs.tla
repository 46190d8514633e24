---------------------------- MODULE HuffmanDefs ----------------------------
(* Trees are given by parent links: nodes 1..n are the leaves (word i-1),   *)
(* further nodes are inner nodes. node = [p |-> parent or 0, c |-> branch   *)
(* code, v |-> weight, d |-> vector dimension, z |-> vector is zero,        *)
(* k |-> <<child with code 0, child with code 1>> or <<>>].                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

\* the minimum weighted depth over all binary trees, by brute force over all ways to split the leaves
RECURSIVE OptCost(_, _)
OptCost(S, f) ==
    IF Cardinality(S) <= 1 THEN 0
    ELSE LET m == CHOOSE x \in S : TRUE
             w == FoldSet(LAMBDA x, a : a + f[x], 0, S)
         IN w + Min({OptCost(A \cup {m}, f) + OptCost(S \ (A \cup {m}), f) : A \in (SUBSET (S \ {m})) \ {S \ {m}}})

\* the cost of repeatedly merging the two lightest: sorted leaves and a queue of merged weights
MergeCost(f) ==
    LET n == Len(f)
        s == SortSeq(f, <)
        \* the next lightest: from the leaves (index i) or from the merged ones (index j of q)
        leaf(st) == st.i <= n /\ (st.j > Len(st.q) \/ s[st.i] <= st.q[st.j])
        take(st) == IF leaf(st) THEN [st EXCEPT !.i = @ + 1, !.x = s[st.i]] ELSE [st EXCEPT !.j = @ + 1, !.x = st.q[st.j]]
        step(st, k) == LET a == take(st) IN LET b == take(a) IN
                       [b EXCEPT !.q = Append(@, a.x + b.x), !.cost = @ + a.x + b.x]
    IN FoldLeft(step, [i |-> 1, j |-> 1, q |-> <<>>, x |-> 0, cost |-> 0], [k \in 1..(IF n = 0 THEN 0 ELSE n - 1) |-> k]).cost

\* root-to-leaf path of a leaf, by parent links (at most bound nodes)
RECURSIVE Up(_, _, _)
Up(nodes, x, bound) == IF x = 0 \/ bound = 0 THEN <<>> ELSE Append(Up(nodes, nodes[x].p, bound - 1), x)
PathOf(nodes, leaf) == Up(nodes, leaf, Len(nodes) + 1)
Cut(path, depth) == IF depth > 0 /\ depth < Len(path) THEN SubSeq(path, 1, depth) ELSE path

\* one full binary tree over exactly these leaves
IsTree(nodes, f, dim) ==
    LET n == Len(f) IN
    /\ Len(nodes) = (IF n = 0 THEN 0 ELSE 2 * n - 1)
    /\ \A i \in 1..n : nodes[i].v = f[i] /\ nodes[i].k = <<>>
    /\ Cardinality({i \in DOMAIN nodes : nodes[i].p = 0}) = (IF n = 0 THEN 0 ELSE 1)
    /\ \A i \in (n + 1)..Len(nodes) :
          /\ Len(nodes[i].k) = 2
          /\ LET a == nodes[i].k[1] b == nodes[i].k[2] IN
             /\ a # b /\ a \in DOMAIN nodes /\ b \in DOMAIN nodes
             /\ nodes[a].p = i /\ nodes[b].p = i /\ nodes[a].c = 0 /\ nodes[b].c = 1
             /\ nodes[i].v = nodes[a].v + nodes[b].v
          /\ nodes[i].d = dim /\ nodes[i].z
    /\ \A i \in DOMAIN nodes : nodes[i].p # 0 => nodes[i].p \in (n + 1)..Len(nodes)
\* the sum over inner nodes of their weights is the frequency-weighted depth
Cost(nodes, n) == Sum([i \in 1..(Len(nodes) - n) |-> nodes[n + i].v])
WeightedDepth(nodes, f) == Sum([i \in DOMAIN f |-> f[i] * (Len(PathOf(nodes, i)) - 1)])
=============================================================================
