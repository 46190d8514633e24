---------------------------- MODULE HuffmanTrace ----------------------------
EXTENDS HuffmanDefs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tree
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
TraceInit == l = 1 /\ tree = <<>>
\* a tree was built (nodes numbered by the driver); building it again gave the same tree
TTree == /\ Is("Tree")
         /\ IsTree(E.nodes, E.freq, E.dim)
         /\ \E c \in {MergeCost(E.freq)} : Cost(E.nodes, Len(E.freq)) = c
         /\ E.again = TRUE
         /\ tree' = E.nodes
\* a tree whose shape is not in question here
TGiven == Is("Given") /\ tree' = E.nodes
\* lookups on that tree, in any interleaving: <<word, depth, path>>
TPaths == /\ Is("Paths")
          /\ \A i \in DOMAIN E.lookups : LET q == E.lookups[i] IN q[3] = Cut(PathOf(tree, q[1] + 1), q[2])
          /\ UNCHANGED tree
TraceSpec == TraceInit /\ [][TTree \/ TGiven \/ TPaths]_<<l, tree>>
TraceDone == PrintT(<<"@ACCEPTED", TLCGet("stats").diameter - 1>>)
=============================================================================
