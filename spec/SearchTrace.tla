---------------------------- MODULE SearchTrace ----------------------------
EXTENDS SearchDefs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n, ref
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
TraceInit == l = 1 /\ n = 0 /\ ref = <<>>
\* a searcher over n items
TNew == Is("Searcher") /\ n' = E.n /\ ref' = <<>>
\* P21: one search. lev: similarity levels of the items for this query (abstraction of the vectors); out: excluded
\* items; known: FALSE for a search by an unknown word; res: <<item, rank, similarity is exact>> in order
TSearch == /\ Is("Search")
           /\ IF ~E.known THEN E.err # "" /\ E.res = <<>>
              ELSE /\ E.err = ""
                   /\ IsAnswer(E.lev, {E.out[i] : i \in DOMAIN E.out}, E.k, [i \in DOMAIN E.res |-> E.res[i][1]])
                   /\ \A i \in DOMAIN E.res : E.res[i][2] = i /\ E.res[i][3]
           /\ UNCHANGED <<n, ref>>
\* P22: what each search of the plan returns when it runs alone
TAlone == Is("Alone") /\ ref' = Append(ref, E.res) /\ UNCHANGED n
\* the same search at the same time as others, or later
TConc == Is("Conc") /\ E.res = ref[E.q] /\ UNCHANGED <<n, ref>>
\* a result looked at again after everything else
THeld == Is("Held") /\ E.res = ref[E.q] /\ UNCHANGED <<n, ref>>
\* vectors and queries before and after (exact bit patterns)
TState == Is("State") /\ E.before = E.after /\ UNCHANGED <<n, ref>>
TraceSpec == TraceInit /\ [][TNew \/ TSearch \/ TAlone \/ TConc \/ THeld \/ TState]_<<l, n, ref>>
TraceDone == PrintT(<<"@ACCEPTED", TLCGet("stats").diameter - 1>>)
=============================================================================
