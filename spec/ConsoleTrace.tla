---------------------------- MODULE ConsoleTrace ----------------------------
(* Recorded console sessions.                                                *)
EXTENDS SearchDefs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, left, open
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
\* s: the session event (k), left: lines still to be answered, open: the session goes on
TraceInit == l = 1 /\ s = [k |-> 0] /\ left = 0 /\ open = FALSE
TSession == Is("Session") /\ s' = E /\ left' = E.lines /\ open' = TRUE
\* one line. kind: empty, exit, word, sum (a known sum or difference), other; lev and out as in SearchDefs;
\* msg: something besides a table was printed; res: <<item, rank, similarity as it should be>>; alone: the answer equals
\* that of the same line in a session of its own
TLine == /\ Is("Line") /\ open /\ left > 0
         /\ CASE E.kind \in {"word", "sum"} ->
                 /\ ~E.msg
                 /\ IsAnswer(E.lev, {E.out[i] : i \in DOMAIN E.out}, s.k, [i \in DOMAIN E.res |-> E.res[i][1]])
                 /\ \A i \in DOMAIN E.res : E.res[i][2] = i /\ E.res[i][3]
              [] E.kind = "other" -> E.msg /\ E.res = <<>>
              [] E.kind = "empty" -> E.silent
              [] OTHER -> E.res = <<>>
         /\ E.alone
         /\ open' = (E.kind # "exit")
         /\ left' = left - 1 /\ UNCHANGED s
\* the end of the session: after exit, or when there are no more lines, with success
TEnd == Is("End") /\ (~open \/ left = 0) /\ E.status = 0 /\ E.clean /\ open' = FALSE /\ left' = 0 /\ UNCHANGED s
TraceSpec == TraceInit /\ [][TSession \/ TLine \/ TEnd]_<<l, s, left, open>>
TraceDone == PrintT(<<"@ACCEPTED", TLCGet("stats").diameter - 1>>)
=============================================================================
