----------------------------- MODULE SplitTrace -----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES l, n, t, idx
M == INSTANCE Split WITH MaxN <- 0, MaxT <- 1, Bug <- "none"
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ n = 0 /\ t = 1 /\ idx = <<0>>
\* one call of the splitter: the result becomes the model's finished split
TSplit == /\ l <= Len(Trace) /\ Trace[l].ev = "Split" /\ l' = l + 1
          /\ n' = Trace[l].n /\ t' = Trace[l].t /\ idx' = Trace[l].bounds
          /\ M!IsSplit(n', t', idx')
TraceSpec == TraceInit /\ [][TSplit]_<<l, n, t, idx>>
TraceDone == PrintT(<<"@ACCEPTED", TLCGet("stats").diameter - 1>>)
=============================================================================
