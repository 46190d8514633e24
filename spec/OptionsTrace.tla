---------------------------- MODULE OptionsTrace ----------------------------
EXTENDS OptionsDefs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, def, cur
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
Fn(s) == [x \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = x][2]]
TraceInit == l = 1 /\ def = <<>> /\ cur = <<>>
\* the same hyper-parameters, with the same defaults, on the command line and in the SDK
TDefaults == /\ Is("Defaults")
             /\ \E c \in {Fn(E.cli)} :
                /\ c = Fn(E.sdk)
                /\ {Flags[E.model][f] : f \in DOMAIN Flags[E.model]} = DOMAIN c
                /\ def' = (E.model :> c) @@ def
             /\ UNCHANGED cur
\* a training command or a list of functional options: settings in order
TBegin == Is("Begin") /\ cur' = [via |-> E.via, model |-> E.model, o |-> def[E.model]] /\ UNCHANGED def
TSet == Is("Set") /\ cur' = [cur EXCEPT !.o = Put(@, Field(cur.via, cur.model, E.name), E.val)] /\ UNCHANGED def
TGot == Is("Got") /\ E.err = "" /\ Fn(E.opts) = cur.o /\ UNCHANGED <<def, cur>>
(* What a training made with these settings does. text: word numbers, low their lower-case numbers, words: those saved, cols: number of   *)
(* values of each; out: anything was printed; iters, tuples: lines of progress (-1: not observed); num: integer value of a setting (-1: its text). *)
Num(f) == LET i == CHOOSE i \in DOMAIN E.nums : E.nums[i][1] = cur.o[f] IN E.nums[i][2]
TEffect ==
    /\ Is("Effect")
    /\ \E ok \in {\A f \in DOMAIN Typed \cap DOMAIN cur.o : cur.o[f] \in Typed[f]} :
       IF ~ok THEN E.err # ""
       ELSE /\ E.err = ""
            /\ E.words = DictOf(Norm(E.text, cur.o["ToLower"] = "true", E.low)).words
            /\ \A i \in DOMAIN E.cols : E.cols[i] = Num("Dim")
            /\ E.out = (cur.o["Verbose"] = "true")
            /\ (E.out /\ cur.model # "word2vec") => E.tuples = NPairs(Len(E.text), Num("Window"))
            /\ E.out => E.iters = Num("Iter")
    /\ UNCHANGED <<def, cur>>
TraceSpec == TraceInit /\ [][TDefaults \/ TBegin \/ TSet \/ TGot \/ TEffect]_<<l, def, cur>>
TraceDone == PrintT(<<"@ACCEPTED", TLCGet("stats").diameter - 1>>)
=============================================================================
