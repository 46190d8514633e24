------------------------------ MODULE Console ------------------------------
(* A console session: a cursor (two operands and a vector) that each line    *)
(* fills and that is reset afterwards. Lines are records: kind, x, y.        *)
EXTENDS SearchDefs, Json
CONSTANTS Items,          \* sequence of vectors; words are 1..Len(Items), word 0 is unknown
          K, MaxLines, Bug
VARIABLES phase,          \* "prompt", "eval", "reset", "end"
          line,           \* the line being evaluated
          ex, vec,        \* cursor
          hist,           \* lines so far
          shown, status
vars == <<phase, line, ex, vec, hist, shown, status>>
Words == 0..Len(Items)
Zero == [i \in DOMAIN Items[1] |-> 0]
Add(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Sub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Lines == {[kind |-> "empty", x |-> 0, y |-> 0], [kind |-> "exit", x |-> 0, y |-> 0]} \cup
         [kind : {"word"}, x : Words, y : {0}] \cup [kind : {"add", "sub", "times"}, x : Words, y : Words] \cup
         {[kind |-> "junk", x |-> 0, y |-> 0]}
Nothing == [msg |-> FALSE, asked |-> FALSE, q |-> Zero, out |-> {}]
Message == [Nothing EXCEPT !.msg = TRUE]
Ask(q, out) == [msg |-> FALSE, asked |-> TRUE, q |-> q, out |-> out]
\* what a line means, whatever came before it
Meaning(l) == CASE l.kind \in {"empty", "exit"} -> Nothing
                [] l.kind = "word" -> (IF l.x = 0 THEN Message ELSE Ask(Items[l.x], {l.x}))
                [] l.kind \in {"times", "junk"} -> Message
                [] OTHER -> (IF l.x = 0 \/ l.y = 0 THEN Message
                             ELSE Ask((IF l.kind = "add" THEN Add(Items[l.x], Items[l.y]) ELSE Sub(Items[l.x], Items[l.y])), {l.x, l.y}))
Init == phase = "prompt" /\ line = [kind |-> "empty", x |-> 0, y |-> 0] /\ ex = {} /\ vec = Zero /\ hist = <<>> /\ shown = <<>> /\ status = -1
\* the next line, or the end of input
Read == /\ phase = "prompt" /\ Len(hist) < MaxLines
        /\ \E n \in Lines :
           /\ line' = n /\ hist' = Append(hist, n)
           /\ CASE n.kind = "exit" -> phase' = "end" /\ status' = 0 /\ UNCHANGED shown
                [] n.kind = "empty" -> phase' = "prompt" /\ shown' = Append(shown, Nothing) /\ UNCHANGED status
                [] OTHER -> phase' = "eval" /\ UNCHANGED <<shown, status>>
        /\ UNCHANGED <<ex, vec>>
Eof == phase = "prompt" /\ phase' = "end" /\ status' = (IF Bug = "eof_error" THEN 1 ELSE 0) /\ UNCHANGED <<line, ex, vec, hist, shown>>
Show(x) == shown' = Append(shown, x) /\ phase' = "reset"
\* operands are looked up left to right; each has to exist before the cursor is used
Eval ==
    /\ phase = "eval"
    /\ CASE line.kind = "junk" -> Show(Message) /\ UNCHANGED <<ex, vec>>
         [] line.kind = "word" -> Show(IF line.x = 0 THEN Message
                                       ELSE Ask(Items[line.x], {line.x} \cup (IF Bug = "no_reset" THEN ex ELSE {}))) /\ UNCHANGED <<ex, vec>>
         [] OTHER ->
            IF line.x = 0 \/ (line.y = 0 /\ Bug # "right_unchecked") THEN Show(Message) /\ UNCHANGED <<ex, vec>>
            ELSE LET b == IF line.y = 0 THEN Zero ELSE Items[line.y]
                     w == {line.x, line.y} \ {0} IN
                 /\ ex' = (IF Bug = "no_reset" THEN ex \cup w ELSE w)
                 /\ vec' = (CASE line.kind = "sub" -> Sub(Items[line.x], b) [] OTHER -> Add(Items[line.x], b))
                 /\ Show(IF line.kind = "times" THEN Message ELSE Ask(vec', ex'))
    /\ UNCHANGED <<line, hist, status>>
Reset == phase = "reset" /\ phase' = "prompt" /\ (IF Bug = "no_reset" THEN UNCHANGED <<ex, vec>> ELSE ex' = {} /\ vec' = Zero)
         /\ UNCHANGED <<line, hist, shown, status>>
Done == phase = "end" /\ UNCHANGED vars
Spec == Init /\ [][Read \/ Eof \/ Eval \/ Reset \/ Done]_vars /\ WF_vars(Eof \/ Eval \/ Reset)
\* P23
Alone == \A i \in DOMAIN shown : shown[i] = Meaning(hist[i])
EndsWell == phase = "end" => status = 0 /\ Len(shown) = Len(hist) - (IF hist # <<>> /\ hist[Len(hist)].kind = "exit" THEN 1 ELSE 0)
NoExitInside == \A i \in 1..(Len(hist) - 1) : hist[i].kind # "exit"
Ends == <>(phase = "end")
\* sessions, with what the specification lets each line show
Gen == phase = "end" => PrintT("@J" \o ToJson([lines |-> hist, means |-> [i \in DOMAIN shown |->
                          [msg |-> shown[i].msg, asked |-> shown[i].asked, lev |-> Levels(shown[i].q, Items),
                           out |-> SetToSeq(shown[i].out)]]]))
=============================================================================
