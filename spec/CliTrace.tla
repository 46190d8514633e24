------------------------------ MODULE CliTrace ------------------------------
(* Recorded histories of commands over a scratch directory. fs maps every    *)
(* path of the directory to "dir" or to a digest of the file's content.      *)
EXTENDS SearchDefs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fs, texts
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
TraceInit == l = 1 /\ fs = <<>> /\ texts = <<>>
\* fs and texts travel as sequences of pairs
FnOf(s) == [x \in {s[i][1] : i \in DOMAIN s} |-> (CHOOSE i \in DOMAIN s : s[i][1] = x)]
Fs(s) == LET f == FnOf(s) IN [x \in DOMAIN f |-> s[f[x]][2]]
TDir == Is("Dir") /\ fs' = Fs(E.fs) /\ texts' = Fs(E.texts)
\* what the user does himself
TUser == Is("User") /\ fs' = Fs(E.fs) /\ UNCHANGED texts
IsFile(x) == x \in DOMAIN fs /\ fs[x] # "dir"
Blocked(ps) == \E i \in DOMAIN ps : IsFile(ps[i])
\* the rest of the directory, apart from missing parents that may have been created
Same(after, out, ps) ==
    /\ \A x \in DOMAIN fs : x \in DOMAIN after /\ after[x] = fs[x]
    /\ \A x \in DOMAIN after \ DOMAIN fs : x = out \/ (after[x] = "dir" /\ \E i \in DOMAIN ps : ps[i] = x)
\* the file holds one line of dim values for each word of the vocabulary
Complete(e, dim) ==
    /\ e.sound
    /\ Len(e.words) = Cardinality(Range(e.words))
    /\ Range(e.words) = Range(texts[e.text])
    /\ \A i \in DOMAIN e.cols : e.cols[i] = dim
\* a command that has the directory for itself. outs: ancestors of the output path, room: there is space to write
CanRun(e) == e.valid /\ e.room /\ e.out \notin DOMAIN fs /\ ~Blocked(e.parents) /\ IsFile(e.inp)
TTrain == /\ Is("Train")
          /\ \E after \in {Fs(E.after)} :
             /\ IF CanRun(E)
                THEN /\ E.status = 0 /\ E.out \in DOMAIN after /\ after[E.out] # "dir" /\ Complete(E, E.dim)
                ELSE /\ E.status # 0 /\ ~E.crash /\ E.msg /\ (E.out \in DOMAIN after) = (E.out \in DOMAIN fs)
             /\ Same(after, E.out, E.parents)
             /\ fs' = after
          \* in generated histories: the outcome that the model Cli predicts
          /\ "want" \in DOMAIN E => E.want = (E.status = 0)
          /\ UNCHANGED texts
\* commands that run at the same time with the same output path and the same text; cmds: valid, dim, status, msg
TRace == /\ Is("Race")
         /\ \E after \in {Fs(E.after)} :
            /\ Same(after, E.out, E.parents)
            /\ \E won \in {{i \in DOMAIN E.cmds : E.cmds[i].status = 0}} :
               /\ Cardinality(won) <= 1
               /\ \A i \in won : E.cmds[i].valid /\ E.out \notin DOMAIN fs /\ after[E.out] # "dir" /\ Complete(E, E.cmds[i].dim)
               /\ \A i \in DOMAIN E.cmds \ won : E.cmds[i].msg /\ ~E.cmds[i].crash
               /\ won = {} => E.out \notin DOMAIN after \/ E.out \in DOMAIN fs
               \* somebody has to win, unless the way was blocked or somebody else held the path for a while
               /\ (E.out \notin DOMAIN fs /\ (\A i \in DOMAIN E.cmds : E.cmds[i].valid)) => won # {}
            /\ fs' = after
         /\ UNCHANGED texts
\* loads: the vectors can be loaded; known: the word is one of theirs; nargs: how many words were given
TQuery == /\ Is("Query")
          /\ Fs(E.after) = fs
          /\ IF IsFile(E.vec) /\ E.loads /\ E.nargs = 1 /\ E.known
             THEN /\ E.status = 0
                  /\ IsAnswer(E.lev, {E.ex[i] : i \in DOMAIN E.ex}, E.k, [i \in DOMAIN E.res |-> E.res[i][1]])
                  /\ \A i \in DOMAIN E.res : E.res[i][2] = i /\ E.res[i][3]
             ELSE E.status # 0 /\ ~E.crash /\ E.msg /\ E.res = <<>>
          /\ UNCHANGED <<fs, texts>>
TraceSpec == TraceInit /\ [][TDir \/ TUser \/ TTrain \/ TRace \/ TQuery]_<<l, fs, texts>>
TraceDone == PrintT(<<"@ACCEPTED", TLCGet("stats").diameter - 1>>)
=============================================================================
