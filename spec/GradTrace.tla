------------------------------ MODULE GradTrace ------------------------------
(* Validation of whole trainings in numbers: one worker, one share, constant *)
(* rate. An event gives the configuration, the text, the initial and the     *)
(* final vectors; the model's update rules, with any radius at every         *)
(* position and any draws, have to lead from one to the other.               *)
EXTENDS GradDefs, TrainDefs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
Idle == [ph |-> "idle"]
TraceInit == l = 1 /\ st = Idle /\ TLCSet(1, 0)
E == Trace[l]
Vecs(m) == [i \in DOMAIN m |-> [k \in DOMAIN m[i] |-> <<m[i][k], 1>>]]
Lr == <<E.lr, 0>>

LnS(k) == LET p == LogPpm[k] IN <<(((p * 256) \div 1000) * 1024) \div 1000, 6>>    \* ln k
\* quarter powers of f / x below 1
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN S ELSE UMul(x, Power(x, n - 1))
Coef(f, scale, xmax, quarters) ==
    IF f >= xmax * scale \/ quarters = 0 THEN One ELSE <<Power(USqrt(USqrt(UDiv(f, xmax * scale))), quarters), 60>>

Begin ==
    /\ st.ph = "idle" /\ l <= Len(Trace) /\ E.ev = "Grad"
    /\ \E ws \in {Norm(E.text, E.lower, E.low)} : \E d \in {DictOf(ws)} : \E is \in {IdsOf(d, ws)} :
       \E doc \in {Eligible(d, is, E.max, E.min)} : \E V \in {Len(d.words)} :
       \E sat \in (IF E.model = "word2vec" /\ E.opt = "hs" THEN {"stop", "skip"} ELSE {"-"}) :
       \E later \in (IF E.model = "lexvec" /\ E.rel \in {"pmi", "ppmi"} /\ E.smooth4 # 4 THEN BOOLEAN ELSE {TRUE}) :
       \E co \in {IF E.model = "word2vec" THEN <<>> ELSE CoocMat(is, V, E.window, E.ctype)} :
          /\ Len(E.w0) = V /\ Len(E.c0) = V
          /\ st' = [ph |-> "run", it |-> 1, pos |-> 1, todo |-> {}, doc |-> doc, v |-> V, n |-> Len(is), freq |-> d.freq, co |-> co, sat |-> sat, later |-> later,
                    W |-> Vecs(E.w0),
                    C |-> IF E.model = "word2vec" /\ E.opt = "hs" THEN [k \in 1..E.nodes |-> [i \in 1..E.dim |-> Nought]] ELSE Vecs(E.c0),
                    \* GloVe: items left in this iteration; biases; accumulated squares (own, context; vectors and biases)
                    items |-> IF E.model = "glove" THEN {<<a, b>> \in (1..V) \X (1..V) : a <= b /\ co[a][b] > 0} ELSE {},
                    B |-> IF E.model = "glove" THEN <<[i \in 1..V |-> <<E.b0[1][i], 8>>], [i \in 1..V |-> <<E.b0[2][i], 8>>]>> ELSE <<>>,
                    Q |-> IF E.model = "glove" /\ E.solver = "adagrad" THEN LET q == [i \in 1..V |-> [k \in 1..(E.dim + 1) |-> One]] IN <<q, q>> ELSE <<>>]
    /\ UNCHANGED l

\* too far out for these numbers to say anything: the rest of the training is not followed
Wide == LET w(m) == \E i \in DOMAIN m : \E k \in DOMAIN m[i] : m[i][k][2] > S IN w(st.W) \/ w(st.C)
Run == st.ph = "run" /\ ~Wide /\ UNCHANGED l
More == st.it <= E.iters
Picks == [1..E.ns -> 0..(st.v - 1)]
Share == [p \in DOMAIN st.doc |-> 1]

(* word2vec and LexVec walk the text. *)
Walks == E.model # "glove"
Step == IF st.pos < Len(st.doc) THEN [st EXCEPT !.pos = @ + 1] ELSE [st EXCEPT !.pos = 1, !.it = @ + 1]
\* one position with its radius; contexts are then taken one by one (CBOW: at once)
NextPos == /\ Run /\ Walks /\ More /\ st.todo = {}
           /\ IF st.doc = <<>> THEN st' = [st EXCEPT !.it = @ + 1]
              ELSE /\ E.model = "lexvec" \/ E.kind = "skipgram"
                   /\ \E r \in 1..E.window : LET near == Near(Share, st.pos, r) IN
                        IF near = {} THEN st' = Step ELSE st' = [st EXCEPT !.todo = near]
Done(s) == IF s.todo # {} THEN s ELSE IF s.pos < Len(s.doc) THEN [s EXCEPT !.pos = @ + 1] ELSE [s EXCEPT !.pos = 1, !.it = @ + 1]
Results(x, target) ==
    IF E.opt = "hs" THEN OptHS([M |-> st.C, tmp |-> ZeroVec(x)], x, CutPath(E.paths[target + 1], E.depth), 1, Lr, st.sat)
    ELSE {OptNS(st.C, x, target, p, Lr, "none") : p \in Picks}
\* skip-gram: contexts in the order of the text
SkipGram == /\ Run /\ E.model = "word2vec" /\ st.todo # {}
            /\ LET q == Min(st.todo) c == st.doc[q] + 1 IN
               \E r \in Results(st.W[c], st.doc[st.pos]) :
                  st' = Done([st EXCEPT !.todo = @ \ {q}, !.C = r.M, !.W[c] = AddVec(@, r.tmp)])
Cbow == /\ Run /\ E.model = "word2vec" /\ E.kind = "cbow" /\ More /\ st.doc # <<>>
        /\ \E rad \in 1..E.window :
           \E near \in {NearSeq(Share, st.pos, rad)} :
           \E agg \in {FoldLeft(LAMBDA a, q : AddVec(a, st.W[st.doc[q] + 1]), [i \in 1..E.dim |-> Nought], near)} :
           \E r \in Results(agg, st.doc[st.pos]) :
              st' = Done([st EXCEPT !.C = r.M, !.W = FoldLeft(LAMBDA w, q : [w EXCEPT ![st.doc[q] + 1] = AddVec(@, r.tmp)], @, near)])
\* LexVec: target of a pair of words
Target(a, b) ==
    LET f == CoocAt(st.co, a, b) IN
    CASE E.rel = "co" -> Exact(f * S)
      [] f = 0 -> Nought
      [] E.rel = "logco" -> LnS(f)
      [] OTHER -> LET s == IF st.later = (a < b) THEN b + 1 ELSE a + 1         \* the smoothed word
                      r == a + b + 2 - s
                      x == Add(Sub(LnS(f), LnS(st.freq[r])), Mul(Exact(E.smooth4 * (S \div 4)), Sub(LnS(st.n), LnS(st.freq[s])))) IN
                  IF E.rel = "ppmi" /\ x[1] < 0 THEN <<0, x[2]>> ELSE x
Both(s) == s.W \o s.C
Lex == /\ Run /\ E.model = "lexvec" /\ st.todo # {}
       /\ LET q == Min(st.todo) t == st.doc[st.pos] IN
          \E picks \in Picks :
          \E M \in {FoldLeft(LAMBDA m, p : Val(LexUpdate(m, t + 1, st.v + p + 1, Target(t, p), Lr)),
                             Val(LexUpdate(Both(st), t + 1, st.doc[q] + 1, Target(t, st.doc[q]), Lr)), picks)} :
             st' = Done([st EXCEPT !.todo = @ \ {q}, !.W = SubSeq(M, 1, st.v), !.C = SubSeq(M, st.v + 1, 2 * st.v)])

(* GloVe: the items of an iteration in any order; each trains own on context *)
(* and context on own.                                                       *)
GloveOne(s, a, b, f, co) ==       \* own a with context b
    LET d == Val(GloveDiff(s.W[a], s.C[b], s.B[1][a], s.B[2][b], f, co, Lr))
        t1 == Val(Scaled(d, s.C[b])) t2 == Val(Scaled(d, s.W[a]))
    IN IF E.solver = "sgd"
       THEN [s EXCEPT !.W[a] = SubVec(@, t1), !.C[b] = SubVec(@, t2), !.B[1][a] = Sub(@, d), !.B[2][b] = Sub(@, d)]
       ELSE LET k == E.dim + 1
                q1 == Val(Squares(SubSeq(s.Q[1][a], 1, E.dim), t1)) q2 == Val(Squares(SubSeq(s.Q[2][b], 1, E.dim), t2))
                g1 == s.Q[1][a][k] g2 == s.Q[2][b][k]
            IN [s EXCEPT !.W[a] = SubVec(@, Rooted(t1, q1)), !.C[b] = SubVec(@, Rooted(t2, q2)),
                         \* biases: divided by what has been accumulated before this step
                         !.B[1][a] = Sub(@, Div(d, Sqrt(g1))), !.B[2][b] = Sub(@, Div(d, Sqrt(g2))),
                         !.Q[1][a] = Append(q1, Add(g1, Mul(d, d))), !.Q[2][b] = Append(q2, Add(g2, Mul(d, d)))]
Glove == /\ Run /\ E.model = "glove" /\ More
         /\ LET all == {<<a, b>> \in (1..st.v) \X (1..st.v) : a <= b /\ st.co[a][b] > 0}
                scale == Scale(E.ctype, E.window)
            IN IF all = {} THEN st' = [st EXCEPT !.it = @ + 1]
               ELSE \E i \in st.items :
                    \E f \in {Sub(LnS(st.co[i[1]][i[2]]), LnS(scale))}, co \in {Coef(st.co[i[1]][i[2]], scale, E.xmax, E.quarters)} :
                    \E s1 \in {GloveOne(st, i[1], i[2], f, co)} : \E s2 \in {GloveOne(s1, i[2], i[1], f, co)} :
                       st' = IF st.items = {i} THEN [s2 EXCEPT !.items = all, !.it = @ + 1] ELSE [s2 EXCEPT !.items = @ \ {i}]

Same(m, obs) == \A i \in DOMAIN obs : \A k \in DOMAIN obs[i] : Is_(m[i][k], obs[i][k])
Finish == /\ st.ph = "run" /\ ~More
          /\ Same(st.W, E.w) /\ (E.opt # "hs" => Same(st.C, E.c))
          /\ l' = l + 1 /\ st' = Idle
          /\ TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Lost == /\ st.ph = "run" /\ Wide
        /\ l' = l + 1 /\ st' = Idle
        /\ PrintT(<<"@LOST", l>>)
        /\ TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
TraceSpec == TraceInit /\ [][Begin \/ Lost \/ NextPos \/ SkipGram \/ Cbow \/ Lex \/ Glove \/ Finish]_<<l, st>>
TraceDone == PrintT(<<"@ACCEPTED", TLCGet(1)>>)
=============================================================================
