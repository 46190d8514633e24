------------------------------ MODULE Gradient ------------------------------
(* One training step on a grid of vectors: it moves each of the two vectors *)
(* along the other as it was before, towards the objective; and the         *)
(* arithmetic it is specified with is sound.                                *)
EXTENDS GradDefs
CONSTANTS Grid,      \* coordinates, in quarters
          Rates,     \* learning rates, in quarters
          Kinds,     \* "pos", "neg", "glove", "lex"
          Bug
VARIABLES kind, lr, x, y, x2, y2, done
vars == <<kind, lr, x, y, x2, y2, done>>
Q(n) == Exact(n * (S \div 4))
Vecs2 == {<<Q(a), Q(b)>> : a \in Grid, b \in Grid}
Neg2(v) == [i \in DOMAIN v |-> Neg(v[i])]
Init == kind \in Kinds /\ lr \in Rates /\ x \in Vecs2 /\ y \in Vecs2 /\ x2 = x /\ y2 = y /\ done = FALSE
Goal == Exact(2 * S)     \* of GloVe and LexVec
Step == /\ ~done /\ done' = TRUE /\ UNCHANGED <<kind, lr, x, y>>
        /\ \E r \in {CASE kind = "pos" -> OneStep([M |-> <<y>>, tmp |-> ZeroVec(x)], x, 1, 1, Q(lr), Bug)
                       [] kind = "neg" -> OneStep([M |-> <<y>>, tmp |-> ZeroVec(x)], x, 1, 0, Q(lr), Bug)
                       [] kind = "lex" -> LET m == LexUpdate(<<x, y>>, 1, 2, Goal, IF Bug = "sign" THEN Neg(Q(lr)) ELSE Q(lr)) IN [M |-> <<m[2]>>, tmp |-> SubVec(m[1], x)]
                       [] kind = "glove" -> LET d == GloveDiff(x, y, Nought, Nought, Goal, One, Q(lr)) IN
                                            [M |-> <<SubVec(y, Scaled(d, x))>>, tmp |-> Neg2(Scaled(d, y))]} :
              x2' = AddVec(x, r.tmp) /\ y2' = r.M[1]
Spec == Init /\ [][Step]_vars
------------------------------------------------------------------------
Parallel(d, v) == LET z == Sub(Mul(d[1], v[2]), Mul(d[2], v[1])) IN AbsF(z[1]) <= z[2] + 8
Along == done => Parallel(SubVec(x2, x), y) /\ Parallel(SubVec(y2, y), x)
\* the same factor on both sides
Factor == done => \A i, j \in 1..2 : LET a == Mul(SubVec(x2, x)[i], x[j]) b == Mul(SubVec(y2, y)[j], y[i]) IN AbsF(a[1] - b[1]) <= a[2] + b[2] + 8
Norm2(v) == Dot(v, v)
Small == AbsF(Norm2(x)[1]) + AbsF(Norm2(y)[1]) <= 2 * S      \* with a rate of one half or less no step overshoots
Toward == done /\ lr <= 2 =>
    LET before == Dot(x, y) after == Dot(x2, y2) e == before[2] + after[2] + 8 IN
    CASE kind = "pos" -> Small => after[1] >= before[1] - e
      [] kind = "neg" -> Small => after[1] <= before[1] + e
      [] OTHER -> Small => AbsF(after[1] - 2 * S) <= AbsF(before[1] - 2 * S) + e
\* not at a standstill
Moves == done /\ x # y /\ x # Neg2(y) =>
    \A i \in 1..2 : AbsF(y[i][1]) > 0 /\ kind \in {"pos", "neg"} => x2[i][1] # x[i][1]

(* The arithmetic on the same grid of numbers.                              *)
Near_(a, b) == AbsF(a[1] - b[1]) <= a[2] + b[2] + 4
Arithmetic ==
    \A a, b \in {x[1], x[2], y[1]} :
        /\ Near_(Mul(a, b), Exact((((a[1] \div (S \div 4)) * (b[1] \div (S \div 4)) * (S \div 16)))))
        /\ Near_(Add(Sigmoid(a), Sigmoid(Neg(a))), One)
        /\ a[1] < b[1] => Sigmoid(a)[1] < Sigmoid(b)[1]
        /\ a[1] >= S \div 4 => Near_(Mul(Sqrt(a), Sqrt(a)), a) /\ Near_(Mul(Div(b, a), a), b)
        \* e^-(a+b) = e^-a e^-b
        /\ (a[1] >= 0 /\ b[1] >= 0) => AbsF(UExpNeg(a[1] + b[1]) - UMul(UExpNeg(a[1]), UExpNeg(b[1]))) <= 8
=============================================================================
