------------------------------ MODULE GradDefs ------------------------------
(* The update rules of the models, in numbers. W: own vectors, C: context   *)
(* vectors (rows of word id + 1), as sequences of Fixed numbers.            *)
EXTENDS Fixed
Val(x) == CHOOSE y \in {x} : TRUE              \* evaluate once

(* Negative sampling: x is trained against the picks <<word, label>>.       *)
\* wrong: a defect to be refuted ("none" in the real rule)
OneStep(st, x, row, label, lr, wrong) ==
    LET y == st.M[row]
        g == Mul(lr, Sub(IF label = 1 THEN One ELSE Nought, Sigmoid(Dot(y, x))))
        h == IF wrong = "sign" THEN Neg(g) ELSE g
        y2 == AddVec(y, Scaled(h, x))
    IN [M |-> [st.M EXCEPT ![row] = y2], tmp |-> AddVec(st.tmp, Scaled(h, IF wrong = "fresh" THEN y2 ELSE y))]
ZeroVec(x) == [i \in DOMAIN x |-> Nought]
OptNS(M, x, target, picks, lr, wrong) ==
    FoldLeft(LAMBDA st, p : Val(OneStep(st, x, p + 1, 0, lr, wrong)),
             Val(OneStep([M |-> M, tmp |-> ZeroVec(x)], x, target + 1, 1, lr, wrong)),
             SelectSeq(picks, LAMBDA p : p # target))

(* Hierarchical softmax: path is <<node, code>> from the root; the label of *)
(* a node is 1 when the path takes code 0. Beyond the range of the sigmoid  *)
(* table a node gives no gradient; the walk may end there.                  *)
Range6 == 6 * S
RECURSIVE OptHS(_, _, _, _, _, _)
OptHS(st, x, path, i, lr, sat) ==      \* the set of possible results; sat: "stop" or "skip" beyond the range
    IF i >= Len(path) THEN {st}
    ELSE LET n == path[i][1] inner == Val(Dot(st.M[n], x))
             sure == ~IsUnknown(inner) /\ AbsF(inner[1]) + inner[2] < Range6
             out == ~IsUnknown(inner) /\ AbsF(inner[1]) - inner[2] > Range6
         IN (IF out THEN {} ELSE OptHS(Val(OneStep(st, x, n, 1 - path[i + 1][2], lr, "none")), x, path, i + 1, lr, sat))
            \cup (IF sure THEN {} ELSE IF sat = "stop" THEN {st} ELSE OptHS(st, x, path, i + 1, lr, sat))

(* GloVe: v1, v2 with biases b1, b2; f: logarithm of the value, co: weight. *)
GloveDiff(v1, v2, b1, b2, f, co, lr) == Mul(Mul(co, lr), Sub(Add(Dot(v1, v2), Add(b1, b2)), f))
\* AdaGrad: the accumulated squares of a vector
Squares(g, t) == [i \in DOMAIN g |-> Add(g[i], Mul(t[i], t[i]))]
Rooted(t, g) == [i \in DOMAIN t |-> Div(t[i], Sqrt(g[i]))]
SubVec(a, b) == [i \in DOMAIN a |-> Sub(a[i], b[i])]

(* LexVec: rows of one matrix; v1 may be the same row as v2.                *)
LexUpdate(M, r1, r2, f, lr) ==
    LET d == Mul(lr, Sub(Dot(M[r1], M[r2]), f))
        t1 == Val(Scaled(d, M[r2])) t2 == Val(Scaled(d, M[r1]))
    IN LET M1 == [M EXCEPT ![r1] = SubVec(@, t1)] IN [M1 EXCEPT ![r2] = SubVec(@, t2)]
=============================================================================
