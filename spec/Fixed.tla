------------------------------- MODULE Fixed -------------------------------
(* Interval arithmetic in fixed point, total within TLC's 32-bit integers.  *)
(* A number is <<v, e>>: the true value lies within e of v, both in units   *)
(* of 2^-18. e = Big: nothing is known (the value is out of range).         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
S == 262144
Big == 536870912
AbsF(x) == IF x < 0 THEN -x ELSE x
Min2F(a, b) == IF a < b THEN a ELSE b
Unknown == <<0, Big>>
Num(v, e) == IF e >= Big \/ v >= Big \/ v <= -Big THEN Unknown ELSE <<v, e>>
IsUnknown(x) == x[2] >= Big
Exact(v) == <<v, 0>>
Nought == <<0, 0>>
One == <<S, 0>>

\* product of magnitudes 0..Big, rounded down, at most Big
UMul(a, b) ==
    LET a1 == a \div 32768 b1 == b \div 32768 hi == a1 * b1 IN
    IF hi >= 131072 THEN Big
    ELSE LET a0 == a % 32768 b0 == b % 32768 IN Min2F(Big, hi * 4096 + (a1 * b0 + a0 * b1) \div 8 + (a0 * b0) \div S)
\* quotient of magnitudes, b > 0
RECURSIVE Digits(_, _, _, _)
Digits(q, r, b, k) == IF k = 0 THEN q ELSE IF q >= 8388608 THEN Big ELSE Digits(q * 64 + (r * 64) \div b, (r * 64) % b, b, k - 1)
UDiv(a, b) == IF b >= 33554432 THEN (IF a < b THEN (a \div 64) \div (b \div 16777216) ELSE Big)     \* only for b < 2^25
              ELSE Min2F(Big, Digits(a \div b, a % b, b, 3))

Sgn(a, b) == IF (a < 0) # (b < 0) THEN -1 ELSE 1
Add(x, y) == IF IsUnknown(x) \/ IsUnknown(y) THEN Unknown ELSE Num(x[1] + y[1], x[2] + y[2])
Neg(x) == <<-x[1], x[2]>>
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) ==
    IF IsUnknown(x) \/ IsUnknown(y) THEN Unknown
    ELSE LET a == AbsF(x[1]) b == AbsF(y[1]) IN
         Num(Sgn(x[1], y[1]) * UMul(a, b),
             (IF y[2] = 0 THEN 0 ELSE UMul(a, y[2]) + 1) + (IF x[2] = 0 THEN 0 ELSE UMul(b, x[2]) + 1) + (IF x[2] = 0 \/ y[2] = 0 THEN 0 ELSE UMul(x[2], y[2]) + 1) + 1)
\* y at least one quarter
Div(x, y) ==
    IF IsUnknown(x) \/ IsUnknown(y) \/ y[1] - y[2] < S \div 4 \/ y[1] >= 33554432 THEN Unknown
    ELSE LET q == UDiv(AbsF(x[1]), y[1]) IN
         Num(Sgn(x[1], y[1]) * q, UDiv(Min2F(Big, x[2] + UMul(q, y[2]) + 2), y[1] - y[2]) + 2)
\* square root of a magnitude, by Newton's iteration from above
RECURSIVE Newton(_, _, _)
Newton(a, y, k) == IF k = 0 \/ y = 0 THEN y ELSE LET z == (y + UDiv(a, y)) \div 2 IN IF z >= y THEN y ELSE Newton(a, z, k - 1)
USqrt(a) == IF a = 0 THEN 0 ELSE Newton(a, IF a < S THEN S ELSE a, 40)
\* at least one quarter
Sqrt(x) == IF IsUnknown(x) \/ x[1] - x[2] < S \div 4 \/ x[1] >= 33554432 THEN Unknown ELSE Num(USqrt(x[1]), x[2] + 3)

\* e^-x for a magnitude x: e^-k for whole k, and a series for the fraction
ExpNeg == <<262144, 96437, 35477, 13051, 4801, 1766, 650, 239, 88, 32, 12, 4, 2, 1>>
UExpNeg(x) ==
    LET k == x \div S f == x % S
        \* 1 - f(1 - f/2(1 - f/3(...)))
        series == FoldLeft(LAMBDA acc, n : S - UMul(f, acc) \div n, S, <<11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>)
    IN IF k >= Len(ExpNeg) THEN 0 ELSE UMul(ExpNeg[k + 1], series)
\* the logistic function, as exact as a table of 1000 entries between -6 and 6
TableError == 850
Sigmoid(x) ==
    IF IsUnknown(x) THEN <<S \div 2, S \div 2 + TableError>>
    ELSE IF AbsF(x[1]) - x[2] > 6 * S THEN (IF x[1] < 0 THEN Nought ELSE One)        \* beyond the table
    ELSE LET p == UDiv(S, S + UExpNeg(AbsF(x[1]))) IN
         <<IF x[1] < 0 THEN S - p ELSE p, Min2F(S, x[2] \div 4 + 1) + TableError>>

Dot(a, b) == FoldLeft(LAMBDA s, i : Add(s, Mul(a[i], b[i])), Nought, [i \in DOMAIN a |-> i])
AddVec(a, b) == [i \in DOMAIN a |-> Add(a[i], b[i])]
Scaled(g, a) == [i \in DOMAIN a |-> Mul(g, a[i])]
\* may a number observed (rounded to a unit) be x?
Is_(x, obs) == IsUnknown(x) \/ AbsF(x[1] - obs) <= x[2] + 2
=============================================================================
