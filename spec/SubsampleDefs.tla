--------------------------- MODULE SubsampleDefs ---------------------------
(* The subsampling rule: an occurrence of a word of frequency f is trained  *)
(* with probability max(0, 1 - sqrt(threshold / f)), each on its own.       *)
EXTENDS Fixed
\* the probability in 1/4096; thr in 1/1024, below 2^20
ProbOf(thr, f) == LET r == (thr * 256) \div f IN IF thr >= 1024 * f THEN 0 ELSE (S - USqrt(r)) \div 64
\* may k be the weighted number of successes? n: the sum of the weights, n2: of their squares, top: the largest
CountOK(k, n, n2, top, z) ==
    LET mean == (n * z) \div 4096 
        slack == 6 * top + n \div 800 + mean \div 100 + 2
        d == Min2F(20000, AbsF(k - mean) - slack)
        v == (n2 * ((z * (4096 - z)) \div 4096)) \div 4096 + 1
    IN d <= 0 \/ d * d <= 36 * v
=============================================================================
