------------------------------ MODULE PdStable -------------------------------
(* The stable time step.  With K = k * kappa * pi/18, density den * R and volumes vol * W, lengths *)
(* in U, the square of the estimate of point p in units of R*U^5/(W*kappa) is                      *)
(*        Q(p) = 2 den h^4 / (k * sum over the family of vol/length)                               *)
(* Lengths are square roots, so Q is computed to about 1e-4 as a number <<m, e>> = m * 10^e with   *)
(* 100000 <= m < 1000000.                                                                          *)
EXTENDS PdMesh

(* 44721.36/length *)
Inverse(d2) == LET n == 2000000000 \div d2
                   r == ISqrt(n)
               IN IF r * r + r < n THEN r + 1 ELSE r
RECURSIVE Scale(_, _, _)
Scale(a, b, e) == IF a >= b THEN <<a, b, e>> ELSE Scale(10 * a, b, e - 1)
RECURSIVE Shrink(_, _)
Shrink(q, e) == IF q >= 1000000 THEN Shrink(q \div 10, e + 1) ELSE <<q, e>>
RECURSIVE Divide(_, _, _, _)
Divide(q, r, b, e) == IF q >= 100000 THEN Shrink(q, e)
                      ELSE Divide(10 * q + (10 * r) \div b, (10 * r) % b, b, e - 1)
(* a/b for 0 < a, b < 2*10^8 *)
Ratio(a, b) == LET s == Scale(a, b, 0) IN Divide(s[1] \div s[2], s[1] % s[2], s[2], s[3])
Less(x, y) == x[2] < y[2] \/ (x[2] = y[2] /\ x[1] < y[1])
Tenfold(x) == <<x[1] * 10, x[2] - 1>>
(* within d * 10^-6 relative, up to twice that *)
Agrees(x, y, d) == \/ x[2] = y[2] /\ Abs(x[1] - y[1]) * 10 <= (x[1] * d) \div 100000 + 10
                   \/ x[2] = y[2] + 1 /\ Abs(Tenfold(x)[1] - y[1]) <= d
                   \/ y[2] = x[2] + 1 /\ Abs(Tenfold(y)[1] - x[1]) <= d

Denominator(m, p) == SumOver(Family(m, p), [ q \in Family(m, p) |-> m.vol[q] * Inverse(Dist2(m.pts[p], m.pts[q])) ])
Fourth(h) == h * h * h * h
Estimate(m, p) == LET en == EntryOfPoint(m, p)
                  IN Ratio(2 * en.den * Fourth(Horizon(m, p)), en.k * Denominator(m, p))
Joint(m) == { p \in Pts(m) : Family(m, p) # {} }
(* square of the stable step; points without family do not limit it *)
Stable2(m) == LET E == { Estimate(m, p) : p \in Joint(m) } IN CHOOSE x \in E : \A y \in E : ~Less(y, x)
(* scaled with a safety factor of n quarters *)
Safe2(x, n) == LET v == (x[1] * n * n) \div 16 IN IF v >= 1000000 THEN Shrink(v, x[2]) ELSE IF v < 100000 THEN <<v * 10, x[2] - 1>> ELSE <<v, x[2]>>
=============================================================================
