------------------------------- MODULE PdBase -------------------------------
(* Exact integer arithmetic shared by all modules of the Peridigm specification.                *)
(* Lengths, times and forces are integers in units chosen per run ("grid units").               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a)     == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(a)     == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

(* division that must leave no remainder: a remainder means that a scenario left the grid *)
ExactDiv(a, b) == IF a % b = 0 THEN a \div b
                  ELSE Assert(FALSE, <<"scenario leaves the grid", a, b>>)

RECURSIVE SumSeqR(_, _)
SumSeqR(s, k) == IF k = 0 THEN 0 ELSE SumSeqR(s, k-1) + s[k]
SumSeq(s) == SumSeqR(s, Len(s))

RECURSIVE SumOver(_, _)
(* sum of f[x] over the finite set S *)
SumOver(S, f) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)

MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
Range(s)  == { s[i] : i \in DOMAIN s }

(* floor of the square root *)
ISqrt(n) == LET RECURSIVE F(_, _)
                F(lo, hi) == IF lo >= hi THEN lo
                             ELSE LET m == (lo + hi + 1) \div 2
                                  IN IF m * m <= n THEN F(m, hi) ELSE F(lo, m - 1)
            IN F(0, Min2(n, 46340))

(* vectors of three integers *)
VAdd(a, b) == << a[1]+b[1], a[2]+b[2], a[3]+b[3] >>
VSub(a, b) == << a[1]-b[1], a[2]-b[2], a[3]-b[3] >>
VScale(k, a) == << k*a[1], k*a[2], k*a[3] >>
VNeg(a) == << -a[1], -a[2], -a[3] >>
Dot(a, b)  == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross(a, b) == << a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1] >>
Norm2(a)   == Dot(a, a)
Dist2(a, b) == Norm2(VSub(a, b))
VZero == <<0, 0, 0>>

(* ---- expressions: the abstract syntax of the functions of x, y, z, t that decks contain ---- *)
(*  <<"num", k>>  <<"x">> <<"y">> <<"z">> <<"t">>  <<"add", a, b>>  <<"sub", a, b>>             *)
(*  <<"mul", k, a>> (k an integer)   <<"if", "lt"|"le"|"gt", a, b, then, else>>                 *)
(*  <<"when", rel, a, b, then>>: assigns only when the condition holds; else the value is 0     *)
(*  <<"quad", d, a>>: a*a/d for exact division                                                   *)
Rel(r, a, b) == CASE r = "lt" -> a < b [] r = "le" -> a <= b [] r = "gt" -> a > b [] r = "ge" -> a >= b
RECURSIVE Eval(_, _, _)
Eval(e, pos, t) ==
  CASE e[1] = "num" -> e[2]
    [] e[1] = "x"   -> pos[1]
    [] e[1] = "y"   -> pos[2]
    [] e[1] = "z"   -> pos[3]
    [] e[1] = "t"   -> t
    [] e[1] = "add" -> Eval(e[2], pos, t) + Eval(e[3], pos, t)
    [] e[1] = "sub" -> Eval(e[2], pos, t) - Eval(e[3], pos, t)
    [] e[1] = "mul" -> e[2] * Eval(e[3], pos, t)
    [] e[1] = "quad" -> LET a == Eval(e[3], pos, t) IN ExactDiv(a * a, e[2])
    [] e[1] = "if"  -> IF Rel(e[2], Eval(e[3], pos, t), Eval(e[4], pos, t))
                       THEN Eval(e[5], pos, t) ELSE Eval(e[6], pos, t)
    [] e[1] = "when" -> IF Rel(e[2], Eval(e[3], pos, t), Eval(e[4], pos, t))
                        THEN Eval(e[5], pos, t) ELSE 0
=============================================================================
