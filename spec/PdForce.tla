------------------------------- MODULE PdForce -------------------------------
(* Internal forces of the elastic materials, in integers of fixed resolution.                       *)
(* A body is a mesh (PdMesh) with  vol : volumes,  infl : influence function, and entries with       *)
(*   mat : "lps" (ordinary state-based) | "bb" (bond-based) | "bbp" (bond-based, plane, height hgt)   *)
(*   K, mu : moduli     al : thermal expansion in 1/256     crit : critical stretch in 1/256 (0: none)*)
(*   dal : thermal expansion known to the damage model, in 1/256                                    *)
(* A configuration is y (positions), dT (temperature changes) and the set of broken bonds <<p, q>>.  *)
(* Resolutions: lengths 10^-3, influence 10^-4, weighted volume 10^-3, dilatation 10^-5,             *)
(* force densities 10^-7, energies 10^-5.                                                           *)
EXTENDS PdMesh

MulDivP(a, b, c) == (a \div c) * b + ((a % c) * b) \div c
MulDiv(a, b, c) == IF a < 0 THEN -MulDivP(-a, b, c) ELSE MulDivP(a, b, c)

(* a * 10^5 / c *)
Over5P(a, c) == LET r == (a % c) * 100
                    s == (r % c) * 100
                IN (a \div c) * 100000 + (r \div c) * 1000 + (s \div c) * 10 + ((s % c) * 10) \div c
Over5(a, c) == IF a < 0 THEN -Over5P(-a, c) ELSE Over5P(a, c)

Len2(d2) == LET s == ISqrt(d2 * 1000000)                       \* nearest 1/1000
            IN IF d2 * 1000000 - s * s > s THEN s + 1 ELSE s
Length(u, v) == Len2(Dist2(u, v))

(* --- influence functions ------------------------------------------------------------------------ *)
RECURSIVE ExpNeg(_, _, _)
(* sum of (-x)^k / k! with x in 10^-4 (x below 10^4) *)
ExpNeg(x, k, term) == IF k > 9 THEN 0 ELSE term + ExpNeg(x, k + 1, -MulDiv(term, x, 10000 * (k + 1)))
Sq4(a) == (a * a) \div 10000
Influence(f, d2, R, h) ==
  CASE f = "One" -> 10000
    [] f = "Parabolic Decay" -> IF d2 > h * h THEN 0 ELSE IF 4 * d2 < h * h THEN 10000
                                ELSE (40 * R) \div h - (40000 * d2) \div (h * h)
    [] f = "Gaussian" -> LET x == (d2 * 62500) \div (h * h)    \* (zeta / (0.4 h))^2, quartered below
                         IN Sq4(Sq4(Sq4(ExpNeg(x \div 8, 0, 10000))))
    [] f = "Inverse" -> MulDiv(h * 1000, 10000, R)            \* horizon / zeta
    [] f = "Linear" -> 10000 - (R * 5) \div h                  \* 1 - zeta / (2 horizon)

(* families, entries and horizons of all points are worked out once *)
Prepared(m) == m @@ [ fam |-> TLCEval([ p \in Pts(m) |-> Family(m, p) ]), en |-> TLCEval([ p \in Pts(m) |-> EntryOfPoint(m, p) ]),
                      hz |-> TLCEval([ p \in Pts(m) |-> Horizon(m, p) ]) ]
En(m, p) == m.en[p]
Lps(m, p) == En(m, p).mat = "lps"

(* --- everything about one bond of p's family --------------------------------------------------- *)
Bond(m, y, dT, broken, p, q) ==
  LET d2 == Dist2(m.pts[p], m.pts[q])
      R == Len2(d2)
      L == Length(y[p], y[q])
      h == m.hz[p]
  IN [ R |-> R, L |-> L, d2 |-> d2, w |-> Influence(m.infl, d2, R, h), v |-> m.vol[q], on |-> <<p, q>> \notin broken,
       e |-> L - R - MulDiv(R * En(m, p).al, dT[p], 256) ]
Bonds(m, y, dT, broken, p) == TLCEval([ q \in m.fam[p] |-> TLCEval(Bond(m, y, dT, broken, p, q)) ])

(* weighted volume: over the whole family, broken or not *)
WVol(B) == SumOver(DOMAIN B, [ q \in DOMAIN B |-> B[q].w * B[q].d2 * B[q].v ]) \div 10
(* extension-weighted sum, and with every extension replaced by x *)
Ext(B, x) == SumOver(DOMAIN B, [ q \in DOMAIN B |-> IF B[q].on THEN MulDiv((B[q].R * (IF x = 0 THEN B[q].e ELSE x)) \div 100, B[q].w, 10000) * B[q].v ELSE 0 ])
ExtAbs(B) == SumOver(DOMAIN B, [ q \in DOMAIN B |-> IF B[q].on THEN MulDiv((B[q].R * Abs(B[q].e)) \div 100, B[q].w, 10000) * B[q].v ELSE 0 ])
Dil(S, W) == IF W = 0 THEN 0 ELSE Over5(3 * S, W) \div 10
(* of one point: bonds, weighted volume, dilatation and its uncertainty *)
Slack == 3                                                      \* uncertainty of an extension, 10^-3
State(m, y, dT, broken, p) ==
  LET B == TLCEval(Bonds(m, y, dT, broken, p))
      W == IF Lps(m, p) THEN WVol(B) ELSE 1
      th == IF Lps(m, p) THEN Dil(Ext(B, 0), W) ELSE 0
      dth == IF Lps(m, p) THEN Abs(Dil(Ext(B, Slack), W)) + Dil(ExtAbs(B), W) \div 200 + 2 ELSE 0
  IN TLCEval([ B |-> B, W |-> W, th |-> th, dth |-> dth ])

(* scalar force state of the bond p->q, and its uncertainty, 10^-7 *)
Pull(m, s, p, q) ==
  LET b == s[p].B[q]
      en == En(m, p)
      h == m.hz[p]
      bb(e) == IF en.mat = "bb" THEN MulDiv(MulDiv(e, 10000, b.R) * en.K * 2865, 100, h * h * h * h)
               ELSE MulDiv(MulDiv(e, 10000, b.R) * en.K * 1910, 100, h * h * h * en.hgt)
      lps(th, e, c) == MulDiv(Over5(c * MulDiv(th, b.R, 1000) + 1500 * en.mu * e, s[p].W), b.w, 10000)
  IN IF ~b.on THEN [ t |-> 0, u |-> 0 ]
     ELSE IF en.mat # "lps" THEN LET t == bb(b.L - b.R) IN [ t |-> t, u |-> Abs(bb(Slack)) + Abs(t) \div 200 ]
     ELSE LET t == lps(s[p].th, b.e, 3 * en.K - 5 * en.mu)
          IN [ t |-> t, u |-> Abs(lps(s[p].dth, Slack, Abs(3 * en.K - 5 * en.mu))) + Abs(lps(s[p].th, 0, Abs(3 * en.K - 5 * en.mu))) \div 200
                              + Abs(lps(0, b.e, 0)) \div 200 + 1 ]

(* force density of p: its own bonds and the reactions of the bonds that end in p *)
Mutual(m, s, p) == DOMAIN s[p].B \cup { q \in Pts(m) : p \in DOMAIN s[q].B }
Nothing == [ t |-> 0, u |-> 0 ]
Along(m, y, s, p, q) ==
  LET a == TLCEval(IF q \in DOMAIN s[p].B THEN Pull(m, s, p, q) ELSE Nothing)
      b == TLCEval(IF p \in DOMAIN s[q].B THEN Pull(m, s, q, p) ELSE Nothing)
      L == TLCEval(IF q \in DOMAIN s[p].B THEN s[p].B[q].L ELSE s[q].B[p].L)
  IN [ t |-> a.t + b.t, u |-> a.u + b.u, d |-> TLCEval([ c \in 1..3 |-> Sgn(y[q][c] - y[p][c]) * ((Abs(y[q][c] - y[p][c]) * 10000000) \div L) ]) ]
Force(m, y, s, p) ==
  LET A == TLCEval([ q \in Mutual(m, s, p) |-> TLCEval(Along(m, y, s, p, q)) ])
  IN [ c \in 1..3 |-> [ f |-> SumOver(DOMAIN A, [ q \in DOMAIN A |-> MulDiv(A[q].t, A[q].d[c], 10000) * m.vol[q] ]),
                        u |-> SumOver(DOMAIN A, [ q \in DOMAIN A |-> (MulDiv(A[q].u, Abs(A[q].d[c]), 10000) + Abs(A[q].t) \div 2000 + 2) * m.vol[q] ]) + 5 ] ]

(* stored energy density of the state-based law, 10^-5 *)
Deviator(b, th) == b.e - MulDiv(th, b.R, 1000) \div 300
Energy(m, s, p) ==
  LET en == En(m, p)
      B == s[p].B
      th == s[p].th
      on == { q \in DOMAIN B : B[q].on }
      sq(x, w) == MulDiv((x * x) \div 1000, w, 10000)
      dev == SumOver(on, [ q \in on |-> sq(Deviator(B[q], th), B[q].w) * B[q].v ])
      ddev == SumOver(on, [ q \in on |-> LET k == Slack + 2 + MulDiv(s[p].dth, B[q].R, 1000) \div 300
                                         IN (sq(Abs(Deviator(B[q], th)) + k, B[q].w) - sq(Deviator(B[q], th), B[q].w) + 2) * B[q].v ])
      part(x) == IF s[p].W = 0 THEN 0 ELSE Over5((15 * en.mu * x) \div 2, s[p].W)
      vl(x) == LET k == Abs(x) \div 10 IN (en.K * ((k * k) \div 1000)) \div 2
  IN [ e |-> vl(th) + part(dev), u |-> vl(Abs(th) + s[p].dth) - vl(th) + part(ddev) + (vl(th) + part(dev)) \div 250 + 5 ]

(* --- bonds break at a critical stretch of the block that owns them ------------------------------ *)
Overstretched(m, y, dT, p, q) ==
  LET en == En(m, p)
      k == 256 + en.crit + en.dal * dT[p]
  IN en.crit # 0 /\ (k <= 0 \/ 65536 * Dist2(y[p], y[q]) > k * k * Dist2(m.pts[p], m.pts[q]))
Break(m, y, dT, broken) == broken \cup { pq \in Pts(m) \X Pts(m) : pq[2] \in m.fam[pq[1]] /\ Overstretched(m, y, dT, pq[1], pq[2]) }
=============================================================================
