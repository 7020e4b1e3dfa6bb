------------------------------- MODULE PdSim --------------------------------
(* Explicit dynamics.  All quantities are integers in grid units: lengths in U, times in T,      *)
(* velocities in U/T, body forces in 2*U*rho/T^2 where rho is the unit of density, so that half  *)
(* a step of m time units changes the velocity by m * force \div density.                        *)
(*                                                                                               *)
(* A deck d is a record                                                                          *)
(*   pts, blk, entries, filters, omit : the mesh (PdMesh); an entry also has                     *)
(*        den : density         dmg : number of its damage model, 0 for none                     *)
(*   dmg     : damage models, each an expression of time: the critical stretch in 1/256          *)
(*   dal     : their thermal expansion coefficients in 1/256 per degree                          *)
(*   conds   : conditions in the order of the deck: [kind, set, comp, expr]                      *)
(*        kind "idisp" | "ivel" | "itemp": at the start    "pdisp" | "ptemp" | "bforce": always   *)
(*   solvers : [t0, tf, m]: initial and final time, time step; kind = "rest" for a quasi-static  *)
(*             solver whose tolerance accepts any state: only prescribed components move         *)
(*   outs    : output requests [freq, first, last, fields]                                       *)
(*   contact : [on, radius, reach, freq, w]: contact radius, search radius, search frequency, and *)
(*             the stiffness weight of every entry                                               *)
(*   vol     : volumes                                                                           *)
EXTENDS PdMesh

Comps == 1..3
Zeros(d) == [ p \in Pts(d) |-> <<0, 0, 0>> ]
EntryAt(d, p) == d.entries[EntryOf(d, d.blk[p])]

(* --- conditions ------------------------------------------------------------------------------ *)
CondsOn(d, kind, p, c) ==
  { i \in DOMAIN d.conds : d.conds[i].kind = kind /\ d.conds[i].comp = c /\ p \in Range(d.conds[i].set) }
HasCond(d, kind, p, c) == CondsOn(d, kind, p, c) # {}
(* the last condition of the deck wins *)
CondValue(d, kind, p, c, t, otherwise) ==
  LET S == CondsOn(d, kind, p, c)
  IN IF S = {} THEN otherwise ELSE Eval(d.conds[MaxSet(S)].expr, d.pts[p], t)
Vector3(f(_)) == << f(1), f(2), f(3) >>

(* --- families -------------------------------------------------------------------------------- *)
Families(d) == [ p \in Pts(d) |-> Family(d, p) ]

(* --- damage ---------------------------------------------------------------------------------- *)
Position(d, u, p) == VAdd(d.pts[p], u[p])
(* (|y| - |x|)/|x| > n/256 *)
OverStretched(d, u, p, q, n) ==
  \/ 256 + n < 0
  \/ 65536 * Dist2(Position(d, u, p), Position(d, u, q)) > (256 + n) * (256 + n) * Dist2(d.pts[p], d.pts[q])
(* what the warming of the point itself explains is not stretch *)
BreaksNow(d, fam, u, p, t, dT) ==
  LET k == EntryAt(d, p).dmg
  IN IF k = 0 THEN {}
     ELSE LET n == Eval(d.dmg[k], VZero, t) + d.dal[k] * dT[p] IN { q \in fam[p] : OverStretched(d, u, p, q, n) }
BreakBonds(d, fam, broken, u, t, dT) == [ p \in Pts(d) |-> broken[p] \cup BreaksNow(d, fam, u, p, t, dT) ]

(* --- contact --------------------------------------------------------------------------------- *)
SearchPairs(d, fam, u) ==
  IF ~d.contact.on THEN [ p \in Pts(d) |-> {} ]
  ELSE [ p \in Pts(d) |-> { q \in Pts(d) \ ({p} \cup fam[p]) :
           Dist2(Position(d, u, p), Position(d, u, q)) <= d.contact.reach * d.contact.reach } ]
(* force on p from q in 1/100 units, for weight 1 and volume 1 *)
RepelOne(d, u, p, q) ==
  LET dv == VSub(Position(d, u, p), Position(d, u, q))
      d2 == Norm2(dv)
      dm == ISqrt(d2 * 1000000)
  IN IF d2 >= d.contact.radius * d.contact.radius THEN VZero
     ELSE [ c \in Comps |-> (Sgn(dv[c]) * ((((d.contact.radius * 1000 - dm) * Abs(dv[c]) * 100) + dm \div 2) \div dm)) ]
ContactWeight(d, pairs, p, q) ==
  (IF q \in pairs[p] THEN EntryAt(d, p).cw ELSE 0) + (IF p \in pairs[q] THEN EntryAt(d, q).cw ELSE 0)
RECURSIVE SumContact(_, _, _, _, _)
SumContact(d, pairs, u, p, S) ==
  IF S = {} THEN <<0, 0, 0, 0>>
  ELSE LET q == CHOOSE x \in S : TRUE
           w == ContactWeight(d, pairs, p, q) * d.vol[q]
           f == RepelOne(d, u, p, q)
           r == SumContact(d, pairs, u, p, S \ {q})
       IN << r[1] + w*f[1], r[2] + w*f[2], r[3] + w*f[3], r[4] + w >>
(* <<x, y, z, sum of weights>>: the weights bound the rounding of the integer computation *)
ContactForce(d, s, p) ==
  SumContact(d, s.pairs, s.u, p, { q \in Pts(d) : q \in s.pairs[p] \/ p \in s.pairs[q] })

(* --- the machine ------------------------------------------------------------------------------ *)
NSteps(sv) == (sv.tf - sv.t0) \div sv.m
BodyForce(d, t) == [ p \in Pts(d) |-> Vector3(LAMBDA c : CondValue(d, "bforce", p, c, t, 0)) ]
HalfKick(d, ext) == [ p \in Pts(d) |-> Vector3(LAMBDA c : ExactDiv(ext[p][c], EntryAt(d, p).den)) ]

(* after initialization, before any solver *)
Loaded(d) ==
  LET fam == Families(d)
      u0 == [ p \in Pts(d) |-> Vector3(LAMBDA c : CondValue(d, "idisp", p, c, 0, 0)) ]
  IN [ fam |-> fam, u |-> u0,
       v |-> [ p \in Pts(d) |-> Vector3(LAMBDA c : CondValue(d, "ivel", p, c, 0, 0)) ],
       a |-> Zeros(d), ext |-> Zeros(d), t |-> 0,
       broken |-> [ p \in Pts(d) |-> {} ],
       temp |-> [ p \in Pts(d) |-> CondValue(d, "itemp", p, 1, 0, 0) ],
       dtemp |-> [ p \in Pts(d) |-> 0 ],
       pairs |-> SearchPairs(d, fam, u0),
       ph |-> 0, k |-> 0, count |-> 0 ]

Resting(sv) == "kind" \in DOMAIN sv /\ sv.kind = "rest"
(* solver number ph+1 starts: forces are evaluated where the state is, unless it is quasi-static *)
Begin(d, s) ==
  LET sv == d.solvers[s.ph + 1]
      ext == BodyForce(d, sv.t0)
  IN [ s EXCEPT !.ph = @ + 1, !.k = 0, !.t = sv.t0, !.ext = ext, !.a = HalfKick(d, ext),
                !.broken = IF Resting(sv) THEN @ ELSE BreakBonds(d, s.fam, s.broken, s.u, sv.t0, s.dtemp),
                !.v = IF Resting(sv) THEN Zeros(d) ELSE @,
                !.temp = [ p \in Pts(d) |-> CondValue(d, "ptemp", p, 1, sv.t0, s.temp[p]) ],
                !.count = @ + 1 ]

Prescribed(d, p, c) == HasCond(d, "pdisp", p, c)
Step(d, s) ==
  LET sv == d.solvers[s.ph]
      m == sv.m
      t1 == sv.t0 + (s.k + 1) * m
      vh == [ p \in Pts(d) |-> Vector3(LAMBDA c :
                IF Prescribed(d, p, c) THEN ExactDiv(CondValue(d, "pdisp", p, c, t1, 0) - s.u[p][c], m)
                ELSE IF Resting(sv) THEN 0 ELSE s.v[p][c] + m * s.a[p][c]) ]
      u1 == [ p \in Pts(d) |-> Vector3(LAMBDA c : s.u[p][c] + m * vh[p][c]) ]
      ext == BodyForce(d, t1)
      a1 == HalfKick(d, ext)
      dT == [ p \in Pts(d) |-> IF HasCond(d, "ptemp", p, 1)
                               THEN CondValue(d, "ptemp", p, 1, t1, 0) - CondValue(d, "ptemp", p, 1, 0, 0)
                               ELSE s.dtemp[p] ]
  IN [ s EXCEPT !.k = @ + 1, !.t = t1, !.u = u1, !.ext = ext, !.a = a1,
                !.v = IF Resting(sv) THEN vh ELSE [ p \in Pts(d) |-> Vector3(LAMBDA c : vh[p][c] + m * a1[p][c]) ],
                !.broken = BreakBonds(d, s.fam, s.broken, u1, t1, dT),
                !.temp = [ p \in Pts(d) |-> CondValue(d, "ptemp", p, 1, t1, s.temp[p]) ],
                !.dtemp = dT,
                !.pairs = IF d.contact.on /\ (s.k + 1) % d.contact.freq = 0 THEN SearchPairs(d, s.fam, s.u) ELSE @,
                !.count = @ + 1 ]

SolverDone(d, s) == s.ph = 0 \/ s.k = NSteps(d.solvers[s.ph])
AllDone(d, s) == SolverDone(d, s) /\ s.ph = Len(d.solvers)
Advance(d, s) == IF SolverDone(d, s) THEN Begin(d, s) ELSE Step(d, s)

(* --- output ----------------------------------------------------------------------------------- *)
(* request o writes the count-th state (the first is the initial state of the first solver) iff   *)
Due(o, count) == /\ o.freq > 0 /\ (count - 1) % o.freq = 0
                 /\ count >= o.first /\ (o.last < 0 \/ count <= o.last + 1)
NodeVectors == { "Displacement", "Velocity", "Coordinates", "Model_Coordinates",
                 "External_Force_Density", "Force_Density", "Contact_Force_Density",
                 "Linear_Momentum", "Angular_Momentum" }
NodeScalars == { "Temperature", "Temperature_Change" }
ElemScalars == { "Damage", "Volume", "Number_Of_Neighbors", "Neighborhood_Volume", "Element_Id", "Horizon", "Proc_Num",
                 "Kinetic_Energy" }
NodalNames(o) == { f \o x : f \in Range(o.fields) \cap NodeVectors, x \in {"X", "Y", "Z"} }
                 \cup (Range(o.fields) \cap NodeScalars)
ElemTensors == { "Deformation_Gradient" }
ElemNames(o) == (Range(o.fields) \cap ElemScalars)
                \cup { f \o a \o b : f \in Range(o.fields) \cap ElemTensors, a, b \in {"X", "Y", "Z"} }
(* deformation gradient F of a family: F * Shape = Moved; F is a sequence of rows *)
BondTensor(d, fam, p, a(_)) ==
  [ i \in Comps |-> [ k \in Comps |-> SumOver(fam[p], [ q \in fam[p] |-> d.vol[q] * a(q)[i] * (d.pts[q][k] - d.pts[p][k]) ]) ] ]
Shape(d, fam, p) == BondTensor(d, fam, p, LAMBDA q : VSub(d.pts[q], d.pts[p]))
Moved(d, fam, u, p) == BondTensor(d, fam, p, LAMBDA q : VSub(Position(d, u, q), Position(d, u, p)))
(* F given in 1/1000 by rows XX, XY, .. ZZ *)
IsGradient(d, fam, u, p, F) ==
  LET K == TLCEval(Shape(d, fam, p))
      S == TLCEval(Moved(d, fam, u, p))
  IN \A i, k \in Comps :
       Abs(SumOver(Comps, [ j \in Comps |-> F[3 * (i - 1) + j] * K[j][k] ]) - 1000 * S[i][k]) <= SumOver(Comps, [ j \in Comps |-> Abs(K[j][k]) ])
=============================================================================
