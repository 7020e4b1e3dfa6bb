------------------------------ MODULE PdCompute ------------------------------
(* Quantities computed from the state for output.  A deck lists them in d.comps:                 *)
(*   [kind |-> "block", label, var, calc, block]   minimum, maximum or sum over a block          *)
(*   [kind |-> "set", label, var, calc, set]       the same over a node set                      *)
(*   [kind |-> "near", label, var, at]             the value at the point nearest to at/2; the   *)
(*                                                 lowest id among equally near ones              *)
(*   [kind |-> "body", label]                      kinetic energy and momenta of the whole body  *)
(* Masses are in units of density times volume, energies in half a mass unit times a squared     *)
(* velocity unit.                                                                                *)
EXTENDS PdSim

Mass(d, p) == EntryAt(d, p).den * d.vol[p]
VarAt(d, st, var, p) ==
  CASE var = "Displacement" -> st.u[p]
    [] var = "Velocity" -> st.v[p]
    [] var = "Coordinates" -> Position(d, st.u, p)
    [] var = "Model_Coordinates" -> d.pts[p]
    [] var = "External_Force_Density" -> st.ext[p]
    [] var = "Volume" -> d.vol[p]
    [] var = "Number_Of_Neighbors" -> Cardinality(st.fam[p])
    [] var = "Kinetic_Energy" -> Mass(d, p) * Norm2(st.v[p])
    [] var = "Linear_Momentum" -> VScale(Mass(d, p), st.v[p])
    [] var = "Angular_Momentum" -> VScale(Mass(d, p), Cross(st.v[p], Position(d, st.u, p)))
VectorVars == { "Displacement", "Velocity", "Coordinates", "Model_Coordinates", "External_Force_Density" }

Reduce(calc, S, f) ==
  CASE calc = "Minimum" -> MinSet({ f[p] : p \in S })
    [] calc = "Maximum" -> MaxSet({ f[p] : p \in S })
    [] calc = "Sum" -> SumOver(S, f)
ReduceVar(d, st, var, calc, S) ==
  IF var \in VectorVars
  THEN [ c \in Comps |-> Reduce(calc, S, [ p \in S |-> VarAt(d, st, var, p)[c] ]) ]
  ELSE Reduce(calc, S, [ p \in S |-> VarAt(d, st, var, p) ])

Twice(x) == VScale(2, x)
Nearest(d, at) ==
  LET near == { p \in Pts(d) : \A q \in Pts(d) : Dist2(Twice(d.pts[p]), at) <= Dist2(Twice(d.pts[q]), at) }
  IN MinSet(near)

Total(d, f) == [ c \in Comps |-> SumOver(Pts(d), [ p \in Pts(d) |-> f[p][c] ]) ]
(* the length of a vector, where obs is its rounded length in the same units *)
IsLength(obs, w) ==
  LET big == MaxSet({ Abs(w[c]) : c \in Comps })
      s == 1 + big \div 15000
      n == ISqrt(Norm2([ c \in Comps |-> Abs(w[c]) \div s ]))
  IN IF s = 1 THEN obs \in {n, n + 1} ELSE Abs(obs \div s - n) <= 2

ComputeMatches(d, st, k, obs) ==
  CASE k.kind = "block" -> obs = ReduceVar(d, st, k.var, k.calc, { p \in Pts(d) : d.blk[p] = k.block })
    [] k.kind = "set" -> obs = ReduceVar(d, st, k.var, k.calc, Range(k.set))
    [] k.kind = "near" -> obs = VarAt(d, st, k.var, Nearest(d, k.at))
    [] k.kind = "body" ->
         CASE k.label = "Global_Kinetic_Energy" -> obs = SumOver(Pts(d), [ p \in Pts(d) |-> VarAt(d, st, "Kinetic_Energy", p) ])
           [] k.label = "Global_Linear_Momentum" ->
                IsLength(obs, Total(d, [ p \in Pts(d) |-> VarAt(d, st, "Linear_Momentum", p) ]))
           [] k.label = "Global_Angular_Momentum" ->
                IsLength(obs, Total(d, [ p \in Pts(d) |-> VarAt(d, st, "Angular_Momentum", p) ]))
VectorCompute(k) == k.kind # "body" /\ k.var \in VectorVars
CompsOf(d, o) == { i \in DOMAIN d.comps : d.comps[i].label \in Range(o.fields) }
GlobalNames(d, o) ==
  UNION { IF VectorCompute(d.comps[i]) THEN { d.comps[i].label \o x : x \in {"X", "Y", "Z"} } ELSE { d.comps[i].label }
          : i \in CompsOf(d, o) }
=============================================================================
