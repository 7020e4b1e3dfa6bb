------------------------------ MODULE PdTangent ------------------------------
(* The tangent of a body: the derivative of the force on every component of every point with respect   *)
(* to every component of every point.  The force a point's family exerts depends on that family only,  *)
(* so a point r contributes to the entries (a, b) with a and b in its closed family.  Rows belong to   *)
(* the rank that owns the point.  The components whose motion is prescribed are decoupled from the     *)
(* others: their rows and columns are zero except for a nonzero diagonal.                              *)
EXTENDS PdBase
Closed(fam, r) == {r} \cup Range(fam[r])
Coupled(fam, a, b) == \E r \in DOMAIN fam : {a, b} \subseteq Closed(fam, r)
(* what the solver has to see of an entry with derivative d *)
Decoupled(fixed, i, j, k, d) ==
  IF i \in fixed \/ j \in fixed THEN IF i = j THEN k # 0 ELSE k = 0 ELSE k = d
=============================================================================
