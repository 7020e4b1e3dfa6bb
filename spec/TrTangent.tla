------------------------------ MODULE TrTangent ------------------------------
(* Tangents of real bodies against differences of their forces.  Components are numbered 3(p-1)+c;     *)
(* k and d are the entries of the matrix and the measured derivatives in units of a small fraction of  *)
(* the largest derivative; rows[i] lists the ranks that hold row i.  Kinds of matrix: "lib" (as        *)
(* evaluated, nothing decoupled), "nox" (as given to the nonlinear solver), "kept" (as left by the     *)
(* quasi-static solver, which solves for the negative), "block" (only the entries between components   *)
(* of one point, decoupled).                                                                           *)
EXTENDS PdTangent, Json, IOUtils
CONSTANT Slack
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, body
vars == <<l, body>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1

TInit == l = 1 /\ body = [n |-> 0]
TBody ==
  /\ IsEvent("body")
  /\ Ev.b.n = Len(Ev.b.fam)
  /\ body' = Ev.b
Point(i) == (i - 1) \div 3 + 1
Near(a, b) == Abs(a - b) <= Slack
Report(what, i, j, k, d) == PrintT(<<"MISMATCH", what, "row", i, "column", j, "tangent", k, "derivative", d>>) /\ FALSE
Owned(i) == IF Ev.rows[i] = <<Ev.own[Point(i)]>> THEN TRUE ELSE Report("row not on its rank", i, 0, Ev.rows[i], Ev.own[Point(i)])
Sign == IF Ev.kind = "kept" THEN -1 ELSE 1
Fixed == IF Ev.kind = "lib" THEN {} ELSE Range(body.fixed)
(* the diagonal of a decoupled component is scaled with the matrix, so a body without any stiffness has none *)
Stiff == \E i, j \in 1..3 * body.n : Ev.d[i][j] # 0
Entry(i, j, stiff) ==
  LET k == Ev.k[i][j]
      d == Sign * Ev.d[i][j]
      same == Point(i) = Point(j)
      right == IF i \in Fixed \/ j \in Fixed THEN Decoupled(Fixed, i, j, k, d) \/ (i = j /\ ~stiff)
               ELSE IF Ev.kind = "block" /\ ~same THEN k = 0
               ELSE Near(k, d)
  IN IF right /\ (Coupled(body.fam, Point(i), Point(j)) \/ (k = 0 /\ Ev.d[i][j] = 0)) THEN TRUE ELSE Report("entry", i, j, k, d)
TTangent ==
  /\ IsEvent("tangent")
  /\ Len(Ev.k) = 3 * body.n /\ Len(Ev.d) = 3 * body.n /\ Len(Ev.own) = body.n
  /\ \A i \in 1..3 * body.n : Owned(i)
  /\ LET stiff == Stiff IN \A i, j \in 1..3 * body.n : Entry(i, j, stiff)
  /\ UNCHANGED body
(* the force has a corner here: no derivative to compare with *)
TCorner == IsEvent("corner") /\ body.corners /\ UNCHANGED body
TNext == TBody \/ TTangent \/ TCorner
TraceSpec == TInit /\ [][TNext]_vars
TraceAccepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
