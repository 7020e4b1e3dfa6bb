------------------------------ MODULE TrStable -------------------------------
(* Validation of recorded runs: what the program reports as stable step, and the steps it takes.  *)
EXTENDS PdStable, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, q, n
vars == <<l, m, q, n>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
TInit == l = 1 /\ m = [none |-> TRUE] /\ q = <<>> /\ n = 0
Tol == 300
TMesh ==
  /\ IsEvent("mesh")
  /\ m' = Ev.mesh /\ n' = 0
  /\ q' = IF Joint(Ev.mesh) = {} THEN <<>> ELSE Stable2(Ev.mesh)
(* one solver: [fixed, sf, n]; reported: <<m, e>>, or <<>> for "no limit", or absent;              *)
(* step2: square of the step taken; ratio: step taken / (fixed step * safety factor) in 10^-6      *)
Ok(what, c) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", what, "expected", q, "observed", Ev>>) /\ FALSE
TSolver ==
  /\ IsEvent("solver")
  /\ n < Len(m.solvers)
  /\ n' = n + 1
  /\ LET sv == m.solvers[n + 1]
     IN /\ Ok("report", Ev.reported = <<"absent">> \/ (IF q = <<>> THEN Ev.reported = <<>> ELSE Ev.reported # <<>> /\ Agrees(Ev.reported, q, Tol)))
        /\ Ok("times", Ev.times = [ i \in 1..(sv.n + 1) |-> i - 1 ])
        /\ IF sv.n = 0 THEN TRUE
           ELSE IF sv.fixed THEN Ok("fixed step", Abs(Ev.ratio - 1000000) <= 2)
           ELSE Ok("step", Agrees(Ev.step2, Safe2(q, sv.sf), Tol))
  /\ UNCHANGED <<m, q>>
TEnd == IsEvent("end") /\ n = Len(m.solvers) /\ UNCHANGED <<m, q, n>>
TNext == TMesh \/ TSolver \/ TEnd
TraceSpec == TInit /\ [][TNext]_vars
TraceAccepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
