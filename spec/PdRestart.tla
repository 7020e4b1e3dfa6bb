------------------------------ MODULE PdRestart ------------------------------
(* Restart sets.  A run that ends writes a set of files: the time it ended, the global vectors and   *)
(* the history of every block.  A run that finds sets continues from the newest one, provided that   *)
(* every file of it is there and that it was written at the time the run is asked to start.          *)
EXTENDS PdBase
Parts == { "clock", "vectors", "history" }
Complete(s) == s.parts = Parts
(* what a run that is to start at t0 does *)
Decision(disk, t0) ==
  IF disk = <<>> THEN "fresh"
  ELSE LET s == disk[Len(disk)]
       IN IF Complete(s) /\ s.time = t0 THEN "resume" ELSE "refuse"
=============================================================================
