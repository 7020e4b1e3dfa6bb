------------------------------- MODULE MCReject -------------------------------
(* Several ranks work through the same stages; a stage is local or collective (nobody leaves it       *)
(* before everybody has reached it).  A defect of the deck is seen at one stage by some of the ranks.  *)
(* However the ranks are scheduled the job ends, with an error and without a completed simulation if   *)
(* and only if there is a defect.  Designs: abort (the rank that sees the defect ends the job), agree  *)
(* (ranks exchange what they have seen at every collective stage); refuted: leave (the rank goes to    *)
(* the final collective stage alone), master (only the first rank's findings count), mute (the error   *)
(* is reported but the status is zero), late (checked after the results are written).                 *)
EXTENDS Integers, FiniteSets
CONSTANTS P, Stages, Design
Ranks == 1..P
VARIABLES kind, defect, at, seen, status, finished
vars == <<kind, defect, at, seen, status, finished>>
Final == Stages + 1
Init ==
  /\ kind \in [1..Stages -> {"local", "collective"}]
  /\ defect \in { [stage |-> 0, ranks |-> {}] } \cup { [stage |-> s, ranks |-> r] : s \in 1..Stages, r \in (SUBSET Ranks) \ {{}} }
  /\ at = [r \in Ranks |-> 1]
  /\ seen = [r \in Ranks |-> FALSE]
  /\ status = "running"
  /\ finished = FALSE
Sees(r) == defect.stage = at[r] /\ r \in defect.ranks
Counts(r) == Sees(r) /\ (Design = "master" => r = 1) /\ Design # "late"
(* everybody takes part; in a collective stage nobody is allowed on before.  A rank that has left takes no part *)
TakesPart(r, s) == at[r] >= s /\ (seen[r] => Design = "agree")
Open(s) == IF s = Final THEN \A r \in Ranks : at[r] = Final ELSE kind[s] = "collective" => \A r \in Ranks : TakesPart(r, s)
Fail(r) ==
  CASE Design \in { "abort", "mute" } -> status' = (IF Design = "mute" THEN "zero" ELSE "error") /\ UNCHANGED <<at, seen>>
    [] Design = "agree" -> seen' = [seen EXCEPT ![r] = TRUE] /\ at' = [at EXCEPT ![r] = @ + 1] /\ UNCHANGED status
    [] OTHER -> seen' = [seen EXCEPT ![r] = TRUE] /\ at' = [at EXCEPT ![r] = Final] /\ UNCHANGED status
Told(s) == Design = "agree" /\ kind[s] = "collective" /\ \E r \in Ranks : seen[r]
Move(r) ==
  /\ status = "running" /\ at[r] < Final /\ Open(at[r])
  /\ IF Counts(r) THEN Fail(r)
     ELSE IF Told(at[r]) THEN status' = "error" /\ UNCHANGED <<at, seen>>
     ELSE at' = [at EXCEPT ![r] = @ + 1] /\ UNCHANGED <<seen, status>>
  /\ UNCHANGED <<kind, defect, finished>>
End ==
  /\ status = "running" /\ Open(Final)
  /\ LET bad == \E r \in Ranks : seen[r]
     IN /\ status' = IF bad \/ (Design = "late" /\ defect.stage > 0) THEN "error" ELSE "zero"
        /\ finished' = ~bad
  /\ UNCHANGED <<kind, defect, at, seen>>
Next == (\E r \in Ranks : Move(r)) \/ End
Spec == Init /\ [][Next]_vars
NoHang == status # "running" \/ ENABLED Next
Verdict == status # "running" => /\ (status = "error") = (defect.stage > 0)
                                 /\ finished = (defect.stage = 0)
=============================================================================
