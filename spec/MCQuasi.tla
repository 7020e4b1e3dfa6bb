------------------------------- MODULE MCQuasi -------------------------------
(* Every pattern of convergence failures: the run visits every requested time once and in order, ends *)
(* at the final time, and gives up exactly when the limits on failures are exceeded.                 *)
EXTENDS PdQuasi

VARIABLES d, s, seen, n, m
vars == <<d, s, seen, n, m>>          \* seen: requested times visited in this stage; n, m: failures in the stage and in this step
Lists == { <<0, 64>>, <<0, 64, 128>>, <<0, 128, 160>>, <<0, 32, 128, 192>> }
Stage(t, a, o, al, r, w) == [ times |-> t, adaptive |-> a, one |-> o, all |-> al, regrid |-> r, slower |-> w ]
Init ==
  /\ \E t \in Lists, a \in BOOLEAN, o \in 0..3, al \in 0..4, r \in BOOLEAN, w \in BOOLEAN :
       /\ o <= al /\ (~a => o = 0 /\ al = 0 /\ ~r /\ ~w)
       /\ \E more \in BOOLEAN :
            d = [ freq |-> 1, stages |-> <<Stage(t, a, o, al, r, w)>> \o (IF more THEN <<Stage(<<192, 256>>, FALSE, 0, 0, FALSE, FALSE)>> ELSE <<>>) ]
  /\ s = Blank(d) /\ seen = {} /\ n = 0 /\ m = 0
Asked(r) == { d.stages[r.stage].times[i] : i \in DOMAIN d.stages[r.stage].times }
Go == /\ ~Over(d, s)
      /\ IF StageOver(s)
         THEN s' = Begin(d, s) /\ seen' = Asked(s') \cap {s'.prev} /\ n' = 0 /\ m' = 0
         ELSE \E ok \in BOOLEAN :
                IF ok THEN s' = Accepted(d, s) /\ seen' = seen \cup (Asked(s) \cap {s'.prev}) /\ m' = 0 /\ n' = n
                ELSE s' = Failed(d, s) /\ seen' = seen /\ m' = m + 1 /\ n' = n + 1
      /\ UNCHANGED d
Next == Go
Spec == Init /\ [][Next]_vars
Stg == d.stages[s.stage]
Final == Stg.times[Len(Stg.times)]
Inside == s.stage > 0 => s.prev <= Final /\ \A i \in DOMAIN s.todo : s.todo[i] <= Final
Increasing == [][s'.stage = s.stage => IF s'.count > s.count THEN s'.prev > s.prev ELSE s'.prev = s.prev]_vars
Visited(t) == t \in seen
(* nothing requested is left out once a later time was reached *)
Complete == s.stage > 0 /\ ~Stg.regrid => \A i \in DOMAIN Stg.times : Stg.times[i] <= s.prev => Visited(Stg.times[i])
Ends == s.stage > 0 /\ StageOver(s) => s.prev = Final /\ Visited(Final)
(* giving up: exactly when this step or this stage has failed too often *)
Limits == s.stage > 0 => (s.status = "failed") = (IF Stg.adaptive THEN m > Stg.one \/ n > Stg.all ELSE n > 0)
Slower == s.stage = 1 => s.freq = IF Stg.slower THEN 2 ^ (IF s.status = "failed" THEN n - 1 ELSE n) ELSE 1
=============================================================================
