------------------------------- MODULE PdQuasi -------------------------------
(* Quasi-static load stepping.  A deck is a sequence of stages (solvers); a stage is                  *)
(*   times    : requested load times, in ticks                                                      *)
(*   adaptive : whether a step that does not converge is retried with half the increment             *)
(*   one, all : limits on the failures in one step and in the whole stage                            *)
(*   regrid   : after a step that was halved, the rest of the stage uses its increment               *)
(*   slower   : every halving doubles the output frequency                                           *)
(* Whether an attempt converges is decided elsewhere: by the solver, by the environment in MCQuasi.   *)
(* State: stage, prev (time of the last accepted step), todo (times ahead), fails (in this step),     *)
(* total, freq, count (write calls so far), status.                                                  *)
EXTENDS PdBase
CONSTANT Design
Min(a, b) == IF a < b THEN a ELSE b
Blank(d) == [ stage |-> 0, prev |-> 0, todo |-> <<>>, fails |-> 0, total |-> 0, freq |-> d.freq, count |-> 0, status |-> "run" ]
Written(s) == [s EXCEPT !.count = @ + 1]
Due(s) == (s.count - 1) % s.freq = 0
(* the next stage begins with the state at its first time *)
Begin(d, s) ==
  LET q == d.stages[s.stage + 1]
  IN Written([s EXCEPT !.stage = @ + 1, !.prev = q.times[1], !.todo = Tail(q.times), !.fails = 0, !.total = 0])
RECURSIVE Grid(_, _, _)
Grid(t, inc, final) ==
  IF t >= final THEN <<>>
  ELSE LET n == IF Design = "overshoot" THEN t + inc ELSE Min(t + inc, final) IN <<n>> \o Grid(n, inc, final)
Target(s) == Head(s.todo)
Accepted(d, s) ==
  LET q == d.stages[s.stage]
      t == Target(s)
      rest == IF q.adaptive /\ q.regrid /\ s.fails > 0 THEN Grid(t, t - s.prev, q.times[Len(q.times)]) ELSE Tail(s.todo)
  IN Written([s EXCEPT !.prev = t, !.todo = rest, !.fails = IF Design = "noreset" THEN @ ELSE 0])
Failed(d, s) ==
  LET q == d.stages[s.stage]
      half == s.prev + (Target(s) - s.prev) \div 2
  IN IF ~q.adaptive \/ s.fails + 1 > q.one \/ s.total + 1 > q.all THEN [s EXCEPT !.status = "failed", !.fails = @ + 1, !.total = @ + 1]
     ELSE [s EXCEPT !.fails = @ + 1, !.total = @ + 1, !.freq = IF q.slower THEN 2 * @ ELSE @,
                    !.todo = <<half>> \o (IF Design = "forget" THEN Tail(@) ELSE @)]
StageOver(s) == s.todo = <<>>
Over(d, s) == s.status = "failed" \/ (StageOver(s) /\ s.stage = Len(d.stages))
=============================================================================
