------------------------------- MODULE TrQuasi -------------------------------
(* Recorded quasi-static runs.  The deck fixes the stages and the prescribed motion; where it also    *)
(* fixes which attempts converge (no iterations allowed, load thresh) the whole sequence of load      *)
(* steps follows, elsewhere every pattern of failures within the limits is allowed.                  *)
(* prof: the load as a function of time; presc: components that follow a * load; frames carry the     *)
(* prescribed components as observed and, for every free component, the residual in tenths of the     *)
(* tolerance: as reported by the run, and (probe) evaluated anew at the reported displacements.       *)
EXTENDS PdQuasi, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, d, s
vars == <<l, d, s>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Say(what, a, b) == PrintT(<<"MISMATCH", what, "expected", a, "observed", b>>) /\ FALSE
TInit == l = 1 /\ d = [none |-> TRUE] /\ s = [none |-> TRUE]
TDeck == IsEvent("deck") /\ d' = Ev.d /\ s' = Blank(Ev.d)

Load(t) == IF d.prof.peak < 0 \/ t < d.prof.peak THEN t ELSE 2 * d.prof.peak - t
Known == d.thresh >= 0
Converges(t) == Abs(Load(t)) <= d.thresh
RECURSIVE FailK(_, _)
FailK(r, k) == IF k = 0 THEN r ELSE LET q == FailK(r, k - 1) IN IF q.status = "failed" THEN q ELSE Failed(d, q)
(* states in which the attempt after k failures is the next to be made *)
Tries(r) == LET q == d.stages[r.stage]
            IN { k \in 0..(IF q.adaptive THEN q.one ELSE 0) : FailK(r, k).status = "run"
                   /\ (Known => \A j \in 0..(k - 1) : ~Converges(Target(FailK(r, j)))) }
Writes(r) ==
  IF r.status = "failed" THEN {}
  ELSE IF StageOver(r) THEN (IF r.stage < Len(d.stages) THEN { Begin(d, r) } ELSE {})
  ELSE { Accepted(d, FailK(r, k)) : k \in { j \in Tries(r) : Known => Converges(Target(FailK(r, j))) } }
GivesUp(r) ==
  /\ r.status = "run" /\ ~StageOver(r)
  /\ IF Known THEN \A k \in Tries(r) : ~Converges(Target(FailK(r, k))) ELSE d.mayfail
RECURSIVE Shown(_)
Shown(r) == UNION { IF Due(w) THEN {w} ELSE Shown(w) : w \in Writes(r) }
RECURSIVE Ends(_)
Ends(r) ==
  (IF StageOver(r) /\ r.stage = Len(d.stages) THEN {"ok"} ELSE IF GivesUp(r) THEN {"error"} ELSE {})
  \cup UNION { Ends(w) : w \in { x \in Writes(r) : ~Due(x) } }

Presc(t) == [ i \in DOMAIN d.presc |-> d.presc[i] * Load(t) ]
RECURSIVE Biggest(_, _)
Biggest(v, k) == IF k = 0 THEN 0 ELSE LET m == Biggest(v, k - 1) IN IF Abs(v[k]) > m THEN Abs(v[k]) ELSE m
RECURSIVE Squares(_, _)
Squares(v, k) == IF k = 0 THEN 0 ELSE v[k] * v[k] + Squares(v, k - 1)
(* accepted states: within a hundred times the tolerance, in the norm L2 + 20 max *)
Balanced(v) ==
  LET m == TLCEval(Biggest(v, Len(v)))
      r == 1000 + 40 - 20 * m
  IN m <= 52 /\ r >= 0 /\ Squares(v, Len(v)) <= r * r
TFrame ==
  /\ IsEvent("frame")
  /\ LET c == Shown(s)
         m == { w \in c : w.prev = Ev.t }
     IN /\ IF m # {} THEN TRUE ELSE Say("time", { w.prev : w \in c }, Ev.t)
        /\ IF Ev.presc = Presc(Ev.t) THEN TRUE ELSE Say("prescribed", Presc(Ev.t), Ev.presc)
        /\ Ev.solved => /\ IF Balanced(Ev.resid) THEN TRUE ELSE Say("residual", "at most 1000 in total", Ev.resid)
                        /\ IF Balanced(Ev.probe) THEN TRUE ELSE Say("residual at the displacements", "at most 1000 in total", Ev.probe)
        /\ s' \in m
  /\ UNCHANGED d
TEnd ==
  /\ IsEvent("end")
  /\ IF (IF Ev.ok THEN "ok" ELSE "error") \in Ends(s) /\ Ev.ended THEN TRUE ELSE Say("end", Ends(s), Ev)
  /\ UNCHANGED <<d, s>>
TNext == TDeck \/ TFrame \/ TEnd
TraceSpec == TInit /\ [][TNext]_vars
TraceAccepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
