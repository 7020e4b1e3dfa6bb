------------------------------ MODULE TrRestart ------------------------------
(* A directory in which a deck is run again and again with restart requested.  "whole" is the result  *)
(* of one run without interruption; times are counted in steps.  Between the runs files of the newest *)
(* set are taken away and put back, and sets are removed.                                            *)
EXTENDS PdRestart, Json, IOUtils
CONSTANT Slack
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, whole, disk
vars == <<l, whole, disk>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Say(what, a, b) == PrintT(<<"MISMATCH", what, "expected", a, "observed", b>>) /\ FALSE
TInit == l = 1 /\ whole = [none |-> TRUE] /\ disk = <<>>
WellFormed(r) == r.whole /\ \A f \in DOMAIN r.vals : Len(r.vals[f]) = Len(r.steps)
TWhole ==
  /\ IsEvent("whole") /\ WellFormed(Ev.r)
  /\ Ev.r.steps = [i \in 1..(Ev.last + 1) |-> i - 1]
  /\ whole' = Ev.r /\ disk' = <<>>
Near(a, b) == a = b \/ Abs(a - b) <= Slack
SameFrame(r, f, k) ==
  LET a == whole.vals[f][r.steps[k] + 1]
      b == r.vals[f][k]
  IN IF Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i]) THEN TRUE
     ELSE Say(<<f, "step", r.steps[k]>>, a, b)
SameAs(r, t0, t1) ==
  /\ IF WellFormed(r) /\ r.ids = whole.ids /\ r.blk = whole.blk THEN TRUE ELSE Say("points", whole.ids, r.ids)
  /\ IF r.steps = [i \in 1..(t1 - t0 + 1) |-> t0 + i - 1] THEN TRUE ELSE Say("times", <<t0, t1>>, r.steps)
  /\ IF DOMAIN r.vals = DOMAIN whole.vals THEN TRUE ELSE Say("fields", DOMAIN whole.vals, DOMAIN r.vals)
  /\ \A f \in DOMAIN r.vals : \A k \in DOMAIN r.steps : SameFrame(r, f, k)
TRun ==
  /\ IsEvent("run")
  /\ LET c == Decision(disk, Ev.t0)
     IN IF c = "refuse"
        THEN /\ IF Ev.ended /\ ~Ev.ok THEN TRUE ELSE Say("outcome", "refused", <<Ev.ended, Ev.ok>>)
             /\ disk' = disk
        ELSE /\ c = "fresh" => Ev.t0 = 0                              \* scenarios ask for nothing else
             /\ IF Ev.ended /\ Ev.ok THEN TRUE ELSE Say("outcome", c, <<Ev.ended, Ev.ok>>)
             /\ SameAs(Ev.r, Ev.t0, Ev.t1)
             /\ disk' = Append(disk, [ time |-> Ev.t1, parts |-> Parts ])
  /\ IF Ev.sets = Len(disk') THEN TRUE ELSE Say("sets", Len(disk'), Ev.sets)
  /\ UNCHANGED whole
TSpoil == IsEvent("spoil") /\ disk # <<>> /\ disk' = [disk EXCEPT ![Len(disk)].parts = @ \ {Ev.part}] /\ UNCHANGED whole
TRepair == IsEvent("repair") /\ disk # <<>> /\ disk' = [disk EXCEPT ![Len(disk)].parts = Parts] /\ UNCHANGED whole
TDrop == IsEvent("drop") /\ disk # <<>> /\ disk' = SubSeq(disk, 1, Len(disk) - 1) /\ UNCHANGED whole
TNext == TWhole \/ TRun \/ TSpoil \/ TRepair \/ TDrop
TraceSpec == TInit /\ [][TNext]_vars
TraceAccepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
