------------------------------ MODULE TrAgree -------------------------------
(* Several runs of one deck - on different numbers of ranks, or interrupted and restarted - are   *)
(* runs of one machine: its result is fixed by the deck, so every further run has to show the     *)
(* same points, blocks, times and values.  Values are scaled integers; Slack covers round-off     *)
(* from sums taken in another order.                                                              *)
EXTENDS PdBase, Json, IOUtils
CONSTANT Slack
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, result
vars == <<l, result>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1

TInit == l = 1 /\ result = [none |-> TRUE]
WellFormed(r) ==
  /\ \A i, j \in DOMAIN r.ids : i < j => r.ids[i] < r.ids[j]
  /\ r.whole                                   \* every point in exactly one file, names and times alike in all of them
  /\ \A f \in DOMAIN r.vals : Len(r.vals[f]) = Len(r.times)
TFirst == IsEvent("first") /\ WellFormed(Ev.r) /\ result' = Ev.r
Near(a, b) == a = b \/ Abs(a - b) <= Slack
(* the part of the history both runs cover: an interrupted run starts late *)
Offset(r) == Len(result.times) - Len(r.times)
Say(r, what, f, k) == PrintT(<<"MISMATCH", what, f, k>>) /\ FALSE
SameFrame(r, f, k) ==
  LET a == result.vals[f][k + Offset(r)]
      b == r.vals[f][k]
  IN IF Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i]) THEN TRUE
     ELSE PrintT(<<"MISMATCH", f, k, "expected", a, "observed", b>>) /\ FALSE
TAgain ==
  /\ IsEvent("again")
  /\ LET r == Ev.r
     IN /\ IF WellFormed(r) THEN TRUE ELSE Say(r, "form", "", 0)
        /\ IF r.ids = result.ids /\ r.blk = result.blk THEN TRUE ELSE Say(r, "points", r.ids, r.blk)
        /\ IF Offset(r) >= 0 /\ (~Ev.partial => Offset(r) = 0) THEN TRUE ELSE Say(r, "frames", Len(result.times), Len(r.times))
        /\ \A k \in DOMAIN r.times : IF Near(r.times[k], result.times[k + Offset(r)]) THEN TRUE ELSE Say(r, "time", k, r.times)
        /\ IF DOMAIN r.vals = DOMAIN result.vals THEN TRUE ELSE Say(r, "fields", DOMAIN r.vals, DOMAIN result.vals)
        /\ \A f \in DOMAIN r.vals : \A k \in DOMAIN r.times : SameFrame(r, f, k)
  /\ UNCHANGED result
TNext == TFirst \/ TAgain
TraceSpec == TInit /\ [][TNext]_vars
TraceAccepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
