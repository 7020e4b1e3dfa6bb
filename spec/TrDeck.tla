-------------------------------- MODULE TrDeck --------------------------------
(* Decks and what the program did with them: a deck that is not valid ends in an error without a     *)
(* completed simulation, a valid one is carried out to its end, and every run ends.                   *)
EXTENDS PdDeck, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, d
vars == <<l, d>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Say(what, a, b) == PrintT(<<"MISMATCH", what, "expected", a, "observed", b>>) /\ FALSE
TInit == l = 1 /\ d = [none |-> TRUE]
TDeck == IsEvent("deck") /\ d' = Ev.d
TRun ==
  /\ IsEvent("run")
  /\ LET w == Wrong(d)
         v == w = {}
     IN /\ IF Ev.ended THEN TRUE ELSE Say("end", <<"an end", w>>, "none")
        /\ IF Ev.ok = v THEN TRUE ELSE Say("exit status zero", <<v, w>>, Ev.ok)
        /\ IF Ev.done = v THEN TRUE ELSE Say("completed simulation", <<v, w>>, Ev.done)
  /\ UNCHANGED d
TNext == TDeck \/ TRun
TraceSpec == TInit /\ [][TNext]_vars
TraceAccepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
