-------------------------------- MODULE TrMove --------------------------------
(* Recorded redistributions of points.  All points with coordinates, volume and family must be on  *)
(* exactly one rank after every operation; balancing may choose any ranks; a directed move puts    *)
(* every point where it was sent, and lists after the owned points exactly the others they need.    *)
EXTENDS PdBase, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pts
vars == <<l, pts>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Fail(x) == PrintT(<<"MISMATCH", x>>) /\ FALSE
Rows(obs) == UNION { { obs[r][i] : i \in DOMAIN obs[r] } : r \in DOMAIN obs }
Count(obs) == SumOver(DOMAIN obs, [ r \in DOMAIN obs |-> Len(obs[r]) ])
Expected == { << g, pts[g] >> : g \in DOMAIN pts }
Complete(obs) == IF Count(obs) = Len(pts) /\ Rows(obs) = Expected THEN TRUE
                 ELSE Fail(<<"points", "missing or altered", Expected \ Rows(obs), "extra", Rows(obs) \ Expected, "count", Count(obs)>>)
TInit == l = 1 /\ pts = <<>>
TBegin == IsEvent("begin") /\ pts' = Ev.pts /\ Count(Ev.obs) = Len(Ev.pts)
TBalance == /\ IsEvent("balance") /\ UNCHANGED pts /\ Complete(Ev.obs)
Ids(obs, r) == { obs[r][i][1] : i \in DOMAIN obs[r] }
TSend == /\ IsEvent("send") /\ UNCHANGED pts /\ Complete(Ev.obs)
         /\ \A r \in DOMAIN Ev.obs :
              LET own == { g \in DOMAIN pts : Ev.owner[g] = r }
                  need == UNION { Range(pts[g].fam) : g \in own } \ own
                  n == Cardinality(own)
              IN IF /\ Ids(Ev.obs, r) = own
                    /\ Len(Ev.over[r]) = n + Cardinality(need)
                    /\ { Ev.over[r][i] : i \in 1..n } = own
                    /\ { Ev.over[r][i] : i \in (n+1)..Len(Ev.over[r]) } = need THEN TRUE
                 ELSE Fail(<<"rank", r, "owned", own, "needs", need, "listed", Ev.over[r]>>)
TEnd == IsEvent("end") /\ UNCHANGED pts
TNext == TBegin \/ TBalance \/ TSend \/ TEnd
TraceSpec == TInit /\ [][TNext]_vars
TraceAccepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
