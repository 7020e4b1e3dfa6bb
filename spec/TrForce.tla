------------------------------- MODULE TrForce -------------------------------
(* Validation of recorded runs in which every point follows a prescribed path: position at step k is *)
(* pts + a + k b, temperature tem[1] + k tem[2].                                                     *)
EXTENDS PdForce, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, k, broken
vars == <<l, m, k, broken>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
TInit == l = 1 /\ m = [none |-> TRUE] /\ k = 0 /\ broken = {}
TBody == /\ IsEvent("body")
         /\ m' = Prepared(Ev.body) /\ k' = 0 /\ broken' = {}
At(i) == [ p \in Pts(m) |-> VAdd(m.pts[p], VAdd(m.a[p], VScale(i, m.b[p]))) ]
Heat(i) == [ p \in Pts(m) |-> i * m.tem[p][2] ]

Ok(what, p, c, w) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", what, "point", p, "step", k, "expected", w>>) /\ FALSE
Within(a, b, u) == Abs(a - b) <= u
Rigid(y) == \A p \in Pts(m) : VSub(y[p], m.pts[p]) = VSub(y[1], m.pts[1])
(* ev.f, ev.w, ev.th, ev.en: forces, weighted volumes, dilatations, energies of the points; <<>> when not asked for *)
TFrame ==
  /\ IsEvent("frame")
  /\ k <= m.n
  /\ LET y == TLCEval(At(k))
         dT == TLCEval(Heat(k))
         br == TLCEval(Break(m, y, dT, broken))
         s == TLCEval([ p \in Pts(m) |-> State(m, y, dT, br, p) ])
         cold == \A p \in Pts(m) : dT[p] = 0
     IN /\ broken' = br
        /\ \A p \in Pts(m) :
             LET f == TLCEval(Force(m, y, s, p))
             IN /\ \A c \in 1..3 : Ok("force", p, Within(Ev.f[p][c], f[c].f, f[c].u), <<c, f[c], Ev.f[p]>>)
                /\ Rigid(y) /\ cold => Ok("rigid motion", p, \A c \in 1..3 : Abs(Ev.f[p][c]) <= 2, Ev.f[p])
                /\ IF Ev.w = <<>> \/ ~Lps(m, p) THEN TRUE ELSE Ok("weighted volume", p, Within(Ev.w[p], s[p].W, s[p].W \div 500 + 2), <<s[p].W, Ev.w[p]>>)
                /\ IF Ev.th = <<>> \/ ~Lps(m, p) THEN TRUE ELSE Ok("dilatation", p, Within(Ev.th[p], s[p].th, s[p].dth), <<s[p].th, s[p].dth, Ev.th[p]>>)
                /\ IF Ev.en = <<>> \/ s[p].W = 0 THEN TRUE ELSE LET g == Energy(m, s, p) IN Ok("energy", p, Within(Ev.en[p], g.e, g.u), <<g, Ev.en[p]>>)
                /\ IF Ev.dmg = <<>> THEN TRUE
                   ELSE Ok("damage", p, IF m.fam[p] = {} THEN TRUE
                                        ELSE Within(Ev.dmg[p] * Cardinality(m.fam[p]), 100000 * Cardinality({ q \in m.fam[p] : <<p, q>> \in br }), 20), <<Ev.dmg[p]>>)
        /\ \A c \in 1..3 : LET S == SumOver(Pts(m), [ p \in Pts(m) |-> Ev.f[p][c] * m.vol[p] ])
                               T == SumOver(Pts(m), [ p \in Pts(m) |-> m.vol[p] ])
                           IN Ok("balance", 0, Abs(S) <= T, <<c, S>>)
  /\ k' = k + 1
  /\ UNCHANGED m
TEnd == IsEvent("end") /\ k = m.n + 1 /\ UNCHANGED <<m, k, broken>>
TNext == TBody \/ TFrame \/ TEnd
TraceSpec == TInit /\ [][TNext]_vars
TraceAccepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
