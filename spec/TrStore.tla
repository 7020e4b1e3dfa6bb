------------------------------- MODULE TrStore -------------------------------
(* Validation of recorded scripts: after every operation the complete contents of all stores.      *)
EXTENDS PdStore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, st
vars == <<l, m, st>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
TInit == l = 1 /\ m = [none |-> TRUE] /\ st = [none |-> TRUE]

Pairs(h) == { <<g, h[g]>> : g \in DOMAIN h }
Same(h, q) == Len(q) = Cardinality(DOMAIN h) /\ Pairs(h) = Range(q)
Lookup(q, g) == q[CHOOSE i \in DOMAIN q : q[i][1] = g][2]
Fail(x) == PrintT(<<"MISMATCH", x>>) /\ FALSE
(* obs.v[k][f][s][r]: <<point, values>>; obs.m[k][w]; obs.g[k][f][s][r]; obs.f[k][r]: <<point, family>>; obs.h[k][f] *)
Shows(mm, t, obs) ==
  \A k \in DOMAIN mm.stores :
    /\ \A f \in DOMAIN mm.fields :
         IF Range(obs.h[k][f]) = { s \in {"NONE", "N", "NP1"} : Has(mm, k, f, s) } THEN TRUE ELSE Fail(<<"has", k, f, obs.h[k][f]>>)
    /\ \A f \in DOMAIN t.val[k] : \A s \in DOMAIN t.val[k][f] : \A r \in Ranks(mm) :
         IF Same(t.val[k][f][s][r], obs.v[k][f][s][r]) THEN TRUE
         ELSE Fail(<<"store", k, "field", f, s, "rank", r, "expected", t.val[k][f][s][r], "observed", obs.v[k][f][s][r]>>)
    /\ \A w \in 1..2 : IF Same(t.mother[k][w], obs.m[k][w]) THEN TRUE
         ELSE Fail(<<"vector", k, w, "expected", t.mother[k][w], "observed", obs.m[k][w]>>)
    /\ \A f \in DOMAIN t.glob : \A s \in DOMAIN t.glob[f] : \A r \in Ranks(mm) :
         IF obs.g[k][f][s][r] = t.glob[f][s][r] THEN TRUE
         ELSE Fail(<<"global", f, s, "rank", r, "expected", t.glob[f][s][r], "observed", obs.g[k][f][s][r]>>)
    /\ \A r \in Ranks(mm) :
         LET d == t.dist[k]
             h == [ g \in Owned(mm, d, mm.stores[k].blk, r) |-> mm.dists[d].fam[g] ]
         IN IF Same(h, obs.f[k][r]) THEN TRUE ELSE Fail(<<"family", k, "rank", r, "expected", h, "observed", obs.f[k][r]>>)

TBegin == /\ IsEvent("begin") /\ m' = Ev.m
          /\ st' = Created(Ev.m) /\ Shows(Ev.m, Created(Ev.m), Ev.obs)
(* after a redistribution the copies of points of other blocks are unspecified until they are imported again *)
Adopt(mm, t, k, obs) ==
  [ t EXCEPT !.val[k] = [ f \in DOMAIN @ |-> [ s \in DOMAIN @[f] |-> [ r \in Ranks(mm) |-> [ g \in DOMAIN @[f][s][r] |->
      IF Mine(mm, k, g) \/ ~\E i \in DOMAIN obs.v[k][f][s][r] : obs.v[k][f][s][r][i][1] = g THEN @[f][s][r][g]
      ELSE Lookup(obs.v[k][f][s][r], g) ] ] ] ] ]
(* an export that overwrites takes one of the values held *)
Overwrites(t, o, t2, obs) ==
  IF ~Has(m, o.k, o.f, o.s) THEN t2 = t
  ELSE LET new == [ g \in DOMAIN m.blk |-> Lookup(obs.m[o.k][o.w], g) ]
       IN /\ \A g \in DOMAIN m.blk :
               LET H == Holders(m, t, o.k, o.f, o.s, g)
               IN IF H = {} THEN new[g] = t.mother[o.k][o.w][g] ELSE \E r \in H : new[g] = t.val[o.k][o.f][o.s][r][g]
          /\ t2 = [ t EXCEPT !.mother[o.k][o.w] = new ]
TOp ==
  /\ IsEvent("op")
  /\ LET o == Ev.op
     IN \/ o.op = "W" /\ st' = Write(st, o.k, o.f, o.s, o.r, o.g, o.v)
        \/ o.op = "X" /\ st' = WriteGlobal(st, o.f, o.s, o.r, o.v)
        \/ o.op = "M" /\ st' = WriteMother(st, o.k, o.w, o.g, o.v)
        \/ o.op = "U" /\ \E swap \in BOOLEAN : st' = Update(m, st, o.k, swap)
        \/ o.op = "S" /\ st' = Scatter(m, st, o.k)
        \/ o.op = "C" /\ st' = Copy(m, st, o.k, o.j)
        \/ o.op = "I" /\ st' = Import(m, st, o.k, o.f, o.s, o.w)
        \/ o.op = "E" /\ o.add /\ st' = ExportAdd(m, st, o.k, o.f, o.s, o.w)
        \/ o.op = "R" /\ st' = Adopt(m, Rebalance(m, st, o.k, o.d), o.k, Ev.obs)
  /\ Shows(m, st', Ev.obs)
  /\ UNCHANGED m
TOver ==
  /\ IsEvent("over")
  /\ LET o == Ev.op
         new == [ g \in DOMAIN m.blk |-> Lookup(Ev.obs.m[o.k][o.w], g) ]
     IN /\ st' = IF Has(m, o.k, o.f, o.s) THEN [ st EXCEPT !.mother[o.k][o.w] = new ] ELSE st
        /\ Overwrites(st, o, st', Ev.obs)
  /\ Shows(m, st', Ev.obs)
  /\ UNCHANGED m
TEnd == IsEvent("end") /\ UNCHANGED <<m, st>>
TNext == TBegin \/ TOp \/ TOver \/ TEnd
TraceSpec == TInit /\ [][TNext]_vars
TraceAccepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
