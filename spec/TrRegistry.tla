------------------------------ MODULE TrRegistry ------------------------------
(* Validation of recorded request sequences; every event carries the complete registry.            *)
EXTENDS PdRegistry, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
GLOBAL == 4                                   \* relation of global fields
VARIABLES l, reg
vars == <<l, reg>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Fail(x) == PrintT(<<"MISMATCH", x>>) /\ FALSE
Row(e) == << e.id, e.spec[1], e.spec[2], e.spec[3], e.label >>
Same(name, q, S) == IF Len(q) = Cardinality(S) /\ Range(q) = S THEN TRUE ELSE Fail(<<name, "expected", S, "observed", q>>)
Shows(g, o) ==
  /\ Same("specs", o.S, { Row(e) : e \in g })
  /\ Same("by number", o.J, { Row(e) : e \in g })
  /\ Same("by label", o.N, { Row(e) : e \in g })
  /\ Same("is global", o.G, { << e.id, IF e.spec[1] = GLOBAL THEN 1 ELSE 0 >> : e \in g })
  /\ Same("look-up", o.K, { << 1, e.id, e.label >> : e \in g })
  /\ Same("globals", o.W, { Row(e) : e \in { x \in g : x.spec[1] = GLOBAL } })
  /\ Same("labels", o.B, { e.label : e \in g })
TInit == l = 1 /\ reg = {}
TBegin == IsEvent("begin") /\ Shows({}, Ev.obs) /\ reg' = {}
TRequest == /\ IsEvent("request")
            /\ LET o == Outcome(reg, Ev.label, Ev.low, Ev.spec, Ev.res)
               IN /\ IF o.res = Ev.res /\ (o.reg = reg \/ (Ev.res >= 0 /\ Ev.res \notin IdsOf(reg))) THEN TRUE
                     ELSE Fail(<<"request", Ev.label, Ev.spec, "expected", o.res, "observed", Ev.res>>)
                  /\ reg' = o.reg
            /\ Shows(reg', Ev.obs)
TLabel == /\ IsEvent("label") /\ UNCHANGED reg /\ Shows(reg, Ev.obs)
          /\ IF Ev.res = ByLabel(reg, Ev.label) THEN TRUE ELSE Fail(<<"label", Ev.label, Ev.res>>)
TNumber == /\ IsEvent("number") /\ UNCHANGED reg /\ Shows(reg, Ev.obs)
           /\ IF Ev.res = ByNumber(reg, Ev.id) THEN TRUE ELSE Fail(<<"number", Ev.id, Ev.res>>)
THas == /\ IsEvent("has") /\ UNCHANGED reg /\ Shows(reg, Ev.obs)
        /\ IF Ev.res = IF Known(reg, Ev.label) = {} THEN 0 ELSE 1 THEN TRUE ELSE Fail(<<"has", Ev.label, Ev.res>>)
TEnd == IsEvent("end") /\ UNCHANGED reg
TNext == TBegin \/ TRequest \/ TLabel \/ TNumber \/ THas \/ TEnd
TraceSpec == TInit /\ [][TNext]_vars
TraceAccepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
