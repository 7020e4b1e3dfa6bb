------------------------------- MODULE TrSim --------------------------------
(* Validation of recorded explicit runs: a run announces its deck together with everything its   *)
(* output files contain; every tick advances the machine to the next state that is offered to    *)
(* the output requests, and each file has to hold exactly the states that were due, unaltered.   *)
EXTENDS PdCompute, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, d, files, s, ptr
vars == <<l, d, files, s, ptr>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1

TInit == l = 1 /\ d = [none |-> TRUE] /\ files = <<>> /\ s = [none |-> TRUE] /\ ptr = <<>>

SetOf(q) == { q[i] : i \in DOMAIN q }
(* a file describes the mesh: ids, positions, blocks, node sets, and the names of its variables *)
GoodHeader(dd, i, f) ==
  f.present =>
    /\ f.ids = [ p \in 1..Len(dd.pts) |-> p ]
    /\ f.pos = dd.pts
    /\ f.blk = dd.blk
    /\ SetOf(f.nodal) = NodalNames(dd.outs[i]) /\ Len(f.nodal) = Cardinality(NodalNames(dd.outs[i]))
    /\ SetOf(f.elem) = ElemNames(dd.outs[i]) /\ Len(f.elem) = Cardinality(ElemNames(dd.outs[i]))
    /\ SetOf(f.global) = GlobalNames(dd, dd.outs[i]) /\ Len(f.global) = Cardinality(GlobalNames(dd, dd.outs[i]))
TDeck ==
  /\ IsEvent("deck")
  /\ Len(Ev.files) = Len(Ev.d.outs)
  /\ \A i \in DOMAIN Ev.files : GoodHeader(Ev.d, i, Ev.files[i])
  /\ d' = Ev.d /\ files' = Ev.files
  /\ s' = Loaded(Ev.d)
  /\ ptr' = [ i \in DOMAIN Ev.files |-> 0 ]

DamageScale == 720720
Close(obs, exp, tol) == Abs(obs - exp) <= tol
Expected(st, name) ==
  CASE name = "Displacement" -> st.u
    [] name = "Velocity" -> st.v
    [] name = "Coordinates" -> [ p \in Pts(d) |-> Position(d, st.u, p) ]
    [] name = "Model_Coordinates" -> d.pts
    [] name = "External_Force_Density" -> st.ext
    [] name \in {"Contact_Force_Density", "Force_Density"} -> [ p \in Pts(d) |-> ContactForce(d, st, p) ]
    [] name = "Temperature" -> st.temp
    [] name = "Temperature_Change" -> st.dtemp
    [] name = "Damage" -> [ p \in Pts(d) |-> st.broken[p] ]
    [] name = "Volume" -> d.vol
    [] name = "Number_Of_Neighbors" -> [ p \in Pts(d) |-> Cardinality(st.fam[p]) ]
    [] name = "Neighborhood_Volume" -> [ p \in Pts(d) |-> d.vol[p] + SumOver(st.fam[p], d.vol) ]
    [] name = "Element_Id" -> [ p \in Pts(d) |-> p ]
    [] name = "Horizon" -> [ p \in Pts(d) |-> Horizon(d, p) ]
    [] name = "Proc_Num" -> 0..(d.ranks - 1)
    [] name = "Deformation_Gradient" -> [ p \in Pts(d) |-> << Shape(d, st.fam, p), Moved(d, st.fam, st.u, p) >> ]
    [] name \in {"Kinetic_Energy", "Linear_Momentum", "Angular_Momentum"} -> [ p \in Pts(d) |-> VarAt(d, st, name, p) ]
FieldMatches(st, name, val) ==
  LET exp == Expected(st, name)
      ok == CASE name \in {"Contact_Force_Density", "Force_Density"} ->
                   \A p \in Pts(d) : \A c \in Comps : Close(val[p][c], exp[p][c], 1 + 2 * exp[p][4])
              [] name = "Damage" ->
                   \A p \in Pts(d) : IF st.fam[p] = {} THEN val[p] = 0
                                     ELSE val[p] * Cardinality(st.fam[p]) = DamageScale * Cardinality(exp[p])
              [] name = "Deformation_Gradient" -> \A p \in Pts(d) : IsGradient(d, st.fam, st.u, p, val[p])
              [] name = "Proc_Num" -> \A p \in Pts(d) : val[p] \in exp
              [] OTHER -> val = exp
  IN IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", st.count, name, "expected", exp, "observed", val>>) /\ FALSE
(* blocks that do not have a variable write nothing for it *)
HasField(dd, p, name) == name # "Damage" \/ EntryAt(dd, p).dmg # 0
FrameMatches(st, i, fr) ==
  /\ IF fr.t = st.t THEN TRUE ELSE PrintT(<<"MISMATCH", st.count, "time", "expected", st.t, "observed", fr.t>>) /\ FALSE
  /\ DOMAIN fr.f \cup DOMAIN fr.g = SetOf(d.outs[i].fields)
  /\ \A j \in CompsOf(d, d.outs[i]) :
       LET k == d.comps[j]
       IN IF ComputeMatches(d, st, k, fr.g[k.label]) THEN TRUE
          ELSE PrintT(<<"MISMATCH", st.count, k, "observed", fr.g[k.label]>>) /\ FALSE
  /\ \A name \in DOMAIN fr.f : FieldMatches(st, name, fr.f[name])

TTick ==
  /\ IsEvent("tick")
  /\ ~AllDone(d, s)
  /\ LET st == Advance(d, s)
     IN /\ s' = st
        /\ \A i \in DOMAIN files :
             Due(d.outs[i], st.count) =>
               /\ files[i].present
               /\ ptr[i] < Len(files[i].frames)
               /\ FrameMatches(st, i, files[i].frames[ptr[i] + 1])
        /\ ptr' = [ i \in DOMAIN files |-> ptr[i] + IF Due(d.outs[i], st.count) THEN 1 ELSE 0 ]
  /\ UNCHANGED <<d, files>>
(* nothing is left over, and a file exists only if something was written to it *)
TEnd ==
  /\ IsEvent("end")
  /\ AllDone(d, s)
  /\ \A i \in DOMAIN files : IF files[i].present THEN ptr[i] = Len(files[i].frames) /\ ptr[i] > 0 ELSE ptr[i] = 0
  /\ UNCHANGED <<d, files, s, ptr>>
TNext == TDeck \/ TTick \/ TEnd
TraceSpec == TInit /\ [][TNext]_vars
TraceAccepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
