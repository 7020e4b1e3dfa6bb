------------------------------- MODULE TrMesh -------------------------------
(* Validation of recorded meshes: a run announces its mesh, then reports the families it built. *)
EXTENDS PdMesh, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mesh
vars == <<l, mesh>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1

SetOf(s) == { s[i] : i \in DOMAIN s }
TInit == l = 1 /\ mesh = [none |-> TRUE]
(* a new run: a mesh read from a text file *)
TMesh == IsEvent("mesh") /\ mesh' = Ev.mesh
(* every point appears once, with its own position and block; its family is the specified one *)
TFamilies ==
  /\ IsEvent("families")
  /\ Ev.ids = [ i \in 1..Len(mesh.pts) |-> i ]
  /\ Ev.pos = mesh.pts
  /\ Ev.blk = mesh.blk
  /\ \A p \in Pts(mesh) :
       LET F == SetOf(Ev.fam[p])
       IN /\ FamilyMin(mesh, p) \subseteq F
          /\ F \subseteq FamilyMax(mesh, p)
          /\ Ev.count[p] = Cardinality(F)
  /\ UNCHANGED mesh
(* large meshes: the family is observed through its size and the sum of the members' weights *)
TPrints ==
  /\ IsEvent("prints")
  /\ Ev.ids = [ i \in 1..Len(mesh.pts) |-> i ]
  /\ \A p \in Pts(mesh) :
       LET F == Family(mesh, p)
       IN /\ Ev.count[p] = Cardinality(F)
          /\ Ev.sum[p] = mesh.w[p] + SumOver(F, mesh.w)
  /\ UNCHANGED mesh
(* grids *)
TGrid == IsEvent("grid") /\ mesh' = Ev.grid
TGridPoints ==
  /\ IsEvent("gridpoints")
  /\ Ev.ids = [ i \in 1..GridSize(mesh) |-> i ]
  /\ \A i \in 1..GridSize(mesh) :
       /\ \A d \in 1..3 : Ev.pos[i][d] = GridPoint(mesh, i)[d] /\ Ev.ref[i][d] = GridPoint(mesh, i)[d]
       /\ Ev.vol[i] = 8 * mesh.hw[1] * mesh.hw[2] * mesh.hw[3]
       /\ Ev.count[i] = Cardinality(GridFamily(mesh, i))
  /\ UNCHANGED mesh
(* bonded partners observed through a probe: displacing one point dilates exactly the points that have it *)
TGridProbe ==
  /\ IsEvent("gridprobe")
  /\ SetOf(Ev.touched) = { j \in 1..GridSize(mesh) : Ev.p \in GridFamily(mesh, j) }
  /\ UNCHANGED mesh
TNext == TMesh \/ TFamilies \/ TPrints \/ TGrid \/ TGridPoints \/ TGridProbe
TraceSpec == TInit /\ [][TNext]_vars
TraceAccepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
