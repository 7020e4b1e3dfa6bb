-------------------------------- MODULE PdDeck --------------------------------
(* When a deck is complete and consistent.  A deck is a record:                                      *)
(*   file     : "ok", or what is wrong with the deck as a file, or which section it lacks             *)
(*   disc, meshfile, mesh : kind of discretization, whether the mesh file is there and its lines; a   *)
(*              line has n numbers, possibly followed by other text (tail), all finite (fin), a block  *)
(*              number and a position                                                               *)
(*   mats, dams : materials and damage models, each a name, a model and the parameters it is given     *)
(*   entries  : the entries of the block section: block names, material, damage model, horizon        *)
(*   sets     : node sets; toks are point numbers, Junk is a word that is not a number                *)
(*   bcs      : boundary and initial conditions                                                      *)
(*   contact, comps, outs, solver : the other sections                                               *)
EXTENDS PdBase
Junk == 0 - 99
Names(s) == { s[i].name : i \in DOMAIN s }
Moduli == { "Bulk Modulus", "Shear Modulus", "Young's Modulus", "Poisson's Ratio" }
MaterialNeeds ==
  [ m \in { "Elastic", "Elastic Plastic", "Viscoelastic", "Elastic Correspondence" } |->
      CASE m = "Elastic" -> { "Density" }
        [] m = "Elastic Plastic" -> { "Density", "Yield Stress" }
        [] m = "Viscoelastic" -> { "Density", "lambda_i", "tau b" }
        [] OTHER -> { "Density", "Hourglass Coefficient" } ]
DamageNeeds == [ m \in { "Critical Stretch", "Time Dependent Critical Stretch" } |-> {m} ]
ContactNeeds == [ m \in { "Short Range Force" } |-> { "Contact Radius", "Spring Constant" } ]
Keys(m) == { m.keys[i] : i \in DOMAIN m.keys }
Equipped(m, needs) == m.model \in DOMAIN needs /\ needs[m.model] \subseteq Keys(m)
MaterialOK(m) == Equipped(m, MaterialNeeds) /\ Cardinality(Keys(m) \cap Moduli) = 2

(* the mesh *)
LineOK(x) == x.n = 5 /\ ~x.tail /\ x.fin
MeshOK(d) ==
  /\ d.disc = "Text File" /\ d.meshfile = "there" /\ Len(d.mesh) > 0
  /\ \A i \in DOMAIN d.mesh : LineOK(d.mesh[i])
MeshBlocks(d) == { "block_" \o ToString(d.mesh[i].blk) : i \in DOMAIN d.mesh }

(* only the models that are used matter *)
MaterialsOK(d) == \A i \in DOMAIN d.mats : (\E j \in DOMAIN d.entries : d.entries[j].mat = d.mats[i].name) => MaterialOK(d.mats[i])
DamageOK(d) == \A i \in DOMAIN d.dams : (\E j \in DOMAIN d.entries : d.entries[j].dam = d.dams[i].name) => Equipped(d.dams[i], DamageNeeds)

(* the blocks: every block of the mesh has one description, and nothing else is described *)
Listed(d) == { <<i, j>> : i \in DOMAIN d.entries, j \in 1..20 } 
NamesAt(d) == { x \in Listed(d) : x[2] <= Len(d.entries[x[1]].names) }
NameAt(d, x) == d.entries[x[1]].names[x[2]]
BlocksOK(d) ==
  LET explicit == { x \in NamesAt(d) : NameAt(d, x) # "default" }
      named == { NameAt(d, x) : x \in explicit }
      default == \E x \in NamesAt(d) : NameAt(d, x) = "default"
  IN /\ Len(d.entries) > 0
     /\ named \subseteq MeshBlocks(d)
     /\ Cardinality(named) = Cardinality(explicit)
     /\ default \/ MeshBlocks(d) \subseteq named
     /\ \A i \in DOMAIN d.entries :
          /\ d.entries[i].mat \in Names(d.mats)
          /\ d.entries[i].dam \in Names(d.dams) \cup {""}
          /\ \/ d.entries[i].hor = "ok"
             \/ /\ d.entries[i].hor = "fn"                          \* a function of position
                /\ \A j \in DOMAIN d.mats : d.mats[j].name = d.entries[i].mat => d.mats[j].model = "Elastic Correspondence"

SetsOK(d) == \A i \in DOMAIN d.sets : /\ d.sets[i].kind \in { "list", "file" }
                                      /\ \A j \in DOMAIN d.sets[i].toks : d.sets[i].toks[j] >= 1
Points(d, name) == UNION { { d.sets[i].toks[j] : j \in DOMAIN d.sets[i].toks } : i \in { k \in DOMAIN d.sets : d.sets[k].name = name } }

(* the solver: times are multiples of the time step *)
SolverOK(d) ==
  LET s == d.solver
  IN CASE s.kind = "QuasiStatic" ->
            /\ CASE s.steps = "count" -> s.count >= 1 /\ s.t1 > s.t0
                 [] s.steps = "list" -> /\ Len(s.list) >= 2
                                        /\ \A i \in DOMAIN s.list : s.list[i] # Junk
                                        /\ \A i \in 2..Len(s.list) : s.list[i] > s.list[i - 1]
                 [] OTHER -> FALSE
            /\ s.limits # <<>> => s.limits[2] >= s.limits[1]
       [] s.kind \in { "Verlet", "Implicit" } -> s.dt = "pos" /\ s.t1 >= s.t0
       [] OTHER -> FALSE
(* the times at which conditions that vary in time are evaluated *)
Evaluated(d, t) ==
  LET s == d.solver
  IN IF s.kind # "QuasiStatic" THEN s.t0 <= t /\ t <= s.t1
     ELSE IF s.steps = "list" THEN \E i \in DOMAIN s.list : s.list[i] = t
     ELSE \E k \in 0..s.count : t * s.count = s.t0 * s.count + k * (s.t1 - s.t0)

InitialTypes == { "Initial Velocity", "Initial Displacement", "Initial Temperature" }
ScalarTypes == { "Initial Temperature", "Prescribed Temperature" }
Types == InitialTypes \cup ScalarTypes \cup { "Prescribed Displacement", "Body Force" }
Finite(d, b) ==
  CASE b.val = "ok" -> TRUE
    [] b.val = "time" -> IF b.type \in InitialTypes THEN b.at # 0
                      ELSE ~Evaluated(d, b.at) /\ (b.type = "Prescribed Temperature" => b.at # 0)
    [] b.val = "spot" -> \A p \in Points(d, b.set) : d.mesh[p].pos[1] # b.at
    [] OTHER -> FALSE
ConditionsOK(d) ==
  \A i \in DOMAIN d.bcs :
    LET b == d.bcs[i]
    IN /\ b.type \in Types /\ b.set \in Names(d.sets)
       /\ b.coord \in IF b.type \in ScalarTypes THEN {"x"} ELSE { "x", "y", "z" }
       /\ Finite(d, b)

ContactOK(d) ==
  LET c == d.contact
  IN c.on => /\ c.radius /\ c.freq = "pos" /\ Len(c.models) > 0
             /\ \A i \in DOMAIN c.models : Equipped(c.models[i], ContactNeeds)
             /\ \A i \in DOMAIN c.inter :
                  /\ c.inter[i].model \in Names(c.models)
                  /\ c.inter[i].kind = "Pair" => { c.inter[i].first, c.inter[i].second } \subseteq MeshBlocks(d)
             /\ \A i \in DOMAIN d.entries : d.entries[i].hor = "ok"

Fields == { "Displacement", "Velocity", "Force_Density", "Volume", "Block_Id", "Coordinates", "Acceleration" }
QuantitiesOK(d) == \A i \in DOMAIN d.comps :
  /\ d.comps[i].cls = "Block_Data" /\ d.comps[i].calc \in { "Sum", "Minimum", "Maximum" }
  /\ d.comps[i].block \in MeshBlocks(d) /\ d.comps[i].var \in Fields /\ d.comps[i].label # ""
Labels(d) == { d.comps[i].label : i \in DOMAIN d.comps } \ {""}
OutputOK(d) == \A i \in DOMAIN d.outs :
  /\ d.outs[i].type \in { "", "ExodusII" }
  /\ \A j \in DOMAIN d.outs[i].vars : d.outs[i].vars[j] \in Fields \cup Labels(d)

Valid(d) ==
  /\ d.file = "ok"
  /\ MeshOK(d)
  /\ MaterialsOK(d)
  /\ DamageOK(d)
  /\ BlocksOK(d) /\ SetsOK(d) /\ SolverOK(d) /\ ConditionsOK(d) /\ ContactOK(d) /\ QuantitiesOK(d) /\ OutputOK(d)
(* parts that are wrong, for reports *)
Wrong(d) ==
  { w \in { "file", "mesh", "material", "damage", "blocks", "sets", "solver", "conditions", "contact", "quantities", "output" } :
      ~CASE w = "file" -> d.file = "ok"
         [] w = "mesh" -> MeshOK(d)
         [] w = "material" -> MaterialsOK(d)
         [] w = "damage" -> DamageOK(d)
         [] w = "blocks" -> BlocksOK(d)
         [] w = "sets" -> SetsOK(d)
         [] w = "solver" -> SolverOK(d)
         [] w = "contact" -> ContactOK(d)
         [] w = "quantities" -> QuantitiesOK(d)
         [] w = "output" -> OutputOK(d)
         [] OTHER -> SetsOK(d) => ConditionsOK(d) }
=============================================================================
