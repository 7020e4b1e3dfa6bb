------------------------------- MODULE MCGrid -------------------------------
(* Grids as a design: all small grids, widths and horizons.  The grid is generated slab by slab by *)
(* several processors; each generates the cells whose numbers fall in its range.                  *)
EXTENDS PdMesh
CONSTANTS N, HW, H, Ranks
VARIABLES g, np, cuts, made
vars == <<g, np, cuts, made>>
Init == /\ g \in [ n : [1..3 -> 1..N], hw : [1..3 -> 1..HW], h : 1..H, o : { [d \in 1..3 |-> 0] }, shape : {"ball", "box"} ]
        /\ np \in 1..Ranks
        /\ cuts = [ r \in 1..Ranks |-> (GridSize(g) * Min2(r, np)) \div np ]
        /\ made = [ r \in 1..Ranks |-> {} ]
Generate(r) == /\ made[r] = {}
               /\ LET lo == (IF r = 1 THEN 0 ELSE cuts[r-1]) + 1
                  IN  lo <= cuts[r] /\ made' = [made EXCEPT ![r] = { [id |-> i, pos |-> GridPoint(g, i)] : i \in lo..cuts[r] }]
               /\ UNCHANGED <<g, np, cuts>>
Next == \E r \in 1..Ranks : Generate(r)
Spec == Init /\ [][Next]_vars
All == UNION { made[r] : r \in 1..Ranks }
NoDuplicates == \A r, s \in 1..Ranks : r # s => made[r] \cap made[s] = {}
Distinct == \A a, b \in All : a.pos = b.pos => a.id = b.id
Complete == ~(ENABLED Next) => /\ { a.id : a \in All } = 1..GridSize(g)
                               /\ \A i, j, k \in 0..N-1 :
                                    (i < g.n[1] /\ j < g.n[2] /\ k < g.n[3]) =>
                                    \E a \in All : /\ a.id = 1 + i + g.n[1] * (j + g.n[2] * k)
                                                   /\ a.pos[1] = (2*i+1) * g.hw[1] /\ a.pos[2] = (2*j+1) * g.hw[2] /\ a.pos[3] = (2*k+1) * g.hw[3]
BallInBox == g.shape = "ball" => \A i \in 1..GridSize(g) : GridFamily(g, i) \subseteq GridFamily([g EXCEPT !.shape = "box", !.h = g.h + MaxSet(Range(g.hw))], i)
Symmetric == ~(ENABLED Next) => \A i \in 1..GridSize(g) : \A j \in GridFamily(g, i) : i \in GridFamily(g, j)
=============================================================================
