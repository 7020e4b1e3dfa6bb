------------------------------ MODULE MCFilter ------------------------------
(* Bond filters as a design: all bonds of a small lattice against all small planes and disks.     *)
EXTENDS PdMesh
CONSTANT W        \* lattice 0..W in x and y, 0..1 in z
VARIABLES f, p, q
vars == <<f, p, q>>
Lat == { <<x, y, z>> : x \in 0..W, y \in 0..W, z \in {0, 1} }
Dirs == { <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<-1,0,0>>, <<0,-1,0>> }
Planes == { [kind |-> "plane", n |-> n, ub |-> u, r0 |-> r, k |-> 1, a |-> a, b |-> b, exact |-> TRUE] :
            n \in Dirs, u \in { d \in Dirs : TRUE }, r \in { <<x, y, 0>> : x, y \in 0..W }, a \in {1, 3}, b \in {1, 3} }
Disks == { [kind |-> "disk", n |-> n, c |-> c, k |-> 1, r |-> r, exact |-> TRUE] :
            n \in Dirs, c \in { <<x, y, 0>> : x, y \in 0..W }, r \in {1, 2} }
Init == /\ f \in { g \in Planes : Dot(g.n, g.ub) = 0 } \cup Disks
        /\ p = <<0, 0, 0>> /\ q = <<0, 0, 0>>
Next == /\ p = q
        /\ \E a, b \in Lat : a # b /\ p' = a /\ q' = b
        /\ UNCHANGED f
Spec == Init /\ [][Next]_vars
(* a bond is the same bond from either end *)
SameFromBothEnds == FCut(f, p, q, TRUE) = FCut(f, q, p, TRUE)
(* touching counts less than crossing *)
Ordered == /\ (f.kind = "plane" => (PlaneCut(f, p, q, FALSE) => PlaneCut(f, p, q, TRUE)))
           /\ (f.kind = "disk"  => (DiskCut(f, p, q, FALSE) => DiskCut(f, p, q, TRUE)))
(* the normal's sense does not matter for a disk; for a plane it turns the rectangle over *)
Sides == LET s == SegmentParam(f.n, IF f.kind = "plane" THEN f.r0 ELSE f.c, p, q)
             sp == Dot(VSub(p, IF f.kind = "plane" THEN f.r0 ELSE f.c), f.n)
             sq == Dot(VSub(q, IF f.kind = "plane" THEN f.r0 ELSE f.c), f.n)
         IN FCut(f, p, q, TRUE) => (sp * sq <= 0 /\ ~(sp = 0 /\ sq = 0))
NormalSense == f.kind = "disk" => (FCut(f, p, q, TRUE) = FCut([f EXCEPT !.n = VNeg(f.n)], p, q, TRUE))
Invariant == SameFromBothEnds /\ Ordered /\ Sides /\ NormalSense
=============================================================================
