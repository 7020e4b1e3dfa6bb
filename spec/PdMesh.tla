------------------------------- MODULE PdMesh -------------------------------
(* Meshes: points, blocks, assignment of deck entries to blocks, horizons, families and bond    *)
(* filters.  A mesh is a record                                                                 *)
(*   pts : sequence of integer positions      blk : sequence of block numbers                   *)
(*   entries : deck entries of the Blocks section, in the order of the deck:                    *)
(*             [names |-> sequence of block numbers (0 is the word "default"), hor |-> expr, ...]*)
(*   filters : bond filters        omit : TRUE when bonds between blocks are omitted            *)
EXTENDS PdBase

Pts(m) == DOMAIN m.pts

(* --- which entry of the Blocks section governs block b ------------------------------------- *)
Names(en) == { en.names[i] : i \in DOMAIN en.names }
NamedBy(m, b) == { i \in DOMAIN m.entries : b \in Names(m.entries[i]) }
DefaultEntry(m) == { i \in DOMAIN m.entries : 0 \in Names(m.entries[i]) }
EntryOf(m, b) == IF NamedBy(m, b) # {} THEN CHOOSE i \in NamedBy(m, b) : TRUE
                 ELSE CHOOSE i \in DefaultEntry(m) : TRUE
EntryOfPoint(m, p) == m.entries[EntryOf(m, m.blk[p])]

(* --- horizons and families ----------------------------------------------------------------- *)
Horizon(m, p) == Eval(EntryOfPoint(m, p).hor, m.pts[p], 0)

(* --- bond filters -------------------------------------------------------------------------- *)
(* plane: n (length k in grid units), r0, ub (length k), k, a (extent along ub x n), b (extent along ub) *)
(* A bond is cut when the segment between its ends meets the bounded plane.  A bond that lies in   *)
(* (or parallel to) the plane is not cut.  "loose" counts contact with an edge of the rectangle or *)
(* with an end of the bond as a cut, "strict" does not.                                           *)
SegmentParam(n, r0, p0, p1) == << Dot(VSub(r0, p0), n), Dot(VSub(p1, p0), n) >>
(* numerator (times |den|) of the coordinate of the intersection point along w, relative to r0 *)
AlongTimesDen(w, r0, p0, p1, num, den) ==
  Sgn(den) * (Dot(w, VSub(p0, r0)) * den + num * Dot(w, VSub(p1, p0)))
PlaneCut(f, p0, p1, loose) ==
  LET s == SegmentParam(f.n, f.r0, p0, p1)
      num == Sgn(s[2]) * s[1]
      den == Abs(s[2])
      ua == Cross(f.ub, f.n)                    \* length k*k
      A == AlongTimesDen(ua, f.r0, p0, p1, s[1], s[2])
      B == AlongTimesDen(f.ub, f.r0, p0, p1, s[1], s[2])
  IN /\ den # 0
     /\ IF loose THEN /\ 0 <= num /\ num <= den
                      /\ 0 <= A /\ A <= f.a * f.k * f.k * den
                      /\ 0 <= B /\ B <= f.b * f.k * den
        ELSE /\ 0 < num /\ num < den
             /\ 0 < A /\ A < f.a * f.k * f.k * den
             /\ 0 < B /\ B < f.b * f.k * den
DiskCut(f, p0, p1, loose) ==
  LET s == SegmentParam(f.n, f.c, p0, p1)
      num == Sgn(s[2]) * s[1]
      den == Abs(s[2])
      \* den * (intersection - centre)
      d == VAdd(VScale(den, VSub(p0, f.c)), VScale(num, VSub(p1, p0)))
  IN /\ den # 0
     /\ IF loose THEN 0 <= num /\ num <= den /\ Norm2(d) <= f.r * f.r * den * den
                 ELSE 0 < num /\ num < den /\ Norm2(d) < f.r * f.r * den * den
(* exact filters lie on the grid: the implementation decides contacts without rounding: an end of the *)
(* bond on the filter is a cut, the edge of a rectangle belongs to it, the rim of a disk does not     *)
ExactCut(f, p0, p1) ==
  IF f.kind = "plane" THEN PlaneCut(f, p0, p1, TRUE)
  ELSE LET s == SegmentParam(f.n, f.c, p0, p1)
           num == Sgn(s[2]) * s[1]
           den == Abs(s[2])
           d == VAdd(VScale(den, VSub(p0, f.c)), VScale(num, VSub(p1, p0)))
       IN den # 0 /\ 0 <= num /\ num <= den /\ Norm2(d) < f.r * f.r * den * den
FCut(f, p0, p1, loose) ==
  IF f.exact THEN ExactCut(f, p0, p1)
  ELSE IF f.kind = "plane" THEN PlaneCut(f, p0, p1, loose) ELSE DiskCut(f, p0, p1, loose)
Cut(m, p, q, loose) == \E i \in DOMAIN m.filters : FCut(m.filters[i], m.pts[p], m.pts[q], loose)

Near(m, p, q) == LET h == Horizon(m, p) IN Dist2(m.pts[p], m.pts[q]) <= h * h
Joined(m, p, q) == ~m.omit \/ m.blk[p] = m.blk[q]

(* the family a point certainly has, and the one it has at most (they differ only where a filter  *)
(* that is not on the grid touches a bond)                                                       *)
FamilyMin(m, p) == { q \in Pts(m) \ {p} : Near(m, p, q) /\ Joined(m, p, q) /\ ~Cut(m, p, q, TRUE) }
FamilyMax(m, p) == { q \in Pts(m) \ {p} : Near(m, p, q) /\ Joined(m, p, q) /\ ~Cut(m, p, q, FALSE) }
Family(m, p) == FamilyMax(m, p)

(* --- tensor-product grids ------------------------------------------------------------------- *)
(* n = <<nx,ny,nz>> cells, each 2*hw[d] wide in direction d (half widths), origin o: centres are  *)
(* o + (2 i + 1) hw                                                                              *)
GridSize(g) == g.n[1] * g.n[2] * g.n[3]
GridIndex(g, id) == LET i == id - 1 IN << i % g.n[1], (i \div g.n[1]) % g.n[2], i \div (g.n[1] * g.n[2]) >>
GridPoint(g, id) == LET ix == GridIndex(g, id)
                    IN [ d \in 1..3 |-> g.o[d] + (2 * ix[d] + 1) * g.hw[d] ]
(* "ball": the points closer than the horizon.  "box" (default): the cells up to the number of cells  *)
(* that the horizon spans in each direction, to the nearest cell, halves upwards                      *)
GridReach(g, d) == (g.h + g.hw[d]) \div (2 * g.hw[d])
GridFamily(g, id) ==
  IF g.shape = "ball"
  THEN { j \in 1..GridSize(g) : j # id /\ Dist2(GridPoint(g, id), GridPoint(g, j)) < g.h * g.h }
  ELSE { j \in 1..GridSize(g) : j # id /\ \A d \in 1..3 : Abs(GridIndex(g, id)[d] - GridIndex(g, j)[d]) <= GridReach(g, d) }
=============================================================================
