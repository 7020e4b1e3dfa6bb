------------------------------- MODULE MCForce -------------------------------
(* The force law of PdForce on every small cluster of a family of clusters: three points on a line   *)
(* in one or two blocks, every volume, displacement, horizon and set of broken bonds.  Momentum is   *)
(* conserved, rigid translation costs nothing, and a bond that is broken on both sides is as good    *)
(* as absent from the force (not from the weighted volume).                                          *)
EXTENDS PdForce
CONSTANTS Mats, Infl, Design
VARIABLES m, u, br
vars == <<m, u, br>>
Xs == << <<0, 0, 0>>, <<4, 0, 0>>, <<9, 3, 0>> >>
Entry(b, mat, h, K, mu) == [ names |-> <<b>>, hor |-> <<"num", h>>, mat |-> mat, K |-> K, mu |-> mu, al |-> 0, crit |-> 0, dal |-> 0, hgt |-> 1 ]
Bodies == { [ pts |-> Xs, blk |-> <<1, b2, b3>>, filters |-> <<>>, omit |-> FALSE, infl |-> f, vol |-> <<v1, 1, v3>>,
              entries |-> << Entry(1, m1, h1, 2, 1), Entry(2, m2, h2, 1, 3) >> ]
            : b2 \in 1..2, b3 \in 1..2, f \in Infl, v1 \in 1..2, v3 \in {3}, m1 \in Mats, m2 \in {"lps"}, h1 \in {5, 11}, h2 \in {6, 11} }
Init == m \in { Prepared(b) : b \in Bodies } /\ u = <<>> /\ br = {}
Next == /\ u = <<>>
        /\ u' \in [ 1..3 -> { <<0, 0, 0>>, <<1, 0, 0>>, <<-1, 1, 0>> } ]
        /\ br' \in SUBSET { pq \in (1..3) \X (1..3) : pq[2] \in m.fam[pq[1]] }
        /\ UNCHANGED m
Spec == Init /\ [][Next]_vars
Y == TLCEval([ p \in 1..3 |-> VAdd(Xs[p], u[p]) ])
S == TLCEval([ p \in 1..3 |-> State(m, Y, [ q \in 1..3 |-> 0 ], br, p) ])
Weight(p, q) == IF Design = "own volume" THEN m.vol[p] ELSE m.vol[q]
F(p, c) ==
  IF Design = "good" THEN Force(m, Y, S, p)[c].f
  ELSE LET A == TLCEval([ q \in Mutual(m, S, p) |-> TLCEval(Along(m, Y, S, p, q)) ])
       IN IF Design = "own volume" THEN SumOver(DOMAIN A, [ q \in DOMAIN A |-> MulDiv(A[q].t, A[q].d[c], 10000) * m.vol[p] ])
          ELSE SumOver(DOMAIN S[p].B, [ q \in DOMAIN S[p].B |-> MulDiv(2 * Pull(m, S, p, q).t, A[q].d[c], 10000) * m.vol[q] ])    \* "no reaction"
Conserved == u # <<>> => \A c \in 1..2 : Abs(SumOver(1..3, [ p \in 1..3 |-> F(p, c) * m.vol[p] ])) <= 60
RigidFree == (u # <<>> /\ u[1] = u[2] /\ u[2] = u[3]) => \A p \in 1..3, c \in 1..3 : F(p, c) = 0
(* a bond broken on both sides: the force does not depend on what happens to its ends beyond the others *)
Silent == u # <<>> => \A p \in 1..3 : (\A q \in 1..3 \ {p} : (q \in m.fam[p] => <<p, q>> \in br) /\ (p \in m.fam[q] => <<q, p>> \in br)) =>
             \A c \in 1..3 : F(p, c) = 0
=============================================================================
