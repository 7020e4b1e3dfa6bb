------------------------------ MODULE MCReduce -------------------------------
(* Global quantities are computed by walking over the owned points of every block on every rank, *)
(* in any interleaving, and combining the results of the ranks.  However points, values, blocks  *)
(* and owners are arranged, the combined result is the definition over the whole body.           *)
(* Flaw selects a wrong design:                                                                  *)
(*   "tiny"   the maximum starts at zero               "sized"  sizes of blocks are added up     *)
(*   "ghosts" copies on other ranks are counted too    "first"  the nearest point of the lowest  *)
(*                                                              rank wins                        *)
EXTENDS PdBase
CONSTANTS Flaw, NPts, NRanks, NBlk, Low, High
VARIABLES own, blk, val, dist, copies, todo, acc, result
vars == <<own, blk, val, dist, copies, todo, acc, result>>
P == 1..NPts
R == 1..NRanks
B == 1..NBlk
Huge == 1000

Start == [ lo |-> Huge, hi |-> IF Flaw = "tiny" THEN 0 ELSE -Huge, sum |-> 0,
           part |-> [ b \in B |-> 0 ], near |-> <<Huge, Huge>> ]
Init ==
  /\ own \in [P -> R] /\ blk \in [P -> B] /\ val \in [P -> (-Low)..High] /\ dist \in [P -> 1..2]
  /\ copies \in IF Flaw = "ghosts" THEN [P -> SUBSET R] ELSE {[ p \in P |-> {} ]}
  /\ todo = [ r \in R |-> { p \in P : own[p] = r \/ r \in copies[p] } ]
  /\ acc = [ r \in R |-> Start ]
  /\ result = <<>>

Closer(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Visit(r, p) ==
  /\ p \in todo[r] /\ \A q \in todo[r] : p <= q
  /\ todo' = [ todo EXCEPT ![r] = @ \ {p} ]
  /\ acc' = [ acc EXCEPT ![r] = [ lo |-> Min2(@.lo, val[p]), hi |-> Max2(@.hi, val[p]), sum |-> @.sum + val[p],
                                  part |-> [ @.part EXCEPT ![blk[p]] = @ + val[p] ],
                                  near |-> IF Closer(<<dist[p], p>>, @.near) THEN <<dist[p], p>> ELSE @.near ] ]
  /\ UNCHANGED <<own, blk, val, dist, copies, result>>
(* the nearest point: the smallest distance first, then the smallest id at that distance *)
NearestOf ==
  LET best == MinSet({ acc[r].near[1] : r \in R })
      cand == { r \in R : acc[r].near[1] = best }
  IN IF Flaw = "first" THEN acc[MinSet(cand)].near[2] ELSE MinSet({ acc[r].near[2] : r \in cand })
Combine ==
  /\ result = <<>> /\ \A r \in R : todo[r] = {}
  /\ LET total(b) == SumOver(R, [ r \in R |-> acc[r].part[b] ])
     IN result' = [ lo |-> MinSet({ acc[r].lo : r \in R }), hi |-> MaxSet({ acc[r].hi : r \in R }),
                    sum |-> SumOver(R, [ r \in R |-> acc[r].sum ]),
                    size |-> IF Flaw = "sized" THEN SumOver(B, [ b \in B |-> Abs(total(b)) ])
                             ELSE Abs(SumOver(B, [ b \in B |-> total(b) ])),
                    near |-> NearestOf ]
  /\ UNCHANGED <<own, blk, val, dist, copies, todo, acc>>
Next == (\E r \in R, p \in P : Visit(r, p)) \/ Combine
Spec == Init /\ [][Next]_vars

Definition ==
  result # <<>> =>
    /\ result.lo = MinSet(Range(val)) /\ result.hi = MaxSet(Range(val))
    /\ result.sum = SumOver(P, val) /\ result.size = Abs(SumOver(P, val))
    /\ result.near = MinSet({ p \in P : \A q \in P : dist[p] <= dist[q] })
=============================================================================
