----------------------------- MODULE MCAssemble -----------------------------
(* Distributed evaluation of pair forces.  Points are owned by ranks and belong to blocks; each   *)
(* rank keeps, for each block, an overlap vector over the block's points it owns and their        *)
(* neighbors.  Evaluating bond (p,q) adds to both ends in the overlap vector of p's rank and       *)
(* block; the vectors are then summed into the owners' entries.  Whatever the partition and the    *)
(* order in which (rank, block) pairs proceed, the result is the rank-free sum, in every step.     *)
EXTENDS PdBase
CONSTANTS NPts, NRanks, NBlocks, NEvals, Design
P == 1..NPts
R == 1..NRanks
B == 1..NBlocks
VARIABLES own, blk, fam, loc, glob, todo, round
vars == <<own, blk, fam, loc, glob, todo, round>>

T(p, q, n) == p * 7 + q * 3 + n             \* what bond (p,q) contributes in evaluation n
Mine(r, b) == { p \in P : own[p] = r /\ blk[p] = b }
Overlap(r, b) == Mine(r, b) \cup UNION { fam[p] : p \in Mine(r, b) }
Contribution(r, b, x, n) ==
  SumOver(P, [ p \in P |-> IF p \in Mine(r, b)
                           THEN (IF p = x THEN SumOver(fam[p], [ q \in P |-> T(p, q, n) ]) ELSE 0)
                                - (IF x \in fam[p] /\ Design # "oneside" THEN T(p, x, n) ELSE 0)
                           ELSE 0 ])
RankFree(x, n) == SumOver(fam[x], [ q \in P |-> T(x, q, n) ]) - SumOver({ p \in P : x \in fam[p] }, [ p \in P |-> T(p, x, n) ])

Init ==
  /\ own \in [P -> R] /\ blk \in [P -> B]
  /\ fam \in { f \in [P -> SUBSET P] : \A p \in P : p \notin f[p] }
  /\ loc = [ k \in R \X B |-> [ p \in P |-> 0 ] ]
  /\ glob = [ p \in P |-> 0 ]
  /\ todo = R \X B /\ round = 1
Zeroed(v) == IF Design = "nozero" THEN v ELSE [ p \in P |-> 0 ]
Evaluate(k) ==
  /\ k \in todo
  /\ todo' = todo \ {k}
  /\ loc' = [loc EXCEPT ![k] = [ x \in P |-> Zeroed(@)[x] + IF x \in Overlap(k[1], k[2]) THEN Contribution(k[1], k[2], x, round) ELSE 0 ]]
  /\ UNCHANGED <<own, blk, fam, glob, round>>
RECURSIVE Gather(_, _)
Gather(K, x) ==
  IF K = {} THEN 0
  ELSE LET k == CHOOSE y \in K : TRUE
       IN IF Design = "insert" THEN loc[k][x] ELSE loc[k][x] + Gather(K \ {k}, x)
Assemble ==
  /\ todo = {} /\ round <= NEvals
  /\ glob' = [ x \in P |-> Gather({ k \in R \X B : x \in Overlap(k[1], k[2]) }, x) ]
  /\ round' = round + 1
  /\ todo' = IF round < NEvals THEN R \X B ELSE {}
  /\ UNCHANGED <<own, blk, fam, loc>>
Next == (\E k \in R \X B : Evaluate(k)) \/ Assemble
Spec == Init /\ [][Next]_vars
Correct == (round > 1 /\ (todo = R \X B \/ round > NEvals)) => \A x \in P : glob[x] = RankFree(x, round - 1)
Balanced == (round > 1 /\ (todo = R \X B \/ round > NEvals)) => SumOver(P, glob) = 0
=============================================================================
