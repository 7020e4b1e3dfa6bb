------------------------------- MODULE MCStore -------------------------------
(* The distributed stores refine one memory without ranks: each point has one value per field and  *)
(* step, an update makes the new values the old ones, and neither the refreshing of copies nor any *)
(* redistribution changes anything in that memory.  Values are written by owners only (as the      *)
(* program does), so copies are stale between refreshes.                                           *)
EXTENDS PdStore
CONSTANTS NPts, NRanks, MaxOps, Design
P == 1..NPts
Fam == [ g \in P |-> IF NPts = 1 THEN <<>> ELSE IF g = NPts THEN <<1>> ELSE <<g + 1>> ]
Owners == [P -> 1..NRanks]
Numbering == CHOOSE q \in [1..Cardinality(Owners) -> Owners] : Range(q) = Owners
M == [ ranks |-> NRanks, blk |-> [ g \in P |-> 1 ],
       dists |-> [ i \in 1..Cardinality(Owners) |-> [ owner |-> Numbering[i], fam |-> Fam ] ],
       fields |-> << [ rel |-> "point", size |-> 1, two |-> TRUE ], [ rel |-> "bond", size |-> 1, two |-> TRUE ],
                     [ rel |-> "global", size |-> 1, two |-> TRUE ], [ rel |-> "point", size |-> 1, two |-> FALSE ] >>,
       stores |-> << [ blk |-> 1, fields |-> <<1, 2, 3, 4>>, dist |-> 1 ], [ blk |-> 2, fields |-> <<3>>, dist |-> 1 ] >> ]
VARIABLES st, abs, gabs, ops
vars == <<st, abs, gabs, ops>>
Z(f) == [ s \in StepsOf(M.fields[f]) |-> [ g \in P |-> 0 ] ]
Init == /\ \E d \in DOMAIN M.dists : st = [ Created([ M EXCEPT !.stores[1].dist = d ]) EXCEPT !.dist[1] = d ]
        /\ abs = [ f \in {1, 2, 4} |-> Z(f) ] /\ gabs = [ N |-> 0, NP1 |-> 0 ] /\ ops = 0
Fits(f, g, v) == IF f = 2 THEN [ i \in DOMAIN Fam[g] |-> v ] ELSE <<v>>
DoWrite == \E f \in {1, 2, 4}, g \in P : LET s == IF f = 4 THEN "NONE" ELSE "NP1"
             IN /\ f = 2 => Fam[g] # <<>>
                /\ st' = Write(st, 1, f, s, OwnerOf(M, st, 1, g), g, Fits(f, g, ops + 1))
                /\ abs' = [ abs EXCEPT ![f][s][g] = ops + 1 ] /\ UNCHANGED gabs
DoGlobal == /\ st' = [ st EXCEPT !.glob[3].NP1 = [ r \in 1..NRanks |-> <<ops + 1>> ] ]
            /\ gabs' = [ gabs EXCEPT !.NP1 = ops + 1 ] /\ UNCHANGED abs
U(t, k, swap) ==
  IF Design = "toggle" THEN [ Update(M, t, k, swap) EXCEPT !.glob[3] = [ N |-> t.glob[3].NP1, NP1 |-> t.glob[3].N ] ]
  ELSE IF Design = "keep" THEN [ Update(M, t, k, swap) EXCEPT !.val[k] = [ f \in DOMAIN @ |-> IF M.fields[f].rel = "bond" THEN t.val[k][f] ELSE @[f] ] ]
  ELSE Update(M, t, k, swap)
DoUpdate == \E swap \in BOOLEAN :
              /\ st' = U(U(st, 1, swap), 2, swap)
              /\ abs' = [ f \in DOMAIN abs |-> IF f = 4 THEN abs[f] ELSE [ N |-> abs[f].NP1, NP1 |-> IF swap THEN abs[f].N ELSE abs[f].NP1 ] ]
              /\ gabs' = [ gabs EXCEPT !.N = gabs.NP1 ]
DoScatter == st' = Scatter(M, st, 1) /\ UNCHANGED <<abs, gabs>>
(* "stale": every rank keeps the copies it had and takes only what it had not from the owners *)
Stale(d) == LET n == Rebalance(M, st, 1, d)
            IN [ n EXCEPT !.val[1] = [ f \in DOMAIN @ |-> [ s \in DOMAIN @[f] |-> [ r \in 1..NRanks |-> [ g \in DOMAIN @[f][s][r] |->
                   IF g \in DOMAIN st.val[1][f][s][r] THEN st.val[1][f][s][r][g] ELSE @[f][s][r][g] ] ] ] ] ]
Move == \E d \in DOMAIN M.dists :
          /\ st' = IF Design = "stale" THEN Stale(d) ELSE Rebalance(M, st, 1, d)
          /\ UNCHANGED <<abs, gabs>>
Next == ops < MaxOps /\ ops' = ops + 1 /\ (DoWrite \/ DoGlobal \/ DoUpdate \/ DoScatter \/ Move)
Spec == Init /\ [][Next]_vars
OneMemory == \A f \in {1, 2, 4} : \A s \in DOMAIN abs[f] : \A g \in P :
               LET r == OwnerOf(M, st, 1, g)
               IN (f = 2 => Fam[g] # <<>>) => st.val[1][f][s][r][g] = Fits(f, g, abs[f][s][g])
Globals1 == \A s \in {"N", "NP1"} : \A r \in 1..NRanks : st.glob[3][s][r] = << gabs[s] >>
Shape == \A f \in FieldsIn(M, 1) : \A s \in DOMAIN st.val[1][f] : \A r \in 1..NRanks :
           DOMAIN st.val[1][f][s][r] = DOMAIN EmptyField(M, 1, st.dist[1], f)[s][r]
(* a refreshed or redistributed store has the owners' values everywhere *)
Agree(t) == \A f \in {1, 4} : \A s \in DOMAIN abs[f] : \A r \in 1..NRanks : \A g \in DOMAIN t.val[1][f][s][r] :
              t.val[1][f][s][r][g] = << abs[f][s][g] >>
Refreshed == [][ (Move \/ DoScatter) => Agree(st') ]_vars
=============================================================================
