------------------------------- MODULE PdStore -------------------------------
(* Blocks as stores of fields: point data on owned points and ghosts, bond data, global data, the  *)
(* two steps of a field, and the movement of data between stores, owners and copies.               *)
(*   m.ranks, m.blk                 number of ranks, block of every point                          *)
(*   m.dists  : [owner, fam]        distributions of the points, with their families               *)
(*   m.fields : [rel, size, two]    rel "point" | "bond" | "global", values per point, two steps   *)
(*   m.stores : [blk, fields, dist] the stores: block, numbers of its fields, first distribution   *)
EXTENDS PdBase

Ranks(m) == 1..m.ranks
Members(m, b) == { g \in DOMAIN m.blk : m.blk[g] = b }
Owned(m, d, b, r) == { g \in Members(m, b) : m.dists[d].owner[g] = r }
Held(m, d, b, r) == Owned(m, d, b, r) \cup UNION { Range(m.dists[d].fam[g]) : g \in Owned(m, d, b, r) }
Bonded(m, d, b, r) == { g \in Owned(m, d, b, r) : m.dists[d].fam[g] # <<>> }
StepsOf(fd) == IF fd.two THEN {"N", "NP1"} ELSE {"NONE"}
Zero(n) == [ i \in 1..n |-> 0 ]
FieldsIn(m, k) == { f \in Range(m.stores[k].fields) : m.fields[f].rel # "global" }
(* global fields are shared by all stores: a field exists once one of them asked for it *)
Globals(m) == { f \in DOMAIN m.fields : m.fields[f].rel = "global" /\ \E k \in DOMAIN m.stores : f \in Range(m.stores[k].fields) }

EmptyField(m, k, d, f) ==
  LET b == m.stores[k].blk
      fd == m.fields[f]
  IN [ s \in StepsOf(fd) |-> [ r \in Ranks(m) |->
         IF fd.rel = "bond" THEN [ g \in Bonded(m, d, b, r) |-> Zero(Len(m.dists[d].fam[g])) ]
         ELSE [ g \in Held(m, d, b, r) |-> Zero(fd.size) ] ] ]
Created(m) ==
  [ dist |-> [ k \in DOMAIN m.stores |-> m.stores[k].dist ],
    val |-> [ k \in DOMAIN m.stores |-> [ f \in FieldsIn(m, k) |-> EmptyField(m, k, m.stores[k].dist, f) ] ],
    mother |-> [ k \in DOMAIN m.stores |-> << [ g \in DOMAIN m.blk |-> Zero(1) ], [ g \in DOMAIN m.blk |-> Zero(3) ] >> ],
    glob |-> [ f \in Globals(m) |-> [ s \in StepsOf(m.fields[f]) |-> [ r \in Ranks(m) |-> Zero(m.fields[f].size) ] ] ] ]

Has(m, k, f, s) == /\ s \in StepsOf(m.fields[f])
                   /\ IF m.fields[f].rel = "global" THEN f \in Globals(m) ELSE f \in FieldsIn(m, k)

(* --- operations ---------------------------------------------------------------------------- *)
Write(st, k, f, s, r, g, v) == [ st EXCEPT !.val[k][f][s][r][g] = v ]
WriteGlobal(st, f, s, r, v) == [ st EXCEPT !.glob[f][s][r] = v ]
WriteMother(st, k, w, g, v) == [ st EXCEPT !.mother[k][w][g] = v ]

(* the old step becomes what the new step was; the new step then holds the former old step or is   *)
(* left as it is; global data are copied so that several stores may be updated one after another   *)
Update(m, st, k, swap) ==
  [ st EXCEPT !.val[k] = [ f \in DOMAIN @ |-> IF m.fields[f].two
                                              THEN [ N |-> @[f].NP1, NP1 |-> IF swap THEN @[f].N ELSE @[f].NP1 ] ELSE @[f] ],
              !.glob = [ f \in DOMAIN @ |-> IF m.fields[f].two THEN [ N |-> @[f].NP1, NP1 |-> @[f].NP1 ] ELSE @[f] ] ]
OwnerOf(m, st, k, g) == m.dists[st.dist[k]].owner[g]
(* copies of points of this block are refreshed by their owners; a store only holds data of other blocks' *)
(* points as copies, which nobody in this store owns                                                      *)
OwnValue(m, st, k, f, s, g) == st.val[k][f][s][OwnerOf(m, st, k, g)][g]
Mine(m, k, g) == m.blk[g] = m.stores[k].blk
Scatter(m, st, k) ==
  [ st EXCEPT !.val[k] = [ f \in DOMAIN @ |->
      IF m.fields[f].rel = "bond" THEN @[f]
      ELSE [ s \in DOMAIN @[f] |-> [ r \in Ranks(m) |-> [ g \in DOMAIN @[f][s][r] |->
             IF Mine(m, k, g) THEN OwnValue(m, st, k, f, s, g) ELSE @[f][s][r][g] ] ] ] ] ]
(* everything store k holds is taken from the same rank of store j *)
Copy(m, st, k, j) ==
  [ st EXCEPT !.val[k] = [ f \in DOMAIN @ |-> [ s \in DOMAIN @[f] |-> [ r \in Ranks(m) |->
      [ g \in DOMAIN @[f][s][r] |-> st.val[j][f][s][r][g] ] ] ] ] ]
Import(m, st, k, f, s, w) ==
  IF ~Has(m, k, f, s) THEN st
  ELSE [ st EXCEPT !.val[k][f][s] = [ r \in Ranks(m) |-> [ g \in DOMAIN @[r] |-> st.mother[k][w][g] ] ] ]
Holders(m, st, k, f, s, g) == { r \in Ranks(m) : g \in DOMAIN st.val[k][f][s][r] }
Total(m, st, k, f, s, g, i) == LET H == Holders(m, st, k, f, s, g) IN SumOver(H, [ r \in H |-> st.val[k][f][s][r][g][i] ])
(* assembly into a vector of zeros *)
ExportAdd(m, st, k, f, s, w) ==
  [ st EXCEPT !.mother[k][w] = [ g \in DOMAIN @ |-> [ i \in DOMAIN @[g] |->
      IF Has(m, k, f, s) THEN Total(m, st, k, f, s, g, i) ELSE 0 ] ] ]
(* redistribution: data of the points of the block follow their owners, copies get the owner's value *)
Rebalance(m, st, k, d) ==
  LET b == m.stores[k].blk
      val(f) == LET e == EmptyField(m, k, d, f)
                IN [ s \in DOMAIN e |-> [ r \in Ranks(m) |-> [ g \in DOMAIN e[s][r] |->
                       IF Mine(m, k, g) THEN OwnValue(m, st, k, f, s, g) ELSE e[s][r][g] ] ] ]
  IN [ st EXCEPT !.dist[k] = d, !.val[k] = [ f \in DOMAIN @ |-> val(f) ] ]
=============================================================================
