------------------------------ MODULE MCTangent ------------------------------
(* Assembly of the tangent over ranks: every rank works through its points in any order and adds the   *)
(* contribution of each to the rows of its closed family, directly where it owns the row and through   *)
(* messages to the owner where it does not; when everybody has finished the messages are added, and    *)
(* the prescribed components are decoupled, every rank seeing its own rows only.  The matrix is built  *)
(* twice, the second time for another configuration.  Designs: right; refuted: drop (rows of others    *)
(* are ignored), stale (the matrix is not emptied before it is built again), rows (only rows are       *)
(* decoupled), owncols (columns are decoupled by the owner of the column only), early (prescribed      *)
(* components are decoupled before the messages are added).                                            *)
EXTENDS PdTangent
CONSTANTS N, R, Design
Points == 1..N
Ranks == 1..R
VARIABLES fam, own, fixed, pass, todo, K, sent, stage
vars == <<fam, own, fixed, pass, todo, K, sent, stage>>
Zero == [i \in Points |-> [j \in Points |-> 0]]
Term(r, a, b) == pass * (r + 4 * a + 16 * b)
Expected(a, b) == LET RECURSIVE S(_)
                      S(r) == IF r = 0 THEN 0 ELSE S(r - 1) + (IF {a, b} \subseteq Closed(fam, r) THEN Term(r, a, b) ELSE 0)
                  IN S(N)
RECURSIVE AsList(_)
AsList(s) == IF s = {} THEN << >> ELSE <<MinSet(s)>> \o AsList(s \ {MinSet(s)})
Messages(a, b) == LET s == { m \in sent : m[2] = a /\ m[3] = b } IN SumOver(s, [m \in s |-> m[4]])
Init ==
  /\ fam \in { [p \in Points |-> AsList(f[p])] : f \in { f \in [Points -> SUBSET Points] : \A p \in Points : p \notin f[p] } }
  /\ own \in [Points -> Ranks]
  /\ fixed \in SUBSET Points
  /\ pass = 1 /\ todo = Points /\ K = Zero /\ sent = {} /\ stage = "fill"
Add(p) ==
  /\ stage = "fill" /\ p \in todo
  /\ LET c == Closed(fam, p)
     IN /\ K' = [a \in Points |-> [b \in Points |-> K[a][b] + (IF {a, b} \subseteq c /\ own[a] = own[p] THEN Term(p, a, b) ELSE 0)]]
        /\ sent' = IF Design = "drop" THEN sent ELSE sent \cup { <<p, a, b, Term(p, a, b)>> : a \in { x \in c : own[x] # own[p] }, b \in c }
  /\ todo' = todo \ {p}
  /\ UNCHANGED <<fam, own, fixed, pass, stage>>
Assemble ==
  /\ stage = "fill" /\ todo = {} /\ Design # "early"
  /\ K' = [a \in Points |-> [b \in Points |-> K[a][b] + Messages(a, b)]]
  /\ sent' = {}
  /\ stage' = "decouple"
  /\ UNCHANGED <<fam, own, fixed, pass, todo>>
Clear(a, b) ==
  CASE Design = "rows" -> a \in fixed
    [] Design = "owncols" -> a \in fixed \/ (b \in fixed /\ own[a] = own[b])
    [] OTHER -> a \in fixed \/ b \in fixed
Decouple ==
  /\ stage = "decouple" \/ (Design = "early" /\ stage = "fill" /\ todo = {})
  /\ K' = [a \in Points |-> [b \in Points |-> IF Clear(a, b) THEN (IF a = b THEN -7 ELSE 0) ELSE K[a][b]]]
  /\ stage' = IF Design = "early" THEN "late" ELSE "check"
  /\ UNCHANGED <<fam, own, fixed, pass, todo, sent>>
Late ==
  /\ stage = "late"
  /\ K' = [a \in Points |-> [b \in Points |-> K[a][b] + Messages(a, b)]]
  /\ sent' = {} /\ stage' = "check"
  /\ UNCHANGED <<fam, own, fixed, pass, todo>>
Again ==
  /\ stage = "check" /\ pass = 1
  /\ pass' = 2 /\ todo' = Points /\ stage' = "fill"
  /\ K' = IF Design = "stale" THEN K ELSE Zero
  /\ UNCHANGED <<fam, own, fixed, sent>>
Next == (\E p \in Points : Add(p)) \/ Assemble \/ Decouple \/ Late \/ Again
Spec == Init /\ [][Next]_vars
Right == stage = "check" => \A a, b \in Points : /\ Decoupled(fixed, a, b, K[a][b], Expected(a, b))
                                                 /\ ~Coupled(fam, a, b) => K[a][b] = 0 \/ (a = b /\ a \in fixed)
=============================================================================
