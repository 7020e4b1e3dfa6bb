------------------------------- MODULE MCGhost -------------------------------
(* The distributed neighbour search: the points of a line are divided by recursive bisection into *)
(* consecutive groups (points at the same place may end up on both sides of a cut).  Every rank    *)
(* sends the points of its frame to the ranks whose region may need them, and then searches among  *)
(* the points it owns or has received.  Design property: no rank misses a point within one of its  *)
(* points' horizons, whatever the positions, horizons, partition and order of messages.            *)
EXTENDS PdBase
CONSTANTS N,        \* number of points
          L,        \* positions are 1..L
          MaxH,     \* horizons are 1..MaxH
          Ranks,    \* number of ranks
          Reach,    \* "global": the largest horizon of all ranks bounds frame and exchange; "own": the sender's
          Frames    \* "closed": the frame includes points exactly one horizon from its end; "open": not at the maximum
VARIABLES pos, hor, own,
          sent,     \* ranks that have sent their frame
          known,    \* known[r]: points known to rank r
          fam       \* families found by ranks that have searched
vars == <<pos, hor, own, sent, known, fam>>
R == 1..Ranks
P == 1..N
Owned(r) == { p \in P : own[p] = r }
GlobalMax == MaxSet({ hor[p] : p \in P })
RankMax(r) == MaxSet({ hor[p] : p \in Owned(r) })
Width(r) == IF Reach = "global" THEN GlobalMax ELSE RankMax(r)
Frame(r) == IF Owned(r) = {} THEN {}
            ELSE LET X == { pos[p] : p \in Owned(r) } lo == MinSet(X) hi == MaxSet(X)
                 IN { p \in Owned(r) : \/ pos[p] <= lo + Width(r)
                                       \/ pos[p] > hi - Width(r)
                                       \/ Frames = "closed" /\ pos[p] = hi - Width(r) }
(* cut between ranks r and r+1, in half units: midway between the neighbouring points, or outside *)
Cut2(r) == LET below == { pos[p] : p \in { q \in P : own[q] <= r } }
               above == { pos[p] : p \in { q \in P : own[q] > r } }
           IN IF below = {} THEN 0 ELSE IF above = {} THEN 2 * L + 2 ELSE MaxSet(below) + MinSet(above)
LoR(r) == IF r = 1 THEN -100 ELSE Cut2(r-1)
HiR(r) == IF r = Ranks THEN 100 ELSE Cut2(r)
Box(p) == IF Reach = "global" THEN GlobalMax ELSE hor[p]
Meets(p, r) == 2 * (pos[p] + Box(p)) >= LoR(r) /\ 2 * (pos[p] - Box(p)) <= HiR(r)

Init == /\ pos \in [P -> 1..L] /\ \A p \in 1..(N-1) : pos[p] <= pos[p+1]
        /\ hor \in [P -> 1..MaxH]
        /\ own \in [P -> R]
        /\ \A p, q \in P : pos[p] < pos[q] => own[p] <= own[q]
        /\ sent = {} /\ known = [r \in R |-> Owned(r)] /\ fam = [r \in R |-> {}]
Send(r) == /\ r \notin sent
           /\ sent' = sent \cup {r}
           /\ known' = [s \in R |-> known[s] \cup { p \in Frame(r) : s # r /\ Meets(p, s) }]
           /\ UNCHANGED <<pos, hor, own, fam>>
Search(r) == /\ sent = R /\ fam[r] = {} /\ Owned(r) # {}
             /\ fam' = [fam EXCEPT ![r] = { <<q, p>> \in Owned(r) \X known[r] : Abs(pos[q] - pos[p]) <= hor[q] }]
             /\ UNCHANGED <<pos, hor, own, sent, known>>
Next == \E r \in R : Send(r) \/ Search(r)
Spec == Init /\ [][Next]_vars
Complete == \A r \in R : fam[r] # {} =>
              fam[r] = { <<q, p>> \in Owned(r) \X P : Abs(pos[q] - pos[p]) <= hor[q] }
Symmetric == (\A r \in R : Owned(r) = {} \/ fam[r] # {}) /\ (\A p, q \in P : hor[p] = hor[q])
             => \A r, s \in R : \A b \in fam[r] : b[2] \in Owned(s) => <<b[2], b[1]>> \in fam[s]
=============================================================================
