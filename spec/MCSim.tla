------------------------------- MODULE MCSim --------------------------------
(* Exhaustive exploration of small decks: the machine of PdSim has the properties users rely on. *)
(* Design selects the machine itself ("good") or a plausible wrong one, which TLC must refute.   *)
EXTENDS PdSim
CONSTANTS Design, Kinds

VARIABLES d, s, hist, seen
vars == <<d, s, hist, seen>>

Line == << <<0,0,0>>, <<8,0,0>>, <<16,0,0>> >>
Entry(h, dm) == [names |-> <<0>>, hor |-> <<"num", h>>, den |-> 1, dmg |-> dm, cw |-> 1]
Bare == [pts |-> Line, blk |-> <<1,1,2>>, entries |-> << Entry(9, 0) >>, filters |-> <<>>, omit |-> FALSE,
         dmg |-> <<>>, dal |-> <<0, 0>>, conds |-> <<>>, solvers |-> <<[t0 |-> 0, tf |-> 6, m |-> 2]>>,
         outs |-> <<[freq |-> 1, first |-> 1, last |-> -1, fields |-> <<>>]>>,
         contact |-> [on |-> FALSE, radius |-> 1, reach |-> 1, freq |-> 1], vol |-> <<1,2,3>>, ranks |-> 1]
Cond(k, set, c, e) == [kind |-> k, set |-> set, comp |-> c, expr |-> e]
Num(k) == <<"num", k>>
T == <<"t">>

(* free flight and constant forces; two solvers in a row *)
FreeDecks ==
  { [Bare EXCEPT !.conds = << Cond("ivel", <<1, 2>>, 1, Num(v)), Cond("idisp", <<2>>, 1, Num(u)), Cond("bforce", <<2, 3>>, 1, Num(f)) >>,
                 !.solvers = << [t0 |-> t0, tf |-> t0 + n * m + r, m |-> m], [t0 |-> t0 + n * m, tf |-> t0 + n * m + 4, m |-> 2] >>,
                 !.outs = << [freq |-> fr, first |-> fi, last |-> la, fields |-> <<>>], Bare.outs[1] >>] :
      v \in {-2, 1}, u \in {0, 3}, f \in {-1, 0, 1}, t0 \in {0, 5}, n \in 0..3, m \in {1, 3}, r \in {0}, fr \in {0, 1, 2, 3}, fi \in {1, 3}, la \in {-1, 2} }
(* prescribed motion, also switched off and on *)
HeldDecks ==
  { [Bare EXCEPT !.conds = << Cond("ivel", <<1, 2, 3>>, 1, Num(1)), Cond("pdisp", <<2>>, 1, e), Cond("pdisp", s2, 1, e2), Cond("bforce", <<2>>, 1, Num(1)) >>] :
      e \in { Num(4), <<"mul", 2, T>>, <<"when", "gt", T, Num(3), Num(4)>> }, e2 \in { Num(0), <<"mul", -1, T>> },
      s2 \in { <<1>>, <<1, 2>>, <<>> } }
(* bonds stretched and released *)
TearDecks ==
  { [Bare EXCEPT !.entries = << [Entry(h, 1) EXCEPT !.names = <<1>>], [Entry(h, dm) EXCEPT !.names = <<2>>] >>, !.dmg = << c1, Num(127) >>,
                 !.conds = << Cond("pdisp", <<k>>, 1, <<"if", "lt", T, Num(th), <<"mul", v, T>>, Num(0)>>) >>,
                 !.solvers = << [t0 |-> 0, tf |-> 8, m |-> 2] >>] :
      h \in {9, 17}, dm \in {0, 2}, k \in 1..3, v \in {-1, 1, 3}, th \in {1, 5, 9}, c1 \in { Num(31), Num(95), <<"add", Num(1), <<"mul", 16, T>> >> } }
(* points that warm up while they move apart *)
WarmDecks ==
  { [Bare EXCEPT !.entries = << [Entry(9, 1) EXCEPT !.names = <<1>>], [Entry(9, 2) EXCEPT !.names = <<2>>] >>, !.dmg = << Num(31), Num(31) >>,
                 !.dal = << al, 0 >>,
                 !.conds = << Cond("pdisp", <<2>>, 1, <<"mul", v, T>>), Cond("ptemp", <<k>>, 1, <<"mul", w, T>>) >>,
                 !.solvers = << [t0 |-> 0, tf |-> 8, m |-> 2] >>] :
      al \in {0, 16, 64}, k \in 1..3, v \in {-1, 0, 1}, w \in {-1, 1, 2} }
(* points that come close *)
TouchDecks ==
  { [Bare EXCEPT !.entries = << Entry(h, 0) >>,
                 !.conds = << Cond("ivel", <<1>>, 1, Num(v)), Cond("ivel", <<3>>, 1, Num(w)), Cond("ivel", <<2>>, 2, Num(1)) >>,
                 !.contact = [on |-> TRUE, radius |-> r, reach |-> r + e, freq |-> fq],
                 !.solvers = << [t0 |-> 0, tf |-> 6, m |-> 1] >>] :
      h \in {5, 9}, v \in {0, 1, 2}, w \in {-1, 0, 1}, r \in {6, 9}, e \in {-1, 0, 4}, fq \in {1, 2, 4} }
Decks == UNION { CASE k = "free" -> FreeDecks [] k = "held" -> HeldDecks [] k = "tear" -> TearDecks [] k = "warm" -> WarmDecks [] k = "touch" -> TouchDecks : k \in Kinds }

(* --- wrong designs ------------------------------------------------------------------------- *)
Wrong(st, old) ==
  CASE Design = "forget" -> [st EXCEPT !.broken = BreakBonds(d, st.fam, [ p \in Pts(d) |-> {} ], st.u, st.t, st.dtemp)]
    [] Design = "cold"   -> [st EXCEPT !.broken = BreakBonds(d, st.fam, old.broken, st.u, st.t, old.dtemp)]
    [] Design = "whole"  -> [st EXCEPT !.v = [ p \in Pts(d) |-> Vector3(LAMBDA c : old.v[p][c] + IF st.k = 0 THEN 0 ELSE 2 * d.solvers[st.ph].m * st.a[p][c]) ],
                                       !.u = [ p \in Pts(d) |-> Vector3(LAMBDA c : IF st.k = 0 THEN old.u[p][c] ELSE old.u[p][c] + d.solvers[st.ph].m * old.v[p][c]) ]]
    [] Design = "reset"  -> IF st.k = 0 /\ st.ph > 1 THEN [st EXCEPT !.v = [ p \in Pts(d) |-> VZero ]] ELSE st
    [] Design = "shared" -> [st EXCEPT !.count = IF st.k = 0 THEN 1 ELSE @]
    [] Design = "oneway" -> [st EXCEPT !.pairs = [ p \in Pts(d) |-> { q \in st.pairs[p] : q > p } ]]
    [] Design = "stale"  -> [st EXCEPT !.pairs = old.pairs]
    [] OTHER -> st

Observe(st) == [t |-> st.t, ph |-> st.ph, k |-> st.k, u |-> st.u, dT |-> st.dtemp]
Init == /\ d \in Decks /\ s = Loaded(d) /\ hist = <<>>
        /\ seen = [ i \in DOMAIN d.outs |-> <<>> ]
Next == /\ ~AllDone(d, s)
        /\ LET st == Wrong(Advance(d, s), s)
           IN /\ s' = st
              /\ hist' = Append(hist, Observe(st))
              /\ seen' = [ i \in DOMAIN d.outs |-> IF Due(d.outs[i], st.count) THEN Append(seen[i], Len(hist) + 1) ELSE seen[i] ]
        /\ UNCHANGED d
Spec == Init /\ [][Next]_vars

(* --- what has to be true ------------------------------------------------------------------- *)
Free(p, c) == ~HasCond(d, "pdisp", p, c)
Const(p, c) == LET S == CondsOn(d, "bforce", p, c) IN S = {} \/ d.conds[MaxSet(S)].expr[1] = "num"
Started == Len(hist) > 0
Elapsed == hist[Len(hist)].t - hist[1].t
(* constant force: Verlet is exact, whatever the steps and however many solvers share the time *)
Ballistic ==
  (Started /\ s.ph >= 1) => \A p \in Pts(d), c \in Comps : (Free(p, c) /\ Const(p, c)) =>
     /\ s.u[p][c] = CondValue(d, "idisp", p, c, 0, 0) + Elapsed * CondValue(d, "ivel", p, c, 0, 0)
                    + Elapsed * Elapsed * CondValue(d, "bforce", p, c, 0, 0)
     /\ s.v[p][c] = CondValue(d, "ivel", p, c, 0, 0) + 2 * Elapsed * CondValue(d, "bforce", p, c, 0, 0)
Held == \A p \in Pts(d), c \in Comps : (~Free(p, c) /\ s.ph = 1 /\ s.k > 0) => s.u[p][c] = CondValue(d, "pdisp", p, c, s.t, 0)
Times == s.ph > 0 => s.t = d.solvers[s.ph].t0 + s.k * d.solvers[s.ph].m /\ s.t <= d.solvers[s.ph].tf
Complete == AllDone(d, s) => Len(hist) = SumSeq([ i \in DOMAIN d.solvers |-> 1 + NSteps(d.solvers[i]) ])
(* a bond is broken exactly if some state of the history over-stretched it *)
Broken ==
  \A p \in Pts(d) : LET k == EntryAt(d, p).dmg
                    IN \A q \in s.fam[p] : q \in s.broken[p] <=>
                         k # 0 /\ \E i \in DOMAIN hist :
                           OverStretched(d, hist[i].u, p, q, Eval(d.dmg[k], VZero, hist[i].t) + d.dal[k] * hist[i].dT[p])
(* contact: equal and opposite, only between unbonded points that were found by the last search  *)
Opposite == \A c \in Comps : Abs(SumOver(Pts(d), [ p \in Pts(d) |-> d.vol[p] * ContactForce(d, s, p)[c] ])) <= 0
(* searches look at the state from which the step starts *)
FoundAt == LET js == { j \in DOMAIN hist : hist[j].k > 0 /\ hist[j].k % d.contact.freq = 0 }
           IN IF js = {} THEN 1 ELSE MaxSet(js) - 1
Searched == (d.contact.on /\ Started) =>
  \A p, q \in Pts(d) : q \in s.pairs[p] <=>
     /\ p # q /\ q \notin s.fam[p]
     /\ Dist2(Position(d, hist[FoundAt].u, p), Position(d, hist[FoundAt].u, q)) <= d.contact.reach * d.contact.reach
(* every request sees the whole history thinned by its own window and frequency only *)
Windows == \A i \in DOMAIN d.outs :
  seen[i] = SelectSeq([ j \in DOMAIN hist |-> j ], LAMBDA j : Due(d.outs[i], j))
=============================================================================
