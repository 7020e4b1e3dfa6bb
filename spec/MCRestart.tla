------------------------------ MODULE MCRestart ------------------------------
(* Runs with interruptions at every step and crashes while a set is being written.  The machine has  *)
(* global vectors g and a two-step history (now, next): a step computes next from now, shows it and   *)
(* exchanges the two.  However often it is interrupted, every frame it shows is the one that an       *)
(* uninterrupted run shows.                                                                          *)
EXTENDS PdRestart
CONSTANTS Last, MaxSets, Design
VARIABLES disk, mode, t, g, now, next, shown
vars == <<disk, mode, t, g, now, next, shown>>
G(a, h) == (2 * a + h + 1) % 53
H(a, h) == (3 * h + a + 2) % 53
RECURSIVE Ref(_)
Ref(k) == IF k = 0 THEN <<1, 5>> ELSE LET r == Ref(k - 1) IN LET a == G(r[1], r[2]) IN << a, H(a, r[2]) >>
Init == disk = <<>> /\ mode = "off" /\ t = 0 /\ g = 0 /\ now = 0 /\ next = 0 /\ shown = {}
Choice(t0) ==
  IF disk = <<>> THEN (IF t0 = 0 THEN "fresh" ELSE "refuse")
  ELSE CASE Design = "anytime" -> IF Complete(disk[Len(disk)]) THEN "resume" ELSE "refuse"
         [] Design = "partial" -> IF "clock" \in disk[Len(disk)].parts /\ disk[Len(disk)].time = t0 THEN "resume" ELSE "refuse"
         [] OTHER -> Decision(disk, t0)
Start(t0) ==
  /\ mode = "off"
  /\ LET c == Choice(t0)
         s == disk[Len(disk)]
         hist == IF "history" \in s.parts /\ Design # "forget" THEN s.now ELSE Ref(0)[2]
         prev == IF "history" \in s.parts THEN s.next ELSE Ref(0)[2]
         vec == IF "vectors" \in s.parts THEN s.g ELSE Ref(0)[1]
     IN IF c = "refuse" THEN UNCHANGED vars
        ELSE IF c = "fresh" THEN /\ mode' = "on" /\ t' = 0 /\ g' = Ref(0)[1] /\ now' = Ref(0)[2] /\ next' = Ref(0)[2]
                                 /\ shown' = shown \cup { <<0, Ref(0)[1], Ref(0)[2]>> } /\ UNCHANGED disk
        ELSE /\ mode' = "on" /\ t' = t0 /\ g' = vec /\ now' = hist
             /\ next' = IF Design = "stale" THEN prev ELSE hist
             /\ shown' = shown \cup { <<t0, g', next'>> }
             /\ UNCHANGED disk
Step ==
  /\ mode = "on" /\ t < Last
  /\ t' = t + 1
  /\ g' = G(g, now)
  /\ LET h == H(g', now)
     IN /\ shown' = shown \cup { <<t', g', h>> }
        /\ now' = h /\ next' = now                     \* exchanged after the frame
  /\ UNCHANGED <<disk, mode>>
(* the run is over: a new set, of which so far only the directory exists *)
Finish ==
  /\ mode = "on" /\ Len(disk) < MaxSets
  /\ disk' = Append(disk, [ time |-> t, g |-> g, now |-> now, next |-> next, parts |-> {} ])
  /\ mode' = "writing"
  /\ UNCHANGED <<t, g, now, next, shown>>
Write(p) ==
  /\ mode = "writing" /\ p \notin disk[Len(disk)].parts
  /\ disk' = [disk EXCEPT ![Len(disk)].parts = @ \cup {p}]
  /\ mode' = IF disk[Len(disk)].parts \cup {p} = Parts THEN "off" ELSE "writing"
  /\ UNCHANGED <<t, g, now, next, shown>>
Crash == mode # "off" /\ mode' = "off" /\ UNCHANGED <<disk, t, g, now, next, shown>>
(* the user removes the newest set *)
Drop == mode = "off" /\ disk # <<>> /\ disk' = SubSeq(disk, 1, Len(disk) - 1) /\ UNCHANGED <<mode, t, g, now, next, shown>>
Next == (\E t0 \in 0..Last : Start(t0)) \/ Step \/ Finish \/ (\E p \in Parts : Write(p)) \/ Crash \/ Drop
Spec == Init /\ [][Next]_vars
Continues == \A f \in shown : <<f[2], f[3]>> = Ref(f[1])
=============================================================================
