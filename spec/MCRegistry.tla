------------------------------ MODULE MCRegistry ------------------------------
(* All sequences of requests over a few labels (two of them equal but for letter case) and         *)
(* specifications: identities never change, labels and numbers determine each other, and a         *)
(* refused request changes nothing.                                                                *)
EXTENDS PdRegistry
CONSTANTS MaxOps, Design
Labels == { <<"A", "a">>, <<"a", "a">>, <<"B", "b">>, <<"Ab", "ab">> }
Specs == { <<1, 10, 1>>, <<1, 10, 2>>, <<4, 10, 1>> }
VARIABLES reg, answers, ops
vars == <<reg, answers, ops>>
Init == reg = {} /\ answers = {} /\ ops = 0
Fresh == Cardinality(reg)
Answer(lb, sp) ==
  IF Design = "case" /\ Known(reg, lb[1]) = {} THEN [ res |-> Fresh, reg |-> reg \cup { [ id |-> Fresh, label |-> lb[1], low |-> lb[2], spec |-> sp ] } ]
  ELSE IF Design = "label" /\ Known(reg, lb[1]) # {} THEN [ res |-> ByLabel(reg, lb[1]), reg |-> reg ]
  ELSE IF Design = "update" /\ Known(reg, lb[1]) # {}
       THEN LET e == CHOOSE x \in Known(reg, lb[1]) : TRUE IN [ res |-> e.id, reg |-> (reg \ {e}) \cup { [ e EXCEPT !.spec = sp ] } ]
  ELSE Outcome(reg, lb[1], lb[2], sp, Fresh)
Request == \E lb \in Labels, sp \in Specs :
             LET o == Answer(lb, sp)
             IN /\ reg' = o.reg
                /\ answers' = IF o.res = REFUSED THEN answers ELSE answers \cup { <<lb[1], sp, o.res>> }
Next == ops < MaxOps /\ ops' = ops + 1 /\ Request
Spec == Init /\ [][Next]_vars
(* every answer ever given is still right *)
Stable == \A a \in answers : \E e \in reg : e.id = a[3] /\ e.label = a[1] /\ e.spec = a[2]
OneToOne == \A e, f \in reg : (e.id = f.id \/ e.label = f.label \/ e.low = f.low) => e = f
Grows == [][ reg \subseteq reg' ]_vars
=============================================================================
