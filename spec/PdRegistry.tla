------------------------------ MODULE PdRegistry ------------------------------
(* The registry of fields: a set of records [id, label, low, spec]; low is the label without       *)
(* regard to letter case.  Numbers are chosen freely but never reused.                             *)
EXTENDS PdBase
REFUSED == -1
Exact(reg, label, spec) == { e \in reg : e.label = label /\ e.spec = spec }
Similar(reg, low) == { e \in reg : e.low = low }
Known(reg, label) == { e \in reg : e.label = label }
IdsOf(reg) == { e.id : e \in reg }
(* what a request may answer, and the registry it leaves *)
Outcome(reg, label, low, spec, fresh) ==
  IF Exact(reg, label, spec) # {} THEN [ res |-> (CHOOSE e \in Exact(reg, label, spec) : TRUE).id, reg |-> reg ]
  ELSE IF Similar(reg, low) # {} THEN [ res |-> REFUSED, reg |-> reg ]
  ELSE [ res |-> fresh, reg |-> reg \cup { [ id |-> fresh, label |-> label, low |-> low, spec |-> spec ] } ]
ByLabel(reg, label) == IF Known(reg, label) = {} THEN REFUSED ELSE (CHOOSE e \in Known(reg, label) : TRUE).id
ByNumber(reg, id) == IF id \in IdsOf(reg) THEN id ELSE REFUSED
=============================================================================
