------------------------------ MODULE DofsTrace ------------------------------
(* Validates traces recorded from real meshes and dof handlers against Dofs.   *)
EXTENDS Dofs, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
vars == <<t, l, st>>
Init == /\ t \in 1..Len(Traces)
        /\ l = 0
        /\ st = DofInit(Traces[t].init)
Next == /\ l < Len(Traces[t].steps)
        /\ LET step == Traces[t].steps[l + 1]
               bad == DofMismatch(st, step)
           IN /\ IF bad = {} THEN TRUE
                 ELSE PrintT("MISMATCH " \o ToJson([id |-> Traces[t].id, step |-> l + 1, bad |-> bad])) /\ FALSE
              /\ st' = Adopt(DofApply(st, step.op), step)
        /\ l' = l + 1
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
View == <<t, l>>
=============================================================================
