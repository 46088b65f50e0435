------------------------------ MODULE ElemTrace ------------------------------
(* Validates traces recorded from real meshes against Elem.                 *)
EXTENDS Elem, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
vars == <<t, l, st>>
Init == /\ t \in 1..Len(Traces)
        /\ l = 0
        /\ st = MeshInit(Traces[t].init)
Next == /\ l < Len(Traces[t].steps)
        /\ LET step == Traces[t].steps[l + 1]
               s2 == MeshApply(st, step.op)
               bad == ElemMismatch(s2, step)
           IN /\ st' = s2
              /\ IF bad = {} THEN TRUE
                 ELSE PrintT("MISMATCH " \o ToJson([id |-> Traces[t].id, step |-> l + 1, bad |-> bad])) /\ FALSE
        /\ l' = l + 1
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
View == <<t, l>>
=============================================================================
