-------------------------------- MODULE GaussTrace -------------------------------
(* Validates traces recorded from real Gaussian fields against Gauss.         *)
EXTENDS Gauss, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
vars == <<t, l, st>>
Init == /\ t \in 1..Len(Traces)
        /\ l = 0
        /\ st = GInit(Traces[t].init.d)
Next == /\ l < Len(Traces[t].steps)
        /\ LET step == Traces[t].steps[l + 1]
               bad == GMismatch(st, step)
           IN /\ IF bad = {} THEN TRUE
                 ELSE PrintT("MISMATCH " \o ToJson([id |-> Traces[t].id, step |-> l + 1, bad |-> bad])) /\ FALSE
              /\ st' = GApply(st, step.op, step.r)
        /\ l' = l + 1
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
View == <<t, l>>
==================================================================================
