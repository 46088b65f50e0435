------------------------------ MODULE FuncTrace -------------------------------
(* Validates traces recorded from real functions against Func.                *)
EXTENDS Func, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
vars == <<t, l, st>>
Init == /\ t \in 1..Len(Traces)
        /\ l = 0
        /\ st = FunInit(Traces[t].init)
Next == /\ l < Len(Traces[t].steps)
        /\ LET step == Traces[t].steps[l + 1]
               bad == FunMismatch(st, step)
           IN /\ IF bad = {} THEN TRUE
                 ELSE PrintT("MISMATCH " \o ToJson([id |-> Traces[t].id, step |-> l + 1, bad |-> bad])) /\ FALSE
              /\ st' = FunApply(st, step)
        /\ l' = l + 1
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
View == <<t, l>>
=============================================================================
