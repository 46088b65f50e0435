-------------------------------- MODULE GaussGen ---------------------------------
(* Laws of conditioning for all matrices reached by few construction steps.   *)
EXTENDS Gauss, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.CFG)
VARIABLES st, hist
vars == <<st, hist>>
Init == \E d \in {Cfg.diag[i] : i \in 1..Len(Cfg.diag)} : st = GInit(d) /\ hist = <<[o |-> "init", d |-> d]>>
Step(op) == st' = MatApply(st, op) /\ hist' = Append(hist, op)
Next == /\ Len(hist) <= Cfg.max
        /\ LET n == Size(st) IN
           \/ /\ n < Cfg.n
              /\ \E w \in [1..n -> {Cfg.w[i] : i \in 1..Len(Cfg.w)}], d \in {Cfg.d[i] : i \in 1..Len(Cfg.d)} : Step([o |-> "border", w |-> w, d |-> d])
           \/ n > 1 /\ Step([o |-> "mix", i |-> 1, j |-> n, k |-> -1])
           \/ n > 1 /\ HasEv(st) /\ Step([o |-> "rot", i |-> 1, j |-> n, t |-> <<3, 4, 5>>])
        /\ PrintT(ToJson([h |-> hist']))
Spec == Init /\ [][Next]_vars
View == st
Laws == GLaws(st, Cfg.rows, {Cfg.ents[i] : i \in 1..Len(Cfg.ents)})
==================================================================================
