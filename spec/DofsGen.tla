-------------------------------- MODULE DofsGen --------------------------------
(* The laws of the node structure over all balanced splitting histories of small  *)
(* grids; prints the histories, each followed by a distribution of dofs.          *)
EXTENDS Dofs, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.CFG)
VARIABLES st, hist, ini
vars == <<st, hist, ini>>
Ini(i) == MeshInit(Cfg.inits[i]) @@ [et |-> "Q1", num |-> <<>>, del |-> FALSE]
Step(op) == /\ st' = MeshApply(st, op) /\ hist' = Append(hist, op)
            /\ (st'.grid.dim = 2 => Balanced(st', ""))
Init == /\ ini \in 1..Len(Cfg.inits) /\ st = Ini(ini) /\ hist = <<>>
Next == /\ Len(hist) < Cfg.max
        /\ \/ \E a \in {b \in Nodes(st) : ~HasKids(st, b) /\ Len(b) <= Cfg.maxdepth} : Step([o |-> "split", a |-> a])
           \/ \E f \in {Cfg.flags[i] : i \in 1..Len(Cfg.flags)} :
                /\ \A a \in Nodes(st) : f \notin st.nodes[a].fl
                /\ Step([o |-> "record", f |-> f])
        /\ PrintT(ToJson([i |-> ini, h |-> hist']))
        /\ UNCHANGED ini
Spec == Init /\ [][Next]_vars
View == <<st, ini>>
Laws == \A e \in {Cfg.ets[i] : i \in 1..Len(Cfg.ets)} : DofLaws(st, e)
================================================================================
