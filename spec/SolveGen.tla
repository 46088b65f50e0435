-------------------------------- MODULE SolveGen -------------------------------
(* Laws of constrained problems over all balanced splitting histories of small grids. *)
EXTENDS Solve, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.CFG)
VARIABLES st, hist, ini
vars == <<st, hist, ini>>
Ini(i) == AsmInit(Cfg.inits[i] @@ [u |-> <<1, 2>>, ets |-> <<"Q1">>])
Step(op) == /\ st' = AsmApply(st, op) /\ hist' = Append(hist, op)
            /\ (st'.grid.dim = 2 => Balanced(st', ""))
Init == /\ ini \in 1..Len(Cfg.inits) /\ st = Ini(ini) /\ hist = <<>>
Next == /\ Len(hist) < Cfg.max
        /\ \/ \E a \in {b \in Nodes(st) : ~HasKids(st, b) /\ Len(b) <= Cfg.maxdepth} : Step([o |-> "split", a |-> a])
           \/ \E f \in Range(Cfg.flags) :
                /\ \A a \in Nodes(st) : f \notin st.nodes[a].fl
                /\ Step([o |-> "record", f |-> f])
        /\ PrintT(ToJson([i |-> ini, h |-> hist']))
        /\ UNCHANGED ini
Spec == Init /\ [][Next]_vars
View == <<st, ini>>
Laws == \A e \in Range(Cfg.ets) : SolveLaws(st, e)
================================================================================
