-------------------------------- MODULE MapsGen --------------------------------
(* The laws of Maps over all splitting histories of small grids.               *)
EXTENDS Maps, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.CFG)
VARIABLES st, hist, ini
vars == <<st, hist, ini>>
Init == /\ ini \in 1..Len(Cfg.inits) /\ st = MeshInit(Cfg.inits[ini]) /\ hist = <<>>
Next == /\ Len(hist) < Cfg.max
        /\ \E a \in {b \in Nodes(st) : ~HasKids(st, b)} :
              /\ st' = MeshApply(st, [o |-> "split", a |-> a])
              /\ hist' = Append(hist, [o |-> "split", a |-> a])
              /\ PrintT(ToJson([i |-> ini, h |-> hist']))
        /\ UNCHANGED ini
Spec == Init /\ [][Next]_vars
View == <<st, ini>>
Laws == MapLaws(st)
================================================================================
