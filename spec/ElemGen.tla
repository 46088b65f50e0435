-------------------------------- MODULE ElemGen --------------------------------
(* The laws of the elements, one state per dimension and element type.          *)
EXTENDS Elem
VARIABLES dim, et
Init == dim \in {1, 2} /\ et \in Types
Next == FALSE /\ UNCHANGED <<dim, et>>
Spec == Init /\ [][Next]_<<dim, et>>
Laws == ElemLaws(dim, et)
================================================================================
