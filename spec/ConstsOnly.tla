------------------------------ MODULE ConstsOnly ------------------------------
(* Walks the tables: every name has one number, every number at most one name.  *)
EXTENDS Consts
VARIABLE ty
Init == ty \in Plain
Next == FALSE /\ UNCHANGED ty
Spec == Init /\ [][Next]_ty
=============================================================================
