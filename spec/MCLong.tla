--------------------------------- MODULE MCLong --------------------------------
(* The assembler's design on sources with any number of bytes in the middle: what  *)
(* has relocations within reach and an object with room is written as that object.  *)
(* Each source is printed for replay.                                              *)
EXTENDS Large, Json
CONSTANTS HEADS, TAILS, PADS, SECTIONS
VARIABLES src, state
vars == <<src, state>>
P31 == <<0, 0, 0, 128, 0, 0, 0, 0>>
P32 == <<0, 0, 0, 0, 1, 0, 0, 0>>
Pad(n) == CASE n = "none" -> Zeros(8) [] n = "few" -> FromNat(77, 8)
            [] n = "near" -> Sub(P31, FromNat(45, 8)) [] n = "edge" -> Sub(P31, FromNat(14, 8)) [] n = "past" -> Sub(P31, FromNat(3, 8))
            [] n = "beyond" -> AddNat(P31, 9) [] n = "no room" -> Sub(P32, FromNat(20, 8)) [] OTHER -> AddNat(P32, 40)
M(d, n) == [k |-> "mov", d |-> d, name |-> n, v |-> 0]
L(n) == [k |-> "label", d |-> 0, name |-> n, v |-> 0]
B(v) == [k |-> "byte", d |-> 0, name |-> <<>>, v |-> v]
a == <<97>>
b == <<98, 99>>
Lines(n) == CASE n = "none" -> <<>> [] n = "a" -> <<L(a), B(7)>> [] n = "b" -> <<B(9), L(b)>>
              [] n = "to b" -> <<M(0, b)>> [] n = "b, to b" -> <<L(b), M(9, b), B(1)>> [] n = "a, to b" -> <<B(3), L(a), M(15, b)>>
              [] n = "to a" -> <<B(5), M(8, a), B(6)>> [] OTHER -> <<M(3, a), L(b), M(12, b)>>
Defined(p) == \A i \in DOMAIN Placed(p) : LET x == Placed(p)[i].l IN x.k # "mov" \/ \E j \in DOMAIN Placed(p) : Placed(p)[j].l.k = "label" /\ Placed(p)[j].l.name = x.name
Once(p) == \A i, j \in DOMAIN Placed(p) : (i < j /\ Placed(p)[i].l.k = "label" /\ Placed(p)[j].l.k = "label") => Placed(p)[i].l.name # Placed(p)[j].l.name
Init == /\ state = "given"
        /\ \E h \in HEADS, t \in TAILS, n \in PADS, s \in SECTIONS :
             src = [sect |-> s, head |-> Lines(h), pad |-> Pad(n), tail |-> Lines(t)]
        /\ Defined(src) /\ Once(src)
Fine == PlanFits(Assembled(src)) /\ Near(src)
Write == state = "given" /\ state' = (IF Fine THEN "written" ELSE "refused") /\ UNCHANGED src /\ PrintT(ToJson(src))
Next == Write
Spec == Init /\ [][Next]_vars
Right == state = "written" => Flaws(Written(Assembled(src)), Assembled(src)) = {}
Room == state = "refused" => ~(Comfortable(Assembled(src)) /\ Near(src))
=============================================================================
