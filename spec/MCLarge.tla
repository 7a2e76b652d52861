-------------------------------- MODULE MCLarge --------------------------------
(* The object writer's design on sections of any size: what has room is written    *)
(* as the object it is, and what has none is not written.  Each object is printed  *)
(* for replay.                                                                     *)
EXTENDS Large, Json
CONSTANTS TEXTS, DATAS, BSSES, VALUES   \* sizes, in bytes: name of a size, see Size
VARIABLES obj, state
vars == <<obj, state>>
P32 == <<0, 0, 0, 0, 1, 0, 0, 0>>
P31 == <<0, 0, 0, 128, 0, 0, 0, 0>>
P63 == <<0, 0, 0, 0, 0, 0, 0, 128>>
Size(n) == CASE n = "zero" -> Zeros(8) [] n = "few" -> FromNat(24, 8) [] n = "half" -> P31
             [] n = "half more" -> AddNat(P31, 5) [] n = "full" -> P32 [] n = "beyond" -> AddNat(P32, 21)
             [] n = "no header" -> Sub(P32, FromNat(8, 8)) [] n = "no tables" -> Sub(P32, FromNat(300, 8))
             [] n = "roomy" -> Sub(P32, FromNat(131072, 8)) [] n = "tight" -> Sub(P32, FromNat(4096, 8)) [] n = "upper half" -> P63
             [] n = "most" -> Sub(Zeros(8), FromNat(25, 8)) [] n = "all" -> Sub(Zeros(8), FromNat(1, 8))
             [] OTHER -> Sub(P63, FromNat(1, 8))
\* marks at the ends
Marks(s, n) == IF AllZero(n) THEN <<>>
               ELSE <<[s |-> s, at |-> Zeros(8), b |-> <<17, 34, 51>>], [s |-> s, at |-> Sub(n, FromNat(3, 8)), b |-> <<68, 85, 102>>]>>
Y(s, k, n, v) == [s |-> s, k |-> k, name |-> n, val |-> v, ext |-> FALSE]
Init == /\ state = "given"
        /\ \E tn \in TEXTS, dn \in DATAS, bn \in BSSES, v \in VALUES :
             LET t == Size(tn)  d == Size(dn) IN
             obj = [text |-> t, data |-> d, bss |-> Size(bn),
                    syms |-> (IF tn = "zero" THEN <<>> ELSE <<Y("text", "R", <<97>>, Zeros(8)), Y("text", "U", <<98, 99>>, Zeros(8))>>)
                             \o (IF dn = "zero" THEN <<>> ELSE <<Y("data", "R", <<100>>, Size(v))>>)
                             \o (IF bn = "zero" THEN <<>> ELSE <<Y("bss", "R", <<101, 102, 103>>, Size(v))>>),
                    relocs |-> (IF tn = "zero" THEN <<>> ELSE <<[s |-> "text", addr |-> FromNat(4, 4), name |-> <<98, 99>>, pcrel |-> FALSE, len |-> 3]>>)
                               \o (IF dn = "zero" THEN <<>> ELSE <<[s |-> "data", addr |-> FromNat(2147483647, 4), name |-> <<100>>, pcrel |-> TRUE, len |-> 2]>>),
                    marks |-> Marks("text", t) \o Marks("data", d)]
Write == state = "given" /\ state' = (IF PlanFits(obj) THEN "written" ELSE "refused") /\ UNCHANGED obj /\ PrintT(ToJson(obj))
Next == Write
Spec == Init /\ [][Next]_vars
Right == state = "written" => Flaws(Written(obj), obj) = {}
\* an object without room cannot be written by just leaving out what does not fit
NoOther == state = "refused" => Flaws(Written(obj), obj) # {}
Room == state = "refused" => ~Comfortable(obj)
=============================================================================
