------------------------------- MODULE TraceLarge ------------------------------
(* Trace validation of the object writer for objects of any size: each trace is    *)
(* [obj, ok, file] or [src, ok, file] (the assembler), see Large.                                                     *)
EXTENDS Large, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, judged, why
vars == <<t, judged, why>>
T == Traces[t]
Init == t \in 1..Len(Traces) /\ judged = FALSE /\ why = <<>>
Asm == "src" \in DOMAIN T
Judge == /\ ~judged /\ judged' = TRUE /\ UNCHANGED t
         /\ why' = LET o == IF Asm THEN Assembled(T.src) ELSE T.obj  room == Comfortable(o) /\ (Asm => Near(T.src)) IN
                   IF ~T.ok THEN (IF room THEN <<"refused, though it fits">> ELSE <<>>)
                   ELSE IF Asm /\ ~Near(T.src) THEN <<"a relocation out of reach, not refused">>
                   ELSE LET f == Flaws(T.file, o) IN IF f # {} THEN <<"written as another object", f>> ELSE <<>>
Next == Judge
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
=============================================================================
