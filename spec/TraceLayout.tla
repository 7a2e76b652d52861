----------------------------- MODULE TraceLayout -----------------------------
(* Two sources that say the same are assembled alike: both are accepted and     *)
(* give identical bytes, or both are refused.  A trace is [a, b], each an       *)
(* assembly [src, end, code, files].                                            *)
EXTENDS Source, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, judged, why
vars == <<t, judged, why>>
Open(c) == \E i \in DOMAIN c : c[i].k = "unspec"
Same(a, b) == LET c == Canon(a.src) IN ~Open(c) /\ c = Canon(b.src)
Init == t \in 1..Len(Traces) /\ judged = FALSE /\ why = <<>>
Judge == LET a == Traces[t].a b == Traces[t].b same == Same(a, b) IN
         /\ ~judged /\ judged' = TRUE /\ UNCHANGED t
         /\ PrintT(ToJson(IF same THEN "same" ELSE "different"))
         /\ why' = IF ~same THEN <<>>
                   ELSE IF (a.end = "ok") # (b.end = "ok") THEN <<"one is refused", a.end, b.end>>
                   ELSE IF a.files # b.files THEN <<"different objects">>
                   ELSE <<>>
Next == Judge
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
=============================================================================
