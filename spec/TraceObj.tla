------------------------------ MODULE TraceObj -------------------------------
(* Trace validation of the object writer: each trace is [obj, ok, file].        *)
EXTENDS MachO, Json, IOUtils
CONSTANT ASPECTS
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, judged, why
vars == <<t, judged, why>>
T == Traces[t]
Init == t \in 1..Len(Traces) /\ judged = FALSE /\ why = <<>>
Judge == /\ ~judged /\ judged' = TRUE /\ UNCHANGED t
         /\ why' = IF ~T.ok THEN IF Resolved(T.obj) THEN <<"no file">> ELSE <<>>
                   ELSE IF "recovered" \in ASPECTS /\ ~Resolved(T.obj) THEN <<"a relocation for no symbol of the object">>
                   ELSE LET b == IF "wellformed" \in ASPECTS THEN Broken(T.file) ELSE {}
                            d == IF "recovered" \in ASPECTS THEN Differences(T.file, T.obj) ELSE {}
                        IN IF b # {} THEN <<"not well-formed", b>>
                           ELSE IF d # {} THEN <<"another object", d>> ELSE <<>>
Next == Judge
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
=============================================================================
