------------------------------ MODULE TraceBuilds ------------------------------
(* Trace validation: each trace is a request and its outcomes, one per build.      *)
EXTENDS Builds, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, judged, why
vars == <<t, judged, why>>
T == Traces[t]
Init == t \in 1..Len(Traces) /\ judged = FALSE /\ why = <<>>
Judge == /\ ~judged /\ judged' = TRUE /\ UNCHANGED t
         /\ why' = IF Len(T.outcomes) < 2 THEN <<"not tried in two builds">>
                   ELSE IF ~Agree(T.outcomes) THEN <<"builds differ", T.outcomes>> ELSE <<>>
Next == Judge
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
=============================================================================
