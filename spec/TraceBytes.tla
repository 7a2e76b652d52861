------------------------------ MODULE TraceBytes ------------------------------
(* Bounded byte strings.  Events:                                               *)
(*  [k |-> "pair", cap, x, y, eq]  two of them built with capacity cap, each    *)
(*     [want |-> the bytes it was built from, ok, b, len, empty]                *)
(*  [k |-> "inst", ok, b]          the encoding of an instruction               *)
EXTENDS Words, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, why
vars == <<t, i, why>>
Holds(e, x) == IF Len(x.want) > e.cap THEN ~x.ok
               ELSE x.ok /\ x.b = x.want /\ x.len = Len(x.want) /\ (x.empty <=> x.want = <<>>)
Judge(e) ==
    CASE e.k = "pair" -> IF ~Holds(e, e.x) THEN <<"byte string", e.cap, e.x>>
                         ELSE IF ~Holds(e, e.y) THEN <<"byte string", e.cap, e.y>>
                         ELSE IF e.x.ok /\ e.y.ok /\ e.eq # (e.x.b = e.y.b) THEN <<"equality", e>>
                         ELSE <<>>
      [] e.k = "inst" -> IF ~e.ok \/ Len(e.b) \notin 1..15 THEN <<"instruction length", e.b>> ELSE <<>>
Init == t \in 1..Len(Traces) /\ i = 0 /\ why = <<>>
Step == /\ why = <<>> /\ i < Len(Traces[t].ev)
        /\ i' = i + 1 /\ why' = Judge(Traces[t].ev[i + 1]) /\ UNCHANGED t
Next == Step
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
=============================================================================
