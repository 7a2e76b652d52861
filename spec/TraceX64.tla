------------------------------ MODULE TraceX64 ------------------------------
(* Trace validation of at-x64: each event is one call of the library           *)
(* [q |-> request, ok |-> returned, out |-> bytes, off |-> reported position]. *)
EXTENDS X64, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, why
vars == <<t, i, why>>

\* empty: the call is what the specification requires
Judge(e) ==
    IF ~e.ok THEN <<"no result", e.q>>
    ELSE LET d == Decode(e.out) IN
         IF ~d.ok THEN <<"not an instruction", d.why, e.q, e.out>>
         ELSE IF d.len # Len(e.out) THEN <<"bytes left over", e.q, e.out>>
         ELSE IF ~Answers(d, e.q) THEN <<"another instruction", e.q, e.out>>
         ELSE IF Len(e.out) \notin 1..15 THEN <<"length", e.q, e.out>>
         ELSE IF e.off >= 0 /\ e.off # d.imm THEN <<"immediate position", e.off, e.q, e.out>>
         ELSE <<>>

Init == t \in 1..Len(Traces) /\ i = 0 /\ why = <<>>
Call == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ why' = Judge(Traces[t].ev[i + 1])
        /\ UNCHANGED t
Next == Call
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
=============================================================================
