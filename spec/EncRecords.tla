------------------------------ MODULE EncRecords ------------------------------
(* Encodes given record values and command sequences in both byte orders, so    *)
(* that only the specification knows the format.                                *)
EXTENDS Records, Json, IOUtils
Given == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE t
E == Given[t]
Bytes(big) == IF "cmds" \in DOMAIN E THEN Flat([i \in DOMAIN E.cmds |-> LcEnc(E.cmds[i], big)]) ELSE Enc(E.ty, E.f, big)
Init == t \in 1..Len(Given)
Next == t > 0 /\ t' = -t /\ PrintT(ToJson([n |-> t, le |-> Bytes(FALSE), be |-> Bytes(TRUE)]))
Spec == Init /\ [][Next]_t
=============================================================================
