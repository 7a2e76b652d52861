------------------------------- MODULE TraceRegs ------------------------------
(* Registers: [regs |-> sequence of [w, num, name, anyname, wide, files]], where *)
(* names are codes and files holds the object assembled from                    *)
(* "mov <name>, 1" (none for 8-bit names).                                      *)
EXTENDS Source, MachO, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, why
vars == <<t, i, why>>
Rs == Traces[t].regs
Denoted(e) == IF e.files = <<>> THEN [ok |-> FALSE]
              ELSE LET o == ReadObj(e.files[1]) IN IF ~o.ok THEN [ok |-> FALSE] ELSE Decode(SectBytes(o, "text"))
Judge(j) ==
    LET e == Rs[j] IN
    IF e.name # RegNames(e.w)[e.num + 1] \/ e.anyname # e.name THEN <<"printed name", e.w, e.num, e.name>>
    ELSE IF \E k \in DOMAIN Rs : k # j /\ Rs[k].name = e.name THEN <<"name not distinct", e.name>>
    ELSE IF e.wide # e.num THEN <<"widening", e.w, e.num, e.wide>>
    ELSE IF e.w = 8 THEN <<>>
    ELSE LET d == Denoted(e) IN
         IF ~d.ok \/ d.op # "mov" \/ d.w # e.w \/ d.dst # R(e.num) THEN <<"denotes another register", e.w, e.num>>
         ELSE <<>>
Init == t \in 1..Len(Traces) /\ i = 0 /\ why = <<>>
Step == /\ why = <<>> /\ i < Len(Rs) /\ i' = i + 1 /\ why' = Judge(i + 1) /\ UNCHANGED t
Next == Step
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
Complete == Len(Rs) = 64 /\ \A w \in {64, 32, 16, 8}, n \in 0..15 : \E j \in DOMAIN Rs : Rs[j].w = w /\ Rs[j].num = n
=============================================================================
