-------------------------------- MODULE MCX64 --------------------------------
(* The encoder's design against the processor's reading of it: every request    *)
(* is encoded and decodes to an instruction that answers it.  The set of        *)
(* requests explored is printed and replayed against the real encoder.          *)
EXTENDS X64Req, TLC, Json
CONSTANT WHICH
VARIABLES q, out
vars == <<q, out>>
Init == (IF WHICH = "reg" THEN RegRequest(q) ELSE MemRequest(q)) /\ out = <<>>
EncodeIt == out = <<>> /\ out' = Encode(q) /\ UNCHANGED q /\ PrintT(ToJson(q))
Next == EncodeIt
Spec == Init /\ [][Next]_vars

Faithful == out # <<>> => LET d == Decode(out) IN Answers(d, q) /\ d.len = Len(out)
Bounded == Len(out) <= 15 /\ IsByteSeq(out)
ImmPlace == (out # <<>> /\ q.op = "mov" /\ q.src.k = "i") => Decode(out).imm = ImmOffset(q)
\* decoding is prefix-free: what follows an instruction does not matter
Prefix == out # <<>> => Decode(out \o <<102, 72, 15>>) = Decode(out)
=============================================================================
