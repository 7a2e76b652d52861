------------------------------- MODULE TraceRec -------------------------------
(* Trace validation of records written and read back.                           *)
EXTENDS Records, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT MODE   \* "roundtrip" or "orders"
VARIABLES t, why
vars == <<t, why>>
E == Traces[t]

\* the byte order of the machine that wrote the record
Host == E.host = "big"
Same(r) == r.ok /\ r.f = ShownAll(E.ty, E.f) /\ r.used = SIZE[E.ty]
RoundTrip ==
  CASE ~E.wok -> <<"writing failed", E.ty>>
    [] E.size # SIZE[E.ty] -> <<"declared size", E.ty, E.size>>
    [] Len(E.bytes) # E.size -> <<"bytes written", E.ty, Len(E.bytes)>>
    [] E.bytes # Enc(E.ty, E.f, Host) -> <<"format", E.ty, E.bytes, Enc(E.ty, E.f, Host)>>
    [] ~E.eq -> <<"not equal when read back", E.ty>>
    [] ~Same(E.back) -> <<"read back", E.ty, E.back, ShownAll(E.ty, E.f)>>
    [] ~Same(E.back1) -> <<"read back in pieces", E.ty, E.back1, ShownAll(E.ty, E.f)>>
    [] OTHER -> <<>>

\* the magic number tells the order
Header == E.ty \in {"header", "header32"}
Rest(r) == IF Header THEN SubSeq(r.f, 2, Len(r.f)) ELSE r.f
Order(r, o, m) == Header => r.order = o /\ r.f[1] = m
Own == IF E.ty = "header32" THEN "Magic" ELSE "Magic64"
Other == IF E.ty = "header32" THEN "Cigam" ELSE "Cigam64"
Orders ==
  CASE E.ty = "header32" /\ ~E.rl.ok /\ ~E.rb.ok -> <<>>   \* a 64-bit reader may refuse the 32-bit numbers
    [] ~E.rl.ok \/ ~E.rb.ok -> <<"not read", E.ty, E.rl.ok, E.rb.ok>>
    [] Rest(E.rl) # Rest(E.rb) -> <<"orders differ", E.ty, E.rl, E.rb>>
    [] ~Order(E.rl, "little", IF Host THEN Other ELSE Own) \/ ~Order(E.rb, "big", IF Host THEN Own ELSE Other) -> <<"order reported", E.rl.order, E.rb.order, E.rl.f, E.rb.f>>
    [] OTHER -> <<>>
\* sequences of commands: the same in either order
Streams == IF E.rl = E.rb THEN <<>> ELSE <<"command streams differ", E.rl, E.rb>>

Init == t \in 1..Len(Traces) /\ why = <<"todo">>
Next == /\ why = <<"todo">> /\ UNCHANGED t
        /\ why' = (IF MODE = "roundtrip" THEN RoundTrip ELSE IF E.ty = "stream" THEN Streams ELSE Orders)
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>> \/ why = <<"todo">>
=============================================================================
