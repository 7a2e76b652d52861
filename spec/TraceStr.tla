------------------------------- MODULE TraceStr -------------------------------
(* Trace validation of string tables: every event must be what the table of     *)
(* StrTab answers, and the bytes must be its bytes.                             *)
EXTENDS StrTab, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, why
vars == <<stvars, t, i, why>>
Live == why = <<>> /\ i < Len(Traces[t].ev)
E == Traces[t].ev[i + 1]
Go(ok, what) == i' = i + 1 /\ UNCHANGED t /\ why' = IF ok THEN <<>> ELSE <<what, i + 1, E>>
\* look-ups report the bytes only where they are the last event
Bytes == E.len = Len(tab') /\ (E.bytes = tab' \/ (E.e \in {"get", "iter"} /\ E.bytes = <<>>))
Init == StInit /\ t \in 1..Len(Traces) /\ i = 0 /\ why = <<>>
New == Live /\ E.e = "new" /\ Create /\ Go(Bytes, "new table")
From == Live /\ E.e = "from" /\ Load(E.v) /\ Go(Bytes, "table from bytes")
Add1 == Live /\ E.e = "push" /\ Push(E.s) /\ Go(Bytes, "push")
Get == Live /\ E.e = "get" /\ UNCHANGED stvars
       /\ Go(Bytes /\ ((E.i # 0 /\ ~(\E k \in DOMAIN offs : offs[k] = E.i)) \/ E.s = At(E.i)), "get")
Iter == Live /\ E.e = "iter" /\ UNCHANGED stvars /\ Go(Bytes /\ E.v = added, "iteration")
Panic == Live /\ E.e = "panic" /\ UNCHANGED stvars /\ Go(FALSE, "panic")
Next == New \/ From \/ Add1 \/ Get \/ Iter \/ Panic
Spec == Init /\ [][Next]_vars
View == <<t, i, why>>     \* a trace is a behaviour: its number and position tell its states apart
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
\* (the tables of thousands of bytes are the same in kind)
Model == Len(tab) > 400 \/ (Found /\ EmptyAtZero /\ Shape /\ Iteration)
=============================================================================
