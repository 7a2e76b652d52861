----------------------------- MODULE TraceSession ----------------------------
(* Trace validation of sessions.  A trace is [runs], each run a process, that   *)
(* is a sequence of events: [e |-> "feed", b], [e |-> "write", f],              *)
(* [e |-> "new"], and at its end [e |-> "refused"] or [e |-> "end"], each of    *)
(* the assembler that [e |-> "use", n] named last (at first number 1).          *)
(* One memo serves all runs of a trace: whatever text was fed, in whatever      *)
(* pieces, whatever other assemblers are doing, the same text gives the same    *)
(* object.                                                                      *)
EXTENDS Words, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT SLOTS
VARIABLES t, r, i, a, fed, memo, why
vars == <<t, r, i, a, fed, memo, why>>
Runs == Traces[t].runs
E == Runs[r][i]
Fresh == [n \in 1..SLOTS |-> <<>>]
Init == t \in 1..Len(Traces) /\ r = 1 /\ i = 1 /\ a = 1 /\ fed = Fresh /\ memo = <<>> /\ why = <<>>
Live == why = <<>> /\ r <= Len(Runs) /\ i <= Len(Runs[r])
\* memo: sequence of [x |-> text, f |-> object; <<>> if refused]
Known == SelectSeq(memo, LAMBDA m : m.x = fed[a])
Outcome(f, what) == IF Known = <<>> THEN memo' = Append(memo, [x |-> fed[a], f |-> f]) /\ why' = <<>>
                    ELSE memo' = memo /\ why' = IF Known[1].f = f THEN <<>> ELSE <<what, r, i>>
Go == i' = i + 1 /\ UNCHANGED <<t, r>>
Use == Live /\ E.e = "use" /\ a' = E.n /\ Go /\ UNCHANGED <<fed, memo, why>>
Feed == Live /\ E.e = "feed" /\ fed' = [fed EXCEPT ![a] = @ \o E.b] /\ Go /\ UNCHANGED <<a, memo, why>>
New == Live /\ E.e = "new" /\ fed' = [fed EXCEPT ![a] = <<>>] /\ Go /\ UNCHANGED <<a, memo, why>>
Write == Live /\ E.e = "write" /\ Outcome(E.f, "another object") /\ Go /\ UNCHANGED <<a, fed>>
Refused == Live /\ E.e = "refused" /\ Outcome(<<>>, "refused here, accepted there") /\ Go /\ UNCHANGED <<a, fed>>
NextRun == /\ why = <<>> /\ r <= Len(Runs) /\ (i > Len(Runs[r]) \/ E.e = "end")
           /\ r' = r + 1 /\ i' = 1 /\ a' = 1 /\ fed' = Fresh /\ UNCHANGED <<t, memo, why>>
Next == Use \/ Feed \/ New \/ Write \/ Refused \/ NextRun
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
=============================================================================
