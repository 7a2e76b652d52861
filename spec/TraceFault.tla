------------------------------ MODULE TraceFault ------------------------------
(* Trace validation of failing streams.  A trace is [file, ev]: the correct     *)
(* object of a source, and runs with a failing stream:                          *)
(*  [k |-> "write", limit, end, code, got]: the output took `limit` bytes and   *)
(*       refused the next (once: and took all after that); got: what it took    *)
(*  [k |-> "read", limit, end, code, files]: the input failed after `limit`     *)
(*       bytes (once: and went on after that)                                   *)
(*  [k |-> "cmd", code, fails, got]: the command, with a failing input or       *)
(*       output; got: what it left in the output file, if that filled up;       *)
(*       old: what was in it before                                             *)
EXTENDS Words, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, why
vars == <<t, i, why>>
F == Traces[t].file
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Normal(e) == e.end = "ok" \/ e.code = 0
Judge(e) ==
    CASE e.k = "write" ->
           IF ~IsPrefixOf(e.got, F) THEN <<"what was written is no prefix of the object", e.limit>>
           ELSE IF e.once THEN (IF Normal(e) /\ e.got # F THEN <<"output failed once, success reported", e.limit>> ELSE <<>>)
           ELSE IF e.limit < Len(F) /\ Normal(e) THEN <<"output failed, success reported", e.limit>>
           ELSE IF e.limit >= Len(F) /\ (e.end # "ok" \/ e.got # F) THEN <<"output took everything, yet no success", e.limit>>
           ELSE <<>>
      [] e.k = "read" ->
           IF e.once THEN (IF \E j \in DOMAIN e.files : e.files[j] # F THEN <<"input failed once, success reported", e.limit>> ELSE <<>>)
           ELSE IF Normal(e) \/ e.files # <<>> THEN <<"input failed, success reported", e.limit>> ELSE <<>>
      [] e.k = "cmd" ->
           IF ~IsPrefixOf(e.got, F) /\ ~(e.code # 0 /\ e.got = e.old) THEN <<"what was written is no prefix of the object", e.what>>
           ELSE IF e.fails /\ e.code = 0 THEN <<"stream failed, the command exits with 0", e.what>>
           ELSE IF ~e.fails /\ e.code # 0 THEN <<"no stream failed, the command does not exit with 0", e.what>>
           ELSE <<>>
Init == t \in 1..Len(Traces) /\ i = 0 /\ why = <<>>
Step == /\ why = <<>> /\ i < Len(Traces[t].ev)
        /\ i' = i + 1 /\ why' = Judge(Traces[t].ev[i + 1]) /\ UNCHANGED t
Next == Step
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
=============================================================================
