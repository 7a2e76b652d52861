-------------------------------- MODULE TraceTap -------------------------------
(* Trace validation of the records of the library over streams that end or fail. *)
(* A trace is [ty, f, cmds, file, ev]: a record (ty, f), a sequence of commands   *)
(* (ty = "stream"), or an object (ty = "object", file: its bytes), and what       *)
(* happened, case by case:                                                        *)
(*  [k |-> "read", big, limit, kind, ok, f, used]    a record read, see Tap       *)
(*  [k |-> "reads", big, limit, kind, evs]           commands read                *)
(*  [k |-> "write", limit, once, ok, got]            a stream that takes `limit`  *)
(*                       bytes (once: and everything after one refusal)           *)
EXTENDS Records, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, why
vars == <<t, i, why>>
T == Traces[t]
Bytes(big) == CASE T.ty = "object" -> T.file
                [] T.ty = "stream" -> Flat([j \in DOMAIN T.cmds |-> LcEnc(T.cmds[j], big)])
                [] OTHER -> Enc(T.ty, T.f, big)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* size of the first n commands
Upto(n) == FoldLeft(LAMBDA a, c : a + CmdSize(c), 0, SubSeq(T.cmds, 1, n))

Wrote(e) == LET F == Bytes(FALSE) IN
    IF ~IsPrefixOf(e.got, F) THEN <<"what was written is no prefix", T.ty, e.limit, e.got>>
    ELSE IF e.ok /\ e.got # F THEN <<"bytes refused, success reported", T.ty, e.limit>>
    ELSE IF e.limit >= Len(F) /\ ~e.ok THEN <<"every byte taken, yet no success", T.ty, e.limit>>
    ELSE <<>>
\* (the magic number of a file in the other order reads as its reverse)
Same(e) == LET w == ShownAll(T.ty, T.f) IN
           IF T.ty = "header" THEN Len(e.f) = Len(w) /\ SubSeq(e.f, 2, Len(w)) = SubSeq(w, 2, Len(w)) ELSE e.f = w
Read(e) ==
    IF e.ok /\ (~Same(e) \/ e.used # SIZE[T.ty]) THEN <<"another record", T.ty, e.limit, e.f, e.used>>
    ELSE IF e.ok /\ e.limit < SIZE[T.ty] /\ e.kind # "once" THEN <<"a record cut short was read", T.ty, e.limit, e.f>>
    ELSE IF ~e.ok /\ e.limit >= SIZE[T.ty] THEN <<"a whole record was not read", T.ty, e.limit>>
    ELSE <<>>
\* event j of the commands read
ReadOne(e, j) ==
    LET x == e.evs[j] IN
    IF j > Len(T.cmds) THEN <<"a command too many", j>>
    ELSE IF x.ok /\ (x.c # LcShown(T.cmds[j]) \/ x.pos # Upto(j)) THEN <<"another command", j, e.limit, x.c>>
    ELSE IF x.ok /\ e.limit < Upto(j) /\ e.kind # "once" THEN <<"a command cut short was read", j, e.limit, x.c>>
    ELSE IF ~x.ok /\ e.limit >= Upto(j) THEN <<"a whole command was not read", j, e.limit>>
    ELSE <<>>
Reads(e) == LET b == {j \in DOMAIN e.evs : ReadOne(e, j) # <<>>} IN
    IF b # {} THEN ReadOne(e, CHOOSE j \in b : \A k \in b : j <= k)
    ELSE IF Len(e.evs) < Len(T.cmds) /\ Upto(Len(e.evs) + 1) <= e.limit /\ (e.evs = <<>> \/ e.evs[Len(e.evs)].ok)
         THEN <<"whole commands were not read", Len(e.evs), e.limit>>
    ELSE <<>>
Judge(e) == CASE e.k = "write" -> Wrote(e) [] e.k = "read" -> Read(e) [] OTHER -> Reads(e)

Init == t \in 1..Len(Traces) /\ i = 0 /\ why = <<>>
Step == /\ why = <<>> /\ i < Len(T.ev) /\ UNCHANGED t
        /\ i' = i + 1 /\ why' = Judge(T.ev[i + 1])
Next == Step
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
=============================================================================
