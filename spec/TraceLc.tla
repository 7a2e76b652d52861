-------------------------------- MODULE TraceLc -------------------------------
(* Trace validation of load-command streams: the commands written, and the      *)
(* commands read back from those bytes, one event each.                         *)
EXTENDS Records, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, phase, i, pos, why
vars == <<t, phase, i, pos, why>>
Cmds == Traces[t].cmds
Evs == CASE phase = "write" -> Traces[t].ev [] phase = "read" -> Traces[t].back [] OTHER -> Traces[t].back1
After(p) == CASE p = "write" -> "read" [] p = "read" -> "readp" [] OTHER -> "end"

Init == t \in 1..Len(Traces) /\ phase = "write" /\ i = 0 /\ pos = 0 /\ why = <<>>
Live == why = <<>> /\ phase # "end"
Judge(c, e) ==
  CASE ~e.ok -> <<phase, "failed", i + 1>>
    [] e.c # LcShown(c) -> <<phase, "another command", i + 1, e.c, LcShown(c)>>
    [] e.cmd # B4(CMD[c.k]) -> <<phase, "type reported", i + 1, e.cmd>>
    [] e.cmdsize # B4(CmdSize(c)) -> <<phase, "size reported", i + 1, e.cmdsize, CmdSize(c)>>
    [] e.pos # pos + CmdSize(c) -> <<phase, "size occupied", i + 1, e.pos - pos, CmdSize(c)>>
    [] OTHER -> <<>>
Step == /\ Live /\ i < Len(Cmds) /\ i < Len(Evs)
        /\ why' = Judge(Cmds[i + 1], Evs[i + 1])
        /\ i' = i + 1 /\ pos' = (IF why' = <<>> THEN Evs[i + 1].pos ELSE pos) /\ UNCHANGED <<t, phase>>
Turn == /\ Live /\ i = Len(Cmds) /\ i = Len(Evs)
        /\ phase' = After(phase) /\ i' = 0 /\ pos' = 0 /\ UNCHANGED <<t, why>>
Off == /\ Live /\ (IF i = Len(Cmds) THEN i # Len(Evs) ELSE i >= Len(Evs))
       /\ why' = <<phase, "number of commands", Len(Evs), Len(Cmds)>> /\ UNCHANGED <<t, phase, i, pos>>
Next == Step \/ Turn \/ Off
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
=============================================================================
