--------------------------------- MODULE MCLc ---------------------------------
(* A writer appends load commands to a file, a reader takes them off again,     *)
(* knowing only its position, the command number there and what that declares.  *)
(* Checked: the reader finds what was written, and every command starts where   *)
(* the previous one ends by its own declaration.  Each file is printed.         *)
EXTENDS Records, Json
CONSTANTS KINDS, SUBS, MAXCMDS
VARIABLES cmds, file, pos, got
vars == <<cmds, file, pos, got>>

Val(k, i) == CASE k \in {"u1", "u2", "u4", "u8"} -> [j \in 1..KindSize(k) |-> (37 * i + 11 * j) % 256]
               [] k = "name" -> <<33 + (i % 80), 95>>
               [] k = "SectFlags" -> <<<<"NoToc">>, "Coalesced">>
               [] k = "Version" -> <<<<i, 0>>, <<14>>, <<i + 3>>>>
               [] k = "Platform" -> "IOS" [] k = "Tool" -> "Swift" [] OTHER -> "none"
Base(ty, s) == [i \in DOMAIN LAYOUT[ty] |-> Val(LAYOUT[ty][i], i + 20 * s)]
Make(k, n, s) ==
  LET b == [Base(k, s) EXCEPT ![1] = B4(CMD[k]), ![2] = B4(SIZE[k] + n * SIZE[SubOf(k)])] IN
  [k |-> k, f |-> CASE k = "seg" -> [b EXCEPT ![10] = B4(n)] [] k = "build" -> [b EXCEPT ![6] = B4(n)] [] OTHER -> b,
   sub |-> [i \in 1..n |-> Base(SubOf(k), s + i)]]

Init == cmds = <<>> /\ file = <<>> /\ pos = 0 /\ got = <<>>
Write == /\ Len(cmds) < MAXCMDS /\ got = <<>> /\ UNCHANGED <<pos, got>>
         /\ \E k \in KINDS, n \in SUBS :
              /\ (k \in {"symtab", "dysymtab"} => n = 0)
              /\ LET c == Make(k, n, Len(cmds)) IN cmds' = Append(cmds, c) /\ file' = file \o LcEnc(c, FALSE)
         /\ PrintT(ToJson(cmds'))
\* the reader sees only the file
Peek(p) == ToNat(Cut(file, p + 1, 4))
KindAt(p) == CHOOSE k \in DOMAIN CMD : CMD[k] = Peek(p)
ReadAt(p) == LET k == KindAt(p)
                 f == Dec(k, Cut(file, p + 1, SIZE[k]), FALSE)
                 n == CASE k = "seg" -> ToNat(f[10]) [] k = "build" -> ToNat(f[6]) [] OTHER -> 0
             IN [k |-> k, f |-> f, sub |-> [i \in 1..n |->
                    Dec(SubOf(k), Cut(file, p + 1 + SIZE[k] + (i - 1) * SIZE[SubOf(k)], SIZE[SubOf(k)]), FALSE)]]
Read == /\ pos < Len(file) /\ UNCHANGED <<cmds, file>>
        /\ LET c == ReadAt(pos) IN got' = Append(got, c) /\ pos' = pos + CmdSize(c)
Next == Write \/ Read
Spec == Init /\ [][Next]_vars

Sofar == \A i \in DOMAIN got : got[i] = LcShown(cmds[i])
Skips == \A i \in DOMAIN got : pos <= Len(file)
Declared == \A i \in DOMAIN cmds : LcValid(cmds[i])
All == pos = Len(file) => Len(got) = Len(cmds)
=============================================================================
