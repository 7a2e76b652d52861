------------------------------ MODULE TraceAsm -------------------------------
(* Trace validation of the assembler.  A trace is one assembly:                 *)
(*  [src  |-> bytes of the source, end |-> "ok"|"exit"|"panic"|...,             *)
(*   code |-> exit status, err |-> codes of standard error,                     *)
(*   files |-> sequence of the files written completely].                       *)
(* The machine reads the source line by line; at the end its verdict and object *)
(* are compared with what the real assembler did.                               *)
EXTENDS Asm, Json, IOUtils
CONSTANT ASPECTS
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, lines, judged, why
vars == <<line, sect, items, labels, globals, status, t, lines, judged, why>>
T == Traces[t]

Init == /\ AsmInit /\ t \in 1..Len(Traces) /\ lines = <<>> /\ judged = "start" /\ why = <<>>
\* the source is cut into lines once
Begin == /\ judged = "start" /\ judged' = "no" /\ lines' = Lines(T.src)
         /\ UNCHANGED <<asmvars, t, why>>
EmptyAt(n) == n \in DOMAIN lines /\ lines[n] = <<>>
Skip == /\ judged = "no" /\ EmptyAt(line + 1)
        /\ LET n == CHOOSE n \in (line + 1)..Len(lines) : ~EmptyAt(n + 1) IN SkipBlank(n - line)
        /\ UNCHANGED <<t, lines, judged, why>>
Read == /\ judged = "no" /\ line < Len(lines) /\ ~EmptyAt(line + 1)
        /\ LET p == ParseLine(lines[line + 1]) IN ReadLine(p)
        /\ UNCHANGED <<t, lines, judged, why>>
Finish == /\ judged = "no" /\ line = Len(lines) /\ EndOfInput
          /\ UNCHANGED <<t, lines, judged, why>>

\* numbers in the message
RunsOf(s) ==
    LET f == FoldLeft(LAMBDA a, c : IF Digit(c) THEN [a EXCEPT !.cur = Append(@, c)]
                 ELSE [cur |-> <<>>, all |-> IF a.cur = <<>> THEN a.all ELSE a.all \cup {a.cur}],
               [cur |-> <<>>, all |-> {}], s)
    IN IF f.cur = <<>> THEN f.all ELSE f.all \cup {f.cur}
Decimal(n) == Codes(ToString(n))

\* the line at which a refusal must be reported, 0 if anywhere
LastLine == ParseLine(lines[line])
LineWanted == status = "refused" /\ ~InBss(LastLine)

\* aspects: "accept": a valid source must be accepted, "refuse": an invalid one must
\* yield no object, "report": and be reported as it should
JudgeRefusal ==
    IF "refuse" \in ASPECTS /\ T.files # <<>> THEN <<"an object from an invalid source">>
    ELSE IF "refuse" \in ASPECTS /\ T.end \notin {"exit", "panic"} THEN <<"invalid source not refused", T.end>>
    ELSE IF "report" \notin ASPECTS THEN <<>>
    ELSE IF T.code = 0 THEN <<"refused with status 0">>
    ELSE IF T.err = <<>> THEN <<"refused without a message">>
    ELSE IF LineWanted /\ (T.end # "exit" \/ Decimal(line) \notin RunsOf(T.err))
         THEN <<"message without the line number", line>>
    ELSE <<>>

JudgeAccepted ==
    IF T.end # "ok" \/ T.files = <<>>
    THEN IF "accept" \in ASPECTS THEN <<"valid source refused", T.end>> ELSE <<>>
    ELSE LET bad == {j \in DOMAIN T.files : JudgeFile(T.files[j], ASPECTS) # <<>>} IN
         IF bad # {} THEN JudgeFile(T.files[CHOOSE j \in bad : TRUE], ASPECTS) ELSE <<>>

Judge == /\ judged = "no" /\ status # "reading"
         /\ judged' = "yes" /\ PrintT(ToJson(status))
         /\ why' = CASE status \in {"refused", "undefined"} -> JudgeRefusal
                     [] status = "unspec" -> <<>>
                     [] OTHER -> JudgeAccepted
         /\ UNCHANGED <<asmvars, t, lines>>
Next == Begin \/ Skip \/ Read \/ Finish \/ Judge
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
\* the rest of the state is a function of these (the machine is deterministic)
View == <<t, line, status, judged, why>>
=============================================================================
