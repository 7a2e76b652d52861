-------------------------------- MODULE MCAsm --------------------------------
(* The assembler's design on all short programs over a palette of lines: every  *)
(* reachable object is written, and the file written says what the source says. *)
(* The programs are printed for replay against the real assembler.              *)
EXTENDS Asm, Json
CONSTANTS PALETTE,  \* name of the palette
          MAXLINES
VARIABLES prog, taken, out
vars == <<line, sect, items, labels, globals, status, prog, taken, out>>

Palettes == [
  sections |-> << "section .text", "section .data", "section .bss", "x:", "mov rax, x", "mov ebx, x",
                  "dd 7", "push 5", "y db 1", "mov rdx, y" >>,
  labels |-> << "section .text", "section .data", "section .bss", "a:", "b:", "c dw 3", "ret",
                "global a", "global c", "mov rax, a" >>,
  errors |-> << "ret", "mov rax, x", "x:", "foo", "section .data", "section .bss", "db 256", "dd \"abc",
                "ret 5", "; comment", "global x", "mov ax, x" >> ]
Texts == Palettes[PALETTE]
Parsed == [i \in DOMAIN Texts |-> ParseLine(Codes(Texts[i]))]
ASSUME \A i \in DOMAIN Texts : Parsed[i].k # "unspec"

Init == AsmInit /\ prog = <<>> /\ taken = {} /\ out = <<>>
More == status = "reading" /\ Len(prog) < MAXLINES
\* prog: the lines read, as numbers into the palette; taken: the actions that read them
Aux(i, a) == prog' = Append(prog, i) /\ taken' = taken \cup {a} /\ UNCHANGED out
AEmpty == More /\ \E i \in DOMAIN Texts : EmptyLine(Parsed[i]) /\ Aux(i, "empty")
ASection == More /\ \E i \in DOMAIN Texts : SwitchSection(Parsed[i]) /\ Aux(i, "section")
AGlobal == More /\ \E i \in DOMAIN Texts : DeclareGlobal(Parsed[i]) /\ Aux(i, "global")
ALabel == More /\ \E i \in DOMAIN Texts : DefineLabel(Parsed[i]) /\ Aux(i, "label")
AData == More /\ \E i \in DOMAIN Texts : EmitData(Parsed[i]) /\ Aux(i, "data")
AInst == More /\ \E i \in DOMAIN Texts : EmitInstruction(Parsed[i]) /\ Aux(i, "inst")
ARefuse == More /\ \E i \in DOMAIN Texts : Refuse(Parsed[i]) /\ Aux(i, "refuse") /\ PrintT(ToJson([p |-> prog', a |-> taken']))
AEnd == EndOfInput /\ PrintT(ToJson([p |-> prog, a |-> taken])) /\ UNCHANGED <<prog, taken, out>>
AWrite == status = "read" /\ out = <<>> /\ out' = Emit(DesignObject) /\ UNCHANGED <<asmvars, prog, taken>>
Next == AEmpty \/ ASection \/ AGlobal \/ ALabel \/ AData \/ AInst \/ ARefuse \/ AEnd \/ AWrite
Spec == Init /\ [][Next]_vars

ALL == {"content", "symbols", "external", "relocs", "wellformed"}
\* the file says what the source says, and is a well-formed object
Faithful == out # <<>> => JudgeFile(out, ALL) = <<>>
Recovered == out # <<>> => Differences(out, DesignObject) = {}
\* a label is defined once; what is refused yields no object
Once == \A i, j \in DOMAIN labels : labels[i].name = labels[j].name => i = j
NoObject == status \in {"refused", "undefined"} => out = <<>>
\* lines only ever add: nothing emitted, defined or declared is taken back
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
AppendOnly == [][/\ \A s \in DOMAIN items : IsPrefixOf(items[s], items'[s])
                 /\ IsPrefixOf(labels, labels') /\ globals \subseteq globals'
                 /\ \A s \in DOMAIN items : s # sect => items[s] = items'[s]
                 /\ (status # "reading" => UNCHANGED asmvars)]_vars
=============================================================================
