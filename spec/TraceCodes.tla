------------------------------ MODULE TraceCodes ------------------------------
(* Trace validation of the coded constants: names to numbers, numbers to names, *)
(* and whole ranges of numbers of which only the known ones may be read.        *)
EXTENDS Consts, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, why
vars == <<t, why>>
E == Traces[t]

\* name (or members, or parts) -> number
Expect(ty, v) ==
  CASE ty = "Flags" -> Union4("Flag", v)
    [] ty = "SectionAttrs" -> Union4("SectionAttr", v)
    [] ty = "NTypeField" -> NTypeNum(v)
    [] ty = "Version" -> VersionNum(v)
    [] ty = "CpuType" -> CPU[v]
    [] OTHER -> NUM[ty][v]
\* the numbers that stand for something, and for what
Table(ty) == CASE ty = "MagicU" -> "Magic" [] OTHER -> ty
SetMask(ty) == Union4(IF ty = "Flags" THEN "Flag" ELSE "SectionAttr", SetToSeq(Names(IF ty = "Flags" THEN "Flag" ELSE "SectionAttr")))
InMask(n, m) == \A i \in 1..4 : (n[i] & m[i]) = n[i]
Width1 == {"NType", "DebugSymbol", "X86RelocType", "X86_64RelocType", "NTypeField"}
Num(ty, n) == IF ty \in Width1 THEN SubSeq(n, 1, 1) ELSE n
Meant(ty, n) ==
  CASE ty \in {"Flags", "SectionAttrs"} -> IF InMask(n, SetMask(ty)) THEN {n} ELSE {}
    [] ty = "NTypeField" -> {v \in NTypeValues : NTypeNum(v) = Num(ty, n)}
    [] ty = "Version" -> {<<<<n[3], n[4]>>, <<n[2]>>, <<n[1]>>>>}
    [] OTHER -> {v \in Names(Table(ty)) : NUM[Table(ty)][v] = Num(ty, n)}

ToEv == IF E.ok THEN (IF E.v = Expect(E.ty, E.name) THEN <<>> ELSE <<"number", E.ty, E.name, E.v>>) ELSE <<"no number", E.ty, E.name>>
FromEv(m) == IF E.ok THEN (IF m = {} THEN <<"unknown number read", E.ty, E.n, E.v>>
                           ELSE IF {E.v} = m THEN <<>> ELSE <<"read as another", E.ty, E.n, E.v, m>>)
             ELSE IF m = {} THEN <<>> ELSE <<"known number not read", E.ty, E.n, m>>
\* the range lo, lo + 1, ... (cnt numbers): exactly the known ones are read
At(k) == AddNat(E.lo, k)
Scan == LET known == {<<At(k), CHOOSE v \in Meant(E.ty, At(k)) : TRUE>> : k \in {k \in 0..(E.cnt - 1) : Meant(E.ty, At(k)) # {}}}
            got == {<<E.got[j][1], E.got[j][2]>> : j \in DOMAIN E.got}
        IN IF got = known THEN <<>> ELSE <<"range", E.ty, E.lo, got, known>>
Init == t \in 1..Len(Traces) /\ why = <<"todo">>
Next == /\ why = <<"todo">> /\ UNCHANGED t
        /\ why' = CASE E.e = "to" -> ToEv
                    [] E.e = "from" -> FromEv(IF E.ty = "CpuType" THEN {c \in DOMAIN CPU : CPU[c] = E.n} ELSE Meant(E.ty, E.n))
                    [] OTHER -> Scan
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>> \/ why = <<"todo">>
=============================================================================
