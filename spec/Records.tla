-------------------------------- MODULE Records -------------------------------
(* The Mach-O records: which fields in which order with which width, in both    *)
(* byte orders.  A field value is as the library holds it: a number is its      *)
(* little-endian bytes, a constant its name, a set the list of its members.     *)
EXTENDS Consts

Rep(n, x) == [i \in 1..n |-> x]
LAYOUT == [
  header   |-> <<"Magic", "Cpu", "FileType", "u4", "u4", "Flags", "u4">>,
  seg      |-> <<"u4", "u4", "name", "u8", "u8", "u8", "u8", "u4", "u4", "u4", "u4">>,
  sect     |-> <<"name", "name", "u8", "u8", "u4", "u4", "u4", "u4", "SectFlags", "u4", "u4", "u4">>,
  symtab   |-> Rep(6, "u4"),
  dysymtab |-> Rep(20, "u4"),
  build    |-> <<"u4", "u4", "Platform", "Version", "Version", "u4">>,
  tool     |-> <<"Tool", "u4">>,
  nlist    |-> <<"u4", "NTypeField", "u1", "u2", "u8">>,
  reloc    |-> <<"u4", "Bits">> ]
Types == DOMAIN LAYOUT
SIZE == [header |-> 32, seg |-> 72, sect |-> 80, symtab |-> 24, dysymtab |-> 80, build |-> 24, tool |-> 8,
         nlist |-> 16, reloc |-> 8]
KindSize(k) == CASE k \in {"u1", "NTypeField"} -> 1 [] k = "u2" -> 2 [] k \in {"u8", "Cpu"} -> 8
                 [] k = "name" -> 16 [] OTHER -> 4

W(x, big) == IF big THEN Rev(x) ELSE x
\* relocation bit-fields: symbol number 24 bits, pc-relative 1, length 2, extern 1, type 4,
\* from the least significant end in little-endian files, from the most significant end in big-endian ones
BitsEnc(v, big) ==
  LET n == v[1]  p == v[2][1]  l == NUM.RelocLength[v[3]][1]  e == v[4][1]  t == v[5][1] IN
  IF big THEN <<n[3], n[2], n[1], p * 128 + l * 32 + e * 16 + t>>
         ELSE <<n[1], n[2], n[3], p + l * 2 + e * 8 + t * 16>>
EncField(k, v, big) ==
  CASE k \in {"u1", "u2", "u4", "u8"} -> W(v, big)
    [] k = "name" -> v \o Zeros(16 - Len(v))
    [] k = "Cpu" -> W(CPU[v][1], big) \o W(CPU[v][2], big)
    [] k = "Flags" -> W(Union4("Flag", v), big)
    [] k = "SectFlags" -> W(Or4(Union4("SectionAttr", v[1]), NUM.SectionType[v[2]]), big)
    [] k = "Version" -> W(VersionNum(v), big)
    [] k = "NTypeField" -> NTypeNum(v)
    [] k = "Bits" -> BitsEnc(v, big)
    [] OTHER -> W(NUM[k][v], big)
Enc(ty, f, big) == Flat([i \in DOMAIN LAYOUT[ty] |-> EncField(LAYOUT[ty][i], f[i], big)])

\* the same value as it is reported: sets as the union of their bits
Shown(k, v) == CASE k = "Flags" -> Union4("Flag", v)
                 [] k = "SectFlags" -> <<Union4("SectionAttr", v[1]), v[2]>>
                 [] OTHER -> v
ShownAll(ty, f) == [i \in DOMAIN LAYOUT[ty] |-> Shown(LAYOUT[ty][i], f[i])]

\* reading: the inverse, field by field
NameOf(ty, num) == CHOOSE n \in Names(ty) : NUM[ty][n] = num
AndMask(x, m) == [i \in 1..4 |-> x[i] & m[i]]
DecField(k, b, big) ==
  CASE k \in {"u1", "u2", "u4", "u8"} -> W(b, big)
    [] k = "name" -> LET z == {i \in DOMAIN b : b[i] = 0} IN
                     IF z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
    [] k = "Cpu" -> CHOOSE c \in DOMAIN CPU : CPU[c] = <<W(SubSeq(b, 1, 4), big), W(SubSeq(b, 5, 8), big)>>
    [] k = "Flags" -> W(b, big)
    [] k = "SectFlags" -> LET x == W(b, big) IN
                          <<AndMask(x, <<0, 255, 255, 255>>), NameOf("SectionType", AndMask(x, <<255, 0, 0, 0>>))>>
    [] k = "Version" -> LET x == W(b, big) IN <<<<x[3], x[4]>>, <<x[2]>>, <<x[1]>>>>
    [] k = "NTypeField" -> CHOOSE v \in NTypeValues : NTypeNum(v) = b
    [] k = "Bits" ->
         IF big THEN LET y == b[4] IN
              <<<<b[3], b[2], b[1], 0>>, <<y \div 128>>, NameOf("RelocLength", B4((y \div 32) % 4)), <<(y \div 16) % 2>>, <<y % 16>>>>
         ELSE LET y == b[4] IN
              <<<<b[1], b[2], b[3], 0>>, <<y % 2>>, NameOf("RelocLength", B4((y \div 2) % 4)), <<(y \div 8) % 2>>, <<y \div 16>>>>
    [] OTHER -> NameOf(k, W(b, big))
FieldAt(ty, i) == 1 + FoldLeft(LAMBDA a, k : a + KindSize(k), 0, SubSeq(LAYOUT[ty], 1, i - 1))
Dec(ty, b, big) == [i \in DOMAIN LAYOUT[ty] |-> DecField(LAYOUT[ty][i], Cut(b, FieldAt(ty, i), KindSize(LAYOUT[ty][i])), big)]

\* load commands: a command, the records that follow it, its size
CMD == [seg |-> 25, symtab |-> 2, dysymtab |-> 11, build |-> 50]
SubOf(k) == IF k = "seg" THEN "sect" ELSE "tool"
CmdSize(c) == SIZE[c.k] + Len(c.sub) * SIZE[SubOf(c.k)]
LcEnc(c, big) == Enc(c.k, c.f, big) \o Flat([i \in DOMAIN c.sub |-> Enc(SubOf(c.k), c.sub[i], big)])
LcShown(c) == [k |-> c.k, f |-> ShownAll(c.k, c.f), sub |-> [i \in DOMAIN c.sub |-> ShownAll(SubOf(c.k), c.sub[i])]]
\* type and sizes as the format demands
LcValid(c) == /\ c.f[1] = B4(CMD[c.k])
              /\ c.f[2] = B4(CmdSize(c))
              /\ (c.k = "seg" => c.f[10] = B4(Len(c.sub)))
              /\ (c.k = "build" => c.f[6] = B4(Len(c.sub)))

ASSUME \A ty \in Types : FieldAt(ty, Len(LAYOUT[ty]) + 1) = SIZE[ty] + 1
=============================================================================
