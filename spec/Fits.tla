---------------------------------- MODULE Fits ----------------------------------
(* Which byte sequences encode a record, a sequence of load commands, a string     *)
(* table.  "must": an encoding as the library writes it; "may": one that is left   *)
(* open, but if it is read, then as what it says; "not": no encoding at all.       *)
EXTENDS Records

Worst(S) == IF "not" \in S THEN "not" ELSE IF "may" \in S THEN "may" ELSE "must"
If(c) == IF c THEN "must" ELSE "not"
Mask(ty) == Union4(ty, SetToSeq(Names(ty)))
Within(x, m) == \A i \in 1..4 : (x[i] | m[i]) = m[i]
FLAGS == Mask("Flag")
ATTRS == Mask("SectionAttr")
NameFits(b) == LET z == {i \in DOMAIN b : b[i] = 0}
                   n == IF z = {} THEN Len(b) ELSE (CHOOSE i \in z : \A j \in z : i <= j) - 1
               IN IF (\A i \in 1..n : b[i] < 128) /\ (\A i \in (n + 1)..Len(b) : b[i] = 0) THEN "must" ELSE "may"
FieldFits(k, b, big) ==
  CASE k \in {"u1", "u2", "u4", "u8", "Version", "Bits"} -> "must"
    [] k = "name" -> NameFits(b)
    [] k = "Magic" -> IF W(b, big) = NUM.Magic.Magic64 THEN "must" ELSE IF W(b, big) = NUM.Magic.Magic THEN "may" ELSE "not"
    [] k = "Cpu" -> If(\E c \in DOMAIN CPU : CPU[c] = <<W(SubSeq(b, 1, 4), big), W(SubSeq(b, 5, 8), big)>>)
    [] k = "Flags" -> If(Within(W(b, big), FLAGS))
    [] k = "SectFlags" -> LET x == W(b, big) IN
         If(Within(AndMask(x, <<0, 255, 255, 255>>), ATTRS) /\ \E n \in Names("SectionType") : NUM.SectionType[n] = AndMask(x, <<255, 0, 0, 0>>))
    [] k = "NTypeField" -> If(\E v \in NTypeValues : NTypeNum(v) = b)
    [] OTHER -> If(\E n \in Names(k) : NUM[k][n] = W(b, big))
\* is x the size of a command of this kind with this number of entries?
SizeFits(k, x, n) ==
  CASE k \in {"symtab", "dysymtab"} -> If(x = B4(SIZE[k]))
    [] k = "seg" -> IF n[4] = 0 THEN If(x = B4(72 + 80 * ToNat(n))) ELSE IF n[4] < 4 THEN "may" ELSE "not"
    [] OTHER -> IF n[4] < 16 THEN If(x = B4(24 + 8 * ToNat(n))) ELSE IF n[4] < 32 THEN "may" ELSE "not"
PartAt(ty, b, i) == Cut(b, FieldAt(ty, i), KindSize(LAYOUT[ty][i]))
CountOf(k, b, big) == CASE k = "seg" -> W(PartAt(k, b, 10), big) [] k = "build" -> W(PartAt(k, b, 6), big) [] OTHER -> Zeros(4)
RecFits(ty, b, big) ==
  IF Len(b) < SIZE[ty] THEN "not"
  ELSE Worst({FieldFits(LAYOUT[ty][i], PartAt(ty, b, i), big) : i \in DOMAIN LAYOUT[ty]} \cup
             (IF ty \in DOMAIN CMD
              THEN {If(W(PartAt(ty, b, 1), big) = B4(CMD[ty])), SizeFits(ty, W(PartAt(ty, b, 2), big), CountOf(ty, b, big))}
              ELSE {}))
\* the order in which a header is written
HeaderBig(b) == Len(b) >= 4 /\ SubSeq(b, 1, 4) \in {Rev(NUM.Magic.Magic64), Rev(NUM.Magic.Magic)}

\* the command at the front of b: its kind, how it fits, its size
CmdFits(b, big) ==
  LET none == [k |-> "", fits |-> "not", size |-> 0]
      w == IF Len(b) < 4 THEN <<>> ELSE W(SubSeq(b, 1, 4), big)
      ks == {k \in DOMAIN CMD : w = B4(CMD[k])} IN
  IF ks = {} THEN none
  ELSE LET k == CHOOSE k \in ks : TRUE
           f == RecFits(k, b, big)
           n == IF f = "not" THEN Zeros(4) ELSE CountOf(k, b, big)
           sub == SubOf(k) IN
       IF f = "not" \/ n[3] # 0 \/ n[4] # 0 THEN none     \* (no stream here is as long as that)
       ELSE LET m == ToNat(n)  len == SIZE[k] + m * SIZE[sub] IN
            IF Len(b) < len THEN none
            ELSE [k |-> k, size |-> len,
                  fits |-> Worst({f} \cup {RecFits(sub, Cut(b, SIZE[k] + 1 + (i - 1) * SIZE[sub], SIZE[sub]), big) : i \in 1..m})]
\* what it says, if it fits
CmdSays(b, c, big) ==
  LET f == Dec(c.k, b, big)  sub == SubOf(c.k) IN
  [k |-> c.k, f |-> f, sub |-> [i \in 1..((c.size - SIZE[c.k]) \div SIZE[sub]) |->
      Dec(sub, Cut(b, SIZE[c.k] + 1 + (i - 1) * SIZE[sub], SIZE[sub]), big)]]

\* a string table
TableFits(b) == IF b = <<>> \/ b[1] # 0 \/ b[Len(b)] # 0 THEN "not" ELSE IF \A i \in DOMAIN b : b[i] < 128 THEN "must" ELSE "may"
\* an addition
StringFits(s) == IF \E i \in DOMAIN s : s[i] = 0 THEN "not" ELSE IF \A i \in DOMAIN s : s[i] < 128 THEN "must" ELSE "may"

\* a value as it is shown, encoded again
AgainField(k, v, big) == CASE k = "Flags" -> W(v, big) [] k = "SectFlags" -> W(Or4(v[1], NUM.SectionType[v[2]]), big)
                           [] OTHER -> EncField(k, v, big)
Again(ty, f, big) == Flat([i \in DOMAIN LAYOUT[ty] |-> AgainField(LAYOUT[ty][i], f[i], big)])
\* up to the ends of names
Ends(b) == LET z == {i \in DOMAIN b : b[i] = 0} IN IF z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
Alike(ty, a, b) == \A i \in DOMAIN LAYOUT[ty] : LET x == PartAt(ty, a, i)  y == PartAt(ty, b, i) IN
                     x = y \/ (LAYOUT[ty][i] = "name" /\ Ends(x) = Ends(y))
=============================================================================
