------------------------------- MODULE MCRecords ------------------------------
(* One field of a record at a time takes every value of a sample of its kind,   *)
(* over several backgrounds; each record value is printed with its encodings    *)
(* for replay.  Checked: sizes, and that reading inverts writing in both byte   *)
(* orders.                                                                      *)
EXTENDS Records, Json
CONSTANT TYPES, BACKS
VARIABLES ty, f, d
vars == <<ty, f, d>>

Seqn(n, a, s) == [i \in 1..n |-> (a + s * i) % 256]
Nums(n) == {Zeros(n), Fill(n, 255), Seqn(n, 17, 31), Seqn(n, 250, 7)} \cup
           {[Zeros(n) EXCEPT ![i] = 1] : i \in 1..n} \cup {[Zeros(n) EXCEPT ![i] = 128] : i \in 1..n}
NameVals == {<<>>, <<97>>, Seqn(15, 64, 1), Seqn(16, 64, 2), <<95, 95, 84, 69, 88, 84>>, <<32, 127, 1>>}
ListOf(S) == SetToSeq(S)
Vals(k) ==
  CASE k = "u1" -> Nums(1) [] k = "u2" -> Nums(2) [] k = "u4" -> Nums(4) [] k = "u8" -> Nums(8)
    [] k = "name" -> NameVals
    [] k = "Magic" -> {"Magic64"}
    [] k = "Cpu" -> DOMAIN CPU
    [] k = "Flags" -> {<<>>, ListOf(Names("Flag"))} \cup {<<n>> : n \in Names("Flag")}
                      \cup {ListOf(Names("Flag") \ {n}) : n \in Names("Flag")} \cup {<<"Pie", "NoUndefs", "Pie">>}
    [] k = "SectFlags" -> {<<a, t>> : a \in {<<>>, ListOf(Names("SectionAttr"))}, t \in Names("SectionType")}
                          \cup {<<<<n>>, t>> : n \in Names("SectionAttr"), t \in {"Regular", "Coalesced"}}
    [] k = "Version" -> {<<a, b, c>> : a \in {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<255, 255>>},
                                       b \in {<<0>>, <<2>>, <<255>>}, c \in {<<0>>, <<3>>, <<255>>}}
    [] k = "NTypeField" -> NTypeValues
    [] k = "Bits" -> {<<n \o <<0>>, p, l, e, t>> : n \in {<<0, 0, 0>>, <<1, 2, 3>>, <<255, 255, 255>>, <<0, 0, 128>>},
                                                 p \in {<<0>>, <<1>>}, l \in Names("RelocLength"), e \in {<<0>>, <<1>>},
                                                 t \in {<<0>>, <<1>>, <<2>>, <<4>>, <<8>>, <<9>>, <<15>>}}
    [] OTHER -> Names(k)
\* backgrounds: every field its own recognisable value
Back(k, i, b) ==
  CASE k = "u1" -> Seqn(1, 40 * b + i, 3) [] k = "u2" -> Seqn(2, 40 * b + i, 13)
    [] k = "u4" -> Seqn(4, 40 * b + 5 * i, 29) [] k = "u8" -> Seqn(8, 40 * b + 7 * i, 19)
    [] k = "name" -> IF b = 1 THEN <<65 + i, 95>> ELSE Seqn(16, 50 + i, 1)
    [] OTHER -> LET s == ListOf(Vals(k)) IN s[1 + ((b + i) % Len(s))]
\* what a record must hold to be one: commands bear their number and size
Fixed(t, i) == CASE t = "seg" /\ i = 1 -> {B4(25)} [] t = "seg" /\ i = 2 -> {B4(72 + 80 * n) : n \in 0..2}
                 [] t = "symtab" /\ i = 1 -> {B4(2)} [] t = "symtab" /\ i = 2 -> {B4(24)}
                 [] t = "dysymtab" /\ i = 1 -> {B4(11)} [] t = "dysymtab" /\ i = 2 -> {B4(80)}
                 [] t = "build" /\ i = 1 -> {B4(50)} [] t = "build" /\ i = 2 -> {B4(24 + 8 * n) : n \in 0..2}
                 [] OTHER -> {}
Fit(t, g) == CASE t = "seg" -> [g EXCEPT ![10] = B4((ToNat(g[2]) - 72) \div 80)]
               [] t = "build" -> [g EXCEPT ![6] = B4((ToNat(g[2]) - 24) \div 8)]
               [] OTHER -> g
Out(t, g) == PrintT(ToJson([ty |-> t, f |-> g, le |-> Enc(t, g, FALSE), be |-> Enc(t, g, TRUE)]))
Init == /\ ty \in TYPES /\ d = 0
        /\ \E b \in BACKS : f = Fit(ty, [i \in DOMAIN LAYOUT[ty] |->
               IF Fixed(ty, i) # {} THEN CHOOSE x \in Fixed(ty, i) : TRUE ELSE Back(LAYOUT[ty][i], i, b)])
        /\ Out(ty, f)
Next == /\ d = 0 /\ d' = 1 /\ UNCHANGED ty
        /\ \E i \in DOMAIN LAYOUT[ty] :
             \E v \in (IF Fixed(ty, i) # {} THEN Fixed(ty, i) ELSE Vals(LAYOUT[ty][i])) :
                f' = Fit(ty, [f EXCEPT ![i] = v])
        /\ Out(ty, f')
Spec == Init /\ [][Next]_vars
Sized == Len(Enc(ty, f, FALSE)) = SIZE[ty] /\ Len(Enc(ty, f, TRUE)) = SIZE[ty]
ReadsBack == \A big \in {FALSE, TRUE} : Dec(ty, Enc(ty, f, big), big) = ShownAll(ty, f)
=============================================================================
