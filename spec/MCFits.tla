--------------------------------- MODULE MCFits --------------------------------
(* An encoding in which one byte has come out wrong.  Checked: what still fits     *)
(* says something that encodes to those very bytes (the ends of names aside), and  *)
(* what is encoded fits.  Each case is printed for replay.                         *)
EXTENDS Fits, Json
CONSTANTS TYPES, BYTES, SEEDS
VARIABLES ty, big, b, d
vars == <<ty, big, b, d>>
Val(k, i, s) == CASE k \in {"u1", "u2", "u4", "u8"} -> [j \in 1..KindSize(k) |-> (37 * i + 11 * j + 101 * s) % 256]
               [] k = "name" -> IF (i + s) % 2 = 0 THEN <<95, 95, 84, 69, 88, 84>> ELSE [j \in 1..16 |-> 64 + j]
               [] k = "Flags" -> IF s % 2 = 0 THEN <<>> ELSE <<"TwoLevel", "Pie", "NoUndefs">>
               [] k = "SectFlags" -> IF s % 2 = 0 THEN <<<<>>, "Regular">> ELSE <<<<"PureInstructions", "ExtReloc">>, "Coalesced">>
               [] k = "Version" -> <<<<i, s>>, <<14>>, <<i + 3>>>>
               [] k = "Bits" -> <<<<s, 2, 200, 0>>, <<1>>, "Long", <<s % 2>>, <<9>>>>
               [] k = "NTypeField" -> IF s % 2 = 0 THEN <<"Norm", "Sect", <<0>>, <<1>>>> ELSE <<"Stab", "Gsym">>
               [] k = "Magic" -> "Magic64"
               [] OTHER -> LET n == SetToSeq(IF k = "Cpu" THEN DOMAIN CPU ELSE Names(k)) IN n[1 + (s % Len(n))]
Base(t, s) == [i \in DOMAIN LAYOUT[t] |-> Val(LAYOUT[t][i], i, s)]
Value(t, s) ==
  LET f == Base(t, s) IN
  IF t \in DOMAIN CMD
  THEN LET n == IF t \in {"seg", "build"} THEN s ELSE 0
           g == [f EXCEPT ![1] = B4(CMD[t]), ![2] = B4(SIZE[t] + n * SIZE[SubOf(t)])] IN
       CASE t = "seg" -> [g EXCEPT ![10] = B4(n)] [] t = "build" -> [g EXCEPT ![6] = B4(n)] [] OTHER -> g
  ELSE f
Out == PrintT(ToJson([ty |-> ty, big |-> big', b |-> b']))
Init == /\ ty \in TYPES /\ big \in {TRUE, FALSE} /\ d = 0
        /\ \E s \in SEEDS : b = Enc(ty, Value(ty, s), big)
Corrupt == /\ d = 0 /\ d' = 1 /\ UNCHANGED <<ty, big>>
           /\ \E i \in DOMAIN b, x \in BYTES \cup {-1, -2} :
                b' = [b EXCEPT ![i] = CASE x = -1 -> (@ + 1) % 256 [] x = -2 -> (@ + 128) % 256 [] OTHER -> x]
           /\ Out
\* the same bytes taken for the other order
Turn == /\ d = 0 /\ d' = 1 /\ big' = ~big /\ UNCHANGED <<ty, b>> /\ Out
Next == Corrupt \/ Turn
Spec == Init /\ [][Next]_vars

Order == IF ty = "header" THEN HeaderBig(b) ELSE big
F == RecFits(ty, b, Order)
Encoded == d = 0 => F = "must" /\ Order = big
Says == F # "not" => LET a == Again(ty, Dec(ty, b, Order), Order) IN Len(a) = Len(b) /\ Alike(ty, a, b)
Exactly == F = "must" => Again(ty, Dec(ty, b, Order), Order) = b
=============================================================================
