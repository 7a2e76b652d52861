-------------------------------- MODULE Words --------------------------------
(* Machine words as little-endian byte sequences.  TLC's integers are 32 bits  *)
(* wide, the system under specification deals in 64-bit words, so a word is    *)
(* the sequence of its bytes, least significant first.                         *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Byte == 0..255
IsByteSeq(s) == \A i \in DOMAIN s : s[i] \in Byte

Zeros(n) == [i \in 1..n |-> 0]
Fill(n, b) == [i \in 1..n |-> b]
AllZero(s) == \A i \in DOMAIN s : s[i] = 0

\* the part of s from position p (1-based) of length n; TRUE prerequisite: in range
Cut(s, p, n) == SubSeq(s, p, p + n - 1)
InRange(s, p, n) == p >= 1 /\ n >= 0 /\ p + n - 1 <= Len(s)

ZeroExt(w, n) == IF Len(w) >= n THEN SubSeq(w, 1, n) ELSE w \o Zeros(n - Len(w))
SignBit(w) == w # <<>> /\ w[Len(w)] >= 128
SignExt(w, n) ==
    IF Len(w) >= n THEN SubSeq(w, 1, n)
    ELSE w \o Fill(n - Len(w), IF SignBit(w) THEN 255 ELSE 0)


\* value of a word if it is below 2^31, otherwise -1
ToNat(w) ==
    LET n == Len(w) IN
    IF (\E i \in 5..n : w[i] # 0) \/ (n >= 4 /\ w[4] >= 128) THEN -1
    ELSE (IF n >= 1 THEN w[1] ELSE 0) + (IF n >= 2 THEN 256 * w[2] ELSE 0)
         + (IF n >= 3 THEN 65536 * w[3] ELSE 0) + (IF n >= 4 THEN 16777216 * w[4] ELSE 0)

\* natural number (below 2^31) as n bytes
FromNat(v, n) == [i \in 1..n |->
    IF i > 4 THEN 0
    ELSE (v \div (CASE i = 1 -> 1 [] i = 2 -> 256 [] i = 3 -> 65536 [] OTHER -> 16777216)) % 256]

\* w * m + a over unbounded length Len(w)+1 (m, a <= 255): the extra byte is the overflow
MulAdd(w, m, a) ==
    LET f == FoldLeft(LAMBDA st, b : LET v == b * m + st.c IN
                        [c |-> v \div 256, o |-> Append(st.o, v % 256)],
                      [c |-> a, o |-> <<>>], w)
    IN Append(f.o, f.c)

\* sum modulo 256^Len(a); Len(a) = Len(b)
Add(a, b) ==
    FoldLeft(LAMBDA st, i : LET v == a[i] + b[i] + st.c IN
                [c |-> v \div 256, o |-> Append(st.o, v % 256)],
             [c |-> 0, o |-> <<>>], [i \in 1..Len(a) |-> i]).o
Neg(a) == Add([i \in DOMAIN a |-> 255 - a[i]], FromNat(1, Len(a)))
Sub(a, b) == Add(a, Neg(b))
AddNat(a, n) == Add(a, FromNat(n, Len(a)))

\* a <= b as unsigned words of equal length
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i = 0 THEN TRUE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqFrom(a, b, i - 1)
Leq(a, b) == LeqFrom(a, b, Len(a))
Less(a, b) == Leq(a, b) /\ a # b

Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
=============================================================================
