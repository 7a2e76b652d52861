------------------------------- MODULE X64Req -------------------------------
(* The requests a caller of at-x64 can make, from finite palettes of constants: *)
(* every register in every position, every addressing form, and boundary values *)
(* of immediates and displacements.                                             *)
EXTENDS X64, Naturals

CONSTANTS DISPS,   \* magnitudes of the displacements to use (of either sign)
          IMMS,    \* magnitudes of the immediates to use (of either sign)
          MEMREGS  \* the other operand of memory instructions

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
W(i, n) == IF i >= 0 THEN FromNat(i, n) ELSE Neg(FromNat(-i, n))
\* every single bit and its neighbours, as n-byte words
Bits(n) == UNION { LET b == [k \in 1..n |-> IF (j \div 8) + 1 = k THEN Pow2(j % 8) ELSE 0]
                   IN {b, Neg(b), AddNat(b, 1), Sub(b, FromNat(1, n))} : j \in 0..(8 * n - 1) }
Regs == 0..15

Q(op, w, dst, src) == [op |-> op, w |-> w, dst |-> dst, src |-> src]

Signed(S, n) == {W(i, n) : i \in S} \cup {W(-i, n) : i \in S}
ImmWords(n) == Signed(IMMS, n) \cup Bits(n)

\* the sets are given as predicates that enumerate their members one by one
RegRequest(q) ==
    \/ \E w \in {64, 32, 16}, a, b \in Regs : q = Q("mov", w, R(a), R(b))
    \/ \E w \in {64, 32, 16}, a \in Regs : \E v \in Signed(IMMS, w \div 8) : q = Q("mov", w, R(a), I(v))
    \/ \E w \in {64, 32, 16}, a \in {0, 11} : \E v \in Bits(w \div 8) : q = Q("mov", w, R(a), I(v))
    \/ \E w \in {64, 16}, a \in Regs : q = Q("push", w, None, R(a)) \/ q = Q("pop", w, R(a), None)
    \/ \E w \in {16, 32} : \E v \in ImmWords(w \div 8) : q = Q("push", w, None, I(v))
    \/ \E v \in Byte : q = Q("push", 8, None, I(<<v>>))
    \/ q = Q("ret", 64, None, None)
    \/ q = Q("syscall", 64, None, None)

DispWords == Signed(DISPS, 4)
MemIs(q, m, Rs) == \E r \in Rs : q = Q("lea", 64, R(r), M(m)) \/ q = Q("mov", 64, M(m), R(r))
Mem(q, bases, nobase, D, ixs, scs, Rs) ==
    \/ \E b \in bases, d \in D : MemIs(q, [f |-> "ro", base |-> b, disp |-> d], Rs)
    \/ nobase /\ \E d \in D : MemIs(q, [f |-> "rip", disp |-> d], Rs)
    \/ \E b \in bases \cup (IF nobase THEN {NoReg} ELSE {}), d \in D, x \in ixs, s \in scs :
         MemIs(q, [f |-> "sib", base |-> b, disp |-> d, index |-> x, scale |-> s], Rs)
MemRequest(q) ==
    \/ Mem(q, Regs, TRUE, DispWords, Regs, 0..3, MEMREGS)
    \/ Mem(q, {0, 4, 5, 13}, TRUE, Bits(4), {1, 4, 12}, {2}, {2, 9})
    \/ Mem(q, Regs, TRUE, {W(8, 4)}, Regs, {1}, Regs)
=============================================================================
