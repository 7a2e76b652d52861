--------------------------------- MODULE X64 ---------------------------------
(* The fragment of the x86-64 instruction set the system can produce:          *)
(*  - Decode: an independent reading of the Intel SDM (64-bit mode), written   *)
(*    from the manual's tables and not from the encoder, which accepts every   *)
(*    encoding of the instructions concerned, not only the one the encoder     *)
(*    chooses;                                                                 *)
(*  - Encode: the design of at-x64's Encoder (field by field).                 *)
(* A request (what the caller of the library asked for) is a record            *)
(*   [op, w, dst, src]                                                         *)
(* with operands [k |-> "r", n |-> 0..15], [k |-> "i", v |-> bytes],           *)
(* [k |-> "m", m |-> memory operand] or [k |-> "-"].                           *)
EXTENDS Words, FiniteSets

None == [k |-> "-"]
R(n) == [k |-> "r", n |-> n]
I(v) == [k |-> "i", v |-> v]
M(m) == [k |-> "m", m |-> m]

(* ------------------------- effective addresses -------------------------- *)
\* What a memory operand denotes: rip-relative or not, the multiplicity of every
\* register in the address, and the displacement as a 64-bit word.
EA(rip, base, index, scale, disp) ==
    [rip |-> rip,
     co |-> [r \in 0..15 |-> (IF r = base THEN 1 ELSE 0)
                             + (IF r = index THEN 2 ^ scale ELSE 0)],
     disp |-> disp]
NoReg == -1

\* memory operands as the library's caller writes them
\*   [f |-> "ro",  base, disp]            base + disp
\*   [f |-> "rip", disp]                  rip + disp
\*   [f |-> "sib", base (or -1), disp, index, scale]   RSP as index: no index
Denotes(m) ==
    LET d == SignExt(m.disp, 8) IN
    CASE m.f = "ro"  -> EA(FALSE, m.base, NoReg, 0, d)
      [] m.f = "rip" -> EA(TRUE, NoReg, NoReg, 0, d)
      [] m.f = "sib" -> EA(FALSE, m.base, IF m.index = 4 THEN NoReg ELSE m.index, m.scale, d)

(* -------------------------------- Decode --------------------------------- *)
Bad(why) == [ok |-> FALSE, why |-> why]

\* ModRM (+ SIB + displacement) at position p of s.
\* Result: ok, reg (0..7), rmreg (register number or -1), ea, next
ModRM(s, p, rexR, rexX, rexB) ==
    IF p > Len(s) THEN Bad("truncated")
    ELSE
    LET b   == s[p]
        mod == b \div 64
        reg == ((b \div 8) % 8) + 8 * rexR
        rm  == b % 8
    IN
    IF mod = 3 THEN [ok |-> TRUE, reg |-> reg, rmreg |-> rm + 8 * rexB, ea |-> <<>>, next |-> p + 1]
    ELSE IF rm = 4 THEN
        IF p + 1 > Len(s) THEN Bad("truncated")
        ELSE
        LET sib   == s[p + 1]
            sc    == sib \div 64
            ix    == ((sib \div 8) % 8) + 8 * rexX
            bs    == sib % 8
            nob   == bs = 5 /\ mod = 0
            dlen  == IF nob THEN 4 ELSE CASE mod = 0 -> 0 [] mod = 1 -> 1 [] OTHER -> 4
        IN IF ~InRange(s, p + 2, dlen) THEN Bad("truncated")
           ELSE [ok |-> TRUE, reg |-> reg, rmreg |-> NoReg,
                 ea |-> EA(FALSE, IF nob THEN NoReg ELSE bs + 8 * rexB,
                           IF ix = 4 THEN NoReg ELSE ix, sc,
                           SignExt(Cut(s, p + 2, dlen), 8)),
                 next |-> p + 2 + dlen]
    ELSE
        LET rip  == mod = 0 /\ rm = 5
            dlen == IF rip THEN 4 ELSE CASE mod = 0 -> 0 [] mod = 1 -> 1 [] OTHER -> 4
        IN IF ~InRange(s, p + 1, dlen) THEN Bad("truncated")
           ELSE [ok |-> TRUE, reg |-> reg, rmreg |-> NoReg,
                 ea |-> EA(rip, IF rip THEN NoReg ELSE rm + 8 * rexB, NoReg, 0,
                           SignExt(Cut(s, p + 1, dlen), 8)),
                 next |-> p + 1 + dlen]

RM(mr) == IF mr.rmreg # NoReg THEN R(mr.rmreg) ELSE [k |-> "m", ea |-> mr.ea]

\* A decoded instruction: op, w (operand size), dst, src, len, imm (position of the
\* immediate relative to the first byte, -1 if none), immlen
Inst(op, w, dst, src, len, imm, immlen) ==
    [ok |-> TRUE, op |-> op, w |-> w, dst |-> dst, src |-> src, len |-> len,
     imm |-> imm, immlen |-> immlen]

\* the instruction that starts at position p0 (1-based) of s
DecodeAt(s, p0) ==
    LET has66 == p0 <= Len(s) /\ s[p0] = 102
        p1    == IF has66 THEN p0 + 1 ELSE p0
        hasRex == p1 <= Len(s) /\ s[p1] \in 64..79
        rex   == IF hasRex THEN s[p1] % 16 ELSE 0
        rexW  == rex \div 8
        rexR  == (rex \div 4) % 2
        rexX  == (rex \div 2) % 2
        rexB  == rex % 2
        p     == IF hasRex THEN p1 + 1 ELSE p1
        w     == IF rexW = 1 THEN 64 ELSE IF has66 THEN 16 ELSE 32
        stw   == IF has66 /\ rexW = 0 THEN 16 ELSE 64      \* push/pop operand size
        L(q)  == q - p0                                     \* length up to position q (exclusive)
        mr    == ModRM(s, p + 1, rexR, rexX, rexB)
    IN
    IF p > Len(s) THEN Bad("truncated")
    ELSE LET o == s[p] IN
    CASE o = 137 -> IF ~mr.ok THEN mr                       \* 89 /r  MOV r/m, r
                    ELSE Inst("mov", w, RM(mr), R(mr.reg), L(mr.next), -1, 0)
      [] o = 139 -> IF ~mr.ok THEN mr                       \* 8B /r  MOV r, r/m
                    ELSE Inst("mov", w, R(mr.reg), RM(mr), L(mr.next), -1, 0)
      [] o \in 184..191 ->                                   \* B8+r   MOV r, imm
            LET n == w \div 8 IN
            IF ~InRange(s, p + 1, n) THEN Bad("truncated")
            ELSE Inst("mov", w, R(o - 184 + 8 * rexB), I(Cut(s, p + 1, n)),
                      L(p + 1 + n), p + 1 - p0, n)
      [] o = 199 ->                                          \* C7 /0  MOV r/m, imm
            LET n == IF w = 16 THEN 2 ELSE 4 IN
            IF ~mr.ok THEN mr
            ELSE IF mr.reg % 8 # 0 THEN Bad("opcode")
            ELSE IF ~InRange(s, mr.next, n) THEN Bad("truncated")
            ELSE Inst("mov", w, RM(mr), I(SignExt(Cut(s, mr.next, n), w \div 8)),
                      L(mr.next + n), mr.next - p0, n)
      [] o = 141 -> IF ~mr.ok THEN mr                       \* 8D /r  LEA r, m
                    ELSE IF mr.rmreg # NoReg THEN Bad("lea of register")
                    ELSE Inst("lea", w, R(mr.reg), RM(mr), L(mr.next), -1, 0)
      [] o \in 80..87  -> Inst("push", stw, None, R(o - 80 + 8 * rexB), L(p + 1), -1, 0)
      [] o \in 88..95  -> Inst("pop", stw, R(o - 88 + 8 * rexB), None, L(p + 1), -1, 0)
      [] o = 255 -> IF ~mr.ok THEN mr                       \* FF /6  PUSH r/m
                    ELSE IF mr.reg % 8 # 6 THEN Bad("opcode")
                    ELSE Inst("push", stw, None, RM(mr), L(mr.next), -1, 0)
      [] o = 143 -> IF ~mr.ok THEN mr                       \* 8F /0  POP r/m
                    ELSE IF mr.reg % 8 # 0 THEN Bad("opcode")
                    ELSE Inst("pop", stw, RM(mr), None, L(mr.next), -1, 0)
      [] o = 106 -> IF ~InRange(s, p + 1, 1) THEN Bad("truncated")   \* 6A ib PUSH
                    ELSE Inst("push", stw, None, I(SignExt(Cut(s, p + 1, 1), stw \div 8)),
                              L(p + 2), p + 1 - p0, 1)
      [] o = 104 ->                                          \* 68 iz PUSH
            LET n == IF stw = 16 THEN 2 ELSE 4 IN
            IF ~InRange(s, p + 1, n) THEN Bad("truncated")
            ELSE Inst("push", stw, None, I(SignExt(Cut(s, p + 1, n), stw \div 8)),
                      L(p + 1 + n), p + 1 - p0, n)
      [] o = 195 /\ ~has66 -> Inst("ret", 64, None, None, L(p + 1), -1, 0)
      [] o = 15 /\ ~has66 /\ p + 1 <= Len(s) /\ s[p + 1] = 5 ->
                    Inst("syscall", 64, None, None, L(p + 2), -1, 0)
      [] OTHER -> Bad("opcode")

Decode(s) == DecodeAt(s, 1)

(* ------------------- does an instruction answer a request? --------------- *)
\* the value an immediate request denotes at operand size w
OperandIs(dec, req, w) ==
    CASE req.k = "-" -> dec.k = "-"
      [] req.k = "r" -> dec.k = "r" /\ dec.n = req.n
      [] req.k = "i" -> dec.k = "i" /\ dec.v = SignExt(req.v, w \div 8)
      [] req.k = "m" -> dec.k = "m" /\ dec.ea = Denotes(req.m)

\* push of an immediate: an 8 or 32 bit immediate is pushed as 64 bits, a 16 bit one as 16
ReqWidth(q) == IF q.op = "push" /\ q.src.k = "i" THEN (IF q.w = 16 THEN 16 ELSE 64) ELSE q.w

Answers(d, q) ==
    /\ d.ok
    /\ d.op = q.op
    /\ d.w = ReqWidth(q)
    /\ OperandIs(d.dst, q.dst, d.w)
    /\ OperandIs(d.src, q.src, d.w)

(* -------------------------------- Encode --------------------------------- *)
\* The design of at-x64: operand-size prefix, REX if needed, opcode, ModRM, SIB,
\* displacement, immediate.
Rex(w, r, x, b) == IF w + r + x + b = 0 THEN <<>> ELSE <<64 + 8 * w + 4 * r + 2 * x + b>>
Hi(n) == IF n >= 8 THEN 1 ELSE 0
Lo(n) == n % 8
Fits8(d) == d = SignExt(SubSeq(d, 1, 1), 4)

\* mode, r/m, SIB, displacement, rexX, rexB of a memory operand
MemForm(m) ==
    LET d8 == SubSeq(m.disp, 1, 1) IN
    CASE m.f = "rip" -> [mod |-> 0, rm |-> 5, sib |-> <<>>, disp |-> m.disp, x |-> 0, b |-> 0]
      [] m.f = "ro" ->
         LET zero == AllZero(m.disp) /\ Lo(m.base) # 5
             mod  == IF zero THEN 0 ELSE IF Fits8(m.disp) THEN 1 ELSE 2
         IN [mod |-> mod, rm |-> Lo(m.base),
             sib |-> IF Lo(m.base) = 4 THEN <<4 * 8 + 4>> ELSE <<>>,
             disp |-> CASE mod = 0 -> <<>> [] mod = 1 -> d8 [] OTHER -> m.disp,
             x |-> 0, b |-> Hi(m.base)]
      [] m.f = "sib" ->
         IF m.base = NoReg
         THEN [mod |-> 0, rm |-> 4, sib |-> <<m.scale * 64 + Lo(m.index) * 8 + 5>>,
               disp |-> m.disp, x |-> Hi(m.index), b |-> 0]
         ELSE LET zero == AllZero(m.disp) /\ Lo(m.base) # 5
                  mod  == IF zero THEN 0 ELSE IF Fits8(m.disp) THEN 1 ELSE 2
              IN [mod |-> mod, rm |-> 4,
                  sib |-> <<m.scale * 64 + Lo(m.index) * 8 + Lo(m.base)>>,
                  disp |-> CASE mod = 0 -> <<>> [] mod = 1 -> d8 [] OTHER -> m.disp,
                  x |-> Hi(m.index), b |-> Hi(m.base)]

WithMem(rexw, opcode, reg, m) ==
    LET f == MemForm(m) IN
    Rex(rexw, Hi(reg), f.x, f.b) \o opcode
      \o <<f.mod * 64 + Lo(reg) * 8 + f.rm>> \o f.sib \o f.disp

Encode(q) ==
    LET p66 == IF q.w = 16 THEN <<102>> ELSE <<>>
        rw  == IF q.w = 64 THEN 1 ELSE 0
    IN
    CASE q.op = "mov" /\ q.dst.k = "r" /\ q.src.k = "r" ->
            p66 \o Rex(rw, Hi(q.src.n), 0, Hi(q.dst.n)) \o <<137>>
                \o <<192 + Lo(q.src.n) * 8 + Lo(q.dst.n)>>
      [] q.op = "mov" /\ q.dst.k = "r" /\ q.src.k = "i" ->
            p66 \o Rex(rw, 0, 0, Hi(q.dst.n)) \o <<184 + Lo(q.dst.n)>> \o q.src.v
      [] q.op = "mov" /\ q.dst.k = "m" -> WithMem(1, <<137>>, q.src.n, q.dst.m)
      [] q.op = "lea" -> WithMem(1, <<141>>, q.dst.n, q.src.m)
      [] q.op = "push" /\ q.src.k = "r" ->
            p66 \o Rex(0, 0, 0, Hi(q.src.n)) \o <<80 + Lo(q.src.n)>>
      [] q.op = "push" /\ q.src.k = "i" ->
            (IF q.w = 16 THEN <<102>> ELSE <<>>)
              \o (CASE Len(q.src.v) = 1 -> <<106>> \o q.src.v
                     [] Len(q.src.v) = 8 ->             \* a source line: the value to push
                        IF q.src.v = SignExt(<<q.src.v[1]>>, 8) THEN <<106, q.src.v[1]>>
                        ELSE <<104>> \o SubSeq(q.src.v, 1, 4)
                     [] OTHER -> <<104>> \o q.src.v)
      [] q.op = "pop" -> p66 \o Rex(0, 0, 0, Hi(q.dst.n)) \o <<88 + Lo(q.dst.n)>>
      [] q.op = "ret" -> <<195>>
      [] q.op = "syscall" -> <<15, 5>>

\* position of the immediate in the design's encoding
ImmOffset(q) == Len(Encode(q)) - Len(q.src.v)
=============================================================================
