------------------------------- MODULE Source --------------------------------
(* The source language of at-asm: characters, tokens, numbers, lines.  A source *)
(* is the sequence of its byte codes.  Lines of the language are classified by  *)
(* ParseLine; a line whose meaning the language leaves open is classified       *)
(* "unspec", and nothing is required of a source that contains one.             *)
EXTENDS X64

(* ------------------------------- characters ------------------------------ *)
PRINTABLE == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeTable == [c \in {SubSeq(PRINTABLE, i, i) : i \in 1..95} |->
                 31 + (CHOOSE i \in 1..95 : SubSeq(PRINTABLE, i, i) = c)]
Codes(str) == [i \in 1..Len(str) |-> CodeTable[SubSeq(str, i, i)]]

TAB == 9  LF == 10  CR == 13  SP == 32
QUOTE == 34  PLUS == 43  COMMA == 44  MINUS == 45  COLON == 58  SEMI == 59
Blank(c) == c = SP \/ c = TAB
Digit(c) == c \in 48..57
Letter(c) == c \in 65..90 \/ c \in 97..122
\* characters of which names are made for sure
NameStart(c) == Letter(c) \/ c = 95 \/ c = 46                     \* _ .
NameChar(c) == NameStart(c) \/ Digit(c) \/ c = 36 \/ c = 64 \/ c = 63  \* $ @ ?

(* --------------------------------- lines ---------------------------------- *)
\* the lines of a source, without their terminators (LF or CR LF); a last line
\* without terminator counts
Lines(src) ==
    LET lfs == SelectSeq([i \in DOMAIN src |-> i], LAMBDA i : src[i] = LF)
        n == Len(lfs)
        from(i) == IF i = 1 THEN 1 ELSE lfs[i - 1] + 1
        to(i) == LET e == IF i > n THEN Len(src) ELSE lfs[i] - 1 IN
                 IF e >= from(i) /\ src[e] = CR THEN e - 1 ELSE e
        more == from(n + 1) <= Len(src)
    IN [i \in 1..(IF more THEN n + 1 ELSE n) |-> SubSeq(src, from(i), to(i))]

\* a line without its comment: up to the first ';' that stands outside quotes
Uncomment(l) ==
    LET f == FoldLeft(LAMBDA a, c :
                 IF a.stop THEN a
                 ELSE IF c = SEMI /\ ~a.q THEN [a EXCEPT !.stop = TRUE]
                 ELSE [a EXCEPT !.n = @ + 1, !.q = IF c = QUOTE THEN ~@ ELSE @],
               [stop |-> FALSE, q |-> FALSE, n |-> 0], l)
    IN SubSeq(l, 1, f.n)

\* characters outside quotes that give a line no specified meaning
StrayChars(s) ==
    FoldLeft(LAMBDA a, c :
        IF c = QUOTE THEN [a EXCEPT !.q = ~@]
        ELSE IF ~a.q /\ ~Blank(c) /\ (c < 32 \/ c > 126) THEN [a EXCEPT !.stray = TRUE] ELSE a,
      [q |-> FALSE, stray |-> FALSE], s).stray

\* first position at or after p where Test holds (Len + 1 if none)
FirstIn(s, p, q, Test(_)) ==
    IF \E i \in p..q : Test(s[i])
    THEN CHOOSE i \in p..q : Test(s[i]) /\ (\A j \in p..(i - 1) : ~Test(s[j]))
    ELSE q + 1
\* (sought near by first: TLC lists the whole range)
FirstFrom(s, p, Test(_)) ==
    IF p > Len(s) THEN p
    ELSE IF Test(s[p]) THEN p
    ELSE IF p + 20 < Len(s)
    THEN LET z == FirstIn(s, p, p + 20, Test) IN IF z = p + 21 THEN FirstIn(s, z, Len(s), Test) ELSE z
    ELSE FirstIn(s, p, Len(s), Test)
SkipBlanks(s, p) == FirstFrom(s, p, LAMBDA c : ~Blank(c))
WordEnd(s, p) == FirstFrom(s, p, Blank)
ItemEnd(s, p) == FirstFrom(s, p, LAMBDA c : Blank(c) \/ c = COMMA)
Find(s, p, x) == FirstFrom(s, p, LAMBDA c : c = x)

Tail2(s, p) == SubSeq(s, p, Len(s))
TrimRight(s) ==
    IF s = <<>> THEN s
    ELSE IF ~Blank(s[Len(s)]) THEN s
    ELSE SubSeq(s, 1, FoldLeft(LAMBDA a, i : IF Blank(s[i]) THEN a ELSE i, 0, [i \in DOMAIN s |-> i]))
Trim(s) == TrimRight(Tail2(s, SkipBlanks(s, 1)))

\* the words of s
RECURSIVE WordsFrom(_, _)
WordsFrom(s, p) ==
    LET b == SkipBlanks(s, p) IN
    IF b > Len(s) THEN <<>>
    ELSE LET e == WordEnd(s, b) IN <<SubSeq(s, b, e - 1)>> \o WordsFrom(s, e)
WordsOf(s) == WordsFrom(s, 1)

(* -------------------------------- numbers --------------------------------- *)
HexVal(c) == IF Digit(c) THEN c - 48
             ELSE IF c \in 97..102 THEN c - 87
             ELSE IF c \in 65..70 THEN c - 55 ELSE -1

NotNum == [k |-> "no"]
\* value of the digits of s in the base, as a 64-bit word; "no" if there is none
DigitsValue(s, base) ==
    IF s = <<>> THEN NotNum
    ELSE LET f == FoldLeft(LAMBDA a, c :
                LET h == HexVal(c) IN
                IF ~a.ok \/ h < 0 \/ h >= base THEN [a EXCEPT !.ok = FALSE]
                ELSE LET w == MulAdd(a.v, base, h) IN
                     [ok |-> w[9] = 0, v |-> SubSeq(w, 1, 8)],
              [ok |-> TRUE, v |-> Zeros(8)], s)
         IN IF f.ok THEN [k |-> "num", v |-> f.v] ELSE NotNum

Hex(s) == Len(s) >= 2 /\ s[1] = 48 /\ s[2] = 120                 \* 0x
\* a literal has no sign and one prefix at most
Number(s) == IF Hex(s) THEN DigitsValue(Tail2(s, 3), 16) ELSE DigitsValue(s, 10)

\* an expression given as its words: a literal, or a sum or difference of two;
\* "no": does not begin with a number, "bad": begins with one but is no expression
Expr(ws) ==
    IF ws = <<>> THEN NotNum
    ELSE IF ws[1] \in {<<PLUS>>, <<MINUS>>} THEN [k |-> "bad"]
    ELSE LET a == Number(ws[1]) IN
         IF a.k # "num" THEN NotNum
         ELSE IF Len(ws) = 1 THEN a
         ELSE IF Len(ws) # 3 \/ ws[2] \notin {<<PLUS>>, <<MINUS>>} THEN [k |-> "bad"]
         ELSE LET b == Number(ws[3]) IN
              IF b.k # "num" THEN [k |-> "bad"]
              ELSE [k |-> "num", v |-> IF ws[2] = <<PLUS>> THEN Add(a.v, b.v) ELSE Sub(a.v, b.v)]

FitsIn(v, n) == AllZero(SubSeq(v, n + 1, Len(v)))

(* ---------------------------- registers, names ---------------------------- *)
REG64 == << "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi",
            "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15" >>
REG32 == << "eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi",
            "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d", "r15d" >>
REG16 == << "ax", "cx", "dx", "bx", "sp", "bp", "si", "di",
            "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w" >>
REG8  == << "al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil",
            "r8b", "r9b", "r10b", "r11b", "r12b", "r13b", "r14b", "r15b" >>
Names64 == [i \in 1..16 |-> Codes(REG64[i])]
Names32 == [i \in 1..16 |-> Codes(REG32[i])]
Names16 == [i \in 1..16 |-> Codes(REG16[i])]
Names8  == [i \in 1..16 |-> Codes(REG8[i])]
RegNames(w) == CASE w = 64 -> Names64 [] w = 32 -> Names32 [] w = 16 -> Names16 [] w = 8 -> Names8
\* number of the register of that width with that name, -1 if none
RegOf(w, s) == LET ns == RegNames(w) IN
               IF \E i \in 1..16 : ns[i] = s THEN (CHOOSE i \in 1..16 : ns[i] = s) - 1 ELSE -1
AnyReg(s) == \E w \in {64, 32, 16, 8} : RegOf(w, s) >= 0
WidthOf(s) == IF RegOf(64, s) >= 0 THEN 64 ELSE IF RegOf(32, s) >= 0 THEN 32
              ELSE IF RegOf(16, s) >= 0 THEN 16 ELSE 0

W_section == Codes("section")
W_global == Codes("global")
W_text == Codes(".text")
W_data == Codes(".data")
W_bss == Codes(".bss")
W_mov == Codes("mov")
W_push == Codes("push")
W_ret == Codes("ret")
W_syscall == Codes("syscall")
W_db == Codes("db")
W_dw == Codes("dw")
W_dd == Codes("dd")
W_dq == Codes("dq")
Directive(s) == CASE s = W_db -> 1 [] s = W_dw -> 2 [] s = W_dd -> 4 [] s = W_dq -> 8 [] OTHER -> 0
Keyword(s) == s \in {W_section, W_global, W_mov, W_push, W_ret, W_syscall, W_text, W_data, W_bss}
              \/ Directive(s) > 0
\* a word that certainly may be used as a label
PlainName(s) == /\ s # <<>> /\ NameStart(s[1]) /\ (\A i \in DOMAIN s : NameChar(s[i]))
                /\ ~Keyword(s) /\ ~AnyReg(s)

(* ------------------------------ data items -------------------------------- *)
\* a quoted item is padded with zeros to a multiple of the width
Pad(n, w) == Zeros((w - (n % w)) % w)

\* the items of s: what they emit, whether an item is wrong, and whether the line is
\* open: separators other than single commas.  One item at a time, a.p is where it begins.
NextItem(s, w, a) ==
    LET b == SkipBlanks(s, a.p)
        quoted == s[b] = QUOTE
        e == IF quoted THEN Find(s, b + 1, QUOTE) ELSE ItemEnd(s, b)
        num == Number(SubSeq(s, b, e - 1))
        bytes == IF quoted THEN LET t == SubSeq(s, b + 1, e - 1) IN t \o Pad(Len(t), w) ELSE SubSeq(num.v, 1, w)
        n == SkipBlanks(s, IF quoted THEN e + 1 ELSE e)
    IN
    IF b > Len(s) THEN [a EXCEPT !.open = TRUE]                          \* nothing after a comma
    ELSE IF quoted /\ e > Len(s) THEN [a EXCEPT !.bad = TRUE]
    ELSE IF ~quoted /\ e = b THEN [a EXCEPT !.open = TRUE]               \* stray comma
    ELSE IF ~quoted /\ num.k # "num" THEN [a EXCEPT !.bad = TRUE]
    ELSE IF ~quoted /\ ~FitsIn(num.v, w) THEN [a EXCEPT !.bad = TRUE]
    ELSE IF n > Len(s) THEN [a EXCEPT !.end = TRUE, !.b = @ \o bytes]
    ELSE IF s[n] # COMMA THEN [a EXCEPT !.open = TRUE]
    ELSE [a EXCEPT !.p = n + 1, !.b = @ \o bytes]
Items(s, w) ==
    FoldLeft(LAMBDA a, i : IF a.bad \/ a.open \/ a.end THEN a ELSE NextItem(s, w, a),
             [p |-> 1, bad |-> FALSE, open |-> FALSE, end |-> FALSE, b |-> <<>>],
             [i \in 1..(1 + Len(SelectSeq(s, LAMBDA c : c = COMMA))) |-> i])

(* ------------------------------ instructions ------------------------------ *)
Error == [k |-> "error"]
Unspec == [k |-> "unspec"]
Request(op, w, dst, src) == [op |-> op, w |-> w, dst |-> dst, src |-> src]
Inst1(q) == [k |-> "inst", q |-> q, sym |-> <<>>]

\* operands of mov, given the text after the mnemonic
Mov(s) ==
    LET c == Find(s, 1, COMMA)
        a == Trim(SubSeq(s, 1, c - 1))
        b == Trim(Tail2(s, c + 1))
        w == WidthOf(a)
        ws == WordsOf(b)
        x == Expr(ws)
        src == IF w > 0 THEN RegOf(w, b) ELSE -1
    IN
    IF c > Len(s) \/ w = 0 THEN Error
    ELSE LET dst == R(RegOf(w, a)) IN
    CASE x.k = "bad" -> Error
      [] x.k = "num" -> IF FitsIn(x.v, w \div 8)
                        THEN Inst1(Request("mov", w, dst, I(SubSeq(x.v, 1, w \div 8)))) ELSE Error
      [] OTHER ->
         IF src >= 0 THEN Inst1(Request("mov", w, dst, R(src)))
         ELSE IF Len(ws) = 1 /\ w >= 32 /\ Find(b, 1, COMMA) > Len(b)
         THEN [k |-> "inst", q |-> Request("mov", w, dst, I(Zeros(w \div 8))), sym |-> b]
         ELSE Error

Push(ws) ==
    IF Len(ws) # 2 THEN Error
    ELSE LET r == RegOf(64, ws[2])
             n == Number(ws[2])
         IN IF r >= 0 THEN Inst1(Request("push", 64, None, R(r)))
            ELSE IF n.k = "num" /\ FitsIn(n.v, 4)
            THEN Inst1(Request("push", 64, None, I(SignExt(SubSeq(n.v, 1, 4), 8))))
            ELSE Error

(* --------------------------------- lines ---------------------------------- *)
DataLine(label, w, s) ==
    IF SkipBlanks(s, 1) > Len(s) THEN Error
    ELSE LET r == Items(s, w) IN
         IF label # <<>> /\ ~PlainName(label) THEN Unspec
         ELSE IF r.open THEN Unspec
         ELSE IF r.bad THEN Error
         ELSE [k |-> "data", label |-> label, b |-> r.b]

ParseLine(line) ==
    LET l == Uncomment(line)
        \* words are only looked at up to the third; quoted text comes later
        b1 == SkipBlanks(l, 1)
        e1 == WordEnd(l, b1)
        b2 == SkipBlanks(l, e1)
        e2 == WordEnd(l, b2)
        w1 == SubSeq(l, b1, e1 - 1)
        w2 == SubSeq(l, b2, e2 - 1)
        more2 == b2 <= Len(l)
        more3 == SkipBlanks(l, e2) <= Len(l)
        name == SubSeq(w1, 1, Len(w1) - 1)
    IN
    IF StrayChars(l) THEN Unspec
    ELSE IF b1 > Len(l) THEN [k |-> "empty"]
    ELSE IF w1 = W_section THEN
         IF ~more2 \/ more3 THEN Error
         ELSE CASE w2 = W_text -> [k |-> "section", s |-> "text"]
                [] w2 = W_data -> [k |-> "section", s |-> "data"]
                [] w2 = W_bss -> [k |-> "section", s |-> "bss"]
                [] OTHER -> Error
    ELSE IF w1 = W_global THEN
         IF ~more2 \/ more3 THEN Error ELSE [k |-> "global", name |-> w2]
    ELSE IF w1[Len(w1)] = COLON THEN
         IF more2 THEN Error
         ELSE IF PlainName(name) THEN [k |-> "label", name |-> name] ELSE Unspec
    ELSE IF Directive(w1) > 0 THEN DataLine(<<>>, Directive(w1), Tail2(l, e1))
    ELSE IF more2 /\ Directive(w2) > 0 THEN DataLine(w1, Directive(w2), Tail2(l, e2))
    ELSE CASE w1 = W_mov -> IF more2 THEN Mov(Trim(Tail2(l, e1))) ELSE Error
           [] w1 = W_push -> Push(WordsOf(l))
           [] w1 = W_ret -> IF more2 THEN Error ELSE Inst1(Request("ret", 64, None, None))
           [] w1 = W_syscall -> IF more2 THEN Error ELSE Inst1(Request("syscall", 64, None, None))
           [] OTHER -> Error

(* --------------------------- canonical form (C12) -------------------------- *)
\* what a source says: its lines without the empty ones.  Two sources that say
\* the same assemble to the same object.
Canon(src) ==
    LET ls == Lines(src)
        ps == [i \in DOMAIN ls |-> ParseLine(ls[i])]
    IN SelectSeq(ps, LAMBDA p : p.k # "empty")
=============================================================================
