------------------------------- MODULE Machine --------------------------------
(* What a program does.  Two machines run side by side:                         *)
(*  - the source machine executes the lines of the source, one by one, with     *)
(*    symbolic addresses: it knows what each line means and nothing of bytes,   *)
(*    encodings or files;                                                       *)
(*  - the processor fetches, decodes and executes bytes of the image that a     *)
(*    linker makes of the object file: sections placed anywhere, every          *)
(*    relocated field increased by the address of its symbol.                   *)
(* The environment chooses where the sections lie, what the registers hold at   *)
(* the start, where the stack is, and what system calls return.                 *)
EXTENDS Asm

(* ------------------------------ environment ------------------------------- *)
\* an environment: k "apart": the i-th section of the file at base[i]; "packed": one
\* after the other from base[1] on, backwards if rev; rsp; seed of the registers
High == <<0, 16, 222, 154, 255, 127, 0, 0>>
ENVS == <<
  [k |-> "apart", base |-> << <<0, 16, 0, 0, 1, 0, 0, 0>>, <<0, 0, 2, 0, 1, 0, 0, 0>>, <<0, 16, 0, 128, 2, 0, 0, 0>> >>,
   rev |-> FALSE, rsp |-> <<0, 240, 191, 239, 254, 127, 0, 0>>, seed |-> 1],
  [k |-> "packed", base |-> << <<0, 0, 64, 0, 0, 0, 0, 0>> >>, rev |-> FALSE, rsp |-> <<8, 0, 255, 255, 255, 127, 0, 0>>, seed |-> 89],
  [k |-> "packed", base |-> << <<0, 224, 255, 255, 255, 255, 255, 255>> >>, rev |-> TRUE, rsp |-> <<0, 0, 0, 112, 0, 0, 0, 0>>, seed |-> 170],
  [k |-> "apart", base |-> << <<0, 0, 254, 255, 0, 0, 0, 0>>, <<0, 0, 0, 127, 128, 127, 128, 127>>, <<0, 240, 255, 127, 0, 0, 0, 0>> >>,
   rev |-> FALSE, rsp |-> <<248, 255, 255, 255, 127, 0, 0, 0>>, seed |-> 237] >>
StartReg(e, r) == IF r = 4 THEN e.rsp ELSE [i \in 1..8 |-> (e.seed * (r + 1) + 31 * i) % 256]
EXIT == <<57, 48, 173, 222, 13, 240, 7, 0>>          \* where the entry's caller waits
FLAGS == <<70, 2, 0, 0, 0, 0, 0, 0>>                 \* what a system call leaves in r11
ResultOf(n) == <<(n % 7) + 1, 170, 85, 254, 1, 128, n % 256, 127>>  \* what the n-th system call returns

(* -------------------------------- linking --------------------------------- *)
AlignUp(w, al) == \* w rounded up to a multiple of 2^al (al <= 8)
    LET m == 2 ^ (IF al \in 0..8 THEN al ELSE 8)
        x == w[1] % m
    IN IF m <= 256 /\ x # 0 THEN AddNat(w, m - x) ELSE w

\* base of every section of the file o in the environment e
Bases(o, e) ==
    LET n == Len(o.sects)
        Idx(j) == IF e.rev THEN n + 1 - j ELSE j
        size(i) == Len(o.sects[i].bytes)
        packed == FoldLeft(LAMBDA a, j :
                    LET b == AlignUp(a.next, o.sects[Idx(j)].h.align) IN
                    [next |-> AddNat(b, size(Idx(j))), at |-> Append(a.at, b)],
                   [next |-> e.base[1], at |-> <<>>], [j \in 1..n |-> j]).at
    IN [i \in 1..n |-> IF e.k = "packed" THEN packed[Idx(i)]
                       ELSE IF i <= Len(e.base) THEN e.base[i] ELSE AddNat(e.base[1], i * 65536)]

\* the address a symbol gets
Resolve(o, bs, j) ==
    LET y == o.syms[j].y IN
    IF y.kind = N_SECT /\ y.sect \in DOMAIN o.sects
    THEN Add(Sub(y.value, o.sects[y.sect].h.addr), bs[y.sect])
    ELSE IF y.kind = N_ABS THEN y.value ELSE Zeros(8)

\* one relocated field of section i
Patch(o, bs, i, b, r) ==
    LET off == ToNat(r.addr)
        n == 2 ^ r.len
        target == IF r.ext THEN (IF r.sym + 1 \in DOMAIN o.syms THEN Resolve(o, bs, r.sym + 1) ELSE Zeros(8))
                  ELSE IF r.sym \in DOMAIN o.sects THEN Sub(bs[r.sym], o.sects[r.sym].h.addr) ELSE Zeros(8)
        s == IF r.pcrel THEN Sub(target, AddNat(bs[i], off + n)) ELSE target
    IN IF off < 0 \/ off + n > Len(b) THEN b
       ELSE SubSeq(b, 1, off) \o Add(Cut(b, off + 1, n), SubSeq(s, 1, n)) \o SubSeq(b, off + n + 1, Len(b))

\* the image: for every section its base and bytes
Link(o, e) ==
    LET bs == Bases(o, e) IN
    [i \in DOMAIN o.sects |->
        [base |-> bs[i], bytes |-> FoldLeft(LAMBDA b, r : Patch(o, bs, i, b, r), o.sects[i].bytes, o.sects[i].relocs)]]

\* where an address lies in the image: section number (0: nowhere) and offset; up to
\* and including the end of the section, preferably inside it
Where(img, a) ==
    LET d(i) == ToNat(Sub(a, img[i].base))
        In == {i \in DOMAIN img : d(i) >= 0 /\ d(i) < Len(img[i].bytes)}
    IN IF In = {} THEN [i |-> 0, off |-> 0] ELSE LET i == CHOOSE i \in In : TRUE IN [i |-> i, off |-> d(i)]
\* does [a, a+n) touch the image?
Touches(img, a, n) == \E k \in 0..(n - 1) : Where(img, AddNat(a, k)).i # 0
ReadImage(img, a, n) ==
    LET w == Where(img, a) IN
    IF n = 0 THEN [ok |-> TRUE, b |-> <<>>]
    ELSE IF w.i = 0 \/ ~InRange(img[w.i].bytes, w.off + 1, n) THEN [ok |-> FALSE, b |-> <<>>]
    ELSE [ok |-> TRUE, b |-> Cut(img[w.i].bytes, w.off + 1, n)]

(* ------------------------------ memory cells ------------------------------ *)
\* what was written to the stack, in order: [a |-> address, v |-> value]
Overlap(a, n, c) == LET d == Sub(a, c.a) IN
                    (ToNat(d) >= 0 /\ ToNat(d) < Len(c.v)) \/ (ToNat(Neg(d)) >= 0 /\ ToNat(Neg(d)) < n)
\* the last cell at a; k: "cell", "none", or "torn" (a later one covers it in part)
Load(cells, a, n) ==
    LET js == {j \in DOMAIN cells : Overlap(a, n, cells[j])} IN
    IF js = {} THEN [k |-> "none"]
    ELSE LET j == CHOOSE j \in js : \A i \in js : i <= j IN
         IF cells[j].a = a /\ Len(cells[j].v) = n THEN [k |-> "cell", v |-> cells[j].v] ELSE [k |-> "torn"]

(* --------------------------- the source machine --------------------------- *)
\* A symbolic word: each byte is <<b, "", 0>> (the number b) or <<i, s, at>> (byte i
\* of the address of the place before item at + 1 of section s).
Con(w) == [i \in DOMAIN w |-> <<w[i], "", 0>>]
Addr(s, at) == [i \in 1..8 |-> <<i, s, at>>]
Concrete(x) == \A i \in DOMAIN x : x[i][2] = ""
Word(x) == [i \in DOMAIN x |-> x[i][1]]
\* its value, given the address of every place
Value(A, x) == [i \in DOMAIN x |-> IF x[i][2] = "" THEN x[i][1] ELSE A[x[i][2]][x[i][3] + 1][x[i][1]]]

\* writing n bytes to a 64-bit register that holds old
Write(old, new) == CASE Len(new) = 8 -> new
                     [] Len(new) = 4 -> new \o Con(Zeros(4))
                     [] OTHER -> new \o SubSeq(old, Len(new) + 1, 8)

LabelNamed(name) == labels[CHOOSE j \in DOMAIN labels : labels[j].name = name]
SourceInit(e, entry) ==
    [s |-> entry.s, at |-> entry.at, regs |-> [r \in 1..16 |-> Con(StartReg(e, r - 1))], cells |-> <<>>, n |-> 0, k |-> "run"]

Push2(m, v) == LET a == AddNat(Word(m.regs[5]), 0)
                   a2 == Sub(a, FromNat(8, 8)) IN
               [m EXCEPT !.cells = Append(@, [a |-> a2, v |-> v]), !.regs[5] = Con(a2)]
Advance(m) == [m EXCEPT !.at = @ + 1]
\* what the line does; k becomes "end" where the program ends, "open" where the source
\* does not say what happens (it runs into data, its stack has no known place, ...)
SourceStep(m, e, img) ==
    IF m.s = "bss" \/ m.at >= Len(items[m.s]) THEN [m EXCEPT !.k = "end"]
    ELSE LET x == items[m.s][m.at + 1] IN
    IF x.k = "d" THEN [m EXCEPT !.k = "end"]
    ELSE
    LET q == x.q
        n == q.w \div 8
        rsp == m.regs[5]
        \* the value of the second operand
        val == IF x.sym # <<>> THEN LET l == LabelNamed(x.sym) IN SubSeq(Addr(l.s, l.at), 1, n)
               ELSE IF q.src.k = "r" THEN SubSeq(m.regs[q.src.n + 1], 1, n)
               ELSE Con(q.src.v)
        noStack(a, k) == ~Concrete(rsp) \/ Touches(img, a, k)
        top == Load(m.cells, Word(rsp), 8)
    IN
    CASE q.op = "mov" -> Advance([m EXCEPT !.regs[q.dst.n + 1] = Write(@, val)])
      [] q.op = "push" -> IF noStack(Sub(Word(rsp), FromNat(8, 8)), 8) THEN [m EXCEPT !.k = "open"]
                          ELSE Advance(Push2(m, val))
      [] q.op = "syscall" -> Advance([m EXCEPT !.n = @ + 1, !.regs = [@ EXCEPT ![1] = Con(ResultOf(m.n + 1)),
                                        ![2] = Addr(m.s, m.at + 1), ![12] = Con(FLAGS)]])
      [] q.op = "ret" ->
         IF noStack(Word(rsp), 8) \/ top.k = "torn" \/ (top.k = "none" /\ Word(rsp) # e.rsp) THEN [m EXCEPT !.k = "open"]
         ELSE LET v == IF top.k = "none" THEN Con(EXIT) ELSE top.v
                  m2 == [m EXCEPT !.regs[5] = Con(AddNat(Word(rsp), 8))]
              IN IF v = Con(EXIT) THEN [m2 EXCEPT !.k = "exit"]
                 ELSE IF v[1][2] # "" /\ v = Addr(v[1][2], v[1][3])
                 THEN [m2 EXCEPT !.s = v[1][2], !.at = v[1][3]]
                 ELSE [m EXCEPT !.k = "open"]

(* ------------------------------ the processor ----------------------------- *)
CpuInit(e, o, bs, name) ==
    LET J == {j \in DOMAIN o.syms : o.syms[j].name.ok /\ o.syms[j].name.s = name} IN
    [rip |-> IF J = {} THEN Zeros(8) ELSE Resolve(o, bs, CHOOSE j \in J : TRUE),
     regs |-> [r \in 1..16 |-> StartReg(e, r - 1)], cells |-> <<>>, n |-> 0, k |-> "run"]

WriteReg(old, new) == CASE Len(new) = 8 -> new
                        [] Len(new) = 4 -> new \o Zeros(4)
                        [] OTHER -> new \o SubSeq(old, Len(new) + 1, 8)
\* one instruction; k becomes "fault" if there is none, or none the machine knows
CpuStep(m, e, img) ==
    LET w == Where(img, m.rip)
        d == IF w.i = 0 THEN [ok |-> FALSE] ELSE DecodeAt(img[w.i].bytes, w.off + 1)
    IN
    IF ~d.ok THEN [m EXCEPT !.k = "fault"]
    ELSE
    LET n == d.w \div 8
        next == AddNat(m.rip, d.len)
        rsp == m.regs[5]
        val == IF d.src.k = "r" THEN SubSeq(m.regs[d.src.n + 1], 1, n) ELSE IF d.src.k = "i" THEN d.src.v ELSE <<>>
        top == Load(m.cells, rsp, n)
        mem == IF top.k = "cell" THEN top.v ELSE IF top.k = "none" /\ rsp = e.rsp /\ n = 8 THEN EXIT ELSE Zeros(n)
        fault == [m EXCEPT !.k = "fault"]
    IN
    CASE d.op = "mov" /\ d.dst.k = "r" /\ d.src.k \in {"r", "i"} ->
            [m EXCEPT !.rip = next, !.regs[d.dst.n + 1] = WriteReg(@, val)]
      [] d.op = "push" /\ d.src.k \in {"r", "i"} ->
            LET a == Sub(rsp, FromNat(n, 8)) IN
            [m EXCEPT !.rip = next, !.cells = Append(@, [a |-> a, v |-> val]), !.regs[5] = a]
      [] d.op = "pop" /\ d.dst.k = "r" ->
            [m EXCEPT !.rip = next,
                      !.regs = [[@ EXCEPT ![5] = AddNat(rsp, n)] EXCEPT ![d.dst.n + 1] = WriteReg(@, mem)]]
      [] d.op = "syscall" ->
            [m EXCEPT !.rip = next, !.n = @ + 1,
                      !.regs = [@ EXCEPT ![1] = ResultOf(m.n + 1), ![2] = next, ![12] = FLAGS]]
      [] d.op = "ret" -> [m EXCEPT !.rip = mem, !.regs[5] = AddNat(rsp, 8), !.k = IF mem = EXIT THEN "exit" ELSE "run"]
      [] OTHER -> fault

(* -------------------------------- relation -------------------------------- *)
\* the address of every place of the source in the image: section base plus where the
\* item starts (see Walk), not what the symbol table says
Places(o, bs) ==
    LET at(s) == LET i == SectIndex(o, s)
                     w == WalkOrDesign(SectBytes(o, s), s)
                 IN [j \in DOMAIN w.starts |-> IF i = 0 THEN Zeros(8) ELSE AddNat(bs[i], w.starts[j])]
        b == SectIndex(o, "bss")
    IN [text |-> at("text"), data |-> at("data"), bss |-> << IF b = 0 THEN Zeros(8) ELSE bs[b] >>]

\* the data the source puts behind a place, up to the next instruction
DataFrom(s, at) ==
    IF s = "bss" THEN <<>>
    ELSE LET n == Len(items[s])
             Ks == {j \in (at + 1)..n : items[s][j].k # "d"}
             end == IF Ks = {} THEN n ELSE (CHOOSE j \in Ks : \A i \in Ks : j <= i) - 1
         IN FlattenSeq([j \in 1..(end - at) |-> items[s][at + j].b])
ARGS == {3, 7, 8, 9, 10, 11}       \* rdx rsi rdi r8 r9 r10 (one-based)
\* is x, as a value, the address of the place its first byte is of?
PointsTo(A, x) == x[1][2] # "" /\ Value(A, x) = A[x[1][2]][x[1][3] + 1]

\* what is wrong if the processor is in state c where the source machine is in state m
Disagree(A, img, m, c) ==
    LET badreg == {r \in 1..16 : Value(A, m.regs[r]) # c.regs[r]} IN
    IF c.k = "fault" THEN <<"no such instruction", c.rip>>
    ELSE IF badreg # {} THEN LET r == CHOOSE r \in badreg : TRUE IN
         <<"register", REG64[r], Value(A, m.regs[r]), c.regs[r]>>
    ELSE IF m.n # c.n THEN <<"system calls", m.n, c.n>>
    ELSE IF Len(m.cells) # Len(c.cells)
            \/ \E j \in DOMAIN m.cells : m.cells[j].a # c.cells[j].a \/ Value(A, m.cells[j].v) # c.cells[j].v
         THEN <<"stack", c.cells>>
    ELSE IF m.k = "exit" \/ c.k = "exit" THEN (IF m.k = c.k THEN <<>> ELSE <<"returns", m.k, c.k>>)
    ELSE IF c.rip # A[m.s][m.at + 1] THEN <<"goes on at", c.rip, A[m.s][m.at + 1]>>
    ELSE <<>>
\* what a system call about to be made finds behind its pointers
Pointers(A, img, m, c) ==
    LET bad == {r \in ARGS : PointsTo(A, m.regs[r]) /\
                   LET want == DataFrom(m.regs[r][1][2], m.regs[r][1][3])
                       got == ReadImage(img, c.regs[r], Len(want))
                   IN ~got.ok \/ got.b # want}
    IN IF bad = {} THEN <<>> ELSE <<"memory behind", REG64[CHOOSE r \in bad : TRUE]>>
=============================================================================
