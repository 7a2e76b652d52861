--------------------------------- MODULE Large ---------------------------------
(* Objects of any size.  An object is given by the sizes of its sections (words), *)
(* the few bytes that are not zero (marks), symbols and relocations; a file by its *)
(* length and the runs of bytes that are not zero.  File offsets are 32-bit and    *)
(* addresses 64-bit numbers: what lies beyond has no file, and must be refused.    *)
(* Sums are taken over 9 bytes, so that none of them wraps.                        *)
EXTENDS MachO
X9(w) == ZeroExt(w, 9)
N9(n) == FromNat(n, 9)
Plus(a, b) == Add(X9(a), X9(b))
TOP32 == <<255, 255, 255, 255, 0, 0, 0, 0, 0>>
TOP64 == <<255, 255, 255, 255, 255, 255, 255, 255, 0>>
SizeOf(o, s) == CASE s = "text" -> o.text [] s = "data" -> o.data [] OTHER -> o.bss

(* ----------------------------- the design -------------------------------- *)
There(o) == SelectSeq(SECTS, LAMBDA s : ~AllZero(SizeOf(o, s)) \/ Of(o, s, o.syms) # <<>> \/ Of(o, s, o.relocs) # <<>>)
\* where everything goes (9-byte words)
Plan(o) ==
    LET P == There(o)  np == Len(P)
        hdr == N9(32 + 72 + 80 * np + 24)
        Total(Q, F(_)) == FoldLeft(LAMBDA a, s : Add(a, F(s)), N9(0), Q)
        Mem(s) == X9(SizeOf(o, s))
        InFile(s) == IF s = "bss" THEN N9(0) ELSE Mem(s)
        NRel(s) == N9(8 * Len(Of(o, s, o.relocs)))
        contents == Add(hdr, Total(P, InFile))
        relstart == Add(contents, N9(Pad8(Total(P, InFile)[1])))
        syms == Flat([i \in 1..np |-> Of(o, P[i], o.syms)])
        symoff == Add(relstart, Total(P, NRel))
        strs == <<0>> \o Flat([i \in DOMAIN syms |-> syms[i].name \o <<0>>])
        stroff == Add(symoff, N9(16 * Len(syms)))
        Addr(i) == Total(SubSeq(P, 1, i - 1), Mem)
    IN [P |-> P, hdr |-> hdr, syms |-> syms, strs |-> strs, symoff |-> symoff, stroff |-> stroff, memory |-> Addr(np + 1),
        data |-> Total(P, InFile), len |-> Add(stroff, N9(Len(strs))), addr |-> [i \in 1..np |-> Addr(i)],
        off |-> [i \in 1..np |-> Add(hdr, Total(SubSeq(P, 1, i - 1), InFile))],
        rel |-> [i \in 1..np |-> Add(relstart, Total(SubSeq(P, 1, i - 1), NRel))]]
Number(P, s) == CHOOSE i \in DOMAIN P : P[i] = s
PlanFits(o) == LET p == Plan(o) IN
    /\ Leq(p.stroff, TOP32) /\ Leq(p.memory, TOP64)
    /\ \A j \in DOMAIN o.syms : o.syms[j].k # "R" \/ Leq(Plus(p.addr[Number(p.P, o.syms[j].s)], o.syms[j].val), TOP64)
To4(w) == SubSeq(w, 1, 4)
To8(w) == SubSeq(w, 1, 8)
Written(o) ==
    LET p == Plan(o)  P == p.P  np == Len(P)
        First(n) == CHOOSE j \in DOMAIN p.syms : p.syms[j].name = n /\ \A k \in 1..(j - 1) : p.syms[k].name # n
        Strx(n) == 1 + FoldLeft(LAMBDA a, y : a + Len(y.name) + 1, 0, SubSeq(p.syms, 1, First(n) - 1))
        head(i) == LET s == P[i]  nr == Len(Of(o, s, o.relocs)) IN
            Name16(SectName(s)[2]) \o Name16(SectName(s)[1]) \o To8(p.addr[i]) \o SizeOf(o, s)
            \o (IF s = "bss" THEN Zeros(4) ELSE To4(p.off[i])) \o N4(0) \o (IF s = "bss" THEN Zeros(4) ELSE To4(p.rel[i]))
            \o N4(nr) \o N4(IF s = "bss" THEN 1 ELSE 0) \o Zeros(12)
        rel(r) == r.addr \o FromNat(First(r.name) - 1, 3) \o <<Bool(r.pcrel) + 2 * r.len + 8>>
        sym(y) == N4(Strx(y.name))
            \o (CASE y.k = "U" -> <<1, 0>> [] y.k = "A" -> <<2 + Bool(y.ext), 0>> [] OTHER -> <<14 + Bool(y.ext), Number(P, y.s)>>)
            \o Zeros(2)
            \o (CASE y.k = "U" -> Zeros(8) [] y.k = "A" -> y.val [] OTHER -> To8(Plus(p.addr[Number(P, y.s)], y.val)))
        Run(a, b) == [at |-> To8(a), b |-> b]
        rels == [i \in 1..np |-> LET rs == Of(o, P[i], o.relocs) IN Flat([j \in DOMAIN rs |-> rel(rs[j])])]
    IN [len |-> To8(p.len),
        runs |-> <<Run(N9(0), MH_MAGIC_64 \o X86_64 \o N4(3) \o N4(1) \o N4(2) \o N4(72 + 80 * np + 24) \o N4(0) \o N4(0)
                   \o N4(25) \o N4(72 + 80 * np) \o Zeros(16) \o Zeros(8) \o To8(p.memory) \o To8(p.hdr) \o To8(p.data)
                   \o N4(7) \o N4(7) \o N4(np) \o N4(0) \o Flat([i \in 1..np |-> head(i)])
                   \o N4(2) \o N4(24) \o To4(p.symoff) \o N4(Len(p.syms)) \o To4(p.stroff) \o N4(Len(p.strs)))>>
                 \o [i \in DOMAIN o.marks |-> Run(Plus(p.off[Number(P, o.marks[i].s)], o.marks[i].at), o.marks[i].b)]
                 \o [i \in 1..np |-> Run(p.rel[i], rels[i])]
                 \o <<Run(p.symoff, Flat([j \in DOMAIN p.syms |-> sym(p.syms[j])])), Run(p.stroff, p.strs)>>]

(* ----------------------------- the reader -------------------------------- *)
Covers(r, q) == LET a == X9(r.at) IN Leq(a, q) /\ Less(q, Add(a, N9(Len(r.b))))
ByteAt(F, q) == LET rs == {i \in DOMAIN F.runs : Covers(F.runs[i], q)} IN
    IF rs = {} THEN 0 ELSE LET r == F.runs[CHOOSE i \in rs : TRUE] IN r.b[ToNat(Sub(q, X9(r.at))) + 1]
At(F, q, n) == TLCEval([k \in 1..n |-> ByteAt(F, Add(q, N9(k - 1)))])
\* the same for the beginning of the file
Beginning(F) == LET n == IF F.len[3] # 0 \/ ~AllZero(SubSeq(F.len, 4, 8)) THEN 512 ELSE ToNat(F.len) IN
           At(F, N9(0), IF n > 512 THEN 512 ELSE n)

\* the names of what is wrong with file F for object o
Flaws(F, o) ==
    LET h == Beginning(F) IN
    IF Len(h) < 32 THEN {"header"} ELSE IF Cut(h, 1, 4) # MH_MAGIC_64 THEN {"magic"} ELSE
    LET nc == U32(h, 16)  cs == IF nc < 0 \/ nc > 8 THEN [ok |-> FALSE] ELSE Commands(h, 32, nc, <<>>) IN
    IF ~cs.ok THEN {"commands"} ELSE
    LET segs == SelectSeq(cs.cs, LAMBDA c : c.cmd = LC_SEGMENT_64)
        tabs == SelectSeq(cs.cs, LAMBDA c : c.cmd = LC_SYMTAB) IN
    IF Len(segs) # 1 \/ Len(tabs) # 1 THEN {"not one segment and one symbol table"} ELSE
    IF segs[1].size < 72 \/ tabs[1].size < 24 THEN {"command size"} ELSE
    LET so == segs[1].off  to == tabs[1].off  ns == U32(h, so + 64) IN
    IF ns < 0 \/ ns > 4 \/ segs[1].size < 72 + 80 * ns THEN {"nsects"} ELSE
    LET S == [i \in 1..ns |-> LET a == so + 72 + 80 * (i - 1) IN
                 [h |-> Section(h, a), off |-> X9(Cut(h, a + 49, 4)), rel |-> X9(Cut(h, a + 57, 4))]]
        Idx(s) == LET c == {i \in 1..ns : <<S[i].h.seg, S[i].h.sect>> = SectName(s)} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE
        zero(i) == S[i].h.type = S_ZEROFILL
        symoff == X9(Cut(h, to + 9, 4))   nsyms == U32(h, to + 12)
        stroff == X9(Cut(h, to + 17, 4))  strsize == U32(h, to + 20)
    IN
    IF nsyms # Len(o.syms) THEN {"symbols"} ELSE IF strsize < 0 \/ strsize > 4096 THEN {"strings"}
    ELSE IF \E i \in 1..ns : S[i].h.nreloc \notin 0..Len(o.relocs) THEN {"relocations"}
    ELSE IF \E s \in {"text", "data", "bss"} : IF Idx(s) = 0 THEN ~AllZero(SizeOf(o, s)) ELSE S[Idx(s)].h.size64 # SizeOf(o, s) THEN {"sizes"}
    ELSE
    LET areas == <<[a |-> N9(0), n |-> N9(32 + U32(h, 20))], [a |-> symoff, n |-> N9(16 * nsyms)], [a |-> stroff, n |-> N9(strsize)]>>
                 \o [i \in 1..ns |-> [a |-> S[i].off, n |-> IF zero(i) THEN N9(0) ELSE X9(S[i].h.size64)]]
                 \o [i \in 1..ns |-> [a |-> S[i].rel, n |-> N9(8 * S[i].h.nreloc)]]
        End(x) == Add(x.a, x.n)
        vmaddr == Cut(h, so + 25, 8)  vmsize == Cut(h, so + 33, 8)
        memEnd(i) == Plus(S[i].h.addr, S[i].h.size64)
        strs == At(F, stroff, strsize)
        Y(j) == LET b == Zeros(8) \o At(F, Add(symoff, N9(16 * (j - 1))), 16) IN SymbolAt(b, 8)
        ys == TLCEval([j \in 1..nsyms |-> Y(j)])
        nameOf(j) == LET z == ZString(strs, ys[j].strx) IN IF z.ok THEN z.s ELSE <<0>>
        got == [j \in 1..nsyms |-> [name |-> nameOf(j), kind |-> ys[j].kind, ext |-> ys[j].ext, sect |-> ys[j].sect, value |-> X9(ys[j].value)]]
        want == [j \in 1..nsyms |-> LET y == o.syms[j] IN
                   CASE y.k = "U" -> [name |-> y.name, kind |-> N_UNDF, ext |-> TRUE, sect |-> 0, value |-> N9(0)]
                     [] y.k = "A" -> [name |-> y.name, kind |-> N_ABS, ext |-> y.ext, sect |-> 0, value |-> X9(y.val)]
                     [] OTHER -> [name |-> y.name, kind |-> N_SECT, ext |-> y.ext, sect |-> Idx(y.s),
                                  value |-> IF Idx(y.s) = 0 THEN N9(0) ELSE Plus(S[Idx(y.s)].h.addr, y.val)]]
        R(i, j) == LET b == Zeros(8) \o At(F, Add(S[i].rel, N9(8 * (j - 1))), 8)  r == RelocAt(b, 8) IN
                   [addr |-> r.addr, pcrel |-> r.pcrel, len |-> r.len, ext |-> r.ext, type |-> r.type,
                    name |-> IF r.sym \in 0..(nsyms - 1) THEN nameOf(r.sym + 1) ELSE <<0>>]
        rgot(s) == IF Idx(s) = 0 THEN <<>> ELSE [j \in 1..S[Idx(s)].h.nreloc |-> R(Idx(s), j)]
        rwant(s) == LET rs == Of(o, s, o.relocs) IN
                    [j \in DOMAIN rs |-> [addr |-> rs[j].addr, pcrel |-> rs[j].pcrel, len |-> rs[j].len, ext |-> TRUE, type |-> 0, name |-> rs[j].name]]
        \* a byte that is not zero lies in an area, and in a section only where it was given
        Given(q) == \E m \in DOMAIN o.marks : LET i == Idx(o.marks[m].s) IN
                       i # 0 /\ LET a == Plus(S[i].off, o.marks[m].at) IN Leq(a, q) /\ Less(q, Add(a, N9(Len(o.marks[m].b))))
        Table(q) == \E i \in DOMAIN areas : (i <= 3 \/ i > 3 + ns) /\ Leq(areas[i].a, q) /\ Less(q, End(areas[i]))
        rules == [
          contents |-> \A m \in DOMAIN o.marks : LET i == Idx(o.marks[m].s) IN
                         i # 0 /\ ~zero(i) /\ At(F, Plus(S[i].off, o.marks[m].at), Len(o.marks[m].b)) = o.marks[m].b,
          stray |-> \A i \in DOMAIN F.runs : \A k \in DOMAIN F.runs[i].b :
                       F.runs[i].b[k] = 0 \/ LET q == Plus(F.runs[i].at, N9(k - 1)) IN Table(q) \/ Given(q),
          overlap |-> \A i, j \in DOMAIN areas : i < j => (AllZero(areas[i].n) \/ AllZero(areas[j].n)
                                                            \/ Leq(End(areas[i]), areas[j].a) \/ Leq(End(areas[j]), areas[i].a)),
          inside |-> \A i \in DOMAIN areas : AllZero(areas[i].n) \/ Leq(End(areas[i]), X9(F.len)),
          memory |-> \A i \in 1..ns : AllZero(S[i].h.size64) \/
                       (Leq(memEnd(i), TOP64) /\ Leq(vmaddr, S[i].h.addr) /\ Leq(memEnd(i), Plus(vmaddr, vmsize))),
          segment |-> LET fo == X9(Cut(h, so + 41, 8))  fz == X9(Cut(h, so + 49, 8)) IN
                        /\ Leq(fz, X9(vmsize)) /\ (AllZero(fz) \/ Leq(Add(fo, fz), X9(F.len)))
                        /\ \A i \in 1..ns : (~AllZero(S[i].h.size64) /\ ~zero(i)) =>
                              (Leq(fo, S[i].off) /\ Leq(Plus(S[i].off, S[i].h.size64), Add(fo, fz))),
          addresses |-> \A i, j \in 1..ns : (i < j /\ ~AllZero(S[i].h.size64) /\ ~AllZero(S[j].h.size64)) =>
                          (Leq(memEnd(i), X9(S[j].h.addr)) \/ Leq(memEnd(j), X9(S[i].h.addr))),
          symbols |-> SameBag(got, want),
          textrelocs |-> SameBag(rgot("text"), rwant("text")),
          datarelocs |-> SameBag(rgot("data"), rwant("data"))]
    IN {r \in DOMAIN rules : ~rules[r]}

\* an object that any layout has room for: contents of less than 2^32 - 2^16 bytes, addresses below 2^63
Comfortable(o) == /\ Leq(Plus(Plus(o.text, o.data), N9(65536)), TOP32)
                  /\ o.bss[8] < 127 /\ \A j \in DOMAIN o.syms : o.syms[j].k # "R" \/ o.syms[j].val[8] < 63

(* --------------------- sources with much in the middle -------------------- *)
\* p: [sect, head, pad, tail]: lines, a number of zero bytes (a word), lines; a line: [k, d, name, v],
\* "mov" of the address of a name into 64-bit register d, a "label", or a byte v
LineLen(l) == CASE l.k = "mov" -> 10 [] l.k = "byte" -> 1 [] OTHER -> 0
LineBytes(l) == CASE l.k = "mov" -> <<72 + (l.d \div 8), 184 + (l.d % 8)>> \o Zeros(8) [] l.k = "byte" -> <<l.v>> [] OTHER -> <<>>
LinesLen(ls) == FoldLeft(LAMBDA a, l : a + LineLen(l), 0, ls)
Placed(p) ==    \* the lines with their places (9-byte words)
    LET hd == [i \in DOMAIN p.head |-> [l |-> p.head[i], at |-> N9(LinesLen(SubSeq(p.head, 1, i - 1)))]]
        after == Add(N9(LinesLen(p.head)), X9(p.pad))
        tl == [i \in DOMAIN p.tail |-> [l |-> p.tail[i], at |-> Add(after, N9(LinesLen(SubSeq(p.tail, 1, i - 1))))]]
    IN hd \o tl
Assembled(p) ==
    LET ls == Placed(p)
        movs == SelectSeq(ls, LAMBDA x : x.l.k = "mov")
        labels == SelectSeq(ls, LAMBDA x : x.l.k = "label")
        some == SelectSeq(ls, LAMBDA x : LineLen(x.l) > 0)
        size == To8(Add(X9(p.pad), N9(LinesLen(p.head) + LinesLen(p.tail))))
    IN [text |-> IF p.sect = "text" THEN size ELSE Zeros(8), data |-> IF p.sect = "data" THEN size ELSE Zeros(8), bss |-> Zeros(8),
        syms |-> [i \in DOMAIN labels |-> [s |-> p.sect, k |-> "R", name |-> labels[i].l.name, val |-> To8(labels[i].at), ext |-> FALSE]],
        relocs |-> [i \in DOMAIN movs |-> [s |-> p.sect, addr |-> To4(Add(movs[i].at, N9(2))), name |-> movs[i].l.name, pcrel |-> FALSE, len |-> 3]],
        marks |-> [i \in DOMAIN some |-> [s |-> p.sect, at |-> To8(some[i].at), b |-> LineBytes(some[i].l)]]]
TOP31 == <<255, 255, 255, 127, 0, 0, 0, 0, 0>>
\* the address of a relocation is a signed 32-bit number
Near(p) == \A i \in DOMAIN Placed(p) : LET x == Placed(p)[i] IN x.l.k # "mov" \/ Leq(Add(x.at, N9(2)), TOP31)
=============================================================================
