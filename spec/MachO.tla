-------------------------------- MODULE MachO --------------------------------
(* The Mach-O object file format, as far as 64-bit relocatable objects go:      *)
(*  - ReadObj: an independent reader of such a file (it goes by the load        *)
(*    commands, wherever the areas lie), with named well-formedness rules;      *)
(*  - Emit: the design of at-obj's writer.                                      *)
(* A file is the sequence of its bytes; offsets are naturals, 64-bit values are *)
(* words (little-endian byte sequences).                                        *)
EXTENDS Words, FiniteSets, TLC

(* ------------------------------- reading ---------------------------------- *)
\* fields at a file offset (0-based); -1 for a 32-bit value of 2^31 or more
U32(f, off) == ToNat(Cut(f, off + 1, 4))
W64(f, off) == Cut(f, off + 1, 8)
N64(f, off) == ToNat(W64(f, off))
\* the name in a fixed-size field: up to its first NUL
NameField(b) == LET z == IF \E i \in DOMAIN b : b[i] = 0
                         THEN (CHOOSE i \in DOMAIN b : b[i] = 0 /\ \A j \in 1..(i-1) : b[j] # 0)
                         ELSE Len(b) + 1
                IN SubSeq(b, 1, z - 1)
\* the NUL-terminated string at offset o of the byte sequence b; "bad" if it has no end
FirstZero(b, p, q) == IF \E i \in p..q : b[i] = 0
                      THEN CHOOSE i \in p..q : b[i] = 0 /\ \A j \in p..(i - 1) : b[j] # 0 ELSE q + 1
\* (sought near by first: TLC lists the whole range)
ZEnd(b, p) == IF p > Len(b) \/ p < 1 THEN p
              ELSE IF p + 40 < Len(b)
              THEN LET z == FirstZero(b, p, p + 40) IN IF z = p + 41 THEN FirstZero(b, z, Len(b)) ELSE z
              ELSE FirstZero(b, p, Len(b))
ZString(b, o) == LET e == ZEnd(b, o + 1) IN
                 IF o < 0 \/ e > Len(b) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, s |-> SubSeq(b, o + 1, e - 1)]

MH_MAGIC_64 == <<207, 250, 237, 254>>
X86_64 == <<7, 0, 0, 1>>
LC_SEGMENT_64 == 25
LC_SYMTAB == 2

\* the load commands from offset off on: [cmd, size, off]; "cut" if they do not fit
RECURSIVE Commands(_, _, _, _)
Commands(f, off, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, cs |-> acc]
    ELSE IF off + 8 > Len(f) THEN [ok |-> FALSE, cs |-> acc]
    ELSE LET c == U32(f, off)
             z == U32(f, off + 4)
         IN IF z < 8 \/ off + z > Len(f) THEN [ok |-> FALSE, cs |-> acc]
            ELSE Commands(f, off + z, n - 1, Append(acc, [cmd |-> c, size |-> z, off |-> off]))

Section(f, o) ==
    [sect |-> NameField(Cut(f, o + 1, 16)), seg |-> NameField(Cut(f, o + 17, 16)),
     addr |-> W64(f, o + 32), size |-> N64(f, o + 40), size64 |-> W64(f, o + 40), offset |-> U32(f, o + 48),
     align |-> U32(f, o + 52), reloff |-> U32(f, o + 56), nreloc |-> U32(f, o + 60),
     type |-> f[o + 65], attrs |-> Cut(f, o + 66, 3)]
RelocAt(f, o) ==
    LET b == f[o + 8] IN
    [addr |-> Cut(f, o + 1, 4), sym |-> ToNat(Cut(f, o + 5, 3)),
     pcrel |-> b % 2 = 1, len |-> (b \div 2) % 4, ext |-> (b \div 8) % 2 = 1, type |-> b \div 16]
SymbolAt(f, o) ==
    LET t == f[o + 5] IN
    [strx |-> U32(f, o), stab |-> t \div 32, pext |-> (t \div 16) % 2 = 1, kind |-> (t \div 2) % 8,
     ext |-> t % 2 = 1, sect |-> f[o + 6], desc |-> Cut(f, o + 7, 2), value |-> W64(f, o + 8)]
N_UNDF == 0  N_ABS == 1  N_SECT == 7
S_ZEROFILL == 1

Fail(why) == [ok |-> FALSE, why |-> why]

\* everything a reader of the file finds; fails only where the file cannot be read at all
ReadObj(f) ==
    IF Len(f) < 32 THEN Fail("header")
    ELSE IF Cut(f, 1, 4) # MH_MAGIC_64 THEN Fail("magic")
    ELSE
    LET ncmds == U32(f, 16)
        cmds == IF ncmds < 0 \/ ncmds > 64 THEN [ok |-> FALSE] ELSE Commands(f, 32, ncmds, <<>>)
    IN
    IF ~cmds.ok THEN Fail("commands")
    ELSE
    LET segs == SelectSeq(cmds.cs, LAMBDA c : c.cmd = LC_SEGMENT_64)
        syms == SelectSeq(cmds.cs, LAMBDA c : c.cmd = LC_SYMTAB)
    IN
    IF Len(segs) # 1 \/ Len(syms) # 1 THEN Fail("not one segment and one symbol table")
    ELSE IF segs[1].size < 72 \/ syms[1].size < 24 THEN Fail("command size")
    ELSE
    LET so == segs[1].off
        to == syms[1].off
        nsects == U32(f, so + 64)
    IN
    IF nsects < 0 \/ nsects > 255 \/ segs[1].size < 72 + 80 * nsects THEN Fail("nsects")
    ELSE
    LET sects == [i \in 1..nsects |-> Section(f, so + 72 + 80 * (i - 1))]
        symoff == U32(f, to + 8)  nsyms == U32(f, to + 12)
        stroff == U32(f, to + 16) strsize == U32(f, to + 20)
        Fits(o, n) == o >= 0 /\ n >= 0 /\ o <= Len(f) /\ n <= Len(f) - o
        Zero(s) == s.type = S_ZEROFILL
    IN
    IF nsyms < 0 \/ nsyms > 100000 \/ ~Fits(symoff, 16 * nsyms) THEN Fail("symbols outside the file")
    ELSE IF ~Fits(stroff, strsize) THEN Fail("strings outside the file")
    ELSE IF \E i \in 1..nsects : ~Zero(sects[i]) /\ sects[i].size # 0 /\ ~Fits(sects[i].offset, sects[i].size)
         THEN Fail("section outside the file")
    ELSE IF \E i \in 1..nsects : sects[i].nreloc # 0 /\ (sects[i].nreloc < 0 \/ sects[i].nreloc > 100000
                                   \/ ~Fits(sects[i].reloff, 8 * sects[i].nreloc))
         THEN Fail("relocations outside the file")
    ELSE
    LET strs == Cut(f, stroff + 1, strsize) IN
    [ok |-> TRUE, why |-> "", cmds |-> cmds.cs, ncmds |-> ncmds,
     sizeofcmds |-> U32(f, 20), cpu |-> Cut(f, 5, 4), subtype |-> Cut(f, 9, 4), filetype |-> U32(f, 12),
     seg |-> [size |-> segs[1].size, name |-> NameField(Cut(f, so + 9, 16)), vmaddr |-> W64(f, so + 24),
              vmsize |-> W64(f, so + 32), fileoff |-> W64(f, so + 40), filesize |-> W64(f, so + 48)],
     symtab |-> [size |-> syms[1].size, symoff |-> symoff, nsyms |-> nsyms, stroff |-> stroff, strsize |-> strsize],
     sects |-> TLCEval([i \in 1..nsects |-> [h |-> sects[i],
                  bytes |-> IF Zero(sects[i]) \/ sects[i].size <= 0 THEN <<>>
                            ELSE Cut(f, sects[i].offset + 1, sects[i].size),
                  relocs |-> [j \in 1..sects[i].nreloc |-> RelocAt(f, sects[i].reloff + 8 * (j - 1))]]]),
     syms |-> TLCEval([j \in 1..nsyms |->
                 LET y == SymbolAt(f, symoff + 16 * (j - 1)) IN [y |-> y, name |-> ZString(strs, y.strx)]]),
     strs |-> strs]

(* --------------------------- well-formedness ------------------------------ *)
\* areas of the file: [from, to) as naturals
Areas(o, len) ==
    LET base == <<[a |-> 0, n |-> 32 + o.sizeofcmds]>>
        ss == SelectSeq(o.sects, LAMBDA s : Len(s.bytes) > 0)
        rs == SelectSeq(o.sects, LAMBDA s : s.h.nreloc > 0)
    IN base
       \o [i \in DOMAIN ss |-> [a |-> ss[i].h.offset, n |-> ss[i].h.size]]
       \o [i \in DOMAIN rs |-> [a |-> rs[i].h.reloff, n |-> 8 * rs[i].h.nreloc]]
       \o <<[a |-> o.symtab.symoff, n |-> 16 * o.symtab.nsyms], [a |-> o.symtab.stroff, n |-> o.symtab.strsize]>>

Disjoint(a, b) == a.n = 0 \/ b.n = 0 \/ a.a + a.n <= b.a \/ b.a + b.n <= a.a

\* the names of the rules that the file breaks
Broken(f) ==
    LET o == ReadObj(f) IN
    IF ~o.ok THEN {o.why}
    ELSE
    LET areas == TLCEval(Areas(o, Len(f)))
        sum == FoldLeft(LAMBDA a, c : a + c.size, 0, o.cmds)
        S == o.sects
        HasMem(i) == S[i].h.size # 0
        size64(i) == S[i].h.size64
        endOf(i) == Add(S[i].h.addr, size64(i))
        segEnd == Add(o.seg.vmaddr, o.seg.vmsize)
        fileEnd == Add(o.seg.fileoff, o.seg.filesize)
        InFile(i) == Len(S[i].bytes) > 0
        off64(i) == FromNat(S[i].h.offset, 8)
        Covered == [p \in 1..Len(f) |-> f[p] = 0]
        rules == [
          cputype |-> o.cpu = X86_64 /\ o.subtype = <<3, 0, 0, 0>>,
          filetype |-> o.filetype = 1,
          sizeofcmds |-> o.sizeofcmds = sum,
          cmdsize |-> \A c \in ToSet(o.cmds) : c.size % 8 = 0,
          segmentsize |-> o.seg.size = 72 + 80 * Len(S),
          symtabsize |-> o.symtab.size = 24,
          sectionsize |-> \A i \in DOMAIN S : S[i].h.size >= 0 \/ S[i].h.type = S_ZEROFILL,
          overlap |-> \A i, j \in DOMAIN areas : i < j => Disjoint(areas[i], areas[j]),
          padding |-> \A p \in 1..Len(f) :
                        f[p] = 0 \/ \E i \in DOMAIN areas : areas[i].a < p /\ p <= areas[i].a + areas[i].n,
          \* the file is not longer than its areas, but for padding
          slack |-> \A p \in 8..Len(f) : \E i \in DOMAIN areas : areas[i].a < p /\ p - 7 <= areas[i].a + areas[i].n,
          segmentmemory |-> \A i \in DOMAIN S : HasMem(i) =>
                        (Leq(o.seg.vmaddr, S[i].h.addr) /\ Leq(endOf(i), segEnd) /\ Leq(S[i].h.addr, endOf(i))),
          segmentfile |-> \A i \in DOMAIN S : InFile(i) =>
                        (Leq(o.seg.fileoff, off64(i)) /\ Leq(Add(off64(i), size64(i)), fileEnd)),
          segmentinfile |-> Leq(fileEnd, FromNat(Len(f), 8)) /\ Leq(o.seg.fileoff, fileEnd),
          filesize |-> Leq(o.seg.filesize, o.seg.vmsize),
          addresses |-> \A i, j \in DOMAIN S : (i < j /\ HasMem(i) /\ HasMem(j)) =>
                        (Leq(endOf(i), S[j].h.addr) \/ Leq(endOf(j), S[i].h.addr)),
          alignment |-> \A i \in DOMAIN S : S[i].h.align \in 0..15 /\
                        (S[i].h.align = 0 \/ ToNat(S[i].h.addr) % (2 ^ S[i].h.align) = 0),
          tablealign |-> o.symtab.symoff % 8 = 0
                         /\ \A i \in DOMAIN S : S[i].h.nreloc > 0 => S[i].h.reloff % 8 = 0,
          strings |-> \A j \in DOMAIN o.syms : o.syms[j].name.ok,
          sectionnumbers |-> \A j \in DOMAIN o.syms : LET y == o.syms[j].y IN
                        IF y.kind = N_SECT THEN y.sect \in 1..Len(S) ELSE y.sect = 0,
          symbolkinds |-> \A j \in DOMAIN o.syms : LET y == o.syms[j].y IN
                        y.stab = 0 /\ y.kind \in {N_UNDF, N_ABS, N_SECT},
          relocsymbols |-> \A i \in DOMAIN S : \A j \in DOMAIN S[i].relocs :
                        LET r == S[i].relocs[j] IN
                        IF r.ext THEN r.sym < Len(o.syms) ELSE r.sym \in 1..Len(S)
        ]
    IN {r \in DOMAIN rules : ~rules[r]}

(* ------------------------------- looking up ------------------------------- *)
N_TEXT_SEG == <<95, 95, 84, 69, 88, 84>>     \* __TEXT
N_DATA_SEG == <<95, 95, 68, 65, 84, 65>>     \* __DATA
N_text == <<95, 95, 116, 101, 120, 116>>     \* __text
N_data == <<95, 95, 100, 97, 116, 97>>       \* __data
N_bss == <<95, 95, 98, 115, 115>>            \* __bss
SectName(s) == CASE s = "text" -> <<N_TEXT_SEG, N_text>> [] s = "data" -> <<N_DATA_SEG, N_data>>
                 [] s = "bss" -> <<N_DATA_SEG, N_bss>>
SECTS == <<"text", "data", "bss">>

\* number of the section with its standard name in a file read; 0 if absent
SectIndex(o, s) ==
    LET S == {i \in DOMAIN o.sects : <<o.sects[i].h.seg, o.sects[i].h.sect>> = SectName(s)}
    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
SectBytes(o, s) == LET i == SectIndex(o, s) IN IF i = 0 THEN <<>> ELSE o.sects[i].bytes
SectSize(o, s) == LET i == SectIndex(o, s) IN IF i = 0 THEN 0 ELSE o.sects[i].h.size
SectAddr(o, s) == LET i == SectIndex(o, s) IN IF i = 0 THEN Zeros(8) ELSE o.sects[i].h.addr

(* --------------------------------- Emit ----------------------------------- *)
\* An object: [text, data : bytes, bss : size (word), syms : sequence of
\*   [s : section, k : "U"|"A"|"R", name, val (word), ext], relocs : sequence of
\*   [s, addr (4 bytes), name, pcrel, len]]
Of(o, s, seq) == SelectSeq(seq, LAMBDA x : x.s = s)
Present(o) == SelectSeq(SECTS, LAMBDA s :
                 \/ CASE s = "text" -> o.text # <<>> [] s = "data" -> o.data # <<>> [] OTHER -> ~AllZero(o.bss)
                 \/ Of(o, s, o.syms) # <<>>
                 \/ Of(o, s, o.relocs) # <<>>)
Pad8(n) == (8 - (n % 8)) % 8
Name16(b) == b \o Zeros(16 - Len(b))
N4(n) == FromNat(n, 4)
Bool(b) == IF b THEN 1 ELSE 0

Emit(o) ==
    LET P == Present(o)
        np == Len(P)
        Bytes(s) == CASE s = "text" -> o.text [] s = "data" -> o.data [] OTHER -> <<>>
        VmSize(s) == IF s = "bss" THEN o.bss ELSE FromNat(Len(Bytes(s)), 8)
        Rel(s) == Of(o, s, o.relocs)
        hdr == 32 + 72 + 80 * np + 24
        Before(i, F(_)) == FoldLeft(LAMBDA a, s : a + F(s), 0, SubSeq(P, 1, i - 1))
        FileLen(s) == Len(Bytes(s))
        NRel(s) == Len(Rel(s))
        AddrOf(i) == FoldLeft(LAMBDA a, s : Add(a, VmSize(s)), Zeros(8), SubSeq(P, 1, i - 1))
        datalen == Before(np + 1, FileLen)
        relstart == hdr + datalen + Pad8(datalen)
        symoff == relstart + 8 * Before(np + 1, NRel)
        ordered == Flat([i \in 1..np |-> Of(o, P[i], o.syms)])
        stroff == symoff + 16 * Len(ordered)
        strs == <<0>> \o Flat([i \in DOMAIN ordered |-> ordered[i].name \o <<0>>])
        FirstNamed(n) == CHOOSE j \in DOMAIN ordered :
                            ordered[j].name = n /\ \A k \in 1..(j - 1) : ordered[k].name # n
        Strx(n) == 1 + FoldLeft(LAMBDA a, y : a + Len(y.name) + 1, 0, SubSeq(ordered, 1, FirstNamed(n) - 1))
        PosIn(s) == CHOOSE i \in 1..np : P[i] = s
        segment == N4(25) \o N4(72 + 80 * np) \o Zeros(16) \o Zeros(8) \o AddrOf(np + 1)
                   \o FromNat(hdr, 8) \o FromNat(datalen, 8) \o N4(7) \o N4(7) \o N4(np) \o N4(0)
        SectHeader(i) ==
            LET s == P[i]
                attr == <<IF s = "bss" THEN 1 ELSE 0,
                          IF s # "bss" /\ NRel(s) > 0 THEN 3 ELSE 0, 0, 0>>
                inst == IF s = "text" THEN <<0, 4, 0, 128>> ELSE Zeros(4)
            IN Name16(SectName(s)[2]) \o Name16(SectName(s)[1]) \o AddrOf(i) \o VmSize(s)
               \o N4(IF s = "bss" THEN 0 ELSE hdr + Before(i, FileLen)) \o N4(0)
               \o N4(IF s = "bss" THEN 0 ELSE relstart + 8 * Before(i, NRel)) \o N4(NRel(s))
               \o [k \in 1..4 |-> attr[k] + inst[k]] \o Zeros(12)
        RelocBytes(r) == r.addr \o FromNat(FirstNamed(r.name) - 1, 3) \o <<Bool(r.pcrel) + 2 * r.len + 8>>
        SymBytes(y) == N4(Strx(y.name))
            \o (CASE y.k = "U" -> <<1, 0>> [] y.k = "A" -> <<2 + Bool(y.ext), 0>>
                  [] y.k = "R" -> <<14 + Bool(y.ext), PosIn(y.s)>>)
            \o Zeros(2)
            \o (CASE y.k = "U" -> Zeros(8) [] y.k = "A" -> y.val
                  [] y.k = "R" -> Add(AddrOf(PosIn(y.s)), y.val))
    IN MH_MAGIC_64 \o X86_64 \o N4(3) \o N4(1) \o N4(2) \o N4(72 + 80 * np + 24) \o N4(0) \o N4(0)
       \o segment \o Flat([i \in 1..np |-> SectHeader(i)])
       \o N4(2) \o N4(24) \o N4(symoff) \o N4(Len(ordered)) \o N4(stroff) \o N4(Len(strs))
       \o Flat([i \in 1..np |-> Bytes(P[i])]) \o Zeros(Pad8(datalen))
       \o Flat([i \in 1..np |-> LET rs == Rel(P[i]) IN Flat([j \in DOMAIN rs |-> RelocBytes(rs[j])])])
       \o Flat([j \in DOMAIN ordered |-> SymBytes(ordered[j])])
       \o strs

(* ------------------------ what a reader must find (C15) ------------------- *)
Count(x, seq) == Cardinality({i \in DOMAIN seq : seq[i] = x})
SameBag(a, b) ==
    LET sa == ToSet(a) sb == ToSet(b) IN
    Len(a) = Len(b) /\ sa = sb /\ (Cardinality(sa) = Len(a) \/ \A x \in sa : Count(x, a) = Count(x, b))

\* the symbols of a file read, as an object's symbols
NoSect(n) == IF n = 0 THEN "none" ELSE "of none"
ReadSyms(o) == TLCEval([j \in DOMAIN o.syms |->
    LET y == o.syms[j].y
        n == IF o.syms[j].name.ok THEN o.syms[j].name.s ELSE <<>>
        inSect == {s \in ToSet(SECTS) : SectIndex(o, s) # 0 /\ SectIndex(o, s) = y.sect}
    IN CASE y.kind = N_UNDF -> [k |-> "U", name |-> n, val |-> y.value, ext |-> y.ext, sect |-> NoSect(y.sect)]
         [] y.kind = N_ABS -> [k |-> "A", name |-> n, val |-> y.value, ext |-> y.ext, sect |-> NoSect(y.sect)]
         [] y.kind = N_SECT /\ inSect # {} ->
              LET s == CHOOSE s \in inSect : TRUE IN
              [k |-> "R", name |-> n, val |-> Sub(y.value, SectAddr(o, s)), ext |-> y.ext, sect |-> s]
         [] OTHER -> [k |-> "?", name |-> n, val |-> y.value, ext |-> y.ext, sect |-> NoSect(y.sect)]])
GivenSyms(obj) == TLCEval([j \in DOMAIN obj.syms |->
    LET y == obj.syms[j] IN
    CASE y.k = "U" -> [k |-> "U", name |-> y.name, val |-> Zeros(8), ext |-> TRUE, sect |-> "none"]
      [] y.k = "A" -> [k |-> "A", name |-> y.name, val |-> y.val, ext |-> y.ext, sect |-> "none"]
      [] OTHER -> [k |-> "R", name |-> y.name, val |-> y.val, ext |-> y.ext, sect |-> y.s]])
ReadRelocs(o, s) == LET i == SectIndex(o, s) IN
    IF i = 0 THEN <<>> ELSE TLCEval([j \in DOMAIN o.sects[i].relocs |->
        LET r == o.sects[i].relocs[j]
            named == r.ext /\ r.sym >= 0 /\ r.sym < Len(o.syms) /\ o.syms[r.sym + 1].name.ok
        IN [addr |-> r.addr, name |-> IF named THEN o.syms[r.sym + 1].name.s ELSE <<>>, ext |-> r.ext,
            pcrel |-> r.pcrel, len |-> r.len, type |-> r.type]])
GivenRelocs(obj, s) == LET rs == Of(obj, s, obj.relocs) IN
    TLCEval([j \in DOMAIN rs |-> [addr |-> rs[j].addr, name |-> rs[j].name, ext |-> TRUE, pcrel |-> rs[j].pcrel,
                                   len |-> rs[j].len, type |-> 0]])

\* the ways in which a reading (as ReadObj's) is not the object
ViewDifferences(o, obj) ==
    LET Std(i) == \E s \in ToSet(SECTS) : <<o.sects[i].h.seg, o.sects[i].h.sect>> = SectName(s)
        bi == SectIndex(o, "bss")
        rules == [
          text |-> SectBytes(o, "text") = obj.text /\ SectSize(o, "text") = Len(obj.text),
          data |-> SectBytes(o, "data") = obj.data /\ SectSize(o, "data") = Len(obj.data),
          bss |-> IF bi = 0 THEN AllZero(obj.bss)
                  ELSE o.sects[bi].h.type = S_ZEROFILL /\ o.sects[bi].h.size64 = obj.bss,
          types |-> \A s \in {"text", "data"} : LET i == SectIndex(o, s) IN i = 0 \/ o.sects[i].h.type = 0,
          sections |-> (\A i \in DOMAIN o.sects : Std(i))
                       /\ (\A i, j \in DOMAIN o.sects : i # j =>
                             <<o.sects[i].h.seg, o.sects[i].h.sect>> # <<o.sects[j].h.seg, o.sects[j].h.sect>>),
          symbols |-> SameBag(ReadSyms(o), GivenSyms(obj)),
          textrelocs |-> SameBag(ReadRelocs(o, "text"), GivenRelocs(obj, "text")),
          datarelocs |-> SameBag(ReadRelocs(o, "data"), GivenRelocs(obj, "data")),
          bssrelocs |-> ReadRelocs(o, "bss") = <<>>
        ]
    IN {r \in DOMAIN rules : ~rules[r]}
\* every relocation is for a symbol that the object has (any other object has no file)
Resolved(obj) == \A i \in DOMAIN obj.relocs : \E j \in DOMAIN obj.syms : obj.syms[j].name = obj.relocs[i].name
\* the ways in which the file is not the object
Differences(f, obj) == LET o == ReadObj(f) IN IF ~o.ok THEN {o.why} ELSE ViewDifferences(o, obj)
=============================================================================
