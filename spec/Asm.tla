--------------------------------- MODULE Asm ---------------------------------
(* The assembler: a machine that reads the lines of a source one after the      *)
(* other, and writes an object file at the end.  Each action is the effect of   *)
(* one kind of line.  p is the line read, as ParseLine classifies it.           *)
EXTENDS Source, MachO

VARIABLES line,    \* number of lines read
          sect,    \* section in force
          items,   \* section -> sequence of what its lines emit, in order
          labels,  \* sequence of [name, s : section, at : number of items before it]
          globals, \* names declared global
          status   \* "reading", then "read", or "refused" (a line), "undefined" (a symbol)
                   \* or "unspec"
asmvars == <<line, sect, items, labels, globals, status>>

DataItem(b) == [k |-> "d", b |-> b]
InstItem(q, sym) == [k |-> "i", q |-> q, sym |-> sym]

AsmInit == /\ line = 0
           /\ sect = "text"
           /\ items = [s \in {"text", "data"} |-> <<>>]
           /\ labels = <<>>
           /\ globals = {}
           /\ status = "reading"

Defined(name) == \E j \in DOMAIN labels : labels[j].name = name
ItemsIn(s) == IF s = "bss" THEN 0 ELSE Len(items[s])
NextLine == line' = line + 1

EmptyLine(p) == /\ p.k = "empty" /\ NextLine
                /\ UNCHANGED <<sect, items, labels, globals, status>>
SwitchSection(p) == /\ p.k = "section" /\ NextLine
                    /\ sect' = p.s
                    /\ UNCHANGED <<items, labels, globals, status>>
DeclareGlobal(p) == /\ p.k = "global" /\ NextLine
                    /\ globals' = globals \cup {p.name}
                    /\ UNCHANGED <<sect, items, labels, status>>
Here(name) == [name |-> name, s |-> sect, at |-> ItemsIn(sect)]
DefineLabel(p) == /\ p.k = "label" /\ ~Defined(p.name) /\ NextLine
                  /\ labels' = Append(labels, Here(p.name))
                  /\ UNCHANGED <<sect, items, globals, status>>
EmitData(p) == /\ p.k = "data" /\ sect # "bss" /\ NextLine
               /\ ~(p.label # <<>> /\ Defined(p.label))
               /\ labels' = IF p.label = <<>> THEN labels ELSE Append(labels, Here(p.label))
               /\ items' = [items EXCEPT ![sect] = Append(@, DataItem(p.b))]
               /\ UNCHANGED <<sect, globals, status>>
EmitInstruction(p) == /\ p.k = "inst" /\ sect # "bss" /\ NextLine
                      /\ items' = [items EXCEPT ![sect] = Append(@, InstItem(p.q, p.sym))]
                      /\ UNCHANGED <<sect, labels, globals, status>>

\* the line is not a valid one (or not where it stands)
Redefines(p) == \/ p.k = "label" /\ Defined(p.name)
                \/ p.k = "data" /\ p.label # <<>> /\ Defined(p.label)
InBss(p) == p.k \in {"data", "inst"} /\ sect = "bss"
Refuse(p) == /\ (p.k = "error" \/ Redefines(p) \/ InBss(p)) /\ NextLine
             /\ status' = "refused"
             /\ UNCHANGED <<sect, items, labels, globals>>
OpenLine(p) == /\ p.k = "unspec" /\ NextLine
               /\ status' = "unspec"
               /\ UNCHANGED <<sect, items, labels, globals>>

ReadLine(p) == /\ status = "reading"
               /\ \/ EmptyLine(p) \/ SwitchSection(p) \/ DeclareGlobal(p) \/ DefineLabel(p)
                  \/ EmitData(p) \/ EmitInstruction(p) \/ Refuse(p) \/ OpenLine(p)

\* n blank lines at once (so that a long source needs few steps)
SkipBlank(n) == /\ status = "reading" /\ line' = line + n
                /\ UNCHANGED <<sect, items, labels, globals, status>>

AllItems == items["text"] \o items["data"]
Uses == {AllItems[j].sym : j \in {j \in DOMAIN AllItems : AllItems[j].k = "i"}} \ {<<>>}
Undefined == {n \in Uses : ~Defined(n)}

EndOfInput == /\ status = "reading"
              /\ status' = IF Undefined = {} THEN "read" ELSE "undefined"
              /\ UNCHANGED <<line, sect, items, labels, globals>>

(* ------------------------------ the object -------------------------------- *)
\* the design: every item in its own encoding
ItemBytes(x) == IF x.k = "d" THEN x.b ELSE Encode(x.q)
DesignStarts(s) == FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + Len(ItemBytes(x))), <<0>>, items[s])
ImmLen(q) == q.w \div 8
ImmPos(q) == Len(Encode(q)) - ImmLen(q)

DesignObject ==
    LET Pos(s, at) == IF s = "bss" THEN 0 ELSE DesignStarts(s)[at + 1]
        Rs(s) == LET js == SelectSeq([j \in DOMAIN items[s] |-> j],
                               LAMBDA j : items[s][j].k = "i" /\ items[s][j].sym # <<>>)
                 IN [n \in DOMAIN js |-> LET x == items[s][js[n]] IN
                       [s |-> s, addr |-> FromNat(DesignStarts(s)[js[n]] + ImmPos(x.q), 4),
                        name |-> x.sym, pcrel |-> FALSE, len |-> IF x.q.w = 64 THEN 3 ELSE 2]]
    IN [text |-> Flat([j \in DOMAIN items["text"] |-> ItemBytes(items["text"][j])]),
        data |-> Flat([j \in DOMAIN items["data"] |-> ItemBytes(items["data"][j])]),
        bss |-> Zeros(8),
        syms |-> [j \in DOMAIN labels |->
                    [s |-> labels[j].s, k |-> "R", name |-> labels[j].name,
                     val |-> FromNat(Pos(labels[j].s, labels[j].at), 8), ext |-> labels[j].name \in globals]],
        relocs |-> Rs("text") \o Rs("data")]

(* --------------------- what the file must say, by aspect ------------------ *)
\* Walk the bytes of a section along its items: a data item is there verbatim, an
\* instruction item as any encoding of that instruction.
\* Result: ok, the start of each item (and the end), position of each immediate
WalkStep(b, j, x, a) ==
    IF x.k = "d" THEN
        IF InRange(b, a.p, Len(x.b)) /\ Cut(b, a.p, Len(x.b)) = x.b
        THEN [a EXCEPT !.p = @ + Len(x.b), !.starts = Append(@, a.p - 1), !.imms = Append(@, [p |-> -1, n |-> 0])]
        ELSE [a EXCEPT !.ok = FALSE, !.at = <<"data item", j, x.b>>]
    ELSE LET d == DecodeAt(b, a.p) IN
        IF d.ok /\ Answers(d, x.q)
        THEN [a EXCEPT !.p = @ + d.len, !.starts = Append(@, a.p - 1),
                       !.imms = Append(@, [p |-> a.p - 1 + d.imm, n |-> d.immlen])]
        ELSE [a EXCEPT !.ok = FALSE, !.at = <<"instruction", j, x.q>>]
Walked(b, xs) ==
    LET a == FoldLeft(LAMBDA a, j : IF a.ok THEN WalkStep(b, j, xs[j], a) ELSE a,
                      [ok |-> TRUE, at |-> <<"end">>, p |-> 1, starts |-> <<>>, imms |-> <<>>],
                      [j \in DOMAIN xs |-> j])
    IN IF a.ok THEN [a EXCEPT !.ok = a.p = Len(b) + 1, !.starts = Append(@, a.p - 1)] ELSE a

\* if the contents are wrong, the other aspects go by the design's positions
WalkOrDesign(b, s) ==
    LET w == Walked(b, items[s]) IN
    IF w.ok THEN w
    ELSE [w EXCEPT !.starts = DesignStarts(s),
                   !.imms = [j \in DOMAIN items[s] |->
                               LET x == items[s][j] IN
                               IF x.k = "i" /\ x.q.src.k = "i"
                               THEN [p |-> DesignStarts(s)[j] + ImmPos(x.q), n |-> ImmLen(x.q)] ELSE [p |-> -1, n |-> 0]]]

\* the symbols: name, section, address
JudgeSymbols(o, wt, wd) ==
    LET At(l) == IF l.s = "bss" THEN 0 ELSE IF l.s = "text" THEN wt.starts[l.at + 1] ELSE wd.starts[l.at + 1]
        want == [j \in DOMAIN labels |-> [name |-> labels[j].name, sect |-> labels[j].s, val |-> FromNat(At(labels[j]), 8)]]
        rs == ReadSyms(o)
        got == [j \in DOMAIN rs |-> [name |-> rs[j].name, sect |-> rs[j].sect, val |-> rs[j].val]]
    IN IF \A j \in DOMAIN rs : rs[j].k = "R" THEN IF SameBag(want, got) THEN <<>> ELSE <<"symbols", want, got>>
       ELSE <<"symbols", want, got>>

\* exactly the labels declared global are external (among the symbols there are)
JudgeExternal(o) ==
    LET bad == {j \in DOMAIN o.syms : o.syms[j].name.ok /\ Defined(o.syms[j].name.s)
                                      /\ o.syms[j].y.ext # (o.syms[j].name.s \in globals)}
        \* a declaration adds no symbol
        more == {j \in DOMAIN o.syms : o.syms[j].name.ok /\ ~Defined(o.syms[j].name.s)}
    IN IF bad # {} THEN LET j == CHOOSE j \in bad : TRUE IN <<"external bit", o.syms[j].name.s>>
       ELSE IF more # {} THEN <<"a symbol that is no label", o.syms[CHOOSE j \in more : TRUE].name.s>>
       ELSE <<>>

\* one relocation per symbolic operand
JudgeRelocs(o, wt, wd) ==
    LET want(s, w) ==
            LET js == SelectSeq([j \in DOMAIN items[s] |-> j],
                          LAMBDA j : items[s][j].k = "i" /\ items[s][j].sym # <<>>)
            IN [n \in DOMAIN js |-> [addr |-> FromNat(w.imms[js[n]].p, 4), name |-> items[s][js[n]].sym, ext |-> TRUE,
                                     pcrel |-> FALSE, len |-> CASE w.imms[js[n]].n = 8 -> 3 [] w.imms[js[n]].n = 4 -> 2
                                                                [] OTHER -> 9, type |-> 0]]
        Zero(s, w) == \A j \in DOMAIN items[s] : (items[s][j].k = "i" /\ items[s][j].sym # <<>>) =>
                        LET m == w.imms[j] b == SectBytes(o, s) IN
                        InRange(b, m.p + 1, m.n) /\ AllZero(Cut(b, m.p + 1, m.n)) /\ m.n = items[s][j].q.w \div 8
        t == want("text", wt)  d == want("data", wd)
    IN IF ~SameBag(ReadRelocs(o, "text"), t) THEN <<"relocations of text", t, ReadRelocs(o, "text")>>
       ELSE IF ~SameBag(ReadRelocs(o, "data"), d) THEN <<"relocations of data", d, ReadRelocs(o, "data")>>
       ELSE IF ReadRelocs(o, "bss") # <<>> THEN <<"relocations of bss">>
       ELSE IF ~Zero("text", wt) \/ ~Zero("data", wd) THEN <<"relocated field is not zero">>
       ELSE <<>>

JudgeContent(o, wt, wd) ==
    IF ~wt.ok THEN <<"text contents", wt.at, SectBytes(o, "text")>>
    ELSE IF ~wd.ok THEN <<"data contents", wd.at, SectBytes(o, "data")>>
    ELSE IF SectSize(o, "text") # Len(SectBytes(o, "text")) \/ SectSize(o, "data") # Len(SectBytes(o, "data"))
            \/ SectSize(o, "bss") # 0
         THEN <<"section size">>
    ELSE IF \E i \in DOMAIN o.sects : \A s \in ToSet(SECTS) : <<o.sects[i].h.seg, o.sects[i].h.sect>> # SectName(s)
         THEN <<"another section">>
    ELSE <<>>

\* what is wrong with a file written in the state "read"; <<>> if nothing
JudgeFile(f, aspects) ==
    LET o == ReadObj(f) IN
    IF ~o.ok THEN <<"unreadable object", o.why>>
    ELSE
    LET wt == WalkOrDesign(SectBytes(o, "text"), "text")
        wd == WalkOrDesign(SectBytes(o, "data"), "data")
        c == IF "content" \in aspects THEN JudgeContent(o, wt, wd) ELSE <<>>
        y == IF "symbols" \in aspects THEN JudgeSymbols(o, wt, wd) ELSE <<>>
        x == IF "external" \in aspects THEN JudgeExternal(o) ELSE <<>>
        r == IF "relocs" \in aspects THEN JudgeRelocs(o, wt, wd) ELSE <<>>
        b == IF "wellformed" \in aspects THEN Broken(f) ELSE {}
    IN IF c # <<>> THEN c ELSE IF y # <<>> THEN y ELSE IF x # <<>> THEN x ELSE IF r # <<>> THEN r
       ELSE IF b # {} THEN <<"not well-formed", b>> ELSE <<>>
=============================================================================
