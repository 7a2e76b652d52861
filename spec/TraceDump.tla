------------------------------ MODULE TraceDump ------------------------------
(* Trace validation of the whole way round: an object written by at-obj and read  *)
(* back with at-mac's own readers (header, load commands, relocations, symbols,   *)
(* string table), the way a tool on top of the library does. Each trace is        *)
(* [obj, ok, hdr, pos, sects, syms]; records are lists of their fields. Nothing   *)
(* is said here about the bytes between the writer and the readers.               *)
EXTENDS MachO, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, judged, why
vars == <<t, judged, why>>
T == Traces[t]

LenOf(n) == CASE n = "Byte" -> 0 [] n = "Word" -> 1 [] n = "Long" -> 2 [] n = "Quad" -> 3 [] OTHER -> 4
KindOf(n) == CASE n = "Undf" -> N_UNDF [] n = "Abs" -> N_ABS [] n = "Sect" -> N_SECT [] OTHER -> 9
TypeOf(n) == CASE n = "Regular" -> 0 [] n = "Zerofill" -> S_ZEROFILL [] OTHER -> 9
\* what the library reported, in the shape of ReadObj
LibReloc(f) == [addr |-> f[1], sym |-> ToNat(f[2][1]), pcrel |-> f[2][2] = <<1>>, len |-> LenOf(f[2][3]),
                ext |-> f[2][4] = <<1>>, type |-> f[2][5][1]]
LibSect(s) == LET f == s.f IN
    [h |-> [sect |-> f[1], seg |-> f[2], addr |-> f[3], size |-> ToNat(f[4]), size64 |-> f[4],
            nreloc |-> ToNat(f[8]), type |-> TypeOf(f[9][2])],
     bytes |-> s.bytes, relocs |-> TLCEval([j \in DOMAIN s.relocs |-> LibReloc(s.relocs[j])])]
LibSym(s) == LET f == s.f
                 norm == f[2][1] = "Norm" IN
    [y |-> [kind |-> IF norm THEN KindOf(f[2][2]) ELSE 9, ext |-> norm /\ f[2][4] = <<1>>,
            sect |-> f[3][1], value |-> f[5]],
     name |-> [ok |-> s.ok, s |-> s.name]]
View == [sects |-> TLCEval([i \in DOMAIN T.sects |-> LibSect(T.sects[i])]),
         syms |-> TLCEval([j \in DOMAIN T.syms |-> LibSym(T.syms[j])])]
\* header: [magic, cpu, file type, number and size of commands, flags, reserved]
Header == /\ T.hdr[1] = "Magic64" /\ T.hdr[2] = "X86_64" /\ T.hdr[3] = "Object"
          /\ ToNat(T.hdr[5]) = T.pos - 32

Init == t \in 1..Len(Traces) /\ judged = FALSE /\ why = <<>>
Judge == /\ ~judged /\ judged' = TRUE /\ UNCHANGED t
         /\ why' = IF ~T.ok THEN <<"not readable">>
                   ELSE IF ~Header THEN <<"header", T.hdr, T.pos>>
                   ELSE LET d == ViewDifferences(View, T.obj) IN IF d # {} THEN <<"reads as another object", d>> ELSE <<>>
Next == Judge
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]
Conforms == why = <<>>
=============================================================================
