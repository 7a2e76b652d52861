-------------------------------- MODULE MCObj --------------------------------
(* The object writer's design on all small objects: sections of every listed    *)
(* size, with every listed list of symbols and relocations.  What it writes is  *)
(* well-formed and reads back as the object given.  The objects are printed for *)
(* replay against the real writer.                                              *)
EXTENDS MachO, Json
CONSTANTS TEXTS, DATAS, BSSES, SHAPES, RELOCS
VARIABLES obj, out
vars == <<obj, out>>

Name(n) == CASE n = 1 -> <<97>> [] n = 2 -> <<95, 109, 97, 105, 110>> [] n = 3 -> <<98, 97>> [] OTHER -> <<97, 98>>
Y(s, k, n, v, e) == [s |-> s, k |-> k, name |-> Name(n), val |-> FromNat(v, 8), ext |-> e]
\* lists of symbols for a section
Shape(s, h) == CASE h = 0 -> <<>>
    [] h = 1 -> <<Y(s, "R", 1, 0, FALSE)>>
    [] h = 2 -> <<Y(s, "R", 2, 3, TRUE), Y(s, "U", 1, 0, TRUE)>>
    [] h = 3 -> <<Y(s, "A", 3, 1000, FALSE), Y(s, "R", 1, 1, TRUE), Y(s, "A", 4, 5, TRUE)>>
    [] h = 4 -> <<Y(s, "U", 4, 0, TRUE), Y(s, "U", 2, 0, TRUE)>>
    [] h = 5 -> <<Y(s, "A", 2, 0, TRUE), Y(s, "R", 4, 8, FALSE), Y(s, "R", 3, 7, FALSE)>>
Rl(s, a, n, p, l) == [s |-> s, addr |-> FromNat(a, 4), name |-> n, pcrel |-> p, len |-> l]
RelList(s, h, syms) ==
    IF syms = <<>> THEN <<>>
    ELSE CASE h = 0 -> <<>>
           [] h = 1 -> <<Rl(s, 0, syms[1].name, FALSE, 3)>>
           [] h = 2 -> <<Rl(s, 1, syms[Len(syms)].name, TRUE, 2), Rl(s, 70000, syms[1].name, FALSE, 0)>>
           [] h = 3 -> <<Rl(s, 2, syms[Len(syms)].name, FALSE, 1), Rl(s, 2, syms[Len(syms)].name, FALSE, 1)>>
           [] h = 4 -> <<Rl(s, 0, syms[1].name, FALSE, 3), Rl(s, 1, <<97, 98, 97>>, TRUE, 2)>>   \* for a symbol it does not have
Content(n, b) == [i \in 1..n |-> (b + i) % 256]

Init == /\ out = <<>>
        /\ \E tn \in TEXTS, dn \in DATAS, bn \in BSSES, th \in SHAPES, dh \in SHAPES, bh \in {0, 1, 3} :
           \E tr \in RELOCS, dr \in RELOCS :
             LET syms == Shape("text", th) \o Shape("data", dh) \o Shape("bss", bh) IN
             /\ (syms = <<>> => tr = 0 /\ dr = 0)
             /\ obj = [text |-> Content(tn, 200), data |-> Content(dn, 10), bss |-> FromNat(bn, 8), syms |-> syms,
                       relocs |-> RelList("text", tr, syms) \o RelList("data", dr, syms)]
Write == out = <<>> /\ out' = (IF Resolved(obj) THEN Emit(obj) ELSE <<"refused">>) /\ UNCHANGED obj /\ PrintT(ToJson(obj))
Next == Write
Spec == Init /\ [][Next]_vars
WellFormed == out # <<>> /\ Resolved(obj) => Broken(out) = {}
Recovered == out # <<>> /\ Resolved(obj) => Differences(out, obj) = {}
=============================================================================
