--------------------------------- MODULE MCCli --------------------------------
(* Every command line of up to MAXARGS words, in several worlds.  The cases are *)
(* printed for replay by the real command.                                      *)
EXTENDS Cli, Json, TLC
CONSTANTS ARGS, MAXARGS, WORLDS
VARIABLES fs0
vars == <<clivars, fs0>>
F(c) == [k |-> "file", c |-> c]
L(p) == [k |-> "link", c |-> p]
P(c) == [k |-> "pipe", c |-> c]
D == [k |-> "dir", c |-> ""]
\* directories d and d/e.x always; a source, a bad source, an old object, in turn
World(w) ==
  LET base == ("@" :> D) @@ ("@/d" :> D) @@ ("@/d/e.x" :> D) IN
  base @@ (CASE w = 1 -> ("@/a.asm" :> F("good")) @@ ("@/d/c" :> F("good2"))
             [] w = 2 -> ("@/a.asm" :> F("good")) @@ ("@/a.o" :> F("old")) @@ ("@/out" :> F("old")) @@ ("@/d/c" :> F("bad"))
             [] w = 3 -> ("@/a.asm" :> F("bad")) @@ ("@/a.o" :> F("old")) @@ ("@/d/c" :> F("good")) @@ ("@/d/c.o" :> F("old"))
             [] w = 4 -> ("@/a.asm" :> D) @@ ("@/a.o" :> F("old")) @@ ("@/out" :> D) @@ ("@/d/c" :> F("good2")) @@ ("@/d/c.o" :> D)
             [] w = 6 -> ("@/a.asm" :> L("d/c")) @@ ("@/d/c" :> F("good2")) @@ ("@/l" :> L("d")) @@ ("@/out" :> L("d/x"))
             [] w = 7 -> ("@/a.asm" :> L("@/d/e.x/s")) @@ ("@/d/e.x/s" :> F("good")) @@ ("@/l" :> L("@/d/e.x")) @@ ("@/d/e.x/c" :> L("../../a.asm"))
                         @@ ("@/out" :> L("a.o")) @@ ("@/a.o" :> F("old")) @@ ("@/d/c" :> L("c.o")) @@ ("@/d/c.o" :> F("good2")) @@ ("@/d/out" :> L("no/x"))
             [] w = 8 -> ("@/a.asm" :> L("l")) @@ ("@/l" :> L("a.asm")) @@ ("@/out" :> L("l")) @@ ("@/c" :> F("good")) @@ ("@/c.o" :> L("d"))
                         @@ ("@/d/c" :> F("good2")) @@ ("@/d/c.o" :> L("../c"))
             [] w = 9 -> ("@/a.asm" :> P("good")) @@ ("@/out" :> P("")) @@ ("@/d/c" :> P("bad")) @@ ("@/d/out" :> L("../out")) @@ ("@/c" :> P("good2"))
             [] w = 5 -> ("@/d/c" :> F("good")) @@ ("@/out" :> F("old")))
Objs == [good |-> "obj", good2 |-> "obj2", bad |-> "refused", old |-> "refused", obj |-> "refused", obj2 |-> "refused"]
Init == \E w \in WORLDS, n \in 0..MAXARGS, d \in {"@", "@/d"} : \E a \in [1..n -> ARGS] :
          CliInit(a, d, World(w), Objs) /\ fs0 = World(w)
Next == /\ CliNext /\ UNCHANGED fs0
        /\ (pc' \in {"done", "open"} => PrintT(ToJson([args |-> args, cwd |-> cwd, fs |-> fs0, pc |-> pc', code |-> code'])))
Spec == Init /\ [][Next]_vars

\* the guarantees, on the model
Untouched == (pc = "done" /\ code # 0) => fs = fs0
OnlyOutput == (pc = "done" /\ code = 0) =>
  \A p \in DOMAIN fs \cup DOMAIN fs0 : p # Output => p \in DOMAIN fs /\ p \in DOMAIN fs0 /\ fs[p] = fs0[p]
Written == (pc = "done" /\ code = 0) => fs[Output].k \in {"file", "pipe"} /\ fs[Output].c = OBJ[fs0[Input].c] /\ OBJ[fs0[Input].c] # "refused"
\* what was a link is one still, with the same target
Links == \A p \in DOMAIN fs0 : (fs0[p].k = "link" => fs[p] = fs0[p]) /\ (fs0[p].k = "pipe" => fs[p].k = "pipe")
InputKept == (pc = "done" /\ code = 0) => fs[Input] = fs0[Input]
=============================================================================
