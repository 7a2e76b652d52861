-------------------------------- MODULE TraceCli ------------------------------
(* Trace validation of runs of the real command: arguments, the world before,   *)
(* exit status and the world after.                                             *)
EXTENDS Cli, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, why
vars == <<clivars, t, why>>
T == Traces[t]
\* a world as the driver writes it: a sequence of [p, k, c]
World(w) == [p \in {w[i].p : i \in DOMAIN w} |-> LET e == w[CHOOSE i \in DOMAIN w : w[i].p = p] IN [k |-> e.k, c |-> e.c]]
Table(o) == [c \in {o[i].c : i \in DOMAIN o} |-> o[CHOOSE i \in DOMAIN o : o[i].c = c].o]
Init == /\ t \in 1..Len(Traces) /\ why = <<>>
        /\ CliInit(T.args, T.cwd, World(T.before), Table(T.obj))
Run == CliNext /\ UNCHANGED <<t, why>>
Diff(a, b) == {p \in DOMAIN a \cup DOMAIN b : IF p \in DOMAIN a /\ p \in DOMAIN b THEN a[p] # b[p] ELSE TRUE}
Judge == /\ pc = "done" \/ pc = "open"
         /\ pc' = "judged" /\ UNCHANGED <<args, cwd, fs, OBJ, inp, out, ext, object, code, t>>
         /\ PrintT(ToJson(IF pc = "open" THEN "open" ELSE IF code = 0 THEN "success" ELSE "failure"))
         /\ LET after == World(T.after)
                before == World(T.before)
                d == IF code = 0 /\ (IsLink(Named(out)) \/ IsPipe(Named(out))) /\ after = Replaced(before) THEN {} ELSE Diff(after, fs)
            IN why' = IF pc = "open" THEN <<>>
                      ELSE IF code = 0 /\ T.code # 0 THEN <<"status of a success", T.code>>
                      ELSE IF code # 0 /\ T.code = 0 THEN <<"status 0 of a failure">>
                      ELSE IF d # {} THEN <<"files", d, T.code>>
                      ELSE <<>>
Next == Run \/ Judge
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
=============================================================================
