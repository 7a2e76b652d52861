-------------------------------- MODULE MCBuilds -------------------------------
(* A command of BASE bytes and n entries of w bytes declares its size; an object   *)
(* has parts at offsets that are the sums of the sizes before.  Computed in a       *)
(* field twice as wide, both are decided alike in every build, and rightly; in the  *)
(* field itself they are not (Differ must be reachable: it is what C30 is about).   *)
EXTENDS Builds, FiniteSets
CONSTANTS TOP, BASE, WIDTHS
VARIABLES q, outcome, narrow
vars == <<q, outcome, narrow>>
WIDE == (TOP + 1) * (TOP + 1) - 1
Declared(build, Top, x) == LET s == Sum(build, Top, Got(BASE), Product(build, Top, Got(x.n), Got(x.w))) IN
                           s.ok /\ s.v = x.d
Placed(build, Top, x) == LET s == Sum(build, Top, Sum(build, Top, Got(BASE), Got(x.n)), Got(x.d)) IN
                         IF s.ok /\ s.v <= TOP THEN s ELSE Refused
Answer(build, Top, x) == [command |-> Declared(build, Top, x), placed |-> Placed(build, Top, x)]
Init == /\ q \in [n : 0..TOP, w : WIDTHS, d : 0..TOP] /\ outcome = <<>> /\ narrow = <<>>
Run(build) == /\ Len(outcome) = Cardinality({b \in KINDS : b = "wrapping" /\ build = "wrapping"})
              /\ outcome' = Append(outcome, Answer(build, WIDE, q)) /\ narrow' = Append(narrow, Answer(build, TOP, q)) /\ UNCHANGED q
Next == Run("checked") \/ Run("wrapping")
Spec == Init /\ [][Next]_vars
Same == Agree(outcome)
Right == \A i \in DOMAIN outcome : /\ outcome[i].command = (BASE + q.n * q.w = q.d)
                                   /\ outcome[i].placed = (IF BASE + q.n + q.d <= TOP THEN Got(BASE + q.n + q.d) ELSE Refused)
\* (not an invariant: the narrow design is the defect)
NarrowSame == Agree(narrow)
=============================================================================
