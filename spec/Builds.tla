--------------------------------- MODULE Builds --------------------------------
(* The library is built with checked arithmetic (a sum or product beyond the field *)
(* ends the process) or without (it wraps).  A build is an environment in which    *)
(* each request has one outcome, and the outcome must not depend on it: what is    *)
(* decided is that a request's outcomes agree, whatever they are (that they are     *)
(* right is decided by the other specifications).                                  *)
EXTENDS Naturals, Sequences
KINDS == {"checked", "wrapping"}
Refused == [ok |-> FALSE, v |-> 0]
Got(v) == [ok |-> TRUE, v |-> v]
\* arithmetic in a field with Top + 1 values; a refused operand refuses the result
Narrow(build, Top, exact) == IF exact <= Top THEN Got(exact) ELSE IF build = "checked" THEN Refused ELSE Got(exact % (Top + 1))
Sum(build, Top, a, b) == IF a.ok /\ b.ok THEN Narrow(build, Top, a.v + b.v) ELSE Refused
Product(build, Top, a, b) == IF a.ok /\ b.ok THEN Narrow(build, Top, a.v * b.v) ELSE Refused
Agree(outcomes) == \A i, j \in DOMAIN outcomes : outcomes[i] = outcomes[j]
=============================================================================
