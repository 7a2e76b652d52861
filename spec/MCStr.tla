-------------------------------- MODULE MCStr ---------------------------------
(* All short histories of a string table over a few strings, printed for replay *)
EXTENDS StrTab, Json, TLC
CONSTANTS STRS, MAXOPS
VARIABLES ops
vars == <<stvars, ops>>
S(n) == CASE n = 0 -> <<>> [] n = 1 -> <<97>> [] n = 2 -> <<97, 98>> [] n = 3 -> <<98>> [] n = 4 -> <<32, 126>>
Init == StInit /\ ops = <<>>
More == Len(ops) < MAXOPS
Do(o) == ops' = Append(ops, o) /\ PrintT(ToJson(ops'))
APush == More /\ \E n \in STRS : Push(S(n)) /\ Do([e |-> "push", s |-> S(n)])
ALoad == More /\ \E n, m \in STRS : LET b == <<0>> \o S(n) \o <<0>> \o S(m) \o <<0>> IN Load(b) /\ Do([e |-> "from", v |-> b])
ALoad0 == More /\ Load(<<0>>) /\ Do([e |-> "from", v |-> <<0>>])
ANew == More /\ Create /\ Do([e |-> "new"])
Next == APush \/ ALoad \/ ALoad0 \/ ANew
Spec == Init /\ [][Next]_vars
\* nothing added is lost or moved by a later addition
Stable == [][(\E s \in {S(n) : n \in STRS} : tab' = tab \o s \o <<0>>) =>
              \A k \in DOMAIN added : k \in DOMAIN added' /\ added'[k] = added[k] /\ offs'[k] = offs[k]]_vars
=============================================================================
