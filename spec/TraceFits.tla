------------------------------- MODULE TraceFits -------------------------------
(* Trace validation of the library against Fits.  A trace is a case:              *)
(*  [k |-> "rec", ty, b, big, r]       bytes read as a record                     *)
(*  [k |-> "cmds", b, big, evs]        bytes read as load commands, to the first  *)
(*                                     that is refused                            *)
(*  [k |-> "write", ty, f, wok, size, back]  a value written, and read back       *)
(*  [k |-> "table", b, ok, got]        a string table of these bytes              *)
(*  [k |-> "push", b, s, ok, got]      a string added to one                      *)
EXTENDS Fits, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, pos, why
vars == <<t, i, pos, why>>
E == Traces[t]

\* (a header's magic number is reported in the machine's own order)
Same(f, g) == IF E.ty = "header" THEN Len(f) = Len(g) /\ SubSeq(f, 2, Len(g)) = SubSeq(g, 2, Len(g)) ELSE f = g
Read ==
  LET big == IF E.ty = "header" THEN HeaderBig(E.b) ELSE E.big
      f == RecFits(E.ty, E.b, big) IN
  CASE E.r.ok /\ f = "not" -> <<"read, though it encodes nothing", E.ty, E.b, E.r>>
    [] E.r.ok /\ ~(E.r.used = SIZE[E.ty] /\ Same(E.r.f, Dec(E.ty, E.b, big))) -> <<"read as something else", E.ty, E.b, E.r>>
    [] E.r.ok /\ E.ty = "header" /\ E.r.order # (IF big THEN "big" ELSE "little") -> <<"order", E.b, E.r>>
    [] ~E.r.ok /\ f = "must" -> <<"refused", E.ty, E.b>>
    [] OTHER -> <<>>
Write ==
  IF E.wok /\ ~(E.back.ok /\ E.back.f = ShownAll(E.ty, E.f) /\ E.back.used = SIZE[E.ty] /\ E.size = SIZE[E.ty])
  THEN <<"written as something else", E.ty, E.f, E.back, E.size>> ELSE <<>>
Table ==
  CASE E.ok /\ (TableFits(E.b) = "not" \/ E.got # E.b) -> <<"no string table", E.b, E.got>>
    [] ~E.ok /\ TableFits(E.b) = "must" -> <<"string table refused", E.b>>
    [] OTHER -> <<>>
Push ==
  CASE E.ok /\ (StringFits(E.s) = "not" \/ E.got # E.b \o E.s \o <<0>>) -> <<"added as something else", E.s, E.got>>
    [] ~E.ok /\ StringFits(E.s) = "must" -> <<"string refused", E.s>>
    [] OTHER -> <<>>
Judge == CASE E.k = "rec" -> Read [] E.k = "write" -> Write [] E.k = "table" -> Table [] OTHER -> Push
\* the next command
Rest == SubSeq(E.b, pos + 1, Len(E.b))
Next1(c) ==
  LET has == i < Len(E.evs)
      e == E.evs[i + 1] IN
  CASE c.fits = "not" -> IF has /\ e.ok THEN <<"a command read, though there is none", i + 1, e>> ELSE <<>>
    [] ~has -> <<"commands missing", i + 1>>
    [] ~e.ok -> IF c.fits = "must" THEN <<"command refused", i + 1>> ELSE <<>>
    [] e.c # CmdSays(Rest, c, E.big) \/ e.pos # pos + c.size -> <<"read as another command", i + 1, e>>
    [] OTHER -> <<>>

Init == t \in 1..Len(Traces) /\ i = 0 /\ pos = 0 /\ why = <<>>
Single == /\ why = <<>> /\ E.k # "cmds" /\ i = 0 /\ i' = 1 /\ UNCHANGED <<t, pos>> /\ why' = Judge
Command == /\ why = <<>> /\ E.k = "cmds" /\ i <= E.n /\ UNCHANGED t
           /\ LET c == CmdFits(Rest, E.big) IN
              /\ why' = IF i = E.n THEN <<>> ELSE Next1(c)
              /\ pos' = pos + c.size
              /\ i' = IF c.fits = "not" \/ i >= Len(E.evs) \/ (IF i < Len(E.evs) THEN ~E.evs[i + 1].ok ELSE TRUE) THEN E.n + 1 ELSE i + 1
Next == Single \/ Command
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
=============================================================================
