------------------------------ MODULE MCLayout -------------------------------
(* Edits of a source that say nothing: blanks next to blanks, commas and line   *)
(* ends; tabs for blanks; comments; empty lines; CR LF; the last newline.       *)
(* Whatever edits are made, the source says the same (Canon), and so assembles  *)
(* to the same object.  The edited sources are printed for replay.              *)
EXTENDS Source, Json, TLC
CONSTANTS BASES, MAXEDITS
VARIABLES base, src, n
vars == <<base, src, n>>

NL == <<LF>>
Ls(ss) == Flat([i \in DOMAIN ss |-> Codes(ss[i]) \o NL])
BaseTexts == <<
  Ls(<<"mov rax, 1 + 2", "x: ; c", "push rdi">>),
  Ls(<<"section .data", "m db \"a ;,\", 0x10", "global m">>),
  Ls(<<"mov ebx, m", "m dw 1, \"q\"", "ret">>),
  Ls(<<"mov cx, dx", "bad line", "syscall">>) >>
BaseCanon == [i \in DOMAIN BaseTexts |-> Canon(BaseTexts[i])]

\* inside quotes or a comment before position p?
Mode(s, p) == FoldLeft(LAMBDA a, c :
                 IF c = LF THEN "out" ELSE IF a = "comment" THEN a
                 ELSE IF c = QUOTE THEN (IF a = "out" THEN "quote" ELSE "out")
                 ELSE IF c = SEMI /\ a = "out" THEN "comment" ELSE a, "out", SubSeq(s, 1, p))
Soft(c) == Blank(c) \/ c = COMMA \/ c = LF \/ c = CR
Insert(s, p, x) == SubSeq(s, 1, p) \o x \o SubSeq(s, p + 1, Len(s))
AtEnd(s, p) == p < Len(s) /\ s[p + 1] = LF

AfterCr(s, p) == IF p = 0 THEN FALSE ELSE s[p] = CR
LineStart(s, p) == IF p = 0 THEN TRUE ELSE s[p] = LF

Init == base \in BASES /\ src = BaseTexts[base] /\ n = 0
Step(s) == n < MAXEDITS /\ n' = n + 1 /\ src' = s /\ UNCHANGED base /\ PrintT(ToJson([b |-> base, s |-> s]))
Places == 0..Len(src)
AddBlank == \E p \in Places, c \in {SP, TAB} :
              /\ Mode(src, p) = "out"
              /\ IF p = 0 \/ p = Len(src) THEN TRUE ELSE (Soft(src[p]) \/ Soft(src[p + 1]))
              /\ ~AfterCr(src, p)
              /\ Step(Insert(src, p, <<c>>))
Retab == \E p \in 1..Len(src) : src[p] = SP /\ Mode(src, p) = "out" /\ Step([src EXCEPT ![p] = TAB])
Comment == \E p \in Places, x \in {<<SEMI>>, Codes("; x: mov \"")} :
              AtEnd(src, p) /\ Mode(src, p) # "quote" /\ ~AfterCr(src, p) /\ Step(Insert(src, p, x))
EmptyLine == \E p \in Places : LineStart(src, p) /\ Step(Insert(src, p, NL))
CrLf == \E p \in Places : AtEnd(src, p) /\ ~AfterCr(src, p) /\ Step(Insert(src, p, <<CR>>))
Chop == src # <<>> /\ src[Len(src)] = LF /\ (Len(src) = 1 \/ src[Len(src) - 1] # CR) /\ Step(SubSeq(src, 1, Len(src) - 1))
Next == AddBlank \/ Retab \/ Comment \/ EmptyLine \/ CrLf \/ Chop
Spec == Init /\ [][Next]_vars
SaysTheSame == Canon(src) = BaseCanon[base]
=============================================================================
