-------------------------------- MODULE StrTab --------------------------------
(* A string table: a zero byte, then each string added and a zero byte.         *)
EXTENDS Words, TLC
VARIABLES tab,    \* the bytes
          added,  \* the strings, in order
          offs    \* where each was added: the length of the table just before
stvars == <<tab, added, offs>>

StInit == tab = <<0>> /\ added = <<>> /\ offs = <<>>
Create == tab' = <<0>> /\ added' = <<>> /\ offs' = <<>>
Push(s) == /\ tab' = tab \o s \o <<0>>
           /\ added' = Append(added, s)
           /\ offs' = Append(offs, Len(tab))
\* where the zeros are in the bytes of a table, and the strings between them
ZeroPlaces(b) == TLCEval(SelectSeq(TLCEval([j \in 1..Len(b) |-> j]), LAMBDA j : b[j] = 0))
Between(b, z) == [k \in 1..(Len(z) - 1) |-> SubSeq(b, z[k] + 1, z[k + 1] - 1)]
StringsIn(b) == Between(b, ZeroPlaces(b))
Load(b) == LET z == ZeroPlaces(b) IN
           /\ tab' = b
           /\ added' = TLCEval(Between(b, z))
           /\ offs' = TLCEval([k \in 1..(Len(z) - 1) |-> z[k]])
\* the string at an offset
At(i) == IF \E e \in (i + 1)..Len(tab) : tab[e] = 0
         THEN SubSeq(tab, i + 1, (CHOOSE e \in (i + 1)..Len(tab) : tab[e] = 0 /\ \A j \in (i + 1)..(e - 1) : tab[j] # 0) - 1)
         ELSE SubSeq(tab, i + 1, Len(tab))

Found == \A k \in DOMAIN added : At(offs[k]) = added[k]
EmptyAtZero == At(0) = <<>>
Shape == tab = FoldLeft(LAMBDA a, s : a \o s \o <<0>>, <<0>>, added)
Iteration == StringsIn(tab) = added
=============================================================================
