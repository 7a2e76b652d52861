------------------------------ MODULE MCSession ------------------------------
(* Sessions with assemblers: texts cut into pieces are fed in one or several    *)
(* calls, objects are written any number of times, new assemblers may be        *)
(* started, and several may be at work by turns.  What a write yields is a      *)
(* function of the text fed to that assembler (Fun stands for that function).   *)
(* The schedules are printed for replay.                                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS PIECES, MAXOPS, CHUNKS, SLOTS
VARIABLES fed, ops, memo
vars == <<fed, ops, memo>>
Slots == 1..SLOTS   \* assemblers alive at the same time, each with a text of its own
Fun(a, n) == <<"object of", a, n>>
Op(k, a, x, c) == [k |-> k, a |-> a, n |-> x, c |-> c]
Init == fed = [a \in Slots |-> 0] /\ ops = <<>> /\ memo = [a \in Slots |-> [n \in 0..PIECES |-> <<>>]]
More == Len(ops) < MAXOPS
Begun(a) == a = 1 \/ ops # <<>>   \* (the first at work is number 1)
Feed == More /\ \E a \in Slots : Begun(a) /\ \E k \in 1..(PIECES - fed[a]), c \in CHUNKS :
           fed' = [fed EXCEPT ![a] = @ + k] /\ ops' = Append(ops, Op("feed", a, k, c)) /\ UNCHANGED memo
Write == More /\ \E a \in Slots :
         /\ fed[a] > 0
         /\ \E c \in CHUNKS : ops' = Append(ops, Op("write", a, 0, c))
         /\ memo' = [memo EXCEPT ![a][fed[a]] = Fun(a, fed[a])] /\ UNCHANGED fed
         /\ (fed[a] = PIECES /\ (\A b \in Slots : fed[b] > 0) => PrintT(ToJson(ops')))
New == More /\ \E a \in Slots : fed[a] > 0 /\ fed' = [fed EXCEPT ![a] = 0] /\ ops' = Append(ops, Op("new", a, 0, 0)) /\ UNCHANGED memo
Next == Feed \/ Write \/ New
Spec == Init /\ [][Next]_vars
Function == \A a \in Slots, n \in 0..PIECES : memo[a][n] \in {<<>>, Fun(a, n)}
=============================================================================
