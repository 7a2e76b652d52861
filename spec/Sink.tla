--------------------------------- MODULE Sink ---------------------------------
(* Writing an object into a stream that may refuse bytes: the bytes the stream  *)
(* took are always a prefix of the object, and writing returns normally only    *)
(* when the stream took them all.                                               *)
EXTENDS Words, TLC, Json
CONSTANTS N,       \* length of the object
          CHUNKS   \* how much the stream takes at most at a time; 0: anything
VARIABLES taken, limit, chunk, state
vars == <<taken, limit, chunk, state>>
Init == /\ taken = 0 /\ limit \in 0..(N + 1) /\ chunk \in CHUNKS /\ state = "writing"
Room == limit - taken
Accept == /\ state = "writing" /\ taken < N
          /\ \E n \in 1..(IF chunk = 0 THEN N ELSE chunk) : n <= Room /\ n <= N - taken /\ taken' = taken + n
          /\ UNCHANGED <<limit, chunk, state>>
Reject == state = "writing" /\ taken < N /\ Room = 0 /\ state' = "failed" /\ UNCHANGED <<taken, limit, chunk>>
Done == state = "writing" /\ taken = N /\ state' = "returned" /\ UNCHANGED <<taken, limit, chunk>>
Report == state \in {"failed", "returned"} /\ state' = "over" /\ UNCHANGED <<taken, limit, chunk>>
          /\ PrintT(ToJson([limit |-> limit, chunk |-> chunk, ok |-> state = "returned"]))
Next == Accept \/ Reject \/ Done \/ Report
Spec == Init /\ [][Next]_vars
NoFalseSuccess == state = "returned" => taken = N
Fails == state = "failed" => limit < N
Prefix == taken <= N /\ taken <= limit
=============================================================================
