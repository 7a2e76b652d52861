---------------------------------- MODULE Tap ----------------------------------
(* Reading a record from a stream that may end or fail: a value comes out only   *)
(* when every byte of the record came in.                                        *)
EXTENDS Integers, TLC, Json
CONSTANTS SIZES, KINDS, CHUNKS   \* CHUNKS: how much the stream delivers at most at a time; 0: anything
VARIABLES size, limit, kind, chunk, taken, tripped, state
vars == <<size, limit, kind, chunk, taken, tripped, state>>
given == <<size, limit, kind, chunk>>
\* "end": nothing comes after `limit` bytes; "err": an error, for good; "once": an error, or
\* no bytes this time, then the rest
Init == /\ size \in SIZES /\ limit \in 0..(size + 1) /\ kind \in KINDS /\ chunk \in CHUNKS
        /\ taken = 0 /\ tripped = FALSE /\ state = "reading"
Open == taken < limit \/ (kind = "once" /\ tripped)
Room == IF kind = "once" /\ tripped THEN size ELSE limit
Deliver == /\ state = "reading" /\ taken < size /\ Open
           /\ \E n \in 1..(IF chunk = 0 THEN size ELSE chunk) :
                 taken + n <= Room /\ taken + n <= size /\ taken' = taken + n
           /\ UNCHANGED <<size, limit, kind, chunk, tripped, state>>
\* the reader may give up at the first error or ask again
Trip == /\ state = "reading" /\ taken < size /\ ~Open
        /\ \/ state' = "cut" /\ tripped' = TRUE
           \/ kind = "once" /\ tripped' = TRUE /\ UNCHANGED state
        /\ UNCHANGED <<size, limit, kind, chunk, taken>>
Value == state = "reading" /\ taken = size /\ state' = "value" /\ UNCHANGED <<size, limit, kind, chunk, taken, tripped>>
Report == state \in {"cut", "value"} /\ state' = "over" /\ UNCHANGED <<size, limit, kind, chunk, taken, tripped>>
          /\ PrintT(ToJson([size |-> size, limit |-> limit, kind |-> kind, chunk |-> chunk]))
Next == Deliver \/ Trip \/ Value \/ Report
Spec == Init /\ [][Next]_vars
Whole == state = "value" => taken = size
NoValue == state = "value" /\ kind # "once" => limit >= size
AlwaysValue == state = "cut" => limit < size
=============================================================================
