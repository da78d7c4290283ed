------------------------------ MODULE CallHistory ----------------------------
(* Calls of pure functions.  A call (function, bytes) may be made any number of *)
(* times, in any thread of any process, after any other calls; what it returned *)
(* the first time is what it always returns.  Trace specification: TRACE holds, *)
(* per call, the observed returns in the order in which they were observed,     *)
(* each <<process, thread, position, value>> (values are numbered per call).    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES call, n, memo, bad
vars == <<call, n, memo, bad>>
Init == call \in 1..Len(Trace) /\ n = 0 /\ memo = <<>> /\ bad = FALSE
Seen == Trace[call].seen
FirstReturn == /\ memo = <<>> /\ n < Len(Seen)
               /\ memo' = <<Seen[n + 1][4]>> /\ n' = n + 1 /\ UNCHANGED <<call, bad>>
SameReturn == /\ memo # <<>> /\ n < Len(Seen) /\ ~bad
              /\ Seen[n + 1][4] = memo[1]
              /\ n' = n + 1 /\ UNCHANGED <<call, memo, bad>>
OtherReturn == /\ memo # <<>> /\ n < Len(Seen) /\ ~bad
               /\ Seen[n + 1][4] # memo[1]
               /\ PrintT(<<"REJECT", call, Seen[1], Seen[n + 1]>>)
               /\ bad' = TRUE /\ UNCHANGED <<call, n, memo>>
Next == FirstReturn \/ SameReturn \/ OtherReturn
Spec == Init /\ [][Next]_vars
Pure == ~bad
=============================================================================
