------------------------------- MODULE Conform -------------------------------
(* Trace specification.  The runner records what the real functions return   *)
(* (one event per input: the calls made on it and their results); every      *)
(* event has to be a step that the reader specification (Extract) allows.    *)
(* Events are independent of each other (the functions are pure), so each    *)
(* is its own two-state behaviour and TLC validates them in parallel.        *)
EXTENDS Runs, Json, IOUtils

Bases == ndJsonDeserialize(IOEnv.BASES)
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, verdict
vars == <<k, verdict>>

RECURSIVE Edited(_, _, _)
Edited(d, es, i) ==
  IF i > Len(es) THEN d
  ELSE Edited(IF es[i][1] < Len(d) THEN [d EXCEPT ![es[i][1] + 1] = es[i][2]] ELSE d, es, i + 1)
DataOf(e) ==
  LET b == Bases[e.base].d
      c == IF e.cut < 0 THEN b ELSE SubSeq(b, 1, e.cut)
  IN Edited(c, e.edits, 1)

LengthOf(e) == IF e.cut < 0 THEN Len(Bases[e.base].d) ELSE e.cut

(* --- other kinds of events --- *)
(* every call returned a value or an error *)
NotReturned(r) == {f \in DOMAIN r : ~Returned(r[f])}
(* the outcomes of n calls of each function, counted: <<values, errors, neither>> *)
NotTallied(e) == IF e.r[3] = 0 /\ e.r[1] + e.r[2] = e.n THEN {} ELSE {e.id}
(* results that are stated with the event (a ledger that the reader specification, *)
(* which scans bytes, is known to miss)                                            *)
OffLedger(e) == {f \in DOMAIN e.ledger : ~("ok" \in DOMAIN e.r[f] /\ e.r[f].ok = e.ledger[f])}

(* a recording cut off at byte e.cut: only the frames of the intact recording *)
(* that are complete before the cut count                                     *)
TornFrames(b, cut) == SelectSeq(Frames(b), LAMBDA f : f.end <= cut)

(* reports sets of two results: same function, same bytes => same result      *)
Check(e) ==
  IF e.kind = "players" THEN WrongForPlayers(e)
  ELSE IF e.kind = "torn" THEN
    LET d == DataOf(e) IN Wrong(e, d, TornFrames(Bases[e.base].d, e.cut), e.r)
  ELSE IF e.kind = "joint" THEN
    IF NotReturned(e.r) # {} THEN {"returns"} ELSE WrongJointly(e, LengthOf(e), e.r)
  ELSE IF e.kind = "returns" THEN NotReturned(e.r)
  ELSE IF e.kind = "tally" THEN NotTallied(e)
  ELSE IF e.kind = "ledger" THEN OffLedger(e)
  ELSE IF e.kind = "runs" THEN WrongForRuns(e)
  ELSE LET d == DataOf(e) IN Wrong(e, d, Frames(d), e.r)

Init == k \in 1..Len(Trace) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ LET w == Check(Trace[k])
           IN IF w = {} THEN verdict' = "accepted"
              ELSE /\ PrintT(<<"REJECT", Trace[k].id, w>>)
                   /\ verdict' = "rejected"
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
Accepted == verdict # "rejected"
=============================================================================
