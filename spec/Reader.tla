-------------------------------- MODULE Reader -------------------------------
(* The readers of the library as step machines: the walk over the frames and,  *)
(* inside a frame, over its leading prints; the walk over statistics blocks.   *)
(* Checked on every byte string over a small alphabet: every access is inside  *)
(* the data, every step makes progress (hence every walk ends), and the result *)
(* is that of the specification by recursion (Extract).                        *)
EXTENDS Extract, IOUtils

CONSTANTS Letters, MaxLen

VARIABLES data, pc, at, pos, stop, found, said
vars == <<data, pc, at, pos, stop, found, said>>
(* pc: "frame" (at = offset of the next frame), "print" (pos = cursor in the   *)
(* body, stop = its end), "blocks" (at = offset of the next block), "done"     *)

Strings == UNION {[1..n -> Letters] : n \in 0..MaxLen}
Init == /\ data \in Strings /\ pc = "frame" /\ at = 0 /\ pos = 0 /\ stop = 0
        /\ found = <<>> /\ said = <<>>

Left(i) == Len(data) - i
ReadFrame ==
  /\ pc = "frame"
  /\ LET f == FrameAt(data, at) IN
     IF ~f.ok THEN /\ pc' = "done" /\ UNCHANGED <<at, pos, stop, found, said>>
     ELSE /\ found' = Append(found, f)
          /\ at' = f.end /\ pos' = f.body /\ stop' = f.end
          /\ pc' = (IF f.hid THEN "frame" ELSE "print") /\ UNCHANGED said
  /\ UNCHANGED data
ReadPrint ==
  /\ pc = "print"
  /\ IF pos + 1 >= stop \/ data[pos + 1] # 8
     THEN pc' = "frame" /\ UNCHANGED <<pos, said>>
     ELSE LET z == FirstByte(data, 0, pos + 2, stop) IN
          IF z < 0 THEN pc' = "frame" /\ UNCHANGED <<pos, said>>     \* unterminated
          ELSE /\ said' = IF z = pos + 2 THEN said
                          ELSE Append(said, <<Level(data[pos + 2]), Sub(data, pos + 2, z)>>)
               /\ pos' = z + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<data, at, stop, found>>
Next == ReadFrame \/ ReadPrint
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InBounds == /\ at \in 0..Len(data) /\ pos \in 0..Len(data) /\ stop \in 0..Len(data)
            /\ \A i \in 1..Len(found) : found[i].body <= found[i].end /\ found[i].end <= Len(data)
(* frames tile the data: each begins where the one before ends *)
Tiling == \A i \in 1..Len(found) :
            found[i].at = (IF i = 1 THEN 0 ELSE found[i - 1].end) /\ found[i].end >= found[i].at + 2
Progress == [][\/ at' > at
               \/ at' = at /\ pos' > pos
               \/ pc = "print" /\ pc' = "frame"
               \/ pc' = "done"]_vars
AtEnd == pc = "done" => /\ found = Frames(data)
                        /\ MergeRepeats(said) = Prints(data, Frames(data))
Terminates == <>(pc = "done")
=============================================================================
