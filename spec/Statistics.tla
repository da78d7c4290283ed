------------------------------ MODULE Statistics -----------------------------
(* A server embeds match statistics: a document is written as a run of hidden  *)
(* blocks, numbered from 1, the final one numbered 0.  Documents may follow    *)
(* each other; a run may be interrupted, after which it is not continued; the  *)
(* file may be cut anywhere.                                                   *)
EXTENDS Extract, Format

CONSTANTS Documents,   \* byte strings that open with StatsMark
          Others,      \* other frames, as byte strings
          MaxDocs, MaxOthers, MaxBlocks

VARIABLES file,     \* bytes recorded so far
          doc,      \* the document of the last run (<<>> if none)
          sent,     \* how much of it has been written
          blocks,   \* number of blocks of the current run
          phase,    \* "none", "writing", "complete", "interrupted"
          ndocs, nothers,
          history   \* documents that were begun, in order
vars == <<file, doc, sent, blocks, phase, ndocs, nothers, history>>

Init == /\ file = <<>> /\ doc = <<>> /\ sent = 0 /\ blocks = 0 /\ phase = "none"
        /\ ndocs = 0 /\ nothers = 0 /\ history = <<>>

(* the next n bytes of document x as block number k (0 if they complete it) *)
Write(x, from, n, k) ==
  BlockFrame(0, 3, IF from + n = Len(x) THEN 0 ELSE k, SubSeq(x, from + 1, from + n))

Begin == /\ phase # "writing" /\ ndocs < MaxDocs
         /\ \E x \in Documents : \E n \in Len(StatsMark)..Len(x) :
              /\ file' = file \o Write(x, 0, n, 1)
              /\ doc' = x /\ sent' = n
              /\ phase' = IF n = Len(x) THEN "complete" ELSE "writing"
              /\ history' = Append(history, x)
         /\ blocks' = 1 /\ ndocs' = ndocs + 1
         /\ UNCHANGED nothers
Continue == /\ phase = "writing"
            /\ \E n \in 0..(Len(doc) - sent) :
                 /\ blocks + 1 < MaxBlocks \/ n = Len(doc) - sent
                 /\ file' = file \o Write(doc, sent, n, blocks + 1)
                 /\ sent' = sent + n
                 /\ phase' = IF sent + n = Len(doc) THEN "complete" ELSE "writing"
            /\ blocks' = blocks + 1
            /\ UNCHANGED <<doc, ndocs, nothers, history>>
Other == /\ nothers < MaxOthers
         /\ \E o \in Others : file' = file \o o
         /\ phase' = IF phase = "writing" THEN "interrupted" ELSE phase
         /\ nothers' = nothers + 1
         /\ UNCHANGED <<doc, sent, blocks, ndocs, history>>
Next == Begin \/ Continue \/ Other
Spec == Init /\ [][Next]_vars

IsPrefixOf(p, x) == Len(p) <= Len(x) /\ SubSeq(x, 1, Len(p)) = p
TextOf(x) == IF IsUtf8(x) THEN Ok(x) ELSE Err
Reassembled ==
  LET r == StatsText(file) IN
  CASE phase = "none" -> r = Err
    [] phase = "complete" -> r = TextOf(doc)
    [] OTHER -> r = TextOf(SubSeq(doc, 1, sent))
(* wherever the demo breaks off: an error, or a prefix of a document in it;    *)
(* the last one whose opening is complete                                      *)
Torn == \A c \in 0..Len(file) :
  LET r == StatsText(SubSeq(file, 1, c)) IN
  r = Err \/ \E i \in 1..Len(history) : IsPrefixOf(Val(r), history[i])
=============================================================================
