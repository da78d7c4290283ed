------------------------------ MODULE Documents ------------------------------
(* A server writes a statistics document member by member.  The ledger is what *)
(* it stated; a member of the wrong type, a member stated twice or a slip of    *)
(* punctuation spoils the document for good.  In every reachable state the     *)
(* structured reading of the text is the ledger, or refuses the text.          *)
EXTENDS KtxStats, Format

CONSTANTS Members,     \* what may be stated: see Member
          Commas,      \* <<bytes, fine>> between two members
          Closings,    \* <<bytes, fine>> behind the last
          MinMembers, MaxMembers, MaxSlips,
          Spent        \* slips that cannot be made any more

VARIABLES text, stated, doc, fine, slips, closed
vars == <<text, stated, doc, fine, slips, closed>>

(* a member: name, the bytes of the value, is it of the member's type, and the *)
(* value as read ("" names are of no interest to the reader)                   *)
M(name, bytes, good, value) == [name |-> name, bytes |-> bytes, good |-> good, value |-> value]
Says(d, m) == CASE m.name = "map" -> [d EXCEPT !.map = m.value]
                [] m.name = "tl" -> [d EXCEPT !.tl = m.value]
                [] m.name = "port" -> [d EXCEPT !.port = m.value]
                [] m.name = "date" -> [d EXCEPT !.date = m.value]
                [] m.name = "duration" -> [d EXCEPT !.duration = m.value]
                [] m.name = "teams" -> [d EXCEPT !.teams = m.value]
                [] m.name = "players" -> [d EXCEPT !.players = m.value]
                [] OTHER -> d
Blank == [version |-> 3, date |-> <<0, 0>>, map |-> <<>>, hostname |-> <<>>, ip |-> <<>>, port |-> 0,
          mode |-> <<>>, tl |-> 0, dm |-> 0, tp |-> 0, duration |-> 0, demo |-> <<>>, teams |-> <<>>,
          players |-> <<>>]
Known == {"map", "tl", "port", "date", "duration", "teams", "players"}

Init == /\ text = StatsMark \o B("3") /\ stated = <<>> /\ doc = Blank /\ fine = TRUE /\ slips \in Spent
        /\ closed = FALSE
Slip(good) == /\ (good \/ slips < MaxSlips)
              /\ slips' = slips + (IF good THEN 0 ELSE 1)
State == /\ ~closed /\ Len(stated) < MaxMembers
         /\ \E m \in Members, c \in Commas :
              LET again == m.name \in Known /\ \E i \in 1..Len(stated) : stated[i] = m.name
                  good == m.good /\ c[2] /\ ~again
              IN /\ Slip(good)
                 /\ text' = text \o c[1] \o Q \o B(m.name) \o Q \o B(": ") \o m.bytes
                 /\ stated' = Append(stated, m.name)
                 /\ doc' = IF good THEN Says(doc, m) ELSE doc
                 /\ fine' = (fine /\ good)
         /\ UNCHANGED closed
Finish == /\ ~closed /\ Len(stated) >= MinMembers
          /\ \E c \in Closings :
               /\ Slip(c[2]) /\ text' = text \o c[1] /\ fine' = (fine /\ c[2])
          /\ closed' = TRUE /\ UNCHANGED <<stated, doc>>
Next == State \/ Finish
Spec == Init /\ [][Next]_vars

Read == IF closed /\ fine THEN Document(text) = Ok(doc) ELSE Document(text) = Err
(* a text that breaks off is no document (blanks at its end do not matter)      *)
Torn == closed /\ fine =>
  \A c \in Len(StatsMark)..(Len(text) - 1) :
     (\E i \in (c + 1)..Len(text) : ~JsonSpace(text[i])) => ~JsonRead(SubSeq(text, 1, c)).ok
File == IF Len(text) % 2 = 0
        THEN BlockFrame(0, 3, 0, text)
        ELSE BlockFrame(0, 3, 1, SubSeq(text, 1, Len(StatsMark) + 1))
             \o BlockFrame(0, 3, 0, SubSeq(text, Len(StatsMark) + 2, Len(text)))
=============================================================================
