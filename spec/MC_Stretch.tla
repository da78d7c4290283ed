----------------------------- MODULE MC_Stretch ------------------------------
(* A recording with a long frame of neutral bytes between its frames: how long  *)
(* that frame is does not matter, from Gap bytes on.  (So what the code returns  *)
(* for a recording of many megabytes is validated on one with a frame of Gap     *)
(* bytes.)  Recordings grow frame by frame from a vocabulary with every kind of  *)
(* mark; all results of the reader are compared.                                 *)
EXTENDS Results, IOUtils
Thorough == IOEnv.TIER = "thorough"
Gap == 13000
More == IF Thorough THEN {13001, 14096} ELSE {13777}
Neutral == IF Thorough THEN {1, 255} ELSE {1}
Fr(dt, h, body) == <<dt, h>> \o LE32(Len(body)) \o body
Multi(dt, mask, body) == <<dt, 3>> \o LE32(mask) \o LE32(Len(body)) \o body
Pr(l, t) == <<8, l>> \o t \o <<0>>
Text(s) == s \o NL
Stuff(t) == <<9>> \o t \o <<0>>
User(n, t) == <<40, n>> \o LE32(n + 65) \o t \o <<0>>
Block(n, t) == Multi(0, 0, LE32(Len(t) + 2) \o LE16(3) \o LE16(n) \o t)
FlagText(k) == CHOOSE t \in Range(FlagPhrases[k].texts) : TRUE
Ann == User(3, B("\\name\\ann\\team\\red\\topcolor\\4\\bottomcolor\\4"))
Vocabulary == {
  Fr(0, 1, Stuff(B("fullserverinfo ") \o <<34>> \o B("\\epoch\\1700000000\\mode\\2on2\\serverdemo\\a.mvd") \o <<34>> \o NL)),
  Fr(13, 1, Stuff(B("cmd spawn 7 0") \o NL) \o Ann),
  Fr(13, 1, User(4, B("\\name\\bob\\team\\red\\*bot\\1"))),
  Fr(7, 6, Pr(2, Text(B("matchdate: 2024-04-26 16:59:34 CEST")))),
  Fr(9, 6, Pr(2, Text(B("The match is over")))),
  Fr(13, 6, <<52>> \o B("status") \o <<0>> \o B("Standby") \o <<0>>),
  Fr(1, 6, Pr(1, Text(B("bob was telefragged by his teammate")))),
  Fr(1, 6, <<14, 3, 7, 0>>),
  Fr(1, 6, Pr(1, Text(B("ann rides bob's rocket")))),
  Fr(1, 6, Pr(2, B("ann") \o FlagText(1))),
  Fr(2, 6, <<36, 3, 255, 255, 53, 3, 0>>),
  Fr(1, 6, Pr(2, AbortedMark)),
  Fr(1, 6, Pr(2, PausedGameMark)),
  Block(1, B("{") \o <<34>> \o B("version") \o <<34>> \o B(": 3, ")),
  Block(0, <<34>> \o B("duration") \o <<34>> \o B(": 600, x")),
  Fr(0, 6, EndOfDemoMark) }
M == IF Thorough THEN 3 ELSE 2
VARIABLES before, after, left
vars == <<before, after, left>>
Init == before = <<>> /\ after = <<>> /\ left = M
Next == /\ left > 0
        /\ left' = left - 1
        /\ \E f \in Vocabulary :
             \/ after = <<>> /\ before' = before \o f /\ UNCHANGED after
             \/ after' = after \o f /\ UNCHANGED before
Spec == Init /\ [][Next]_vars
With(c, n) == before \o Fr(0, 6, Rep(c, n)) \o after
All(c, n) == LET d == With(c, n) IN Expected(d, Frames(d))
Stretch == left = 0 => \A c \in Neutral : LET e == All(c, Gap) IN \A n \in More : All(c, n) = e
=============================================================================
