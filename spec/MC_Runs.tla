------------------------------ MODULE MC_Runs --------------------------------
(* Recordings as runs of equal frames, grown run by run.  On those short enough *)
(* to write out, the results derived from the runs are those of the reader       *)
(* specification; the same runs, repeated many more times, are replayed in the   *)
(* real code (WHAT = "far" for random ones).                                     *)
EXTENDS Runs, Json, CSV, IOUtils
Thorough == IOEnv.TIER = "thorough"
Pr(l, t) == <<8, l>> \o t \o <<0>>
Fr(dt, h, body) == <<dt, h>> \o LE32(Len(body)) \o body
Ping(n, ms) == <<36, n, ms % 256, ms \div 256, 53, n, 0>>
Red == <<210, 197, 196>>
FlagText(k) == CHOOSE t \in Range(FlagPhrases[k].texts) : TRUE
Units == {
  <<250, 0>>, <<255, 7>>, <<1, 2, 8, 1, 97, 32, 0, 0, 6, 1>>,
  Fr(7, 6, Pr(2, B("matchdate: 2024-04-26 16:59:34 CEST") \o NL)),
  Fr(9, 6, Pr(2, B("The match is over") \o NL)),
  Fr(13, 6, <<52>> \o B("status") \o <<0>> \o B("Standby") \o <<0>>),
  Fr(1, 6, Pr(1, B("ann rides bob's rocket") \o NL)), Fr(3, 6, Pr(1, B("bob suicides") \o NL) \o Pr(1, B("ann died") \o NL)),
  Fr(1, 6, Pr(2, B("ann") \o FlagText(1)) \o Pr(2, B("ann") \o FlagText(1))), Fr(1, 6, Pr(2, B("bob") \o FlagText(5))),
  Fr(2, 6, Ping(3, 65535)), Fr(2, 6, Ping(3, 1) \o Ping(4, 40000)) }
Few == {1, 2, 3, 9}
(* the times of the long recordings: beyond 2^31 and 2^32 milliseconds in all *)
Many == {1, 2, 999, 1001, 65536, 70000, 300000}
Longest == 17000000     \* of frames without messages
M == IF Thorough THEN 3 ELSE 2
VARIABLE us
Init == us = <<>>
Next == \E b \in Units, n \in Few : Len(us) < M /\ us' = Append(us, [b |-> b, n |-> n])
Spec == Init /\ [][Next]_us
Far ==
  /\ Len(us) < 8
  /\ \E b \in {RandomElement(Units)} : \E n \in {RandomElement(Many)} :
       us' = Append(us, [b |-> b, n |-> IF Len(b) = 2 /\ n = 300000 THEN Longest ELSE n])
FarSpec == Init /\ [][Far]_us

Milli(t) == t[1] * 1000 + t[2]
Agree ==
  LET d == Expand(us) fr == Frames(d) IN
  /\ \A i \in 1..Len(us) : WholeFrame(us[i])
  /\ LET c == Countdown(d, fr, Err) r == RunsCountdown(us)
     IN IF IsOk(r) THEN c = Ok(Milli(Val(r))) ELSE c = Err
  /\ DemoTime(d, fr) = Milli(RunsDemoTime(us))
  /\ MatchBySeeking(d, fr, Err) = Milli(RunsMatch(us))
  /\ Frags(d, fr, Err) = RunsFrags(us)
  /\ FlagCounts(FlagEvents(d, fr)) = RunsFlags(us)
  /\ Pings(PingSamples(d, fr)) = RunsPings(us)
  /\ PrintsMerge(us) => Prints(d, fr) = RunsPrints(us)
Export == IF IOEnv.EXPORT = "" \/ Len(us) < 8 THEN TRUE
          ELSE CSVWrite("%1$s", <<ToJson(us)>>, IOEnv.EXPORT)
=============================================================================
