---------------------------- MODULE MC_Dates ---------------------------------
(* Match dates as servers print them: every zone of the table and numeric       *)
(* offsets, at local times around midnight, month ends and leap days.  The      *)
(* instant is checked by converting it back to local time.                      *)
EXTENDS Recorder, Json, CSV, IOUtils
Thorough == IOEnv.TIER = "thorough"
P0 == <<>>
VARIABLE local    \* <<y, m, d, hour, minute, second, offset in minutes>>
Pad2(n) == <<48 + n \div 10, 48 + (n % 10)>>
Pad4(n) == Pad2(n \div 100) \o Pad2(n % 100)
ZoneTexts == {Zones[k] : k \in 1..Len(Zones)}
  \cup {<<B(z[1]), z[2]>> : z \in { <<"+0000", 0>>, <<"-0000", 0>>, <<"+0530", 330>>,
          <<"+05:30", 330>>, <<"-0930", -570>>, <<"+1200", 720>>, <<"-12:00", -720>>,
          <<"+02", 120>>, <<"-11", -660>>, <<"+0059", 59>>, <<"-0001", -1>> }}
Days == { <<2024, 2, 29>>, <<2023, 12, 31>>, <<2024, 3, 1>>, <<1999, 1, 1>>, <<2100, 2, 28>> }
        \cup (IF Thorough THEN {<<2000, 2, 29>>, <<2021, 6, 30>>, <<1970, 1, 1>>, <<2038, 1, 19>>,
                                <<2022, 10, 9>>, <<2019, 8, 10>>, <<1969, 12, 31>>} ELSE {})
Times == { <<0, 0, 0>>, <<23, 59, 59>>, <<12, 30, 7>> }
         \cup (IF Thorough THEN {<<0, 29, 59>>, <<13, 0, 1>>, <<5, 45, 10>>} ELSE {})
TextOf(d, t, z) == Pad4(d[1]) \o <<45>> \o Pad2(d[2]) \o <<45>> \o Pad2(d[3]) \o <<32>>
                   \o Pad2(t[1]) \o <<58>> \o Pad2(t[2]) \o <<58>> \o Pad2(t[3]) \o <<32>> \o z
DInit ==
  \E d \in Days, t \in Times, z \in ZoneTexts :
    LET text == TextOf(d, t, z[1]) IN
    /\ local = <<d[1], d[2], d[3], t[1], t[2], t[3], z[2]>>
    /\ open = <<>> /\ total = 0 /\ frames = 1
    /\ file = Frame(3, 6, 0, Body(<< <<"date", text>> >>))
    /\ led = Recorded(NoLedger, << <<"date", text>> >>, 3)
DNext == UNCHANGED <<vars, local>>
DSpec == DInit /\ [][DNext]_<<vars, local>>
(* seconds are kept apart from days: both fit 32 bits *)
InstantOK ==
  LET r == MatchdateOf(MatchdateText(file)) IN
  Len(led.date) \in 22..25 =>
    /\ IsOk(r)
    /\ LET back == Instant(Val(r)[1], Val(r)[2] + local[7] * 60)
       IN back = <<DaysOf(local[1], local[2], local[3]),
                   local[4] * 3600 + local[5] * 60 + local[6]>>
Export == IF IOEnv.EXPORT = "" THEN TRUE
          ELSE CSVWrite("%1$s", <<ToJson(file)>>, IOEnv.EXPORT)
=============================================================================
