------------------------------- MODULE MC_Sim --------------------------------
(* Random long recordings with the whole vocabulary (TLC simulation): a match   *)
(* with a roster, obituaries, frag updates, flags, pings, chat and markers.     *)
EXTENDS Recorder, Json, CSV, IOUtils
A == {}   K == {}
Ann == B("ann")  Bob == B("Bob") \o <<231, 18>>  Cee == <<16>> \o B("cee") \o <<17>>
Dan == B("dan")  Eve == B("eve the bot")
Pool == <<Ann, Bob, Cee, Dan, Eve>>
Roster == << <<0, Ann, B("red"), <<4, 4>>, FALSE, FALSE, <<>>, <<>>>>,
             <<1, Bob, B("red"), <<4, 12>>, FALSE, FALSE, <<B("bob:7")>>, <<B("fi")>>>>,
             <<4, Cee, B("blue"), <<13, 13>>, FALSE, FALSE, <<>>, <<>>>>,
             <<5, Dan, B("blue"), <<13, 12>>, TRUE, FALSE, <<>>, <<>>>>,
             <<9, Eve, B("blue"), <<13, 13>>, FALSE, TRUE, <<>>, <<>>>> >>
P == << <<0, 1, 0, << <<"serverinfo", B("\\maxfps\\77\\mode\\4on4\\map\\dm3")>> >> >>,
        <<13, 1, 0, << <<"spawn">> >> \o Map(Roster, LAMBDA c : <<"user", c>>) >> >>
M == 4   T == 1000   F == 40
R(S) == RandomElement(S)
Name(x) == Pool[R(1..5)]
Msg(x) ==
  LET k == R(1..21) IN
  CASE k \in 1..3 -> LET a == R(1..5) IN
         <<"obit", "kill", R(1..Len(KillPhrases)), Pool[a], Pool[1 + ((a + R(0..3)) % 5)]>>
    [] k = 4 -> <<"obit", "death", R(1..Len(DeathPhrases)), Name(x), <<>>>>
    [] k = 5 -> <<"obit", "ownweapon", R(1..Len(OwnWeaponPhrases)), Name(x), <<>>>>
    [] k = 6 -> <<"obit", "suicide", 1, Name(x), <<>>>>
    [] k = 7 -> <<"obit", "teamkill", R(1..Len(TeamkillPhrases)), Name(x), <<>>>>
    [] k \in {8, 9} -> <<"obit", "anon", R(1..Len(AnonTeamkillPhrases)), Name(x), <<>>>>
    [] k \in 10..12 -> <<"frag", Roster[R(1..5)][1], R({0, 1, 5, 65535})>>
    [] k = 13 -> <<"flag", FlagKinds[R(1..7)], R(1..2), Name(x)>>
    [] k = 14 -> <<"flagname", Name(x)>>
    [] k = 15 -> <<"flagtail", FlagKinds[R(1..3)], R(1..2)>>
    [] k \in {16, 17} -> <<"ping", Roster[R(1..5)][1], R({0, 10, 25, 666, 65535})>>
    [] k = 18 -> <<"print", R({0, 1, 2, 3, 9}), R({<<>>, B("gg") \o NL, B("hi"), <<200, 201, 10>>})>>
    [] k = 21 -> <<"hidden", R({FragMsg(1, 5), PingMsg(4, 9), LE32(36) \o LE16(6) \o <<1, 2>>, LE32(8) \o LE16(6) \o Rep(2, 6),
                                PrintMsg(1, B("ann died") \o NL), PrintMsg(2, Ann \o FlagTail("captures", 1))})>>
    [] k = 19 -> <<"noise", R({<<7>>, <<3, 9, 9>>, <<60, 1, 2, 3, 4>>})>>
    [] OTHER -> R({<<"date", B("2024-04-26 16:59:34 CEST")>>, <<"over">>,
                   <<"status", B("Standby")>>, <<"status", B("9 min left")>>,
                   <<"pause", Ann>>, <<"serverpause">>, <<"noise", <<5>>>>})
SimEmit == /\ Len(open) < MaxMsgs /\ frames < MaxFrames
           /\ \E m \in {Msg(total)} : Sensible(m) /\ open' = Append(open, m)
           /\ total' = total + 1
           /\ UNCHANGED <<file, frames, led>>
SimFlush == /\ frames < MaxFrames
            /\ \E dt \in {R({0, 1, 13, 255})}, t \in {R({1, 3, 4, 5, 6, 6, 6})}, s \in {R(0..31)} :
                 /\ file' = file \o Wrap(dt, t, s, open)
                 /\ led' = Recorded(led, open, dt)
            /\ open' = <<>> /\ frames' = frames + 1 /\ UNCHANGED total
SimNext == SimEmit \/ SimFlush
SimSpec == Init /\ [][SimNext]_vars
Now == Flushed /\ frames \in {20, 40}
(* an obituary of the recorder's own making may name a player twice (x kills x); *)
(* texts never contain another phrase: names are chosen so                       *)
RosterKept == Now => Clients(Users(file)) = Ok(led.roster)
AllOK == Now => PrintsOK /\ FragsOK /\ FlagsOK /\ PingsOK /\ ClockOK /\ StatusOK /\ DateOK
Export == IF IOEnv.EXPORT = "" \/ ~Flushed \/ frames # 40 THEN TRUE
          ELSE CSVWrite("%1$s", <<ToJson(file)>>, IOEnv.EXPORT)
=============================================================================
