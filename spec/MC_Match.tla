------------------------------- MODULE MC_Match -------------------------------
(* Random whole matches (TLC simulation) with everything a server records.     *)
EXTENDS Match, Json, CSV, IOUtils
A == {}   K == {}
M == 4   T == 1000   N == 36      \* frames of a match
R(S) == RandomElement(S)
Ann == B("ann")  Bob == B("Bob") \o <<231, 18>>  Cee == <<16>> \o B("cee") \o <<17>>
Dan == B("dan")  Eve == B("eve the bot")  Fay == <<225, 238, 238>>
Cast == <<Ann, Bob, Cee, Dan, Eve, Fay>>
Teams == <<B("red"), B("Red"), B("blue"), <<242, 229, 228>>>>
(* slots and seats are drawn once per behaviour *)
Seat(i) == <<R((i * 5)..(i * 5 + 4)), Cast[i], Teams[R(1..4)], <<R({0, 4, 13}), R({4, 12})>>,
             R(1..5) = 1, R(1..4) = 1, IF R(1..3) = 1 THEN <<B("auth") \o Dec(i)>> ELSE <<>>,
             IF R(1..3) = 1 THEN <<B("se")>> ELSE <<>>>>
Guests == Tuple([i \in 1..R(1..6) |-> Seat(i)])
InfoOf(x) == B("\\maxfps\\77") \o R({B("\\mode\\4on4"), B("\\mode\\hoonymode"), <<>>}) \o B("\\map\\dm3")
             \o R({<<>>, B("\\epoch\\1714143569")}) \o R({<<>>, B("\\serverdemo\\4on4.mvd")})
MInit == file = <<>> /\ led = NoLedger /\ open = <<>> /\ total = 0 /\ frames = 0 /\ pub = <<>>
(* the preamble: announcement and clients *)
MSetup == /\ file = <<>>
          /\ \E info \in {InfoOf(0)}, gs \in {Guests} :
               \E p \in { << <<0, 1, 0, << <<"serverinfo", info>> >> >>,
                            <<13, 1, 0, << <<"spawn">> >> \o Map(gs, LAMBDA c : <<"user", c>>) >> >> } :
                 file' = PreFile(p, 1) /\ led' = PreLedger(p, 1, NoLedger)
          /\ UNCHANGED <<open, total, frames, pub>>
Begun == file # <<>>
Client(x) == led.roster[R(1..Len(led.roster))]
Name(x) == IF R(1..12) = 1 THEN Cast[R(1..6)] ELSE Client(x)[2]
Msg(x) ==
  LET k == R(1..25) IN
  CASE k \in 1..4 -> <<"obit", "kill", R(1..Len(KillPhrases)), Name(1), Name(2)>>
    [] k = 5 -> <<"obit", "death", R(1..Len(DeathPhrases)), Name(x), <<>>>>
    [] k = 6 -> <<"obit", "ownweapon", R(1..Len(OwnWeaponPhrases)), Name(x), <<>>>>
    [] k = 7 -> <<"obit", "suicide", 1, Name(x), <<>>>>
    [] k = 8 -> <<"obit", "teamkill", R(1..Len(TeamkillPhrases)), Name(x), <<>>>>
    [] k \in {9, 10} -> <<"obit", "anon", R(1..Len(AnonTeamkillPhrases)), Name(x), <<>>>>
    [] k \in 11..13 -> <<"frag", Client(x)[1], R({0, 1, 5, 65535})>>
    [] k = 14 -> <<"flag", FlagKinds[R(1..7)], R(1..2), Name(x)>>
    [] k = 15 -> <<"flagname", Name(x)>>
    [] k = 16 -> <<"flagtail", FlagKinds[R(1..3)], R(1..2)>>
    [] k \in 17..19 -> <<"ping", Client(x)[1], R({0, 10, 25, 666, 65535})>>
    [] k = 20 -> <<"print", R({0, 1, 2, 3, 9}), R({<<>>, B("gg") \o NL, B("hi"), <<200, 201, 10>>})>>
    [] k = 25 -> <<"hidden", LE32(R({8, 14, 36, 292})) \o LE16(6) \o R({<<1, 0>>, <<1, 2, 3, 4, 5, 6>>, PingMsg(3, 9), PrintMsg(1, B("ann died"))})>>
    [] k = 21 -> <<"noise", R({<<7>>, <<3, 9, 9>>, <<60, 1, 2, 3, 4>>})>>
    [] k = 22 -> R({<<"date", B("2024-04-26 16:59:34 CEST")>>, <<"date", B("2021-12-31 23:59:59 +0000")>>})
    [] k = 23 -> R({<<"over">>, <<"status", B("Standby")>>, <<"status", B("9 min left")>>})
    [] OTHER -> R({<<"pause", Ann>>, <<"serverpause">>, <<"noise", <<5>>>>, <<"abort">>,
                   <<"noise", Rep(1, 300)>>})
MEmit == /\ Begun /\ Len(open) < MaxMsgs /\ frames < N
         /\ \E m \in {Msg(total)} : Sensible(m) /\ open' = Append(open, m)
         /\ total' = total + 1
         /\ UNCHANGED <<file, frames, led, pub>>
MFlush == /\ Begun /\ frames < N
          /\ \E dt \in {R({0, 1, 13, 255})}, t \in {R({1, 3, 4, 5, 6, 6, 6})}, s \in {R(0..31)} :
               /\ file' = file \o Wrap(dt, t, s, open)
               /\ led' = Recorded(led, open, dt)
          /\ open' = <<>> /\ frames' = frames + 1 /\ UNCHANGED <<total, pub>>
(* statistics: now and then during the match, and often behind it *)
MPublish == /\ Begun /\ open = <<>> /\ frames < N /\ R(1..(IF frames > N - 4 THEN 2 ELSE 12)) = 1
            /\ \E x \in {Summary(led, R({0, 61, 600, 1200}),
                                 R({B("2024-04-26 17:09:29 +0200"), B("1999-12-31 23:59:59 -0330")}),
                                 R({B("dm6"), B("br") \o <<229>> \o B("vado")}),
                                 R({B("QUAKE.SE KTX:28501"), Q \o B("q\\") \o <<10, 322, 8364>>}))} :
                 \E st \in {[ascii |-> R(BOOLEAN), late |-> R(BOOLEAN)]}, n \in {R(0..2)} :
                   \E t \in {JDocument(x, st)} : \E a \in {R(12..Len(t))}, b \in {R(12..Len(t))} :
                     /\ file' = file \o InBlocks(t, 0, IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<a>>
                                                      ELSE <<Min2(a, b), Max2(a, b)>>, 1)
                     /\ pub' = <<x>>
            /\ UNCHANGED <<open, total, frames, led>>
MEnd == /\ Begun /\ open = <<>> /\ frames = N - 1
        /\ R(1..3) # 1
        /\ file' = file \o Frame(3, 6, 0, Body(<< <<"end">> >>))
        /\ led' = Recorded(led, << <<"end">> >>, 3)
        /\ frames' = N /\ UNCHANGED <<open, total, pub>>
MNext == MSetup \/ MEmit \/ MFlush \/ MPublish \/ MEnd
MSpec == MInit /\ [][MNext]_mvars
Now == Flushed /\ frames \in {N \div 3, N}
LedgerOK == Now => PrintsOK /\ FragsOK /\ FlagsOK /\ PingsOK /\ ClockOK /\ RosterOK /\ StatusOK
                   /\ DateOK /\ ServerinfoOK
ViewsOK == Now => PlayersOK /\ TeamsOK /\ DocumentOK /\ MatchTimeOK /\ WhenOK /\ NamesOK /\ ValidOK
JointlyOK == Now => CoherentOK
Out == IF pub = <<>> THEN [d |-> file] ELSE [d |-> file, know |-> [stats |-> AsRead(pub[1])]]
Export == IF IOEnv.EXPORT = "" \/ ~Flushed \/ frames \notin {N \div 3, N} THEN TRUE
          ELSE CSVWrite("%1$s", <<ToJson(Out)>>, IOEnv.EXPORT)
=============================================================================
