------------------------------- MODULE Recorder ------------------------------
(* A server records a match.  It emits messages into the frame it is composing *)
(* and flushes the frame to the file; the ledger is what happened so far in    *)
(* the recorded (flushed) part, in terms of events, not of bytes.  The reader  *)
(* (Extract) must recover the ledger from the file in every reachable state.   *)
EXTENDS Extract, Format

CONSTANTS
  Alphabet,    \* the messages this server may emit
  FrameKinds,  \* the <<time delta, target, slot>> with which it may flush
  MaxMsgs,     \* messages per frame
  MaxTotal,    \* messages in all
  MaxFrames,   \* frames in all
  Preamble     \* Seq of <<dt, target, slot, msgs>>: frames recorded before the match

VARIABLES file, open, total, frames, led
vars == <<file, open, total, frames, led>>

(***************************************************************************)
(* Messages                                                                *)
(*   <<"print", level, text>>      any print                               *)
(*   <<"obit", kind, phrase, a, b>> an obituary (a: the one who is named    *)
(*        first; b: second name, used by kills only)                       *)
(*   <<"flag", kind, variant, name>>       a flag announcement in one print *)
(*   <<"flagname", name>>, <<"flagtail", kind, variant>>   ... in two       *)
(*   <<"frag", slot, frags>>, <<"ping", slot, ping>>                       *)
(*   <<"spawn">>, <<"user", client>>, <<"serverinfo", info>>               *)
(*   <<"date", text>>, <<"over">>, <<"status", text>>                      *)
(*   <<"abort">>, <<"pause", name>>, <<"serverpause">>, <<"end">>          *)
(*   <<"noise", bytes>>            anything else                           *)
(*   <<"hidden", bytes>>           hidden data, in a frame of its own      *)
(***************************************************************************)
ObitText(m) ==
  CASE m[2] = "death" -> m[4] \o DeathPhrases[m[3]]
    [] m[2] = "ownweapon" -> m[4] \o OwnWeaponPhrases[m[3]]
    [] m[2] = "suicide" -> m[4] \o SuicidePhrase
    [] m[2] = "teamkill" -> m[4] \o TeamkillPhrases[m[3]]
    [] m[2] = "anon" -> m[4] \o AnonTeamkillPhrases[m[3]]
    [] m[2] = "kill" -> m[4] \o KillPhrases[m[3]].mid \o m[5] \o KillPhrases[m[3]].post
FlagTail(kind, variant) ==
  LET k == CHOOSE i \in 1..Len(FlagPhrases) : FlagPhrases[i].kind = kind
  IN FlagPhrases[k].texts[variant]

IsPrint(m) == m[1] \in {"print", "obit", "flag", "flagname", "flagtail", "date", "over",
                        "abort", "pause", "serverpause"}
PrintLevel(m) == IF m[1] = "print" THEN m[2] ELSE IF m[1] = "obit" THEN 1 ELSE 2
PrintText(m) ==
  CASE m[1] = "print" -> m[3]
    [] m[1] = "obit" -> ObitText(m) \o NL
    [] m[1] = "flag" -> m[4] \o FlagTail(m[2], m[3])
    [] m[1] = "flagname" -> m[2]
    [] m[1] = "flagtail" -> FlagTail(m[2], m[3])
    [] m[1] = "date" -> B("matchdate: ") \o m[2] \o NL
    [] m[1] = "over" -> MatchOverMark \o NL
    [] m[1] = "abort" -> Sub(AbortedMark, 2, Len(AbortedMark) - 1)
    [] m[1] = "pause" -> m[2] \o B(" paused the game") \o NL
    [] m[1] = "serverpause" -> B("Server is paused") \o NL
Enc(m) ==
  IF IsPrint(m) THEN PrintMsg(PrintLevel(m), PrintText(m))
  ELSE CASE m[1] = "frag" -> FragMsg(m[2], m[3])
         [] m[1] = "ping" -> PingMsg(m[2], m[3])
         [] m[1] = "spawn" -> SpawnMsg
         [] m[1] = "user" -> UserMsg(m[2][1], UserInfo(m[2]))
         [] m[1] = "serverinfo" -> ServerinfoMsg(m[2])
         [] m[1] = "status" -> StatusMsg(m[2])
         [] m[1] = "end" -> EndMsg
         [] m[1] \in {"noise", "hidden"} -> m[2]
Body(ms) == Concat(Map(ms, Enc))
Hides(ms) == ms # <<>> /\ ms[1][1] = "hidden"
Wrap(dt, target, slot, ms) == IF Hides(ms) THEN HiddenFrame(dt, slot, Body(ms))
                              ELSE Frame(dt, target, slot, Body(ms))

(***************************************************************************)
(* The ledger                                                              *)
(***************************************************************************)
NoLedger ==
  [said |-> <<>>, score |-> Empty, open_tks |-> <<>>, flags |-> <<>>,
   ping_frames |-> 0, samples |-> <<>>, clock |-> 0, date_at |-> -1, over_at |-> -1,
   standby_at |-> -1, date |-> <<>>, spawned |-> FALSE, roster |-> <<>>,
   serverinfo |-> <<>>, aborted |-> FALSE, paused |-> FALSE, ended |-> FALSE]

ChargeTo(score, name, points) == Add(score, name, points)

(* prints: the run that opens the frame; immediate repeats count once *)
RECURSIVE Hear(_, _, _)
Hear(said, ms, i) ==
  IF i > Len(ms) \/ ~IsPrint(ms[i]) THEN said
  ELSE LET p == <<Level(PrintLevel(ms[i])), PrintText(ms[i])>>
       IN Hear(IF p[2] = <<>> \/ (said # <<>> /\ said[Len(said)] = p)
               THEN said ELSE Append(said, p), ms, i + 1)

(* is the client in that slot a team mate of the victim? *)
ClientNamed(roster, name) ==
  LET S == {i \in 1..Len(roster) : roster[i][2] = name}
  IN IF S = {} THEN <<>> ELSE roster[MinOf(S)]
ClientIn(roster, slot) ==
  LET S == {i \in 1..Len(roster) : roster[i][1] = slot}
  IN IF S = {} THEN <<>> ELSE roster[MinOf(S)]
Mate(roster, slot, victim) ==
  LET v == ClientNamed(roster, victim) c == ClientIn(roster, slot)
  IN v # <<>> /\ c # <<>> /\ c[3] = v[3] /\ c[2] # victim

(* a non-empty frame whose opening message is `first` passes: unsolved team   *)
(* kills are charged or come closer to being forgotten                        *)
RECURSIVE SolveOpen(_, _, _, _, _)
SolveOpen(tks, roster, first, score, rest) ==
  IF tks = <<>> THEN [score |-> score, rest |-> rest]
  ELSE LET tk == tks[1] IN
       IF first[1] = "frag" /\ Mate(roster, first[2], tk[1])
       THEN SolveOpen(Tail(tks), roster, first,
                      ChargeTo(score, ClientIn(roster, first[2])[2], -1), rest)
       ELSE SolveOpen(Tail(tks), roster, first, score,
                      IF tk[2] > 1 THEN Append(rest, <<tk[1], tk[2] - 1>>) ELSE rest)
(* the obituary that opens the frame, if any *)
Bury(l, ms) ==
  LET m == ms[1] IN
  IF m[1] # "obit" THEN l
  ELSE IF m[2] = "anon"
       THEN IF Len(ms) > 1 /\ ms[2][1] = "frag" /\ Mate(l.roster, ms[2][2], m[4])
            THEN [l EXCEPT !.score = ChargeTo(@, ClientIn(l.roster, ms[2][2])[2], -1)]
            ELSE [l EXCEPT !.open_tks = Append(@, <<m[4], 2>>)]
  ELSE IF m[2] = "kill"
       THEN [l EXCEPT !.score = ChargeTo(@, IF KillPhrases[m[3]].first = "killer"
                                          THEN m[4] ELSE m[5], 1)]
  ELSE [l EXCEPT !.score = ChargeTo(@, m[4], IF m[2] = "suicide" THEN -2 ELSE -1)]
Frag(l, ms) ==
  LET s == SolveOpen(l.open_tks, l.roster, ms[1], l.score, <<>>)
  IN Bury([l EXCEPT !.score = s.score, !.open_tks = s.rest], ms)

(* flag announcements; `line` is the unfinished high-level line *)
RECURSIVE Credit(_, _, _, _)
Credit(flags, ms, i, line) ==
  IF i > Len(ms) THEN flags
  ELSE LET m == ms[i] IN
       IF m[1] = "flag" THEN Credit(Append(flags, <<m[4], m[2]>>), ms, i + 1, <<>>)
       ELSE IF m[1] = "flagtail" THEN Credit(Append(flags, <<line, m[2]>>), ms, i + 1, <<>>)
       ELSE IF IsPrint(m) /\ PrintLevel(m) = 2 /\ PrintText(m) # <<>>
            THEN Credit(flags, ms, i + 1,
                        IF EndsWith(PrintText(m), NL) THEN <<>> ELSE PrintText(m))
            ELSE Credit(flags, ms, i + 1, line)
RECURSIVE LineAfter(_, _, _)
LineAfter(ms, i, line) ==
  IF i > Len(ms) THEN line
  ELSE LET m == ms[i] IN
       IF m[1] = "flagtail" THEN LineAfter(ms, i + 1, <<>>)
       ELSE IF IsPrint(m) /\ PrintLevel(m) = 2 /\ PrintText(m) # <<>>
            THEN LineAfter(ms, i + 1, IF EndsWith(PrintText(m), NL) THEN <<>> ELSE PrintText(m))
            ELSE LineAfter(ms, i + 1, line)

RECURSIVE LeadingPings(_, _)
LeadingPings(ms, i) ==
  IF i > Len(ms) \/ ms[i][1] # "ping" THEN <<>>
  ELSE << <<ms[i][2], ms[i][3]>> >> \o LeadingPings(ms, i + 1)
Sample(l, ms) ==
  LET p == LeadingPings(ms, 1) IN
  IF p = <<>> \/ l.ping_frames = 8 THEN l
  ELSE [l EXCEPT !.ping_frames = @ + 1, !.samples = Append(@, p)]

Present(ms, kind) == \E i \in 1..Len(ms) : ms[i][1] = kind
Datum(ms, kind) == LET i == CHOOSE i \in 1..Len(ms) : ms[i][1] = kind /\
                              \A j \in 1..(i - 1) : ms[j][1] # kind IN ms[i]
Tick(l, ms, dt) ==
  LET now == l.clock + dt
      stby == \E i \in 1..Len(ms) : ms[i] = <<"status", B("Standby")>>
  IN [l EXCEPT !.clock = now,
        !.date_at = IF Present(ms, "date") /\ @ < 0 THEN now ELSE @,
        !.date = IF Present(ms, "date") /\ l.date_at < 0 THEN Datum(ms, "date")[2] ELSE @,
        !.over_at = IF Present(ms, "over") THEN now ELSE @,
        !.standby_at = IF stby THEN now ELSE @]
(* clients announced after the spawn command *)
RECURSIVE Announce(_, _, _)
Announce(l, ms, i) ==
  IF i > Len(ms) THEN l
  ELSE Announce(IF ms[i][1] = "spawn" THEN [l EXCEPT !.spawned = TRUE]
                ELSE IF ms[i][1] = "user" /\ l.spawned
                     THEN [l EXCEPT !.roster = Append(@, ms[i][2])]
                     ELSE l, ms, i + 1)
Note(l, ms) ==
  [l EXCEPT !.aborted = @ \/ Present(ms, "abort"),
            !.paused = @ \/ Present(ms, "pause") \/ Present(ms, "serverpause"),
            !.serverinfo = IF @ = <<>> /\ Present(ms, "serverinfo")
                           THEN <<Datum(ms, "serverinfo")[2]>> ELSE @,
            !.ended = ms # <<>> /\ ms[Len(ms)] = <<"end">>]
Recorded(l, said, dt) ==
  LET ms == IF Hides(said) THEN <<>> ELSE said     \* nobody hears hidden data
      t == Tick(Note(l, ms), ms, dt)
      a == Announce(t, ms, 1)
  IN IF ms = <<>> THEN t
     ELSE Sample(Frag([a EXCEPT !.said = Hear(@, ms, 1), !.flags = Credit(@, ms, 1, <<>>)],
                      ms), ms)

(***************************************************************************)
(* Behaviour                                                               *)
(***************************************************************************)
RECURSIVE PreFile(_, _), PreLedger(_, _, _)
PreFile(p, i) == IF i > Len(p) THEN <<>>
                 ELSE Wrap(p[i][1], p[i][2], p[i][3], p[i][4]) \o PreFile(p, i + 1)
PreLedger(p, i, l) == IF i > Len(p) THEN l
                      ELSE PreLedger(p, i + 1, Recorded(l, p[i][4], p[i][1]))

Init == /\ file = PreFile(Preamble, 1)
        /\ led = PreLedger(Preamble, 1, NoLedger)
        /\ open = <<>> /\ total = 0 /\ frames = 0

(* a name print is only ever continued by a name's tail: a tail needs a line *)
(* and an unfinished line is not continued by another player's announcement   *)
Sensible(m) ==
  LET line == LineAfter(open, 1, <<>>)
  IN /\ m[1] = "flagtail" => line # <<>>
     /\ m[1] = "flag" => line = <<>>
     /\ m[1] = "hidden" => open = <<>>
     /\ ~Hides(open)
     \* the end is announced in a frame of its own, or behind a string
     /\ m[1] = "end" => IF open = <<>> THEN TRUE ELSE Body(open)[Len(Body(open))] = 0
Emit == /\ Len(open) < MaxMsgs /\ total < MaxTotal /\ frames < MaxFrames
        /\ \E m \in Alphabet : /\ Sensible(m)
                               /\ open' = Append(open, m)
        /\ total' = total + 1
        /\ UNCHANGED <<file, frames, led>>
Flush == /\ frames < MaxFrames
         /\ \E fk \in FrameKinds :
              LET carries == fk[2] \in {1, 3, 4, 5, 6} IN
              /\ open # <<>> => carries
              /\ Hides(open) => fk[2] = 3 \/ \A g \in FrameKinds : g[2] # 3
              /\ file' = file \o Wrap(fk[1], fk[2], fk[3], open)
              /\ led' = Recorded(led, open, fk[1])
         /\ open' = <<>>
         /\ frames' = frames + 1
         /\ UNCHANGED total
Next == Emit \/ Flush
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The reader recovers the ledger from the recorded bytes                  *)
(***************************************************************************)
Flushed == open = <<>>
Users0 == Users(file)
PrintsOK == Flushed => Prints(file, Frames(file)) = led.said
FragsOK  == Flushed => Frags(file, Frames(file), Clients(Users0)) = led.score
FlagsOK  == Flushed => FlagCounts(FlagEvents(file, Frames(file))) = FlagCounts(led.flags)
PingsOK  == Flushed =>
  LET r == Pings(PingSamples(file, Frames(file)))
      all == Concat(led.samples)
      mean(n) == LET s == SelectSeq(all, LAMBDA x : x[1] = n)
                 IN SumSeq(Map(s, LAMBDA x : x[2])) \div Len(s)
  IN IF all = <<>> THEN r = Err
     ELSE r = Ok([n \in {all[i][1] : i \in 1..Len(all)} |-> mean(n)])
NoSettings == ServerSettings(ServerinfoText(file))
EndOfMatch(l) == IF l.over_at >= 0 THEN l.over_at
                 ELSE IF l.standby_at >= 0 THEN l.standby_at ELSE l.clock
ClockOK  == Flushed =>
  LET ss == ServerSettings(ServerinfoText(file))
      hoony == led.serverinfo # <<>> /\
               InfoValue(InfoPairs(led.serverinfo[1]), B("mode")) = <<B("hoonymode")>>
      count == IF hoony THEN Ok(0) ELSE IF led.date_at < 0 THEN Err ELSE Ok(led.date_at)
      from == IF hoony \/ led.date_at < 0 THEN 0 ELSE led.date_at
  IN /\ DemoTime(file, Frames(file)) = EndOfMatch(led)
     /\ Countdown(file, Frames(file), ss) = count
     /\ MatchBySeeking(file, Frames(file), ss) = Max2(0, EndOfMatch(led) - from)
RosterOK == Flushed =>
  LET cs == Clients(Users0)
  IN IF ~led.spawned THEN cs = Err
     ELSE cs = Ok(led.roster)
StatusOK == Flushed =>
  /\ IsAborted(file) = led.aborted
  /\ IsPaused(file) = (led.paused /\ ~led.ended)
  /\ HasEnd(file) = led.ended
DateOK == Flushed =>
  LET t == MatchdateText(file)
  IN IF led.date_at < 0 THEN t = Err
     ELSE Len(led.date) \in 22..25 => t = Ok(led.date)
ServerinfoOK == Flushed =>
  LET t == ServerinfoText(file)
  IN IF led.serverinfo = <<>> THEN t = Err
     ELSE t = Err \/ t = Ok(PlainText(led.serverinfo[1]))

(* a torn tail neither adds nor hides anything: cutting the file anywhere      *)
(* leaves exactly the frames that are complete before the cut                  *)
TornOK == Flushed =>
  LET fr == Frames(file) IN
  \A c \in 0..Len(file) :
    LET d == SubSeq(file, 1, c) IN Frames(d) = SelectSeq(fr, LAMBDA f : f.end <= c)

(* growing only appends *)
Grows == [][/\ SubSeq(file', 1, Len(file)) = file
            /\ SubSeq(led'.said, 1, Len(led.said)) = led.said
            /\ led'.clock >= led.clock
            /\ (Flushed /\ led'.over_at = led.over_at /\ led'.standby_at = led.standby_at)
               => EndOfMatch(led') >= EndOfMatch(led)]_vars
=============================================================================
