--------------------------------- MODULE Match --------------------------------
(* A whole match, from the announcement of the server to the end of the demo.  *)
(* The server of Recorder also publishes statistics: a document made from its  *)
(* own books (the ledger), written in JSON and put into numbered blocks.       *)
(* Everything a user can ask about the demo is then stated from the ledger and *)
(* the published document alone.                                               *)
EXTENDS Recorder, Results

VARIABLES pub      \* <<>> or <<document>>: what the last document says
mvars == <<vars, pub>>

(***************************************************************************)
(* Writing JSON                                                            *)
(***************************************************************************)
HexDigits == B("0123456789abcdef")
EscapeU(u) == <<92, 117>> \o Map(<<u \div 4096, (u \div 256) % 16, (u \div 16) % 16, u % 16>>,
                                 LAMBDA x : HexDigits[x + 1])
JChar(u, ascii) ==
  IF u \in {34, 92} THEN <<92, u>>
  ELSE IF u = 10 THEN <<92, 110>>
  ELSE IF u < 32 THEN EscapeU(u)
  ELSE IF u < 128 THEN <<u>>
  ELSE IF ascii THEN EscapeU(u)
  ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
  ELSE <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
JText(s, ascii) == Q \o Concat(Map(s, LAMBDA u : JChar(u, ascii))) \o Q
JInt(n) == IF n < 0 THEN B("-") \o Dec(-n) ELSE Dec(n)
RECURSIVE Commas(_, _)
Commas(parts, sep) == IF parts = <<>> THEN <<>>
                      ELSE IF Len(parts) = 1 THEN parts[1]
                      ELSE parts[1] \o sep \o Commas(Tail(parts), sep)
JMember(name, v) == Q \o B(name) \o Q \o B(": ") \o v
JRecord(ms) == B("{") \o Commas(ms, B(", ")) \o B("}")
JList(vs) == B("[") \o Commas(vs, B(",")) \o B("]")
(* style: [ascii, late]: escapes, and whether a player's name comes last *)
JPlayer(p, style) ==
  LET who == <<JMember("login", JText(p[7], style.ascii)), JMember("name", JText(p[1], style.ascii)),
               JMember("team", JText(p[2], style.ascii))>>
      num == <<JMember("top-color", JInt(p[3][1])), JMember("bottom-color", JInt(p[3][2])),
               JMember("ping", JInt(p[5]))>>
      st == <<JMember("stats", JRecord(<<JMember("frags", JInt(p[4])), JMember("deaths", JInt(3))>>))>>
      bot == IF p[6] THEN <<JMember("bot", JRecord(<<JMember("skill", JInt(7)),
                                                    JMember("customised", B("false"))>>))>>
             ELSE <<>>
  IN JRecord(IF style.late THEN num \o st \o who \o bot ELSE who \o num \o bot \o st)
JDocument(x, style) ==
  B("{") \o JMember("version", JInt(x.version)) \o B(", ")
  \o Commas(<<JMember("date", JText(x.dateText, TRUE)), JMember("map", JText(x.map, style.ascii)),
              JMember("hostname", JText(x.hostname, style.ascii)), JMember("ip", JText(x.ip, TRUE)),
              JMember("port", JInt(x.port)), JMember("mode", JText(x.mode, TRUE)),
              JMember("tl", JInt(x.tl)), JMember("dm", JInt(x.dm)), JMember("tp", JInt(x.tp)),
              JMember("duration", JInt(x.duration)), JMember("demo", JText(x.demo, TRUE)),
              JMember("teams", JList(Map(x.teams, LAMBDA t : JText(t, style.ascii)))),
              JMember("players", JList(Map(x.players, LAMBDA p : JPlayer(p, style))))>>, B(", "))
  \o B("}") \o NL

(***************************************************************************)
(* The server's books                                                      *)
(***************************************************************************)
Playing(l) == SelectSeq(l.roster, LAMBDA c : ~c[5])
ScoreOf(l, name) == IF name \in DOMAIN l.score THEN l.score[name] ELSE 0
SampledPing(l, slot) ==
  LET s == SelectSeq(Concat(l.samples), LAMBDA x : x[1] = slot)
  IN IF s = <<>> THEN 0 ELSE SumSeq(Map(s, LAMBDA x : x[2])) \div Len(s)
Summary(l, seconds, day, map, host) ==
  [version |-> 3, dateText |-> day, map |-> map, hostname |-> host, ip |-> B("10.0.0.7"),
   port |-> 28501, mode |-> B("team"), tl |-> 10, dm |-> 3, tp |-> 2, duration |-> seconds,
   demo |-> B("4on4.mvd"), teams |-> Distinct(Map(Playing(l), LAMBDA c : c[3])),
   players |-> Map(Playing(l), LAMBDA c :
                     <<c[2], c[3], c[4], ScoreOf(l, c[2]), SampledPing(l, c[1]), c[6],
                       IF c[7] = <<>> THEN <<>> ELSE c[7][1]>>)]
AsRead(x) == [k \in (DOMAIN x \ {"dateText"}) \cup {"date"} |->
                IF k = "date" THEN Val(DateOfDoc(x.dateText)) ELSE x[k]]

(* the document's frames: cut at the given places *)
RECURSIVE InBlocks(_, _, _, _)
InBlocks(t, from, cuts, k) ==
  IF cuts = <<>> THEN BlockFrame(0, 3, 0, Sub(t, from, Len(t)))
  ELSE BlockFrame(0, 3, k, Sub(t, from, cuts[1])) \o InBlocks(t, cuts[1], Tail(cuts), k + 1)

(***************************************************************************)
(* What a user learns, from the books                                      *)
(***************************************************************************)
(* the ranking: a permutation, best first, ties by name *)
IsRanking(ps, members) ==
  /\ SameBag(ps, members)
  /\ \A i \in 1..(Len(ps) - 1) : ps[i][4] > ps[i + 1][4]
                                 \/ (ps[i][4] = ps[i + 1][4] /\ SeqLE(ps[i][1], ps[i + 1][1]))
BookPlayers(l) == Map(Playing(l), LAMBDA c : <<c[2], c[3], c[4], ScoreOf(l, c[2]),
                                               SampledPing(l, c[1]), c[6], c[7], c[8]>>)
DocPlayers(x) == Map(x.players, LAMBDA p :
  <<p[1], p[2], p[3], p[4], p[5], p[6] \/ p[5] = 10, IF p[7] = <<>> THEN <<>> ELSE <<p[7]>>, <<>>>>)
E0 == Expected(file, Frames(file))
PlayersOK == Flushed =>
  LET r == E0 IN
  /\ IF led.spawned /\ led.samples # <<>>
     THEN "ok" \in DOMAIN r.players_parsing /\ IsRanking(r.players_parsing.ok, BookPlayers(led))
     ELSE "err" \in DOMAIN r.players_parsing
  /\ IF pub = <<>> THEN r.players = r.players_parsing
     ELSE "ok" \in DOMAIN r.players /\ IsRanking(r.players.ok, DocPlayers(pub[1]))
TeamsOK == Flushed =>
  LET r == E0
      members == IF pub # <<>> THEN DocPlayers(pub[1])
                 ELSE IF led.spawned /\ led.samples # <<>> THEN BookPlayers(led) ELSE <<>>
  IN members # <<>> =>
     \A t \in Range(r.teams.ok) :
        /\ t[3] = SumSeq(Map(SelectSeq(members, LAMBDA p : p[2] = t[1]), LAMBDA p : p[4]))
        /\ Len(t[5]) = Count(members, LAMBDA p : p[2] = t[1])
DocumentOK == Flushed =>
  LET r == E0 IN
  IF pub = <<>> THEN "err" \in DOMAIN r.ktx_v3 /\ "err" \in DOMAIN r.server
  ELSE /\ r.ktx_v3 = [ok |-> AsRead(pub[1])]
       /\ r.server.ok[2] = B("10.0.0.7:28501")
       /\ r.match_ktx = [ok |-> <<pub[1].duration, 0>>]
MatchTimeOK == Flushed =>
  LET r == E0
      hoony == led.serverinfo # <<>> /\
               InfoValue(InfoPairs(led.serverinfo[1]), B("mode")) = <<B("hoonymode")>>
      sec(n) == [ok |-> <<n \div 1000, (n % 1000) * 1000000>>]
      seek == Max2(0, EndOfMatch(led) - (IF hoony \/ led.date_at < 0 THEN 0 ELSE led.date_at))
  IN r.match_dur = IF pub # <<>> /\ ~hoony THEN sec(pub[1].duration * 1000) ELSE sec(seek)
WhenOK == Flushed =>
  LET r == E0
      ep == IF led.serverinfo = <<>> THEN <<>>
            ELSE AsInt(InfoValue(InfoPairs(led.serverinfo[1]), B("epoch")))
  IN ep # <<>> => r.timestamp = [ok |-> <<ep[1] \div 86400, ep[1] % 86400>>]
NamesOK == Flushed =>
  LET r == E0
      names(p(_)) == {c[2] : c \in {x \in Range(led.roster) : p(x)}}
  IN led.spawned =>
     /\ Range(r.player_names.ok) = names(LAMBDA c : ~c[5])
     /\ Range(r.spectator_names.ok) = names(LAMBDA c : c[5])
     /\ Len(r.player_names.ok) + Len(r.spectator_names.ok) = Len(led.roster)
     /\ Range(r.team_names.ok) = {c[3] : c \in Range(Playing(led))}
     /\ r.has_bot.ok = ((\E c \in Range(Playing(led)) : c[6])
                        \/ (pub # <<>> /\ \E p \in Range(pub[1].players) : p[6]))
     /\ r.has_human.ok = (\E c \in Range(Playing(led)) : ~c[6])
ValidOK == Flushed =>
  LET r == E0 IN
  r.valid.ok = (led.ended /\ led.roster # <<>> /\ "ok" \in DOMAIN r.serverinfo /\ Len(file) >= 1024)
CoherentOK == Flushed => Coherent(file)
=============================================================================
