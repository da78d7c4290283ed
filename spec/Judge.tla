-------------------------------- MODULE Judge --------------------------------
(* What may be returned.  A result is recorded as [ok |-> value] or            *)
(* [err |-> text]; `Wrong` names the results that differ from the reader        *)
(* specification, `WrongJointly` the relations between results that fail.       *)
EXTENDS KtxStats

Returned(x) == "ok" \in DOMAIN x \/ "err" \in DOMAIN x

(* one recorded result against one expected result *)
Is(x, exp) ==
  IF exp[1] = "ok" THEN "ok" \in DOMAIN x /\ x.ok = exp[2]
  ELSE IF exp[1] = "err" THEN "err" \in DOMAIN x
  ELSE IF exp[1] = "lenient" THEN "err" \in DOMAIN x \/ ("ok" \in DOMAIN x /\ x.ok[2] = exp[2])
  ELSE Returned(x)
Ms(exp) == IF IsOk(exp) THEN Ok(<<Val(exp) \div 1000, (Val(exp) % 1000) * 1000000>>) ELSE exp
IsMap(x, f) ==
  /\ "ok" \in DOMAIN x
  /\ Range(x.ok) = {<<n, f[n]>> : n \in DOMAIN f}
  /\ Len(x.ok) = Cardinality(DOMAIN f)
IsIf(x, r, P(_, _)) == \* r: expected Ok/Err, P relates the recorded and expected value
  IF IsOk(r) THEN "ok" \in DOMAIN x /\ P(x.ok, Val(r)) ELSE "err" \in DOMAIN x
Joined(a, b) == IF IsOk(a) THEN a ELSE b

(* the structured statistics of a text *)
Structured(kt) == IF IsOk(kt) THEN Document(Val(kt)) ELSE Err
(* the recorded structured statistics, as Ok(record) or Err *)
StatsOf(r) == IF "ok" \in DOMAIN r.ktx_v3 THEN Ok(r.ktx_v3.ok) ELSE Err
PlayersOf(xs) == IF IsOk(xs) THEN Val(xs).players ELSE <<>>
KnowsStats(e) == "know" \in DOMAIN e /\ "stats" \in DOMAIN e.know
KnowsUnusable(e) == "know" \in DOMAIN e /\ "unusable" \in DOMAIN e.know

(* the server of a document: name, address, ip, port (ports are recorded up to *)
(* 2^31 - 1: beyond, the digits in the address are not compared)               *)
IsServer(v, s) ==
  /\ v[1] = s.hostname /\ v[3] = s.ip /\ v[4] = s.port
  /\ LET a == s.ip \o B(":") IN
     IF s.port < 2147483647 THEN v[2] = a \o B(ToString(s.port)) ELSE SubSeq(v[2], 1, Len(a)) = a

(* what is wrong with the results r of the calls made on data d *)
Wrong(e, d, fr, r) ==
  LET us == Users(d)
      cs == Clients(us)
      pc == PlayerClients(cs)
      sc == SpectatorClients(cs)
      st == ServerinfoText(d)
      ss == ServerSettings(st)
      kt == StatsText(d)
      md == MatchdateOf(MatchdateText(d))
      ep == EpochTime(ss)
      fg == Frags(d, fr, cs)
      pg == Pings(PingSamples(d, fr))
      xs == StatsOf(r)
      rosterPlayers == PlayersFromRoster(pc, fg, pg)
      statPlayers == IF IsOk(xs) THEN Ok(PlayersFromStats(Val(xs).players)) ELSE Err
      anyPlayers == Joined(statPlayers, rosterPlayers)
      mk == MatchByStats(kt)
      ms == Ok(MatchBySeeking(d, fr, ss))
      namesOf(c) == IF IsOk(c) THEN Ok(Map(Val(c), LAMBDA x : x[2])) ELSE Err
      good(f) == LET x == r[f] IN
        CASE f = "prints" -> Is(x, Ok(Prints(d, fr)))
          [] f = "frags" -> IsMap(x, fg)
          [] f = "flags" -> IsMap(x, FlagCounts(FlagEvents(d, fr)))
          [] f = "pings" -> IF IsOk(pg) THEN IsMap(x, Val(pg)) ELSE "err" \in DOMAIN x
          [] f = "countdown" -> Is(x, Ms(Countdown(d, fr, ss)))
          [] f = "demo_dur" -> Is(x, Ms(Ok(DemoTime(d, fr))))
          [] f = "match_seek" -> Is(x, Ms(ms))
          [] f = "match_ktx" -> Is(x, Ms(mk))
          [] f = "match_dur" -> IF Hoony(ss) THEN Is(x, Ms(ms))
                                ELSE IF mk = Unspecified
                                THEN Is(x, Ms(ms)) \/ ("match_ktx" \in DOMAIN r /\ x = r.match_ktx)
                                ELSE Is(x, Ms(Joined(mk, ms)))
          [] f = "clientinfo" -> Is(x, UserInfos(us))
          [] f = "clientinfo_strings" -> Is(x, UserStrings(us))
          [] f = "clients" -> Is(x, cs)
          [] f = "player_clients" -> Is(x, pc)
          [] f = "spectator_clients" -> Is(x, sc)
          [] f = "player_names" -> IsIf(x, namesOf(pc), IsNameList)
          [] f = "spectator_names" -> IsIf(x, namesOf(sc), IsNameList)
          [] f = "team_names" -> IsIf(x, pc, IsTeamNameList)
          [] f = "has_bot" -> IsIf(x, pc, LAMBDA a, b : a = HasBot(b, PlayersOf(xs)))
          [] f = "has_human" -> IsIf(x, pc, LAMBDA a, b : a = HasHuman(b))
          [] f = "players" -> Is(x, anyPlayers)
          [] f = "players_parsing" -> Is(x, rosterPlayers)
          [] f = "players_ktx" -> Is(x, statPlayers)
          [] f = "teams" -> IsIf(x, anyPlayers, IsTeams)
          [] f = "teams_ktx" -> IsIf(x, statPlayers, IsTeams)
          [] f = "ktx_string" -> Is(x, kt)
          [] f = "ktx_v3" -> /\ Is(x, Structured(kt))
                             /\ KnowsUnusable(e) => "err" \in DOMAIN x
                             /\ (KnowsStats(e) /\ IsOk(kt)) =>
                                  /\ "ok" \in DOMAIN x
                                  /\ \A key \in DOMAIN e.know.stats : x.ok[key] = e.know.stats[key]
          [] f = "server" -> IF IsOk(xs)
                             THEN "ok" \in DOMAIN x /\ IsServer(x.ok, Val(xs))
                             ELSE "err" \in DOMAIN x
          [] f = "serverinfo_string" -> Is(x, st)
          [] f = "serverinfo" -> Is(x, ss)
          [] f = "filename" -> LET v == Setting(ss, B("serverdemo"))
                               IN Is(x, IF v = <<>> THEN Err ELSE Ok(v[1]))
          [] f = "valid" -> Is(x, Ok(IsValid(d, st, us)))
          [] f = "has_clients" -> Is(x, Ok(HasClients(us)))
          [] f = "has_end" -> Len(d) = 12 \/ Is(x, Ok(HasEnd(d)))     \* the mark alone is not a recording
          [] f = "aborted" -> Is(x, Ok(IsAborted(d)))
          [] f = "paused" -> Is(x, Ok(IsPaused(d)))
          [] f = "timestamp" -> Is(x, Timestamp(ep, md))
          [] f = "ts_epoch" -> Is(x, ep)
          [] f = "matchdate" -> Is(x, md)
          [] f = "matchdate_string" -> Is(x, MatchdateText(d))
          [] OTHER -> FALSE
  IN {f \in DOMAIN r : ~good(f)}

(* calls on explicit player lists; `team`: all of them as one team, named after *)
(* the first (players of other teams are not told apart)                        *)
IsOneTeam(t, ps) ==
  IF ps = <<>> THEN t = << <<>>, <<0, 0>>, 0, 0, <<>> >>
  ELSE LET name == ps[1][2]
           s == TeamOf(name, Map(ps, LAMBDA p : [p EXCEPT ![2] = name]))
       IN t[1] = name /\ t[2] \in s.colors /\ t[3] = s.frags /\ t[4] = s.ping /\ t[5] = ps
WrongForPlayers(e) ==
  {f \in DOMAIN e.r :
     LET x == e.r[f] IN
     ~(CASE f = "teams" -> "ok" \in DOMAIN x /\ IsTeams(x.ok, e.players)
         [] f = "team" -> "ok" \in DOMAIN x /\ IsOneTeam(x.ok, e.players)
         [] f = "players_sorted" -> Is(x, Ok(SortBy(e.players, PlayerLE)))
         [] OTHER -> FALSE)}

(* relations between the views of one demo: every derived result against the  *)
(* recorded results it is derived from (e.know only tells what a generated     *)
(* document says about its duration)                                           *)
Result(x) == IF "ok" \in DOMAIN x THEN Ok(x.ok) ELSE Err
MapOf(pairs) == [n \in {pairs[i][1] : i \in 1..Len(pairs)} |->
                   (CHOOSE i \in 1..Len(pairs) : pairs[i][1] = n)]
FunOf(pairs) == LET ix == MapOf(pairs) IN [n \in DOMAIN ix |-> pairs[ix[n]][2]]
WrongJointly(e, len, r) ==
  LET okay(f) == "ok" \in DOMAIN r[f]
      pc == Result(r.player_clients)
      ss == Result(r.serverinfo)
      kt == Result(r.ktx_string)
      xs == Result(r.ktx_v3)
      numbered == IF okay("clients") /\ okay("clientinfo_strings")
                  THEN Tuple([i \in 1..Min2(Len(r.clients.ok), Len(r.clientinfo_strings.ok)) |->
                                <<r.clients.ok[i][1], r.clientinfo_strings.ok[i]>>])
                  ELSE <<>>
      rel ==
       [teams_partition_players |->
          /\ okay("teams") = okay("players")
          /\ okay("players") =>
               LET ps == r.players.ok ts == r.teams.ok
               IN /\ SameBag(Concat(Map(ts, LAMBDA t : t[5])), ps)
                  /\ SumSeq(Map(ts, LAMBDA t : t[3])) = SumSeq(Map(ps, LAMBDA p : p[4]))
                  /\ IsTeams(ts, ps),
        players_source |->
          /\ okay("ktx_v3") => r.players = r.players_ktx /\ r.teams = r.teams_ktx
          /\ ~okay("ktx_v3") => r.players = r.players_parsing
          /\ okay("server") = okay("ktx_v3") /\ okay("players_ktx") = okay("ktx_v3")
          /\ okay("teams_ktx") = okay("ktx_v3"),
        players_are_roster |->
          /\ (~okay("ktx_v3") /\ okay("players") /\ okay("player_clients")) =>
               SameBag(Map(r.players.ok, LAMBDA p : <<p[1], p[2], p[3], p[6], p[7], p[8]>>),
                       Map(r.player_clients.ok, LAMBDA c : <<c[2], c[3], c[4], c[6], c[7], c[8]>>))
          /\ okay("frags") =>
               Is(r.players_parsing,
                  PlayersFromRoster(pc, FunOf(r.frags.ok),
                                    IF okay("pings") THEN Ok(FunOf(r.pings.ok)) ELSE Err)),
        document_read |-> Is(r.ktx_v3, Structured(kt)),
        one_document |->
          okay("ktx_v3") => /\ okay("ktx_string")
                            /\ IsServer(r.server.ok, Val(xs))
                            /\ Is(r.players_ktx, Ok(PlayersFromStats(Val(xs).players)))
                            /\ IsTeams(r.teams_ktx.ok, r.players_ktx.ok),
        document_duration |->
          /\ Is(r.match_ktx, Ms(MatchByStats(kt)))
          /\ (KnowsStats(e) /\ okay("ktx_v3") /\ okay("match_ktx"))
               => r.match_ktx.ok = <<Val(xs).duration, 0>>,
        clients_partition |->
          /\ okay("clients") =>
             /\ okay("player_clients") /\ okay("spectator_clients")
             /\ r.player_clients.ok = SelectSeq(r.clients.ok, LAMBDA c : ~c[5])
             /\ r.spectator_clients.ok = SelectSeq(r.clients.ok, LAMBDA c : c[5])
             /\ Len(r.clients.ok) = Len(r.clientinfo.ok)
             /\ Len(r.clientinfo.ok) = Len(r.clientinfo_strings.ok)
             /\ Ok(r.clients.ok) = Clients(Ok(numbered))
             /\ Ok(r.clientinfo.ok) = UserInfos(Ok(numbered))
          /\ \A f \in {"player_clients", "spectator_clients", "player_names", "spectator_names", "team_names",
                       "has_bot", "has_human", "clientinfo", "clientinfo_strings"} : okay(f) = okay("clients"),
        names |->
          okay("clients") =>
             /\ IsNameList(r.player_names.ok, Map(r.player_clients.ok, LAMBDA c : c[2]))
             /\ IsNameList(r.spectator_names.ok, Map(r.spectator_clients.ok, LAMBDA c : c[2]))
             /\ IsTeamNameList(r.team_names.ok, r.player_clients.ok)
             /\ r.has_human.ok = HasHuman(r.player_clients.ok)
             /\ r.has_bot.ok = HasBot(r.player_clients.ok, PlayersOf(xs)),
        validity |->
          /\ r.valid.ok => /\ r.has_clients.ok /\ r.has_end.ok /\ okay("serverinfo")
                           /\ ~r.paused.ok
          /\ (r.has_clients.ok /\ r.has_end.ok /\ okay("serverinfo") /\ len >= 1024) => r.valid.ok
          /\ r.has_end.ok => ~r.paused.ok
          /\ r.has_clients.ok = (okay("clients") /\ r.clients.ok # <<>>),
        duration_source |->
          /\ okay("match_dur") /\ okay("match_seek") /\ okay("demo_dur")
          /\ IF Hoony(ss) \/ ~okay("match_ktx") THEN r.match_dur = r.match_seek ELSE r.match_dur = r.match_ktx
          /\ okay("match_ktx") => okay("ktx_string")
          /\ LET m == r.match_seek.ok t == r.demo_dur.ok c == r.countdown
                 \* milliseconds; recordings beyond 20 days are not compared exactly
                 ms(x) == x[1] * 1000 + x[2] \div 1000000
                 small == t[1] < 2000000 /\ (okay("countdown") => c.ok[1] < 2000000)
             IN /\ m[1] < t[1] \/ (m[1] = t[1] /\ m[2] <= t[2])
                /\ small => ms(m) = Max2(0, ms(t) - (IF okay("countdown") THEN ms(c.ok) ELSE 0))
          /\ Hoony(ss) => okay("countdown") /\ r.countdown.ok = <<0, 0>>,
        timestamp_source |->
          /\ IF okay("ts_epoch") THEN r.timestamp = r.ts_epoch ELSE Result(r.timestamp) = Result(r.matchdate)
          /\ Is(r.ts_epoch, EpochTime(ss))
          /\ Is(r.matchdate, MatchdateOf(Result(r.matchdate_string))),
        settings |->
          /\ Is(r.serverinfo, ServerSettings(Result(r.serverinfo_string)))
          /\ LET v == Setting(ss, B("serverdemo"))
             IN Is(r.filename, IF v = <<>> THEN Err ELSE Ok(v[1]))]
  IN {f \in DOMAIN rel : ~rel[f]}
=============================================================================
