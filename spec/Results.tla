-------------------------------- MODULE Results -------------------------------
(* What the functions return for a demo, in the form in which results are      *)
(* recorded: the specification as a reference implementation.                  *)
EXTENDS Judge

(* the team list as a server operator would write it *)
TeamList(q) ==
  LET names == {q[i][2] : i \in 1..Len(q)}
      RECURSIVE Sorted(_)
      Sorted(S) == IF S = {} THEN <<>>
                   ELSE LET m == CHOOSE x \in S : \A y \in S :
                                   SeqLT(LowerKey(x), LowerKey(y))
                                   \/ (LowerKey(x) = LowerKey(y) /\ SeqLE(x, y))
                        IN <<m>> \o Sorted(S \ {m})
      row(n) == LET t == TeamOf(n, q)
                IN <<n, CHOOSE c \in t.colors : TRUE, t.frags, t.ping, t.players>>
  IN Map(Sorted(names), row)
NameList(ns) == SortBy(ns, LAMBDA a, b : SeqLE(VisibleKey(a), VisibleKey(b)))
RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>>
               ELSE <<s[1]>> \o Distinct(SelectSeq(Tail(s), LAMBDA x : x # s[1]))

Rec(r) == IF IsOk(r) THEN [ok |-> Val(r)] ELSE [err |-> "error"]
Recorded0(v) == [ok |-> v]
If(r, Op(_)) == IF IsOk(r) THEN Ok(Op(Val(r))) ELSE Err
Pairs(f) == Map(SX!SetToSeq(DOMAIN f), LAMBDA n : <<n, f[n]>>)

Expected(d, fr) ==
  LET us == Users(d)
      cs == Clients(us)
      pc == PlayerClients(cs)
      sc == SpectatorClients(cs)
      st == ServerinfoText(d)
      ss == ServerSettings(st)
      kt == StatsText(d)
      md == MatchdateOf(MatchdateText(d))
      ep == EpochTime(ss)
      fg == Frags(d, fr, cs)
      pg == Pings(PingSamples(d, fr))
      xs == Structured(kt)
      sp == If(xs, LAMBDA x : PlayersFromStats(x.players))
      rp == PlayersFromRoster(pc, fg, pg)
      ap == Joined(sp, rp)
      mk == MatchByStats(kt)
      ms == Ok(MatchBySeeking(d, fr, ss))
      demo == Setting(ss, B("serverdemo"))
      n2(x) == x[2]
      n3(x) == x[3]
  IN [prints |-> Recorded0(Prints(d, fr)),
      frags |-> Recorded0(Pairs(fg)),
      flags |-> Recorded0(Pairs(FlagCounts(FlagEvents(d, fr)))),
      pings |-> Rec(If(pg, Pairs)),
      countdown |-> Rec(Ms(Countdown(d, fr, ss))),
      demo_dur |-> Rec(Ms(Ok(DemoTime(d, fr)))),
      match_seek |-> Rec(Ms(ms)),
      match_ktx |-> Rec(Ms(mk)),
      match_dur |-> Rec(Ms(IF Hoony(ss) THEN ms ELSE Joined(mk, ms))),
      clientinfo |-> Rec(UserInfos(us)),
      clientinfo_strings |-> Rec(UserStrings(us)),
      clients |-> Rec(cs),
      player_clients |-> Rec(pc),
      spectator_clients |-> Rec(sc),
      player_names |-> Rec(If(pc, LAMBDA c : NameList(Map(c, n2)))),
      spectator_names |-> Rec(If(sc, LAMBDA c : NameList(Map(c, n2)))),
      team_names |-> Rec(If(pc, LAMBDA c : NameList(Distinct(Map(c, n3))))),
      has_bot |-> Rec(If(pc, LAMBDA c : HasBot(c, PlayersOf(xs)))),
      has_human |-> Rec(If(pc, HasHuman)),
      players |-> Rec(ap),
      players_parsing |-> Rec(rp),
      players_ktx |-> Rec(sp),
      teams |-> Rec(If(ap, TeamList)),
      teams_ktx |-> Rec(If(sp, TeamList)),
      ktx_string |-> Rec(kt),
      ktx_v3 |-> Rec(xs),
      server |-> Rec(If(xs, LAMBDA s : <<s.hostname, s.ip \o B(":") \o B(ToString(s.port)), s.ip,
                                         s.port>>)),
      serverinfo_string |-> Rec(st),
      serverinfo |-> Rec(ss),
      filename |-> Rec(IF demo = <<>> THEN Err ELSE Ok(demo[1])),
      valid |-> Recorded0(IsValid(d, st, us)),
      has_clients |-> Recorded0(HasClients(us)),
      has_end |-> Recorded0(HasEnd(d)),
      aborted |-> Recorded0(IsAborted(d)),
      paused |-> Recorded0(IsPaused(d)),
      timestamp |-> Rec(Timestamp(ep, md)),
      ts_epoch |-> Rec(ep),
      matchdate |-> Rec(md),
      matchdate_string |-> Rec(MatchdateText(d))]
(* the results are acceptable one by one and together *)
Coherent(d) ==
  LET fr == Frames(d) r == Expected(d, fr) e == [kind |-> "model"]
  IN Wrong(e, d, fr, r) = {} /\ WrongJointly(e, Len(d), r) = {}
=============================================================================
