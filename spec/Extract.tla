------------------------------- MODULE Extract -------------------------------
(* The reader: what every extraction function returns for a byte string.     *)
(* Results are records <<"ok", v>> or <<"err">>.                             *)
EXTENDS Tables

Ok(v)  == <<"ok", v>>
Err    == <<"err">>
IsOk(r) == r[1] = "ok"
Val(r) == r[2]

(***************************************************************************)
(* Frames                                                                  *)
(*   [time delta][header][4 more bytes if multi][length if read][body]     *)
(* The 4 bytes are the recipients; a frame for multiple clients without any  *)
(* recipient carries hidden data and no messages.                            *)
(***************************************************************************)
NoFrame == [ok |-> FALSE]
FrameAt(d, i) ==
  LET n == Len(d) IN
  IF i + 2 > n THEN NoFrame
  ELSE LET t   == d[i + 2] % 8
           pre == IF t = 3 THEN 6 ELSE 2
           rd  == t \in {1, 3, 4, 5, 6}
           hdr == IF rd THEN pre + 4 ELSE pre
       IN IF i + hdr > n THEN NoFrame
          ELSE LET size == IF rd THEN U32(d, i + pre) ELSE IF t = 2 THEN 8 ELSE 0
               IN IF size > n - i - hdr THEN NoFrame
                  ELSE [ok |-> TRUE, at |-> i, dur |-> d[i + 1], body |-> i + hdr,
                        end |-> i + hdr + size,
                        hid |-> t = 3 /\ \A k \in 3..6 : d[i + k] = 0]

RECURSIVE WalkChunk(_, _, _, _)
WalkChunk(d, i, acc, left) ==
  LET f == FrameAt(d, i) IN
  IF left = 0 THEN [next |-> i, fr |-> acc, more |-> TRUE]
  ELSE IF ~f.ok THEN [next |-> i, fr |-> acc, more |-> FALSE]
  ELSE WalkChunk(d, f.end, Append(acc, f), left - 1)
RECURSIVE WalkAll(_, _, _)
WalkAll(d, i, acc) ==
  LET c == WalkChunk(d, i, <<>>, 250)
  IN IF c.more THEN WalkAll(d, c.next, Append(acc, c.fr)) ELSE Append(acc, c.fr)
Frames(d) == Concat(WalkAll(d, 0, <<>>))

NonEmpty(f) == f.end > f.body /\ ~f.hid
OpensWith(d, f, t) == NonEmpty(f) /\ d[f.body + 1] = t
WalkEnd(fr) == IF fr = <<>> THEN 0 ELSE fr[Len(fr)].end

(***************************************************************************)
(* Prints                                                                  *)
(***************************************************************************)
Level(b) == IF b \in 0..3 THEN b ELSE 9

(* the run of print messages from offset p to the end e of the frame *)
RECURSIVE PrintRun(_, _, _)
PrintRun(d, p, e) ==
  IF p + 1 >= e \/ d[p + 1] # 8 THEN <<>>
  ELSE LET z == FirstByte(d, 0, p + 2, e)
       IN IF z < 0 THEN <<>>
          ELSE (IF z = p + 2 THEN <<>> ELSE << <<Level(d[p + 2]), Sub(d, p + 2, z)>> >>)
               \o PrintRun(d, z + 1, e)

AllPrints(d, fr) ==
  LET pf == SelectSeq(fr, LAMBDA f : OpensWith(d, f, 8))
  IN Concat(Tuple([k \in 1..Len(pf) |-> PrintRun(d, pf[k].body, pf[k].end)]))

MergeRepeats(s) ==
  LET keep == SelectSeq(Tuple([i \in 1..Len(s) |-> i]), LAMBDA i : i = 1 \/ s[i] # s[i - 1])
  IN Tuple([k \in 1..Len(keep) |-> s[keep[k]]])
Prints(d, fr) == MergeRepeats(AllPrints(d, fr))

(***************************************************************************)
(* Userinfo strings and info strings                                       *)
(***************************************************************************)
RECURSIVE CollapseBackslashes(_, _, _)
CollapseBackslashes(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] = 92 /\ i < Len(s) /\ s[i + 1] = 92
       THEN CollapseBackslashes(s, i + 2, Append(acc, 92))
       ELSE CollapseBackslashes(s, i + 1, Append(acc, s[i]))
CleanInfo(s) ==
  LET a == TrimEndAll(Trim(s), <<92, 110>>)
      b == IF Contains(a, <<92, 92>>) THEN CollapseBackslashes(a, 1, <<>>) ELSE a
  IN TrimByte(TrimEndByte(Without(b, 34), 92), 92)
InfoPairs(s) ==
  LET parts == Split(CleanInfo(s), 92)
  IN Tuple([k \in 1..(Len(parts) \div 2) |-> <<parts[2 * k - 1], parts[2 * k]>>])
(* the value of a key: of its last occurrence; as an option: <<>> or <<v>> *)
InfoValue(pairs, key) ==
  LET S == {k \in 1..Len(pairs) : pairs[k][1] = key}
  IN IF S = {} THEN <<>> ELSE <<pairs[MaxOf(S)][2]>>
AsInt(opt) ==
  IF opt = <<>> THEN <<>> ELSE ParseI32(opt[1])
InfoFields(s, keys) ==
  LET pairs == InfoPairs(s)
  IN Tuple([k \in 1..Len(keys) |->
       LET v == InfoValue(pairs, keys[k][1])
       IN IF keys[k][2] = "i" THEN AsInt(v) ELSE v])
OrElse(opt, default) == IF opt = <<>> THEN default ELSE opt[1]

(* the userinfo strings after "cmd spawn", each with its player slot *)
RECURSIVE ScanUsers(_, _, _, _)
ScanUsers(d, off, max, acc) ==
  LET w == FindIn(d, NameKeyMark, off, Min2(Len(d), off + 512)) IN
  IF w < 0 THEN acc
  ELSE LET z  == LastByte(d, 0, Max2(0, w - 260), w)
           fr == z + 1
           to == FirstByte(d, 0, fr, Min2(Len(d), fr + 258))
       IN IF z < 0 \/ to < 0 \/ to - fr \notin 7..256 THEN acc
          ELSE LET slot == IF fr >= 6 /\ d[fr - 5] = 40 THEN d[fr - 4] ELSE Len(acc) % 256
                   acc2 == Append(acc, <<slot, Sub(d, fr, to)>>)
               IN IF to >= max THEN acc2 ELSE ScanUsers(d, to, max, acc2)
Users(d) ==
  LET off == Find(d, CmdSpawnMark)
  IN IF off < 0 THEN Err ELSE Ok(ScanUsers(d, off, off + 24 * 512, <<>>))

UserStrings(us) == IF IsOk(us) THEN Ok(Map(Val(us), LAMBDA u : u[2])) ELSE Err
UserInfos(us) ==
  IF IsOk(us) THEN Ok(Map(Val(us), LAMBDA u : InfoFields(u[2], UserKeys))) ELSE Err
(* client: number, name, team, colors, spectator, bot, auth, country *)
ClientOf(u) ==
  LET i == InfoFields(u[2], UserKeys)
      nz(o) == o # <<>> /\ o[1] # 0
  IN <<u[1], OrElse(i[1], <<>>), OrElse(i[2], <<>>),
       <<OrElse(i[3], 0) % 256, OrElse(i[4], 0) % 256>>, nz(i[5]), nz(i[9]), i[6], i[7]>>
Clients(us) == IF IsOk(us) THEN Ok(Map(Val(us), ClientOf)) ELSE Err
PlayerClients(cs) == IF IsOk(cs) THEN Ok(SelectSeq(Val(cs), LAMBDA c : ~c[5])) ELSE Err
SpectatorClients(cs) == IF IsOk(cs) THEN Ok(SelectSeq(Val(cs), LAMBDA c : c[5])) ELSE Err

(***************************************************************************)
(* Frags                                                                   *)
(***************************************************************************)
(* offset of the first of the phrases (in table order) that occurs in t *)
PhraseAt(t, sp, phrases) ==
  LET hit(p) == {s \in sp : s + Len(p) <= Len(t) /\ MatchAt(t, p, s)}
      S == {k \in 1..Len(phrases) : hit(phrases[k]) # {}}
  IN IF S = {} THEN -1 ELSE MinOf(hit(phrases[MinOf(S)]))
(* <<x, y>> if t reads x mid y post.., else <<>> *)
KillMatch(t, k) ==
  LET p == KillPhrases[k]
      m == Find(t, p.mid)
      from == m + Len(p.mid)
      q == IF m < 0 THEN -1
           ELSE IF p.post = <<>> THEN Len(t) ELSE FindIn(t, p.post, from, Len(t))
  IN IF q < 0 THEN <<>> ELSE <<Sub(t, 0, m), Sub(t, from, q)>>
(* the event an obituary states: <<kind, name>> or <<"none">> *)
Obituary(t) ==
  LET sp == {i \in 0..(Len(t) - 1) : t[i + 1] = 32}
      d  == PhraseAt(t, sp, DeathPhrases)
      o  == PhraseAt(t, sp, OwnWeaponPhrases)
      k  == PhraseAt(t, sp, TeamkillPhrases)
      a  == PhraseAt(t, sp, AnonTeamkillPhrases)
      K  == {j \in 1..Len(KillPhrases) : KillMatch(t, j) # <<>>}
  IN IF d >= 0 THEN <<"death", Sub(t, 0, d)>>
     ELSE IF o >= 0 THEN <<"ownweapon", Sub(t, 0, o)>>
     ELSE IF EndsWith(t, SuicidePhrase) THEN <<"suicide", TrimEndAll(t, SuicidePhrase)>>
     ELSE IF k >= 0 THEN <<"teamkill", Sub(t, 0, k)>>
     ELSE IF a >= 0 THEN <<"anonteamkill", Sub(t, 0, a)>>
     ELSE IF K = {} THEN <<"none">>
     ELSE LET j == MinOf(K) xy == KillMatch(t, j)
          IN <<"kill", IF KillPhrases[j].first = "killer" THEN xy[1] ELSE xy[2]>>
Points(kind) == IF kind = "kill" THEN 1 ELSE IF kind = "suicide" THEN -2 ELSE -1

(* the print that opens frame f, if it is a complete, non-empty medium print *)
OpeningObituary(d, f) ==
  IF f.hid \/ f.end - f.body < 4 \/ d[f.body + 1] # 8 \/ d[f.body + 2] # 1 THEN <<>>
  ELSE LET z == FirstByte(d, 0, f.body + 2, f.end)
       IN IF z <= f.body + 2 THEN <<>> ELSE <<Sub(d, f.body + 2, z), z + 1>>

FragUpdateAt(d, p, e) == IF p + 4 <= e /\ d[p + 1] = 14 THEN <<d[p + 2]>> ELSE <<>>
RECURSIVE NextNonEmpty(_, _)
NextNonEmpty(fr, j) == IF j > Len(fr) THEN 0
                       ELSE IF NonEmpty(fr[j]) THEN j ELSE NextNonEmpty(fr, j + 1)
(* player numbers of the frag updates that follow the obituary in frame j *)
NearbyUpdates(d, fr, j, afterPrint) ==
  LET j2 == NextNonEmpty(fr, j + 1)
      j3 == IF j2 = 0 THEN 0 ELSE NextNonEmpty(fr, j2 + 1)
      upd(k) == IF k = 0 THEN <<>> ELSE FragUpdateAt(d, fr[k].body, fr[k].end)
  IN FragUpdateAt(d, afterPrint, fr[j].end) \o upd(j2) \o upd(j3)
(* the charged team mate: <<name>> or <<>> *)
TeamKiller(cs, victim, nums) ==
  LET V == {i \in 1..Len(cs) : cs[i][2] = victim}
      owner(n) == {i \in 1..Len(cs) : cs[i][1] = n}
  IN IF V = {} THEN <<>>
     ELSE LET v == cs[MinOf(V)]
              good(n) == /\ owner(n) # {}
                         /\ LET c == cs[MinOf(owner(n))] IN c[3] = v[3] /\ c[2] # v[2]
              G == {i \in 1..Len(nums) : good(nums[i])}
          IN IF G = {} THEN <<>> ELSE <<cs[MinOf(owner(nums[MinOf(G)]))][2]>>

Add(f, k, n) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + n] ELSE f @@ (k :> n)
Empty == [x \in {} |-> 0]
Frags(d, fr, cs) ==
  LET idx == SelectSeq(Tuple([j \in 1..Len(fr) |-> j]),
                       LAMBDA j : OpeningObituary(d, fr[j]) # <<>>)
      texts == {OpeningObituary(d, fr[idx[k]])[1] : k \in 1..Len(idx)}
      eventOf == Empty @@ [t \in texts |-> Obituary(TrimEnd(t))]
      Charge(acc, j) ==
        LET ob == OpeningObituary(d, fr[j])
            ev == eventOf[ob[1]]
        IN IF ev[1] = "none" THEN acc
           ELSE IF ev[1] # "anonteamkill" THEN Add(acc, ev[2], Points(ev[1]))
           ELSE LET k == IF IsOk(cs)
                         THEN TeamKiller(Val(cs), ev[2], NearbyUpdates(d, fr, j, ob[2]))
                         ELSE <<>>
                IN IF k = <<>> THEN acc ELSE Add(acc, k[1], -1)
  IN Fold(Charge, Empty, idx)

(***************************************************************************)
(* Flags                                                                   *)
(***************************************************************************)
(* high-level prints found by scanning the frame for print messages *)
RECURSIVE ScanHigh(_, _, _, _)
ScanHigh(d, p, e, acc) ==
  LET at == FirstByte(d, 8, p, e) IN
  IF at < 0 \/ at + 1 >= e THEN acc
  ELSE LET z == FirstByte(d, 0, at + 2, e)
       IN IF z < 0 THEN acc
          ELSE ScanHigh(d, z + 1, e,
                 IF d[at + 2] = 2 /\ z > at + 2 THEN Append(acc, Sub(d, at + 2, z)) ELSE acc)
ContinuationTexts ==
  UNION {Range(FlagPhrases[k].texts) : k \in {j \in 1..Len(FlagPhrases) :
                                               FlagPhrases[j].kind \in ContinuationKinds}}
EndsContinuation(t) == \E c \in ContinuationTexts : EndsWith(t, c)
(* join name prints with their continuations *)
RECURSIVE JoinLines(_, _, _, _)
JoinLines(ps, i, cur, acc) ==
  IF i > Len(ps) THEN (IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE IF cur # <<>> /\ ~EndsWith(cur, NL) /\ EndsContinuation(ps[i])
       THEN JoinLines(ps, i + 1, cur \o ps[i], acc)
       ELSE JoinLines(ps, i + 1, ps[i], IF cur = <<>> THEN acc ELSE Append(acc, cur))
FlagEventOf(t) ==
  LET sp == {i \in 0..(Len(t) - 1) : t[i + 1] = 32}
      S == {k \in 1..Len(FlagPhrases) : PhraseAt(t, sp, FlagPhrases[k].texts) >= 0}
  IN IF S = {} THEN <<>>
     ELSE LET k == MinOf(S)
          IN <<Sub(t, 0, PhraseAt(t, sp, FlagPhrases[k].texts)), FlagPhrases[k].kind>>
FlagWord == B("flag")
FlagEvents(d, fr) ==
  LET ff == SelectSeq(fr, LAMBDA f : NonEmpty(f) /\ FindIn(d, FlagWord, f.body, f.end) >= 0)
      lines(f) == JoinLines(ScanHigh(d, f.body, f.end, <<>>), 1, <<>>, <<>>)
      all == Concat(Tuple([k \in 1..Len(ff) |-> lines(ff[k])]))
      eventOf == Empty @@ [t \in Range(all) |-> FlagEventOf(t)]
      evs == Map(all, LAMBDA t : eventOf[t])
  IN SelectSeq(evs, LAMBDA e : e # <<>>)
(* name -> counters *)
FlagCounts(evs) ==
  LET names == {evs[i][1] : i \in 1..Len(evs)}
  IN [n \in names |->
        Tuple([k \in 1..7 |-> Count(evs, LAMBDA e : e = <<n, FlagKinds[k]>>)])]

(***************************************************************************)
(* Pings                                                                   *)
(***************************************************************************)
PingRun(d, p, e) ==
  LET update(i) == p + 7 * i + 5 <= e /\ d[p + 7 * i + 1] = 36
      n == MinOf({i \in 0..((e - p) \div 7 + 1) : ~update(i)})
  IN Tuple([i \in 1..n |-> <<d[p + 7 * (i - 1) + 2], U16(d, p + 7 * (i - 1) + 2)>>])
PingSamples(d, fr) ==
  LET runs == Map(SelectSeq(fr, LAMBDA f : OpensWith(d, f, 36)),
                  LAMBDA f : PingRun(d, f.body, f.end))
      good == SelectSeq(runs, LAMBDA r : r # <<>>)
  IN SubSeq(good, 1, Min2(8, Len(good)))
(* the mean, rounded down, of n 16-bit numbers, in parts that fit an integer *)
MeanOf(s) ==
  LET n == Len(s)
      hi == SumSeq(Map(s, LAMBDA x : x \div 256))
      lo == SumSeq(Map(s, LAMBDA x : x % 256))
  IN 256 * (hi \div n) + (256 * (hi % n) + lo) \div n
Pings(samples) ==
  LET all == Concat(samples)
      nums == {all[i][1] : i \in 1..Len(all)}
      of(n) == SelectSeq(all, LAMBDA s : s[1] = n)
  IN IF all = <<>> THEN Err
     ELSE Ok([n \in nums |-> MeanOf(Map(of(n), LAMBDA s : s[2]))])

(***************************************************************************)
(* Serverinfo                                                              *)
(***************************************************************************)
ServerinfoText(d) ==
  LET n == Min2(Len(d), 1280)
      a == FindIn(d, ServerinfoMark, 0, n)
      from == a + Len(ServerinfoMark)
      to == IF a < 0 THEN -1 ELSE FirstByte(d, 34, from, n)
  IN IF to <= from THEN Err ELSE Ok(PlainText(Sub(d, from, to)))
ServerSettings(st) == IF IsOk(st) THEN Ok(InfoFields(Val(st), SettingKeys)) ELSE Err
SettingIndex(key) == CHOOSE k \in 1..Len(SettingKeys) : SettingKeys[k][1] = key
Setting(ss, key) == IF IsOk(ss) THEN Val(ss)[SettingIndex(key)] ELSE <<>>
Hoony(ss) == Setting(ss, B("mode")) = <<B("hoonymode")>>

(***************************************************************************)
(* Durations, in milliseconds                                              *)
(***************************************************************************)
TimeUntil(fr, target) ==     \* of the frames that begin before the target
  SumSeq(Map(SelectSeq(fr, LAMBDA f : f.at < target), LAMBDA f : f.dur))
Countdown(d, fr, ss) ==
  LET at == Find(d, MatchdateMark)
  IN IF Hoony(ss) THEN Ok(0) ELSE IF at < 0 THEN Err ELSE Ok(TimeUntil(fr, at))
DemoTime(d, fr) ==
  LET over == RFind(d, MatchOverMark)
      stby == RFind(d, StandbyMark)
  IN TimeUntil(fr, IF over >= 0 THEN over ELSE IF stby >= 0 THEN stby ELSE Len(d))
MatchBySeeking(d, fr, ss) ==
  LET c == Countdown(d, fr, ss) IN Max2(0, DemoTime(d, fr) - (IF IsOk(c) THEN Val(c) ELSE 0))
(* the duration stated in a statistics text: ms, "unspecified" or Err *)
Unspecified == <<"unspecified">>
StatedDuration(t) ==
  LET a == Find(t, StatsDurationMark)
      from == a + Len(StatsDurationMark)
      to == IF a < 0 THEN -1 ELSE FirstByte(t, 44, from, Len(t))
      v == IF to > from THEN Sub(t, from, to) ELSE <<>>
      dot == FirstByte(v, 46, 0, Len(v))
      ip == IF dot < 0 THEN v ELSE Sub(v, 0, dot)
      fp == IF dot < 0 THEN <<>> ELSE Sub(v, dot + 1, Len(v))
      digits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
      floaty(s) == \A i \in 1..Len(s) :
         IsDigit(s[i]) \/ s[i] \in {43, 45, 46, 69, 101} \/ s[i] \in 65..90 \/ s[i] \in 97..122
  IN IF to <= from THEN Err
     ELSE IF digits(ip) /\ digits(fp) /\ Len(ip) \in 1..6 /\ Len(fp) <= 3
                        /\ (dot < 0 \/ fp # <<>>)
          THEN Ok(DecVal(ip, 1, 0) * 1000
                  + (IF fp = <<>> THEN 0
                     ELSE DecVal(fp \o Rep(48, 3 - Len(fp)), 1, 0)))
     ELSE IF v[1] = 45 /\ Len(v) > 1 /\ digits(Tail(v)) /\ \E i \in 2..Len(v) : v[i] # 48
          THEN Err
     ELSE IF floaty(v) THEN Unspecified ELSE Err

(***************************************************************************)
(* Statistics blocks                                                       *)
(*   frame header (10, multi) [u32 size][u16 type][u16 number][payload]    *)
(***************************************************************************)
RECURSIVE BlockWalk(_, _, _)
BlockWalk(d, off, acc) ==      \* off: start of the frame that carries a block
  LET h == off + 10 IN
  IF h + 4 > Len(d) THEN Ok(acc)
  ELSE LET size == U32(d, h) IN
       IF size < 2 \/ h + 8 > Len(d) THEN Ok(acc)
       ELSE IF U16(d, h + 4) # 3 THEN Ok(acc)
       ELSE IF size - 2 > Len(d) - (h + 8) THEN Err
       ELSE LET to == h + 8 + size - 2
                acc2 == Append(acc, Sub(d, h + 8, to))
            IN IF U16(d, h + 6) = 0 THEN Ok(acc2) ELSE BlockWalk(d, to, acc2)
StatsText(d) ==
  LET at == RFind(d, StatsMark)
      w == IF at < 18 THEN Err ELSE BlockWalk(d, at - 18, <<>>)
  IN IF ~IsOk(w) THEN Err
     ELSE LET t == Concat(Val(w)) IN IF IsUtf8(t) THEN Ok(t) ELSE Err
MatchByStats(st) == IF IsOk(st) THEN StatedDuration(Val(st)) ELSE Err

(***************************************************************************)
(* Markers                                                                 *)
(***************************************************************************)
HasEnd(d) == Len(d) > 12 /\ EndsWith(d, EndOfDemoMark)
HasClients(us) == IsOk(us) /\ Val(us) # <<>>
IsValid(d, st, us) == Len(d) >= 1024 /\ HasEnd(d) /\ IsOk(st) /\ HasClients(us)
IsAborted(d) == Contains(d, AbortedMark)
IsPaused(d) == ~HasEnd(d) /\ (Contains(d, ServerPausedMark) \/ Contains(d, PausedGameMark))

(***************************************************************************)
(* Time: instants are <<days since 1970-01-01, second of the day>>         *)
(***************************************************************************)
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLength(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28)
                     ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
DaysOf(y, m, day) ==           \* days since 1970-01-01, by counting leap years
  LET y1 == y - 1
      leaps == y1 \div 4 - y1 \div 100 + y1 \div 400
      RECURSIVE M(_)
      M(k) == IF k = m THEN 0 ELSE MonthLength(y, k) + M(k + 1)
  IN 365 * y1 + leaps + M(1) + day - 1 - 719162
Instant(days, secs) == <<days + (secs \div 86400), secs % 86400>>

(* offset of a zone text in minutes: Ok(minutes), Err or Unspecified *)
ZoneOffset(z) ==
  LET S == {k \in 1..Len(Zones) : Zones[k][1] = z}
      r == IF z = <<>> THEN <<>> ELSE Tail(z)
      v == Without(r, 58)
      dig == \A i \in 1..Len(v) : IsDigit(v[i])
      h == DecVal(SubSeq(v, 1, 2), 1, 0)
      mi == IF Len(v) = 4 THEN DecVal(SubSeq(v, 3, 4), 1, 0) ELSE 0
  IN IF S # {} THEN Ok(Zones[MinOf(S)][2])
     ELSE IF z = <<>> \/ z[1] \notin {43, 45} THEN Err
     ELSE IF Len(v) > 4 \/ \E i \in 1..Len(v) : ~IsDigit(v[i]) /\ v[i] # 43 /\ v[i] # 45 THEN Err
     ELSE IF ~dig \/ Len(v) \notin {2, 4} \/ (Len(r) # Len(v) /\ (Len(r) # 5 \/ r[3] # 58))
          THEN Unspecified
     ELSE IF h * 100 + mi > 1200 \/ mi > 59 THEN Err
     ELSE IF z[1] = 45 THEN Ok(-(h * 60 + mi)) ELSE Ok(h * 60 + mi)

MatchdateText(d) ==
  LET a == Find(d, MatchdateMark)
      from == a + Len(MatchdateMark)
      to == IF a < 0 THEN -1 ELSE FirstByte(d, 10, from, Len(d))
  IN IF to < 0 \/ to - from \notin 22..25 \/ ~IsUtf8(Sub(d, from, to)) THEN Err
     ELSE Ok(Sub(d, from, to))
MatchdateOf(mt) ==
  IF ~IsOk(mt) THEN Err
  ELSE LET t == Val(mt)
           dg(a, b) == \A i \in a..b : IsDigit(t[i])
           canon == /\ dg(1, 4) /\ t[5] = 45 /\ dg(6, 7) /\ t[8] = 45 /\ dg(9, 10)
                    /\ t[11] = 32 /\ dg(12, 13) /\ t[14] = 58 /\ dg(15, 16) /\ t[17] = 58
                    /\ dg(18, 19)
           num(a, b) == DecVal(SubSeq(t, a, b), 1, 0)
           off == ZoneOffset(SubSeq(t, 21, Len(t)))
           datey(c) == IsDigit(c) \/ c \in {32, 43, 45, 58} \/ c \in 9..13
           \* a date of unusual format need not be read, but if it is, then with
           \* the time of day it shows, in the zone it names
           gap == MaxOf({0} \cup {i \in 1..Len(t) : t[i] = 32})
           zone == ZoneOffset(SubSeq(t, gap + 1, Len(t)))
           word == MaxOf({0} \cup {i \in 1..(gap - 1) : t[i] = 32})      \* before the time of day
           cs == {i \in (word + 1)..(gap - 1) : t[i] = 58}
           c1 == MinOf(cs)
           c2 == MaxOf(cs)
           clock(a, b) == b - a \in 0..1 /\ dg(a, b)      \* one or two digits
           timed == /\ Cardinality(cs) = 2
                    /\ clock(word + 1, c1 - 1) /\ clock(c1 + 1, c2 - 1) /\ clock(c2 + 1, gap - 1)
                    /\ num(word + 1, c1 - 1) <= 23 /\ num(c1 + 1, c2 - 1) <= 59
                    /\ num(c2 + 1, gap - 1) <= 59
           lax == IF gap = 0 \/ zone = Err \/ \E i \in 1..(gap - 1) : ~datey(t[i]) THEN Err
                  ELSE IF ~timed \/ ~IsOk(zone) THEN Unspecified
                  ELSE <<"lenient", (num(word + 1, c1 - 1) * 3600 + num(c1 + 1, c2 - 1) * 60
                                     + num(c2 + 1, gap - 1) - Val(zone) * 60) % 86400>>
       IN IF \E i \in 1..Len(t) : t[i] >= 128 THEN Err
          ELSE IF ~canon /\ lax # Err THEN lax
          ELSE IF off = Err \/ t[20] # 32 THEN Err
          ELSE IF ~canon
               THEN (IF \A i \in 1..19 : datey(t[i]) THEN Unspecified ELSE Err)
          ELSE IF \/ num(6, 7) \notin 1..12 \/ num(12, 13) > 23 \/ num(15, 16) > 59
                  \/ num(18, 19) > 60
               THEN Err
          ELSE IF num(9, 10) \notin 1..MonthLength(num(1, 4), num(6, 7)) THEN Err
          ELSE IF num(18, 19) = 60 \/ off = Unspecified THEN Unspecified
          ELSE Ok(Instant(DaysOf(num(1, 4), num(6, 7), num(9, 10)),
                          num(12, 13) * 3600 + num(15, 16) * 60 + num(18, 19) - Val(off) * 60))
EpochTime(ss) ==
  LET e == Setting(ss, B("epoch"))
  IN IF e = <<>> THEN Err ELSE Ok(<<e[1] \div 86400, e[1] % 86400>>)
Timestamp(ep, md) == IF IsOk(ep) THEN ep ELSE md

(***************************************************************************)
(* Players and teams.  Player: name, team, colors, frags, ping, bot, auth, *)
(* country; team: name, colors, frags, ping, players                       *)
(***************************************************************************)
StatPlayer(p) ==   \* p: name, team, colors, frags, ping, has bot config, login
  <<p[1], p[2], <<p[3][1] % 256, p[3][2] % 256>>, p[4], Max2(0, p[5]),
    p[6] \/ p[5] = 10, IF p[7] = <<>> THEN <<>> ELSE <<p[7]>>, <<>>>>
RosterPlayer(c, frags, pings) ==
  <<c[2], c[3], c[4], IF c[2] \in DOMAIN frags THEN frags[c[2]] ELSE 0,
    IF c[1] \in DOMAIN pings THEN pings[c[1]] ELSE 0, c[6], c[7], c[8]>>
PlayerLE(a, b) == a[4] > b[4] \/ (a[4] = b[4] /\ SeqLE(a[1], b[1]))
(* stable insertion sort *)
InsertBy(s, x, LE(_, _)) ==
  LET k == Cardinality({i \in 1..Len(s) : LE(s[i], x)})
  IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
SortBy(s, LE(_, _)) ==
  LET RECURSIVE G(_, _)
      G(i, acc) == IF i > Len(s) THEN acc ELSE G(i + 1, InsertBy(acc, s[i], LE))
  IN G(1, <<>>)
PlayersFromStats(ps) == SortBy(Map(ps, StatPlayer), PlayerLE)
PlayersFromRoster(pc, frags, pings) ==
  IF ~IsOk(pc) \/ ~IsOk(pings) THEN Err
  ELSE Ok(SortBy(Map(Val(pc), LAMBDA c : RosterPlayer(c, frags, Val(pings))), PlayerLE))

MajorityColor(cs) ==
  LET n(c) == Count(cs, LAMBDA x : x = c)
      m == MaxOf({n(cs[i]) : i \in 1..Len(cs)})
  IN IF Len(cs) <= 2 THEN {cs[1]} ELSE {c \in Range(cs) : n(c) = m}
RoundedMean(total, n) == (2 * total + n) \div (2 * n)
TeamOf(name, ps) ==
  LET mine == SelectSeq(ps, LAMBDA p : p[2] = name)
  IN [name |-> name, colors |-> MajorityColor(Map(mine, LAMBDA p : p[3])),
      frags |-> SumSeq(Map(mine, LAMBDA p : p[4])),
      ping |-> RoundedMean(SumSeq(Map(mine, LAMBDA p : p[5])), Len(mine)),
      players |-> mine]
(* is ts (as reported) the division of ps into teams? *)
IsTeams(ts, ps) ==
  /\ {ts[i][1] : i \in 1..Len(ts)} = {ps[i][2] : i \in 1..Len(ps)}
  /\ \A i, j \in 1..Len(ts) : i # j => ts[i][1] # ts[j][1]
  /\ \A i \in 1..(Len(ts) - 1) : SeqLE(LowerKey(ts[i][1]), LowerKey(ts[i + 1][1]))
  /\ \A i \in 1..Len(ts) :
       LET t == TeamOf(ts[i][1], ps)
       IN /\ ts[i][2] \in t.colors /\ ts[i][3] = t.frags
          /\ ts[i][4] = t.ping /\ ts[i][5] = t.players

(* is ns the listing of names, sorted by visible text ignoring case? *)
SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A x \in Range(a) \cup Range(b) :
       Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
IsNameList(ns, names) ==
  /\ SameBag(ns, names)
  /\ \A i \in 1..(Len(ns) - 1) : SeqLE(VisibleKey(ns[i]), VisibleKey(ns[i + 1]))
IsTeamNameList(ns, pc) ==
  /\ Range(ns) = {pc[i][3] : i \in 1..Len(pc)}
  /\ Len(ns) = Cardinality(Range(ns))
  /\ \A i \in 1..(Len(ns) - 1) : SeqLE(VisibleKey(ns[i]), VisibleKey(ns[i + 1]))
(* pc: the players of the roster, ps: those of the statistics (<<>> if none)    *)
HasBot(pc, ps) == (\E i \in 1..Len(pc) : pc[i][6]) \/ \E i \in 1..Len(ps) : ps[i][6]
HasHuman(pc) == \E i \in 1..Len(pc) : ~pc[i][6]
=============================================================================
