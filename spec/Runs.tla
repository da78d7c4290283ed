-------------------------------- MODULE Runs --------------------------------
(* Recordings of any length, as runs of equal frames: a sequence of records    *)
(* [b |-> the bytes of one frame, n |-> how often it is repeated].  What the    *)
(* reader returns for such a recording follows from its runs, without writing   *)
(* the recording out; MC_Runs checks that this agrees with the reader           *)
(* specification (Extract) on the recordings that are short enough to write out. *)
EXTENDS Judge

WholeFrame(u) == LET f == FrameAt(u.b, 0) IN f.ok /\ f.end = Len(u.b)
RunFrame(u) == FrameAt(u.b, 0)
Times(b, n) == [i \in 1..(n * Len(b)) |-> b[((i - 1) % Len(b)) + 1]]
Expand(us) == Concat(Map(us, LAMBDA u : Times(u.b, u.n)))

(* a time span is <<seconds, milliseconds>>, so that long ones fit an integer *)
Span(u, n) == LET t == RunFrame(u).dur IN <<t * (n \div 1000) + (t * (n % 1000)) \div 1000, (t * (n % 1000)) % 1000>>
Plus(a, b) == <<a[1] + b[1] + (a[2] + b[2]) \div 1000, (a[2] + b[2]) % 1000>>
Minus(a, b) ==      \* not below zero
  IF a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2]) THEN <<0, 0>>
  ELSE IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + 1000 - b[2]>>
SpanOf(us) == Fold(LAMBDA a, u : Plus(a, Span(u, u.n)), <<0, 0>>, us)

RunsWith(us, mark) == {i \in 1..Len(us) : Contains(us[i].b, mark)}
RunsCountdown(us) ==
  LET D == RunsWith(us, MatchdateMark) IN
  IF D = {} THEN Err
  ELSE Ok(Plus(SpanOf(SubSeq(us, 1, MinOf(D) - 1)), Span(us[MinOf(D)], 1)))
RunsDemoTime(us) ==
  LET O == RunsWith(us, MatchOverMark)
      S == RunsWith(us, StandbyMark)
  IN SpanOf(SubSeq(us, 1, IF O # {} THEN MaxOf(O) ELSE IF S # {} THEN MaxOf(S) ELSE Len(us)))
RunsMatch(us) ==
  LET c == RunsCountdown(us) IN Minus(RunsDemoTime(us), IF IsOk(c) THEN Val(c) ELSE <<0, 0>>)

(* obituaries that name both players or need none: their points add up *)
RunsFrags(us) ==
  LET Charge(acc, u) ==
        LET ob == OpeningObituary(u.b, RunFrame(u))
            ev == IF ob = <<>> THEN <<"none">> ELSE Obituary(TrimEnd(ob[1]))
        IN IF ev[1] \in {"none", "anonteamkill"} THEN acc ELSE Add(acc, ev[2], u.n * Points(ev[1]))
  IN Fold(Charge, Empty, us)
RunsFlags(us) ==
  LET evs(u) == FlagEvents(u.b, <<RunFrame(u)>>)
      names == UNION {{evs(us[i])[k][1] : k \in 1..Len(evs(us[i]))} : i \in 1..Len(us)}
  IN [m \in names |-> Tuple([k \in 1..7 |->
        SumSeq(Map(us, LAMBDA u : u.n * Count(evs(u), LAMBDA e : e = <<m, FlagKinds[k]>>)))])]
(* no more than eight frames of a run can be among the first eight *)
RunsPings(us) ==
  LET d == Expand(Map(us, LAMBDA u : [u EXCEPT !.n = Min2(8, u.n)])) IN Pings(PingSamples(d, Frames(d)))
(* the prints; a run of more than two equal frames is only described for frames *)
(* whose prints are merged into one                                              *)
RunsPrints(us) ==
  LET d == Expand(Map(us, LAMBDA u : [u EXCEPT !.n = Min2(2, u.n)])) IN Prints(d, Frames(d))
PrintsMerge(us) ==
  \A i \in 1..Len(us) : us[i].n <= 2 \/ Cardinality(Range(AllPrints(us[i].b, <<RunFrame(us[i])>>))) <= 1

Nanos(t) == <<t[1], t[2] * 1000000>>
WrongForRuns(e) ==
  LET us == e.runs
      good(f) == LET x == e.r[f] IN
        CASE f = "countdown" -> (LET c == RunsCountdown(us) IN Is(x, IF IsOk(c) THEN Ok(Nanos(Val(c))) ELSE Err))
          [] f = "demo_dur" -> Is(x, Ok(Nanos(RunsDemoTime(us))))
          [] f \in {"match_seek", "match_dur"} -> Is(x, Ok(Nanos(RunsMatch(us))))
          [] f = "match_ktx" -> "err" \in DOMAIN x
          [] f = "frags" -> IsMap(x, RunsFrags(us))
          [] f = "flags" -> IsMap(x, RunsFlags(us))
          [] f = "pings" -> (LET p == RunsPings(us) IN IF IsOk(p) THEN IsMap(x, Val(p)) ELSE "err" \in DOMAIN x)
          [] f = "prints" -> IF PrintsMerge(us) THEN Is(x, Ok(RunsPrints(us))) ELSE Returned(x)
          [] OTHER -> Returned(x)
  IN {f \in DOMAIN e.r : ~good(f)} \cup (IF \A i \in 1..Len(us) : WholeFrame(us[i]) THEN {} ELSE {"runs"})
=============================================================================
