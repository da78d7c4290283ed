------------------------------- MODULE KtxStats -------------------------------
(* The structured reading of a statistics document, version 3: which texts are *)
(* documents, and what they say.                                               *)
EXTENDS Extract, JsonText

(* what a field may hold *)
Txt == <<"str">>   I32 == <<"i32">>   U32T == <<"u32">>   F64 == <<"f64">>   Flag == <<"bool">>
DateT == <<"date">>
Record(fields) == <<"obj", fields>>
ListOf(t) == <<"list", t>>
Maybe(t) == <<"opt", t>>
F(name, t) == <<B(name), t>>
Ints(names) == Map(names, LAMBDA n : F(n, I32))

Health == Record(Ints(<<"took">>))
Armor == Record(Ints(<<"took", "time">>))
WeaponT == Record(<<F("acc", Record(Ints(<<"attacks", "hits">>))),
                    F("kills", Record(Ints(<<"total", "team", "enemy", "self">>))), F("deaths", I32),
                    F("pickups", Record(Ints(<<"dropped", "taken", "total-taken", "spawn-taken",
                                               "spawn-total-taken">>))),
                    F("damage", Record(Ints(<<"enemy", "team">>)))>>)
PlayerT == Record(
  Ints(<<"top-color", "bottom-color", "ping", "xfer-rl", "xfer-lg">>)
  \o <<F("login", Txt), F("name", Txt), F("team", Txt),
       F("stats", Record(Ints(<<"frags", "deaths", "tk", "spawn-frags", "kills", "suicides">>))),
       F("dmg", Record(Ints(<<"taken", "given", "team", "self", "team-weapons", "enemy-weapons",
                              "taken-to-die">>))),
       F("spree", Record(Ints(<<"max", "quad">>))), F("control", F64),
       F("speed", Record(<<F("avg", F64), F("max", F64)>>)),
       F("weapons", Record(Map(<<"sg", "ng", "ssg", "sng", "gl", "rl", "lg">>,
                               LAMBDA w : F(w, WeaponT)))),
       F("items", Record(<<F("health_15", Health), F("health_25", Health), F("health_100", Health),
                           F("ga", Armor), F("ya", Armor), F("ra", Armor)>>)),
       F("ctf", Maybe(Record(Ints(<<"points", "caps", "defends", "carrier-defends", "carrier-frags",
                                    "pickups", "returns">>) \o <<F("runes", <<"four">>)>>))),
       F("bot", Maybe(Record(<<F("skill", I32), F("customised", Flag)>>)))>>)
DocumentT == Record(
  <<F("version", U32T), F("date", DateT), F("map", Txt), F("hostname", Txt), F("ip", Txt),
    F("port", U32T), F("mode", Txt), F("tl", U32T), F("dm", U32T), F("tp", U32T),
    F("duration", U32T), F("demo", Txt), F("teams", ListOf(Txt)), F("players", ListOf(PlayerT))>>)

(* dates: "2024-04-26 17:09:29 +0200"; other forms are left open *)
DateOfDoc(t) ==
  LET dg(a, b) == \A i \in a..b : IsDigit(t[i])
      canon == /\ Len(t) = 25 /\ dg(1, 4) /\ t[5] = 45 /\ dg(6, 7) /\ t[8] = 45 /\ dg(9, 10)
               /\ t[11] = 32 /\ dg(12, 13) /\ t[14] = 58 /\ dg(15, 16) /\ t[17] = 58
               /\ dg(18, 19) /\ t[20] = 32 /\ t[21] \in {43, 45} /\ dg(22, 25)
      num(a, b) == DecVal(SubSeq(t, a, b), 1, 0)
      off == num(22, 23) * 60 + num(24, 25)
  IN IF ~canon THEN Unspecified
     ELSE IF \/ num(6, 7) \notin 1..12 \/ num(12, 13) > 23 \/ num(15, 16) > 59
             \/ num(9, 10) \notin 1..MonthLength(num(1, 4), num(6, 7))
          THEN Err
     ELSE IF num(18, 19) > 59 \/ num(22, 23) > 12 \/ num(24, 25) > 59 THEN Unspecified
     ELSE Ok(Instant(DaysOf(num(1, 4), num(6, 7), num(9, 10)),
                     num(12, 13) * 3600 + num(15, 16) * 60 + num(18, 19)
                     - (IF t[21] = 45 THEN -off ELSE off) * 60))

(* does value v have type t?  "ok", "err", or "any" where readers may differ *)
Worst(S) == IF "err" \in S THEN "err" ELSE IF "any" \in S THEN "any" ELSE "ok"
MinusZero(s) == s[1] = 45 /\ \A i \in 2..Len(s) : s[i] = 48
RECURSIVE Fits(_, _)
Fits(v, t) ==
  CASE t[1] = "str" -> IF v[1] # "str" THEN "err" ELSE IF Unclear(v[2]) THEN "any" ELSE "ok"
    [] t[1] = "i32" ->
         IF v[1] # "num" THEN "err"
         ELSE IF ~IsInteger(v[2]) THEN "err"
         ELSE IF MinusZero(v[2]) THEN "any" ELSE IF ParseI32(v[2]) = <<>> THEN "err" ELSE "ok"
    [] t[1] = "u32" ->
         IF v[1] # "num" THEN "err"
         ELSE IF ~IsInteger(v[2]) THEN "err"
         ELSE IF MinusZero(v[2]) THEN "any"
         ELSE IF v[2][1] = 45 \/ Len(v[2]) > 10 THEN "err"
         ELSE IF ParseI32(v[2]) = <<>> THEN "any" ELSE "ok"
    [] t[1] = "f64" -> IF v[1] # "num" THEN "err"
                       ELSE IF Len(v[2]) > 20 \/ \E i \in 1..Len(v[2]) : v[2][i] \in {69, 101}
                       THEN "any" ELSE "ok"
    [] t[1] = "bool" -> IF v[1] = "word" /\ v[2] # B("null") THEN "ok" ELSE "err"
    [] t[1] = "date" -> IF v[1] # "str" THEN "err"
                        ELSE LET d == DateOfDoc(v[2])
                             IN IF d = Err THEN "err" ELSE IF IsOk(d) THEN "ok" ELSE "any"
    [] t[1] = "list" -> IF v[1] # "arr" THEN "err"
                        ELSE Worst({Fits(v[2][i], t[2]) : i \in 1..Len(v[2])})
    [] t[1] = "four" -> IF v[1] # "arr" \/ Len(v[2]) # 4 THEN "err"
                        ELSE Worst({Fits(v[2][i], I32) : i \in 1..4})
    [] t[1] = "opt" -> IF v[1] = "word" /\ v[2] = B("null") THEN "ok" ELSE Fits(v, t[2])
    [] t[1] = "obj" ->
         IF v[1] = "arr" THEN "any"       \* a list in place of a record
         ELSE IF v[1] # "obj" THEN "err"
         ELSE Worst({LET S == {i \in 1..Len(v[2]) : v[2][i][1] = t[2][k][1]}
                     IN IF Cardinality(S) > 1 THEN "err"
                        ELSE IF S = {} THEN "ok" ELSE Fits(v[2][MinOf(S)][2], t[2][k][2]) :
                     k \in 1..Len(t[2])})

(* members of a record, with defaults *)
Member(v, name) == LET S == {i \in 1..Len(v[2]) : v[2][i][1] = B(name)}
                   IN IF S = {} THEN <<>> ELSE <<v[2][MinOf(S)][2]>>
TextIn(v, name) == LET m == Member(v, name) IN IF m = <<>> THEN <<>> ELSE m[1][2]
IntIn(v, name) == LET m == Member(v, name) IN IF m = <<>> THEN 0 ELSE ParseI32(m[1][2])[1]
ListIn(v, name) == LET m == Member(v, name) IN IF m = <<>> THEN <<>> ELSE m[1][2]
PlayerIn(p) ==
  LET st == Member(p, "stats") bt == Member(p, "bot") IN
  <<TextIn(p, "name"), TextIn(p, "team"), <<IntIn(p, "top-color"), IntIn(p, "bottom-color")>>,
    IF st = <<>> THEN 0 ELSE IntIn(st[1], "frags"), IntIn(p, "ping"),
    bt # <<>> /\ bt[1][1] # "word", TextIn(p, "login")>>
DocumentIn(v) ==
  [version |-> IntIn(v, "version"),
   date |-> LET m == Member(v, "date") IN IF m = <<>> THEN <<0, 0>> ELSE Val(DateOfDoc(m[1][2])),
   map |-> TextIn(v, "map"), hostname |-> TextIn(v, "hostname"), ip |-> TextIn(v, "ip"),
   port |-> IntIn(v, "port"), mode |-> TextIn(v, "mode"), tl |-> IntIn(v, "tl"),
   dm |-> IntIn(v, "dm"), tp |-> IntIn(v, "tp"), duration |-> IntIn(v, "duration"),
   demo |-> TextIn(v, "demo"), teams |-> Map(ListIn(v, "teams"), LAMBDA x : x[2]),
   players |-> Map(ListIn(v, "players"), PlayerIn)]
(* Ok(document), Err, or Unspecified *)
Document(t) ==
  LET j == JsonRead(t) IN
  IF ~j.ok THEN (IF j.odd THEN Unspecified ELSE Err)
  ELSE LET f == Fits(j.val[1], DocumentT) IN
       IF f = "err" THEN Err
       ELSE IF f = "any" \/ j.odd THEN Unspecified
       ELSE Ok(DocumentIn(j.val[1]))
=============================================================================
