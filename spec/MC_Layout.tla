---------------------------- MODULE MC_Layout --------------------------------
(* Where things lie in the file: the serverinfo announcement around the end of *)
(* its window, userinfo strings around the limits of their length and distance, *)
(* recordings around the minimal size, with and without end and clients.        *)
EXTENDS Recorder, Json, CSV, IOUtils
Thorough == IOEnv.TIER = "thorough"
P0 == <<>>
VARIABLES want   \* what the layout is to make of it
lvars == <<vars, want>>
Fill(n) == <<"noise", Rep(1, n)>>
(* a frame of exactly n bytes of noise (n >= 6), nothing for n = 0 *)
FillFrame(n) == IF n = 0 THEN <<>> ELSE Frame(0, 1, 0, Rep(1, n - 6))
Rest == open = <<>> /\ total = 0 /\ frames = 1 /\ led = NoLedger

(* --- serverinfo: pad bytes, then the announcement --- *)
InfoText(n) == B("\\map\\") \o Rep(120, n)       \* a value of n characters
ServerinfoLayouts ==
  \E n \in {1, 3, 200, 1100, 1230, 1231, 1232, 1233, 1234, 1235, 1236, 1237, 1238, 1239,
            1240, 1241, 1242, 1260, 1300},
     pad \in {0, 6, 20, 60, 1200, 1210, 1211, 1216, 1217, 1218, 1219, 1220, 1221, 1222, 1223,
              1224, 1225, 1226, 1230, 1260, 1280} :
    LET msg == ServerinfoMsg(InfoText(n))
        close == pad + 6 + 1 + Len(ServerinfoMark) + Len(InfoText(n)) + 1   \* behind the quote
    IN /\ file = FillFrame(pad) \o Frame(0, 1, 0, msg)
       /\ want = <<"serverinfo", IF close <= 1280 THEN Ok(InfoText(n)) ELSE Err>>
       /\ Rest
(* --- userinfo: distances between the strings and lengths --- *)
U(len, slot) == Sub(B("\\name\\") \o Rep(110, len), 0, len)     \* len >= 7
UserLayouts ==
  \E l1 \in {7, 8, 20, 255, 256, 257}, l2 \in {7, 200, 256, 257},
     gap \in {0, 1, 100, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 520} :
    LET first == UserMsg(0, U(l1, 0)) second == UserMsg(7, U(l2, 7))
        \* from the end of the first string to the end of the key of the second
        reach == 1 + gap + 6 + Len(NameKeyMark)
        one == <<0, U(l1, 0)>> two == <<7, U(l2, 7)>>
    IN /\ file = Frame(0, 1, 0, SpawnMsg \o first \o Rep(1, gap) \o second)
       /\ want = <<"users", Ok(IF l1 > 256 THEN <<>>
                               ELSE IF reach > 512 \/ l2 > 256 THEN <<one>>
                               ELSE <<one, two>>)>>
       /\ Rest
(* --- many clients: the roster ends 24 * 512 bytes behind the spawn command --- *)
CrowdLayouts ==
  \E k \in {1, 24, 25, 32, 40, 60}, len \in {7, 60, 250} :
    LET us == Tuple([i \in 1..k |-> UserMsg((i * 7) % 256, U(len, i))])
        off == 6
        fin(i) == off + Len(SpawnMsg) + i * (6 + len + 1) - 1
        S == {i \in 1..k : fin(i) >= off + 24 * 512}
        n == IF S = {} THEN k ELSE MinOf(S)
    IN /\ file = Frame(0, 1, 0, SpawnMsg \o Concat(us))
       /\ want = <<"users", Ok(Tuple([i \in 1..n |-> <<(i * 7) % 256, U(len, i)>>]))>>
       /\ Rest
(* --- validity --- *)
ValidLayouts ==
  \E size \in {200, 1023, 1024, 1025, 1300}, si \in {"yes", "empty", "no", "late"},
     nc \in 0..2, end \in {"yes", "no", "early", "bare"} :
    LET siMsg == IF si \in {"yes", "late"} THEN ServerinfoMsg(B("\\map\\dm6"))
                 ELSE IF si = "empty" THEN ServerinfoMsg(<<>>) ELSE <<>>
        clients == SpawnMsg \o (IF nc >= 1 THEN UserMsg(0, B("\\name\\ann")) ELSE <<>>)
                   \o (IF nc = 2 THEN UserMsg(3, B("\\name\\bob")) ELSE <<>>)
        pre == IF si = "late" THEN Frame(0, 1, 0, Rep(1, 1280)) ELSE <<>>
        head == pre \o Frame(0, 1, 0, siMsg \o clients)
        tail == IF end = "yes" THEN Frame(1, 6, 0, EndMsg)
                ELSE IF end = "bare" THEN Frame(1, 6, 0, <<7>> \o EndMsg) ELSE <<>>
        early == IF end = "early" THEN Frame(1, 6, 0, EndMsg) ELSE <<>>
        gap == size - Len(head) - Len(tail) - Len(early)
        f == head \o early \o (IF gap >= 6 THEN FillFrame(gap) ELSE <<>>) \o tail
    IN /\ file = f
       /\ want = <<"valid", si = "yes" /\ nc > 0 /\ end = "yes" /\ Len(f) >= 1024>>
       /\ Rest
LInit == CASE IOEnv.LAYOUT = "serverinfo" -> ServerinfoLayouts
           [] IOEnv.LAYOUT = "users" -> UserLayouts \/ CrowdLayouts
           [] IOEnv.LAYOUT = "valid" -> ValidLayouts
LSpec == LInit /\ [][UNCHANGED lvars]_lvars
LayoutOK ==
  CASE want[1] = "serverinfo" -> ServerinfoText(file) = want[2]
    [] want[1] = "users" -> Users(file) = want[2]
    [] want[1] = "valid" -> IsValid(file, ServerinfoText(file), Users(file)) = want[2]
Export == IF IOEnv.EXPORT = "" THEN TRUE
          ELSE CSVWrite("%1$s", <<ToJson(file)>>, IOEnv.EXPORT)
=============================================================================
