---------------------------- MODULE MC_Documents -----------------------------
(* documents of a few members: every type of member, good and bad values        *)
EXTENDS Documents, Json, CSV, IOUtils
Thorough == IOEnv.TIER = "thorough"
Bad1(name, b) == M(name, b, FALSE, 0)
Num(name) == { M(name, B("0"), TRUE, 0), M(name, B("20"), TRUE, 20), M(name, B("2147483647"), TRUE, 2147483647),
               Bad1(name, B("-1")), Bad1(name, B("1.5")), Bad1(name, B("1e1")), Bad1(name, B("07")), Bad1(name, B("+7")),
               Bad1(name, B("\"7\"")), Bad1(name, B("null")), Bad1(name, B("99999999999")), Bad1(name, B("[7]")),
               Bad1(name, B("7 7")), Bad1(name, <<>>) }
Texts(name) == { M(name, B("\"dm6\""), TRUE, B("dm6")), M(name, B("\"\""), TRUE, <<>>),
                 M(name, Q \o <<92>> \o B("u0041") \o <<92>> \o B("n") \o <<92>> \o Q \o Q, TRUE, <<65, 10, 34>>),
                 M(name, Q \o <<195, 169>> \o Q, TRUE, <<233>>),
                 M(name, Q \o <<240, 159, 152, 128>> \o Q, TRUE, <<128512>>),
                 M(name, Q \o <<92>> \o B("ud83d") \o <<92>> \o B("ude00") \o Q, TRUE, <<128512>>),
                 Bad1(name, B("dm6")), Bad1(name, B("7")), Bad1(name, B("null")), Bad1(name, B("\"dm6")),
                 Bad1(name, B("'dm6'")), Bad1(name, Q \o <<9>> \o Q), Bad1(name, Q \o <<92>> \o B("x") \o Q),
                 Bad1(name, Q \o <<92>> \o B("u12") \o Q), Bad1(name, B("{}")) }
Dates == { M("date", B("\"2024-04-26 17:09:29 +0200\""), TRUE, <<19839, 54569>>),
           M("date", B("\"1970-01-02 00:00:00 +0000\""), TRUE, <<1, 0>>),
           Bad1("date", B("\"2024-02-30 17:09:29 +0200\"")), Bad1("date", B("\"2023-13-01 17:09:29 +0200\"")),
           Bad1("date", B("0")), Bad1("date", B("null")) }
Teams == { M("teams", B("[]"), TRUE, <<>>), M("teams", B("[ \"red\" ,\"\"]"), TRUE, <<B("red"), <<>>>>),
           Bad1("teams", B("[\"a\",]")), Bad1("teams", B("[1]")), Bad1("teams", B("\"red\"")), Bad1("teams", B("[\"a\"")),
           Bad1("teams", B("[null]")), Bad1("teams", B("[\"a\" \"b\"]")), Bad1("teams", B("{\"a\":\"b\"}")) }
P0 == <<<<>>, <<>>, <<0, 0>>, 0, 0, FALSE, <<>>>>
P1 == <<B("ann"), B("red"), <<4, 13>>, -3, 12, TRUE, <<>>>>
PlayersOf(b, good, v) == M("players", B(b), good, v)
Players ==
  { PlayersOf("[]", TRUE, <<>>), PlayersOf("[{}]", TRUE, <<P0>>),
    PlayersOf("[{\"name\": \"ann\", \"team\": \"red\", \"top-color\": 4, \"bottom-color\": 13, \"ping\": 12, \"stats\": {\"frags\": -3, \"x\": [1]}, \"bot\": {\"skill\": 7, \"customised\": false}}]",
              TRUE, <<P1>>),
    PlayersOf("[{\"bot\": null, \"ctf\": null},{\"ctf\": {\"runes\": [1,2,3,4]}}]", TRUE, <<P0, P0>>),
    PlayersOf("[{\"ping\": \"12\"}]", FALSE, 0), PlayersOf("[{\"ping\": 2147483648}]", FALSE, 0),
    PlayersOf("[{\"ping\": 1, \"ping\": 1}]", FALSE, 0), PlayersOf("[{\"stats\": {\"frags\": 1.0}}]", FALSE, 0),
    PlayersOf("[{\"stats\": null}]", FALSE, 0), PlayersOf("[{\"bot\": 1}]", FALSE, 0),
    PlayersOf("[{\"bot\": {\"customised\": 0}}]", FALSE, 0), PlayersOf("[{\"control\": \"1\"}]", FALSE, 0),
    PlayersOf("[{\"ctf\": {\"runes\": [1,2,3]}}]", FALSE, 0), PlayersOf("[{\"weapons\": {\"rl\": {\"acc\": {\"hits\": true}}}}]", FALSE, 0),
    PlayersOf("[{\"items\": {\"ya\": {\"time\": null}}}]", FALSE, 0), PlayersOf("[{\"name\": 1}]", FALSE, 0),
    PlayersOf("[{\"speed\": {\"max\": 640}, \"control\": 1.5}]", TRUE, <<P0>>),
    PlayersOf("[{\"name\"}]", FALSE, 0), PlayersOf("[{1: 2}]", FALSE, 0), PlayersOf("[1]", FALSE, 0), PlayersOf("{}", FALSE, 0) }
Odd == { M("x", B("[{\"a\":[null,true,false]}, -1.5E+3]"), TRUE, 0), M("x", B("-0"), TRUE, 0), M("", B("\"\""), TRUE, 0),
         Bad1("x", B("nul")), Bad1("x", B("True")), Bad1("x", B("01")), Bad1("x", B("1.")), Bad1("x", B(".5")), Bad1("x", B("-")),
         Bad1("x", B("[1}")), Bad1("x", B("{\"a\":1,}")), Bad1("x", B("1e")) }
Ms == Num("tl") \cup Texts("map") \cup Dates \cup Teams \cup Players \cup Odd
      \cup { M("port", B("28501"), TRUE, 28501), M("duration", B("600"), TRUE, 600), Bad1("duration", B("\"600\"")) }
Cs == { <<B(", "), TRUE>>, <<<<10>> \o B(",") \o <<13, 9, 32>>, TRUE>>, <<B(" "), FALSE>>, <<B(",,"), FALSE>>, <<B(";"), FALSE>>,
        <<B(","), TRUE>>, <<<<44, 11>>, FALSE>>, <<<<44, 194, 160>>, FALSE>> }
Es == { <<B("}"), TRUE>>, <<B(" }") \o <<10>>, TRUE>>, <<<<>>, FALSE>>, <<B(",}"), FALSE>>, <<B("}}"), FALSE>>, <<B("]"), FALSE>>,
        <<B("}x"), FALSE>>, <<B("}") \o <<0>>, FALSE>> }
Long == IOEnv.WHAT = "long"        \* long documents, for simulation
N == IF Long THEN 7 ELSE 2
Least == IF Long THEN 3 ELSE 0
Slips == 1
SpentSlips == IF Long THEN {0, 1} ELSE {0}
(* one in eight of the longer documents, a different eighth for every seed      *)
Chosen == Long \/ Len(stated) < 2 \/ (SumSeq(text) + Len(text)) % 8 = atoi(IOEnv.VERIF_SEED) % 8
Export == IF IOEnv.EXPORT = "" \/ ~closed \/ ~Chosen THEN TRUE
          ELSE CSVWrite("%1$s", <<ToJson(File)>>, IOEnv.EXPORT)
=============================================================================
