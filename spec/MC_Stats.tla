---------------------------- MODULE MC_Stats ---------------------------------
(* statistics documents: every split, interruptions, several documents, cuts   *)
EXTENDS Statistics, Json, CSV, IOUtils
Thorough == IOEnv.TIER = "thorough"
D == { StatsMark \o B("3}"), StatsMark \o <<195, 169>> \o B("}") }
O == { Frame(1, 6, 0, PrintMsg(2, B("x"))),            \* a print
       Frame(0, 7, 0, <<>>),                          \* an empty frame
       BlockFrame(0, 0, 0, <<1, 2>>) }                \* a hidden block of another type
Docs == 2
Oth == IF Thorough THEN 2 ELSE 1
Blk == 3
Export == IF IOEnv.EXPORT = "" THEN TRUE
          ELSE CSVWrite("%1$s", <<ToJson(file)>>, IOEnv.EXPORT)
=============================================================================
