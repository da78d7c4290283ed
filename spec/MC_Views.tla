---------------------------- MODULE MC_Views ---------------------------------
(* rankings and team tables of small player lists, with ties of every kind     *)
EXTENDS Views, Json, CSV, IOUtils
Thorough == IOEnv.TIER = "thorough"
Pl(n, t, c, f, p) == <<B(n), B(t), c, f, p, FALSE, <<>>, <<>>>>
C == { Pl("ann", "red", <<4, 4>>, 5, 10), Pl("bob", "red", <<13, 4>>, 5, 13),
       Pl("ann", "RED", <<4, 4>>, -3, 38), Pl("Cee", "blue", <<13, 13>>, 0, 65535),
       Pl("ann", "red", <<13, 4>>, 5, 12), Pl("dan", "", <<0, 0>>, 7, 25) }
N == IF Thorough THEN 5 ELSE 4
Export == IF IOEnv.EXPORT = "" THEN TRUE
          ELSE CSVWrite("%1$s", <<ToJson(ps)>>, IOEnv.EXPORT)
=============================================================================
