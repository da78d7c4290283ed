---------------------------- MODULE MC_Reader --------------------------------
EXTENDS Reader
L == {0, 1, 3, 8, 255}
N == IF IOEnv.TIER = "thorough" THEN 8 ELSE 7
=============================================================================
