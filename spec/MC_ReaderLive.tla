--------------------------- MODULE MC_ReaderLive -----------------------------
EXTENDS Reader
L == {0, 1, 3, 8, 255}
N == IF IOEnv.TIER = "thorough" THEN 6 ELSE 5
=============================================================================
