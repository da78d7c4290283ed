------------------------------- MODULE Calendar ------------------------------
(* The civil calendar, one day after the other: the day number computed by     *)
(* the reader specification equals the number of days that have passed.        *)
EXTENDS Extract, IOUtils
VARIABLES y, m, day, n
vars == <<y, m, day, n>>
LastYear == IF IOEnv.TIER = "thorough" THEN 2400 ELSE 2104
Init == y = 1970 /\ m = 1 /\ day = 1 /\ n = 0
Tomorrow ==
  /\ y <= LastYear
  /\ n' = n + 1
  /\ IF day < MonthLength(y, m) THEN day' = day + 1 /\ UNCHANGED <<y, m>>
     ELSE /\ day' = 1
          /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Tomorrow]_vars
DayNumberOK == DaysOf(y, m, day) = n
(* the Gregorian rule, stated over whole cycles *)
CycleOK == (m = 1 /\ day = 1) => n = 365 * (y - 1970) + Cardinality({q \in 1970..(y - 1) :
              (q % 4 = 0 /\ q % 100 # 0) \/ q % 400 = 0})
=============================================================================
