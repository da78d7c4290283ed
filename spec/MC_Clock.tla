-------------------- MODULE MC_Clock --------------------
(* countdown, demo and match duration: markers in any order *)
EXTENDS MCBase
Ann == B("ann")  Bob == B("bob")  Cee == B("cee")
Mode == IOEnv.MODE
Day == B("2024-04-26 16:59:34 CEST")
A == { <<"date", Day>>, <<"over">>, <<"status", B("Standby")>>, <<"status", B("5 min left")>> }
     \cup (IF Thorough THEN {<<"print", 3, B("hi")>>, <<"pause", Ann>>} ELSE {})
K == IF Thorough THEN {<<5, 6, 0>>, <<255, 1, 2>>, <<1, 3, 0>>, <<250, 7, 0>>}
     ELSE {<<5, 6, 0>>, <<255, 1, 2>>, <<250, 7, 0>>}
P == << <<9, 1, 0, << <<"serverinfo", B("\\mode\\") \o B(Mode) \o B("\\map\\dm6")>> >> >> >>
M == 2  T == IF Thorough THEN 4 ELSE 3  F == IF Thorough THEN 4 ELSE 4

============================================================
