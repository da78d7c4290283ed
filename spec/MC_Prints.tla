-------------------- MODULE MC_Prints --------------------
(* prints in all positions, repeats, empty frames, torn tails *)
EXTENDS MCBase
Ann == B("ann")  Bob == B("bob")  Cee == B("cee")
A == { <<"print", 0, B("x")>>, <<"print", 2, B("x")>>, <<"print", 3, <<>>>>,
       <<"print", 7, <<255, 10>>>>, <<"noise", <<1, 8, 2>>>>,
       <<"hidden", PrintMsg(0, B("x"))>> }
K == IF Thorough THEN {<<0, 0, 0>>, <<3, 1, 0>>, <<255, 3, 0>>, <<1, 4, 31>>, <<2, 6, 1>>, <<7, 2, 0>>}
     ELSE {<<3, 1, 0>>, <<255, 3, 0>>, <<0, 4, 31>>}
P == <<>>
M == 3  T == IF Thorough THEN 4 ELSE 4  F == 2

============================================================
