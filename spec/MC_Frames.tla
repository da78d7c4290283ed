-------------------- MODULE MC_Frames --------------------
(* frame shapes: all targets, empty bodies, torn tails *)
EXTENDS MCBase
Ann == B("ann")  Bob == B("bob")  Cee == B("cee")
A == { <<"print", 1, B("y")>>, <<"noise", <<0>>>>, <<"hidden", PrintMsg(1, B("z"))>> }
K == {<<d, t, s>> : d \in {0, 255}, t \in 0..7, s \in {0, 1}}
P == <<>>
M == 1  T == 2  F == IF Thorough THEN 4 ELSE 3

============================================================
