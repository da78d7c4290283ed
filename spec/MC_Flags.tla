-------------------- MODULE MC_Flags --------------------
(* flag announcements: whole, split, several in a frame, other levels *)
EXTENDS MCBase
Ann == B("ann")  Bob == B("bob")  Cee == B("cee")
Kinds == Range(FlagKinds)
A == { <<"flag", k, v, Ann>> : k \in Kinds, v \in IF Thorough THEN {1, 2} ELSE {1} }
     \cup { <<"flag", "pickups", 2, Bob>>,
       <<"flagname", Ann>>, <<"flagname", Bob>>, <<"flagtail", "pickups", 1>>,
       <<"flagtail", "captures", 2>>, <<"flagtail", "returns", 2>>,
       <<"print", 1, Ann \o FlagTail("pickups", 1)>>, <<"print", 2, B("gg") \o NL>>,
       <<"noise", <<7>>>>,
       <<"hidden", PrintMsg(2, Ann \o FlagTail("captures", 1))>> }
K == {<<1, 6, 0>>}
P == <<>>
M == 3  T == 3  F == 2

============================================================
