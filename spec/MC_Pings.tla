-------------------- MODULE MC_Pings --------------------
(* ping samples: first eight frames, leading run only *)
EXTENDS MCBase
Ann == B("ann")  Bob == B("bob")  Cee == B("cee")
A == { <<"ping", 0, 10>>, <<"ping", 0, 65535>>, <<"ping", 9, 25>>, <<"noise", <<7>>>>, <<"hidden", PingMsg(0, 50)>>,
       <<"hidden", LE32(36) \o LE16(3) \o <<1, 0>>>> }
K == {<<1, 6, 0>>}
P == Tuple([i \in 1..6 |-> <<0, 6, 0, << <<"ping", 3, i>> >> >>])
M == 2  T == IF Thorough THEN 6 ELSE 5  F == IF Thorough THEN 4 ELSE 4

============================================================
