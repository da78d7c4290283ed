-------------------- MODULE MC_Status --------------------
(* abort, pause and end-of-demo announcements *)
EXTENDS MCBase
Ann == B("ann")  Bob == B("bob")  Cee == B("cee")
A == { <<"abort">>, <<"pause", Ann>>, <<"serverpause">>, <<"end">>,
       <<"print", 3, Sub(AbortedMark, 2, Len(AbortedMark) - 1)>>, <<"print", 2, B("Paused")>>,
       <<"noise", <<7, 0>>>>, <<"noise", <<10>>>>, <<"noise", <<32>>>>,
       <<"hidden", <<0>>>> }
K == {<<1, 6, 0>>, <<1, 4, 1>>}
P == <<>>
M == 2  T == IF Thorough THEN 4 ELSE 3  F == 3

============================================================
