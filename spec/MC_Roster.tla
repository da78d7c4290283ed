-------------------- MODULE MC_Roster --------------------
(* clients announced in the preamble: slots in any order, gaps, spectators, bots *)
EXTENDS MCBase
Ann == B("ann")  Bob == B("bob")  Cee == B("cee")
C == { <<0, Ann, B("red"), <<4, 12>>, FALSE, FALSE, <<B("a:1")>>, <<B("se")>>>>,
       <<5, Bob, <<>>, <<0, 13>>, TRUE, FALSE, <<>>, <<>>>>,
       <<31, Cee, B("red"), <<4, 4>>, FALSE, TRUE, <<>>, <<>>>>,
       <<1, Ann, B("blue"), <<13, 13>>, FALSE, FALSE, <<>>, <<>>>> }
A == {<<"user", c>> : c \in C} \cup {<<"spawn">>, <<"noise", <<11, 2, 0>>>>, <<"frag", 5, 3>>}
K == {<<1, 6, 0>>}
P == <<>>
M == 4  T == IF Thorough THEN 6 ELSE 5  F == 2

============================================================
