-------------------- MODULE MC_Frags --------------------
(* obituaries of every kind, frag updates, team kill windows *)
EXTENDS MCBase
Ann == B("ann")  Bob == B("bob")  Cee == B("cee")
(* ann and bob are red, cee is blue; slot 2 is empty *)
Team == << <<0, Ann, B("red"), <<4, 4>>, FALSE, FALSE, <<>>, <<>>>>,
           <<1, Bob, B("red"), <<4, 4>>, FALSE, FALSE, <<>>, <<>>>>,
           <<3, Cee, B("blue"), <<13, 13>>, FALSE, TRUE, <<>>, <<>>>> >>
TeamPreamble == << <<0, 1, 0, << <<"spawn">>, <<"user", Team[1]>>, <<"user", Team[2]>>,
                                 <<"user", Team[3]>> >> >> >>
A == { <<"obit", "kill", 4, Bob, Ann>>, <<"obit", "kill", 1, Bob, Ann>>,
       <<"obit", "death", 3, Ann, <<>>>>, <<"obit", "suicide", 1, Cee, <<>>>>,
       <<"obit", "anon", 1, Bob, <<>>>>, <<"print", 2, B("ann died") \o NL>>,
       <<"frag", 0, 65535>>, <<"frag", 3, 1>>, <<"noise", <<7>>>>,
       <<"hidden", PrintMsg(1, B("ann died") \o NL)>>, <<"hidden", FragMsg(0, 1)>> }
K == {<<1, 6, 0>>}
P == TeamPreamble
M == 2  T == IF Thorough THEN 5 ELSE 3  F == IF Thorough THEN 5 ELSE 4

============================================================
