-------------------- MODULE MC_Teamkill --------------------
(* anonymous team kills: who is charged, and when *)
EXTENDS MCBase
Ann == B("ann")  Bob == B("bob")  Cee == B("cee")
(* ann and bob are red, cee is blue; slot 2 is empty *)
Team == << <<0, Ann, B("red"), <<4, 4>>, FALSE, FALSE, <<>>, <<>>>>,
           <<1, Bob, B("red"), <<4, 4>>, FALSE, FALSE, <<>>, <<>>>>,
           <<3, Cee, B("blue"), <<13, 13>>, FALSE, TRUE, <<>>, <<>>>> >>
TeamPreamble == << <<0, 1, 0, << <<"spawn">>, <<"user", Team[1]>>, <<"user", Team[2]>>,
                                 <<"user", Team[3]>> >> >> >>
A == { <<"obit", "anon", 2, Bob, <<>>>>, <<"obit", "anon", 6, Cee, <<>>>>,
       <<"obit", "anon", 1, B("eve"), <<>>>>,
       <<"frag", 0, 65535>>, <<"frag", 1, 2>>, <<"frag", 2, 0>>, <<"frag", 3, 1>>,
       <<"noise", <<7>>>>, <<"hidden", FragMsg(0, 7)>> }
K == {<<1, 6, 0>>}
P == TeamPreamble
M == 2  T == IF Thorough THEN 5 ELSE 4  F == IF Thorough THEN 5 ELSE 4

============================================================
