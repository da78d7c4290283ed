-------------------- MODULE MC_Obituaries --------------------
(* the whole vocabulary of obituaries, each phrase with each order of players *)
EXTENDS MCBase
Ann == B("ann")  Bob == B("bob")  Cee == B("cee")
(* ann and bob are red, cee is blue; slot 2 is empty *)
Team == << <<0, Ann, B("red"), <<4, 4>>, FALSE, FALSE, <<>>, <<>>>>,
           <<1, Bob, B("red"), <<4, 4>>, FALSE, FALSE, <<>>, <<>>>>,
           <<3, Cee, B("blue"), <<13, 13>>, FALSE, TRUE, <<>>, <<>>>> >>
TeamPreamble == << <<0, 1, 0, << <<"spawn">>, <<"user", Team[1]>>, <<"user", Team[2]>>,
                                 <<"user", Team[3]>> >> >> >>
A == {<<"obit", "kill", k, x[1], x[2]>> : k \in 1..Len(KillPhrases),
                                           x \in {<<Ann, Bob>>, <<Bob, Ann>>}}
     \cup {<<"obit", "death", k, Ann, <<>>>> : k \in 1..Len(DeathPhrases)}
     \cup {<<"obit", "ownweapon", k, Ann, <<>>>> : k \in 1..Len(OwnWeaponPhrases)}
     \cup {<<"obit", "teamkill", k, Ann, <<>>>> : k \in 1..Len(TeamkillPhrases)}
     \cup {<<"obit", "anon", k, Bob, <<>>>> : k \in 1..Len(AnonTeamkillPhrases)}
     \cup {<<"obit", "suicide", 1, Cee, <<>>>>, <<"frag", 0, 3>>}
K == {<<1, 6, 0>>}
P == TeamPreamble
M == 1  T == 2  F == 2

============================================================
