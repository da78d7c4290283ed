-------------------------------- MODULE Views --------------------------------
(* Players join one after the other; the views are recomputed from scratch by  *)
(* the operators of Extract and must agree with what is maintained here        *)
(* incrementally: per-team sums, per-team member lists, the ranking.           *)
EXTENDS Results

CONSTANTS Candidates,  \* players that may join
          MaxPlayers

VARIABLES ps,      \* the players in the order in which they joined
          rank,    \* the ranking: each newcomer is put behind those not below
          roll,    \* team name -> members in order
          total    \* team name -> sum of frags
vars == <<ps, rank, roll, total>>

Init == ps = <<>> /\ rank = <<>> /\ roll = Empty /\ total = Empty

(* p is strictly ahead of q *)
Ahead(p, q) == p[4] > q[4] \/ (p[4] = q[4] /\ SeqLT(p[1], q[1]))
RECURSIVE Rank(_, _)
Rank(r, p) == IF r = <<>> THEN <<p>>
              ELSE IF Ahead(p, r[1]) THEN <<p>> \o r ELSE <<r[1]>> \o Rank(Tail(r), p)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Join == /\ Len(ps) < MaxPlayers
        /\ \E p \in Candidates :
             /\ ps' = Append(ps, p)
             /\ rank' = Rank(rank, p)
             /\ roll' = Put(roll, p[2], Append(IF p[2] \in DOMAIN roll THEN roll[p[2]]
                                               ELSE <<>>, p))
             /\ total' = Add(total, p[2], p[4])
Next == Join
Spec == Init /\ [][Next]_vars

RankingOK == SortBy(ps, PlayerLE) = rank
TeamsOK ==
  LET ts == TeamList(ps) IN
  /\ IsTeams(ts, ps)
  /\ Len(ts) = Cardinality(DOMAIN roll)
  /\ \A i \in 1..Len(ts) : ts[i][5] = roll[ts[i][1]] /\ ts[i][3] = total[ts[i][1]]
  \* the mean is the nearest integer, halves up
  /\ \A i \in 1..Len(ts) :
       LET s == SumSeq(Map(ts[i][5], LAMBDA p : p[5])) n == Len(ts[i][5])
       IN 2 * s - n <= 2 * n * ts[i][4] + n - 1 /\ 2 * n * ts[i][4] <= 2 * s + n
  \* majority: no colour is more frequent
  /\ \A i \in 1..Len(ts) :
       LET n(c) == Cardinality({j \in 1..Len(ts[i][5]) : ts[i][5][j][3] = c})
       IN Len(ts[i][5]) > 2 => \A j \in 1..Len(ts[i][5]) : n(ts[i][5][j][3]) <= n(ts[i][2])
(* the check of team lists is not vacuous: lists with a lost player, a wrong   *)
(* sum or teams in the wrong order are refused                                 *)
Strict ==
  LET ts == TeamList(ps) IN
  ts # <<>> =>
    /\ ~IsTeams(Tail(ts), ps)
    /\ ~IsTeams([ts EXCEPT ![1][3] = @ + 1], ps)
    /\ ~IsTeams([ts EXCEPT ![1][4] = @ + 1], ps)
    /\ ~IsTeams([ts EXCEPT ![1][5] = Tail(@)], ps)
    /\ ~IsTeams(ts \o <<ts[1]>>, ps)
    /\ (Len(ts) > 1 /\ LowerKey(ts[1][1]) # LowerKey(ts[2][1]))
         => ~IsTeams(<<ts[2], ts[1]>> \o SubSeq(ts, 3, Len(ts)), ps)
=============================================================================
