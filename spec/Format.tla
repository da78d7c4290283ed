-------------------------------- MODULE Format -------------------------------
(* The writer's side of the file format: how a server puts messages, frames   *)
(* and statistics blocks into bytes.                                          *)
EXTENDS Tables

(* --- messages --- *)
PrintMsg(level, text) == <<8, level>> \o text \o <<0>>
FragMsg(slot, frags)  == <<14, slot>> \o LE16(frags % 65536)
PingMsg(slot, ping)   == <<36, slot>> \o LE16(ping) \o <<53, slot, 0>>
StuffMsg(text)        == <<9>> \o text \o <<0>>
StatusMsg(status)     == <<52>> \o B("status") \o <<0>> \o status \o <<0>>
UserMsg(slot, info)   == <<40, slot>> \o <<(slot + 65) % 256, 1, 0, 0>> \o info \o <<0>>
SpawnMsg              == StuffMsg(B("cmd spawn 7 0") \o NL)
ServerinfoMsg(info)   == StuffMsg(ServerinfoMark \o info \o Q \o NL)
EndMsg                == <<2>> \o B("EndOfDemo") \o <<0>>

(* --- frames: time delta, target (low 3 bits of the header byte; the other    *)
(* bits carry a player slot), body; a frame for multiple clients names them in *)
(* a mask of 32 bits --- *)
Bit(n) == [k \in 1..4 |-> IF n \div 8 = k - 1 THEN 2 ^ (n % 8) ELSE 0]
Frame(dt, target, slot, body) ==
  <<dt, target + 8 * slot>>
  \o (IF target = 3 THEN Bit(slot) ELSE <<>>)
  \o (IF target \in {1, 3, 4, 5, 6} THEN LE32(Len(body)) \o body
      ELSE IF target = 2 THEN <<0, 0, 0, 0, 0, 0, 0, 0>> ELSE <<>>)
HeaderSize(target) == IF target = 3 THEN 10 ELSE IF target \in {1, 4, 5, 6} THEN 6 ELSE 2

(* --- hidden data: for multiple clients, but no recipient --- *)
HiddenFrame(dt, slot, body) == <<dt, 3 + 8 * slot, 0, 0, 0, 0>> \o LE32(Len(body)) \o body

(* --- hidden blocks: [size of the rest but the type][type][number][payload] --- *)
Block(type, number, payload) ==
  LE32(Len(payload) + 2) \o LE16(type) \o LE16(number) \o payload
BlockFrame(dt, type, number, payload) == HiddenFrame(dt, 0, Block(type, number, payload))

(* --- info strings: key/value pairs --- *)
Info(pairs) == Concat(Map(pairs, LAMBDA p : <<92>> \o p[1] \o <<92>> \o p[2]))
Dec(n) == B(ToString(n))
UserInfo(c) ==    \* client: number, name, team, colors, spectator, bot, auth, country
  Info((IF c[3] # <<>> THEN << <<B("team"), c[3]>> >> ELSE <<>>)   \* no empty values
       \o << <<B("topcolor"), Dec(c[4][1])>>, <<B("bottomcolor"), Dec(c[4][2])>> >>
       \o (IF c[5] THEN << <<B("*spectator"), B("1")>> >> ELSE <<>>)
       \o (IF c[6] THEN << <<B("*bot"), B("1")>> >> ELSE <<>>)
       \o (IF c[7] # <<>> THEN << <<B("*auth"), c[7][1]>> >> ELSE <<>>)
       \o (IF c[8] # <<>> THEN << <<B("*flag"), c[8][1]>> >> ELSE <<>>)
       \o << <<B("name"), c[2]>>, <<B("pmodel"), B("1")>> >>)
=============================================================================
