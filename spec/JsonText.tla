------------------------------- MODULE JsonText -------------------------------
(* Reading a JSON text: one step per byte, with the open objects and arrays on *)
(* a stack.  Values are <<"obj", pairs>>, <<"arr", values>>, <<"str", code      *)
(* points>>, <<"num", characters>>, <<"word", letters>>.                       *)
EXTENDS Bytes

JsonSpace(c) == c \in {9, 10, 13, 32}
JsonStart == [m |-> "value", stk |-> <<>>, buf |-> <<>>, hex |-> <<>>, key |-> FALSE,
              odd |-> FALSE, val |-> <<>>]
MaxText == 4096          \* longer texts are read, but not kept

HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c \in 97..102 THEN c - 87
             ELSE IF c \in 65..70 THEN c - 55 ELSE -1
(* code points of a string: bytes of UTF-8, and -1 - u for an escaped unit u   *)
(* state: <<code points, missing bytes, value so far, high surrogate>>         *)
TextStep(st, x) ==
  LET out == st[1] IN
  IF st[4] # 0
  THEN IF x < 0 /\ (-1 - x) \in 56320..57343
       THEN <<Append(out, 65536 + (st[4] - 55296) * 1024 + (-1 - x - 56320)), 0, 0, 0>>
       ELSE <<Append(out, -1), 0, 0, 0>>
  ELSE IF x < 0
  THEN LET u == -1 - x IN
       IF u \in 55296..56319 THEN <<out, 0, 0, u>>
       ELSE <<Append(out, IF u \in 56320..57343 THEN -1 ELSE u), 0, 0, 0>>
  ELSE IF st[2] > 0
  THEN LET v == st[3] * 64 + (x % 64) IN
       IF st[2] = 1 THEN <<Append(out, v), 0, 0, 0>> ELSE <<out, st[2] - 1, v, 0>>
  ELSE IF x < 128 THEN <<Append(out, x), 0, 0, 0>>
  ELSE IF x < 224 THEN <<out, 1, x % 32, 0>>
  ELSE IF x < 240 THEN <<out, 2, x % 16, 0>>
  ELSE <<out, 3, x % 8, 0>>
TextOfUnits(u) ==
  IF Len(u) >= MaxText THEN <<-1>>
  ELSE IF \A i \in 1..Len(u) : u[i] \in 0..127 THEN u
  ELSE LET r == Fold(TextStep, << <<>>, 0, 0, 0>>, u)
       IN IF r[4] # 0 \/ \E i \in 1..Len(r[1]) : r[1][i] < 0 THEN <<-1>> ELSE r[1]
Unclear(text) == text = <<-1>>     \* a lone surrogate, or longer than MaxText

(* sign, digits without a leading zero, fraction, exponent *)
IsNumber(s) ==
  LET t == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s
      E == {i \in 1..Len(t) : t[i] \in {69, 101}}
      e == IF E = {} THEN Len(t) + 1 ELSE MinOf(E)
      man == SubSeq(t, 1, e - 1)
      exp == SubSeq(t, e + 1, Len(t))
      ex == IF exp # <<>> /\ exp[1] \in {43, 45} THEN Tail(exp) ELSE exp
      dot == FirstByte(man, 46, 0, Len(man))
      ip == IF dot < 0 THEN man ELSE Sub(man, 0, dot)
      fp == IF dot < 0 THEN <<>> ELSE Sub(man, dot + 1, Len(man))
      digits(x) == x # <<>> /\ \A i \in 1..Len(x) : IsDigit(x[i])
  IN /\ digits(ip) /\ (Len(ip) > 1 => ip[1] # 48)
     /\ (dot >= 0 => digits(fp))
     /\ (E # {} => digits(ex))
IsInteger(s) == \A i \in 1..Len(s) : IsDigit(s[i]) \/ (i = 1 /\ s[i] = 45)
Words == {B("true"), B("false"), B("null")}

Bad(st) == [st EXCEPT !.m = "bad"]
Mode(st, m) == [st EXCEPT !.m = m]
Give(st, v) ==                       \* a value is complete
  IF st.stk = <<>> THEN [st EXCEPT !.m = "end", !.val = <<v>>, !.buf = <<>>]
  ELSE LET n == Len(st.stk) top == st.stk[n]
       IN [st EXCEPT !.m = "next", !.buf = <<>>,
             !.stk[n].items = Append(@, IF top.t = "obj" THEN <<top.key, v>> ELSE v)]
Close(st) == LET n == Len(st.stk)
             IN Give([st EXCEPT !.stk = SubSeq(@, 1, n - 1)], <<st.stk[n].t, st.stk[n].items>>)
Open(st, t, m) == [st EXCEPT !.stk = Append(@, [t |-> t, items |-> <<>>, key |-> <<>>]), !.m = m,
                             !.odd = @ \/ Len(st.stk) > 100]
Top(st) == st.stk[Len(st.stk)].t
AtValue(st, c) ==
  IF c = 34 THEN [st EXCEPT !.m = "text", !.buf = <<>>, !.key = FALSE]
  ELSE IF c = 123 THEN Open(st, "obj", "key1")
  ELSE IF c = 91 THEN Open(st, "arr", "value1")
  ELSE IF c = 45 \/ IsDigit(c) THEN [st EXCEPT !.m = "num", !.buf = <<c>>]
  ELSE IF c \in 97..122 THEN [st EXCEPT !.m = "word", !.buf = <<c>>]
  ELSE Bad(st)
EndText(st) ==
  LET t == TextOfUnits(st.buf)
      s == [st EXCEPT !.odd = @ \/ (Unclear(t) /\ Len(st.buf) < MaxText)]
  IN IF st.key THEN [s EXCEPT !.stk[Len(st.stk)].key = t, !.buf = <<>>, !.m = "colon"]
     ELSE Give(s, <<"str", t>>)
EscapedAs(c) == IF c \in {34, 92, 47} THEN c
                ELSE IF c = 98 THEN 8 ELSE IF c = 102 THEN 12 ELSE IF c = 110 THEN 10
                ELSE IF c = 114 THEN 13 ELSE IF c = 116 THEN 9 ELSE -1
Keep(buf, x) == IF Len(buf) >= MaxText THEN buf ELSE Append(buf, x)
Between(st, c) ==                    \* modes in which a value has just ended
  IF JsonSpace(c) THEN st
  ELSE IF st.m = "end" THEN Bad(st)
  ELSE IF c = 44 THEN Mode(st, IF Top(st) = "obj" THEN "key" ELSE "value")
  ELSE IF (c = 125 /\ Top(st) = "obj") \/ (c = 93 /\ Top(st) = "arr") THEN Close(st)
  ELSE Bad(st)
EndNumber(st) == IF IsNumber(st.buf) THEN Give(st, <<"num", st.buf>>) ELSE Bad(st)
EndWord(st) == IF st.buf \in Words THEN Give(st, <<"word", st.buf>>) ELSE Bad(st)
JsonStep(st, c) ==
  CASE st.m = "text" ->
         IF c = 34 THEN EndText(st) ELSE IF c = 92 THEN Mode(st, "escape")
         ELSE IF c < 32 THEN Bad(st) ELSE [st EXCEPT !.buf = Keep(@, c)]
    [] st.m = "escape" ->
         IF c = 117 THEN [st EXCEPT !.m = "hex", !.hex = <<>>]
         ELSE IF EscapedAs(c) < 0 THEN Bad(st)
         ELSE [st EXCEPT !.m = "text", !.buf = Keep(@, EscapedAs(c))]
    [] st.m = "hex" ->
         IF HexVal(c) < 0 THEN Bad(st)
         ELSE IF Len(st.hex) < 3 THEN [st EXCEPT !.hex = Append(@, HexVal(c))]
         ELSE LET u == ((st.hex[1] * 16 + st.hex[2]) * 16 + st.hex[3]) * 16 + HexVal(c)
              IN [st EXCEPT !.m = "text", !.buf = Keep(@, IF u < 128 THEN u ELSE -1 - u)]
    [] st.m = "num" ->
         IF IsDigit(c) \/ c \in {43, 45, 46, 69, 101} THEN [st EXCEPT !.buf = Keep(@, c)]
         ELSE LET s == EndNumber(st) IN IF s.m = "bad" THEN s ELSE Between(s, c)
    [] st.m = "word" ->
         IF c \in 97..122 THEN [st EXCEPT !.buf = Keep(@, c)]
         ELSE LET s == EndWord(st) IN IF s.m = "bad" THEN s ELSE Between(s, c)
    [] st.m \in {"next", "end"} -> Between(st, c)
    [] st.m = "bad" -> st
    [] JsonSpace(c) -> st
    [] st.m = "value" -> AtValue(st, c)
    [] st.m = "value1" -> IF c = 93 THEN Close(st) ELSE AtValue(st, c)
    [] st.m = "key1" /\ c = 125 -> Close(st)
    [] st.m \in {"key", "key1"} /\ c = 34 -> [st EXCEPT !.m = "text", !.buf = <<>>, !.key = TRUE]
    [] st.m = "colon" /\ c = 58 -> Mode(st, "value")
    [] OTHER -> Bad(st)
(* [ok, odd, val]: odd if readers may differ *)
JsonRead(t) ==
  LET s == Fold(JsonStep, JsonStart, t)
      e == IF s.stk # <<>> THEN Bad(s) ELSE IF s.m = "num" THEN EndNumber(s)
           ELSE IF s.m = "word" THEN EndWord(s) ELSE s
  IN [ok |-> e.m = "end", odd |-> e.odd, val |-> e.val]
=============================================================================
