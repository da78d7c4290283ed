-------------------------------- MODULE Bytes --------------------------------
(* Byte strings.  A byte string is a sequence of integers 0..255; offsets are *)
(* 0-based, ranges are half open: Sub(d, a, b) is d[a..b).                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SX == INSTANCE SequencesExt

LOCAL Printable ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

LOCAL CodeOf ==
  [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
     31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]

Tuple(f) == SubSeq(f, 1, Len(f))            \* force an explicit sequence

B(s)  == Tuple([i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]])   \* ASCII text
BH(s) == Tuple([i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)] + 128]) \* "red" text
Map(s, Op(_)) == Tuple([i \in 1..Len(s) |-> Op(s[i])])

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == -MinOf({-x : x \in S})
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

Sub(d, a, b) == SubSeq(d, a + 1, b)

MatchAt(d, n, i) ==            \* requires i + Len(n) <= Len(d)
  \A j \in 1..Len(n) : d[i + j] = n[j]

(* first / last offset in [a, b) at which n occurs completely, or -1 *)
FindIn(d, n, a, b) ==
  LET L == Len(n)
      S == {i \in a..(b - L) : d[i + 1] = n[1] /\ MatchAt(d, n, i)}
  IN IF b - a < L \/ S = {} THEN -1 ELSE MinOf(S)
RFindIn(d, n, a, b) ==
  LET L == Len(n)
      S == {i \in a..(b - L) : d[i + 1] = n[1] /\ MatchAt(d, n, i)}
  IN IF b - a < L \/ S = {} THEN -1 ELSE MaxOf(S)
Find(d, n)  == FindIn(d, n, 0, Len(d))
RFind(d, n) == RFindIn(d, n, 0, Len(d))
Contains(d, n) ==
  LET L == Len(n)
  IN \E i \in 0..(Len(d) - L) : d[i + 1] = n[1] /\ MatchAt(d, n, i)
EndsWith(d, n) == Len(d) >= Len(n) /\ MatchAt(d, n, Len(d) - Len(n))
StartsWith(d, n) == Len(d) >= Len(n) /\ MatchAt(d, n, 0)

FirstByte(d, c, a, b) ==
  LET k == SX!SelectInSeq(SubSeq(d, a + 1, b), LAMBDA x : x = c) IN IF k = 0 THEN -1 ELSE a + k - 1
LastByte(d, c, a, b) ==
  LET k == SX!SelectLastInSeq(SubSeq(d, a + 1, b), LAMBDA x : x = c) IN IF k = 0 THEN -1 ELSE a + k - 1

U16(d, i) == d[i + 1] + 256 * d[i + 2]
(* TLC integers have 32 bits: 4-byte lengths beyond 2^30 are all "Huge"       *)
Huge == 1073741823
U32(d, i) == IF d[i + 4] >= 64 THEN Huge
             ELSE d[i + 1] + 256 * (d[i + 2] + 256 * (d[i + 3] + 256 * d[i + 4]))
LE16(n) == <<n % 256, n \div 256>>
LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>

Rev(s) == Tuple([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
Rep(c, n) == Tuple([i \in 1..n |-> c])
Fold(Op(_, _), base, s) == SX!FoldLeft(Op, base, s)   \* Op(Op(base, s[1]), s[2]) ...
SumSeq(s) == Fold(LAMBDA a, x : a + x, 0, s)
Range(s) == {s[i] : i \in DOMAIN s}
Count(s, Pred(_)) == Cardinality({i \in DOMAIN s : Pred(s[i])})
RECURSIVE Concat(_)
Concat(ss) == IF Len(ss) = 0 THEN <<>>
              ELSE IF Len(ss) = 1 THEN ss[1]
              ELSE LET h == Len(ss) \div 2
                   IN Concat(SubSeq(ss, 1, h)) \o Concat(SubSeq(ss, h + 1, Len(ss)))
Pick(s, Pred(_)) == SelectSeq(s, Pred)

(* lexicographic order of sequences of integers *)
SeqLT(a, b) ==
  \E i \in 0..Len(a) :
     /\ \A j \in 1..i : j <= Len(b) /\ a[j] = b[j]
     /\ i < Len(b)
     /\ IF i = Len(a) THEN TRUE ELSE a[i + 1] < b[i + 1]
SeqLE(a, b) == a = b \/ SeqLT(a, b)

(***************************************************************************)
(* Text                                                                    *)
(***************************************************************************)
IsSpace(c) == c \in (9..13) \cup {32, 133, 160}   \* White_Space within Latin-1
IsDigit(c) == c \in 48..57

TrimEnd(s) ==
  LET S == {i \in 1..Len(s) : ~IsSpace(s[i])}
  IN IF S = {} THEN <<>> ELSE SubSeq(s, 1, MaxOf(S))
TrimStart(s) ==
  LET S == {i \in 1..Len(s) : ~IsSpace(s[i])}
  IN IF S = {} THEN <<>> ELSE SubSeq(s, MinOf(S), Len(s))
Trim(s) == TrimStart(TrimEnd(s))
TrimEndByte(s, c) ==
  LET S == {i \in 1..Len(s) : s[i] # c}
  IN IF S = {} THEN <<>> ELSE SubSeq(s, 1, MaxOf(S))
TrimByte(s, c) ==
  LET e == TrimEndByte(s, c)
      S == {i \in 1..Len(e) : e[i] # c}
  IN IF S = {} THEN <<>> ELSE SubSeq(e, MinOf(S), Len(e))
RECURSIVE TrimEndAll(_, _)
TrimEndAll(s, n) ==
  IF n # <<>> /\ EndsWith(s, n) THEN TrimEndAll(SubSeq(s, 1, Len(s) - Len(n)), n) ELSE s
Without(s, c) == SelectSeq(s, LAMBDA x : x # c)

(* split at every occurrence of byte c *)
Split(s, c) ==
  LET at == <<0>> \o SelectSeq(Tuple([i \in 1..Len(s) |-> i]), LAMBDA i : s[i] = c)
            \o <<Len(s) + 1>>
  IN Tuple([k \in 1..(Len(at) - 1) |-> SubSeq(s, at[k] + 1, at[k + 1] - 1)])

(* Quake characters to plain text, as code points *)
Bullet == 8226
Plain(b) ==
  LET c == b % 128
  IN IF c = 16 THEN 91 ELSE IF c = 17 THEN 93
     ELSE IF c \in 18..27 THEN c + 30
     ELSE IF c \in 32..126 THEN c
     ELSE IF c \in {0, 5, 14, 15, 28} THEN Bullet
     ELSE 32
PlainText(s) == Map(s, Plain)

LowerAscii(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerLatin(c) == IF c \in 65..90 \/ (c \in 192..222 /\ c # 215) THEN c + 32 ELSE c
VisibleKey(s) == Map(PlainText(s), LowerAscii)    \* order of names in views
LowerKey(s)   == Map(s, LowerLatin)               \* order of teams

(* decimal integers within 32 bits, as an option: <<v>>, or <<>> if malformed *)
RECURSIVE DecVal(_, _, _)
DecVal(s, i, acc) == IF i > Len(s) THEN acc ELSE DecVal(s, i + 1, acc * 10 + (s[i] - 48))
ParseI32(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      t == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
      S == {i \in 1..Len(t) : t[i] # 48}
      u == IF S = {} THEN <<>> ELSE SubSeq(t, MinOf(S), Len(t))
      limit == IF neg THEN <<50,49,52,55,52,56,51,54,52,56>> ELSE <<50,49,52,55,52,56,51,54,52,55>>
  IN IF t = <<>> \/ \E i \in 1..Len(t) : ~IsDigit(t[i]) THEN <<>>
     ELSE IF Len(u) > 10 \/ (Len(u) = 10 /\ SeqLT(limit, u)) THEN <<>>
     ELSE IF Len(u) < 10 THEN <<IF neg THEN -DecVal(u, 1, 0) ELSE DecVal(u, 1, 0)>>
     ELSE \* ten digits: assemble downwards to stay within 32 bits
       LET hi == -DecVal(SubSeq(u, 1, 9), 1, 0)
           v  == hi * 10 - (u[10] - 48)
       IN <<IF neg THEN v ELSE -v>>

(* validity of UTF-8 *)
(* state: continuation bytes still needed, and the range of the next one *)
Utf8Step(st, c) ==
  IF st[1] < 0 THEN st
  ELSE IF st[1] > 0 THEN (IF c \in st[2]..st[3] THEN <<st[1] - 1, 128, 191>> ELSE <<-1, 0, 0>>)
  ELSE IF c < 128 THEN st
  ELSE IF c \in 194..223 THEN <<1, 128, 191>>
  ELSE IF c \in 224..239 THEN <<2, IF c = 224 THEN 160 ELSE 128, IF c = 237 THEN 159 ELSE 191>>
  ELSE IF c \in 240..244 THEN <<3, IF c = 240 THEN 144 ELSE 128, IF c = 244 THEN 143 ELSE 191>>
  ELSE <<-1, 0, 0>>
IsUtf8(s) ==
  IF \A i \in 1..Len(s) : s[i] < 128 THEN TRUE ELSE Fold(Utf8Step, <<0, 128, 191>>, s)[1] = 0
=============================================================================
