------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences over 0..255, texts are sequences of Unicode    *)
(* code points.  This module transcribes the encodings every other module    *)
(* relies on: line splitting, decimal / hexadecimal numbers, ASCII case,     *)
(* UTF-8, Latin-1, base16/32/64 and percent-encoding.                        *)
(*                                                                           *)
(* A byte string may also contain opaque tokens (integers >= BLOB) standing  *)
(* for a large block of bytes whose content is irrelevant to the format: the *)
(* token BLOB + id * 2^22 + n stands for block number id, of n bytes.        *)
EXTENDS Integers, Sequences, TLC

CR == 13
LF == 10
SP == 32
HT == 9
COLON == 58
CRLF == <<13, 10>>
None == <<-1>>          \* an absent text

BLOB == 1073741824      \* 2^30: first opaque token
IsBlob(x) == x >= BLOB

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* first index in i..j with P[k] = x, 0 if none (written so that TLC scans, not recurses) *)
IndexIn(P, x, i, j) ==
  IF \E k \in i..j : P[k] = x THEN CHOOSE k \in i..j : P[k] = x /\ \A m \in i..(k - 1) : P[m] # x ELSE 0
(* first opaque token in i..j, 0 if none *)
TokenIn(s, i, j) ==
  IF \E k \in i..j : s[k] >= BLOB THEN CHOOSE k \in i..j : s[k] >= BLOB /\ \A m \in i..(k - 1) : s[m] < BLOB ELSE 0

(* weight in bytes *)
Weight(x) == IF x >= BLOB THEN (x - BLOB) % 4194304 ELSE 1
RECURSIVE WLenFrom(_, _, _)
WLenFrom(s, i, acc) ==
  LET k == TokenIn(s, i, Len(s)) IN
  IF k = 0 THEN acc + Len(s) - i + 1 ELSE WLenFrom(s, k + 1, acc + (k - i) + Weight(s[k]))
WLen(s) == WLenFrom(s, 1, 0)

(* the empty-range-safe slice s[i..j] *)
Slice(s, i, j) == LET k == Min2(j, Len(s)) IN IF k < i THEN <<>> ELSE SubSeq(s, i, k)

Drop(s, n) == Slice(s, n + 1, Len(s))
Take(s, n) == Slice(s, 1, Min2(n, Len(s)))
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ Slice(s, 1, Len(p)) = p
HasPrefixAt(p, s, i) == i + Len(p) - 1 <= Len(s) /\ Slice(s, i, i + Len(p) - 1) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ Slice(s, Len(s) - Len(p) + 1, Len(s)) = p

(* weighted positions: tokens stand for many bytes *)
W(text, i, j) == WLen(Slice(text, i, j))
RECURSIVE Walk(_, _, _)
Walk(text, pos, n) ==
  IF n <= 0 \/ pos >= Len(text) THEN Min2(pos, Len(text))
  ELSE LET k == TokenIn(text, pos + 1, Len(text)) IN
       IF k = 0 \/ k - pos - 1 >= n THEN Min2(Len(text), pos + n)
       ELSE Walk(text, k, n - (k - pos - 1) - Weight(text[k]))
Plainly(text, i, j) == \A k \in i..j : text[k] < BLOB
(* the position n bytes after pos, or the end *)
Ahead(text, pos, n) ==
  LET j == IF n >= Len(text) THEN Len(text) ELSE Min2(Len(text), pos + n) IN
  IF Plainly(text, pos + 1, j) THEN j ELSE Walk(text, pos, n)

(* position of the first x in s at or after i, 0 if none *)
IndexFrom(s, x, i) == IndexIn(s, x, i, Len(s))

Contains(s, x) == \E i \in 1..Len(s) : s[i] = x

(* concatenation of a sequence of sequences *)
RECURSIVE FlattenIn(_, _, _)
FlattenIn(ss, i, j) ==
  IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
  ELSE LET m == (i + j) \div 2 IN FlattenIn(ss, i, m) \o FlattenIn(ss, m + 1, j)
Concat(ss) == FlattenIn(ss, 1, Len(ss))

(* ---------------------------- white space ------------------------------ *)
(* what text stripping removes *)
IsSpaceChar(c) ==
  \/ c \in 9..13 \/ c \in 28..32 \/ c \in {133, 160, 5760}
  \/ c \in 8192..8202 \/ c \in {8232, 8233, 8239, 8287, 12288}
IsSpaceByte(c) == c \in 9..13 \/ c = 32

RECURSIVE RTrimLen(_, _)
RTrimLen(s, n) == IF n > 0 /\ IsSpaceChar(s[n]) THEN RTrimLen(s, n - 1) ELSE n
RStrip(s) == Slice(s, 1, RTrimLen(s, Len(s)))
RECURSIVE LTrimPos(_, _)
LTrimPos(s, i) == IF i <= Len(s) /\ IsSpaceChar(s[i]) THEN LTrimPos(s, i + 1) ELSE i
LStrip(s) == Slice(s, LTrimPos(s, 1), Len(s))
Strip(s) == LStrip(RStrip(s))
RECURSIVE RTrimTabLen(_, _)
RTrimTabLen(s, n) == IF n > 0 /\ s[n] \in {SP, HT} THEN RTrimTabLen(s, n - 1) ELSE n
RStripTab(s) == Slice(s, 1, RTrimTabLen(s, Len(s)))
IsBlankBytes(s) == \A i \in 1..Len(s) : IsSpaceByte(s[i])

(* ------------------------------- case ---------------------------------- *)
LowerC(c) == IF c \in 65..90 THEN c + 32 ELSE c
UpperC(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]
Upper(s) == [i \in 1..Len(s) |-> UpperC(s[i])]

(* ------------------------------ numbers -------------------------------- *)
IsDigit(c) == c \in 48..57
RECURSIVE DecVal(_, _, _)
DecVal(s, i, acc) == IF i > Len(s) THEN acc ELSE DecVal(s, i + 1, acc * 10 + (s[i] - 48))
IsDec(s) == Len(s) \in 1..9 /\ \A i \in 1..Len(s) : IsDigit(s[i])
Dec(s) == DecVal(s, 1, 0)
RECURSIVE NumText(_)
NumText(n) == IF n < 0 THEN <<45>> \o NumText(-n)
              ELSE IF n < 10 THEN <<48 + n>> ELSE NumText(n \div 10) \o <<48 + (n % 10)>>
Pad2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Pad4(n) == Pad2(n \div 100) \o Pad2(n % 100)

HexDigit(c) == IF c \in 48..57 THEN c - 48
               ELSE IF c \in 97..102 THEN c - 87
               ELSE IF c \in 65..70 THEN c - 55 ELSE 99
IsHexStr(s) == \A i \in 1..Len(s) : HexDigit(s[i]) < 16
RECURSIVE HexVal(_, _, _)
HexVal(s, i, acc) == IF i > Len(s) THEN acc ELSE HexVal(s, i + 1, acc * 16 + HexDigit(s[i]))

(* ------------------------------- UTF-8 --------------------------------- *)
IsCont(s, i) == i <= Len(s) /\ s[i] \in 128..191
(* code point starting at i, as <<cp, length>>; <<-1, 0>> if invalid *)
Utf8At(s, i) ==
  LET b == s[i] IN
  IF b < 128 THEN <<b, 1>>
  ELSE IF b \in 194..223 /\ IsCont(s, i + 1) THEN
    <<(b - 192) * 64 + (s[i+1] - 128), 2>>
  ELSE IF b \in 224..239 /\ IsCont(s, i + 1) /\ IsCont(s, i + 2) THEN
    LET v == (b - 224) * 4096 + (s[i+1] - 128) * 64 + (s[i+2] - 128) IN
    IF v < 2048 \/ v \in 55296..57343 THEN <<-1, 0>> ELSE <<v, 3>>
  ELSE IF b \in 240..244 /\ IsCont(s, i + 1) /\ IsCont(s, i + 2) /\ IsCont(s, i + 3) THEN
    LET v == (b - 240) * 262144 + (s[i+1] - 128) * 4096 + (s[i+2] - 128) * 64 + (s[i+3] - 128) IN
    IF v < 65536 \/ v > 1114111 THEN <<-1, 0>> ELSE <<v, 4>>
  ELSE <<-1, 0>>
(* every byte starts a character or continues one *)
Utf8Valid(s) ==
  \A i \in 1..Len(s) : IF s[i] \in 128..191 THEN \E d \in 1..3 : i - d >= 1 /\ s[i - d] >= 192 /\ Utf8At(s, i - d)[2] > d
                       ELSE Utf8At(s, i)[2] > 0
Utf8Text(s) == Concat([i \in 1..Len(s) |-> IF s[i] \in 128..191 THEN <<>> ELSE <<Utf8At(s, i)[1]>>])
IsAscii(s) == \A i \in 1..Len(s) : s[i] < 128
(* text of a byte line: UTF-8, or Latin-1 if it is not valid UTF-8 *)
DecodeLine(s) == IF IsAscii(s) THEN s
                 ELSE IF Utf8Valid(s) THEN Utf8Text(s) ELSE s

Utf8Of(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8Encode(s) == IF IsAscii(s) THEN s ELSE Concat([i \in 1..Len(s) |-> Utf8Of(s[i])])

(* --------------------------- percent-encoding --------------------------- *)
HexUp(n) == IF n < 10 THEN 48 + n ELSE 55 + n
PctByte(b) == <<37, HexUp(b \div 16), HexUp(b % 16)>>
(* characters never percent-encoded: letters digits _ . - ~ / *)
Unreserved(b) == b \in 48..57 \/ b \in 65..90 \/ b \in 97..122 \/ b \in {95, 46, 45, 126, 47}
QuoteBytes(bs) == Concat([i \in 1..Len(bs) |-> IF Unreserved(bs[i]) THEN <<bs[i]>> ELSE PctByte(bs[i])])
Quote(text) == QuoteBytes(Utf8Encode(text))
(* percent-encode only what is not ASCII *)
QuoteNonAscii(t) == IF IsAscii(t) THEN t ELSE Concat([i \in 1..Len(t) |-> IF t[i] < 128 THEN <<t[i]>> ELSE QuoteBytes(Utf8Of(t[i]))])

(* ------------------------------ base N ---------------------------------- *)
RECURSIVE StripPadLen(_, _)
StripPadLen(s, n) == IF n > 0 /\ s[n] = 61 THEN StripPadLen(s, n - 1) ELSE n
StripPad(s) == Slice(s, 1, StripPadLen(s, Len(s)))

B32Digit(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 50..55 THEN c - 24 ELSE 99
B64Digit(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71
               ELSE IF c \in 48..57 THEN c + 4
               ELSE IF c \in {43, 45} THEN 62 ELSE IF c \in {47, 95} THEN 63 ELSE 99

(* bits of a digit sequence, most significant first *)
Bit(v, k) == (v \div (2 ^ k)) % 2
BitsOf(digits, w) == [i \in 1..(Len(digits) * w) |-> Bit(digits[((i - 1) \div w) + 1], w - 1 - ((i - 1) % w))]
BytesOfBits(bits, n) ==
  [i \in 1..n |-> LET o == (i - 1) * 8 IN
     bits[o+1]*128 + bits[o+2]*64 + bits[o+3]*32 + bits[o+4]*16 + bits[o+5]*8 + bits[o+6]*4 + bits[o+7]*2 + bits[o+8]]

(* decoded bytes, or None when not of that alphabet *)
DecodeBase(s, digit(_), w) ==
  LET d == StripPad(s) IN
  IF \E i \in 1..Len(d) : digit(d[i]) = 99 THEN None
  ELSE BytesOfBits(BitsOf([i \in 1..Len(d) |-> digit(d[i])], w), (Len(d) * w) \div 8)
Base32Decode(s) == DecodeBase(s, B32Digit, 5)
Base64Decode(s) == DecodeBase(s, B64Digit, 6)
Base16Decode(s) == IF IsHexStr(s) /\ Len(s) % 2 = 0
                   THEN [i \in 1..(Len(s) \div 2) |-> HexDigit(s[2*i-1]) * 16 + HexDigit(s[2*i])] ELSE None
=============================================================================
