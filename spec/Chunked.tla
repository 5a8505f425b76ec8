------------------------------ MODULE Chunked -------------------------------
(* HTTP chunked transfer coding, as a function from the body bytes to the     *)
(* decoded bytes, with the fallback for bodies that are not (or no longer)    *)
(* chunked: from the malformed element on, bytes are passed as they are.      *)
(*   Decode(raw, raising) = [data, err]                                       *)
(* raising: the caller asked for problems to be raised; then err is TRUE if   *)
(* one is found and data is what precedes it.                                 *)
EXTENDS Stream

RECURSIVE LTrimHT(_)
LTrimHT(s) == IF s # <<>> /\ IsSpaceByte(Head(s)) THEN LTrimHT(Tail(s)) ELSE s
RECURSIVE RTrimHT(_)
RTrimHT(s) == IF s # <<>> /\ IsSpaceByte(s[Len(s)]) THEN RTrimHT(Slice(s, 1, Len(s) - 1)) ELSE s
RECURSIVE LTrimZero(_)
LTrimZero(s) == IF s # <<>> /\ Head(s) = 48 THEN LTrimZero(Tail(s)) ELSE s

(* size announced by a size line, -1 if it is not one *)
SizeOf(line) ==
  IF ~EndsWith(line, CRLF) THEN -1
  ELSE LET body == Slice(line, 1, Len(line) - 2)
           semi == IndexFrom(body, 59, 1)
           num  == RTrimHT(LTrimHT(IF semi = 0 THEN body ELSE Slice(body, 1, semi - 1)))
           sig  == LTrimZero(num)
       IN IF num = <<>> \/ ~IsHexStr(num) THEN -1
          ELSE IF sig = <<56,48,48,48,48,48,48,48>> THEN 2147483647      \* 2^31, the largest one; no body here is that long
          ELSE IF Len(sig) > 8 \/ (Len(sig) = 8 /\ HexDigit(sig[1]) > 7) THEN -1
          ELSE HexVal(sig, 1, 0)

(* a size line: of 64 bytes at most, or more if it has extensions *)
SizeLine(raw, pos) ==
  LET a == LineAt(raw, pos, 64) IN
  IF Contains(a, 59) /\ a[Len(a)] # LF THEN a \o LineAt(raw, pos + Len(a), 16384) ELSE a

(* end of the trailer part starting at pos: position after the last line      *)
(* with a colon, and the line that ends it                                     *)
RECURSIVE TrailerEnd(_, _)
TrailerEnd(raw, pos) ==
  LET ln == LineAt(raw, pos, -1) IN
  IF Contains(ln, COLON) THEN TrailerEnd(raw, pos + Len(ln)) ELSE [pos |-> pos, last |-> ln]

RECURSIVE DecodeFrom(_, _, _, _)
DecodeFrom(raw, pos, acc, raising) ==
  LET line == SizeLine(raw, pos)
      size == SizeOf(line)
      p1   == pos + Len(line)
  IN
  IF size < 0 THEN
     IF raising THEN [data |-> acc, err |-> TRUE]
     ELSE [data |-> acc \o Drop(raw, pos), err |-> FALSE]
  ELSE IF size = 0 THEN
     LET t == TrailerEnd(raw, p1) IN
     IF t.last = CRLF THEN [data |-> acc, err |-> FALSE]
     ELSE IF raising THEN [data |-> acc, err |-> TRUE]
     ELSE [data |-> acc \o Drop(raw, pos), err |-> FALSE]
  ELSE
     LET p2    == Ahead(raw, p1, size)
         data  == Slice(raw, p1 + 1, p2)
         term  == Slice(raw, p2 + 1, Min2(Len(raw), p2 + 2))
     IN
     IF WLen(data) < size \/ term = <<>> THEN
        (* cut off inside a chunk *)
        IF raising THEN [data |-> acc, err |-> TRUE]
        ELSE [data |-> acc \o data, err |-> FALSE]
     ELSE IF term = CRLF THEN DecodeFrom(raw, p2 + 2, acc \o data, raising)
     ELSE IF raising THEN [data |-> acc, err |-> TRUE]
     ELSE (* not chunked after all: the size line and data are passed as they  *)
          (* are; the two bytes found instead of a terminator are dropped      *)
          [data |-> acc \o line \o data \o Drop(raw, p2 + Len(term)), err |-> FALSE]

Decode(raw, raising) == DecodeFrom(raw, 0, <<>>, raising)

(* the encoder, for the model *)
HexText(n) == LET RECURSIVE Hx(_)
                  Hx(k) == LET d == k % 16
                               c == IF d < 10 THEN 48 + d ELSE 87 + d
                           IN IF k < 16 THEN <<c>> ELSE Hx(k \div 16) \o <<c>>
              IN Hx(n)
EncodeChunk(d) == HexText(Len(d)) \o CRLF \o d \o CRLF
RECURSIVE EncodeFrom(_, _)
EncodeFrom(ds, i) == IF i > Len(ds) THEN <<48, 13, 10, 13, 10>> ELSE EncodeChunk(ds[i]) \o EncodeFrom(ds, i + 1)
Encode(ds) == EncodeFrom(ds, 1)
=============================================================================
