----------------------------- MODULE HeaderBlock -----------------------------
(* Header blocks: a status line, header lines with continuations, a blank     *)
(* line.  Parsing from bytes, and serialising to text, UTF-8 or ASCII.         *)
EXTENDS Stream, Headers

(* text of a line without its line end and trailing blanks *)
LineText(line) == RStrip(DecodeLine(line))
Continues(t) == t # <<>> /\ t[1] \in {SP, HT}

(* header lines from pos: [hdrs, next]; ends after the first blank line or at end *)
RECURSIVE ContFrom(_, _, _, _)
(* continuation lines from pos appended to val: [val, line, pos] with the first *)
(* line that is none and the position after it                                   *)
ContFrom(S, end, pos, val) ==
  LET line == LineIn(S, end, pos, -1)
      t == LineText(line)
  IN IF Continues(t) THEN ContFrom(S, end, pos + Len(line), IF val = <<>> THEN LStrip(t) ELSE val \o t)
     ELSE [val |-> val, text |-> t, pos |-> pos + Len(line)]
RECURSIVE LinesFrom(_, _, _, _, _)
LinesFrom(S, end, text, pos, acc) ==
  IF text = <<>> THEN [hdrs |-> acc, next |-> pos]
  ELSE LET k == IndexFrom(text, COLON, 1)
           r == ContFrom(S, end, pos, IF k = 0 THEN <<>> ELSE LStrip(Drop(text, k)))
       IN LinesFrom(S, end, r.text, r.pos,
                    IF k = 0 THEN acc ELSE Append(acc, <<RStripTab(Slice(text, 1, k - 1)), r.val>>))
HeaderLines(S, end, pos) ==
  LET line == LineIn(S, end, pos, -1) IN LinesFrom(S, end, LineText(line), pos + Len(line), <<>>)

(* first matching prefix of a list, case-insensitively; 0 if none *)
PrefixIdx(t, prefixes) ==
  LET M == {i \in 1..Len(prefixes) : IsPrefixOf(prefixes[i], Upper(t))}
  IN IF M = {} THEN 0 ELSE First(M)

(* a block whose first line is `first` and whose other lines start at pos      *)
(* kind: ok, eof (nothing there), bad (not the status line that was expected)  *)
ParseAfter(S, end, first, pos, prefixes, verify) ==
  LET t == LineText(first)
      i == PrefixIdx(t, prefixes)
      k == IndexFrom(t, SP, 1)
      proto == IF verify THEN prefixes[i] ELSE IF k = 0 THEN t ELSE Slice(t, 1, k - 1)
      rest == IF verify THEN Drop(t, Len(prefixes[i])) ELSE IF k = 0 THEN <<>> ELSE Drop(t, k)
      h == HeaderLines(S, end, pos)
  IN IF first = <<>> THEN [kind |-> "eof", proto |-> <<>>, status |-> <<>>, hdrs |-> <<>>, next |-> pos]
     ELSE IF t = <<>> THEN [kind |-> "ok", proto |-> <<>>, status |-> <<>>, hdrs |-> <<>>, next |-> pos]
     ELSE IF verify /\ i = 0 THEN [kind |-> "bad", proto |-> <<>>, status |-> <<>>, hdrs |-> <<>>, next |-> pos]
     ELSE [kind |-> "ok", proto |-> proto, status |-> Strip(rest), hdrs |-> h.hdrs, next |-> h.next]
ParseBlock(S, end, pos, prefixes, verify) ==
  LET line == LineIn(S, end, pos, -1) IN ParseAfter(S, end, line, pos + Len(line), prefixes, verify)

(* ---------------------------- serialising ------------------------------ *)
(* a filter on names: [drop |-> names, set |-> <<name, newname, newvalue>>*]    *)
NoFilter == [drop |-> <<>>, set |-> <<>>]
FilterOne(f, h) ==
  IF \E i \in 1..Len(f.drop) : SameName(f.drop[i], h[1]) THEN <<>>
  ELSE LET M == {i \in 1..Len(f.set) : SameName(f.set[i][1], h[1])} IN
       IF M = {} THEN <<h>> ELSE <<<<f.set[First(M)][2], f.set[First(M)][3]>>>>
Filtered(f, hs) ==
  IF f.drop = <<>> /\ f.set = <<>> THEN hs ELSE Concat([i \in 1..Len(hs) |-> FilterOne(f, hs[i])])

LineOf(h) == h[1] \o <<COLON, SP>> \o h[2] \o CRLF
StatusLine(proto, status) ==
  LET s == proto \o (IF proto # <<>> /\ status # <<>> THEN <<SP>> ELSE <<>>) \o status
  IN IF s = <<>> THEN <<>> ELSE s \o CRLF
BlockText(proto, status, hdrs) ==
  StatusLine(proto, status) \o Concat([i \in 1..Len(hdrs) |-> LineOf(hdrs[i])])
Utf8Block(proto, status, hdrs) == Utf8Encode(BlockText(proto, status, hdrs)) \o CRLF

(* ----- percent-encoding of values that are not ASCII (RFC 8187 for params) --- *)
(* (scans, so that long values do not mean deep recursion) *)
RunEnd(s, i) == IF \E k \in i..Len(s) : s[k] \in {59, 34}
                THEN CHOOSE k \in i..Len(s) : s[k] \in {59, 34} /\ \A m \in i..(k - 1) : s[m] \notin {59, 34}
                ELSE Len(s) + 1
ExtMark == <<42, 61, 85, 84, 70, 45, 56, 39, 39>>        \* *=UTF-8''
RECURSIVE EncParams(_, _)
EncParams(s, i) ==
  LET eq == IndexFrom(s, 61, i) IN
  IF i > Len(s) THEN <<>>
  ELSE IF eq # i THEN (IF eq = 0 THEN Slice(s, i, Len(s)) ELSE Slice(s, i, eq - 1) \o EncParams(s, eq))
  ELSE LET j == i + 1
           quoted == j <= Len(s) /\ s[j] \in {34, 39} /\ j + 1 <= Len(s) /\ s[j + 1] \notin {59, 34}
           g == IF quoted THEN j + 1 ELSE j
           e == RunEnd(s, g)
       IN IF e = g THEN <<61>> \o EncParams(s, i + 1)
          ELSE ExtMark \o Quote(Slice(s, g, e - 1)) \o EncParams(s, IF e <= Len(s) /\ s[e] = 34 THEN e + 1 ELSE e)
EncValue(v) ==
  IF IsAscii(v) THEN v
  ELSE IF ~Contains(v, 59) THEN Quote(v)
  ELSE LET p == EncParams(v, 1) IN IF p = v THEN Quote(v) ELSE p
EncHeaders(hdrs) == Concat([i \in 1..Len(hdrs) |-> << <<hdrs[i][1], EncValue(hdrs[i][2])>> >>])

AllAscii(proto, status, hdrs) == IsAscii(BlockText(proto, status, hdrs))
AsciiText(proto, status, hdrs, f) ==
  IF AllAscii(proto, status, Filtered(f, hdrs)) THEN BlockText(proto, status, Filtered(f, hdrs))
  ELSE QuoteNonAscii(BlockText(proto, status, Filtered(f, EncHeaders(hdrs))))
AsciiBlock(proto, status, hdrs, f) == AsciiText(proto, status, hdrs, f) \o CRLF

(* headers that can be written and read back as they are *)
NoNewline(t) == ~Contains(t, CR) /\ ~Contains(t, LF)
WellFormedName(n) == n # <<>> /\ NoNewline(n) /\ ~Contains(n, COLON) /\ RStrip(n) = n /\ ~IsSpaceChar(n[1])
WellFormedValue(v) == NoNewline(v) /\ Strip(v) = v
WellFormed(hdrs) == \A i \in 1..Len(hdrs) : WellFormedName(hdrs[i][1]) /\ WellFormedValue(hdrs[i][2])
=============================================================================
