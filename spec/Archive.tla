------------------------------- MODULE Archive -------------------------------
(* WARC and ARC archives and the iterator over them.                           *)
(*                                                                             *)
(* An archive is a sequence of segments                                        *)
(*   [gz |-> compressed member?, coff, clen |-> extent in the file,            *)
(*    text |-> its (decompressed) bytes]                                       *)
(* An uncompressed file is one segment.  The last segment of a compressed file *)
(* may be uncompressed trailing data.  The text may contain opaque tokens      *)
(* (Bytes.tla) for large payloads.                                             *)
(*                                                                             *)
(* ReadAll(segs, opt) is what iterating yields: the records, in order, and     *)
(* how the iteration ends.                                                     *)
EXTENDS HeaderBlock, Timestamp

WarcTypes == << <<87,65,82,67,47,49,46,49>>, <<87,65,82,67,47,49,46,48>>, <<87,65,82,67,47,48,46,49,55>>, <<87,65,82,67,47,48,46,49,56>> >>
HttpTypes == << <<72,84,84,80,47,49,46,48>>, <<72,84,84,80,47,49,46,49>> >>
HttpVerbs == << <<71,69,84>>, <<72,69,65,68>>, <<80,79,83,84>>, <<80,85,84>>, <<68,69,76,69,84,69>>, <<84,82,65,67,69>>,
                <<79,80,84,73,79,78,83>>, <<67,79,78,78,69,67,84>>, <<80,65,84,67,72>> >>
TWarcType == <<87,65,82,67,45,84,121,112,101>>
TTargetUri == <<87,65,82,67,45,84,97,114,103,101,116,45,85,82,73>>
TRecordId == <<87,65,82,67,45,82,101,99,111,114,100,45,73,68>>
TFilename == <<87,65,82,67,45,70,105,108,101,110,97,109,101>>
TIp == <<87,65,82,67,45,73,80,45,65,100,100,114,101,115,115>>
TDate == <<87,65,82,67,45,68,97,116,101>>
TContentLength == <<67,111,110,116,101,110,116,45,76,101,110,103,116,104>>
TContentType == <<67,111,110,116,101,110,116,45,84,121,112,101>>
TResponse == <<114,101,115,112,111,110,115,101>>
TRequest == <<114,101,113,117,101,115,116>>
TRevisit == <<114,101,118,105,115,105,116>>
TWarcinfo == <<119,97,114,99,105,110,102,111>>
TArcHeader == <<97,114,99,95,104,101,97,100,101,114>>
TFiledesc == <<102,105,108,101,100,101,115,99,58,47,47>>
THttp == <<104,116,116,112,58>>
THttps == <<104,116,116,112,115,58>>
THttpResponse == <<97,112,112,108,105,99,97,116,105,111,110,47,104,116,116,112,59,109,115,103,116,121,112,101,61,114,101,115,112,111,110,115,101>>
TWarc10 == <<87,65,82,67,47,49,46,48>>
TUri == <<117,114,105>>
TIpAddress == <<105,112,45,97,100,100,114,101,115,115>>
TArchiveDate == <<97,114,99,104,105,118,101,45,100,97,116,101>>
TLowContentType == <<99,111,110,116,101,110,116,45,116,121,112,101>>
TLength == <<108,101,110,103,116,104>>
T200 == <<50,48,48,32,79,75>>
THttp10 == <<72,84,84,80,47,49,46,48>>
AnyId == <<-3>>                      \* a generated record id
AnyIso == <<-5>>                     \* some date

IsBlankLine(line) == \A i \in 1..Len(line) : IsSpaceByte(line[i])

(* first line that is not blank at or after pos: [line, pos before it] *)
RECURSIVE SkipBlank(_, _)
SkipBlank(S, pos) ==
  LET line == LineIn(S, Len(S), pos, -1) IN
  IF line = <<>> THEN [line |-> <<>>, pos |-> pos]
  ELSE IF IsBlankLine(line) THEN SkipBlank(S, pos + Len(line))
  ELSE [line |-> line, pos |-> pos]

(* a length field as a number: absent -> -1, not a number or negative -> -2 *)
LengthOf(t) ==
  IF t = None THEN -1
  ELSE LET s == Strip(t)
           d == IF s # <<>> /\ s[1] = 43 THEN Drop(s, 1) ELSE s
       IN IF IsDec(d) THEN Dec(d)
          ELSE IF Len(d) > 9 /\ (\A i \in 1..Len(d) : IsDigit(d[i])) THEN
             IF Len(d) = 10 /\ (d[1] = 49 \/ (d[1] = 50 /\ d[2] = 48)) THEN DecVal(d, 1, 0) ELSE 2147483647   \* no more is told apart
          ELSE -2

(* target URI with < > removed and spaces encoded *)
EncSpaces(t) == Concat([i \in 1..Len(t) |-> IF t[i] = SP THEN <<37, 50, 48>> ELSE <<t[i]>>])
FixUri(u) ==
  LET a == IF Len(u) >= 1 /\ u[1] = 60 /\ u[Len(u)] = 62 THEN Slice(u, 2, Len(u) - 1) ELSE u
  IN IF Contains(a, SP) THEN EncSpaces(a) ELSE a

(* text split at the last n-1 spaces *)
RECURSIVE RSplit(_, _, _, _)
RSplit(t, i, n, acc) ==       \* i: end of the part being looked for
  IF n = 1 THEN <<Slice(t, 1, i)>> \o acc
  ELSE LET S == {k \in 1..i : t[k] = SP} IN
       IF S = {} THEN <<Slice(t, 1, i)>> \o acc
       ELSE LET k == Last(S) IN RSplit(t, k - 1, n - 1, <<Slice(t, k + 1, i)>> \o acc)

NoHttp == [has |-> FALSE, proto |-> <<>>, status |-> <<>>, hdrs |-> <<>>]

(* ---- record heads: the first line is `line`, the rest of the text starts at pos *)
(* result: [kind: ok / bad / ..., fmt, type, uri, proto, hdrs, ctype, len, next]   *)
Bad(kind) == [kind |-> kind, fmt |-> "", type |-> None, uri |-> None, proto |-> <<>>, hdrs |-> <<>>, ctype |-> None, len |-> 0, next |-> 0]

WarcHead(S, line, pos) ==
  LET p == ParseAfter(S, Len(S), line, pos, WarcTypes, TRUE)
      u == Get(p.hdrs, TTargetUri, None)
      hs == IF u # None /\ FixUri(u) # u THEN Replace(p.hdrs, TTargetUri, FixUri(u)) ELSE p.hdrs
  IN IF p.kind # "ok" THEN Bad("bad")
     ELSE [kind |-> "ok", fmt |-> "warc", type |-> Get(hs, TWarcType, None), uri |-> IF u = None THEN None ELSE FixUri(u),
           proto |-> p.proto, hdrs |-> hs, ctype |-> Get(hs, TContentType, None),
           len |-> LengthOf(Get(hs, TContentLength, None)), next |-> p.next]

(* a date that is not just digits becomes some date *)
ArcDate(t) == IF \A i \in 1..Min2(14, Len(t)) : IsDigit(t[i]) THEN Iso(FromTimestamp(t)) ELSE AnyIso
ArcHead(S, line, pos, a2w) ==
  LET t == LineText(line)
      fd == IsPrefixOf(TFiledesc, t)
      l1 == IF fd THEN LineIn(S, Len(S), pos, -1) ELSE <<>>
      l2 == IF fd THEN LineIn(S, Len(S), pos + Len(l1), -1) ELSE <<>>
      sub == Len(l1) + Len(l2)
      p == RSplit(t, Len(t), 5, <<>>)
      n == LengthOf(p[5])
      len == IF n < 0 THEN -2 ELSE IF n - sub < 0 THEN -2 ELSE IF n = 2147483647 THEN n ELSE n - sub
      type == IF a2w THEN (IF fd THEN TWarcinfo ELSE TResponse) ELSE IF fd THEN TArcHeader ELSE TResponse
      ct == IF a2w /\ ~fd THEN THttpResponse ELSE p[4]
      hs == IF a2w
            THEN << <<TWarcType, type>>, <<TRecordId, AnyId>>,
                    IF fd THEN <<TFilename, Drop(p[1], Len(TFiledesc))>> ELSE <<TTargetUri, FixUri(p[1])>>,
                    <<TIp, p[2]>>, <<TDate, ArcDate(p[3])>>, <<TContentType, ct>>, <<TContentLength, p[5]>> >>
            ELSE << <<TUri, p[1]>>, <<TIpAddress, p[2]>>, <<TArchiveDate, p[3]>>, <<TLowContentType, p[4]>>, <<TLength, p[5]>> >>
  IN IF Len(p) # 5 THEN Bad("bad")
     ELSE [kind |-> "ok", fmt |-> IF a2w THEN "warc" ELSE "arc", type |-> type,
           uri |-> IF a2w /\ fd THEN None ELSE IF a2w THEN FixUri(p[1]) ELSE p[1],
           proto |-> TWarc10, hdrs |-> hs, ctype |-> ct, len |-> len, next |-> pos + sub]

(* fmt: "" any, "warc", "arc" *)
HeadOf(S, line, pos, fmt, a2w) ==
  LET w == IF fmt = "arc" THEN Bad("bad") ELSE WarcHead(S, line, pos)
  IN IF w.kind = "ok" \/ fmt = "warc" THEN w ELSE ArcHead(S, line, pos, a2w)

MayHaveHttp(type, uri, len) ==
  /\ len # 0 /\ type \in {TResponse, TRequest, TRevisit}
  /\ uri # None /\ (IsPrefixOf(THttp, uri) \/ IsPrefixOf(THttps, uri))

(* options of an iterator *)
DefaultOpt == [fmt |-> "", a2w |-> FALSE, verify |-> FALSE, norec |-> FALSE, ensure |-> FALSE]

(* the record after a head: kind ok / eof / http; block is text[bpos+1..bend],  *)
(* content starts after cpos                                                    *)
Body2(S, h, opt) ==
  LET len == IF h.len = -2 THEN 0 ELSE h.len
      bend == IF len = -1 THEN Len(S) ELSE Ahead(S, h.next, len)
      may == ~opt.norec /\ MayHaveHttp(h.type, h.uri, len)
      p == IF ~may THEN [kind |-> "none", proto |-> <<>>, status |-> <<>>, hdrs |-> <<>>, next |-> h.next]
           ELSE ParseBlock(S, bend, h.next, IF h.type = TRequest THEN HttpVerbs ELSE HttpTypes, opt.verify)
      parsed == p.kind = "ok" /\ (p.status # <<>> \/ p.hdrs # <<>>)
      dflt == [has |-> TRUE, proto |-> THttp10, status |-> T200,
               hdrs |-> (IF h.ctype # None /\ h.ctype # <<>> THEN << <<TContentType, h.ctype>> >> ELSE <<>>)
                        \o (IF len >= 0 THEN << <<TContentLength, NumText(len)>> >> ELSE <<>>)]
  IN [kind |-> IF p.kind = "eof" /\ h.type # TRevisit THEN "eof" ELSE IF p.kind = "bad" THEN "http" ELSE "ok",
      fmt |-> h.fmt, type |-> h.type, uri |-> h.uri, proto |-> h.proto, hdrs |-> h.hdrs, ctype |-> h.ctype, len |-> len,
      http |-> IF parsed THEN [has |-> TRUE, proto |-> p.proto, status |-> p.status, hdrs |-> p.hdrs]
               ELSE IF opt.ensure THEN dflt ELSE NoHttp,
      hproto |-> p.proto,       \* a status line may hold nothing but a protocol: then there are no HTTP headers
      bpos |-> h.next, bend |-> bend, cpos |-> p.next]

(* after a record: one line that is not blank is tolerated (a wrong length),     *)
(* then blank lines: [line |-> next line or <<>>, pos |-> position before it]    *)
AfterRecord(S, pos) ==
  LET line == LineIn(S, Len(S), pos, -1)
  IN SkipBlank(S, pos + Len(line))

(* ends: "end" normal; "multi": several records in a gzip member; "format": not  *)
(* (or not the wanted kind of) archive data; "http": malformed HTTP, verified    *)
Rec(seg, b, off, len, hstart) ==
  [seg |-> seg, type |-> b.type, fmt |-> b.fmt, uri |-> b.uri, proto |-> b.proto, hdrs |-> b.hdrs, ctype |-> b.ctype,
   len |-> b.len, http |-> b.http, hproto |-> b.hproto, bpos |-> b.bpos, bend |-> b.bend, cpos |-> b.cpos, off |-> off, size |-> len, hpos |-> hstart]

RECURSIVE Iter(_, _, _, _, _, _, _, _, _)
(* i: segment, pos: position in it; line: next record's first line if already    *)
(* read (pos is before it); multi: the member held a record before; fmt: known   *)
(* format; off: offset of the next record in the file                            *)
Iter(segs, i, pos, known, multi, fmt, off, opt, acc) ==
  LET S == segs[i].text
      f == SkipBlank(S, pos)
      gz == segs[i].gz
      off1 == IF gz \/ known THEN off ELSE off + W(S, pos + 1, f.pos)
      h == HeadOf(S, f.line, f.pos + Len(f.line), fmt, opt.a2w)
      b == Body2(S, h, opt)
      a == AfterRecord(S, b.bend)
      fileEnd == segs[i].coff + segs[i].clen
      newoff == IF gz THEN fileEnd ELSE off1 + W(S, f.pos + 1, a.pos)
      size == IF gz THEN (IF a.line = <<>> THEN fileEnd - off1 ELSE -1) ELSE W(S, f.pos + 1, b.bend)
      more == i < Len(segs)
      acc1 == Append(acc, Rec(i, b, off1, size, f.pos))
      fmt1 == IF opt.a2w THEN fmt ELSE b.fmt
  IN
  IF f.line = <<>> THEN
     IF gz /\ more THEN Iter(segs, i + 1, 0, FALSE, FALSE, fmt, off1, opt, acc)
     ELSE [recs |-> acc, end |-> "end"]
  ELSE IF h.kind # "ok" THEN [recs |-> acc, end |-> "format"]
  ELSE IF b.kind = "http" THEN [recs |-> acc, end |-> "http"]
  ELSE IF b.kind = "eof" THEN
     IF multi THEN [recs |-> acc, end |-> "multi"]
     ELSE IF gz /\ more THEN Iter(segs, i + 1, 0, FALSE, FALSE, fmt, off1, opt, acc)
     ELSE [recs |-> acc, end |-> "end"]
  ELSE IF multi THEN [recs |-> acc, end |-> "multi"]
  ELSE IF gz /\ a.line = <<>> THEN
     IF more THEN Iter(segs, i + 1, 0, FALSE, FALSE, fmt1, newoff, opt, acc1)
     ELSE [recs |-> acc1, end |-> "end"]
  ELSE Iter(segs, i, a.pos, TRUE, gz, fmt1, newoff, opt, acc1)

ReadAll(segs, opt) ==
  IF segs = <<>> THEN [recs |-> <<>>, end |-> "end"]
  ELSE Iter(segs, 1, 0, FALSE, FALSE, opt.fmt, segs[1].coff, opt, <<>>)

Content(segs, r) == Slice(segs[r.seg].text, r.cpos + 1, r.bend)
Block(segs, r) == Slice(segs[r.seg].text, r.bpos + 1, r.bend)

(* equality of header lists up to generated record ids *)
IsId(t) == Len(t) = 47 /\ IsPrefixOf(<<60,117,114,110,58,117,117,105,100,58>>, t) /\ t[47] = 62
           /\ \A k \in 11..46 : IF k \in {19, 24, 29, 34} THEN t[k] = 45 ELSE t[k] \in 48..57 \cup 97..102
IsIso(t) == /\ Len(t) = 20 /\ \A i \in 1..20 : IF i \in {5, 8} THEN t[i] = 45 ELSE IF i = 11 THEN t[i] = 84 ELSE IF i \in {14, 17} THEN t[i] = COLON
                                              ELSE IF i = 20 THEN t[i] = 90 ELSE IsDigit(t[i])
SameValue(want, got) == IF want = AnyId THEN IsId(got) ELSE IF want = AnyIso THEN IsIso(got) ELSE want = got
SameHeaders(want, got) == Len(want) = Len(got) /\ \A i \in 1..Len(want) : want[i][1] = got[i][1] /\ SameValue(want[i][2], got[i][2])
=============================================================================
