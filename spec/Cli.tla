---------------------------------- MODULE Cli ----------------------------------
(* The commands: index, extract, check and recompress, as functions of the       *)
(* archives (Archive.tla) they are given.                                         *)
EXTENDS Writer, Content

(* ---- index: one line of [name, value] entries per record ---- *)
TOffset == <<111,102,102,115,101,116>>
TFile == <<102,105,108,101,110,97,109,101>>
THttpPrefix == <<104,116,116,112,58>>
TStatus == <<104,116,116,112,58,115,116,97,116,117,115>>
NeedsHttp(fields) == \E i \in 1..Len(fields) : IsPrefixOf(THttpPrefix, fields[i])
IndexOpt(fields) == [DefaultOpt EXCEPT !.a2w = TRUE, !.norec = ~NeedsHttp(fields)]
StatusCode(t) == LET k == IndexFrom(t, SP, 1) IN IF k = 0 THEN t ELSE Slice(t, 1, k - 1)
FieldOf(f, r, name) ==
  CASE f = TOffset -> NumText(r.off)
    [] f = TLength -> NumText(r.size)
    [] f = TFile -> name
    [] f = TStatus -> IF r.type \in {TResponse, TRevisit} /\ r.http.has THEN StatusCode(r.http.status) ELSE None
    [] IsPrefixOf(THttpPrefix, f) -> IF r.http.has THEN Get(r.http.hdrs, Drop(f, 5), None) ELSE None
    [] OTHER -> Get(r.hdrs, f, None)
(* each field once, at the place where it is first asked for *)
RECURSIVE LineFrom(_, _, _, _)
LineFrom(fields, i, r, name) ==
  IF i > Len(fields) THEN <<>>
  ELSE LET v == FieldOf(fields[i], r, name) IN
       (IF v = None \/ \E j \in 1..(i - 1) : fields[j] = fields[i] THEN <<>> ELSE << <<fields[i], v>> >>)
         \o LineFrom(fields, i + 1, r, name)
SameLine(want, got) == Len(want) = Len(got) /\ \A i \in 1..Len(want) : want[i][1] = got[i][1] /\ SameValue(want[i][2], got[i][2])

(* ---- extract ---- *)
HeadBytes(segs, r) ==
  Utf8Block(r.proto, <<>>, r.hdrs)
    \o (IF r.http.has THEN Utf8Block(r.http.proto, r.http.status, r.http.hdrs)
        ELSE IF r.cpos # r.bpos THEN StatusLine(r.hproto, <<>>) \o CRLF ELSE <<>>)
Extracted(segs, r, mode, codes) ==
  CASE mode = "headers" -> HeadBytes(segs, r)
    [] mode = "all" -> HeadBytes(segs, r) \o Content(segs, r)
    [] OTHER -> Decoded(codes, r, Content(segs, r)).data

(* ---- check: what must be said about a record: [off, id, say] ---- *)
Wrong(segs, r, env, algs) ==
  LET b == UnlessCut(segs, r, One(Get(r.hdrs, TBlockDigest, None), Block(segs, r), env, algs))
      p == IF Has(r.hdrs, TSegmentNumber) THEN "none" ELSE UnlessCut(segs, r, One(Get(r.hdrs, TPayloadDigest, None), Content(segs, r), env, algs))
  IN (IF b \in {"fail", "unknown"} THEN {"block"} ELSE {}) \cup (IF p \in {"fail", "unknown"} THEN {"payload"} ELSE {})
SayOf(segs, r, env, algs, verbose) ==
  LET v == VerdictOf(segs, r, DefaultOpt, env, algs).v
      has == ~Empty(r.hdrs, TBlockDigest) \/ ~Empty(r.hdrs, TPayloadDigest)
  IN IF v = "fail" THEN Wrong(segs, r, env, algs)
     ELSE IF v = "env" THEN {"env"}
     ELSE IF ~verbose THEN {} ELSE IF v = "pass" THEN {"pass"} ELSE IF has THEN {"unchecked"} ELSE {"absent"}
Report(segs, recs, env, algs, verbose) ==
  LET E == [i \in 1..Len(recs) |-> [off |-> recs[i].off, id |-> Get(recs[i].hdrs, TRecordId, None),
                                    say |-> SayOf(segs, recs[i], env, algs, verbose)]]
  IN SelectSeq(E, LAMBDA e : e.say # {})

(* ---- recompress ---- *)
RecompOpt == [DefaultOpt EXCEPT !.a2w = TRUE]
Flat(segs) == LET t == Concat([i \in 1..Len(segs) |-> segs[i].text]) IN
              << [gz |-> FALSE, coff |-> 0, clen |-> WLen(t), text |-> t] >>
(* what is read: from the file as it is, else from all its members taken as one text *)
Readable(segs) ==
  LET a == ReadAll(segs, RecompOpt)
      f == IF segs = <<>> THEN segs ELSE Flat(segs)
      b == ReadAll(f, RecompOpt)
  IN IF a.end = "end" THEN [ok |-> TRUE, segs |-> segs, recs |-> a.recs]
     ELSE [ok |-> b.end = "end", segs |-> f, recs |-> b.recs]
(* ---- a record read with options opt, changed by mods and written by a writer   *)
(* with a filter; mods: [what, name, value] with what in add, set, del, hset, hdel *)
RECURSIVE Modded(_, _, _)
Modded(r, mods, i) ==
  IF i > Len(mods) THEN r
  ELSE LET m == mods[i]
           n == CASE m.what = "add" -> [r EXCEPT !.hdrs = Add(r.hdrs, m.name, m.value)]
                  [] m.what = "set" -> [r EXCEPT !.hdrs = Replace(r.hdrs, m.name, m.value)]
                  [] m.what = "del" -> [r EXCEPT !.hdrs = Remove(r.hdrs, m.name)]
                  [] m.what = "hset" -> IF r.http.has THEN [r EXCEPT !.http.hdrs = Replace(r.http.hdrs, m.name, m.value)] ELSE r
                  [] m.what = "hdel" -> IF r.http.has THEN [r EXCEPT !.http.hdrs = Remove(r.http.hdrs, m.name)] ELSE r
       IN Modded(n, mods, i + 1)
Copied(segs, r, opt, filter, env) ==
  LET head == IF r.http.has THEN AsciiBlock(r.http.proto, r.http.status, r.http.hdrs, filter)
              ELSE IF r.cpos # r.bpos THEN StatusLine(r.hproto, <<>>) \o CRLF ELSE <<>>
      content == Content(segs, r)
      block == head \o content
      known == r.len >= 0
      \* where the payload begins is not known
      unparsed == opt.norec /\ ~r.http.has /\ MayHaveHttp(r.type, r.uri, r.len)
      a == IF known THEN r.hdrs
           ELSE LET x == Remove(Remove(r.hdrs, TBlockDigest), TContentType) IN IF r.type = TRevisit THEN x ELSE Remove(x, TPayloadDigest)
      b == IF r.type \in {TWarcinfo, TRevisit} \/ ~Empty(a, TPayloadDigest) \/ unparsed THEN a ELSE Add(a, TPayloadDigest, DigestText(env, content))
      d == IF Empty(b, TBlockDigest) THEN Add(b, TBlockDigest, DigestText(env, block)) ELSE b
      e == IF r.ctype = None THEN d ELSE Replace(d, TContentType, r.ctype)
  IN [block |-> block, hdrs |-> Replace(e, TContentLength, NumText(WLen(block)))]
Rewritten(segs, r, env) == Copied(segs, r, RecompOpt, NoFilter, env)
===============================================================================
