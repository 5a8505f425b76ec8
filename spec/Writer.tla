-------------------------------- MODULE Writer --------------------------------
(* What the writer must produce for a record that it is given.                  *)
(* A record as given ("in"):                                                    *)
(*   kind    "plain", "info" (warcinfo from a name/value list), "revisit"       *)
(*   type, uri (<<>>: none), given (headers), whole (given is the complete       *)
(*   header collection), proto (version), ctype (<<>>: not stated)              *)
(*   http    [has, proto, status, hdrs]: HTTP headers given separately          *)
(*   pay     the payload bytes (may hold the HTTP headers), nopay: none at all   *)
(*   known   the length is stated                                               *)
(*   pair    index of the response this request is written with, or 0           *)
EXTENDS Digest, FiniteSets

TConcurrent == <<87,65,82,67,45,67,111,110,99,117,114,114,101,110,116,45,84,111>>
TProfile == <<87,65,82,67,45,80,114,111,102,105,108,101>>
TRefUri == <<87,65,82,67,45,82,101,102,101,114,115,45,84,111,45,84,97,114,103,101,116,45,85,82,73>>
TRefDate == <<87,65,82,67,45,82,101,102,101,114,115,45,84,111,45,68,97,116,101>>
TWarc11 == <<87,65,82,67,47,49,46,49>>
TSha1 == <<115,104,97,49>>
TMetadata == <<109,101,116,97,100,97,116,97>>
TFields == <<97,112,112,108,105,99,97,116,105,111,110,47,119,97,114,99,45,102,105,101,108,100,115>>
THttpRequest == <<97,112,112,108,105,99,97,116,105,111,110,47,104,116,116,112,59,32,109,115,103,116,121,112,101,61,114,101,113,117,101,115,116>>
THttpResp == <<97,112,112,108,105,99,97,116,105,111,110,47,104,116,116,112,59,32,109,115,103,116,121,112,101,61,114,101,115,112,111,110,115,101>>
TWarcRecord == <<97,112,112,108,105,99,97,116,105,111,110,47,119,97,114,99,45,114,101,99,111,114,100>>
Profile10 == <<104,116,116,112,58,47,47,110,101,116,112,114,101,115,101,114,118,101,46,111,114,103,47,119,97,114,99,47,49,46,48,47,114,101,118,105,115,105,116,47,105,100,101,110,116,105,99,97,108,45,112,97,121,108,111,97,100,45,100,105,103,101,115,116>>
Profile11 == [Profile10 EXCEPT ![31] = 49]
AnyDate == <<-4>>

DefaultCtype(type) ==
  CASE type = TWarcinfo \/ type = TMetadata -> TFields
    [] type = TResponse \/ type = TRevisit -> THttpResp
    [] type = TRequest -> THttpRequest
    [] OTHER -> TWarcRecord

(* text of a warcinfo block: entries without a value are left out *)
InfoText(info) == Utf8Encode(Concat([i \in 1..Len(info) |-> IF info[i][2] = <<>> THEN <<>> ELSE LineOf(info[i])]))
Payload(in) == IF in.kind = "info" THEN InfoText(in.info) ELSE IF in.nopay THEN <<>> ELSE in.pay

(* the HTTP part: [has, bad, proto, status, hdrs, from]: content is the payload  *)
(* after `from`                                                                  *)
HttpPart(in) ==
  LET pay == Payload(in)
      none == [has |-> FALSE, bad |-> FALSE, proto |-> <<>>, status |-> <<>>, hdrs |-> <<>>, from |-> 0]
  IN IF in.http.has THEN [has |-> TRUE, bad |-> FALSE, proto |-> in.http.proto, status |-> in.http.status, hdrs |-> in.http.hdrs, from |-> 0]
     ELSE IF in.nopay \/ pay = <<>> \/ in.uri = <<>> \/ ~MayHaveHttp(in.type, in.uri, 1) THEN none
     ELSE LET p == ParseBlock(pay, Len(pay), 0, IF in.type = TRequest THEN HttpVerbs ELSE HttpTypes, TRUE) IN
          IF p.kind = "ok" THEN [has |-> TRUE, bad |-> FALSE, proto |-> p.proto, status |-> p.status, hdrs |-> p.hdrs, from |-> p.next]
          ELSE [none EXCEPT !.bad = TRUE]

(* everything about the block: [bad, has, head, content, block, hdrs] *)
Parts(in, filter) ==
  LET h == HttpPart(in)
      head == IF h.has THEN AsciiBlock(h.proto, h.status, h.hdrs, filter) ELSE <<>>
      content == Drop(Payload(in), h.from)
      real == h.has /\ (h.status # <<>> \/ h.hdrs # <<>> \/ h.proto # <<>>)
      only == in.type = TRevisit /\ real
  IN [bad |-> h.bad, real |-> real, head |-> head, content |-> content, block |-> IF only THEN head ELSE head \o content, http |-> h]

DigestText(env, data) ==
  LET E == EnvFor(env, TSha1, data) IN
  IF E = {} THEN <<-5>> ELSE TSha1 \o <<COLON>> \o Base32Encode(env[First(E)].dig)

(* ---- the headers *)
Empty(h, name) == Get(h, name, <<>>) \in {<<>>, None}
Base(in) ==
  LET h0 == IF in.whole THEN in.given
            ELSE IF in.kind = "info" THEN << <<TWarcType, TWarcinfo>> >> \o (IF in.filename = <<>> THEN <<>> ELSE << <<TFilename, in.filename>> >>)
            ELSE LET a == Replace(in.given, TWarcType, in.type)
                 IN IF in.uri = <<>> THEN a ELSE Replace(a, TTargetUri, in.uri)
      h1 == IF in.whole \/ ~Empty(h0, TRecordId) THEN h0 ELSE Add(h0, TRecordId, AnyId)
      h2 == IF in.whole \/ ~Empty(h1, TDate) THEN h1 ELSE Add(h1, TDate, AnyDate)
      h3 == IF in.kind # "revisit" THEN h2
            ELSE h2 \o << <<TProfile, IF in.proto = TWarc11 THEN Profile11 ELSE Profile10>>, <<TRefUri, in.ruri>>, <<TRefDate, in.rdate>>,
                          <<TPayloadDigest, in.digest>> >>
  IN h3
Final(in, p, env, pair) ==     \* pair: [id, date, uri] of the response
  LET h3 == Base(in)
      h4 == IF in.pair = 0 THEN h3
            ELSE LET a == Replace(Replace(h3, TTargetUri, pair.uri), TDate, pair.date)
                 IN IF pair.id = None THEN a ELSE Add(a, TConcurrent, pair.id)
      h5 == IF in.known THEN h4
            ELSE LET a == Remove(h4, TBlockDigest) IN IF in.type = TRevisit THEN a ELSE Remove(a, TPayloadDigest)
      h6 == IF in.type \in {TWarcinfo, TRevisit} \/ ~Empty(h5, TPayloadDigest) THEN h5
            ELSE Add(h5, TPayloadDigest, DigestText(env, p.content))
      h7 == IF Empty(h6, TBlockDigest) THEN Add(h6, TBlockDigest, DigestText(env, p.block)) ELSE h6
      ct == IF in.ctype # <<>> THEN in.ctype
            ELSE IF in.kind = "info" \/ Empty(in.given, TContentType) THEN DefaultCtype(in.type) ELSE Get(in.given, TContentType, None)
      h8 == Replace(h7, TContentType, ct)
  IN Replace(h8, TContentLength, NumText(WLen(p.block)))

IsIsoText(t, micros) ==
  /\ Len(t) = IF micros THEN 27 ELSE 20
  /\ \A i \in 1..Len(t) : IF i \in {5, 8} THEN t[i] = 45 ELSE IF i = 11 THEN t[i] = 84 ELSE IF i \in {14, 17} THEN t[i] = COLON
                          ELSE IF i = Len(t) THEN t[i] = 90 ELSE IF micros /\ i = 20 THEN t[i] = 46 ELSE IsDigit(t[i])

Fits(want, got, in, ev) ==
  IF want = AnyId THEN IsId(got)
  ELSE IF want = AnyIso THEN IsIso(got)
  ELSE IF want = AnyDate THEN IsIsoText(got, in.proto = TWarc11) /\ LexLe(ev.t0, got, 1) /\ LexLe(got, ev.t1, 1)
  ELSE want = got

(* headers whose place among the others is not promised *)
Loosely == {Lower(TContentType), Lower(TContentLength), Lower(TBlockDigest), Lower(TPayloadDigest)}
GivenNames(in) == {Lower(in.given[i][1]) : i \in 1..Len(in.given)} \ Loosely
(* entry i of wo occurs in go as often as in wo? *)
Miss(wo, go, i, in, ev) ==
  Cardinality({j \in 1..Len(go) : Lower(go[j][1]) = Lower(wo[i][1]) /\ Fits(wo[i][2], go[j][2], in, ev)})
    # Cardinality({j \in 1..Len(wo) : Lower(wo[j][1]) = Lower(wo[i][1]) /\ wo[j][2] = wo[i][2]})
(* "" if got is want up to the order of generated entries, else what is wrong *)
HeaderDiff(want, got, in, ev) ==
  LET G == GivenNames(in)
      wg == SelectSeq(want, LAMBDA h : Lower(h[1]) \in G)
      gg == SelectSeq(got, LAMBDA h : Lower(h[1]) \in G)
      wo == SelectSeq(want, LAMBDA h : Lower(h[1]) \notin G)
      go == SelectSeq(got, LAMBDA h : Lower(h[1]) \notin G)
  IN IF Len(wg) # Len(gg) \/ \E i \in 1..Len(wg) : wg[i][1] # gg[i][1] \/ ~Fits(wg[i][2], gg[i][2], in, ev) THEN "given-header"
     ELSE IF \E i \in 1..Len(wo) : Miss(wo, go, i, in, ev)
          THEN LET i == First({i \in 1..Len(wo) : Miss(wo, go, i, in, ev)})
                   n == Lower(wo[i][1])
               IN IF n = Lower(TBlockDigest) THEN "block-digest" ELSE IF n = Lower(TPayloadDigest) THEN "payload-digest"
                  ELSE IF n = Lower(TContentLength) THEN "content-length" ELSE "added-header"
     ELSE IF Len(wo) # Len(go) THEN "extra-header" ELSE ""

(* ---- one written record in a text, from pos: [clause, next, hdrs] *)
Versions == <<TWarc11, TWarc10>>
WrittenAs(text, pos, versions, in, block, want, ev) ==
  LET q == ParseBlock(text, Len(text), pos, versions, TRUE)
      bend == q.next + Len(block)
      d == HeaderDiff(want, q.hdrs, in, ev)
      res(x) == [clause |-> x, next |-> bend + 4, hdrs |-> q.hdrs, want |-> want, got |-> q]
  IN IF q.kind # "ok" \/ q.proto # in.proto \/ q.status # <<>> THEN res("version-line")
     ELSE IF Slice(text, pos + 1, q.next) # Utf8Block(in.proto, <<>>, q.hdrs) THEN res("header-lines")
     ELSE IF Slice(text, q.next + 1, bend) # block THEN res("block")
     ELSE IF Slice(text, bend + 1, bend + 4) # <<13, 10, 13, 10>> THEN res("framing")
     ELSE res(d)
WrittenAt(text, pos, in, p, env, pair, ev) == WrittenAs(text, pos, Versions, in, p.block, Final(in, p, env, pair), ev)

(* ---- what reading the record back must give *)
ReadBack(in, p, want) ==
  LET uri == Get(want, TTargetUri, None)
      type == Get(want, TWarcType, None)
      fu == IF uri = None THEN None ELSE FixUri(uri)
      may == MayHaveHttp(type, fu, WLen(p.block)) /\ p.http.has
  IN [type |-> type, hdrs |-> IF uri = None \/ fu = uri THEN want ELSE Replace(want, TTargetUri, fu),
      has |-> may /\ p.real, content |-> IF may THEN Drop(p.block, Len(p.head)) ELSE p.block,
      http |-> p.http]
===============================================================================
