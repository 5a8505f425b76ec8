------------------------------ MODULE MCArchive ------------------------------
(* Archives are built record by record: records of several shapes (payloads    *)
(* that look like record boundaries, blank lines, gzip data; empty blocks;      *)
(* HTTP headers or none), separators, and a distribution over gzip members      *)
(* (or none).  In every state the reader ReadAll must recover exactly what was   *)
(* put in, the extents must tile the file, and a member with several records     *)
(* must be noticed.                                                             *)
EXTENDS Archive, Json, IOUtils, FiniteSets
Depth == atoi(IOEnv.DEPTH)
Wide == atoi(IOEnv.WIDE)
Kind == IOEnv.KIND            \* "warc" / "arc"

(* ---- texts *)
Http200 == <<72,84,84,80,47,49,46,49,32,50,48,48,32,79,75,13,10,88,58,32,121,13,10,13,10>>     \* HTTP/1.1 200 OK CRLF X: y CRLF CRLF
GetReq == <<71,69,84,32,47,97,32,72,84,84,80,47,49,46,49,13,10,72,58,32,104,13,10,13,10>>
Marker == <<87,65,82,67,47,49,46,48,13,10>>         \* WARC/1.0
Resource == <<114,101,115,111,117,114,99,101>>
Conversion == <<99,111,110,118,101,114,115,105,111,110>>
HttpA == <<104,116,116,112,58,47,47,97,47>>         \* http://a/
DnsA == <<100,110,115,58,97>>
Gzip == <<31,139,8,0>>

Given == <<-9>>              \* Content-Length as it is
R1(type, uri, block, len) == [type |-> type, uri |-> uri, block |-> block, len |-> len]
R0(type, uri, block) == R1(type, uri, block, Given)
Shapes == << R0(TResponse, HttpA, Http200 \o <<97,98>>),
             R0(Resource, HttpA, <<13,10,13,10>> \o Marker \o <<13,10>>),
             R0(Resource, None, <<>>),
             R0(TRevisit, HttpA, Http200),
             R0(TResponse, DnsA, Gzip \o <<10>>),
             R0(TRequest, HttpA, GetReq),
             R0(TResponse, None, <<120>>),
             R0(TResponse, HttpA, Http200 \o <<13,10,13,10>> \o Http200),
             R0(Conversion, HttpA, <<10>>),
             R0(TRevisit, HttpA, <<>>) >>
ArcShapes == << R0(TResponse, HttpA, Http200 \o <<97,98>>),
                R0(TResponse, DnsA, <<13,10,10,97>>),
                R0(TResponse, HttpA, Http200 \o Http200 \o <<10>>),
                R0(TArcHeader, TFiledesc, <<49,32,48,32,65,10,85,82,76,10,10,120>>) >>
(* records with problems: length missing or invalid, no URI, HTTP that is none *)
BadHttp == <<0, 32, 255, 13, 10, 13, 10, 120>>
BadShapes == << R0(TResponse, HttpA, Http200 \o <<97,98>>),
                R1(Resource, HttpA, <<97, 10, 98>>, None),
                R1(TResponse, HttpA, <<>>, <<97,98,99>>),
                R0(TResponse, None, Http200),
                R0(TResponse, HttpA, BadHttp),
                R1(TResponse, HttpA, <<>>, <<45,53>>),
                R1(TRequest, None, <<>>, <<>>),
                R0(TRevisit, HttpA, <<120>>),
                R1(TResponse, HttpA, Http200 \o <<97>>, None) >>
TheShapes == IF Kind = "bad" THEN BadShapes ELSE IF Kind = "arc" THEN ArcShapes ELSE Shapes
NShapes == Min2(Len(TheShapes), Wide)

WarcText(r, v, nl) ==
  v \o nl \o TWarcType \o <<COLON, SP>> \o r.type \o nl
  \o (IF r.uri = None THEN <<>> ELSE TTargetUri \o <<COLON, SP>> \o r.uri \o nl)
  \o (IF r.len = None THEN <<>>
      ELSE TContentLength \o <<COLON, SP>> \o (IF r.len = Given THEN NumText(Len(r.block)) ELSE r.len) \o nl) \o nl \o r.block
TypeHtml == <<116,47,104>>
Ip1 == <<49,46,50,46,51,46,52>>
Date14 == <<50,48,49,55,48,51,48,54,48,52,48,50,48,54>>
ArcText(r) == r.uri \o <<SP>> \o Ip1 \o <<SP>> \o Date14 \o <<SP>> \o TypeHtml \o <<SP>> \o NumText(Len(r.block)) \o <<LF>> \o r.block
TextOf(r) == IF Kind = "arc" THEN ArcText(r) ELSE WarcText(r, TWarc10, CRLF)

Seps == IF Kind = "arc" THEN (IF Wide > 2 THEN {<<LF>>, <<LF, LF>>, <<CR, LF>>} ELSE {<<LF>>, <<LF, LF>>})
        ELSE IF Wide > 4 THEN {CRLF \o CRLF, <<LF>>, CRLF \o CRLF \o CRLF} ELSE {CRLF \o CRLF, CRLF \o <<LF>> \o CRLF}
(* at the end of a member a record may end without a separator *)

VARIABLES parts, recs, zip, open
(* parts: texts of the members (one if uncompressed); recs: the shapes and the    *)
(* member each is in; zip: compressed; open: the last member may be extended      *)
vars == <<parts, recs, zip, open>>
Init == parts = <<<<>>>> /\ recs = <<>> /\ zip \in BOOLEAN /\ open = TRUE
AddRec(i, sep) ==
  /\ Len(recs) < Depth
  /\ open
  /\ TheShapes[i].len = None => zip /\ sep = <<>> /\ parts[Len(parts)] = <<>>
  /\ parts' = [parts EXCEPT ![Len(parts)] = parts[Len(parts)] \o TextOf(TheShapes[i]) \o sep]
  /\ recs' = Append(recs, [shape |-> i, m |-> Len(parts)])
  /\ open' = (sep # <<>>)
  /\ UNCHANGED zip
Member == /\ zip /\ Len(parts) < Depth + 1 /\ parts # <<<<>>>>
          /\ (Len(parts) > 1 => parts[Len(parts)] # <<>> \/ parts[Len(parts) - 1] # <<>>)
          /\ parts' = Append(parts, <<>>) /\ open' = TRUE /\ UNCHANGED <<recs, zip>>
Blank == /\ parts[Len(parts)] = <<>>
         /\ parts' = [parts EXCEPT ![Len(parts)] = CRLF] /\ UNCHANGED <<recs, zip, open>>
Next == \/ \E i \in 1..NShapes : \E sep \in Seps \cup {<<>>} : AddRec(i, sep)
        \/ Member \/ Blank

(* an abstract file: each member takes as many bytes as its text plus 20 *)
RECURSIVE SegsFrom(_, _)
SegsFrom(i, off) ==
  IF i > Len(parts) THEN <<>>
  ELSE LET n == Len(parts[i]) + (IF zip THEN 20 ELSE 0) IN
       <<[gz |-> zip, coff |-> off, clen |-> n, text |-> parts[i]]>> \o SegsFrom(i + 1, off + n)
Segs == SegsFrom(1, 0)
Opt == DefaultOpt
Got == ReadAll(Segs, Opt)
PerMember == \A i, j \in 1..Len(recs) : zip /\ i # j => recs[i].m # recs[j].m
FirstBad == LET S == {j \in 2..Len(recs) : zip /\ recs[j].m = recs[j-1].m} IN IF S = {} THEN Len(recs) + 1 ELSE First(S)

RoundTrip ==
  LET g == Got IN
  /\ Len(g.recs) = Min2(Len(recs), FirstBad - 1)
  /\ g.end = (IF PerMember THEN "end" ELSE "multi")
  /\ \A i \in 1..Len(g.recs) :
       LET r == TheShapes[recs[i].shape] IN
       /\ Block(Segs, g.recs[i]) = (IF r.type = TArcHeader THEN Drop(r.block, 10) ELSE r.block)
       /\ g.recs[i].type = r.type
       /\ g.recs[i].uri = r.uri
       /\ g.recs[i].http.has = (MayHaveHttp(r.type, r.uri, Len(r.block)) /\ (r.type = TRevisit => r.block # <<120>>))
Tiles ==
  LET g == Got IN
  PerMember =>
    /\ \A i \in 1..Len(g.recs) : g.recs[i].off >= 0 /\ g.recs[i].size > 0
    /\ \A i \in 2..Len(g.recs) : g.recs[i].off >= g.recs[i-1].off + g.recs[i-1].size
    /\ zip => \A i \in 2..Len(g.recs) : g.recs[i].off = g.recs[i-1].off + g.recs[i-1].size
Random ==      \* reading only an extent gives the record
  LET g == Got IN
  PerMember /\ ~zip => \A i \in 1..Len(g.recs) :
    LET x == g.recs[i]
        cut == <<[gz |-> FALSE, coff |-> 0, clen |-> x.size, text |-> Slice(parts[1], x.off + 1, x.off + x.size)]>>
        h == ReadAll(cut, Opt)
    IN Len(h.recs) = 1 /\ h.recs[1].hdrs = x.hdrs /\ Content(cut, h.recs[1]) = Content(Segs, x)
Inv == RoundTrip /\ Tiles /\ Random
Emit == PrintT("SCN " \o ToJson([parts |-> parts, zip |-> zip, n |-> Len(recs), multi |-> ~PerMember]))
Shown == (recs # <<>> /\ parts[Len(parts)] # <<>>) => Emit
=============================================================================
