------------------------------- MODULE MCRecomp -------------------------------
(* Recompressing every small archive that MCArchive builds, however its records   *)
(* lie in gzip members: all its records are read and written, in order; the       *)
(* result has one member per record and is recompressed into itself.              *)
EXTENDS MCArchive, Cli
(* stands for the hash functions *)
FakeDigest(env, data) == <<115, 104, 97, 49, 58, 65 + (Len(data) % 26), 65 + ((IF data = <<>> THEN 0 ELSE data[1]) % 26)>>

RECURSIVE OutFrom(_, _, _, _)
OutFrom(rd, i, off, acc) ==
  IF i > Len(rd.recs) THEN acc
  ELSE LET r == rd.recs[i]
           w == Rewritten(rd.segs, r, <<>>)
           t == Utf8Block(r.proto, <<>>, w.hdrs) \o w.block \o CRLF \o CRLF
       IN OutFrom(rd, i + 1, off + Len(t) + 20, Append(acc, [gz |-> TRUE, coff |-> off, clen |-> Len(t) + 20, text |-> t]))
Out(rd) == OutFrom(rd, 1, 0, <<>>)
NoIds(hs) == [i \in 1..Len(hs) |-> IF hs[i][2] = AnyId THEN <<hs[i][1], <<60>>>> ELSE hs[i]]
(* generated ids are given some value to write *)
Fixed(rd) == [rd EXCEPT !.recs = [i \in 1..Len(rd.recs) |-> [rd.recs[i] EXCEPT !.hdrs = NoIds(rd.recs[i].hdrs)]]]
First1 == Fixed(Readable(Segs))
Kept(h) == SelectSeq(h, LAMBDA x : Lower(x[1]) \notin {Lower(TBlockDigest), Lower(TPayloadDigest), Lower(TContentLength), Lower(TContentType)})
AllRead == First1.ok /\ Len(First1.recs) = Len(recs)
Second == Readable(Out(First1))
SameRecords ==
  LET a == First1 b == Second IN
  /\ b.ok /\ Len(b.recs) = Len(a.recs) /\ b.segs = Out(a)
  /\ \A i \in 1..Len(a.recs) :
       /\ b.recs[i].seg = i
       /\ b.recs[i].type = a.recs[i].type
       /\ Kept(b.recs[i].hdrs) = Kept(a.recs[i].hdrs)
       /\ b.recs[i].http = a.recs[i].http
       /\ Content(b.segs, b.recs[i]) = Content(a.segs, a.recs[i])
FixedPoint == \* the second run changes nothing
  LET o == Out(First1) o2 == Out(Fixed(Second)) IN
  Len(o) = Len(o2) /\ \A i \in 1..Len(o) : o2[i].text = o[i].text
===============================================================================
