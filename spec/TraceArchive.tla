----------------------------- MODULE TraceArchive -----------------------------
(* C03, C04, C07, C10, C12, C16, C20: recorded iterations over archives.         *)
(* case: [id, prop, segs, opt, chk, mode, cut, env, algs, codes, evs]            *)
(* chk: digest checking: "off", "on", "raise"                                    *)
(* mode: "exact": what ReadAll says; "cut": segs is the whole archive, the real  *)
(* iterator was given only the first `cut` bytes of the file;                     *)
(* "any": anything that ends                                                      *)
(* codes: [comp, plain] table of the content codings                              *)
EXTENDS TraceBase, Content, FiniteSets
VARIABLES c, l, v, st, Pl
View == <<c, l, v>>
Case == Cases[c]
Nm(x) == Case.prop \o "." \o x

Plan(cs) ==
  LET r == ReadAll(cs.segs, cs.opt)
      n == Len(r.recs)
      ct == [i \in 1..n |-> Content(cs.segs, r.recs[i])]
      q == IF cs.mode = "cut" THEN ReadAll(cs.csegs, cs.opt).recs ELSE <<>>
  IN [r |-> r, ct |-> ct,
      there |-> [i \in 1..Len(q) |-> i <= n /\ Content(cs.csegs, q[i]) = ct[i]],
      dec |-> IF cs.dec THEN [i \in 1..n |-> Decoded(cs.codes, r.recs[i], ct[i])] ELSE <<>>,
      vd |-> IF cs.chk = "off" THEN [i \in 1..n |-> [v |-> "none", n |-> 0]]
             ELSE [i \in 1..n |-> VerdictOf(cs.segs, r.recs[i], cs.opt, cs.env, cs.algs)]]

(* k: records yielded; raw, dec: positions by record; gone: streams the iterator  *)
(* has read to the end itself; ended                                              *)
Init == /\ c \in 1..Len(Cases) /\ l = 1 /\ v = Running /\ Pl = Plan(Cases[c])
        /\ st = [k |-> 0, raw |-> <<>>, dec |-> <<>>, gone |-> <<>>, full |-> <<>>, ended |-> FALSE]
N == Len(Pl.r.recs)
R(i) == Pl.r.recs[i]

(* position in the file at which the last byte of the block lies *)
FileEnd(i) == LET r == R(i) s == Case.segs[r.seg] IN
              IF s.gz THEN s.coff + s.clen ELSE r.off + r.size
Complete(i) == Case.mode # "cut" \/ FileEnd(i) <= Case.cut
LastComplete == Cardinality({i \in 1..N : Complete(i)})
Whole(i) == i <= N /\ Complete(i)

SameRec(r, e) ==
  IF e.type # r.type THEN "type"
  ELSE IF e.fmt # r.fmt THEN "format"
  ELSE IF e.proto # r.proto THEN "version"
  ELSE IF ~SameHeaders(r.hdrs, e.hdrs) THEN "headers"
  ELSE IF e.ctype # r.ctype THEN "content-type"
  ELSE IF e.len # r.len THEN "length"
  ELSE IF e.http.has # r.http.has THEN "http-headers-present"
  ELSE IF r.http.has /\ (e.http.proto # r.http.proto \/ e.http.status # r.http.status \/ e.http.hdrs # r.http.hdrs) THEN "http-headers"
  ELSE ""

ArchiveErrors == {"ArchiveLoadFailed", "StatusAndHeadersParserException"}
(* the record that is cut off: are all its own headers there?                     *)
HeadThere(i) == i <= N /\ LET r == R(i) IN r.seg <= Len(Case.csegs) /\ r.len >= 0 /\ r.bpos <= Len(Case.csegs[r.seg].text)
SameHead(r, e) == e.type = r.type /\ e.fmt = r.fmt /\ e.proto = r.proto /\ e.len = r.len /\ SameHeaders(r.hdrs, e.hdrs)
Pending(s) == s.k > 0 /\ s.k <= N /\ Pl.vd[s.k].v = "fail" /\ Case.chk = "raise"

NewSt(s) == [s EXCEPT !.k = s.k + 1, !.raw = Append(s.raw, 0), !.dec = Append(s.dec, 0),
                      !.gone = Append([i \in 1..s.k |-> TRUE], FALSE), !.full = Append(s.full, FALSE)]

JudgeNext(ev, s) ==
  CASE ev.kind = "rec" ->
       IF s.ended THEN Reject(Nm("after-end"), ev, s)
       ELSE IF Pending(s) THEN Reject(Nm("raise-mode"), ev, s)
       ELSE IF Whole(s.k + 1) THEN
            LET d == SameRec(R(s.k + 1), ev.rec) IN
            IF d # "" THEN Reject(Nm(d), <<s.k + 1, ev.rec, "expected", R(s.k + 1)>>, s) ELSE Accept(NewSt(s))
       ELSE IF Case.mode = "exact" \/ s.k > LastComplete THEN Reject(Nm("extra-record"), <<s.k + 1, ev.rec, Pl.r.end>>, s)
       ELSE IF Case.mode = "cut" /\ s.k > LastComplete THEN Reject(Nm("partial-records"), <<s.k + 1, ev.rec>>, s)
       ELSE IF Case.mode = "cut" /\ HeadThere(s.k + 1) /\ ~SameHead(R(s.k + 1), ev.rec) THEN Reject(Nm("partial-record-headers"), <<s.k + 1, ev.rec, "expected", R(s.k + 1)>>, s)
       ELSE Accept(NewSt(s))
    [] ev.kind = "stop" ->
       IF s.ended THEN Accept(s)
       ELSE IF Pending(s) THEN Reject(Nm("raise-mode"), ev, s)
       ELSE IF s.k < LastComplete THEN Reject(Nm("missing-record"), <<s.k, N, R(s.k + 1)>>, s)
       ELSE IF Case.mode = "exact" /\ Pl.r.end # "end" THEN Reject(Nm("normal-end"), Pl.r.end, s)
       ELSE Accept([s EXCEPT !.ended = TRUE])
    [] OTHER ->
       IF Case.chk = "raise" /\ ev.exc = "ArchiveLoadFailed" /\ ~s.ended
          /\ (Pending(s) \/ (s.k < N /\ Pl.vd[s.k + 1].v = "fail")) THEN Accept([s EXCEPT !.ended = TRUE])
       ELSE IF ev.exc \notin ArchiveErrors /\ Case.mode = "exact" THEN Reject(Nm("exception"), ev, s)
       ELSE IF s.k < LastComplete THEN Reject(Nm("failed-early"), <<s.k, N, ev, R(s.k + 1)>>, s)
 ELSE IF ev.exc \notin ArchiveErrors THEN Reject(Nm("exception"), ev, s)
       ELSE IF Case.mode = "cut" THEN Accept([s EXCEPT !.ended = TRUE])
       ELSE IF Pl.r.end = "end" THEN Reject(Nm("error-at-end"), ev, s)
       ELSE IF Pl.r.end = "multi" /\ ~ev.gz THEN Reject(Nm("error-says-so"), ev, s)
       ELSE Accept([s EXCEPT !.ended = TRUE])

(* what the stream (raw / dec) of record k holds, and where it is *)
DataOf(ev) == IF ev.k > N THEN <<>> ELSE IF ev.via = "raw" THEN Pl.ct[ev.k] ELSE Pl.dec[ev.k].data
PosOf(ev, s) == IF ev.via = "raw" THEN s.raw[ev.k] ELSE s.dec[ev.k]
Loose(ev, s) == ~Whole(ev.k) \/ s.gone[ev.k] \/ (ev.via = "dec" /\ Pl.dec[ev.k].pre)
(* a record that declares more data than there is: what its stream holds is       *)
(* defined only until the iterator has moved on                                   *)
Short(k) == Whole(k) /\ LET r == R(k) IN r.len > 0 /\ W(Case.segs[r.seg].text, r.bpos + 1, r.bend) < r.len
Moved(s, ev, n) == IF ev.via = "raw" THEN [s EXCEPT !.raw[ev.k] = s.raw[ev.k] + n] ELSE [s EXCEPT !.dec[ev.k] = s.dec[ev.k] + n]

JudgeRead(ev, s) ==
  LET d == DataOf(ev)
      p == PosOf(ev, s)
      full == IF ev.op = "read" THEN ReadAt(d, p, ev.n) ELSE LineAt(d, p, ev.n)
  IN IF Case.chk = "raise" /\ ev.exc = "ArchiveLoadFailed" /\ ev.k = s.k /\ Pending(s) THEN Accept([s EXCEPT !.ended = TRUE])
     ELSE IF ev.exc # "" THEN (IF Case.mode = "cut" /\ ~Whole(ev.k) THEN Accept(s) ELSE Reject(Nm("read-exception"), ev, s))
     ELSE IF Case.mode = "any" \/ (s.gone[ev.k] /\ Short(ev.k)) THEN Accept(s)
     ELSE IF ev.via = "dec" /\ ev.k <= N /\ Pl.dec[ev.k].post THEN
        IF p >= Len(d) \/ Loose(ev, s) \/ LET n == Min2(Len(ev.out), Len(d) - p) IN Slice(ev.out, 1, n) = Slice(d, p + 1, p + n)
        THEN Accept(Moved(s, ev, Len(ev.out))) ELSE Reject(Nm("content"), <<ev, "expected first", full, "at", p>>, s)
     ELSE IF Loose(ev, s) THEN
        IF IsPrefixOf(ev.out, full) \/ (ev.k > N /\ ev.out = <<>>) THEN Accept(Moved(s, ev, Len(ev.out)))
        ELSE Reject(Nm("stray-bytes"), <<ev, p, full>>, s)
     ELSE IF ev.op = "line" /\ ev.out # full THEN Reject(Nm("line"), <<ev, "expected", full, "at", p>>, s)
     ELSE IF ~Partial(full, ev.out) THEN Reject(Nm("content"), <<ev, "expected", full, "at", p>>, s)
     ELSE Accept(Moved(s, ev, Len(ev.out)))

JudgeExtent(ev, s) ==
  IF Case.chk = "raise" /\ ev.exc = "ArchiveLoadFailed" /\ Pending(s) THEN Accept([s EXCEPT !.ended = TRUE])
  ELSE IF ev.exc # "" THEN Reject(Nm("extent-exception"), ev, s)
  ELSE IF Case.mode = "cut" THEN
     IF s.k > LastComplete \/ ev.off = R(s.k).off THEN Accept([s EXCEPT !.gone[s.k] = TRUE])
     ELSE Reject(Nm("offset"), <<ev, R(s.k).off>>, s)
  ELSE IF R(s.k).size < 0 THEN Accept([s EXCEPT !.gone[s.k] = TRUE])
  ELSE IF ev.off # R(s.k).off THEN Reject(Nm("offset"), <<ev, R(s.k).off, s.k>>, s)
  ELSE IF ev.size # R(s.k).size THEN Reject(Nm("length"), <<ev, R(s.k).size, s.k>>, s)
  ELSE Accept([s EXCEPT !.gone[s.k] = TRUE])

(* the archive opened at the extent of record k, or only that extent *)
JudgeReopen(ev, s) ==
  IF ev.exc # "" THEN Reject(Nm("reopen-exception"), ev, s)
  ELSE LET d == SameRec(R(ev.k), ev.rec) IN
       IF d # "" THEN Reject(Nm("reopen-" \o d), <<ev.k, ev.how, ev.rec, "expected", R(ev.k)>>, s)
       ELSE IF ev.out # Pl.ct[ev.k] THEN Reject(Nm("reopen-content"), <<ev.k, ev.how, ev.out, Pl.ct[ev.k]>>, s)
       ELSE Accept(s)

JudgeVerdict(ev, s) ==
  LET d == IF ev.k > N THEN [v |-> "none", n |-> 0] ELSE Pl.vd[ev.k]
      all == ev.k <= Len(Pl.there) /\ Pl.there[ev.k]     \* only line ends or a checksum are cut off
  IN IF Case.mode = "cut" /\ ~Whole(ev.k) THEN
        (IF ev.passed = "pass" /\ ~all THEN Reject(Nm("cut-record-passes"), ev, s) ELSE Accept(s))
     ELSE IF d.v = "env" THEN Reject("machinery-env", ev, s)
     ELSE IF ev.how = "early" THEN
        IF ev.passed = "pass" /\ (d.v # "pass" \/ s.raw[ev.k] < Len(Pl.ct[ev.k])) /\ Pl.ct[ev.k] # <<>> /\ ~s.gone[ev.k] /\ Case.early
        THEN Reject(Nm("early-pass"), <<ev, d>>, s)
        ELSE IF ev.passed = "fail" /\ d.v # "fail" THEN Reject(Nm("early-fail"), <<ev, d>>, s)
        ELSE Accept(s)
     ELSE IF ev.passed # d.v THEN Reject(Nm("verdict"), <<ev, d>>, s)
     ELSE IF ev.nprob # d.n THEN Reject(Nm("problems"), <<ev, d>>, s)
     ELSE Accept(s)

Judge(ev, s) ==
  CASE ev.op = "next" -> IF Case.mode = "any" THEN Accept(s) ELSE JudgeNext(ev, s)
    [] ev.op \in {"read", "line"} -> IF Case.mode = "any" THEN Accept(s) ELSE JudgeRead(ev, s)
    [] ev.op = "extent" -> IF Case.mode = "any" THEN Accept(s) ELSE JudgeExtent(ev, s)
    [] ev.op = "reopen" -> JudgeReopen(ev, s)
    [] ev.op = "verdict" -> JudgeVerdict(ev, s)
    [] ev.op = "drained" ->   \* the driver has read record k until nothing came
         IF Case.mode = "any" \/ Loose(ev, s) \/ s.ended \/ PosOf(ev, s) = Len(DataOf(ev)) \/ (PosOf(ev, s) > Len(DataOf(ev)) /\ ev.via = "dec" /\ Pl.dec[ev.k].post) THEN Accept(s)
         ELSE Reject(Nm("content-incomplete"), <<ev, PosOf(ev, s), DataOf(ev)>>, s)
    [] ev.op = "count" ->     \* so many records were put in
         IF N = ev.n /\ Pl.r.end = "end" THEN Accept(s) ELSE Reject(Nm("count"), <<ev.n, N, Pl.r>>, s)
    [] ev.op = "end" ->       \* iteration was followed to its end
         IF s.ended \/ Case.mode = "any" THEN Accept(s) ELSE Reject(Nm("ends"), ev, s)

Next == /\ v = Running
        /\ Consume(c, l, Len(Case.evs), Judge(Case.evs[l], st), v, l', v', st')
        /\ UNCHANGED <<c, Pl>>
=============================================================================
